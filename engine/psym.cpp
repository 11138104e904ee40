// psym: a small symbolic executor for LLVM IR (as emitted by clang for C++),
// deciding assertions with Z3.
//
//   psym MODULE.bc ENTRY OUT.json [--max-instr N] [--time S] [--qtime MS] [--inputs FILE]
//
// Inputs obtained through vf_nondet_* are symbolic variables, vf_uf* are
// uninterpreted functions, vf_assume constrains a path, vf_assert has to hold
// on every feasible path.  Every feasible path is explored (depth first); a
// branch is followed only if the solver says it is satisfiable.  Memory is
// modelled byte-wise, with liveness (scope, heap) and initialisation.
//
// --inputs FILE runs the very same interpreter with given concrete inputs (one
// number per line) and prints what vf_trace gets, to validate it against a
// native run of the same harness.
#include <llvm/ADT/APFloat.h>
#include <llvm/ADT/DenseMap.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <unistd.h>
#include <z3.h>

#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using namespace llvm;
typedef uint64_t u64;
typedef unsigned __int128 u128;

static double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ---------------------------------------------------------------- Z3 helpers
static Z3_context Z;
typedef Z3_ast E;
static E keep(E a) { Z3_inc_ref(Z, a); return a; }
static Z3_sort BV(unsigned w) {
    static std::map<unsigned, Z3_sort> m;
    auto &s = m[w];
    if (!s) { s = Z3_mk_bv_sort(Z, w); Z3_inc_ref(Z, Z3_sort_to_ast(Z, s)); }
    return s;
}
static Z3_sort BOOL() { static Z3_sort s = Z3_mk_bool_sort(Z); return s; }
static unsigned bvw(E e) {
    Z3_sort s = Z3_get_sort(Z, e);
    return Z3_get_sort_kind(Z, s) == Z3_BOOL_SORT ? 1 : Z3_get_bv_sort_size(Z, s);
}
static bool isBoolE(E e) { return Z3_get_sort_kind(Z, Z3_get_sort(Z, e)) == Z3_BOOL_SORT; }
static E num(u64 v, unsigned w) {
    if (w == 1) return v & 1 ? Z3_mk_true(Z) : Z3_mk_false(Z);
    return keep(Z3_mk_unsigned_int64(Z, v, BV(w)));
}
static E mkNot(E a) { return keep(Z3_mk_not(Z, a)); }
static E mkAnd(E a, E b) { E x[2] = { a, b }; return keep(Z3_mk_and(Z, 2, x)); }
static E mkOr(E a, E b) { E x[2] = { a, b }; return keep(Z3_mk_or(Z, 2, x)); }
static E mkIte(E c, E a, E b) { return a == b ? a : keep(Z3_mk_ite(Z, c, a, b)); }
static E mkEq(E a, E b) { return keep(Z3_mk_eq(Z, a, b)); }
static E simp(E a) { return keep(Z3_simplify(Z, a)); }
static int boolConst(E a) { // 1 true, 0 false, -1 otherwise
    Z3_lbool b = Z3_get_bool_value(Z, a);
    return b == Z3_L_TRUE ? 1 : b == Z3_L_FALSE ? 0 : -1;
}
static bool numVal(E e, u64 &v) {
    if (Z3_get_ast_kind(Z, e) != Z3_NUMERAL_AST) return false;
    return Z3_get_numeral_uint64(Z, e, &v);
}
static Z3_decl_kind dk(E e) {
    if (Z3_get_ast_kind(Z, e) != Z3_APP_AST) return Z3_OP_UNINTERPRETED;
    return Z3_get_decl_kind(Z, Z3_get_app_decl(Z, Z3_to_app(Z, e)));
}
static E mkExtract(unsigned hi, unsigned lo, E e) {
    unsigned w = bvw(e);
    if (lo == 0 && hi == w - 1) return e;
    if (dk(e) == Z3_OP_CONCAT) {
        Z3_app a = Z3_to_app(Z, e);
        unsigned n = Z3_get_app_num_args(Z, a), off = w;
        for (unsigned i = 0; i < n; ++i) {
            E x = Z3_get_app_arg(Z, a, i);
            unsigned xw = bvw(x);
            off -= xw;
            if (lo >= off && hi < off + xw) return mkExtract(hi - off, lo - off, x);
        }
    }
    return keep(Z3_simplify(Z, keep(Z3_mk_extract(Z, hi, lo, e))));
}
static E mkConcat(E hi, E lo) { return keep(Z3_mk_concat(Z, hi, lo)); }
static E boolToBv(E b, unsigned w) { return keep(Z3_mk_ite(Z, b, num(1, w), num(0, w))); }
static E bvLowBit(E e) { // extract bit 0 as Bool
    if (dk(e) == Z3_OP_ITE) {
        Z3_app a = Z3_to_app(Z, e);
        u64 x, y;
        if (numVal(Z3_get_app_arg(Z, a, 1), x) && numVal(Z3_get_app_arg(Z, a, 2), y)) {
            E c = Z3_get_app_arg(Z, a, 0);
            if ((x & 1) == (y & 1)) return x & 1 ? Z3_mk_true(Z) : Z3_mk_false(Z);
            return x & 1 ? keep(c) : mkNot(c);
        }
    }
    return keep(Z3_mk_eq(Z, mkExtract(0, 0, e), keep(Z3_mk_unsigned_int64(Z, 1, BV(1)))));
}

// -------------------------------------------------------------------- values
struct Cell {
    uint8_t kind = 0; // 0 uninitialised, 1 concrete, 2 byte idx of e
    uint8_t c = 0;
    uint16_t idx = 0;
    E e = nullptr;
};
struct Val {
    enum K : uint8_t { None, Conc, Sym, Cells, Agg } k = None;
    uint32_t w = 0;
    u64 c = 0;
    E e = nullptr;
    std::shared_ptr<std::vector<Cell>> cells;
    std::shared_ptr<std::vector<Val>> agg;
    static Val conc(u64 v, unsigned w) {
        Val r; r.k = Conc; r.w = w; r.c = w >= 64 ? v : v & ((u64(1) << w) - 1); return r;
    }
    static Val sym(E e) {
        unsigned w = bvw(e);
        if (w == 1) {
            if (!isBoolE(e)) { e = keep(Z3_mk_eq(Z, e, keep(Z3_mk_unsigned_int64(Z, 1, BV(1))))); }
            int b = boolConst(e);
            if (b >= 0) return conc(b, 1);
        } else if (w <= 64) {
            u64 v;
            if (numVal(e, v)) return conc(v, w);
        }
        Val r; r.k = Sym; r.w = w; r.e = e; return r;
    }
    static Val undef(unsigned w) {
        Val r; r.k = Cells; r.w = w;
        r.cells = std::make_shared<std::vector<Cell>>((w + 7) / 8);
        return r;
    }
};

static u64 undefCount = 0;
static std::unordered_set<E> undefVars;
static E freshUndef(unsigned w) {
    std::string n = "undef!" + std::to_string(undefCount++);
    E e = keep(Z3_mk_const(Z, Z3_mk_string_symbol(Z, n.c_str()), w == 1 ? BOOL() : BV(w)));
    undefVars.insert(e);
    return e;
}
static E cellExpr(Cell &c) {
    if (c.kind == 1) return num(c.c, 8);
    if (c.kind == 2) return mkExtract(c.idx * 8 + 7, c.idx * 8, c.e);
    return freshUndef(8);
}
static E toExpr(const Val &v) {
    switch (v.k) {
    case Val::Conc: return num(v.c, v.w);
    case Val::Sym: return v.e;
    case Val::Cells: {
        if (v.w % 8) return freshUndef(v.w);
        E r = nullptr;
        for (auto &c : *v.cells) { E x = cellExpr(c); r = r ? mkConcat(x, r) : x; }
        return r;
    }
    default: fprintf(stderr, "toExpr on aggregate\n"); abort();
    }
}
static void toCells(const Val &v, Cell *out, unsigned n) { // n bytes
    switch (v.k) {
    case Val::Conc:
        for (unsigned i = 0; i < n; ++i) { out[i].kind = 1; out[i].c = i < 8 ? uint8_t(v.c >> (8 * i)) : 0; }
        break;
    case Val::Sym: {
        E e = v.e;
        if (v.w == 1) e = boolToBv(e, 8);
        if (bvw(e) < n * 8) e = keep(Z3_mk_zero_ext(Z, n * 8 - bvw(e), e));
        if (dk(e) == Z3_OP_CONCAT) {
            for (unsigned i = 0; i < n; ++i) {
                E b = mkExtract(i * 8 + 7, i * 8, e);
                u64 x;
                if (undefVars.count(b)) { out[i] = Cell{}; continue; }
                if (numVal(b, x)) { out[i].kind = 1; out[i].c = x; out[i].e = nullptr; }
                else { out[i].kind = 2; out[i].idx = i; out[i].e = e; }
            }
        } else
            for (unsigned i = 0; i < n; ++i) { out[i].kind = 2; out[i].idx = i; out[i].e = e; }
        break;
    }
    case Val::Cells:
        for (unsigned i = 0; i < n; ++i) out[i] = i < v.cells->size() ? (*v.cells)[i] : Cell{};
        break;
    default: fprintf(stderr, "toCells on aggregate\n"); abort();
    }
}
static Val fromCells(const Cell *c, unsigned n) {
    bool allc = true, anyu = false;
    for (unsigned i = 0; i < n; ++i) { allc &= c[i].kind == 1; anyu |= c[i].kind == 0; }
    if (allc && n <= 8) {
        u64 v = 0;
        for (unsigned i = 0; i < n; ++i) v |= u64(c[i].c) << (8 * i);
        return Val::conc(v, n * 8);
    }
    if (anyu) {
        Val r; r.k = Val::Cells; r.w = n * 8;
        r.cells = std::make_shared<std::vector<Cell>>(c, c + n);
        return r;
    }
    if (c[0].kind == 2 && c[0].idx == 0 && bvw(c[0].e) == n * 8) {
        bool same = true;
        for (unsigned i = 1; i < n; ++i) same &= c[i].kind == 2 && c[i].e == c[0].e && c[i].idx == i;
        if (same) return Val::sym(c[0].e);
    }
    if (c[0].kind == 2) { // contiguous slice of one expression
        bool same = true;
        for (unsigned i = 1; i < n; ++i) same &= c[i].kind == 2 && c[i].e == c[0].e && c[i].idx == c[0].idx + i;
        if (same) return Val::sym(mkExtract((c[0].idx + n) * 8 - 1, c[0].idx * 8, c[0].e));
    }
    E r = nullptr;
    for (unsigned i = 0; i < n; ++i) { Cell t = c[i]; E x = cellExpr(t); r = r ? mkConcat(x, r) : x; }
    return Val::sym(r);
}

// -------------------------------------------------------------------- memory
struct Obj {
    u64 base = 0, size = 0;
    enum Kind : uint8_t { Stack, Heap, Global, Exc } kind = Stack;
    bool alive = true, ro = false;
    uint8_t allocWith = 0; // 1 malloc, 2 new, 3 new[]
    std::vector<Cell> b;
    const char *what = "";
};
typedef std::shared_ptr<Obj> ObjP;

struct FuncInfo {
    DenseMap<const Value *, unsigned> slot;
    unsigned n = 0;
};
static DenseMap<const Function *, FuncInfo *> finfo;
static FuncInfo *info(const Function *F) {
    auto &p = finfo[F];
    if (!p) {
        p = new FuncInfo;
        for (auto &a : F->args()) p->slot[&a] = p->n++;
        for (auto &B : *F)
            for (auto &I : B)
                if (!I.getType()->isVoidTy()) p->slot[&I] = p->n++;
    }
    return p;
}

struct Frame {
    const Function *F = nullptr;
    FuncInfo *fi = nullptr;
    BasicBlock::const_iterator pc;
    const BasicBlock *bb = nullptr, *prev = nullptr;
    std::vector<Val> regs;
    std::vector<u64> allocas;
    const CallBase *site = nullptr; // in the caller
    u64 freeOnReturn = 0;           // exception object to release afterwards
    std::vector<u64> stacksave;
};
struct Exc { u64 obj = 0; u64 ti = 0; u64 dtor = 0; int handlers = 0; u64 adj = 0; /* offset of the caught base */ };
struct NondetRec { std::string type; E e; unsigned w; };
struct UfRec { int id; std::vector<E> args; E res; };

struct State {
    std::vector<Frame> st;
    std::map<u64, ObjP> mem;
    u64 brk = 0x100000000ull;
    std::vector<E> pc;
    std::vector<NondetRec> nd;
    std::vector<UfRec> uf;
    std::map<u64, Exc> excs;
    std::vector<u64> caught;
    int uncaught = 0;
    u64 inflight = 0;
    u64 instrs = 0;
    std::vector<std::string> trail; // unused placeholder for diagnostics
};
typedef std::unique_ptr<State> StateP;

// -------------------------------------------------------------- global state
static LLVMContext LC;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static DenseMap<const GlobalValue *, u64> gaddr;
static std::map<u64, const GlobalVariable *> gvByAddr;
static DenseMap<u64, const Function *> fnByAddr;
static std::map<u64, ObjP> gInit; // pristine global objects by address

struct Violation {
    std::string kind, id, where;
    std::vector<std::pair<std::string, u64>> nondet;
    std::vector<std::pair<int, std::pair<std::vector<u64>, u64>>> uf;
    bool hasModel = false;
};
static std::vector<Violation> violations;
static std::set<std::string> violated;
static std::set<std::string> covered, unmodelled, incomplete;
static std::map<std::string, u64> assertsChecked;
static std::unordered_set<const Function *> execFns;
static u64 nInstr = 0, nPaths = 0, nForks = 0, nQueries = 0, nSat = 0, nUnsat = 0, nUnknown = 0, nPruned = 0, nAssert = 0, nDischarged = 0;
static double solverTime = 0, tStart = 0, timeLimit = 600, graceTime = 1e9;
static u64 maxInstrPerPath = 20000000;
static unsigned qtime = 60000;
static bool concreteMode = false;
static std::vector<u64> inputs;
static size_t inputPos = 0;
static FILE *dumpFile = nullptr;
static u64 dumpLeft = 0;
static FILE *pathFile = nullptr; // one concrete input per explored path
static u64 pathLeft = 0;

static std::vector<StateP> work;
struct PathEnd { };
static StateP cur;

// -------------------------------------------------------------------- solver
static Z3_solver S;
static std::vector<E> sstack;
static void syncSolver(const std::vector<E> &pc) {
    size_t n = 0;
    while (n < sstack.size() && n < pc.size() && sstack[n] == pc[n]) ++n;
    if (n < sstack.size()) {
        Z3_solver_pop(Z, S, sstack.size() - n);
        sstack.resize(n);
    }
    while (sstack.size() < pc.size()) {
        Z3_solver_push(Z, S);
        Z3_solver_assert(Z, S, pc[sstack.size()]);
        sstack.push_back(pc[sstack.size()]);
    }
}
static std::string dumpQuery(E extra);
// returns 1 sat, 0 unsat, -1 unknown
static int check(const std::vector<E> &pc, E extra, std::function<void(Z3_model)> onModel = nullptr) {
    double t = now();
    syncSolver(pc);
    Z3_lbool r;
    ++nQueries;
    if (extra) {
        Z3_solver_push(Z, S);
        Z3_solver_assert(Z, S, extra);
    }
    r = Z3_solver_check(Z, S);
    if (dumpFile && dumpLeft && r != Z3_L_UNDEF) {
        --dumpLeft;
        fprintf(dumpFile, "; expect %s\n%s(check-sat)\n; end\n", r == Z3_L_TRUE ? "sat" : "unsat", Z3_solver_to_string(Z, S));
    }
    if (r == Z3_L_TRUE && onModel) {
        Z3_model m = Z3_solver_get_model(Z, S);
        Z3_model_inc_ref(Z, m);
        onModel(m);
        Z3_model_dec_ref(Z, m);
    }
    if (extra) Z3_solver_pop(Z, S, 1);
    solverTime += now() - t;
    if (r == Z3_L_TRUE) { ++nSat; return 1; }
    if (r == Z3_L_FALSE) { ++nUnsat; return 0; }
    ++nUnknown;
    incomplete.insert("solver returned unknown (time limit per query)");
    return -1;
}

static std::string whereAmI(const State &s) {
    std::string r;
    int n = 0;
    for (size_t i = s.st.size(); i-- > 0 && n < 4; ++n) {
        std::string d = demangle(s.st[i].F->getName().str());
        if (d.size() > 160) d = d.substr(0, 157) + "...";
        r += (n ? " <- " : "") + d;
    }
    return r;
}
static u64 modelVal(Z3_model m, E e) {
    Z3_ast out = nullptr;
    if (!Z3_model_eval(Z, m, e, true, &out)) return 0;
    keep(out);
    if (isBoolE(out)) return boolConst(out) == 1;
    u64 v = 0;
    if (!numVal(out, v)) { E q = simp(out); numVal(q, v); }
    return v;
}
// Reports a violation if the path condition and `extra` are satisfiable.
static void report(State &s, const std::string &kind, const std::string &id, E extra = nullptr) {
    std::string key = kind + ":" + id;
    if (kind != "assert") key += ":" + s.st.back().F->getName().str();
    if (violated.count(key)) return;
    Violation v;
    v.kind = kind; v.id = id; v.where = whereAmI(s);
    if (check(s.pc, extra, [&](Z3_model m) {
            v.hasModel = true;
            for (auto &n : s.nd) v.nondet.push_back({ n.type, modelVal(m, n.e) });
            for (auto &u : s.uf) {
                std::vector<u64> a;
                for (auto x : u.args) a.push_back(modelVal(m, x));
                v.uf.push_back({ u.id, { a, modelVal(m, u.res) } });
            }
        }) == 1) {
        violated.insert(key);
        violations.push_back(v);
        if (violations.size() == 1) timeLimit = std::min(timeLimit, now() - tStart + graceTime);
    }
}
[[noreturn]] static void endPath() { throw PathEnd{}; }
[[noreturn]] static void fail(State &s, const std::string &kind, const std::string &id) {
    report(s, kind, id);
    endPath();
}
[[noreturn]] static void unsupported(const std::string &what) {
    incomplete.insert("unsupported: " + what);
    endPath();
}

static void writePath(State &s) {
    if (!pathFile || !pathLeft) return;
    --pathLeft;
    check(s.pc, nullptr, [&](Z3_model m) {
        for (auto &n : s.nd) fprintf(pathFile, "n %llu\n", (unsigned long long)modelVal(m, n.e));
        for (auto &u : s.uf) {
            fprintf(pathFile, "u %d %zu", u.id, u.args.size());
            for (auto x : u.args) fprintf(pathFile, " %llu", (unsigned long long)modelVal(m, x));
            fprintf(pathFile, " %llu\n", (unsigned long long)modelVal(m, u.res));
        }
        fprintf(pathFile, "end\n");
    });
}

// ------------------------------------------------- undefined value detection
static std::unordered_map<E, bool> undefMemo;
static bool hasUndef(E e) {
    if (!undefCount) return false;
    auto it = undefMemo.find(e);
    if (it != undefMemo.end()) return it->second;
    bool r = false;
    if (undefVars.count(e)) r = true;
    else if (Z3_get_ast_kind(Z, e) == Z3_APP_AST) {
        Z3_app a = Z3_to_app(Z, e);
        unsigned n = Z3_get_app_num_args(Z, a);
        for (unsigned i = 0; i < n && !r; ++i) r = hasUndef(Z3_get_app_arg(Z, a, i));
    }
    keep(e);
    undefMemo[e] = r;
    return r;
}
static void collectUndef(E e, std::set<E> &out, std::unordered_set<E> &seen) {
    if (!seen.insert(e).second) return;
    if (undefVars.count(e)) { out.insert(e); return; }
    if (Z3_get_ast_kind(Z, e) == Z3_APP_AST) {
        Z3_app a = Z3_to_app(Z, e);
        for (unsigned i = 0, n = Z3_get_app_num_args(Z, a); i < n; ++i) collectUndef(Z3_get_app_arg(Z, a, i), out, seen);
    }
}
// Does the value of e depend on uninitialised memory?
static void checkUndef(State &s, E e, const char *what) {
    if (!hasUndef(e)) return;
    std::set<E> vars; std::unordered_set<E> seen;
    collectUndef(e, vars, seen);
    std::vector<E> from(vars.begin(), vars.end()), to;
    for (auto v : from) to.push_back(freshUndef(bvw(v)));
    E e2 = keep(Z3_substitute(Z, e, from.size(), from.data(), to.data()));
    E d = mkNot(mkEq(e, e2));
    if (check(s.pc, d) == 1) {
        report(s, "uninit", what, d);
        endPath();
    }
}

// ------------------------------------------------------------ memory helpers
static u64 allocObj(State &s, u64 size, Obj::Kind k, unsigned align = 16, const char *what = "") {
    if (align < 16) align = 16;
    s.brk = (s.brk + align - 1) / align * align;
    auto o = std::make_shared<Obj>();
    o->base = s.brk; o->size = size; o->kind = k; o->what = what;
    o->b.resize(size);
    s.brk += size + 64;
    s.mem[o->base] = o;
    return o->base;
}
static void materialise(const GlobalVariable *g, Obj &o);
static ObjP *findObj(State &s, u64 a) {
    auto it = s.mem.upper_bound(a);
    if (it != s.mem.begin()) {
        --it;
        if (a < it->first + it->second->size || (a == it->first)) return &it->second;
    }
    // a global that has not been touched yet
    auto g = gvByAddr.upper_bound(a);
    if (g != gvByAddr.begin()) {
        --g;
        u64 sz = g->second->getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g->second->getValueType()) : 0;
        if (a < g->first + sz) {
            auto &gi = gInit[g->first];
            if (!gi) {
                gi = std::make_shared<Obj>();
                gi->base = g->first; gi->size = sz; gi->kind = Obj::Global; gi->ro = g->second->isConstant();
                gi->what = "global"; gi->b.resize(sz);
                materialise(g->second, *gi);
            }
            return &(s.mem[g->first] = gi);
        }
    }
    return nullptr;
}
static Obj &writable(ObjP *p) {
    if (p->use_count() > 1) *p = std::make_shared<Obj>(**p);
    return **p;
}
static ObjP *access(State &s, u64 a, u64 n, bool write, const char *what) {
    ObjP *p = findObj(s, a);
    if (!p) {
        fail(s, "memory", std::string(what) + (a < 4096 ? " through a null pointer" : " of memory that is not (or no longer) allocated"));
    }
    Obj &o = **p;
    if (!o.alive) fail(s, "memory", std::string(what) + " of an object after the end of its lifetime");
    if (a + n > o.base + o.size) fail(s, "memory", std::string(what) + " out of bounds");
    if (write && o.ro) fail(s, "memory", std::string(what) + " of constant memory");
    return p;
}

// evaluates to a single concrete number, forking over all feasible values
static void forkOn(State &s, E cond); // assume cond in current state, push the other side
struct Retry {};
static u64 concretise(State &s, const Val &v, const char *what) {
    if (v.k == Val::Conc) return v.c;
    E e = toExpr(v);
    checkUndef(s, e, what);
    e = simp(e);
    u64 x;
    if (numVal(e, x)) return x;
    u64 val = 0;
    int r = check(s.pc, nullptr, [&](Z3_model m) { val = modelVal(m, e); });
    if (r != 1) endPath();
    E c = mkEq(e, num(val, v.w));
    // the rest of the values: same state, same instruction, executed again
    int o = check(s.pc, mkNot(c));
    if (o != 0) {
        auto other = std::make_unique<State>(s);
        other->pc.push_back(mkNot(c));
        // the instruction is re-executed by the other state
        work.push_back(std::move(other));
        ++nForks;
    }
    s.pc.push_back(c);
    return val;
}

// ------------------------------------------------------------------ constants
static Val constVal(const Constant *c);
static unsigned tyBits(Type *t) {
    if (t->isPointerTy()) return 64;
    return t->getPrimitiveSizeInBits() ? (unsigned)t->getPrimitiveSizeInBits().getFixedValue() : (unsigned)DL->getTypeSizeInBits(t).getFixedValue();
}
static bool isAggTy(Type *t) { return t->isStructTy() || t->isArrayTy() || t->isVectorTy(); }
static unsigned aggN(Type *t) {
    if (auto *s = dyn_cast<StructType>(t)) return s->getNumElements();
    if (auto *a = dyn_cast<ArrayType>(t)) return a->getNumElements();
    return cast<FixedVectorType>(t)->getNumElements();
}
static Type *aggT(Type *t, unsigned i) {
    if (auto *s = dyn_cast<StructType>(t)) return s->getElementType(i);
    if (auto *a = dyn_cast<ArrayType>(t)) return a->getElementType();
    return cast<FixedVectorType>(t)->getElementType();
}
static u64 aggOff(Type *t, unsigned i) {
    if (auto *s = dyn_cast<StructType>(t)) return DL->getStructLayout(s)->getElementOffset(i);
    if (auto *a = dyn_cast<ArrayType>(t)) return DL->getTypeAllocSize(a->getElementType()) * i;
    return DL->getTypeStoreSize(cast<FixedVectorType>(t)->getElementType()) * i;
}
static Val undefOf(Type *t) {
    if (isAggTy(t)) {
        Val r; r.k = Val::Agg; r.agg = std::make_shared<std::vector<Val>>();
        for (unsigned i = 0, n = aggN(t); i < n; ++i) r.agg->push_back(undefOf(aggT(t, i)));
        return r;
    }
    return Val::undef(tyBits(t));
}
static Val zeroOf(Type *t) {
    if (isAggTy(t)) {
        Val r; r.k = Val::Agg; r.agg = std::make_shared<std::vector<Val>>();
        for (unsigned i = 0, n = aggN(t); i < n; ++i) r.agg->push_back(zeroOf(aggT(t, i)));
        return r;
    }
    unsigned w = tyBits(t);
    if (w > 64) return Val::sym(num(0, w));
    return Val::conc(0, w);
}
static u64 gvAddr(const GlobalValue *g) {
    if (auto *a = dyn_cast<GlobalAlias>(g)) return gvAddr(cast<GlobalValue>(a->getAliasee()->stripPointerCasts()));
    return gaddr[g];
}
static Val constVal(const Constant *c) {
    Type *t = c->getType();
    if (auto *i = dyn_cast<ConstantInt>(c)) {
        if (i->getBitWidth() <= 64) return Val::conc(i->getZExtValue(), i->getBitWidth());
        SmallString<64> str;
        i->getValue().toString(str, 10, false);
        return Val::sym(keep(Z3_mk_numeral(Z, std::string(str).c_str(), BV(i->getBitWidth()))));
    }
    if (auto *f = dyn_cast<ConstantFP>(c)) {
        APInt b = f->getValueAPF().bitcastToAPInt();
        if (b.getBitWidth() > 64) {
            SmallString<64> str;
            b.toString(str, 10, false);
            return Val::sym(keep(Z3_mk_numeral(Z, std::string(str).c_str(), BV(b.getBitWidth()))));
        }
        return Val::conc(b.getZExtValue(), b.getBitWidth());
    }
    if (isa<ConstantPointerNull>(c)) return Val::conc(0, 64);
    if (isa<UndefValue>(c)) return undefOf(t);
    if (isa<ConstantAggregateZero>(c)) return zeroOf(t);
    if (auto *g = dyn_cast<GlobalValue>(c)) return Val::conc(gvAddr(g), 64);
    if (isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) {
        Val r; r.k = Val::Agg; r.agg = std::make_shared<std::vector<Val>>();
        for (unsigned i = 0, n = aggN(t); i < n; ++i) r.agg->push_back(constVal(c->getAggregateElement(i)));
        return r;
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            auto *gep = cast<GEPOperator>(ce);
            u64 a = constVal(ce->getOperand(0)).c;
            APInt off(64, 0);
            if (!gep->accumulateConstantOffset(*DL, off)) unsupported("constant gep");
            return Val::conc(a + off.getSExtValue(), 64);
        }
        case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: {
            Val v = constVal(ce->getOperand(0));
            return Val::conc(v.c, tyBits(t));
        }
        case Instruction::Sub: return Val::conc(constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c, tyBits(t));
        case Instruction::Add: return Val::conc(constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c, tyBits(t));
        default: unsupported("constant expression " + std::string(ce->getOpcodeName()));
        }
    }
    if (auto *d = dyn_cast<DSOLocalEquivalent>(c)) return constVal(d->getGlobalValue());
    if (isa<NoCFIValue>(c)) return constVal(cast<NoCFIValue>(c)->getGlobalValue());
    unsupported("constant");
}
static void putVal(Obj &o, u64 off, Type *t, const Val &v) {
    if (isAggTy(t)) {
        for (unsigned i = 0, n = aggN(t); i < n; ++i) putVal(o, off + aggOff(t, i), aggT(t, i), (*v.agg)[i]);
        return;
    }
    unsigned n = DL->getTypeStoreSize(t);
    toCells(v, &o.b[off], n);
}
static Val getVal(const Obj &o, u64 off, Type *t) {
    if (isAggTy(t)) {
        Val r; r.k = Val::Agg; r.agg = std::make_shared<std::vector<Val>>();
        for (unsigned i = 0, n = aggN(t); i < n; ++i) r.agg->push_back(getVal(o, off + aggOff(t, i), aggT(t, i)));
        return r;
    }
    unsigned n = DL->getTypeStoreSize(t);
    Val v = fromCells(&o.b[off], n);
    unsigned w = tyBits(t);
    if (v.w != w) {
        if (v.k == Val::Conc) return Val::conc(v.c, w);
        E e = toExpr(v);
        return Val::sym(w == 1 ? bvLowBit(e) : mkExtract(w - 1, 0, e));
    }
    return v;
}
static void materialise(const GlobalVariable *g, Obj &o) {
    if (g->hasInitializer()) {
        const Constant *c = g->getInitializer();
        if (isa<ConstantAggregateZero>(c)) { for (auto &x : o.b) { x.kind = 1; x.c = 0; } return; }
        // padding of static objects is zero
        for (auto &x : o.b) { x.kind = 1; x.c = 0; }
        putVal(o, 0, g->getValueType(), constVal(c));
    } else
        for (auto &x : o.b) { x.kind = 1; x.c = 0; } // external data, e.g. libstdc++ vtables
}

// ------------------------------------------------------------- interpretation
static Val eval(State &s, const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) return constVal(c);
    Frame &f = s.st.back();
    auto it = f.fi->slot.find(v);
    if (it == f.fi->slot.end()) unsupported("operand kind");
    return f.regs[it->second];
}
static void setReg(State &s, const Value *v, Val x) {
    Frame &f = s.st.back();
    f.regs[f.fi->slot[v]] = std::move(x);
}
static Val readMem(State &s, u64 a, Type *t) {
    u64 n = DL->getTypeStoreSize(t);
    if (n == 0) return zeroOf(t);
    ObjP *p = access(s, a, n, false, "read");
    return getVal(**p, a - (*p)->base, t);
}
static void writeMem(State &s, u64 a, Type *t, const Val &v) {
    u64 n = DL->getTypeStoreSize(t);
    if (n == 0) return;
    ObjP *p = access(s, a, n, true, "write");
    Obj &o = writable(p);
    putVal(o, a - o.base, t, v);
}
static void copyMem(State &s, u64 d, u64 a, u64 n) {
    if (!n) return;
    ObjP *p = access(s, a, n, false, "read");
    std::vector<Cell> tmp((*p)->b.begin() + (a - (*p)->base), (*p)->b.begin() + (a - (*p)->base + n));
    ObjP *q = access(s, d, n, true, "write");
    Obj &o = writable(q);
    std::copy(tmp.begin(), tmp.end(), o.b.begin() + (d - o.base));
}
static std::string readStr(State &s, u64 a) {
    std::string r;
    for (;;) {
        ObjP *p = access(s, a, 1, false, "read");
        const Cell &c = (*p)->b[a - (*p)->base];
        if (c.kind != 1 || !c.c) break;
        r += char(c.c);
        ++a;
    }
    return r;
}

static u64 maskw(unsigned w) { return w >= 64 ? ~u64(0) : (u64(1) << w) - 1; }
static int64_t sx(u64 v, unsigned w) { return w >= 64 ? int64_t(v) : int64_t(v << (64 - w)) >> (64 - w); }

// float, double, and long double of x86 (which has the integer bit in front of the fraction as well)
static bool fpWidth(unsigned w) { return w == 32 || w == 64 || w == 80; }
static Z3_sort FP(unsigned w) {
    static std::map<unsigned, Z3_sort> m;
    auto &s = m[w];
    if (!s) {
        s = w == 80 ? Z3_mk_fpa_sort(Z, 15, 64) : w == 32 ? Z3_mk_fpa_sort_32(Z) : Z3_mk_fpa_sort_64(Z);
        Z3_inc_ref(Z, Z3_sort_to_ast(Z, s));
    }
    return s;
}
static E fpOf(E e) {
    unsigned w = bvw(e);
    if (w == 80) e = keep(Z3_mk_concat(Z, keep(Z3_mk_extract(Z, 79, 64, e)), keep(Z3_mk_extract(Z, 62, 0, e))));
    return keep(Z3_mk_fpa_to_fp_bv(Z, e, FP(w)));
}
static E fpToBv(E e) {
    E b = keep(Z3_mk_fpa_to_ieee_bv(Z, e));
    if (bvw(b) != 79) return b;
    E high = keep(Z3_mk_extract(Z, 78, 63, b)), exp = keep(Z3_mk_extract(Z, 77, 63, b));
    E one = keep(Z3_mk_ite(Z, keep(Z3_mk_eq(Z, exp, keep(Z3_mk_unsigned_int64(Z, 0, BV(15))))), keep(Z3_mk_unsigned_int64(Z, 0, BV(1))), keep(Z3_mk_unsigned_int64(Z, 1, BV(1)))));
    return keep(Z3_mk_concat(Z, high, keep(Z3_mk_concat(Z, one, keep(Z3_mk_extract(Z, 62, 0, b))))));
}

static Val binop(State &s, const Instruction *I, unsigned op, const Val &a, const Val &b) {
    unsigned w = a.w;
    if (a.k == Val::Conc && b.k == Val::Conc) {
        u64 x = a.c, y = b.c;
        switch (op) {
        case Instruction::Add: return Val::conc(x + y, w);
        case Instruction::Sub: return Val::conc(x - y, w);
        case Instruction::Mul: return Val::conc(x * y, w);
        case Instruction::And: return Val::conc(x & y, w);
        case Instruction::Or: return Val::conc(x | y, w);
        case Instruction::Xor: return Val::conc(x ^ y, w);
        case Instruction::Shl: return y >= w ? Val::undef(w) : Val::conc(x << y, w);
        case Instruction::LShr: return y >= w ? Val::undef(w) : Val::conc(x >> y, w);
        case Instruction::AShr: return y >= w ? Val::undef(w) : Val::conc(sx(x, w) >> y, w);
        case Instruction::UDiv: if (!y) fail(s, "trap", "division by zero"); return Val::conc(x / y, w);
        case Instruction::URem: if (!y) fail(s, "trap", "division by zero"); return Val::conc(x % y, w);
        case Instruction::SDiv: case Instruction::SRem: {
            if (!y) fail(s, "trap", "division by zero");
            int64_t p = sx(x, w), q = sx(y, w);
            if (q == -1) return Val::conc(op == Instruction::SDiv ? 0 - x : 0, w);
            return Val::conc(op == Instruction::SDiv ? p / q : p % q, w);
        }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
            if (w == 64) {
                double p, q, r; memcpy(&p, &x, 8); memcpy(&q, &y, 8);
                r = op == Instruction::FAdd ? p + q : op == Instruction::FSub ? p - q : op == Instruction::FMul ? p * q : op == Instruction::FDiv ? p / q : fmod(p, q);
                u64 o; memcpy(&o, &r, 8); return Val::conc(o, 64);
            }
            float p, q, r; uint32_t x4 = x, y4 = y; memcpy(&p, &x4, 4); memcpy(&q, &y4, 4);
            r = op == Instruction::FAdd ? p + q : op == Instruction::FSub ? p - q : op == Instruction::FMul ? p * q : op == Instruction::FDiv ? p / q : fmodf(p, q);
            uint32_t o; memcpy(&o, &r, 4); return Val::conc(o, 32);
        }
        }
        unsupported("binary operator");
    }
    // partially initialised words: keep track of the bytes
    if (a.k == Val::Cells && b.k == Val::Conc && w % 8 == 0) {
        unsigned n = w / 8;
        if ((op == Instruction::LShr || op == Instruction::Shl) && b.c % 8 == 0 && b.c < w) {
            unsigned k = b.c / 8;
            Val r; r.k = Val::Cells; r.w = w; r.cells = std::make_shared<std::vector<Cell>>(n);
            for (unsigned i = 0; i < n; ++i) {
                Cell z; z.kind = 1; z.c = 0;
                if (op == Instruction::LShr) (*r.cells)[i] = i + k < n ? (*a.cells)[i + k] : z;
                else (*r.cells)[i] = i >= k ? (*a.cells)[i - k] : z;
            }
            Val f = fromCells(r.cells->data(), n);
            return f;
        }
        if (op == Instruction::And && w <= 64) {
            std::vector<Cell> r(*a.cells);
            bool ok = true;
            for (unsigned i = 0; i < n; ++i) {
                uint8_t m = b.c >> (8 * i);
                if (m == 0) { r[i] = Cell{}; r[i].kind = 1; }
                else if (m != 0xff) ok = false;
            }
            if (ok) return fromCells(r.data(), n);
        }
    }
    if (op == Instruction::Or && a.k != Val::Agg && w % 8 == 0 && w <= 64 && (a.k == Val::Cells || b.k == Val::Cells)) {
        unsigned n = w / 8;
        std::vector<Cell> x(n), y(n), r(n);
        toCells(a, x.data(), n); toCells(b, y.data(), n);
        bool ok = true;
        for (unsigned i = 0; i < n && ok; ++i) {
            if (x[i].kind == 1 && !x[i].c) r[i] = y[i];
            else if (y[i].kind == 1 && !y[i].c) r[i] = x[i];
            else ok = false;
        }
        if (ok) return fromCells(r.data(), n);
    }
    E x = toExpr(a), y = toExpr(b), r;
    if (w == 1) {
        switch (op) {
        case Instruction::And: case Instruction::Mul: return Val::sym(simp(mkAnd(x, y)));
        case Instruction::Or: return Val::sym(simp(mkOr(x, y)));
        case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return Val::sym(simp(keep(Z3_mk_xor(Z, x, y))));
        default: unsupported("i1 operator");
        }
    }
    switch (op) {
    case Instruction::Add: r = Z3_mk_bvadd(Z, x, y); break;
    case Instruction::Sub: r = Z3_mk_bvsub(Z, x, y); break;
    case Instruction::Mul: r = Z3_mk_bvmul(Z, x, y); break;
    case Instruction::And: r = Z3_mk_bvand(Z, x, y); break;
    case Instruction::Or: r = Z3_mk_bvor(Z, x, y); break;
    case Instruction::Xor: r = Z3_mk_bvxor(Z, x, y); break;
    case Instruction::Shl: r = Z3_mk_bvshl(Z, x, y); break;
    case Instruction::LShr: r = Z3_mk_bvlshr(Z, x, y); break;
    case Instruction::AShr: r = Z3_mk_bvashr(Z, x, y); break;
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
        checkUndef(s, y, "division by an uninitialised value");
        E z = mkEq(y, num(0, w));
        if (boolConst(simp(z)) != 0) {
            int c = check(s.pc, z);
            if (c == 1) report(s, "trap", "division by zero", z);
            if (c != 0) s.pc.push_back(mkNot(z));
        }
        r = op == Instruction::UDiv ? Z3_mk_bvudiv(Z, x, y) : op == Instruction::URem ? Z3_mk_bvurem(Z, x, y) : op == Instruction::SDiv ? Z3_mk_bvsdiv(Z, x, y) : Z3_mk_bvsrem(Z, x, y);
        break;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
        if (!fpWidth(w)) unsupported("floating point width");
        E rm = keep(Z3_mk_fpa_round_nearest_ties_to_even(Z)), p = fpOf(x), q = fpOf(y);
        r = op == Instruction::FAdd ? Z3_mk_fpa_add(Z, rm, p, q) : op == Instruction::FSub ? Z3_mk_fpa_sub(Z, rm, p, q) : op == Instruction::FMul ? Z3_mk_fpa_mul(Z, rm, p, q) : Z3_mk_fpa_div(Z, rm, p, q);
        r = fpToBv(keep(r));
        break;
    }
    default: unsupported("binary operator");
    }
    return Val::sym(keep(Z3_simplify(Z, keep(r))));
}

static Val icmp(CmpInst::Predicate p, const Val &a, const Val &b) {
    unsigned w = a.w;
    if (a.k == Val::Conc && b.k == Val::Conc) {
        u64 x = a.c, y = b.c; int64_t p1 = sx(x, w), q1 = sx(y, w);
        switch (p) {
        case CmpInst::ICMP_EQ: return Val::conc(x == y, 1);
        case CmpInst::ICMP_NE: return Val::conc(x != y, 1);
        case CmpInst::ICMP_UGT: return Val::conc(x > y, 1);
        case CmpInst::ICMP_UGE: return Val::conc(x >= y, 1);
        case CmpInst::ICMP_ULT: return Val::conc(x < y, 1);
        case CmpInst::ICMP_ULE: return Val::conc(x <= y, 1);
        case CmpInst::ICMP_SGT: return Val::conc(p1 > q1, 1);
        case CmpInst::ICMP_SGE: return Val::conc(p1 >= q1, 1);
        case CmpInst::ICMP_SLT: return Val::conc(p1 < q1, 1);
        case CmpInst::ICMP_SLE: return Val::conc(p1 <= q1, 1);
        default: break;
        }
    }
    E x = toExpr(a), y = toExpr(b), r = nullptr;
    if (w == 1) {
        switch (p) {
        case CmpInst::ICMP_EQ: r = mkEq(x, y); break;
        case CmpInst::ICMP_NE: r = mkNot(mkEq(x, y)); break;
        default: x = boolToBv(x, 8); y = boolToBv(y, 8);
        }
        if (r) return Val::sym(simp(r));
    }
    switch (p) {
    case CmpInst::ICMP_EQ: r = Z3_mk_eq(Z, x, y); break;
    case CmpInst::ICMP_NE: r = Z3_mk_not(Z, mkEq(x, y)); break;
    case CmpInst::ICMP_UGT: r = Z3_mk_bvugt(Z, x, y); break;
    case CmpInst::ICMP_UGE: r = Z3_mk_bvuge(Z, x, y); break;
    case CmpInst::ICMP_ULT: r = Z3_mk_bvult(Z, x, y); break;
    case CmpInst::ICMP_ULE: r = Z3_mk_bvule(Z, x, y); break;
    case CmpInst::ICMP_SGT: r = Z3_mk_bvsgt(Z, x, y); break;
    case CmpInst::ICMP_SGE: r = Z3_mk_bvsge(Z, x, y); break;
    case CmpInst::ICMP_SLT: r = Z3_mk_bvslt(Z, x, y); break;
    case CmpInst::ICMP_SLE: r = Z3_mk_bvsle(Z, x, y); break;
    default: unsupported("icmp predicate");
    }
    return Val::sym(simp(keep(r)));
}
static Val fcmp(CmpInst::Predicate p, const Val &a, const Val &b) {
    if (a.k == Val::Conc && b.k == Val::Conc && (a.w == 64 || a.w == 32)) {
        double x, y;
        if (a.w == 64) { memcpy(&x, &a.c, 8); memcpy(&y, &b.c, 8); }
        else { uint32_t p4 = a.c, q4 = b.c; float f, g; memcpy(&f, &p4, 4); memcpy(&g, &q4, 4); x = f; y = g; }
        bool un = std::isnan(x) || std::isnan(y), r = false;
        switch (p) {
        case CmpInst::FCMP_FALSE: r = false; break;
        case CmpInst::FCMP_TRUE: r = true; break;
        case CmpInst::FCMP_OEQ: r = !un && x == y; break;
        case CmpInst::FCMP_OGT: r = !un && x > y; break;
        case CmpInst::FCMP_OGE: r = !un && x >= y; break;
        case CmpInst::FCMP_OLT: r = !un && x < y; break;
        case CmpInst::FCMP_OLE: r = !un && x <= y; break;
        case CmpInst::FCMP_ONE: r = !un && x != y; break;
        case CmpInst::FCMP_ORD: r = !un; break;
        case CmpInst::FCMP_UNO: r = un; break;
        case CmpInst::FCMP_UEQ: r = un || x == y; break;
        case CmpInst::FCMP_UGT: r = un || x > y; break;
        case CmpInst::FCMP_UGE: r = un || x >= y; break;
        case CmpInst::FCMP_ULT: r = un || x < y; break;
        case CmpInst::FCMP_ULE: r = un || x <= y; break;
        case CmpInst::FCMP_UNE: r = un || x != y; break;
        default: break;
        }
        return Val::conc(r, 1);
    }
    if (!fpWidth(a.w)) unsupported("floating point width");
    E x = fpOf(toExpr(a)), y = fpOf(toExpr(b));
    E un = mkOr(keep(Z3_mk_fpa_is_nan(Z, x)), keep(Z3_mk_fpa_is_nan(Z, y)));
    E eq = keep(Z3_mk_fpa_eq(Z, x, y)), gt = keep(Z3_mk_fpa_gt(Z, x, y)), ge = keep(Z3_mk_fpa_geq(Z, x, y)), lt = keep(Z3_mk_fpa_lt(Z, x, y)), le = keep(Z3_mk_fpa_leq(Z, x, y));
    E r;
    switch (p) {
    case CmpInst::FCMP_OEQ: r = eq; break;
    case CmpInst::FCMP_OGT: r = gt; break;
    case CmpInst::FCMP_OGE: r = ge; break;
    case CmpInst::FCMP_OLT: r = lt; break;
    case CmpInst::FCMP_OLE: r = le; break;
    case CmpInst::FCMP_ONE: r = mkAnd(mkNot(un), mkNot(eq)); break;
    case CmpInst::FCMP_ORD: r = mkNot(un); break;
    case CmpInst::FCMP_UNO: r = un; break;
    case CmpInst::FCMP_UEQ: r = mkOr(un, eq); break;
    case CmpInst::FCMP_UGT: r = mkOr(un, gt); break;
    case CmpInst::FCMP_UGE: r = mkOr(un, ge); break;
    case CmpInst::FCMP_ULT: r = mkOr(un, lt); break;
    case CmpInst::FCMP_ULE: r = mkOr(un, le); break;
    case CmpInst::FCMP_UNE: r = mkNot(eq); break;
    default: unsupported("fcmp predicate");
    }
    return Val::sym(r);
}

static Val castOp(State &s, unsigned op, const Val &v, Type *from, Type *to) {
    if (isAggTy(from) || isAggTy(to)) {
        if (op == Instruction::BitCast) {
            Obj o; o.b.resize(DL->getTypeAllocSize(from) + 16);
            putVal(o, 0, from, v);
            return getVal(o, 0, to);
        }
        if (isAggTy(from) && isAggTy(to)) {
            Val r; r.k = Val::Agg; r.agg = std::make_shared<std::vector<Val>>();
            for (unsigned i = 0; i < aggN(from); ++i) r.agg->push_back(castOp(s, op, (*v.agg)[i], aggT(from, i), aggT(to, i)));
            return r;
        }
        unsupported("vector cast");
    }
    unsigned w = tyBits(to), fw = tyBits(from);
    switch (op) {
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
        if (w == fw) return v;
        op = w < fw ? Instruction::Trunc : Instruction::ZExt;
        break;
    default: break;
    }
    switch (op) {
    case Instruction::Trunc:
        if (v.k == Val::Conc) return Val::conc(v.c, w);
        if (v.k == Val::Cells && w % 8 == 0) return fromCells(v.cells->data(), w / 8);
        if (v.k == Val::Cells && w == 1 && (*v.cells)[0].kind != 0) {
            Cell c = (*v.cells)[0];
            return Val::sym(bvLowBit(cellExpr(c)));
        }
        { E e = toExpr(v); return Val::sym(w == 1 ? simp(bvLowBit(e)) : mkExtract(w - 1, 0, e)); }
    case Instruction::ZExt:
        if (v.k == Val::Conc && w <= 64) return Val::conc(v.c, w);
        if (v.k == Val::Cells && fw % 8 == 0 && w % 8 == 0) {
            std::vector<Cell> c(*v.cells);
            Cell z; z.kind = 1;
            c.resize(w / 8, z);
            return fromCells(c.data(), w / 8);
        }
        { E e = toExpr(v); return Val::sym(fw == 1 ? boolToBv(e, w) : keep(Z3_mk_zero_ext(Z, w - fw, e))); }
    case Instruction::SExt:
        if (v.k == Val::Conc && w <= 64) return Val::conc(sx(v.c, fw), w);
        { E e = toExpr(v); return Val::sym(fw == 1 ? keep(Z3_mk_ite(Z, e, num(~u64(0), w), num(0, w))) : keep(Z3_mk_sign_ext(Z, w - fw, e))); }
    case Instruction::FPExt: case Instruction::FPTrunc: {
        if (!fpWidth(w) || !fpWidth(fw)) unsupported("floating point width");
        if (v.k == Val::Conc && w <= 64 && fw <= 64) {
            if (op == Instruction::FPExt) { uint32_t x = v.c; float f; memcpy(&f, &x, 4); double d = f; u64 o; memcpy(&o, &d, 8); return Val::conc(o, 64); }
            double d; memcpy(&d, &v.c, 8); float f = d; uint32_t o; memcpy(&o, &f, 4); return Val::conc(o, 32);
        }
        E rm = keep(Z3_mk_fpa_round_nearest_ties_to_even(Z));
        return Val::sym(fpToBv(keep(Z3_mk_fpa_to_fp_float(Z, rm, fpOf(toExpr(v)), FP(w)))));
    }
    case Instruction::SIToFP: case Instruction::UIToFP: {
        if (!fpWidth(w)) unsupported("floating point width");
        if (v.k == Val::Conc && w <= 64) {
            double d = op == Instruction::SIToFP ? double(sx(v.c, fw)) : double(v.c);
            if (w == 64) { u64 o; memcpy(&o, &d, 8); return Val::conc(o, 64); }
            float f = op == Instruction::SIToFP ? float(sx(v.c, fw)) : float(v.c);
            uint32_t o; memcpy(&o, &f, 4); return Val::conc(o, 32);
        }
        E rm = keep(Z3_mk_fpa_round_nearest_ties_to_even(Z));
        E x = toExpr(v); if (fw == 1) x = boolToBv(x, 8);
        Z3_sort so = FP(w);
        return Val::sym(fpToBv(keep(op == Instruction::SIToFP ? Z3_mk_fpa_to_fp_signed(Z, rm, x, so) : Z3_mk_fpa_to_fp_unsigned(Z, rm, x, so))));
    }
    case Instruction::FPToSI: case Instruction::FPToUI: {
        if (!fpWidth(fw)) unsupported("floating point width");
        if (v.k == Val::Conc) {
            double d;
            if (fw == 64) memcpy(&d, &v.c, 8); else { uint32_t x = v.c; float f; memcpy(&f, &x, 4); d = f; }
            return Val::conc(op == Instruction::FPToSI ? u64(int64_t(d)) : u64(d), w);
        }
        E rm = keep(Z3_mk_fpa_round_toward_zero(Z));
        E x = fpOf(toExpr(v));
        return Val::sym(keep(op == Instruction::FPToSI ? Z3_mk_fpa_to_sbv(Z, rm, x, w) : Z3_mk_fpa_to_ubv(Z, rm, x, w)));
    }
    }
    unsupported("cast");
}

static void enterBlock(State &s, const BasicBlock *to) {
    Frame &f = s.st.back();
    f.prev = f.bb;
    f.bb = to;
    f.pc = to->begin();
    // phis are evaluated simultaneously
    std::vector<std::pair<const PHINode *, Val>> ph;
    while (auto *p = dyn_cast<PHINode>(&*f.pc)) {
        ph.push_back({ p, eval(s, p->getIncomingValueForBlock(f.prev)) });
        ++f.pc;
    }
    for (auto &x : ph) setReg(s, x.first, x.second);
}

static const Function *fnAt(u64 a) {
    auto it = fnByAddr.find(a);
    return it == fnByAddr.end() ? nullptr : it->second;
}

static void pushCall(State &s, const Function *F, const CallBase *site, const std::vector<Val> &args, const std::vector<Type *> *byvalTypes = nullptr) {
    if (s.st.size() > 4000) unsupported("call depth");
    execFns.insert(F);
    Frame f;
    f.F = F; f.fi = info(F);
    f.regs.resize(f.fi->n);
    f.site = site;
    f.bb = &F->getEntryBlock();
    f.pc = f.bb->begin();
    unsigned i = 0;
    std::vector<std::pair<unsigned, Type *>> byval;
    for (auto &a : F->args()) {
        if (i < args.size()) f.regs[i] = args[i];
        if (a.hasByValAttr()) byval.push_back({ i, a.getParamByValType() });
        ++i;
    }
    s.st.push_back(std::move(f));
    for (auto &b : byval) {
        u64 n = DL->getTypeAllocSize(b.second);
        u64 a = allocObj(s, n, Obj::Stack, 16, "byval argument");
        Frame &g = s.st.back();
        g.allocas.push_back(a);
        u64 src = g.regs[b.first].c;
        if (g.regs[b.first].k != Val::Conc) unsupported("symbolic byval pointer");
        copyMem(s, a, src, n);
        s.st.back().regs[b.first] = Val::conc(a, 64);
    }
}
static void popFrame(State &s) {
    for (u64 a : s.st.back().allocas) s.mem.erase(a);
    s.st.pop_back();
}

// --------------------------------------------------------------- exceptions
static std::map<u64, int> typeIds;
static int typeId(u64 ti) {
    if (ti == 0) return 0x7fff;
    auto &x = typeIds[ti];
    if (!x) x = (int)typeIds.size();
    return x;
}
// Whether a handler for `caught` catches `thrown`; `off` becomes the offset of the
// base class that is caught (or what has to be added to a thrown pointer).
static bool tiDerives(u64 thrown, u64 caught, u64 &off) {
    off = 0;
    if (thrown == caught) return true;
    auto g = gvByAddr.find(thrown);
    if (g == gvByAddr.end()) return false;
    auto h = gvByAddr.find(caught);
    if (h != gvByAddr.end() && g->second->getName() == h->second->getName()) return true;
    std::string tn = g->second->getName().str(), cn = h != gvByAddr.end() ? h->second->getName().str() : "";
    if (tn.rfind("_ZTIP", 0) == 0) { // pointers: qualifiers may be added, void * catches objects
        if (cn.rfind("_ZTIP", 0) != 0) return false;
        auto split = [](const std::string &m, std::string &q) {
            size_t i = 5;
            while (i < m.size() && (m[i] == 'K' || m[i] == 'V')) q += m[i++];
            return m.substr(i);
        };
        std::string tq, cq, tr = split(tn, tq), cr = split(cn, cq);
        for (char c : tq) if (cq.find(c) == std::string::npos) return false;
        if (tr == cr) return true;
        if (cr == "v") return tr[0] != 'F';
        const GlobalVariable *tg = nullptr, *cg = nullptr;
        u64 ta = 0, ca = 0;
        for (auto &[addr, gv] : gvByAddr) {
            if (gv->getName() == "_ZTI" + tr) tg = gv, ta = addr;
            if (gv->getName() == "_ZTI" + cr) cg = gv, ca = addr;
        }
        return tg && cg && tiDerives(ta, ca, off);
    }
    if (!g->second->hasInitializer()) return false;
    auto *init = dyn_cast<ConstantStruct>(g->second->getInitializer());
    if (!init) return false;
    std::string vt;
    if (auto *p = dyn_cast<GlobalValue>(init->getOperand(0)->stripInBoundsConstantOffsets())) vt = p->getName().str();
    if (vt.find("vmi_class_type_info") != std::string::npos) {
        for (unsigned i = 4; i + 1 < init->getNumOperands(); i += 2)
            if (tiDerives(constVal(init->getOperand(i)).c, caught, off)) {
                int64_t f = cast<ConstantInt>(init->getOperand(i + 1))->getSExtValue();
                if (!(f & 2)) continue; // not a public base
                if (f & 1) unsupported("a handler for a virtual base class");
                off += (u64)(f >> 8);
                return true;
            }
        off = 0;
        return false;
    }
    if (vt.find("si_class_type_info") != std::string::npos && init->getNumOperands() >= 3)
        return tiDerives(constVal(init->getOperand(2)).c, caught, off);
    return false;
}
static bool tiPointer(u64 ti) {
    auto g = gvByAddr.find(ti);
    return g != gvByAddr.end() && g->second->getName().starts_with("_ZTIP");
}
// Unwinds: the exception `obj` leaves the call instruction at the top frame's pc.
static void unwind(State &s, u64 obj) {
    Exc &x = s.excs[obj];
    // the callee frames have to be popped by the caller of this function; the
    // top frame's current instruction is the call or invoke that is left
    for (;;) {
        if (s.st.empty()) endPath();
        Frame &f = s.st.back();
        const Instruction *I = &*f.pc;
        if (auto *inv = dyn_cast<InvokeInst>(I)) {
            const BasicBlock *ub = inv->getUnwindDest();
            const LandingPadInst *lp = ub->getLandingPadInst();
            int sel = -1;
            for (unsigned i = 0; lp && i < lp->getNumClauses() && sel < 0; ++i) {
                const Constant *c = lp->getClause(i);
                if (lp->isCatch(i)) {
                    u64 ti = constVal(c).c;
                    x.adj = 0;
                    if (ti == 0 || tiDerives(x.ti, ti, x.adj)) sel = typeId(ti);
                } else {
                    auto *arr = dyn_cast<ConstantArray>(c);
                    bool match = false;
                    if (arr)
                        for (auto &o : arr->operands()) { u64 ti = constVal(cast<Constant>(o)).c; u64 off; match |= ti == 0 || tiDerives(x.ti, ti, off); }
                    if (!match) sel = 0x8000;
                }
            }
            if (sel < 0 && lp && lp->isCleanup()) sel = 0;
            if (sel >= 0) {
                enterBlock(s, ub);
                Val r; r.k = Val::Agg; r.agg = std::make_shared<std::vector<Val>>();
                r.agg->push_back(Val::conc(obj, 64));
                r.agg->push_back(Val::conc(sel, 32));
                setReg(s, lp, r);
                Frame &g = s.st.back();
                ++g.pc; // past the landingpad
                s.inflight = obj;
                return;
            }
        }
        if (s.st.size() == 1) {
            fail(s, "exception", "an exception escapes");
        }
        popFrame(s);
    }
}
static u64 newException(State &s, u64 size) {
    u64 a = allocObj(s, size ? size : 1, Obj::Exc, 16, "exception");
    s.excs[a] = Exc{ a, 0, 0, 0 };
    return a;
}

// ---------------------------------------------------------------- intrinsics
static Val nondet(State &s, const char *type, unsigned w) {
    if (concreteMode) {
        u64 v = inputPos < inputs.size() ? inputs[inputPos++] : 0;
        return Val::conc(v, w);
    }
    std::string n = "in!" + std::to_string(s.nd.size()) + "!" + type;
    E e = keep(Z3_mk_const(Z, Z3_mk_string_symbol(Z, n.c_str()), w == 1 ? BOOL() : BV(w)));
    s.nd.push_back({ type, e, w });
    return Val::sym(e);
}
static u64 hashUf(int id, const std::vector<u64> &a) {
    u64 h = 1469598103934665603ull ^ (u64)id;
    for (auto x : a) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; }
    return h;
}
static Val ufApply(State &s, int id, const std::vector<Val> &args, unsigned w) {
    if (concreteMode) {
        std::vector<u64> a;
        for (auto &x : args) a.push_back(concretise(s, x, "uf argument"));
        return Val::conc(hashUf(id, a), w);
    }
    std::vector<Z3_sort> d;
    std::vector<E> a;
    for (auto &x : args) { E e = toExpr(x); checkUndef(s, e, "uninitialised value passed to a function"); if (x.w == 1) e = boolToBv(e, 8); a.push_back(e); d.push_back(BV(bvw(e))); }
    std::string n = "uf!" + std::to_string(id) + "!" + std::to_string(args.size()) + "!" + std::to_string(w);
    for (auto x : a) n += "_" + std::to_string(bvw(x));
    Z3_func_decl f = Z3_mk_func_decl(Z, Z3_mk_string_symbol(Z, n.c_str()), d.size(), d.data(), BV(w));
    Z3_inc_ref(Z, Z3_func_decl_to_ast(Z, f));
    E r = keep(Z3_mk_app(Z, f, a.size(), a.data()));
    s.uf.push_back({ id, a, r });
    return Val::sym(r);
}
static void doAssume(State &s, const Val &c) {
    if (c.k == Val::Conc) {
        if (!c.c) { if (concreteMode) printf("ASSUME-FAILED\n"); ++nPruned; endPath(); }
        return;
    }
    E e = toExpr(c);
    checkUndef(s, e, "assumption depends on an uninitialised value");
    int r = check(s.pc, e);
    if (r == 0) { ++nPruned; endPath(); }
    s.pc.push_back(e);
}
static void doAssert(State &s, const Val &c, const std::string &id) {
    ++nAssert;
    ++assertsChecked[id];
    if (concreteMode) printf("A %s %d\n", id.c_str(), c.k == Val::Conc ? (int)c.c : check(s.pc, mkNot(toExpr(c))) == 0 ? 1 : 0);
    if (c.k == Val::Conc) {
        if (!c.c) fail(s, "assert", id);
        ++nDischarged;
        return;
    }
    E e = simp(toExpr(c));
    checkUndef(s, e, ("assertion depends on an uninitialised value: " + id).c_str());
    int b = boolConst(e);
    if (b == 1) { ++nDischarged; return; }
    if (b == 0) fail(s, "assert", id);
    int r = check(s.pc, mkNot(e));
    if (r == 0) { ++nDischarged; return; }
    if (r == 1) {
        report(s, "assert", id, mkNot(e));
        if (check(s.pc, e) == 0) endPath();
        s.pc.push_back(e);
        return;
    }
    s.pc.push_back(e);
}

// The state in which a call is about to return value `v` to its caller frame
// (top of stack), whose pc points at the call instruction.
static void finishCall(State &s, const CallBase *site, const Val &v) {
    if (!site->getType()->isVoidTy() && v.k != Val::None) setReg(s, site, v);
    if (auto *inv = dyn_cast<InvokeInst>(site)) enterBlock(s, inv->getNormalDest());
    else ++s.st.back().pc;
}

static bool startsWith(const std::string &a, const char *b) { return a.compare(0, strlen(b), b) == 0; }

static Val memcmpVal(State &s, u64 a, u64 b, u64 n) {
    E r = num(0, 32);
    bool allc = true;
    std::vector<Cell> x, y;
    if (n) {
        ObjP *p = access(s, a, n, false, "read");
        x.assign((*p)->b.begin() + (a - (*p)->base), (*p)->b.begin() + (a - (*p)->base + n));
        ObjP *q = access(s, b, n, false, "read");
        y.assign((*q)->b.begin() + (b - (*q)->base), (*q)->b.begin() + (b - (*q)->base + n));
    }
    for (u64 i = 0; i < n; ++i) allc &= x[i].kind == 1 && y[i].kind == 1;
    if (allc) {
        for (u64 i = 0; i < n; ++i) if (x[i].c != y[i].c) return Val::conc(x[i].c < y[i].c ? ~u64(0) : 1, 32);
        return Val::conc(0, 32);
    }
    for (u64 i = n; i-- > 0;) {
        E p = cellExpr(x[i]), q = cellExpr(y[i]);
        r = mkIte(mkEq(p, q), r, mkIte(keep(Z3_mk_bvult(Z, p, q)), num(~u64(0), 32), num(1, 32)));
    }
    return Val::sym(simp(r));
}

static void throwException(State &s, u64 obj) {
    ++s.uncaught;
    unwind(s, obj);
}

// returns true if the call has been handled completely
static bool external(State &s, const CallBase *cb, const Function *F, std::vector<Val> &a) {
    std::string n = F->getName().str();
    auto ret = [&](Val v) { finishCall(s, cb, v); return true; };
    auto retv = [&]() { return ret(Val{}); };
    Type *rt = F->getReturnType();

    if (startsWith(n, "llvm.")) {
        if (startsWith(n, "llvm.lifetime.start") || startsWith(n, "llvm.lifetime.end")) {
            bool start = startsWith(n, "llvm.lifetime.start");
            u64 p = concretise(s, a[1], "pointer");
            ObjP *o = findObj(s, p);
            if (o) {
                Obj &w = writable(o);
                w.alive = start;
                std::fill(w.b.begin(), w.b.end(), Cell{});
            }
            return retv();
        }
        if (startsWith(n, "llvm.memcpy") || startsWith(n, "llvm.memmove")) {
            u64 d = concretise(s, a[0], "pointer"), p = concretise(s, a[1], "pointer"), k = concretise(s, a[2], "length");
            copyMem(s, d, p, k);
            return retv();
        }
        if (startsWith(n, "llvm.memset")) {
            u64 d = concretise(s, a[0], "pointer"), k = concretise(s, a[2], "length");
            if (k) {
                ObjP *q = access(s, d, k, true, "write");
                Obj &o = writable(q);
                Cell c; toCells(a[1], &c, 1);
                for (u64 i = 0; i < k; ++i) o.b[d - o.base + i] = c;
            }
            return retv();
        }
        if (startsWith(n, "llvm.expect") || startsWith(n, "llvm.launder") || startsWith(n, "llvm.strip.invariant") || startsWith(n, "llvm.ssa.copy") || startsWith(n, "llvm.threadlocal.address") || startsWith(n, "llvm.ptr.annotation") || startsWith(n, "llvm.arithmetic.fence"))
            return ret(a[0]);
        if (startsWith(n, "llvm.is.constant")) return ret(Val::conc(0, 1));
        if (startsWith(n, "llvm.objectsize")) return ret(Val::conc(~u64(0), tyBits(rt)));
        if (startsWith(n, "llvm.dbg.") || startsWith(n, "llvm.assume") || startsWith(n, "llvm.experimental.noalias") || startsWith(n, "llvm.invariant.") || startsWith(n, "llvm.var.annotation") || startsWith(n, "llvm.donothing") || startsWith(n, "llvm.prefetch") || startsWith(n, "llvm.stackrestore") || startsWith(n, "llvm.va_end"))
            return ret(rt->isVoidTy() ? Val{} : zeroOf(rt));
        if (startsWith(n, "llvm.stacksave")) return ret(Val::conc(0, 64));
        if (startsWith(n, "llvm.trap") || startsWith(n, "llvm.ubsantrap") || startsWith(n, "llvm.debugtrap")) fail(s, "trap", "trap");
        if (startsWith(n, "llvm.eh.typeid.for")) return ret(Val::conc(typeId(concretise(s, a[0], "typeinfo")), 32));
        if (startsWith(n, "llvm.umax") || startsWith(n, "llvm.umin") || startsWith(n, "llvm.smax") || startsWith(n, "llvm.smin")) {
            auto p = startsWith(n, "llvm.umax") ? CmpInst::ICMP_UGT : startsWith(n, "llvm.umin") ? CmpInst::ICMP_ULT : startsWith(n, "llvm.smax") ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT;
            Val c = icmp(p, a[0], a[1]);
            if (c.k == Val::Conc) return ret(c.c ? a[0] : a[1]);
            return ret(Val::sym(mkIte(toExpr(c), toExpr(a[0]), toExpr(a[1]))));
        }
        if (startsWith(n, "llvm.abs.")) {
            Val neg = binop(s, cb, Instruction::Sub, Val::conc(0, a[0].w), a[0]);
            Val c = icmp(CmpInst::ICMP_SLT, a[0], Val::conc(0, a[0].w));
            if (c.k == Val::Conc) return ret(c.c ? neg : a[0]);
            return ret(Val::sym(mkIte(toExpr(c), toExpr(neg), toExpr(a[0]))));
        }
        if (startsWith(n, "llvm.fabs.")) {
            Val m = Val::conc(maskw(a[0].w) >> 1, a[0].w);
            return ret(binop(s, cb, Instruction::And, a[0], m));
        }
        if (startsWith(n, "llvm.uadd.with.overflow") || startsWith(n, "llvm.sadd.with.overflow") || startsWith(n, "llvm.usub.with.overflow") || startsWith(n, "llvm.ssub.with.overflow") || startsWith(n, "llvm.umul.with.overflow") || startsWith(n, "llvm.smul.with.overflow")) {
            bool sg = n[5] == 's';
            unsigned w = a[0].w;
            unsigned op = n.find("add") != std::string::npos ? Instruction::Add : n.find("sub.with") != std::string::npos ? Instruction::Sub : Instruction::Mul;
            E x = toExpr(a[0]), y = toExpr(a[1]);
            unsigned W = 2 * w;
            E X = keep(sg ? Z3_mk_sign_ext(Z, w, x) : Z3_mk_zero_ext(Z, w, x)), Y = keep(sg ? Z3_mk_sign_ext(Z, w, y) : Z3_mk_zero_ext(Z, w, y));
            E R = keep(op == Instruction::Add ? Z3_mk_bvadd(Z, X, Y) : op == Instruction::Sub ? Z3_mk_bvsub(Z, X, Y) : Z3_mk_bvmul(Z, X, Y));
            E lo = mkExtract(w - 1, 0, simp(R));
            E ext = keep(sg ? Z3_mk_sign_ext(Z, w, lo) : Z3_mk_zero_ext(Z, w, lo));
            (void)W;
            Val r; r.k = Val::Agg; r.agg = std::make_shared<std::vector<Val>>();
            r.agg->push_back(Val::sym(lo));
            r.agg->push_back(Val::sym(simp(mkNot(mkEq(R, ext)))));
            return ret(r);
        }
        if (startsWith(n, "llvm.ctpop") || startsWith(n, "llvm.ctlz") || startsWith(n, "llvm.cttz") || startsWith(n, "llvm.bswap")) {
            u64 v = concretise(s, a[0], "operand"); unsigned w = a[0].w;
            u64 r = 0;
            if (startsWith(n, "llvm.ctpop")) r = __builtin_popcountll(v);
            else if (startsWith(n, "llvm.ctlz")) { r = 0; for (int i = w - 1; i >= 0 && !(v >> i & 1); --i) ++r; }
            else if (startsWith(n, "llvm.cttz")) { r = 0; for (unsigned i = 0; i < w && !(v >> i & 1); ++i) ++r; }
            else for (unsigned i = 0; i < w / 8; ++i) r |= (v >> (8 * i) & 0xff) << (w - 8 - 8 * i);
            return ret(Val::conc(r, w));
        }
        unsupported("intrinsic " + n);
    }
    if (startsWith(n, "vf_")) {
        if (n == "vf_nondet_i32") return ret(nondet(s, "i32", 32));
        if (n == "vf_nondet_i64") return ret(nondet(s, "i64", 64));
        if (n == "vf_nondet_i16") return ret(nondet(s, "i16", 16));
        if (n == "vf_nondet_i8") return ret(nondet(s, "i8", 8));
        if (n == "vf_nondet_bool") return ret(nondet(s, "bool", 1));
        if (n == "vf_nondet_double") return ret(nondet(s, "double", 64));
        if (n == "vf_nondet_float") return ret(nondet(s, "float", 32));
        if (startsWith(n, "vf_uf")) {
            int id = (int)concretise(s, a[0], "uf id");
            std::vector<Val> r(a.begin() + 1, a.end());
            return ret(ufApply(s, id, r, tyBits(rt)));
        }
        if (n == "vf_assume") { doAssume(s, a[0]); return retv(); }
        if (n == "vf_assert") { doAssert(s, a[0], readStr(s, concretise(s, a[1], "string"))); return retv(); }
        if (n == "vf_cover") { if (concreteMode) printf("C %s\n", readStr(s, concretise(s, a[0], "string")).c_str()); covered.insert(readStr(s, concretise(s, a[0], "string"))); return retv(); }
        if (n == "vf_trace") { u64 v = concretise(s, a[0], "trace"); if (concreteMode) printf("TRACE %llu\n", (unsigned long long)v); return retv(); }
        if (n == "vf_live_heap") {
            u64 c = 0;
            for (auto &o : s.mem) c += o.second->kind == Obj::Heap && o.second->alive;
            return ret(Val::conc(c, 32));
        }
        unsupported("vf function " + n);
    }
    // memory management
    auto heap = [&](const Val &sz, uint8_t with) {
        u64 k = concretise(s, sz, "allocation size");
        if (k > (1u << 24)) unsupported("large allocation");
        u64 p = allocObj(s, k, Obj::Heap, 16, "heap");
        s.mem[p]->allocWith = with;
        return Val::conc(p, 64);
    };
    auto release = [&](const Val &ptr, uint8_t with) {
        u64 p = concretise(s, ptr, "pointer");
        if (!p) return;
        auto it = s.mem.find(p);
        if (it == s.mem.end() || !it->second->alive) fail(s, "memory", "release of memory that is not (or no longer) allocated");
        if (it->second->kind != Obj::Heap) fail(s, "memory", "release of memory that is not on the heap");
        if (it->second->allocWith != with) fail(s, "memory", "release does not match the allocation");
        s.mem.erase(it);
    };
    if (n == "_Znwm" || n == "_ZnwmSt11align_val_t" || n == "_ZnwmRKSt9nothrow_t") return ret(heap(a[0], 2));
    if (n == "_Znam" || n == "_ZnamSt11align_val_t" || n == "_ZnamRKSt9nothrow_t") return ret(heap(a[0], 3));
    if (n == "malloc") return ret(heap(a[0], 1));
    if (n == "calloc") {
        u64 k = concretise(s, a[0], "size") * concretise(s, a[1], "size");
        Val p = heap(Val::conc(k, 64), 1);
        for (auto &c : s.mem[p.c]->b) { c.kind = 1; c.c = 0; }
        return ret(p);
    }
    if (startsWith(n, "_ZdlPv")) { release(a[0], 2); return retv(); }
    if (startsWith(n, "_ZdaPv")) { release(a[0], 3); return retv(); }
    if (n == "free") { release(a[0], 1); return retv(); }
    if (n == "memcpy" || n == "memmove") { copyMem(s, concretise(s, a[0], "pointer"), concretise(s, a[1], "pointer"), concretise(s, a[2], "length")); return ret(a[0]); }
    if (n == "memset") {
        u64 d = concretise(s, a[0], "pointer"), k = concretise(s, a[2], "length");
        if (k) {
            Obj &o = writable(access(s, d, k, true, "write"));
            Cell c; toCells(castOp(s, Instruction::Trunc, a[1], Type::getInt32Ty(LC), Type::getInt8Ty(LC)), &c, 1);
            for (u64 i = 0; i < k; ++i) o.b[d - o.base + i] = c;
        }
        return ret(a[0]);
    }
    if (n == "memcmp" || n == "bcmp") return ret(memcmpVal(s, concretise(s, a[0], "pointer"), concretise(s, a[1], "pointer"), concretise(s, a[2], "length")));
    if (n == "strlen") { return ret(Val::conc(readStr(s, concretise(s, a[0], "pointer")).size(), 64)); }
    if (n == "strcmp") {
        std::string x = readStr(s, concretise(s, a[0], "pointer")), y = readStr(s, concretise(s, a[1], "pointer"));
        return ret(Val::conc(x < y ? ~u64(0) : x > y ? 1 : 0, 32));
    }
    // static initialisation
    if (n == "__cxa_guard_acquire") {
        u64 p = concretise(s, a[0], "guard");
        Val g = readMem(s, p, Type::getInt8Ty(LC));
        return ret(Val::conc(concretise(s, g, "guard") == 0, 32));
    }
    if (n == "__cxa_guard_release") { writeMem(s, concretise(s, a[0], "guard"), Type::getInt8Ty(LC), Val::conc(1, 8)); return retv(); }
    if (n == "__cxa_guard_abort") return retv();
    if (n == "__cxa_atexit" || n == "atexit" || n == "__cxa_thread_atexit") return ret(Val::conc(0, 32));
    // exceptions
    if (n == "__cxa_allocate_exception") return ret(Val::conc(newException(s, concretise(s, a[0], "size")), 64));
    if (n == "__cxa_free_exception") { u64 p = concretise(s, a[0], "pointer"); s.mem.erase(p); s.excs.erase(p); return retv(); }
    if (n == "__cxa_throw") {
        u64 p = concretise(s, a[0], "exception");
        Exc &x = s.excs[p];
        x.ti = concretise(s, a[1], "typeinfo"); x.dtor = concretise(s, a[2], "destructor");
        throwException(s, p);
        return true;
    }
    if (n == "__cxa_rethrow") {
        if (s.caught.empty()) fail(s, "abort", "rethrow without an exception");
        u64 p = s.caught.back();
        throwException(s, p);
        s.excs[p].handlers = -s.excs[p].handlers; // marks rethrown
        return true;
    }
    auto caughtPtr = [&](u64 p) { // what the handler sees: the base class or, for pointers, their value
        const Exc &x = s.excs[p];
        if (!tiPointer(x.ti)) return Val::conc(p + x.adj, 64);
        Val v = readMem(s, p, PointerType::get(LC, 0));
        if (!x.adj) return v;
        u64 q = concretise(s, v, "exception");
        return Val::conc(q ? q + x.adj : 0, 64);
    };
    if (n == "__cxa_begin_catch") {
        u64 p = concretise(s, a[0], "exception");
        Exc &x = s.excs[p];
        x.handlers = (x.handlers < 0 ? -x.handlers : x.handlers) + 1;
        --s.uncaught;
        s.caught.push_back(p);
        return ret(caughtPtr(p));
    }
    if (n == "__cxa_get_exception_ptr") return ret(caughtPtr(concretise(s, a[0], "exception")));
    if (n == "__cxa_end_catch") {
        if (s.caught.empty()) return retv();
        u64 p = s.caught.back();
        s.caught.pop_back();
        Exc &x = s.excs[p];
        if (x.handlers < 0) { // rethrown, the outer handler will release it
            x.handlers += 1;
            return retv();
        }
        if (--x.handlers == 0) {
            const Function *d = x.dtor ? fnAt(x.dtor) : nullptr;
            if (d && !d->isDeclaration()) {
                finishCall(s, cb, Val{});
                // run the destructor "in between"
                pushCall(s, d, nullptr, { Val::conc(p, 64) });
                s.st.back().freeOnReturn = p;
                return true;
            }
            s.mem.erase(p);
            s.excs.erase(p);
        }
        return retv();
    }
    if (n == "_ZSt19uncaught_exceptionsv") return ret(Val::conc(s.uncaught, 32));
    if (n == "_ZSt18uncaught_exceptionv") return ret(Val::conc(s.uncaught > 0, 1));
    if (n == "abort" || n == "_ZSt9terminatev" || n == "__clang_call_terminate" || n == "_exit" || n == "exit" || n == "quick_exit" || n == "__assert_fail" || n == "__cxa_pure_virtual" || n == "__cxa_bad_cast" || n == "__cxa_call_unexpected" || n.find("__glibcxx_assert_fail") != std::string::npos || n == "__stack_chk_fail")
        fail(s, "abort", n.find("glibcxx_assert") != std::string::npos ? "library precondition violated" : n + " called");
    if (startsWith(n, "_ZSt") && n.find("__throw_") != std::string::npos) {
        // an exception thrown by the library; only catch (...) matches
        u64 p = newException(s, 16);
        s.excs[p].ti = 0x10;
        throwException(s, p);
        return true;
    }
    // std::exception and friends are defined in the shared library
    if (startsWith(n, "_ZNSt") && (n.find("C1E") != std::string::npos || n.find("C2E") != std::string::npos || n.find("D1E") != std::string::npos || n.find("D2E") != std::string::npos || n.find("D0E") != std::string::npos)) {
        unmodelled.insert(n);
        return ret(rt->isVoidTy() ? Val{} : nondet(s, "ext", tyBits(rt)));
    }
    // Any other external function: no effect on memory, arbitrary result
    unmodelled.insert(n);
    if (rt->isVoidTy()) return retv();
    if (isAggTy(rt) || rt->isPointerTy()) unsupported("external function " + n);
    {
        unsigned w = tyBits(rt);
        std::string nm = "ext!" + std::to_string(nInstr);
        E e = keep(Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), w == 1 ? BOOL() : BV(w)));
        return ret(Val::sym(e));
    }
}

static void doCall(State &s, const CallBase *cb) {
    if (cb->isInlineAsm()) {
        // empty assembly is used as an optimisation barrier
        if (cb->getType()->isVoidTy()) { finishCall(s, cb, Val{}); return; }
        unsupported("inline assembly");
    }
    const Value *cv = cb->getCalledOperand()->stripPointerCasts();
    const Function *F = dyn_cast<Function>(cv);
    if (auto *ga = dyn_cast<GlobalAlias>(cv)) F = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
    if (!F) {
        u64 p = concretise(s, eval(s, cb->getCalledOperand()), "function pointer");
        F = fnAt(p);
        if (!F) fail(s, "memory", p < 4096 ? "call through a null pointer" : "call through an invalid pointer");
    }
    std::vector<Val> args;
    args.reserve(cb->arg_size());
    for (auto &a : cb->args()) {
        if (a->getType()->isMetadataTy()) { args.push_back(Val{}); continue; }
        args.push_back(eval(s, a));
    }
    if (F->isDeclaration() || F->isIntrinsic() || F->getName() == "__clang_call_terminate") {
        external(s, cb, F, args);
        return;
    }
    pushCall(s, F, cb, args);
}

static void branch(State &s, const Val &c, const BasicBlock *t, const BasicBlock *f) {
    if (c.k == Val::Conc) { enterBlock(s, c.c ? t : f); return; }
    E e = toExpr(c);
    if (hasUndef(e)) checkUndef(s, e, "control flow depends on an uninitialised value");
    e = simp(e);
    int b = boolConst(e);
    if (b >= 0) { enterBlock(s, b ? t : f); return; }
    int ct = check(s.pc, e);
    if (ct == 0) { enterBlock(s, f); return; }
    E ne = mkNot(e);
    int cf = check(s.pc, ne);
    if (cf == 0) { enterBlock(s, t); return; }
    ++nForks;
    auto o = std::make_unique<State>(s);
    o->pc.push_back(ne);
    enterBlock(*o, f);
    work.push_back(std::move(o));
    s.pc.push_back(e);
    enterBlock(s, t);
}

static void step(State &s) {
    Frame &f = s.st.back();
    const Instruction *I = &*f.pc;
    ++nInstr;
    if (++s.instrs > maxInstrPerPath) unsupported("instruction bound per path");
    switch (I->getOpcode()) {
    case Instruction::Alloca: {
        auto *a = cast<AllocaInst>(I);
        u64 n = concretise(s, eval(s, a->getArraySize()), "size") * DL->getTypeAllocSize(a->getAllocatedType());
        u64 p = allocObj(s, n, Obj::Stack, a->getAlign().value(), "local");
        s.st.back().allocas.push_back(p);
        setReg(s, I, Val::conc(p, 64));
        break;
    }
    case Instruction::Load: {
        u64 p = concretise(s, eval(s, I->getOperand(0)), "address");
        setReg(s, I, readMem(s, p, I->getType()));
        break;
    }
    case Instruction::Store: {
        auto *st = cast<StoreInst>(I);
        u64 p = concretise(s, eval(s, st->getPointerOperand()), "address");
        writeMem(s, p, st->getValueOperand()->getType(), eval(s, st->getValueOperand()));
        break;
    }
    case Instruction::GetElementPtr: {
        Val b = eval(s, I->getOperand(0));
        auto *gep = cast<GetElementPtrInst>(I);
        if (isAggTy(I->getType())) unsupported("vector gep");
        u64 off = 0;
        Val dyn; bool hasDyn = false;
        for (auto it = gep_type_begin(gep), e = gep_type_end(gep); it != e; ++it) {
            if (StructType *st = it.getStructTypeOrNull()) {
                off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue());
            } else {
                u64 sz = DL->getTypeAllocSize(it.getIndexedType());
                Val ix = eval(s, it.getOperand());
                if (ix.k == Val::Conc) off += sx(ix.c, ix.w) * sz;
                else {
                    Val x = ix.w < 64 ? castOp(s, Instruction::SExt, ix, it.getOperand()->getType(), Type::getInt64Ty(LC)) : ix;
                    x = binop(s, I, Instruction::Mul, x, Val::conc(sz, 64));
                    dyn = hasDyn ? binop(s, I, Instruction::Add, dyn, x) : x;
                    hasDyn = true;
                }
            }
        }
        Val r = b;
        if (off) r = binop(s, I, Instruction::Add, r, Val::conc(off, 64));
        if (hasDyn) r = binop(s, I, Instruction::Add, r, dyn);
        setReg(s, I, r);
        break;
    }
    case Instruction::ICmp: {
        Val a = eval(s, I->getOperand(0)), b = eval(s, I->getOperand(1));
        if (a.k == Val::Agg) unsupported("vector compare");
        setReg(s, I, icmp(cast<CmpInst>(I)->getPredicate(), a, b));
        break;
    }
    case Instruction::FCmp: {
        Val a = eval(s, I->getOperand(0)), b = eval(s, I->getOperand(1));
        if (a.k == Val::Agg) unsupported("vector compare");
        setReg(s, I, fcmp(cast<CmpInst>(I)->getPredicate(), a, b));
        break;
    }
    case Instruction::Br: {
        auto *b = cast<BranchInst>(I);
        if (b->isUnconditional()) enterBlock(s, b->getSuccessor(0));
        else branch(s, eval(s, b->getCondition()), b->getSuccessor(0), b->getSuccessor(1));
        return;
    }
    case Instruction::Switch: {
        auto *sw = cast<SwitchInst>(I);
        u64 v = 0;
        Val c = eval(s, sw->getCondition());
        if (c.k != Val::Conc) {
            E e = toExpr(c);
            checkUndef(s, e, "control flow depends on an uninitialised value");
            // fork over the cases and the default
            E none = Z3_mk_true(Z);
            std::vector<std::pair<E, const BasicBlock *>> alts;
            for (auto &cs : sw->cases()) {
                E q = mkEq(e, toExpr(constVal(cs.getCaseValue())));
                none = mkAnd(none, mkNot(q));
                alts.push_back({ q, cs.getCaseSuccessor() });
            }
            alts.push_back({ none, sw->getDefaultDest() });
            std::vector<std::pair<E, const BasicBlock *>> ok;
            for (auto &al : alts) if (check(s.pc, al.first) != 0) ok.push_back(al);
            if (ok.empty()) endPath();
            for (size_t i = 1; i < ok.size(); ++i) {
                auto o = std::make_unique<State>(s);
                o->pc.push_back(ok[i].first);
                enterBlock(*o, ok[i].second);
                work.push_back(std::move(o));
                ++nForks;
            }
            s.pc.push_back(ok[0].first);
            enterBlock(s, ok[0].second);
            return;
        }
        v = c.c;
        const BasicBlock *d = sw->getDefaultDest();
        for (auto &cs : sw->cases())
            if (cs.getCaseValue()->getZExtValue() == v) { d = cs.getCaseSuccessor(); break; }
        enterBlock(s, d);
        return;
    }
    case Instruction::Select: {
        Val c = eval(s, I->getOperand(0)), a = eval(s, I->getOperand(1)), b = eval(s, I->getOperand(2));
        if (c.k == Val::Agg) unsupported("vector select");
        if (c.k == Val::Conc) { setReg(s, I, c.c ? a : b); break; }
        if (a.k == Val::Agg) {
            E e = toExpr(c);
            Val r; r.k = Val::Agg; r.agg = std::make_shared<std::vector<Val>>();
            for (size_t i = 0; i < a.agg->size(); ++i) {
                if ((*a.agg)[i].k == Val::Agg) unsupported("nested aggregate select");
                r.agg->push_back(Val::sym(mkIte(e, toExpr((*a.agg)[i]), toExpr((*b.agg)[i]))));
            }
            setReg(s, I, r);
            break;
        }
        setReg(s, I, Val::sym(simp(mkIte(toExpr(c), toExpr(a), toExpr(b)))));
        break;
    }
    case Instruction::Ret: {
        Val r;
        if (I->getNumOperands()) r = eval(s, I->getOperand(0));
        const CallBase *site = s.st.back().site;
        u64 fr = s.st.back().freeOnReturn;
        popFrame(s);
        if (fr) { s.mem.erase(fr); s.excs.erase(fr); return; }
        if (s.st.empty()) { if (concreteMode) printf("DONE\n"); ++nPaths; writePath(s); endPath(); }
        if (site) finishCall(s, site, r);
        return;
    }
    case Instruction::Call:
    case Instruction::Invoke:
        doCall(s, cast<CallBase>(I));
        return;
    case Instruction::Resume: {
        Val v = eval(s, I->getOperand(0));
        u64 obj = (*v.agg)[0].c;
        if (s.st.size() == 1) fail(s, "exception", "an exception escapes");
        popFrame(s);
        unwind(s, obj);
        return;
    }
    case Instruction::LandingPad: break; // handled by unwind()
    case Instruction::Unreachable: fail(s, "trap", "unreachable code is reached");
    case Instruction::ExtractValue: {
        auto *x = cast<ExtractValueInst>(I);
        Val v = eval(s, x->getAggregateOperand());
        for (unsigned i : x->indices()) { Val t = (*v.agg)[i]; v = t; }
        setReg(s, I, v);
        break;
    }
    case Instruction::InsertValue: {
        auto *x = cast<InsertValueInst>(I);
        Val v = eval(s, x->getAggregateOperand());
        std::function<Val(Val, unsigned)> ins = [&](Val a, unsigned d) {
            if (d == x->getNumIndices()) return eval(s, x->getInsertedValueOperand());
            Val r = a;
            r.agg = std::make_shared<std::vector<Val>>(*a.agg);
            unsigned i = x->getIndices()[d];
            (*r.agg)[i] = ins((*r.agg)[i], d + 1);
            return r;
        };
        setReg(s, I, ins(v, 0));
        break;
    }
    case Instruction::ExtractElement: {
        Val v = eval(s, I->getOperand(0));
        u64 i = concretise(s, eval(s, I->getOperand(1)), "index");
        if (i >= v.agg->size()) unsupported("vector index");
        Val t = (*v.agg)[i];
        setReg(s, I, t);
        break;
    }
    case Instruction::InsertElement: {
        Val v = eval(s, I->getOperand(0)), x = eval(s, I->getOperand(1));
        u64 i = concretise(s, eval(s, I->getOperand(2)), "index");
        Val r = v;
        r.agg = std::make_shared<std::vector<Val>>(*v.agg);
        if (i >= r.agg->size()) unsupported("vector index");
        (*r.agg)[i] = x;
        setReg(s, I, r);
        break;
    }
    case Instruction::ShuffleVector: {
        auto *x = cast<ShuffleVectorInst>(I);
        Val a = eval(s, I->getOperand(0)), b = eval(s, I->getOperand(1));
        Val r; r.k = Val::Agg; r.agg = std::make_shared<std::vector<Val>>();
        int n = a.agg->size();
        for (int m : x->getShuffleMask()) r.agg->push_back(m < 0 ? undefOf(aggT(I->getType(), 0)) : m < n ? (*a.agg)[m] : (*b.agg)[m - n]);
        setReg(s, I, r);
        break;
    }
    case Instruction::Freeze: {
        Val v = eval(s, I->getOperand(0));
        setReg(s, I, v);
        break;
    }
    case Instruction::FNeg: {
        Val v = eval(s, I->getOperand(0));
        if (v.k == Val::Agg) unsupported("vector fneg");
        if (v.w > 64) {
            setReg(s, I, Val::sym(fpToBv(keep(Z3_mk_fpa_neg(Z, fpOf(toExpr(v)))))));
            break;
        }
        setReg(s, I, binop(s, I, Instruction::Xor, v, Val::conc(u64(1) << (v.w - 1), v.w)));
        break;
    }
    case Instruction::AtomicRMW: {
        auto *x = cast<AtomicRMWInst>(I);
        u64 p = concretise(s, eval(s, x->getPointerOperand()), "address");
        Type *t = x->getValOperand()->getType();
        Val o = readMem(s, p, t), v = eval(s, x->getValOperand());
        Val r;
        switch (x->getOperation()) {
        case AtomicRMWInst::Xchg: r = v; break;
        case AtomicRMWInst::Add: r = binop(s, I, Instruction::Add, o, v); break;
        case AtomicRMWInst::Sub: r = binop(s, I, Instruction::Sub, o, v); break;
        case AtomicRMWInst::And: r = binop(s, I, Instruction::And, o, v); break;
        case AtomicRMWInst::Or: r = binop(s, I, Instruction::Or, o, v); break;
        case AtomicRMWInst::Xor: r = binop(s, I, Instruction::Xor, o, v); break;
        default: unsupported("atomicrmw");
        }
        writeMem(s, p, t, r);
        setReg(s, I, o);
        break;
    }
    case Instruction::AtomicCmpXchg: {
        auto *x = cast<AtomicCmpXchgInst>(I);
        u64 p = concretise(s, eval(s, x->getPointerOperand()), "address");
        Type *t = x->getNewValOperand()->getType();
        Val o = readMem(s, p, t);
        u64 ov = concretise(s, o, "value"), cv = concretise(s, eval(s, x->getCompareOperand()), "value");
        if (ov == cv) writeMem(s, p, t, eval(s, x->getNewValOperand()));
        Val r; r.k = Val::Agg; r.agg = std::make_shared<std::vector<Val>>();
        r.agg->push_back(o); r.agg->push_back(Val::conc(ov == cv, 1));
        setReg(s, I, r);
        break;
    }
    case Instruction::Fence: break;
    case Instruction::PHI: unsupported("phi outside of block entry");
    default:
        if (I->isBinaryOp()) {
            Val a = eval(s, I->getOperand(0)), b = eval(s, I->getOperand(1));
            if (a.k == Val::Agg) {
                Val r; r.k = Val::Agg; r.agg = std::make_shared<std::vector<Val>>();
                for (size_t i = 0; i < a.agg->size(); ++i) r.agg->push_back(binop(s, I, I->getOpcode(), (*a.agg)[i], (*b.agg)[i]));
                setReg(s, I, r);
            } else
                setReg(s, I, binop(s, I, I->getOpcode(), a, b));
        } else if (I->isCast())
            setReg(s, I, castOp(s, I->getOpcode(), eval(s, I->getOperand(0)), I->getOperand(0)->getType(), I->getType()));
        else
            unsupported(std::string("instruction ") + I->getOpcodeName());
    }
    ++s.st.back().pc;
}

// ------------------------------------------------------------------- driver
static std::string js(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
template<typename C> static std::string jlist(const C &c) {
    std::string r = "[";
    for (auto &x : c) r += (r.size() > 1 ? "," : "") + js(x);
    return r + "]";
}

static void runAll() {
    while (!work.empty()) {
        if (now() - tStart > timeLimit) { incomplete.insert("time limit: " + std::to_string(work.size()) + " paths left"); return; }
        cur = std::move(work.back());
        work.pop_back();
        try {
            u64 k = 0;
            for (;;) {
                step(*cur);
                if ((++k & 0xfff) == 0 && now() - tStart > timeLimit) { incomplete.insert("time limit"); return; }
            }
        } catch (PathEnd &) {
        }
        cur.reset();
    }
}
static std::set<std::string> expectedCover(const Function *entry) {
    // every vf_cover() whose call is in a function reachable from the entry
    std::set<std::string> r;
    std::set<const Function *> seen;
    std::vector<const Function *> todo{ entry };
    while (!todo.empty()) {
        auto *F = todo.back(); todo.pop_back();
        if (!seen.insert(F).second) continue;
        for (auto &B : *F) for (auto &I : B) {
            for (auto &op : I.operands())
                if (auto *g = dyn_cast<Function>(op->stripPointerCasts())) if (!g->isDeclaration()) todo.push_back(g);
            if (auto *cb = dyn_cast<CallBase>(&I)) {
                auto *F2 = cb->getCalledFunction();
                if (F2 && F2->getName() == "vf_cover")
                    if (auto *g = dyn_cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts()))
                        if (auto *d = dyn_cast<ConstantDataArray>(g->getInitializer())) r.insert(d->getAsCString().str());
            }
        }
    }
    return r;
}

int main(int argc, char **argv) {
    if (argc < 4) { fprintf(stderr, "usage: psym MODULE ENTRY OUT.json\n"); return 2; }
    std::string dump;
    for (int i = 4; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--max-instr") maxInstrPerPath = atoll(argv[++i]);
        else if (a == "--grace") graceTime = atof(argv[++i]);
        else if (a == "--time") timeLimit = atof(argv[++i]);
        else if (a == "--qtime") qtime = atoi(argv[++i]);
        else if (a == "--dump") { dump = argv[++i]; dumpLeft = 400; }
        else if (a == "--paths") { pathFile = fopen(argv[++i], "w"); pathLeft = atoll(argv[++i]); }
        else if (a == "--inputs") {
            concreteMode = true;
            std::ifstream f(argv[++i]);
            u64 v; while (f >> v) inputs.push_back(v);
        }
    }
    tStart = now();
    SMDiagnostic err;
    M = parseIRFile(argv[1], err, LC);
    if (!M) { err.print("psym", errs()); return 2; }
    DL = &M->getDataLayout();
    Z3_config cfg = Z3_mk_config();
    Z = Z3_mk_context_rc(cfg);
    Z3_set_error_handler(Z, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(3); });
    S = Z3_mk_simple_solver(Z);
    Z3_solver_inc_ref(Z, S);
    Z3_params p = Z3_mk_params(Z);
    Z3_params_inc_ref(Z, p);
    Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), qtime);
    Z3_solver_set_params(Z, S, p);
    if (!dump.empty()) dumpFile = fopen(dump.c_str(), "w");

    u64 ga = 0x10000;
    for (auto &F : *M) { gaddr[&F] = ga; fnByAddr[ga] = &F; ga += 16; }
    ga = 0x8000000;
    for (auto &G : M->globals()) {
        u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 0;
        u64 al = std::max<u64>(16, G.getAlign() ? G.getAlign()->value() : 16);
        ga = (ga + al - 1) / al * al;
        gaddr[&G] = ga; gvByAddr[ga] = &G;
        ga += std::max<u64>(sz, 16) + 64;
    }
    const Function *F = M->getFunction(argv[2]);
    if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", argv[2]); return 2; }

    auto s = std::make_unique<State>();
    pushCall(*s, F, nullptr, {});
    // static initialisers run first: push them on top, in reverse order
    if (auto *gc = M->getNamedGlobal("llvm.global_ctors"))
        if (gc->hasInitializer())
            if (auto *arr = dyn_cast<ConstantArray>(gc->getInitializer())) {
                std::vector<const Function *> fs;
                for (auto &o : arr->operands())
                    if (auto *fn = dyn_cast<Function>(cast<Constant>(o)->getAggregateElement(1u)->stripPointerCasts())) fs.push_back(fn);
                for (size_t i = fs.size(); i-- > 0;) pushCall(*s, fs[i], nullptr, {});
            }
    work.push_back(std::move(s));
    runAll();

    auto exp = expectedCover(F);
    std::set<std::string> missed;
    for (auto &e : exp) if (!covered.count(e)) missed.insert(e);
    std::set<std::string> fns;
    for (auto *f : execFns) {
        std::string d = demangle(f->getName().str());
        if (d.find("pigro::") == std::string::npos || startsWith(d, "std::")) continue;
        // strip template arguments and parameters
        std::string o; int depth = 0;
        for (char c : d) {
            if (c == '<' || c == '(' || c == '{' || c == '[') ++depth;
            else if (c == '>' || c == ')' || c == '}' || c == ']') { if (depth) --depth; }
            else if (!depth) o += c;
        }
        size_t sp = o.find(" pigro::");
        if (sp != std::string::npos) o = o.substr(sp + 1);
        if (!startsWith(o, "pigro::")) continue;
        if (o.size() > 100) o = o.substr(0, 100);
        fns.insert(o);
    }
    FILE *out = fopen(argv[3], "w");
    if (!out) return 2;
    fprintf(out, "{\"entry\":%s,\"complete\":%s,\"incomplete\":%s,\"unmodelled\":%s,\"covered\":%s,\"missed_cover\":%s,\n", js(argv[2]).c_str(), incomplete.empty() ? "true" : "false", jlist(incomplete).c_str(), jlist(unmodelled).c_str(), jlist(covered).c_str(), jlist(missed).c_str());
    fprintf(out, "\"instructions\":%llu,\"paths\":%llu,\"forks\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"assert_checks\":%llu,\"discharged\":%llu,\"pruned\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"functions_executed\":%zu,\n",
        (unsigned long long)nInstr, (unsigned long long)nPaths, (unsigned long long)nForks, (unsigned long long)nQueries, (unsigned long long)nSat, (unsigned long long)nUnsat, (unsigned long long)nUnknown, (unsigned long long)nAssert, (unsigned long long)nDischarged, (unsigned long long)nPruned, solverTime, now() - tStart, execFns.size());
    fprintf(out, "\"functions\":%s,\n\"asserts\":{", jlist(fns).c_str());
    bool first = true;
    for (auto &a : assertsChecked) { fprintf(out, "%s%s:%llu", first ? "" : ",", js(a.first).c_str(), (unsigned long long)a.second); first = false; }
    fprintf(out, "},\n\"violations\":[");
    first = true;
    for (auto &v : violations) {
        fprintf(out, "%s{\"kind\":%s,\"id\":%s,\"where\":%s,\"nondet\":[", first ? "" : ",\n", js(v.kind).c_str(), js(v.id).c_str(), js(v.where).c_str());
        first = false;
        for (size_t i = 0; i < v.nondet.size(); ++i) fprintf(out, "%s[%s,%llu]", i ? "," : "", js(v.nondet[i].first).c_str(), (unsigned long long)v.nondet[i].second);
        fprintf(out, "],\"uf\":[");
        for (size_t i = 0; i < v.uf.size(); ++i) {
            fprintf(out, "%s[%d,[", i ? "," : "", v.uf[i].first);
            for (size_t j = 0; j < v.uf[i].second.first.size(); ++j) fprintf(out, "%s%llu", j ? "," : "", (unsigned long long)v.uf[i].second.first[j]);
            fprintf(out, "],%llu]", (unsigned long long)v.uf[i].second.second);
        }
        fprintf(out, "]}");
    }
    fprintf(out, "]}\n");
    fclose(out);
    if (pathFile) fclose(pathFile);
    if (dumpFile) fclose(dumpFile);
    fflush(stdout);
    _exit(0);
}
