// Native counterpart of the executor's intrinsics: feeds a counterexample (or
// given inputs) to the harness compiled as an ordinary program.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>

typedef unsigned long long u64;
static std::vector<u64> in;
static size_t pos;
static bool hashed;
static std::map<std::pair<int, std::vector<u64>>, u64> table;

static u64 next() { return pos < in.size() ? in[pos++] : 0; }
static u64 mask(u64 v, unsigned w) { return w >= 64 ? v : v & ((u64(1) << w) - 1); }

static u64 uf(int id, std::vector<u64> a) {
    if (hashed) {
        u64 h = 1469598103934665603ull ^ (u64)id;
        for (auto x : a) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; }
        return h;
    }
    auto it = table.find({ id, a });
    return it == table.end() ? 0 : it->second;
}
#define U(x) mask((u64)(unsigned)(x), 32)
extern "C" {
int vf_nondet_i32(void) { return (int)next(); }
long vf_nondet_i64(void) { return (long)next(); }
short vf_nondet_i16(void) { return (short)next(); }
unsigned char vf_nondet_i8(void) { return (unsigned char)next(); }
bool vf_nondet_bool(void) { return next() & 1; }
double vf_nondet_double(void) { u64 v = next(); double d; memcpy(&d, &v, 8); return d; }
float vf_nondet_float(void) { unsigned v = (unsigned)next(); float d; memcpy(&d, &v, 4); return d; }
int vf_uf0(int id) { return (int)uf(id, {}); }
int vf_uf1(int id, int a) { return (int)uf(id, { U(a) }); }
int vf_uf2(int id, int a, int b) { return (int)uf(id, { U(a), U(b) }); }
int vf_uf3(int id, int a, int b, int c) { return (int)uf(id, { U(a), U(b), U(c) }); }
int vf_uf4(int id, int a, int b, int c, int d) { return (int)uf(id, { U(a), U(b), U(c), U(d) }); }
int vf_uf5(int id, int a, int b, int c, int d, int e) { return (int)uf(id, { U(a), U(b), U(c), U(d), U(e) }); }
int vf_uf6(int id, int a, int b, int c, int d, int e, int f) { return (int)uf(id, { U(a), U(b), U(c), U(d), U(e), U(f) }); }
long vf_ufl1(int id, long a) { return (long)uf(id, { (u64)a }); }
long vf_ufl2(int id, long a, long b) { return (long)uf(id, { (u64)a, (u64)b }); }
void vf_assume(bool c) {
    if (!c) { printf("ASSUME-FAILED\n"); fflush(stdout); _exit(0); }
}
void vf_assert(bool c, const char *id) {
    if (hashed) printf("A %s %d\n", id, (int)c);
    if (!c) { printf("ASSERT-FAILED %s\n", id); fflush(stdout); _exit(42); }
}
void vf_cover(const char *id) { if (hashed) printf("C %s\n", id); }
void vf_trace(long v) { printf("TRACE %llu\n", (u64)v); }
int vf_live_heap(void);
}
#define VF_DECL(x) extern "C" void x();
#define VF_NAME(x) { #x, x },
VF_ENTRIES(VF_DECL)
static struct { const char *name; void (*f)(); } entries[] = { VF_ENTRIES(VF_NAME) };

static long live;
int vf_live_heap(void) { return (int)live; }

#include <new>
#define W __attribute__((weak)) // unless the harness has its own
W void *operator new(size_t n) { ++live; return malloc(n ? n : 1); }
W void *operator new[](size_t n) { ++live; return malloc(n ? n : 1); }
W void operator delete(void *p) noexcept { if (p) { --live; free(p); } }
W void operator delete[](void *p) noexcept { if (p) { --live; free(p); } }
W void operator delete(void *p, size_t) noexcept { if (p) { --live; free(p); } }
W void operator delete[](void *p, size_t) noexcept { if (p) { --live; free(p); } }

static bool load(FILE *f) { // reads up to "end" or the end of the file
    char w[16];
    bool any = false;
    in.clear(); table.clear(); pos = 0;
    while (f && fscanf(f, "%15s", w) == 1) {
        any = true;
        if (!strcmp(w, "end")) return true;
        if (!strcmp(w, "n")) { u64 v; if (fscanf(f, "%llu", &v) == 1) in.push_back(v); }
        else if (!strcmp(w, "hash")) hashed = true;
        else if (!strcmp(w, "u")) {
            int id, n; if (fscanf(f, "%d %d", &id, &n) != 2) break;
            std::vector<u64> a; u64 v;
            for (int i = 0; i < n; ++i) { if (fscanf(f, "%llu", &v) == 1) a.push_back(v); }
            if (fscanf(f, "%llu", &v) == 1) table[{ id, a }] = v;
        }
    }
    return any;
}

// usage: replay ENTRY FILE [all]
// FILE has lines "n VALUE" and "u ID NARGS ARGS... RESULT", or "hash"; with
// "all", it has several cases, each followed by "end".
int main(int argc, char **argv) {
    if (argc < 3) return 3;
    void (*fn)() = nullptr;
    for (auto &e : entries)
        if (!strcmp(e.name, argv[1])) fn = e.f;
    FILE *f = fopen(argv[2], "r");
    if (!fn || !f) return 3;
    if (argc > 3) {
        int n = 0;
        for (; load(f); ++n) {
            fflush(stdout);
            pid_t p = fork();
            if (!p) { alarm(20); fclose(stdout); live = 0; fn(); _exit(0); }
            int st = 0;
            waitpid(p, &st, 0);
            if (st) printf("BAD %d %d\n", n, st);
        }
        printf("CASES %d\n", n);
        return 0;
    }
    load(f);
    live = 0;
    fn();
    printf("DONE\n");
    return 0;
}
