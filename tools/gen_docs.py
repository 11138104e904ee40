#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both are committed)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LAZY, CT, BT = "src/pigro/lazy.h", "src/pigro/compressed_tuple.h", "src/pigro/bind_tuple.h"
P = []

def prop(id, title, statement, over, text, tests, files, mech, note, state=(), claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech, state=state, note=note, claimed=claimed, reason=reason))

NOTE = "Symbolic execution of the LLVM IR of the real code, all paths and all values within the stated bounds; "

prop("C01", "A lazy function never returns an outdated value",
  "Calling a lazy function, whose function depends on its arguments only, returns what that function would return for the current values of its dependencies, in the order in which they have been given. This holds for every history of changes and calls, every mixture of plain values, functions and lazy functions as dependencies (also when a lazy function is called on its own, or shared by several others), and every kind of callable and type of value.",
  ["histories", "inputs", "programs"], "all histories of calls and changes of the dependencies' values, for graphs of values, functions and lazy functions",
  "Tests change one dependency at a time to a few constants and call once or twice; the staleness of a cache depends on which subset has changed before which call.",
  [LAZY, BT, CT, "src/pigro/recursive.h", "src/pigro/regular_void.h", "src/pigro/tuple_algorithms.h"],
  [("the cache is refreshed when any of the dependencies reports a change", LAZY), ("dependencies are bound behind the call's own arguments", BT)],
  NOTE + "values are arbitrary, f is an uninterpreted function, histories of 3 to 6 calls",
  [("cache", "result of the last evaluation", LAZY)])
prop("C02", "A lazy function evaluates its function only when needed",
  "The function of a lazy function is not evaluated upon construction, it is evaluated by the first call, and it is evaluated again by a later call only if the value of at least one of its dependencies differs from the value at the previous call. Then it is evaluated exactly once, for every history of changes and calls and every type of value.",
  ["histories", "inputs", "programs"], "all histories of calls and changes, for graphs of values, functions and lazy functions",
  "Tests count evaluations for a few fixed sequences; redundant evaluations depend on the history (value changed and changed back, changes in another branch) and on the type of the values.",
  [LAZY, BT, "src/pigro/tuple_algorithms.h", "src/pigro/regular_void.h"],
  [("evaluation is skipped unless a dependency reports a change", LAZY), ("dependencies report a change only if their value differs", LAZY)],
  NOTE + "evaluations are counted by the harness' functions and compared with a model of the history")
prop("C03", "Each dependency is asked once per call; state and values are captured",
  "Each call of a lazy function evaluates each function given as dependency exactly once, also if it belongs to a lazy function that is a dependency itself, and regardless of whether another dependency has changed. Functions that keep state (the function itself as well as dependencies) keep it in between calls, and a plain value given as dependency remains the value it had upon construction.",
  ["histories", "inputs", "programs"], "all histories of calls, initial states and changes of the original variables",
  "Tests have no stateful dependency next to others; a skipped or repeated evaluation shows up only for particular positions and histories.",
  [LAZY, BT, CT], [("all dependencies are asked before deciding", LAZY), ("callables are called in place, not copied", BT)],
  NOTE + "1 to 5 dependencies, 3 to 4 calls")
prop("C04", "Changes propagate through graphs of lazy functions, and stop where unnoticed",
  "In any graph of lazy functions a change of a source reaches exactly those lazy functions whose dependencies have got a different value: if an intermediate result remains the same, nothing behind it is evaluated. All arguments of an evaluation belong to the same, current, state of the sources.",
  ["histories", "inputs", "programs"], "chains, diamonds, fans and joins of lazy functions, with arbitrary changes of all sources in between calls",
  "Tests have one chain with fixed values; early cut-off and mixed states need particular combinations of simultaneous changes.",
  [LAZY], [("a lazy function reports a change to its dependents only if its result differs", LAZY)],
  NOTE + "graphs of up to 5 lazy functions, results that hide changes")
prop("C05", "Values are compared only when a comparison can be needed",
  "Plain values given as dependencies are never compared. The value of a function given as dependency is compared once per call with its previous value, and the result of a lazy function is compared at most once per evaluation and not at all if it has not been evaluated.",
  ["histories", "inputs"], "all histories of calls and changes",
  "The walkthrough promises it as an optimisation; tests count comparisons for one fixed history.",
  [LAZY], [("change flags are passed along with the values", LAZY)],
  NOTE + "comparisons are counted by the element type's operators")
prop("C06", "Functions without result are evaluated lazily as well",
  "A lazy function without result runs its function upon the first call, and afterwards exactly when the value of one of its dependencies has changed, each time once and with the current values. Calling it yields no result, and as a dependency it never causes an evaluation of another lazy function after the first one.",
  ["histories", "inputs", "programs"], "all histories of calls and changes",
  "Tests run a single function without dependencies.",
  [LAZY, "src/pigro/regular_void.h"], [("void is mapped to a regular type and back", "src/pigro/regular_void.h"), ("optional of the regular void remembers that it has run", "src/pigro/regular_void.h")],
  NOTE + "zero to three dependencies, 4 calls")
prop("C07", "Copies of a lazy function are independent and up to date",
  "A copy of a lazy function, made at any time, behaves as the original from then on: it continues with what has been cached, and neither of both affects the results or evaluations of the other. Moving it, storing it in containers or std::function, and giving it as a dependency preserve its behaviour as well.",
  ["histories", "inputs", "programs"], "any moment of copying in any history of calls of both",
  "Tests never copy a lazy function in the middle of a history.",
  [LAZY, CT, BT, "src/pigro/overload.h"], [("all state is kept by value within the object", LAZY)],
  NOTE + "histories of 4 to 5 operations around a copy made at any point")
prop("C08", "An exception never leads to an outdated value or a lost evaluation",
  "If the function or any dependency throws, the call throws that exception, and later calls behave as if the failed evaluation never has been remembered: they evaluate again (once), never return a value that does not belong to the current values of the dependencies, and throw only if an evaluation does. Once a call succeeds, its value is remembered as usual.",
  ["fault_sequences", "histories", "inputs"], "exceptions from any subset of evaluations, at any level, with arbitrary changes in between",
  "No test throws.",
  [LAZY], [("the cache is invalidated when an exception leaves the call", LAZY)],
  NOTE + "any subset of 3 to 4 calls fails, at any level of chains of up to 3")
prop("C09", "Values of any type pass through a lazy function intact",
  "Dependencies and results of any copyable, comparable type (small and large, with padding, references to memory, optional, tuples, strings, vectors) arrive unchanged, in the right position, and stay unchanged in the cache. Nothing is leaked, used after its destruction or destroyed twice.",
  ["inputs", "programs", "histories"], "all values of 70 types, as plain value, function and lazy function",
  "Tests use int and one std::string.",
  [LAZY, CT, BT, "src/pigro/empty_object.h"], [("values are stored in compressed tuples and returned from the cache by reference internally", LAZY)],
  NOTE + "every memory access is checked for bounds, lifetime and initialisation; strings and vectors of up to 2 elements")
prop("C10", "A lazy function takes no more memory than its cache and state",
  "A lazy function takes the size of its cached results and of the state of its functions and values; stateless functions and dependencies take no space, and a stateless function without result takes a single byte. No history of calls makes it grow, and it allocates nothing from the heap besides what the cached values themselves need.",
  ["histories", "programs", "inputs"], "all histories of calls; kinds of functions and dependencies",
  "Tests compare a few sizes, and none of them looks at the heap over a history.",
  [LAZY, CT, "src/pigro/empty_object.h", "src/pigro/overload.h"], [("stateless elements are not stored but conjured up", "src/pigro/empty_object.h")],
  NOTE + "the sizes are constants of the instantiations; heap use and growth are decided for all histories of 4 to 5 calls")
prop("C11", "A compressed tuple returns exactly what was stored at each index",
  "For any number and mixture of stateful and stateless elements, reading an index yields the value last stored at that index, writing through one index affects no other, and the object has no space for stateless elements. Copies and moves are independent, and each element is constructed and destroyed exactly once.",
  ["inputs", "programs", "histories"], "all values and sequences of writes, elements of 12 types in all positions",
  "Tests have a few tuples with one or two constants.",
  [CT, "src/pigro/empty_object.h", "src/pigro/pack_algorithms.h", "src/pigro/overload.h", "src/pigro/recursive.h"], [("one callable per element, selected by the index type", CT)],
  NOTE + "up to 6 elements, up to 4 writes in any order")
prop("C12", "Reference elements alias; access follows constness and value category",
  "An element of reference type refers to the original variable, also in copies of the tuple, whereas other elements are owned by the tuple. Accessing an element refers to it without copying, and yields it as lvalue, constant or movable in accordance with the tuple it is accessed through.",
  ["inputs", "histories", "programs"], "all values, and all sequences of writes through the tuple, its copies and the variables",
  "Tests check the types for a single element.",
  [CT, "src/pigro/forward_like.h", "src/pigro/fwd_capture.h", "src/pigro/utils.h"], [("values are captured as forwarded, and forwarded like the tuple", CT)],
  NOTE + "tuples of 1 to 4 elements, 4 writes")
prop("C13", "Binding a tuple to a function passes all arguments in order",
  "Binding a tuple with >> calls the function with the bound values first and the arguments of the call last, binding with << the other way around, for every number, type and value of bound and passed arguments. Arguments are passed as they are (same objects, constness, move-only ones included) and the result of the function is returned, once per call.",
  ["inputs", "programs"], "all values; 0 to 4 bound and 0 to 3 passed arguments of various types",
  "Tests bind one or two constants, most of which are distinguishable by type.",
  [BT, "src/pigro/apply.h"], [("apply with the remaining arguments bound to the other side", BT)],
  NOTE + "results are an uninterpreted function of the arguments, so that any permutation is noticed")
prop("C14", "Bound functions own temporaries, refer to named objects, and keep state",
  "A function bound to a tuple calls the very callable it was given: temporaries are owned by it (and remain valid as long as it exists), named objects are referred to. State of the callable and of the bound values is kept in between calls, and copies have a state of their own for whatever is owned.",
  ["histories", "inputs", "programs"], "all sequences of calls of an original and its copy, made at any time; all values",
  "Tests call a bound function once.",
  [BT, CT, "src/pigro/fwd_capture.h"], [("callable and tuple are elements of the overload set itself", BT)],
  NOTE + "any sequence of 4 calls")
prop("C15", "bind_back appends the bound arguments to the call",
  "A function with arguments bound to its back is called with the arguments of the call followed by the bound ones, in order, for any number and values of both, and its result is returned as it is. Temporaries are owned, named objects are referred to, and state is kept in between calls and independently for copies.",
  ["inputs", "histories", "programs"], "all values; 0 to 3 bound and 0 to 3 passed arguments; all sequences of 4 calls",
  "Tests bind a single constant.",
  [BT, "src/pigro/fwd_capture.h"], [("captured as forwarded, invoked with both packs", BT)],
  NOTE + "values arbitrary, results uninterpreted")
prop("C16", "apply passes all elements of a tuple in order, as they are",
  "Applying a function to any tuple-like object (compressed tuple, standard tuple, pair, array) calls it exactly once with all of the elements in order, as the elements themselves: lvalues of an lvalue tuple, movable from a temporary. The result of the function is returned.",
  ["inputs", "programs"], "all values; 0 to 6 elements",
  "Tests use one or two constants.",
  ["src/pigro/apply.h", CT, "src/pigro/concepts.h"], [("index sequence over get", "src/pigro/apply.h")],
  NOTE + "0 to 6 elements")
prop("C17", "Enumerating a pack pairs every element with its index",
  "Enumerating a pack calls the function exactly once with one item per element, in order, each having the index of its position and the element itself (same object, same value category). Enumerating a number n does so for 0 to n-1.",
  ["inputs", "programs"], "all values, packs of 0 to 6 elements, n of 0 to 8",
  "Tests enumerate a few constants of distinct types.",
  ["src/pigro/pack_algorithms.h"], [("index sequence alongside the pack", "src/pigro/pack_algorithms.h")],
  NOTE + "0 to 6 elements")
prop("C18", "transform maps every element, any finds whether one matches",
  "Transforming a tuple yields a tuple of the same number of elements, each being the value of the projection of the element at that position, which is called exactly once for each and on the element itself. Asking for any yields whether at least one element satisfies the predicate (false if there are none), and does not look further than the first that does.",
  ["inputs", "programs"], "all values and all projections and predicates, 0 to 5 elements",
  "Tests have two or three constants.",
  ["src/pigro/tuple_algorithms.h"], [("folds over std::apply", "src/pigro/tuple_algorithms.h")],
  NOTE + "projection and predicate are uninterpreted functions")
prop("C19", "Partitioning a list of types is stable and complete",
  "Partitioning a list of types by a trait yields each of the types exactly once, those that satisfy the trait before those that do not, in the original order otherwise; filtering yields exactly those that satisfy it.",
  ["programs"], "all lists of types and traits",
  "Tests have a few lists.",
  ["src/pigro/partition.h"], [("concatenation of filtered singletons", "src/pigro/partition.h")],
  "", claimed=False,
  reason="A computation on types only: it is done by the compiler's template instantiation, takes no run-time values and generates no code, so that there is nothing to execute symbolically; every list of types would be one concrete compile-time evaluation.")
prop("C20", "An overload set calls the function that matches, with its own state",
  "Calling an overload set calls exactly the one of its functions that matches the arguments, with those arguments, and returns its result. Each function keeps a state of its own, also in copies, in all positions of the set and in nested sets, and functions that cannot be called do not get in the way.",
  ["inputs", "histories", "programs"], "all values, all orders of up to 4 calls, 1 to 5 functions",
  "Tests call two overloads once.",
  ["src/pigro/overload.h"], [("inherits from all of the functions", "src/pigro/overload.h")],
  NOTE + "stateless and stateful functions in all positions")
prop("C21", "A recursive function receives itself and keeps its state",
  "A recursive function is called with itself as first argument, as the very same object (state included) with its constness, followed by the arguments as passed, and its result is returned as it is. The recursion computes the same as the equivalent ordinary recursive function.",
  ["inputs", "histories", "programs"], "all arguments up to the stated depth, all values of the state",
  "Tests compute one or two constants.",
  ["src/pigro/recursive.h"], [("call operators for all value categories pass *this", "src/pigro/recursive.h")],
  NOTE + "recursion depth up to 8")
prop("C22", "Functions without result can be made regular and back without any effect",
  "Making a function regular calls it once per call with the same arguments and returns its result, or a regular value if it has none; the reverse restores the absence of the result. State is kept in between calls, and an optional of that regular value remembers whether it has one, for every sequence of assignments and comparisons.",
  ["inputs", "histories", "programs"], "all values; 0 to 3 arguments; all sequences of 4 operations on the optional",
  "Tests call a few functions once.",
  ["src/pigro/regular_void.h"], [("result type decides whether to return the regular value", "src/pigro/regular_void.h")],
  NOTE + "3 calls, 4 operations")
prop("C23", "Values left uncaptured arrive behind the arguments of the call",
  "A function combined with uncaptured values is called with the arguments of the call followed by those values, in order, each the value given, and takes no space for stateless ones. Converting any tuple-like object to a standard tuple yields references to the very elements, in order.",
  ["inputs", "programs", "histories"], "all values; 1 to 4 uncaptured values, tuples of 0 to 5 elements",
  "Tests use a few constants.",
  ["src/pigro/uncapture.h", "src/pigro/to_tuple.h", "src/pigro/apply.h", "src/pigro/empty_object.h"], [("nested invocables that append one value each", "src/pigro/uncapture.h")],
  NOTE + "1 to 4 values")
prop("C24", "Forwarding helpers preserve identity, constness and value category",
  "Capturing a forwarded value refers to named objects and owns temporaries, without copies, and accessing it yields that very object. Forwarding like another type and removing constness yield the same object with the constness and value category asked for, and never move or copy by themselves.",
  ["inputs", "programs"], "all values, all combinations of constness and value category",
  "Tests check result types, not the objects.",
  ["src/pigro/forward_like.h", "src/pigro/fwd_capture.h", "src/pigro/utils.h"], [("tuple of one forwarded element", "src/pigro/fwd_capture.h")],
  NOTE + "mostly identities, which do not depend on values")

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            a["hook_needed"] = None
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["tests"], "anchors": a}) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "python3 -c 'import check; check.engine()'",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "python3 check.py " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "symbolic execution of the real code's LLVM IR, assertions decided by Z3, counterexamples replayed natively",
            "level": "model_checking",
            "level_note": p["note"] + "; bounded: nothing is claimed beyond the bounds and instantiations in the evidence",
        } for p in P if p["claimed"]],
        "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in P if not p["claimed"]],
        "notes": "See DESIGN.md. Repaired defects of the library are listed in KNOWN_FINDINGS.txt.",
    }
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")

main()
