#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below; a property without an entry goes to not_applicable."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENUM = "explicit-state exploration of the real generator"
CHECKS = {
 "P01": (ENUM + " (all environments x run histories x descriptions up to a bound)", "model_checking",
         "Exhaustive within the stated corpus of descriptions, configurations, hash seeds and run histories; trusts the driver, which only calls the public API and replaces getrandom."),
 "P02": ("breadth-first state exploration of output directories with exhaustive fault injection at every file-system call of the real generator", "model_checking",
         "Every state reachable in the bounded number of runs, and every crash, torn write, short write and error at each write-like call of a run; trusts the LD_PRELOAD shim to see every call that changes the directory."),
 "P03": ("exhaustive enumeration of operation sequences on the compiled generated C++ wrappers, in lock step with an explicit-state ownership model", "model_checking",
         "All histories to the stated depth plus one history into and every operation out of every reachable canonical model state (closed at the stated number of references), per storage flavour; trusts ASan/UBSan and the drop registry for memory errors."),
 "P04": ("exhaustive enumeration of operation sequences on the compiled generated C++ containers and strings, in lock step with a list model", "model_checking",
         "All operation sequences to the stated depth plus every operation out of every reachable canonical state, per element type; element values come from a small alphabet; trusts ASan/UBSan for memory errors."),
 "P05": ("exhaustive enumeration of type x position x value x C++ flavour through the real generator, both compilers and the compiled boundary, against an abstract value oracle", "model_checking",
         "Every type of the bounded type matrix in every position with every value of its value set, all ordered argument pairs; integers, floats and strings are represented by boundary values."),
 "P06": ("exhaustive enumeration of callback histories on the compiled boundary in lock step with an explicit-state model, plus every type and value as callback argument and result", "model_checking",
         "All histories to the stated depth plus every operation out of every reachable model state (closed), two callback slots and one holder; one thread at a time because a callback is Send but not Sync."),
 "P07": ("exhaustive enumeration of operation sequences on the compiled generated Java classes in lock step with an explicit-state ownership model; stateless model checking of thread schedules under a controlled scheduler; the collector at every point of every generated method", "model_checking",
         "All histories to the stated depth plus every operation out of every reachable canonical state; all interleavings of two threads and those of three threads within a preemption bound; object references bounded; the real collector runs at each instrumented point, JIT liveness as of the installed JVM."),
 "P08": ("exhaustive enumeration of type x position x value x configuration through the real generator, both compilers and a real JVM, against an abstract value oracle", "model_checking",
         "Every type of the bounded type matrix in every position with every value of its value set, all ordered argument pairs; integers, floats and strings are represented by boundary values."),
 "P10": ("exhaustive enumeration of callback histories over the generated adapter in a real JVM, with threads, exceptions and reentrancy, in lock step with an explicit-state model; every type and value as callback argument and result on every thread mode", "model_checking",
         "All histories to the stated depth plus every operation out of every reachable model state (closed); one call at a time because a callback is Send but not Sync; integers, floats and strings by boundary values."),
 "P11": ("exhaustive enumeration of enumeration shapes x positions x languages through the real generator, both compilers and the compiled boundary, all items and a set of codes that are no items, against the described bijection", "model_checking",
         "Every shape of the bounded set in every position with every item in the C++, Java and Python back ends; codes that denote no item are represented by the neighbours of the range, extremes and every gap."),
 "P12": ("exhaustive enumeration of type x position x value through the real generator, rustc and a real Python interpreter, against an abstract value oracle; exhaustive enumeration of operation histories on the generated classes in lock step with an explicit-state ownership model", "model_checking",
         "Every type of the bounded type matrix in every position with every value of its value set, all ordered argument pairs; all histories to the stated depth plus every operation out of every reachable model state for five storage kinds; integers, floats and strings by boundary values."),
 "P13": ("exhaustive enumeration of storage x construction x receiver through the real generator and both compilers; exhaustive enumeration of construction/call/share/drop histories on the compiled boundary in lock step with an explicit-state object model", "model_checking",
         "41 storages in C++ and 35 in Java (all nestings of two supported pointers, cells and locks, selected nestings of three), infallible and fallible constructors, all histories to the stated depth plus every operation out of every reachable state; two foreign handles."),
 "P15": (ENUM + " (all pairs of members, class features, interfaces, enumerations and user-chosen names) with the API read back by the compilers and compared with a model of the description", "model_checking",
         "All ordered pairs of members of the menu; names from a list of words that generated code uses or that are special to a back end, in every position. Names that make the generator refuse or the output not compile are listed in mc/specs/p15_skip.json and not judged."),
 "P16": (ENUM + " (all faults of a menu x positions x files x surroundings)", "model_checking",
         "Exhaustive over the menu of faults times placement; a kind of fault outside the menu is not covered."),
 "P17": (ENUM + " (all annotation placements x registrations up to a bound) against an abstract dispatcher", "model_checking",
         "Exhaustive over placements on up to two (quick) or three (thorough) slots and the stated registration sets."),
}
PENDING = "Not claimed yet: the check for this property is still being built (see DESIGN.md)."
REASONS = {}
def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks = []
    for p in props:
        if p in CHECKS:
            t, lv, note = CHECKS[p]
            checks.append({"property": p, "quick_cmd": "python3 mc/run.py %s" % p,
                           "thorough_cmd": "python3 mc/run.py %s --thorough" % p,
                           "technique": t, "level": lv, "level_note": note})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
         "hooks": {"guard": "none", "enable": "No hooks: the checks use the public API of the generator and the code it generates.", "source_commits": []},
         "checks": checks,
         "not_applicable": [{"property": p, "reason": REASONS.get(p, PENDING)} for p in props if p not in CHECKS],
         "notes": "Each check builds what it needs from /repo's working tree. KNOWN_FINDINGS lists recorded and repaired defects."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
main()
