"""Regenerates MANIFEST.json from the table of checks."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DF = "path-sensitive MIR dataflow with inlining; rules over all exits"
NOTE = ("Every path class of the entry functions (loops summarised by their fixpoint, callees inlined) is compared with the "
        "rule; sound for the analysed MIR up to the library models of engine/models.py and uninterpreted user trait methods.")
TY = ("typestate rules over the order of effects on every path (path-sensitive MIR dataflow)",
      "The order of the calls that matter (channel operations, cancellation, task spawns, queue operations) on every path "
      "class of the entry functions and of every iteration of their loops is compared with the rule; sound for the analysed "
      "MIR up to the library models of engine/models.py. Fairness of the executor is not decided.")
CHECKS = {"C%02d" % n: (DF, NOTE) for n in range(1, 42)}
for p in ("C23", "C24", "C31", "C32"):
    CHECKS[p] = TY
CHECKS["C21"] = ("whole-crate MIR query for unguarded dispatch plus path-sensitive dataflow on the guards", NOTE)
CHECKS["C25"] = ("error-escape dataflow over every body of the crate",
                 "In every MIR body of the crate, each local of a type that carries an error is followed to its uses; a value "
                 "that is dropped unread or replaced is reported. Exhaustive over bodies; uses are judged by kind.")
CHECKS["C27"] = ("type-level query over all monomorphic call sites plus path-sensitive MIR dataflow",
                 "Every serialisation call of the crate is checked for the format it is made with; the rest by path-sensitive "
                 "dataflow up to the library models.")
CHECKS["C29"] = ("type-level witnesses: generic functions that compile only if the guarantee holds",
                 "The witnesses demand the auto traits for all type parameters, so the type checker decides them for every protocol.")
CHECKS["C30"] = ("query over the type-checked public interface (items, fields, impls, visibility, receivers)",
                 "Exhaustive over the items the compiler reports as reachable from outside the crate.")
CHECKS["C36"] = ("whole-crate query over types and resolved calls in the MIR, plus dataflow for the random session identifier",
                 "Every local and every call of every non-test, non-dev body is looked at; a deny-list names the sources of ambient values of the "
                 "standard library and its companions, so a source the list does not know (a user crate) would be missed.")
CHECKS["C37"] = ("control-flow and call-graph analysis: every cycle must contain a step that makes progress",
                 "Strongly connected components of every MIR body after removing the steps of progress; progress is judged by the "
                 "called operation and the lifetime of what it is applied to. Iterators and futures are trusted to be finite / external.")
NA = {}


def main():
    props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl")) if l.strip()]
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
    for p in props:
        i = p["id"]
        if i in CHECKS:
            t, n = CHECKS[i]
            m["checks"].append({"property": i, "quick_cmd": "./check.sh %s" % i, "thorough_cmd": "./check.sh %s" % i,
                                "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "other", "level_note": n})
        else:
            m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
    json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)


main()
