"""Entry point: check.py <PROPERTY> [--facts DIR] [--show N].

Extracts the MIR facts of /repo's current tree, applies the property's rules, writes evidence/<id>.json and
evidence/<id>.report.txt; exit 0 if every obligation was discharged, 1 with a VIOLATION line otherwise."""
import sys, os, time, json, traceback, argparse
from lib import *
import facts as factsmod
import session_rules  # noqa
import implied

for m in ("progress_rules", "message_rules", "evidence_rules", "echo_rules", "dynround_rules", "report_rules", "transition_rules", "chain_rules", "extend_rules", "runner_rules",
          "structure_rules", "error_rules", "misc_rules", "dev_rules", "complete_rules", "accept_rules", "ambient_rules", "helper_rules", "cause_rules", "encoding_rules"):
    if os.path.exists(os.path.join(HERE, m + ".py")):
        __import__(m)

VERIF = os.path.dirname(HERE)


def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--facts")
    ap.add_argument("--show", type=int, default=0)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    pid = a.pid
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if a.facts:
        fdir, tag = a.facts, "given"
    else:
        fdir, tag = factsmod.facts()
    S = Suite(Program(fdir), pid)
    S.tier = tier
    try:
        implied.run(S, pid)
    except EngineError as e:
        S.ob("analysis-complete", str(e).split(":")[0][:80], False, "", "the analysis could not be completed: %s" % e)
    except RecursionError:
        S.ob("analysis-complete", "recursion", False, "", "the analysis could not be completed: recursion limit")
    except Exception as e:
        S.ob("analysis-complete", type(e).__name__, False, "", "the analysis could not be completed: %s" % traceback.format_exc())
    sup = {(k["rule"], k["instance"]): k for k in known()["findings"] if k["property"] == pid}
    bad, kn = [], {}
    for o in S.obs:
        if o.ok:
            continue
        if (o.rule, o.inst) in sup:
            kn.setdefault((o.rule, o.inst), o)
        else:
            bad.append(o)
    groups = {}
    for o in bad:
        groups.setdefault((o.rule, o.inst), []).append(o)
    out = os.path.join(VERIF, "evidence")
    os.makedirs(out, exist_ok=True)
    rep = os.path.join(out, pid + ".report.txt")
    rules = {}
    for o in S.obs:
        r = rules.setdefault(o.rule, [0, 0, set()])
        r[0] += 1
        r[1] += o.ok
        r[2].add(o.inst)
    with open(rep, "w") as f:
        f.write("property %s: %d obligations, %d not discharged (%d distinct rule instances)\n" % (pid, len(S.obs), len(bad), len(groups)))
        for r, (n, k, ins_) in sorted(rules.items()):
            f.write("rule %-45s obligations %6d discharged %6d instances %s\n" % (r, n, k, ", ".join(sorted(map(str, ins_)))[:400]))
        for (r, i), os_ in groups.items():
            f.write("\n=== VIOLATED rule=%s instance=%s (%d path(s))\n" % (r, i, len(os_)))
            for o in os_[:3]:
                f.write("at %s\n%s\n" % (o.where, o.detail))
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "path-sensitive dataflow over the MIR of the functions listed, with callees inlined; every exit "
                           "(path class) of the listed entry functions is compared with the rules of the property",
            "entry_functions": ["%s (%d exits)" % r for r in S.roots],
            "functions_analysed": len(S.functions),
            "call_sites_analysed": len(S.callsites),
            "exits_analysed": S.nexits,
            "obligations": len(S.obs),
            "discharged": len([o for o in S.obs if o.ok]),
            "rules": {r: {"obligations": v[0], "discharged": v[1], "instances": sorted(map(str, v[2]))[:60]} for r, v in rules.items()},
            "facts_tag": tag, "notes": S.notes,
        },
        "assumptions": S.assume + [
            "the contracts of the standard library and dependency functions modelled in engine/models.py",
            "methods supplied by the library's users (trait implementations) are uninterpreted",
        ],
        "violations": len(groups), "wall_s": round(time.time() - t0, 2),
    }
    if not a.no_evidence:
        json.dump(ev, open(os.path.join(out, pid + ".json"), "w"), indent=1)
    print("%s: %d obligations over %d exits of %d entry functions (%d functions, %d call sites), %d not discharged, %.1f s" % (
        pid, len(S.obs), S.nexits, len(S.roots), len(S.functions), len(S.callsites), len(bad), time.time() - t0))
    for (r, i), o in kn.items():
        print("KNOWN-FINDING: property=%s %s %s" % (pid, r, i))
    if groups:
        for (r, i), os_ in groups.items():
            print("  rule=%s instance=%s paths=%d at %s" % (r, i, len(os_), os_[0].where))
        for o in bad[:a.show]:
            print("=====", o.rule, o.inst, o.where)
            print(o.detail)
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        sys.exit(1)
    sys.exit(0)


main()
