#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]

exit 0: every obligation of the property holds on /repo's current sources
exit 1: a violation not listed in known_findings.json (VIOLATION line printed)
exit 2: no answer (anchor vanished, source does not parse, tool failure)"""
import importlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from polycheck import ir  # noqa: E402
from polycheck.report import Result  # noqa: E402


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    tier = os.environ.get("VERIF_TIER", "quick")
    for i, a in enumerate(sys.argv):
        if a == "--tier":
            tier = sys.argv[i + 1]
            args = [x for x in args if x != tier]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    pid = args[0]
    t0 = time.time()
    mod = importlib.import_module("polycheck.rules." + pid.lower())
    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    try:
        prog = ir.Program(asserts=getattr(mod, "ASSERTS", False))
        res = Result(pid)
        mod.run(prog, res, tier)
        if tier == "thorough" and hasattr(mod, "thorough"):
            mod.thorough(prog, res)
    except ir.AnalysisError as e:
        print("NO ANSWER property=%s: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("NO ANSWER property=%s: internal error" % pid)
        return 2
    kf = {k["key"]: k for k in known.get("findings", []) if k["property"] == pid}
    new, old = [], []
    for v in res.violations:
        (old if v["key"] in kf else new).append(v)
    ev = os.environ.get("POLY_EVID") or os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    rep = os.path.join(ev, pid + ".violations.txt")
    with open(rep, "w") as f:
        for v in new:
            f.write("property=%s rule=%s at=%s key=%s\n  %s\n" % (pid, v["rule"], v["at"], v["key"], v["msg"]))
    rules = {}
    for o in res.obligations:
        r = rules.setdefault(o["rule"], {"checked": 0, "failed": 0, "sample": []})
        r["checked"] += 1
        if not o["ok"]:
            r["failed"] += 1
        if len(r["sample"]) < 6:
            r["sample"].append("%s: %s" % (o["at"], o["what"]))
    cov = {
        "explanation": mod.__doc__.strip().split("\n\n")[0].replace("\n", " "),
        "obligations": len(res.obligations),
        "discharged": sum(1 for o in res.obligations if o["ok"]),
        "rules": rules,
        "instances": res.cover,
        "functions_in_program": len(prog.funcs),
        "translation_units": prog.meta.get("tus"),
        "notes": res.notes,
        "known_findings_present": [v["key"] for v in old],
    }
    out = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other", "coverage": cov,
           "assumptions": getattr(mod, "ASSUMES", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(out, f, indent=1, default=str)
    print("%s (%s): %d obligations, %d failed (%d known), %.1f s; %s" %
          (pid, tier, len(res.obligations), len(res.violations), len(old), time.time() - t0,
           ", ".join("%s=%s" % kv for kv in sorted(res.cover.items()))))
    for v in old:
        print("KNOWN-FINDING: property=%s %s [%s] %s" % (pid, v["at"], v["key"], kf[v["key"]].get("what", v["msg"])))
    for v in new:
        print("  %s: [%s] %s  (key %s)" % (v["at"], v["rule"], v["msg"], v["key"]))
    if new:
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
