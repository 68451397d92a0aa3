#!/usr/bin/env python3
"""dev.py <crate> [-b] <entry>... [-- symll options]: build (-b) and run entries while developing harnesses."""
import sys, os, subprocess, json, time
from checks import CRATES
V = os.path.dirname(os.path.abspath(__file__))
a = sys.argv[1:]
opts = []
if "--" in a:
    opts = a[a.index("--") + 1:]
    a = a[:a.index("--")]
crate, ents = a[0], [x for x in a[1:] if x != "-b"]
env = dict(os.environ, PREP_EXTRA=" ".join(CRATES[crate].get("prep", [])))
if "-b" in a:
    for ph in ("native", "ir"):
        r = subprocess.run(["bash", V + "/harness/build.sh", ph, crate] + ents, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout[-3000:])
            sys.exit(1)
for e in ents:
    od = "/tmp/o_" + e
    subprocess.run(["rm", "-rf", od])
    if not any(o.startswith("fix=deep") for o in opts):
        opts.append("fix=deep:0")
    r = subprocess.run(["timeout", "-k", "5", os.environ.get("TMO", "150"), V + "/.build/engine/release/symll", "run", V + "/.build/%s/%s.ll" % (crate, crate), e, od, "workers=8", "time=" + os.environ.get("ETIME", "90")] + CRATES[crate].get("run", []) + opts,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print("==", e, r.stdout[-1500:])
    try:
        r = json.load(open(od + "/result.json"))
    except Exception as x:
        print(x)
        continue
    print({k: r[k] for k in ("paths", "forks", "merges", "queries", "wall_s", "insts", "cover")}, "solver %.1f" % (r["solver_us"] / 1e6))
    for k in ("error", "incomplete"):
        for m, n in list(r[k].items())[:8]:
            print(k, n, m[:400])
    for k in ("site", "qsite"):
        for m, n in list(r[k].items())[:int(os.environ.get("TOP", "3"))]:
            print("  ", k, n, m[:150])
    print({k: c for k, c in r["checks"].items()})
    seen = {}
    for v in r["violations"]:
        seen[v["id"]] = seen.get(v["id"], 0) + 1
        if seen[v["id"]] <= 2:
            p = "%s/v%d" % (od, len(seen) * 10 + seen[v["id"]])
            open(p, "w").write("".join("%s\t%s\n" % (n, x) for n, _, x in v["inputs"]))
            q = subprocess.run(["timeout", "20", V + "/.build/%s/native" % crate, e, p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=od)
            print("VIOL", v["id"], [(n, x) for n, _, x in v["inputs"]][:14], v["notes"][:3], "maybe" if v["maybe"] else "", "| native:", q.returncode, [l for l in q.stdout.split("\n") if not l.startswith("replay:") and l][-2:])
