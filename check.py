#!/usr/bin/env python3
"""check.py <property> quick|thorough: decide one property of /repo's current tree.

Builds the symbolic execution engine (engine/) and the harness crate of the property against /repo, lowers the
whole program to LLVM IR, executes the harness entries symbolically, replays every counterexample (and some
passing paths) on the natively compiled code, and writes evidence/<property>.json.
Exit 0: held on everything explored; 1: a reproduced violation; anything else: the check itself failed.
"""
import json, os, re, subprocess, sys, threading, time, shutil
from checks import CHECKS, CRATES

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, ".build")
SYMLL = os.path.join(B, "engine/release/symll")


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def die(msg, code=3):
    print("ERROR " + msg)
    sys.exit(code)


def build_engine(out):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(B, "engine"), RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")
    r = run(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(V, "engine"), env=env)
    if r.returncode != 0:
        out.append("engine build failed: " + r.stdout[-3000:])


def build(crate, entries):
    errs = []
    t = threading.Thread(target=build_engine, args=(errs,))
    t.start()
    env = dict(os.environ, PREP_EXTRA=" ".join(CRATES[crate].get("prep", [])))
    env.pop("RUSTFLAGS", None)
    h = [os.path.join(V, "harness/build.sh"), crate]
    r = run(["bash", h[0], "native", crate] + entries, env=env)
    t.join()
    if errs:
        die(errs[0])
    if r.returncode != 0:
        die("harness build failed: " + r.stdout[-3000:])
    r = run(["bash", h[0], "ir", crate] + entries, env=env)
    if r.returncode != 0:
        die("lowering failed: " + r.stdout[-3000:])


def demangle(names):
    if shutil.which("c++filt"):
        r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        return r.stdout.split("\n")[: len(names)]
    return names


def native(crate, entry, inputs, path, limit=30):
    """run the natively compiled harness on concrete inputs: (verdict, output)"""
    with open(path, "w") as f:
        for n, v in inputs:
            f.write("%s\t%s\n" % (n, v))
    d = path + ".d"
    os.makedirs(d, exist_ok=True)
    try:
        env = dict(os.environ, RUST_BACKTRACE="0")
        r = run(["timeout", "-k", "5", str(limit), os.path.join(B, crate, "native"), entry, path], cwd=d, env=env)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    o = r.stdout
    fails = re.findall(r"^REPLAY-FAIL (.*)$", o, re.M)
    if fails:
        return "fail", fails
    if r.returncode == 0 and "REPLAY-OK" in o:
        return "ok", []
    if "REPLAY-ASSUME-FALSE" in o:
        return "assume", []
    if r.returncode in (124, 137):
        return "fail", ["it does not terminate"]
    m = re.search(r"panicked at (.*)", o)
    return "fail", ["panic: " + (m.group(1) if m else "exit code %d" % r.returncode)]


def mine(spec, vid):
    """does the failed assertion belong to this property?"""
    if vid.startswith(("panic", "it does not terminate", "abort", "memory", "trap")):
        return spec.get("panics", True)
    return not spec.get("ids") or any(i in vid for i in spec["ids"])


def known(prop):
    fs = []
    try:
        for l in open(os.path.join(V, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) match=(.*?) :: (.*)", l)
            if m and m.group(1) == prop:
                fs.append((m.group(2), m.group(3)))
    except FileNotFoundError:
        pass
    return fs


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = CHECKS[prop]
    crate = spec["crate"]
    cc = CRATES[crate]
    t0 = time.time()
    entries = [e if isinstance(e, str) else e[0] for e in spec["entries"]]
    build(crate, entries)
    t_build = time.time() - t0
    out = os.path.join(B, "run", prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    rep = os.path.join(V, "replays", prop)
    shutil.rmtree(rep, ignore_errors=True)
    os.makedirs(rep)
    budget = 640 if tier == "quick" else 6 * 3600
    cores = os.cpu_count() or 4
    res = {}
    viols, errors, inconcl, others = [], {}, {}, []
    validated, disagree = 0, []
    for ent in spec["entries"]:
        e, opts = (ent, {}) if isinstance(ent, str) else ent
        left = budget - (time.time() - t0)
        lim = opts.get("time", 120 if tier == "quick" else 3000)
        lim = int(max(5, min(lim, left)))
        od = os.path.join(out, e)
        args = [SYMLL, "run", os.path.join(B, crate, crate + ".ll"), e, od, "workers=%d" % cores, "time=%d" % lim, "seed=%d" % seed]
        if tier == "quick":
            args.append("fix=deep:0")
        args += cc.get("run", []) + spec.get("args", []) + opts.get("args", [])
        subprocess.run(["timeout", "-k", "5", str(lim + 60)] + args, stdout=open(os.path.join(out, e + ".log"), "w"), stderr=subprocess.STDOUT)
        try:
            r = json.load(open(os.path.join(od, "result.json")))
        except (FileNotFoundError, ValueError):
            errors[e] = "no result: " + open(os.path.join(out, e + ".log")).read()[-300:]
            continue
        res[e] = r
        for k, n in r["error"].items():
            errors[e + ": " + k] = n
        for k, n in r["incomplete"].items():
            inconcl[e + ": " + k] = n
        # passing paths: the engine and the compiled code must agree
        for i, s in enumerate(r["samples"][:3]):
            ins = re.findall(r"(\S+)=(-?\d+)(?= |$)", s.split(" [")[0])
            v, f = native(crate, e, ins, os.path.join(out, "sample-%s-%d" % (e, i)))
            validated += v == "ok"
            if v == "fail":
                for x in f:
                    (viols if mine(spec, x) else others).append((e, x, ins, s))
            elif v == "assume":
                disagree.append(s[:200])
        # counterexamples
        tried = {}
        for i, vi in enumerate(r["violations"]):
            if tried.get(vi["id"], 0) >= 4:
                continue
            tried[vi["id"]] = tried.get(vi["id"], 0) + 1
            ins = [(n, x) for n, _, x in vi["inputs"]]
            v, f = native(crate, e, ins, os.path.join(out, "cex-%s-%d" % (e, i)))
            if v == "fail":
                for x in f:
                    (viols if mine(spec, x) else others).append((e, x, ins, " / ".join(vi["notes"])))
                if any(mine(spec, x) for x in f):
                    tried[vi["id"]] = 99
            elif not vi["maybe"]:
                disagree.append("%s: %s %s" % (e, vi["id"], " / ".join(vi["notes"])[:300]))
        if tier == "quick" and viols and time.time() - t0 > 300:
            break
    # known findings
    fresh, kf = [], {}
    for v in viols:
        text = "%s | %s | %s" % (v[0], v[1], v[3])
        for pat, what in known(prop):
            if re.search(pat, text):
                kf[what] = kf.get(what, 0) + 1
                break
        else:
            fresh.append(v)
    tot = lambda k: sum(r.get(k, 0) for r in res.values())
    checks = {}
    for r in res.values():
        for k, c in r["checks"].items():
            d = checks.setdefault(k, dict(evaluated=0, by_solver=0, inconclusive=0))
            for x in d:
                d[x] += c[x]
    own = {k: c for k, c in checks.items() if mine(spec, k)}
    funcs = sorted({f for r in res.values() for f in r["func"]})
    dem = demangle(funcs)
    repo_funcs = sorted({re.sub(r"\[[0-9a-f]+\]", "", d) for d in dem if re.search(cc["pattern"], d) and "::fmt" not in d})
    paths = tot("paths")
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking", violations=len(fresh), wall_s=round(time.time() - t0, 1),
        assumptions=cc["assumptions"] + spec.get("assumptions", []),
        coverage=dict(
            states=paths, transitions=tot("forks") + tot("merges") + tot("domain_decisions") + tot("enum_decisions"),
            traces_validated_against_impl=validated,
            samples=[s[:700] for r in res.values() for s in r["samples"][:3]][:24],
            explanation="states = symbolic execution paths followed to their end; transitions = branch decisions made by forking, merging or the value domains",
            entries={e: dict(paths=r["paths"], forks=r["forks"], merges=r["merges"], queries=r["queries"], solver_s=round(r["solver_us"] / 1e6, 2),
                             wall_s=r["wall_s"], instructions=r["insts"], outcomes=r["cover"]) for e, r in res.items()},
            assertions=own, bounds=spec["bounds"],
            functions_encoded=len(funcs), repo_functions_encoded=repo_funcs[:400],
            queries=tot("queries"), queries_sat=tot("q_sat"), queries_unsat=tot("q_unsat"), queries_unknown=tot("q_unknown"),
            solver="z3 " + next((r["z3"] for r in res.values()), "?"), solver_s=round(tot("solver_us") / 1e6, 2), build_s=round(t_build, 1),
            incomplete=inconcl, engine_errors=errors, disagreements=disagree,
            violations_of_other_properties=["%s: %s" % (o[0], o[1]) for o in others][:20], known_findings=kf,
            exhaustive=not inconcl and not errors and len(res) == len(spec["entries"]),
        ))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    shutil.rmtree(out, ignore_errors=True)
    print("%s %s: %d paths, %d queries, %.1f s solver, %d assertions evaluated, %d passing paths replayed, %.0f s" % (
        prop, tier, paths, tot("queries"), tot("solver_us") / 1e6, sum(c["evaluated"] for c in own.values()), validated, time.time() - t0))
    for k, n in list(inconcl.items()) + list(errors.items()):
        print("INCONCLUSIVE %s (%s)" % (k, n))
    for w in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    if fresh:
        seen = set()
        for i, (e, vid, ins, note) in enumerate(fresh):
            if (e, vid) in seen:
                continue
            seen.add((e, vid))
            p = os.path.join(rep, "%s-%d.replay" % (e, i))
            with open(p, "w") as f:
                f.write("!\t%s: %s\n!\tnative binary: .build/%s/native %s <this file>\n!\t%s\n" % (e, vid, crate, e, note.replace("\n", " ")))
                for n, v in ins:
                    f.write("%s\t%s\n" % (n, v))
            print("  %s: %s\n  input: %s" % (e, vid, note[:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, p))
        sys.exit(1)
    if disagree:
        die("a counterexample does not reproduce on the compiled code: " + disagree[0])
    if sum(c["evaluated"] for c in own.values()) == 0:
        die("no assertion of the property was reached")
    sys.exit(0)


main()
