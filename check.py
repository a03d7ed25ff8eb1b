#!/usr/bin/env python3
"""Decides one property of /repo's working tree.

usage: check.py PROP [quick|thorough]      run the check (VERIF_SEED, VERIF_TIER)
       check.py --replay FILE              run the case recorded in a replay file again

1. gocon generates the obligations of the property's contracts from /repo's source and
   has them discharged by SMT solvers (deciding step).
2. The companion (bounded) searches for a failing input with the real code, which backs
   a failed obligation with a concrete case and covers what is outside the contracts.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, threading

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENV = dict(os.environ, HOME="/root", GOPATH="/root/go", GOTOOLCHAIN="local", GOPROXY="off")
BUILD = os.path.join(VERIF, ".build")


def repo_go():
    """The Go toolchain of the project's build (/opt/vp/env.sh), its linknames need it."""
    for c in ("/usr/lib/go-1.21/bin/go",):
        if os.path.exists(c):
            return c
    return "go"


def gocon_bin():
    """Builds the verifier unless it is up to date."""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "gocon")
    src = [os.path.join(VERIF, "gocon", f) for f in os.listdir(os.path.join(VERIF, "gocon"))]
    if os.path.exists(out) and os.path.getmtime(out) >= max(map(os.path.getmtime, src)):
        return out
    tmp = "%s.%d" % (out, os.getpid())
    r = subprocess.run(["go", "build", "-o", tmp, "."], cwd=os.path.join(VERIF, "gocon"),
                       env=dict(ENV, GOFLAGS="-mod=mod", GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_="", GOSUMDB="off"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise SystemExit("gocon does not build:\n" + r.stdout)
    os.rename(tmp, out)
    return out


def build_companion(tmp, prop, seed, ntypes):
    d = os.path.join(tmp, "c%d" % seed)
    os.makedirs(d)
    rep = {}
    for f in ("ref", "harness", "fixed", "construct"):
        p = os.path.join(d, f + "_test.go")
        shutil.copy(os.path.join(VERIF, "companion", f + ".go.txt"), p)
        rep["%s/zz_%s_test.go" % (REPO, f)] = p
    p = os.path.join(d, "cat_test.go")
    with open(p, "w") as o:
        subprocess.run([sys.executable, os.path.join(VERIF, "companion", "gen_types.py"), prop, str(seed), str(ntypes)], stdout=o, check=True)
    rep[REPO + "/zz_cat_test.go"] = p
    for n in os.listdir(REPO):  # the repository's own tests stay out of the binary
        if n.endswith("_test.go"):
            with open(os.path.join(REPO, n)) as f:
                pkg = re.search(r"^package (\w+)", f.read(), re.M).group(1)
            p = os.path.join(d, "empty_" + n)
            with open(p, "w") as o:
                o.write("package %s\n" % pkg)
            rep[os.path.join(REPO, n)] = p
    with open(d + "/ov.json", "w") as o:
        json.dump({"Replace": rep}, o)
    r = subprocess.run([repo_go(), "test", "-overlay", d + "/ov.json", "-vet=off", "-c", "-o", d + "/t.bin", "."],
                       cwd=REPO, env=dict(ENV, GOFLAGS="-mod=readonly"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError("companion does not build:\n" + r.stdout[-3000:])
    return d + "/t.bin"


def run_bin(binary, prop, seed, ms, extra=None):
    env = dict(ENV, VC_PROP=prop, VC_SEED=str(seed), VC_MS=str(ms), **(extra or {}))
    try:
        r = subprocess.run([binary, "-test.run", "TestComp$", "-test.timeout", "0"], env=env, cwd=os.path.dirname(binary),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=ms / 1000 + 120)
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return -1, (e.stdout or b"").decode("utf-8", "replace") + "\ntimeout"


def companion(tmp, prop, seed, tier):
    """Returns (stats, failing case or None)."""
    builds, procs, ms, ntypes = (2, 2, 14000, 100) if tier == "quick" else (6, 4, 60000, 260)
    stats = dict(evaluations=0, distinct_nontrivial=0, accepted=0, types=0, samples=[])
    fails, errs, lock = [], [], threading.Lock()

    def search(binary, s):
        rc, out = run_bin(binary, prop, s, ms)
        with lock:
            m = re.search(r"^FAIL-INPUT (.*)$", out, re.M)
            if m:
                fails.append(dict(json.loads(m.group(1)), type_seed=s // 1000, types=ntypes))
            elif rc != 0:
                fails.append(dict(crash=out[-4000:], type_seed=s // 1000, types=ntypes, seed=s, bin=binary))
            m = re.search(r"^COMP-STATS (.*)$", out, re.M)
            if m:
                st = json.loads(m.group(1))
                for k in ("evaluations", "distinct_nontrivial", "accepted", "types"):
                    stats[k] += st[k]
                stats["samples"] += st["samples"] or []

    def one(b):
        ts = seed * 10 + b
        try:
            binary = build_companion(tmp, prop, ts, ntypes)
        except Exception as e:
            errs.append(str(e))
            return
        th = [threading.Thread(target=search, args=(binary, ts * 1000 + k)) for k in range(procs)]
        [t.start() for t in th]
        [t.join() for t in th]

    for lo in range(0, builds, 2):
        th = [threading.Thread(target=one, args=(b,)) for b in range(lo, min(builds, lo + 2))]
        [t.start() for t in th]
        [t.join() for t in th]
        if fails or errs:
            break
    if errs:
        raise SystemExit("\n".join(errs))
    stats["samples"] = [s[:300] for s in sorted(set(stats["samples"]), key=lambda x: (len(x), x))[-6:]]
    fails.sort(key=lambda f: ("crash" in f, len(f.get("input", ""))))
    if fails and "crash" in fails[0]:  # find the case that killed the process
        f = fails[0]
        trace = os.path.join(tmp, "trace")
        for _ in range(3):
            rc, out = run_bin(f["bin"], prop, f["seed"], ms, dict(VC_TRACE=trace))
            if rc != 0 and os.path.exists(trace):
                with open(trace, errors="replace") as t:
                    f["last_case"] = t.read()[:20000]
                f["crash"] = out[-4000:]
                break
        f.pop("bin")
        f["what"] = "the process was killed by a fatal runtime error (memory corruption or hang)"
    return stats, (fails[0] if fails else None)


def known(prop):
    out = []
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for l in f:
            m = re.match(r"known: property=(\w+) id=(\w+) (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def probe_known(tmp, prop):
    ks = known(prop)
    if not ks:
        return
    b = build_companion(tmp, "none", 0, 0)
    for kf, what in ks:
        try:
            r = subprocess.run([b, "-test.run", "TestKnown$"], env=dict(ENV, VC_KNOWN=kf), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
            still = "KNOWN-OK" not in r.stdout.decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            still = True
        if still:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, kf, what))


def proved_props():
    """The properties with a contract (see contracts/*.con)."""
    ps = set()
    for n in os.listdir(os.path.join(VERIF, "contracts")):
        with open(os.path.join(VERIF, "contracts", n)) as f:
            t = f.read()
            for m in re.finditer(r"^props (.*)$|^on .*?\[((?:C\d\d ?)+)\] ->", t, re.M):
                ps.update((m.group(1) or m.group(2)).split())
    return ps


SHARDS = {"C01": 4, "C02": 4, "C03": 4}


def gocon(tmp, prop, tier):
    """Runs the verifier, the functions under contract spread over some processes."""
    n = SHARDS.get(prop, 2)
    jobs = str(8 // n)
    reps = [None] * n

    def one(k):
        out = os.path.join(tmp, "gocon%d.json" % k)
        cmd = [gocon_bin(), "-repo", REPO, "-contracts", os.path.join(VERIF, "contracts"), "-prop", prop, "-limit", "560",
               "-shard", "%d/%d" % (k, n), "-out", out]
        r = subprocess.run(cmd, env=dict(ENV, GOFLAGS="-mod=readonly", GOCON_JOBS=jobs), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            reps[k] = dict(obligations=0, discharged=0, failed=[dict(name="generation", detail="the verifier stopped: " + r.stdout[-3000:])],
                           functions=[], trusted=[], assumptions=[], back_ends={}, solver_s=0)
            return
        with open(out) as f:
            reps[k] = json.load(f)
    gocon_bin()
    th = [threading.Thread(target=one, args=(k,)) for k in range(n)]
    [t.start() for t in th]
    [t.join() for t in th]
    m = reps[0]
    for r in reps[1:]:
        for k in ("obligations", "discharged", "solver_s"):
            m[k] += r[k]
        m["failed"] = (m["failed"] or []) + (r["failed"] or [])
        for k in ("functions", "trusted", "assumptions"):
            m[k] = sorted(set(m[k] or []) | set(r[k] or []))
        for k, v in (r["back_ends"] or {}).items():
            m["back_ends"][k] = m["back_ends"].get(k, 0) + v
        for k, v in (r.get("vacuity") or {}).items():
            m.setdefault("vacuity", {}).setdefault(k, v)
    return m


def replay(path):
    with open(path) as f:
        c = json.load(f)
    if "input" not in c:
        print(json.dumps(c, indent=1))
        return 1
    tmp = tempfile.mkdtemp(prefix="vcheck_")
    try:
        b = build_companion(tmp, c["property"], c["type_seed"], c["types"])
        with open(tmp + "/case.json", "w") as o:
            json.dump(c, o)
        r = subprocess.run([b, "-test.v", "-test.run", "TestReplay$"], env=dict(ENV, VC_CASE=tmp + "/case.json"))
        return r.returncode
    finally:
        shutil.rmtree(tmp)


def main():
    if sys.argv[1] == "--setup":
        gocon_bin()
        return 0
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vcheck_")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rpath = os.path.join(VERIF, "evidence", prop + ".replay.json")
    if os.path.exists(rpath):
        os.remove(rpath)
    try:
        res = {}

        def g():
            res["g"] = gocon(tmp, prop, tier)
        th = threading.Thread(target=g)
        th.start()
        stats, fail = companion(tmp, prop, seed, tier)
        th.join()
        probe_known(tmp, prop)
        gr = res.get("g")
        if gr is None:
            raise SystemExit("the verifier did not run")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    proved = prop in proved_props()
    bad = bool(gr["failed"]) or (proved and gr["obligations"] == 0) or fail is not None
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof" if proved else "exploration",
        "coverage": {
            "obligations": gr["obligations"], "discharged": gr["discharged"],
            "checker_cmd": "gocon -repo %s -contracts /verif/contracts -prop %s" % (REPO, prop),
            "trusted_base": gr["trusted"],
            "functions_under_contract": gr["functions"],
            "back_ends": gr["back_ends"], "solver_s": round(gr["solver_s"], 2),
            "vacuity": gr.get("vacuity", {}),
            "failed_obligations": gr["failed"][:20],
            "bounded_companion": "randomised and enumerated differential search over the public API against an independent reference decoder; labelled bounded, not counted as proved",
            "evaluations": stats["evaluations"], "distinct_nontrivial": stats["distinct_nontrivial"],
            "accepted_inputs": stats["accepted"], "destination_types": stats["types"],
            "rule": "a case counts as non-trivial if its type, input and options were not evaluated before",
            "samples": stats["samples"],
        },
        "assumptions": gr["assumptions"],
        "violations": int(bad),
        "wall_s": round(time.time() - t0, 1),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as o:
        json.dump(ev, o, indent=1, ensure_ascii=False)
    print("%s %s: %d/%d obligations discharged, %d companion cases, %.0f s" % (
        prop, tier, gr["discharged"], gr["obligations"], stats["evaluations"], time.time() - t0))
    if not bad:
        return 0
    r = {"property": prop, "failed_obligations": gr["failed"]}
    if proved and gr["obligations"] == 0:
        r["failed_obligations"] = r["failed_obligations"] or [dict(name="vacuity", detail="no obligation was generated")]
    if fail is not None:
        r.update(fail)
        r["how_to_replay"] = "python3 /verif/check.py --replay " + rpath
    with open(rpath, "w") as o:
        json.dump(r, o, indent=1, ensure_ascii=False)
    for f in gr["failed"][:8]:
        print("failed obligation: %s %s" % (f["name"], f.get("detail", "")[:300]))
    if fail is not None:
        print("failing input: " + json.dumps(fail, ensure_ascii=False)[:1500])
    print("VIOLATION property=%s replay=%s%s" % (prop, rpath, "" if fail is not None else " no-failing-input-found"))
    return 1


if __name__ == "__main__":
    sys.exit(main())
