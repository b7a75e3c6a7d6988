#!/usr/bin/env python3
"""check.py <PROPERTY> [--replay FILE]

Builds karta from /repo's working tree, drives the property's scenarios in
parallel workers with the monitors attached, aggregates, writes
evidence/<PROPERTY>.json.  Exit 0 held / 1 VIOLATION / 2 inconclusive or error.
"""
import json, os, shutil, subprocess, sys, tempfile, time, resource
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from lib import build

PY = build.PY
CASE_CPU_LIMIT = 90.0     # CPU seconds one case may use; ordinary cases take milliseconds
TICK = os.sysconf("SC_CLK_TCK")


def cpu(pid):
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / TICK
    except (OSError, IndexError):
        return None


def meta(prop):
    """SANITIZE / WORKERS / LEVEL settings, read from the monitor without importing karta."""
    d = {"SANITIZE": False, "WORKERS": 7, "RULE": "", "ENV": {}, "DEADLINE": (150, 700)}
    import ast
    src = open(os.path.join(VERIF, "monitors", prop + ".py")).read()
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id in d:
            d[node.targets[0].id] = ast.literal_eval(node.value)
    return d


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    t0 = time.time()
    m = meta(prop)
    only = None
    if replay:
        r = json.load(open(replay))
        only = "%s:%d" % (r["scenario"], r["index"])
        seed = r["seed"]
    work = tempfile.mkdtemp(prefix="karta-check-%s-" % prop)
    try:
        return run(prop, tier, seed, m, only, work, t0)
    except build.BuildError as e:
        print("BUILD ERROR", e)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(prop, tier, seed, m, only, work, t0):
    stage = os.path.join(work, "stage")
    os.mkdir(stage)
    tree = build.stage(stage, sanitize=m["SANITIZE"])
    t_build = time.time() - t0
    out = os.path.join(work, "out")
    os.mkdir(out)
    home = os.path.join(work, "home")
    os.mkdir(home)
    env = {k: os.environ[k] for k in ("PATH", "LANG", "LC_ALL", "LD_LIBRARY_PATH", "PROJ_LIB", "GDAL_DATA")
           if k in os.environ}
    env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PROJ_NETWORK="OFF", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", HOME=home, TMPDIR=work, PYTHONFAULTHANDLER="1", MALLOC_PERTURB_="85",
               BLOSC_NTHREADS="1", VERIF_TIER=tier, VERIF_SEED=str(seed), PYTHONWARNINGS="ignore")
    env.update(m["ENV"])
    if m["SANITIZE"]:
        lib = subprocess.check_output(["gcc", "-print-file-name=libasan.so"]).decode().strip()
        # libstdc++ too, or the interceptor of C++ exceptions (PROJ throws some) finds nothing to call
        cxx = subprocess.check_output(["gcc", "-print-file-name=libstdc++.so"]).decode().strip()
        env["LD_PRELOAD"] = lib + " " + os.path.realpath(cxx)
        env.pop("MALLOC_PERTURB_", None)
        env["ASAN_OPTIONS"] = ("detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=99:"
                               "allocator_may_return_null=1:max_allocation_size_mb=2048:handle_segv=1:detect_stack_use_after_return=1:"
                               "max_malloc_fill_size=4096:malloc_fill_byte=85:log_path=%s/asan" % out)
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
    nw = 1 if only else m["WORKERS"]
    deadline = m["DEADLINE"][0 if tier == "quick" else 1]

    procs = {}
    crashes = []

    def spawn(i):
        cmd = [PY, os.path.join(VERIF, "lib", "worker.py"), prop, str(i), str(nw), stage, out, tier,
               str(seed), str(deadline)] + ([only] if only else [])
        log = open(os.path.join(out, "log%d" % i), "wb")
        lim = None
        if not m["SANITIZE"]:
            lim = lambda: resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        p = subprocess.Popen(cmd, env=env, stdout=log, stderr=subprocess.STDOUT, cwd=out, preexec_fn=lim)
        procs[i] = dict(p=p, beat=None, cpu0=0.0, t=time.time())

    for i in range(nw):
        spawn(i)
    hard = time.time() + deadline + 150
    errors = []
    while procs:
        time.sleep(0.05)
        for i, s in list(procs.items()):
            p = s["p"]
            rc = p.poll()
            hbf = os.path.join(out, "hb%d" % i)
            beat = open(hbf).read().strip() if os.path.exists(hbf) else None
            if rc is None:
                c = cpu(p.pid)
                if beat != s["beat"]:
                    s["beat"], s["cpu0"] = beat, c or 0.0
                elif c is not None and beat not in (None, "import", "exit") and c - s["cpu0"] > CASE_CPU_LIMIT:
                    p.kill()
                    p.wait()
                    crashes.append((i, beat, "does not terminate: more than %g CPU seconds in one case" % CASE_CPU_LIMIT))
                    del procs[i]
                elif time.time() > hard:
                    p.kill()
                    p.wait()
                    errors.append("worker %d: wall-clock watchdog in %r" % (i, beat))
                    del procs[i]
                continue
            del procs[i]
            wf = os.path.join(out, "w%d.json" % i)
            finished = rc == 0 and os.path.exists(wf)
            if not finished:
                tail = open(os.path.join(out, "log%d" % i), errors="replace").read()
                for f in sorted(os.listdir(out)):
                    if f.startswith("asan."):
                        tail += open(os.path.join(out, f), errors="replace").read()[:6000]
                if beat in (None, "import"):
                    errors.append("worker %d could not start (rc=%s): %s" % (i, rc, tail[-1500:]))
                else:
                    crashes.append((i, beat, "process died (rc=%s): %s" % (rc, tail[-5000:])))

    agg = dict(events={}, keys=set(), checks=0, cases={}, skipped={}, cpu={}, violations=[], samples=[], done=True)
    for i in range(nw):
        wf = os.path.join(out, "w%d.json" % i)
        if not os.path.exists(wf):
            continue
        w = json.load(open(wf))
        for k in ("events", "cases", "skipped", "cpu"):
            for a, b in w[k].items():
                agg[k][a] = agg[k].get(a, 0) + b
        agg["keys"].update(w["keys"])
        agg["checks"] += w["checks"]
        agg["violations"] += w["violations"]
        if i < 2 or len(agg["samples"]) < 8:
            agg["samples"] += w["samples"]
        agg["done"] = agg["done"] and w["done"]
    for i, beat, what in crashes:
        nm, ix = (beat or "? 0").rsplit(" ", 1)
        agg["violations"].append(dict(scenario=nm, index=int(ix), seed=seed, tag="crash", message=what,
                                      details={}, case=[]))

    known = [k for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
             if k["property"] == prop and k.get("status") == "known"]
    kn = {k["key"]: k for k in known}
    new, seen = [], {}
    for v in agg["violations"]:
        if v["tag"] in kn:
            seen[v["tag"]] = seen.get(v["tag"], 0) + 1
        else:
            new.append(v)

    # ---- verdict
    short = []
    if not only and not new:
        scs = scenario_meta(prop, tier)
        for nm, need in scs.items():
            for kind, n in need.items():
                got = agg["events"].get(nm + ":" + kind, 0)
                n = max(1, n // 4)      # the figures in the monitors are what a full run comfortably exceeds
                if got < n:
                    short.append("%s:%s observed %d, need %d" % (nm, kind, got, n))
            if agg["cases"].get(nm, 0) == 0:
                short.append("%s never ran" % nm)
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(
                  evaluations=sum(agg["cases"].values()),
                  distinct_nontrivial=len(agg["keys"]),
                  rule=m["RULE"] or "distinct case keys declared by the scenarios",
                  samples=agg["samples"][:12],
                  oracle_comparisons=agg["checks"],
                  cases_per_scenario=agg["cases"], cases_outside_domain=agg["skipped"],
                  events_observed=agg["events"], complete=agg["done"],
                  known_findings_observed=seen, native_source_digest=tree,
                  sanitizer_build=bool(m["SANITIZE"]), build_s=round(t_build, 1)),
              assumptions=["held only on the executions produced by this seed and tier"],
              wall_s=round(wall, 2), violations=len(new))
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(p + ".tmp", p)
    for k in known:
        print("KNOWN-FINDING: property=%s %s (observed %d times in this run)" % (prop, k["what"], seen.get(k["key"], 0)))
    print("%s tier=%s seed=%d cases=%d distinct=%d comparisons=%d skipped=%d wall=%.1fs build=%.1fs" % (
        prop, tier, seed, ev["coverage"]["evaluations"], len(agg["keys"]), agg["checks"],
        sum(agg["skipped"].values()), wall, t_build))
    if os.environ.get("VERIF_VERBOSE"):
        for k in sorted(agg["events"]):
            print("   ", k, agg["events"][k])
        print("    skipped", agg["skipped"])
        print("    seconds", {k: round(v, 1) for k, v in agg["cpu"].items()})
    if new:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        shown = set()
        for v in new:
            k = (v["scenario"], v["tag"], v["message"][:60])
            if k in shown or len(shown) >= 6:
                continue
            shown.add(k)
            rp = os.path.join(VERIF, "replays", "%s-%s-%d-%d.json" % (prop, v["scenario"], seed, v["index"]))
            json.dump(v, open(rp, "w"), indent=1)
            print("  %s[%d] %s: %s %s" % (v["scenario"], v["index"], v["tag"], v["message"][:1500],
                                         json.dumps(v["details"])[:900]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        print("%d violations" % len(new))
        return 1
    for e in errors:
        print("ERROR", e)
    if errors:
        return 2
    if short:
        for s in short:
            print("INCONCLUSIVE", s)
        return 2
    return 0


def scenario_meta(prop, tier):
    """needs of each scenario, from the source (decorator literals)"""
    import ast
    src = open(os.path.join(VERIF, "monitors", prop + ".py")).read()
    out = {}
    for node in ast.parse(src).body:
        if isinstance(node, ast.FunctionDef):
            for d in node.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "scenario":
                    need = {}
                    for kw in d.keywords:
                        if kw.arg == "need":
                            need = ast.literal_eval(kw.value)
                    out[node.name] = need
    return out


if __name__ == "__main__":
    sys.exit(main())
