"""Runs one worker's share of a property's scenarios (under PyPy)."""
import sys, os, json, time, importlib, random
prop, widx, nw, stage, out, tier, seed, deadline = sys.argv[1:9]
widx, nw, seed, deadline = int(widx), int(nw), int(seed), float(deadline)
only = sys.argv[9] if len(sys.argv) > 9 else None        # scenario:index
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(here))
sys.path.insert(0, stage)
import warnings
warnings.simplefilter("ignore")
import numpy as np
np.seterr(all="ignore")
import karta
import karta.raster.misc, karta.raster.read, karta.vector.read, karta.geodesy, karta.tile  # noqa
assert os.path.realpath(karta.__file__).startswith(os.path.realpath(stage)), karta.__file__
from lib import mon
importlib.import_module("monitors." + prop)
tmp = os.path.join(out, "tmp%d" % widx)
os.makedirs(tmp, exist_ok=True)
os.chdir(tmp)
rec = mon.Recorder(tmp)
hb = os.open(os.path.join(out, "hb%d" % widx), os.O_CREAT | os.O_RDWR)
os.write(hb, b"import".ljust(120))


def beat(name, i):
    os.pwrite(hb, ("%s %d" % (name, i)).encode().ljust(120), 0)


def dump(done):
    with open(os.path.join(out, "w%d.json.tmp" % widx), "w") as f:
        json.dump(dict(done=done, events=rec.events, keys=sorted(rec.keys), checks=rec.checks,
                       cases=rec.cases, cpu=rec.cpu, skipped=rec.skipped, violations=rec.violations,
                       samples=rec.samples), f)
    os.rename(os.path.join(out, "w%d.json.tmp" % widx), os.path.join(out, "w%d.json" % widx))


if only:
    nm, i = only.rsplit(":", 1)
    for sc in mon.SCENARIOS:
        if sc.name == nm:
            beat(nm, int(i))
            mon.run_case(sc, seed, int(i), rec)
    dump(True)
    sys.exit(0)

t0 = time.time()
last = t0
plan = []
for sc in mon.SCENARIOS:
    n = sc.quick if tier == "quick" else sc.thorough
    idx = list(range(widx, n, nw))
    for k, i in enumerate(idx):
        plan.append(((k + 0.5) / len(idx), sc, i))
plan.sort(key=lambda t: (t[0], t[1].name))
nviol = {}
done = True
for _, sc, i in plan:
    if time.time() - t0 > deadline:
        done = False
        break
    if nviol.get(sc.name, 0) >= 8:
        continue
    beat(sc.name, i)
    before = len(rec.violations)
    mon.run_case(sc, seed, i, rec)
    if len(rec.violations) > before:
        # listed findings do not use up the allowance
        if not rec.violations[-1]["tag"].startswith("KF-"):
            nviol[sc.name] = nviol.get(sc.name, 0) + 1
        elif sum(1 for v in rec.violations if v["tag"] == rec.violations[-1]["tag"]) > 5:
            rec.violations.pop()
    if time.time() - last > 2:
        dump(False)
        last = time.time()
os.pwrite(hb, b"exit".ljust(120), 0)
dump(done)
os._exit(0)
