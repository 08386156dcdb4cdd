"""Shared driver: runs a check's jobs in worker processes, collects what the monitors
observed, writes evidence, decides the exit status.

exit 0  held on everything observed (and enough was observed)
exit 1  VIOLATION property=<id> replay=<path>
exit 2  inconclusive / error of the check itself
"""
import argparse
import collections
import contextlib
import importlib
import io
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

from . import env

KF = os.path.join(env.VERIF, "known_findings.txt")


class CpuLimit(BaseException):
    pass


class Violation(Exception):
    def __init__(self, mech, msg):
        super().__init__(msg)
        self.mech = mech


class Inconclusive(Exception):
    pass


class Ctx:
    """Handed to a job; everything the monitors saw goes through here."""

    def __init__(self, job):
        self.job = job
        self.n = collections.Counter()
        self.keys = set()
        self.samples = []
        self.viol = []
        self.extreme = {}

    def event(self, name, k=1):
        self.n[name] += k

    def distinct(self, *key):
        self.keys.add(tuple(str(x) for x in key))

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(kw)

    def worst(self, name, x):
        x = float(x)
        if x == x:
            self.extreme[name] = max(self.extreme.get(name, 0.0), x)

    def violation(self, mech, msg):
        self.viol.append({"mech": str(mech), "msg": str(msg)[:1500]})

    def require(self, cond, mech, msg=""):
        self.n["oracle_decisions"] += 1
        if not cond:
            self.violation(mech, msg() if callable(msg) else msg)
        return bool(cond)

    def close(self, mech, got, want, tol, msg=""):
        """|got-want| <= tol elementwise, NaN never passes."""
        import numpy as np
        self.n["oracle_decisions"] += 1
        try:
            d = np.abs(np.asarray(got) - np.asarray(want))
            if np.shape(got) != np.shape(want):
                self.violation(mech, "shape %s != %s %s" % (np.shape(got), np.shape(want), msg))
                return False
            e = float(d.max()) if d.size else 0.0
        except Exception as ex:
            self.violation(mech, "cannot compare (%s) %r with %r %s" % (ex, got, want, msg))
            return False
        if e <= tol:
            self.worst(mech, e)
            return True
        if callable(msg):
            msg = msg()
        self.violation(mech, "deviation %.3g > %.1g: got %s expected %s. %s" % (
            e, tol, _short(got), _short(want), msg))
        return False


def _short(x):
    s = str(x).replace("\n", " ")
    return s if len(s) < 300 else s[:300] + "..."


def rng_for(job, seed):
    import numpy as np
    return np.random.default_rng([seed & 0xFFFFFFFF, zlib.crc32(json.dumps(job, sort_keys=True).encode())])


@contextlib.contextmanager
def quiet():
    """Capture what the code under test prints."""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()):
        yield buf


def _in_repo(tb):
    r = os.path.realpath(env.REPO) + os.sep
    for fr in traceback.extract_tb(tb):
        if os.path.realpath(fr.filename).startswith(r):
            return True
    return False


def _worker(args):
    modname, job, seed, cpu = args
    warnings.filterwarnings("ignore")
    cov = os.environ.get("VERIF_COV")
    if cov:
        from . import cov as covmod
        covmod.start()
    mod = importlib.import_module(modname)
    ctx = Ctx(job)
    d = tempfile.mkdtemp(prefix="verif-")
    old = os.getcwd()
    os.chdir(d)
    t0 = time.time()
    err = None

    def onalarm(*a):
        raise CpuLimit()
    signal.signal(signal.SIGPROF, onalarm)
    signal.setitimer(signal.ITIMER_PROF, cpu)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            mod.run(job, ctx, rng_for(job, seed))
    except Violation as e:
        ctx.violation(e.mech, str(e))
    except Inconclusive as e:
        ctx.n["inconclusive"] += 1
        ctx.samples.append({"inconclusive": str(e)[:300], "job": job})
    except CpuLimit:
        ctx.violation("no-termination", "job used more than %g s of CPU (normally a small fraction of that)" % cpu)
    except MemoryError as e:
        err = "MemoryError"
    except (Exception, SystemExit) as e:
        tb = sys.exc_info()[2]
        where = "code under test" if _in_repo(tb) else "interpreting its result"
        last = traceback.extract_tb(tb)[-1]
        ctx.violation("exception:%s" % type(e).__name__, "unexpected %s while in %s: %s\n%s" % (
            type(e).__name__, where, e, "".join(traceback.format_exception(type(e), e, tb)[-3:])))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
        if cov:
            covmod.dump(mod.PROP)
    return dict(job=job, n=dict(ctx.n), keys=list(ctx.keys), samples=ctx.samples, viol=ctx.viol,
                extreme=ctx.extreme, err=err, wall=time.time() - t0)


def read_known(prop):
    out = {}
    if os.path.exists(KF):
        for l in open(KF):
            l = l.strip()
            if l.startswith("known:"):
                tok = dict(t.split("=", 1) for t in l[6:].split() if "=" in t and t.split("=")[0] in ("property", "key"))
                if tok.get("property") == prop:
                    out[tok["key"]] = l.split("--", 1)[1].strip() if "--" in l else l
    return out


def main(modname, argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("-j", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--first", action="store_true", help="stop at the first violation")
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    mod = importlib.import_module(modname)
    prop = mod.PROP
    t0 = time.time()
    budget = 500 if tier == "quick" else 5400
    cpu = float(os.environ.get("VERIF_CPU", 0)) or getattr(mod, "CPU", 150 if tier == "quick" else 400)
    if a.replay:
        rp = json.load(open(a.replay))
        jobs, a.seed = [rp["job"]], rp["seed"]
    else:
        jobs = list(mod.jobs(tier, a.seed))
    frac = float(os.environ.get("VERIF_FRACTION", 1))
    if frac < 1:
        import random
        jobs = random.Random(a.seed).sample(jobs, max(1, int(len(jobs) * frac)))
    known = read_known(prop)
    tot = collections.Counter()
    keys, samples, viols, errs, ext = set(), [], [], [], {}
    done = 0
    slow = []
    if hasattr(mod, "prepare"):
        mod.prepare()
    with mp.get_context("fork").Pool(min(a.j, max(1, len(jobs))), maxtasksperchild=40) as pool:
        it = pool.imap_unordered(_worker, [(modname, j, a.seed, cpu) for j in jobs], chunksize=1)
        while done < len(jobs):
            left = budget - (time.time() - t0)
            try:
                r = it.next(timeout=max(1.0, left))
            except mp.TimeoutError:
                print("NOTE: time budget reached after %d of %d jobs" % (done, len(jobs)))
                break
            done += 1
            tot.update(r["n"])
            keys.update(map(tuple, r["keys"]))
            slow.append((r["wall"], r["job"]))
            for k, v in r["extreme"].items():
                ext[k] = max(v, ext.get(k, 0.0))
            if len(samples) < 6 or any("inconclusive" in s for s in r["samples"]):
                samples += r["samples"][:2]
            if r["err"]:
                errs.append((r["job"], r["err"]))
            for v in r["viol"]:
                viols.append((r["job"], v))
            if a.first and any(v["mech"] not in known for _, v in viols):
                break
        pool.terminate()
    samples = samples[:12]
    if hasattr(mod, "finish"):
        # whole-run obligations over what was observed
        for v in mod.finish(tot, keys, tier) or []:
            viols.append(({"finish": True}, v))
    new, seen_known = [], collections.Counter()
    for job, v in viols:
        if v["mech"] in known:
            seen_known[v["mech"]] += 1
        else:
            new.append((job, v))
    minimum = getattr(mod, "MINIMUM", {}) if not a.replay and frac >= 1 else {}
    short = ["%s: %d < %d" % (k, tot[k], m) for k, m in minimum.items() if tot[k] < m]
    wall = time.time() - t0
    for k in sorted(known if not a.replay else seen_known):
        print("KNOWN-FINDING: property=%s %s (key=%s, observed %d times)" % (prop, known[k], k, seen_known[k]))
    if not a.replay:
        os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
        ev = dict(property=prop, tier=tier, seed=a.seed, level="exploration",
                  coverage=dict(evaluations=int(tot["oracle_decisions"]), distinct_nontrivial=len(keys), rule=mod.RULE,
                                samples=samples, jobs_run=done, jobs_planned=len(jobs),
                                observed={k: int(v) for k, v in sorted(tot.items())},
                                largest_accepted_deviation={k: float("%.3g" % v) for k, v in sorted(ext.items())},
                                known_findings_observed=dict(seen_known)),
                  assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=len(new))
        with open(os.path.join(env.VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print("%s tier=%s seed=%d jobs=%d/%d decisions=%d distinct=%d wall=%.1fs" % (
        prop, tier, a.seed, done, len(jobs), tot["oracle_decisions"], len(keys), wall))
    if a.v:
        print(dict(tot))
        print({k: "%.2g" % v for k, v in ext.items()})
        for w, j in sorted(slow, key=lambda x: -x[0])[:5]:
            print("slow %.1f %s" % (w, j))
    if new:
        seen = collections.Counter()
        rd = os.path.join(env.VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        for job, v in new:
            seen[v["mech"]] += 1
            if seen[v["mech"]] > 1 or len(seen) > 12:
                continue
            path = os.path.join(rd, "%s-%d.json" % (prop, len(seen)))
            with open(path, "w") as f:
                json.dump(dict(property=prop, seed=a.seed, job=job, mech=v["mech"], msg=v["msg"],
                               how="./check %s --replay %s" % (prop, path)), f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("   [%s] %s" % (v["mech"], v["msg"][:1500].replace("\n", "\n   ")))
            print("   job: %s" % json.dumps(job, default=str))
        print("%d violations, by mechanism: %s" % (len(new), dict(seen)))
        return 1
    if errs:
        print("ERROR: %d jobs failed in the harness: %s" % (len(errs), errs[:3]))
        return 2
    if short:
        print("INCONCLUSIVE: the monitors did not see enough: " + "; ".join(short))
        return 2
    return 0
