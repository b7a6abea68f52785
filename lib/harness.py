#!/usr/bin/env python
"""Check runner.

``harness.py C01 quick`` runs every *phase* of checks/c01.py against /repo's
current working tree, merges what the monitors observed, writes
/verif/evidence/C01.json, and exits 0 (held on everything observed),
1 (VIOLATION line printed), or 2 (inconclusive / the check itself failed).

A phase is one process configuration (a numba mode) plus a list of cases.
Phase processes run concurrently; each one imports the code from /repo, warms
the JIT up once if it uses it, and forks workers that execute the cases.
"""
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
sys.path.insert(0, HERE)

MODES = {
    # plain interpretation of every kernel (fields can be instrumented)
    "nojit": {"NUMBA_DISABLE_JIT": "1"},
    # compiled, cheap optimisation level (same semantics, faster start)
    "jit": {"NUMBA_OPT": "0"},
    # compiled as a user runs it
    "jit3": {},
    # compiled with array bounds checks in every kernel
    "bounds": {"NUMBA_OPT": "0", "NUMBA_BOUNDSCHECK": "1"},
    # no model kernels needed
    "plain": {"NUMBA_DISABLE_JIT": "1"},
}


def jdefault(o):
    try:
        import numpy as np

        if isinstance(o, np.generic):
            return o.item()
        if isinstance(o, np.ndarray):
            return o.tolist()
    except ImportError:
        pass
    if isinstance(o, (set, tuple)):
        return list(o)
    return repr(o)


class Result(object):
    """What the monitors of one case observed."""

    def __init__(self):
        self.counts = {}
        self.sigs = set()
        self.violations = []
        self.samples = []

    def n(self, key, k=1):
        self.counts[key] = self.counts.get(key, 0) + int(k)

    def sig(self, *parts):
        """Register a distinct, non-trivial observation."""
        self.sigs.add(hashlib.md5(repr(parts).encode()).hexdigest()[:16])

    def fail(self, msg, **detail):
        if sum(v["msg"] == msg for v in self.violations) < 3 and \
                len(self.violations) < 60:
            self.violations.append({"msg": msg, "detail": detail})

    def expect(self, cond, msg, **detail):
        self.n("checks")
        if not cond:
            self.fail(msg, **detail)
        return bool(cond)

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def dump(self):
        return {
            "counts": self.counts,
            "sigs": sorted(self.sigs),
            "violations": self.violations,
            "samples": self.samples,
        }


def _repo_frame(tb):
    """Deepest frame under /repo/pyDeltaRCM in a traceback, or None."""
    hit = None
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(os.path.join(REPO, "pyDeltaRCM")):
            hit = "%s:%s:%s" % (os.path.basename(fr.filename), fr.lineno, fr.name)
        elif fr.filename.startswith((os.path.join(VERIF, "checks"), HERE)):
            hit = None      # raised by the monitor itself, called back from a hook
    return hit


def run_one(mod, phase, case):
    import util

    res = Result()
    err = None
    sc = util.new_case_dir()
    try:
        getattr(mod, "run_" + phase)(case, res)
    except util.Unobservable as e:
        res.counts["unobserved: %s" % e] = res.counts.get("unobserved: %s" % e, 0) + 1
    except util.Inconclusive as e:
        err = "inconclusive: %s" % e
    except Exception as e:  # noqa
        chain, seen = e, None
        while chain is not None and seen is None:
            seen = _repo_frame(chain.__traceback__)
            chain = chain.__cause__ or chain.__context__
        if seen is not None:
            res.fail(
                "unexpected exception from the code under test: %s: %s (at %s)"
                % (type(e).__name__, str(e)[:300], seen),
                trace=traceback.format_exc()[-3000:],
            )
        else:
            err = traceback.format_exc()[-4000:]
    finally:
        util.end_case_dir(sc)
    out = res.dump()
    out["error"] = err
    return out


def worker(mod, phase, cases, counter, path, deadline, mincases, tmo, need, got, failfast):
    f = open(path, "w")
    keys = sorted(need)
    while True:
        with counter.get_lock():
            idx = counter.value
            counter.value += 1
        if idx >= len(cases):
            break
        # on a slow machine go on past the budget until every monitor was reached
        if time.time() > deadline and idx >= mincases and (
                all(got[i] >= need[k] for i, k in enumerate(keys))
                or time.time() > deadline + 300):
            break
        f.write(json.dumps({"start": idx, "t": time.time()}) + "\n")
        f.flush()
        signal.alarm(int(tmo))
        out = run_one(mod, phase, cases[idx])
        signal.alarm(0)
        out["idx"] = idx
        f.write(json.dumps(out, default=jdefault) + "\n")
        f.flush()
        with got.get_lock():
            for i, k in enumerate(keys):
                got[i] += out["counts"].get(k, 0)
        if failfast is not None and any(
                not any(k in v["msg"] for k in failfast) for v in out["violations"]):
            with counter.get_lock():
                counter.value = len(cases)
    f.close()


def phase_main(prop, tier, phase, scratch, seed, replay=None):
    """Runs in its own process: execute all the cases of one phase."""
    import multiprocessing as mp
    import warnings

    warnings.simplefilter("ignore")
    sys.path.insert(0, REPO)
    mod = importlib.import_module("checks." + prop.lower())
    spec = [p for p in mod.PHASES if p["name"] == phase][0]
    import util

    util.setup(scratch, REPO)
    import pyDeltaRCM

    assert os.path.realpath(pyDeltaRCM.__file__).startswith(
        os.path.realpath(REPO)
    ), pyDeltaRCM.__file__
    if replay is not None:
        cases = [json.load(open(replay))["case"]]
    else:
        cases = getattr(mod, "cases_" + phase)(tier, seed)
    warm_err = None
    try:
        if spec["mode"] not in ("nojit", "plain"):
            util.warmup()
        if hasattr(mod, "prepare_" + phase):
            getattr(mod, "prepare_" + phase)(tier, seed)
    except Exception as e:  # the code under test cannot complete one update
        seen = _repo_frame(e.__traceback__)
        warm_err = {"frame": seen, "trace": traceback.format_exc()[-3000:]}
    results = []
    nworkers = min(spec.get("workers", 8), max(1, len(cases)))
    budget = spec.get("budget", {}).get(tier, 600)
    tmo = spec.get("timeout", {}).get(tier, 300)
    mincases = spec.get("min", {}).get(tier, 1)
    if warm_err is None:
        counter = mp.get_context("fork").Value("i", 0)
        need = {} if replay else spec.get("require", {})
        got = mp.get_context("fork").Array("q", max(1, len(need)))
        failfast = None
        if os.environ.get("VERIF_FAILFAST"):
            failfast = [k["match"] for k in load_known()["findings"] if k["property"] == prop]
        deadline = time.time() + budget
        pids = {}
        for w in range(nworkers):
            path = os.path.join(scratch, "%s_w%d.jsonl" % (phase, w))
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    # plain SIGALRM default action kills a stuck worker
                    signal.signal(signal.SIGALRM, signal.SIG_DFL)
                    worker(
                        mod, phase, cases, counter, path, deadline, mincases, tmo,
                        need, got, failfast
                    )
                except BaseException:
                    traceback.print_exc()
                    code = 70
                finally:
                    sys.stdout.flush()
                    os._exit(code)
            pids[pid] = path
        for pid in list(pids):
            while True:
                try:
                    _, st, ru = os.wait4(pid, 0)
                    break
                except InterruptedError:
                    continue
            path = pids[pid]
            started, done = {}, set()
            if os.path.exists(path):
                for line in open(path):
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    if "start" in d:
                        started[d["start"]] = d["t"]
                    else:
                        done.add(d["idx"])
                        results.append(d)
            lost = [i for i in started if i not in done]
            if os.WIFSIGNALED(st) or (os.WIFEXITED(st) and os.WEXITSTATUS(st)):
                sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else None
                for i in lost or [-1]:
                    r = Result()
                    err = None
                    if sig in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL,
                               signal.SIGFPE, signal.SIGABRT):
                        r.fail("process died with signal %d in this case" % sig)
                    elif sig == signal.SIGALRM and ru.ru_utime > 0.5 * tmo:
                        r.fail("no progress: case still computing after %d s" % tmo)
                    else:
                        err = "worker ended abnormally (status %r) on case %d" % (st, i)
                    out = r.dump()
                    out["error"] = err
                    out["idx"] = i
                    results.append(out)
    json.dump(
        {"warm_err": warm_err, "ncases": len(cases), "results": results,
         "cases": cases},
        open(os.path.join(scratch, "phase_%s.json" % phase), "w"),
        default=jdefault,
    )


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        return json.load(open(p))
    return {"findings": [], "fixed": []}


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    if tier not in ("quick", "thorough"):
        tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    args = sys.argv[3:]
    if args and args[0] == "--phase":
        replay = args[4] if len(args) > 4 else None
        phase_main(prop, tier, args[1], args[2], int(args[3]), replay)
        return 0
    t0 = time.time()
    mod = importlib.import_module("checks." + prop.lower())
    replay = args[1] if args and args[0] == "--replay" else None
    only = json.load(open(replay))["phase"] if replay else None
    scratch = tempfile.mkdtemp(prefix="vchk_%s_" % prop)
    evdir = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    rc = 2
    try:
        procs = {}
        for ph in mod.PHASES:
            if only and ph["name"] != only:
                continue
            if tier not in ph.get("tiers", ("quick", "thorough")):
                continue
            env = dict(os.environ)
            env.update(MODES[ph["mode"]])
            sd = os.path.join(scratch, ph["name"])
            os.makedirs(sd)
            env["VERIF_TIER"] = tier
            env["HOME"] = sd
            cmd = [sys.executable, "-W", "ignore", os.path.abspath(__file__), prop,
                   tier, "--phase", ph["name"], sd, str(seed)]
            if replay:
                cmd.append(replay)
            log = open(os.path.join(sd, "log.txt"), "w")
            procs[ph["name"]] = (
                subprocess.Popen(cmd, env=env, cwd=sd, stdout=log,
                                 stderr=subprocess.STDOUT, start_new_session=True),
                sd, ph)
        counts, sigs, viols, samples, errors = {}, set(), [], [], []
        ncases = 0
        wall = {"quick": 780, "thorough": 6 * 3600}[tier]
        for name, (p, sd, ph) in procs.items():
            try:
                p.wait(timeout=max(5, wall - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                errors.append("phase %s: watchdog" % name)
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            p.wait()
            out = os.path.join(sd, "phase_%s.json" % name)
            if not os.path.exists(out):
                errors.append("phase %s produced nothing (rc %s):\n%s" % (
                    name, p.returncode,
                    open(os.path.join(sd, "log.txt")).read()[-3000:]))
                continue
            d = json.load(open(out))
            if d["warm_err"]:
                if d["warm_err"]["frame"]:
                    viols.append({"phase": name, "case": None,
                                  "msg": "the code under test failed in the warm-up "
                                  "update", "detail": d["warm_err"]})
                else:
                    errors.append(d["warm_err"]["trace"])
            pc = {}
            for r in d["results"]:
                ncases += 1
                for k, v in r["counts"].items():
                    pc[k] = pc.get(k, 0) + v
                sigs.update(r["sigs"])
                if len([s for s in samples if s.get("phase") == name]) < 2:
                    samples.extend({"phase": name, "case": d["cases"][r["idx"]]
                                    if r["idx"] >= 0 else None, "observed": s}
                                   for s in r["samples"][:1])
                if r["error"]:
                    errors.append("phase %s case %s: %s" % (name, r["idx"], r["error"]))
                for v in r["violations"]:
                    viols.append({"phase": name, "case": d["cases"][r["idx"]]
                                  if r["idx"] >= 0 else None, **v})
            # monitors that must have been reached in this phase
            gone = [k for k in pc if k.startswith("unobserved: ")]
            for k in gone:
                print("NOTE property=%s phase=%s %s (%d cases)" % (prop, name, k, pc[k]))
            if not replay and not gone:
                for key, need in ph.get("require", {}).items():
                    if pc.get(key, 0) < need and not viols:
                        errors.append("phase %s: monitor '%s' reached only %d times "
                                      "(needs %d): inconclusive" % (
                                          name, key, pc.get(key, 0), need))
            for k, v in pc.items():
                counts[k] = counts.get(k, 0) + v
        known = load_known()
        kf = [k for k in known.get("findings", []) if k["property"] == prop]
        new, hit = [], []
        for v in viols:
            m = [k for k in kf if k["match"] in v["msg"]]
            (hit if m else new).append((v, m))
        for k in kf:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        rdir = os.path.join(evdir, "replay")
        if new:
            os.makedirs(rdir, exist_ok=True)
            seen = set()
            for i, (v, _) in enumerate(new):
                key = v["msg"][:60]
                if key in seen or len(seen) > 5:
                    continue
                seen.add(key)
                path = os.path.join(rdir, "%s-%d.json" % (prop, i))
                json.dump({"property": prop, "seed": seed, "tier": tier, **v},
                          open(path, "w"), default=jdefault, indent=1)
                print("VIOLATION property=%s replay=%s" % (prop, path))
                print("   ", v["msg"])
                print("   ", json.dumps(v["detail"], default=jdefault)[:1500])
        if not replay:
            ev = {
                "property": prop, "tier": tier, "seed": seed,
                "level": getattr(mod, "LEVEL", "exploration"),
                "coverage": {
                    "evaluations": ncases,
                    "distinct_nontrivial": len(sigs),
                    "rule": mod.RULE,
                    "samples": samples[:6],
                    "monitor_events": counts,
                },
                "wall_s": round(time.time() - t0, 2),
                "violations": len(new),
                "assumptions": getattr(mod, "ASSUMPTIONS", []),
            }
            json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"),
                      default=jdefault, indent=1)
        if new:
            rc = 1
        elif errors:
            print("INCONCLUSIVE property=%s" % prop)
            for e in errors[:5]:
                print(e)
            rc = 2
        else:
            print("held property=%s cases=%d distinct=%d events=%s wall=%.1fs" % (
                prop, ncases, len(sigs), json.dumps(counts), time.time() - t0))
            rc = 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.exit(main())
