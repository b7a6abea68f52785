"""Jobs: duration, isolation, failures, schedules."""
import builtins
import contextlib
import glob
import io
import json
import math
import os
import signal
import sys
import time
import warnings

import numpy as np
import util

RULE = (
    "random durations (steps, seconds, years, intermittency) from file, keywords and command "
    "line, jobs run serially and in parallel with random worker counts, injected delays and "
    "failures; every model writes an event log (start, updates, end) that is checked for "
    "exactly-once execution, the number of steps and the number of jobs at once, and every "
    "job's output is compared with a standalone run; distinct and non-trivial: (kind of "
    "duration, source, serial/parallel, steps) and (jobs, workers, failing jobs, order of "
    "completion)"
)
PHASES = [
    {"name": "dur", "mode": "nojit", "workers": 3,
     "budget": {"quick": 22, "thorough": 1200}, "min": {"quick": 40},
     "require": {"durations": 60, "steps": 500, "kind_timesteps": 10, "kind_time": 10,
                 "kind_time_years": 10, "cli": 6, "parallel": 3, "continued": 5}},
    {"name": "dry", "mode": "nojit", "workers": 1,
     "budget": {"quick": 15, "thorough": 200}, "min": {"quick": 20},
     "require": {"dry_runs": 12, "no_duration": 4}},
    {"name": "sched", "mode": "nojit", "workers": 3,
     "budget": {"quick": 22, "thorough": 1200}, "min": {"quick": 8},
     "timeout": {"quick": 150, "thorough": 300},
     "require": {"jobs_run": 50, "overlap_possible": 5, "failed_jobs": 8, "other_errors": 1, "parallel_runs": 6, "serial_runs": 2}},
    {"name": "iso", "mode": "jit", "workers": 3,
     "budget": {"quick": 24, "thorough": 1500}, "min": {"quick": 6},
     "timeout": {"quick": 200, "thorough": 400},
     "require": {"compared": 18, "resumed_jobs": 2}},
]
BASE = {"Length": 600.0, "Width": 900.0, "dx": 50.0, "Np_water": 5, "Np_sed": 6,
        "N0_meters": 150.0, "itermax": 1}


def event(path, **e):
    fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, (json.dumps(e) + "\n").encode())
    os.close(fd)


def logged_model(log, physics=True, delay=None, fail=None):
    """A model class that records what happens to it."""
    from pyDeltaRCM import DeltaModel

    class Logged(DeltaModel):
        def _ev(self, what, **k):
            event(log, what=what, job=os.path.basename(os.path.abspath(self.out_dir)),
                  pid=os.getpid(), t=time.monotonic(), step=int(self.time_iter), **k)

        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            self._ev("init", dt=float(self.dt), time=float(self.time),
                     seed=int(self.seed))

        def hook_init_output_file(self):
            # executed at the start of a job that is not resumed
            super().hook_init_output_file()
            self._ev("begin")

        def solve_water_and_sediment_timestep(self):
            job = os.path.basename(os.path.abspath(self.out_dir))
            if delay:
                d = delay.get(job, {}).get(int(self.time_iter), 0)
                if d:
                    time.sleep(d)
            if fail and job in fail and fail[job][1] == int(self.time_iter) and \
                    fail[job][2] == "update":
                kind, _, _, size = fail[job]
                raise getattr(builtins, kind)(
                    "injected-failure-" + job + " " + "x" * size)
            if physics:
                super().solve_water_and_sediment_timestep()

        def update(self):
            super().update()
            self._ev("update", time=float(self.time))

        def finalize(self):
            job = os.path.basename(os.path.abspath(self.out_dir))
            self._ev("end", time=float(self.time))
            if fail and job in fail and fail[job][2] == "finalize":
                raise RuntimeError("injected-failure-" + job)
            super().finalize()

    return Logged


class Stuck(Exception):
    pass


@contextlib.contextmanager
def bounded(res, seconds=100):
    """Jobs that do not end are a violation (they take a second or two)."""
    import multiprocessing

    def stop(*a):
        raise Stuck()

    left = signal.alarm(0)
    signal.signal(signal.SIGALRM, stop)
    signal.alarm(seconds)
    t = time.time()
    try:
        yield
        stuck = False
    except Stuck:
        stuck = True
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(max(1, int(left - (time.time() - t))))
    if stuck:
        for p in multiprocessing.active_children():
            p.kill()
        res.fail("the jobs do not end: still waiting after %d s" % seconds)
        raise util.Inconclusive("stuck")


def events(log):
    if not os.path.exists(log):
        return []
    return [json.loads(x) for x in open(log)]


@contextlib.contextmanager
def quiet():
    """Capture stdout of this process and of its children."""
    path = os.path.join(util.casedir(), "stdout%d" % np.random.randint(10**9))
    sys.stdout.flush()
    old = os.dup(1)
    fd = os.open(path, os.O_RDWR | os.O_CREAT)
    os.dup2(fd, 1)
    box = io.StringIO()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield box
    finally:
        sys.stdout.flush()
        os.dup2(old, 1)
        os.close(old)
        os.close(fd)
        box.write(open(path, errors="replace").read())


def write(path, cfg):
    with open(path, "w") as f:
        for k, v in cfg.items():
            f.write("%s: %s\n" % (k, json.dumps(v)))


# --------------------------------------------------------------------------
# duration
# --------------------------------------------------------------------------
def cases_dur(tier, seed):
    rng = util.subrng(seed, "C17d", tier)
    out = []
    for i in range(90 if tier == "quick" else 6000):
        out.append({"rs": int(rng.randint(2**31 - 1)),
                    "kind": ["timesteps", "time", "time_years"][i % 3],
                    "src": util.pick(rng, "file", "kw", "cli", "override"),
                    "par": bool(rng.rand() < 0.12)})
    return out


def steps_for(T, dt, t0=0.0):
    """Steps until time T is reached, with the float accumulation of the clock."""
    n, t = 0, t0
    while t < T:
        t += dt
        n += 1
    return n, t


def run_dur(case, res):
    from pyDeltaRCM import preprocessor

    rng = np.random.RandomState(case["rs"])
    log = os.path.join(util.casedir(), "events")
    cls = logged_model(log, physics=False)
    cfg = dict(BASE, out_dir=util.outdir(), save_checkpoint=bool(rng.rand() < 0.5),
               N0_meters=float(util.pick(rng, 150.0, 200.0, 210.0)),
               C0_percent=float(util.pick(rng, 0.1, 0.3, 0.07)),
               u0=float(util.pick(rng, 1.0, 1.1, 0.7)), seed=3)
    W = 18
    N0 = max(3, min(int(round(cfg["N0_meters"] / 50.0)), W // 4))
    dt = 0.1 * N0 ** 2 * 5.0 * 2500 / (cfg["u0"] * 5.0 * N0 * 50 * cfg["C0_percent"] / 100)
    n = int(util.pick(rng, 0, 1, 2, 3, 7, 25, 60))
    If = float(util.pick(rng, 1.0, 1.0, 0.5, 0.1, 10 / 365.25, 0.004))
    use_if = rng.rand() < 0.6 or If != 1.0
    kind = case["kind"]
    frac = float(util.pick(rng, 0.0, 0.001, 0.5, 0.999))
    if kind == "timesteps":
        val, want = n, n
    else:
        T = (n - frac) * dt if n else float(util.pick(rng, 0.0, 0.0))
        val = T / If / (1 if kind == "time" else 86400 * 365.25)
        want = None
    dur = {kind: val}
    if use_if:
        dur["If"] = If
    if rng.rand() < 0.4:
        # a lower-ranking kind of duration given as well does not matter
        rank = ["timesteps", "time", "time_years"]
        low = rank[rank.index(kind) + 1:]
        if low:
            dur[low[rng.randint(len(low))]] = float(util.pick(rng, 1e-3, 5.0))
    src = case["src"]
    par = case["par"]
    path = os.path.join(util.casedir(), "in.yml")
    other = {kind: val + (3 if kind == "timesteps" else 5 * val + 1.0)}
    argv = None
    if src == "file":
        write(path, dict(cfg, **dur))
        kw = {}
    elif src == "kw":
        write(path, cfg)
        kw = dict(dur)
    elif src == "override":
        if kind == "timesteps" and rng.rand() < 0.5:
            # what is asked for by keyword ranks before any other kind of duration
            other = {util.pick(rng, "time", "time_years"): float(util.pick(rng, 1e-3, 1e9))}
        write(path, dict(cfg, **other))
        kw = dict(dur)
    else:
        write(path, dict(cfg, **(other if rng.rand() < 0.5 else {})))
        argv = ["pyDeltaRCM", "--config", path]
        for k, v in dur.items():
            argv += ["--" + k, repr(v)]
    if par:
        if argv is not None:
            argv += ["--parallel", "2"]
        else:
            kw["parallel"] = True
    with bounded(res), quiet():
        if argv is not None:
            res.n("cli")
            old, sys.argv = sys.argv, argv
            try:
                pp = preprocessor.PreprocessorCLI()
            finally:
                sys.argv = old
        else:
            pp = preprocessor.Preprocessor(path, **kw)
        pp.run_jobs(DeltaModel=cls)
    if par:
        res.n("parallel")
    ev = events(log)
    up = [e for e in ev if e["what"] == "update"]
    init = [e for e in ev if e["what"] == "init"]
    end = [e for e in ev if e["what"] == "end"]
    res.n("durations")
    res.n("kind_" + kind)
    res.n("steps", len(up))
    res.sig(kind, src, par, len(up), use_if)
    if not res.expect(len(init) == 1 and len(end) == 1, "a job is not run exactly once",
                      inits=len(init), ends=len(end)):
        return
    res.expect(abs(init[0]["dt"] - dt) <= 1e-9 * dt, "time step of the job is not the "
               "configured one", got=init[0]["dt"], want=dt)
    res.expect(all(e["t"] <= end[0]["t"] for e in up), "a job is updated after its end")
    judge(kind, want, val, If, init[0]["dt"], 0.0, up, end[0], case, res, "")
    res.expect(pp._is_completed is True if hasattr(pp, "_is_completed") else True,
               "the preprocessor does not know that its jobs are done")
    res.sample({"kind": kind, "value": val, "If": If, "dt": dt, "steps": len(up)})
    # a resumed job runs for the duration on top
    if cfg["save_checkpoint"] and up and rng.rand() < 0.8:
        cfg2 = dict(cfg, resume_checkpoint=True)
        tc = float(np.load(os.path.join(cfg["out_dir"], "checkpoint.npz"))["time"])
        os.remove(log)
        write(path, dict(cfg2, **dur))
        with bounded(res), quiet():
            pp = preprocessor.Preprocessor(path, **({"parallel": True} if par else {}))
            pp.run_jobs(DeltaModel=cls)
        ev = events(log)
        up = [e for e in ev if e["what"] == "update"]
        init = [e for e in ev if e["what"] == "init"][0]
        end = [e for e in ev if e["what"] == "end"]
        res.n("continued")
        res.expect(abs(init["time"] - tc) <= 1e-9 * (1 + tc),
                   "a resumed job does not start at the time of its checkpoint")
        if res.expect(len(end) == 1, "a resumed job does not end exactly once"):
            judge(kind, want, val, If, init["dt"], tc, up, end[0], case, res, "resumed ")


def judge(kind, want, val, If, dt, t0, up, end, case, res, tag):
    if kind == "timesteps":
        res.expect(len(up) == want, "a %sjob does not run the number of steps asked for" % tag,
                   got=len(up), want=want, src=case["src"], parallel=case["par"])
        return
    T = t0 + val * If * (1 if kind == "time" else 86400 * 365.25)
    tol = 1e-9 * (1 + abs(T))
    res.expect(end["time"] >= T - tol, "a %sjob ends before the time asked for" % tag,
               kind=kind, got=end["time"], want=T, src=case["src"], If=If)
    if up:
        last = up[-2]["time"] if len(up) > 1 else t0
        res.expect(last < T + tol, "a %sjob runs on after the time asked for" % tag,
                   kind=kind, before_last=last, want=T, dt=dt, src=case["src"], If=If)


def cases_dry(tier, seed):
    rng = util.subrng(seed, "C17y", tier)
    return [{"rs": int(rng.randint(2**31 - 1)), "src": ["file", "kw", "cli"][i % 3],
             "multi": util.pick(rng, None, "matrix", "set", "ensemble"),
             "what": "dry" if i % 4 else "nodur"} for i in range(36 if tier == "quick" else 900)]


def run_dry(case, res):
    """A dry run sets up and runs nothing; without a duration nothing is stepped."""
    from pyDeltaRCM import preprocessor

    rng = np.random.RandomState(case["rs"])
    log = os.path.join(util.casedir(), "events")
    cls = logged_model(log, physics=False)
    out = util.outdir()
    cfg = dict(BASE, out_dir=out)
    dur = {util.pick(rng, "timesteps", "time"): int(rng.randint(1, 4))}
    multi = {None: {}, "matrix": {"matrix": {"f_bedload": [0.2, 0.3, 0.4]}},
             "set": {"set": [{"f_bedload": 0.2}, {"f_bedload": 0.7}]},
             "ensemble": {"ensemble": 2}}[case["multi"]]
    njobs = {None: 1, "matrix": 3, "set": 2, "ensemble": 2}[case["multi"]]
    cfg.update(multi)
    dry = case["what"] == "dry"
    if dry:
        cfg.update(dur)
    path = os.path.join(util.casedir(), "in.yml")
    kw, argv = {}, ["pyDeltaRCM", "--config", path]
    if dry and case["src"] == "file":
        cfg["dryrun"] = True
    elif dry and case["src"] == "kw":
        kw["dryrun"] = True
    elif dry:
        argv.append("--dryrun")
    if case["multi"] and rng.rand() < 0.4:
        kw["parallel"] = 2
        argv += ["--parallel", "2"]
    write(path, cfg)
    with bounded(res), quiet():
        err = None
        try:
            if case["src"] == "cli":
                old, sys.argv = sys.argv, argv
                try:
                    pp = preprocessor.PreprocessorCLI()
                finally:
                    sys.argv = old
            else:
                pp = preprocessor.Preprocessor(path, **kw)
            pp.run_jobs(DeltaModel=cls)
        except ValueError as e:
            err = e
    ev = events(log) if os.path.exists(log) else []
    res.sig(case["what"], case["src"], case["multi"], "parallel" in kw)
    if not dry:
        res.n("no_duration")
        res.expect(err is not None, "jobs without a duration are not refused",
                   src=case["src"], multi=case["multi"])
        res.expect(not [e for e in ev if e["what"] == "update"],
                   "a job without a duration is stepped")
        return
    res.n("dry_runs")
    res.expect(err is None, "a dry run is refused", error=str(err))
    res.expect(not ev, "a dry run makes or runs a model", events=len(ev), src=case["src"],
               multi=case["multi"])
    made = sorted(os.path.relpath(os.path.join(r, f), out)
                  for r, _, fs in os.walk(out) for f in fs)
    res.expect(not [f for f in made if f.endswith((".nc", ".png", ".npz", ".log"))],
               "a dry run writes model output", made=made)
    if case["multi"]:
        res.expect(len(pp.file_list) == njobs and
                   all(os.path.isfile(f) for f in pp.file_list),
                   "a dry run does not set up its jobs", files=[str(f) for f in pp.file_list])


# --------------------------------------------------------------------------
# schedules and failures
# --------------------------------------------------------------------------
def cases_sched(tier, seed):
    rng = util.subrng(seed, "C17s", tier)
    out = []
    for i in range(30 if tier == "quick" else 1500):
        n = int(rng.randint(1, 13)) if i % 8 != 4 else int(rng.randint(2, 6))
        out.append({"rs": int(rng.randint(2**31 - 1)), "n": n,
                    "workers": [2, False, 3, True, 1, 2, False, 4][i % 8],
                    "fails": int(util.pick(rng, 0, 1, 2, n))})
    return out


def run_sched(case, res):
    from pyDeltaRCM import preprocessor

    rng = np.random.RandomState(case["rs"])
    log = os.path.join(util.casedir(), "events")
    n = case["n"]
    names = ["job_%03d" % i for i in range(n)]
    steps = int(rng.randint(1, 5))
    delay = {j: {int(rng.randint(steps)): float(rng.rand() * 0.15)}
             for j in names if rng.rand() < 0.6}
    if not isinstance(case["workers"], bool) and n > case["workers"]:
        res.n("overlap_possible")   # every job lasts long enough to meet another
        for j in names:
            delay.setdefault(j, {})[0] = 0.12
    fail = {}
    for j in rng.permutation(names)[:case["fails"]]:
        fail[str(j)] = (util.pick(rng, "RuntimeError", "ValueError"),
                        int(rng.randint(steps)), util.pick(rng, "update", "update",
                                                           "finalize"),
                        int(util.pick(rng, 0, 0, 100, 300000)))
    other = set()
    if case["workers"] is not False and fail and rng.rand() < 0.6:
        # an error of another kind: what happens to that job is open, the others go on
        j = sorted(fail)[0]
        fail[j] = (util.pick(rng, "OSError", "KeyError", "MemoryError"),
                   int(rng.randint(steps)), "update", 0)
        other.add(j)
        res.n("other_errors")
    cls = logged_model(log, physics=False, delay=delay, fail=fail)
    root = os.path.join(util.casedir(), "root")
    spec = dict(BASE, out_dir=root, timesteps=steps, save_eta_grids=True, save_dt=1,
                set=[{"h0": 1.0 + 0.25 * i, "seed": 10 + i} for i in range(n)])
    if case["workers"] is not False:
        spec["parallel"] = case["workers"]
    with bounded(res), quiet() as out:
        pp = preprocessor.Preprocessor(spec)
        escaped = None
        try:
            pp.run_jobs(DeltaModel=cls)
        except (RuntimeError, ValueError) as e:
            escaped = e
    if escaped is not None:
        if not str(escaped).startswith("injected-failure"):
            raise escaped
        res.fail("a failing job stops the run of the others", error=str(escaped)[:100],
                 workers=str(case["workers"]))
        return
    text = out.getvalue()
    ev = events(log)
    res.n("jobs_run", n)
    res.n("failed_jobs", len(fail))
    res.n("parallel_runs" if case["workers"] is not False else "serial_runs")
    order = [e["job"] for e in ev if e["what"] == "end"]
    res.sig(n, str(case["workers"]), sorted(fail), order)
    for i, j in enumerate(names):
        mine = [e for e in ev if e["job"] == j]
        kinds = [e["what"] for e in mine]
        up = kinds.count("update")
        if j in other:
            res.expect(kinds.count("init") == 1 and kinds.count("begin") == 1,
                       "a job is lost, or executed more than once", job=j, events=kinds)
            continue
        res.expect(kinds.count("init") == 1 and kinds.count("begin") == 1 and
                   kinds.count("end") == 1, "a job is lost, or executed more than once",
                   job=j, events=kinds)
        f = fail.get(j)
        want = f[1] if f and f[2] == "update" else steps
        res.expect(up == want, "a job does not take its steps", job=j, got=up, want=want,
                   failing=f)
        logs = glob.glob(os.path.join(root, j, "*.log"))
        t = "".join(open(q).read() for q in logs)
        if f:
            res.expect("injected-failure-" + j in t, "a failure is not reported in the log "
                       "of the job", job=j, failure=f[:3])
            if case["workers"] is not False:
                res.expect("injected-failure-" + j in text, "a failure of a parallel job is "
                           "not reported", job=j, failure=f[:3])
        else:
            res.expect("injected-failure" not in t, "a job's log reports the failure of "
                       "another", job=j)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                d = util.read_nc(os.path.join(root, j, "pyDeltaRCM_output.nc"))
            res.expect(d["eta"][0].shape[0] == steps + 1, "the output of a job is not "
                       "complete", job=j, records=d["eta"][0].shape[0], want=steps + 1)
            res.expect(abs(float(d["meta/h0"][0]) - (1.0 + 0.25 * i)) < 1e-5,
                       "the output of a job is that of another", job=j)
    if not isinstance(case["workers"], bool):
        iv = []
        for j in names:
            mine = {e["what"]: e["t"] for e in ev if e["job"] == j and
                    e["what"] in ("begin", "end")}
            if j in other and "begin" in mine and "end" not in mine:
                continue
            if len(mine) == 2:
                iv += [(mine["begin"], 1), (mine["end"], -1)]
        cur = top = 0
        for _, s in sorted(iv, key=lambda q: (q[0], q[1])):
            cur += s
            top = max(top, cur)
        res.expect(top <= case["workers"], "more jobs run at once than workers were asked for",
                   at_once=top, workers=case["workers"])
    res.expect(len(pp.job_list) == n, "the job list does not hold the jobs run")
    res.expect(not any(getattr(p, "is_alive", lambda: False)() for p in pp.job_list),
               "a job still runs when the run is over")
    res.sample({"jobs": n, "workers": str(case["workers"]), "order": order,
                "failing": sorted(fail)})


# --------------------------------------------------------------------------
# isolation
# --------------------------------------------------------------------------
def cases_iso(tier, seed):
    rng = util.subrng(seed, "C17i", tier)
    out = []
    for i in range(12 if tier == "quick" else 600):
        out.append({"rs": int(rng.randint(2**31 - 1)), "n": int(rng.randint(2, 5)),
                    "workers": [False, 2, 3, False, 1][i % 5],
                    "resume": i % 3 == 1,
                    "how": ["set", "ensemble", "noseed", "seed"][i % 4],
                    "fails": int(util.pick(rng, 0, 0, 1))})
    return out


def run_iso(case, res):
    from pyDeltaRCM import DeltaModel, preprocessor

    rng = np.random.RandomState(case["rs"])
    np.random.seed(case["rs"] % 2**32)
    log = os.path.join(util.casedir(), "events")
    n = case["n"]
    names = ["job_%03d" % i for i in range(n)]
    steps, more = int(rng.randint(1, 4)), int(rng.randint(1, 3))
    fail = {}
    if case["fails"]:
        j = names[rng.randint(n)]
        fail[j] = ("RuntimeError", int(rng.randint(steps)), "update", 0)
    cls = logged_model(log, fail=fail)
    root = os.path.join(util.casedir(), "root")
    spec = dict(BASE, out_dir=root, timesteps=steps, save_eta_grids=True,
                save_velocity_grids=True, save_sandfrac_grids=True, save_dt=1, Np_water=20,
                Np_sed=20, save_checkpoint=case["resume"], checkpoint_dt=1)
    if case["how"] == "set":
        spec["set"] = [{"f_bedload": 0.3 + 0.1 * i, "seed": 7} for i in range(n)]
    elif case["how"] == "noseed":
        spec["matrix"] = {"f_bedload": [0.3 + 0.1 * i for i in range(n)]}
    elif case["how"] == "seed":
        spec["seed"] = 42
        spec["matrix"] = {"u0": [0.8 + 0.2 * i for i in range(n)]}
    else:
        spec["ensemble"] = n
    if case["workers"] is not False:
        spec["parallel"] = case["workers"]
    with bounded(res), quiet():
        pp = preprocessor.Preprocessor(spec)
        pp.run_jobs(DeltaModel=cls)
        seeds = {e["job"]: e["seed"] for e in events(log) if e["what"] == "init"}
        if case["resume"]:
            s2 = dict(spec, timesteps=more, resume_checkpoint=True)
            fail.clear()
            pp2 = preprocessor.Preprocessor(s2)
            pp2.run_jobs(DeltaModel=cls)
            failed = case["fails"]
    total = steps + (more if case["resume"] else 0)
    bad = set()
    for e in pp.config_list:
        j = os.path.basename(e["out_dir"])
        ups = [q for q in events(log) if q["job"] == j and q["what"] == "update"]
        if len(ups) != total:
            bad.add(j)
    res.expect(len(bad) <= case["fails"], "a job does not take its steps", jobs=sorted(bad))
    res.sig(case["how"], n, str(case["workers"]), case["resume"], steps)
    if case["how"] in ("ensemble", "noseed"):
        res.expect(len(set(seeds.values())) == n, "jobs without a seed of their own share one",
                   seeds=seeds)
    import yaml

    from pyDeltaRCM import shared_tools

    for c in pp.config_list:
        j = os.path.basename(c["out_dir"])
        if j in bad:
            continue
        cfg = {k: v for k, v in c.items() if k not in ("parallel", "timesteps", "seed",
                                                       "resume_checkpoint")}
        cfg["seed"] = int(seeds[j])
        if "seed" in c:
            res.expect(int(c["seed"]) == seeds[j], "a job does not run with its seed", job=j)
        ref = util.outdir("ref_" + j)
        cfg["out_dir"] = ref
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m = DeltaModel(**cfg)
            for _ in range(total):
                m.update()
            m.finalize()
        a = util.read_nc(os.path.join(root, j, "pyDeltaRCM_output.nc"))
        b = util.read_nc(os.path.join(ref, "pyDeltaRCM_output.nc"))
        res.n("compared")
        if case["resume"]:
            res.n("resumed_jobs")
        res.expect(set(a) == set(b), "a job saves other variables than a standalone run",
                   differ=sorted(set(a) ^ set(b)))
        diff = [k for k in b if k in a and k != "__attrs__" and
                not np.array_equal(a[k][0], b[k][0], equal_nan=a[k][0].dtype.kind == "f")]
        res.expect(not diff, "the result of a job is not that of a standalone run with its "
                   "configuration and seed", job=j, variables=diff, how=case["how"],
                   workers=str(case["workers"]), resumed=case["resume"])
    res.sample({"how": case["how"], "jobs": n, "workers": str(case["workers"]),
                "resumed": case["resume"], "seeds": seeds})
