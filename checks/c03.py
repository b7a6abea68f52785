"""Kills and write faults while checkpointing and while resuming."""
import os
import resource
import shutil
import signal
import sys
import time

import numpy as np
import util

RULE = (
    "random small run with checkpoints; at one checkpoint (resp. one resume) the "
    "process is killed at points spread over every Python-level call the save (resp. "
    "the resume) makes, and the save is made to fail by a full disk at various file "
    "sizes; afterwards the directory is judged by resuming from it and by reading the "
    "output file; distinct: (run, kind, kill point)"
)
PHASES = [
    {"name": "save", "mode": "nojit", "workers": 4, "timeout": {"quick": 300,
     "thorough": 900}, "budget": {"quick": 40, "thorough": 1200}, "min": {"quick": 4},
     "require": {"kill_save": 60, "fault_save": 8, "judged": 60, "none_yet": 4}},
    {"name": "resume", "mode": "nojit", "workers": 4, "timeout": {"quick": 300,
     "thorough": 900}, "budget": {"quick": 40, "thorough": 1200}, "min": {"quick": 4},
     "require": {"kill_resume": 60, "judged": 60}},
]
FIELDS = ("eta", "stage", "depth", "qx", "qy", "qw", "ux", "uy", "uw", "sand_frac",
          "active_layer")


def _cases(tier, seed, tag):
    rng = util.subrng(seed, "C03", tag, tier)
    out = []
    for i in range(8 if tier == "quick" else 200):
        c = util.gen_config(rng, "tiny", Np_water=5, Np_sed=6, f_bedload=0.5, itermax=1)
        c.update({"save_checkpoint": True, "save_dt": 1, "save_eta_grids": True,
                  "save_metadata": True})
        if i % 2:
            c["save_depth_grids"] = True
        at = 0 if tag == "save" and i % 4 == 2 else int(rng.randint(1, 4))
        out.append({"cfg": c, "at": at, "points":
                    28 if tier == "quick" else 150, "rs": int(rng.randint(2**31 - 1))})
    return out


def cases_save(tier, seed):
    return _cases(tier, seed, "save")


def cases_resume(tier, seed):
    return _cases(tier, seed, "resume")


MUTATE = {"replace", "rename", "renames", "remove", "unlink", "link", "symlink", "truncate",
          "ftruncate", "fsync", "copyfile", "sendfile", "rmdir", "mkdir", "move"}


class Killer(object):
    """Counts calls (and lines of the package); kills the process at the n-th one."""

    def __init__(self, n=None):
        self.n, self.c = n, 0
        self.lines, self.muts = [], []

    def hit(self):
        self.c += 1
        if self.n is not None and self.c >= self.n:
            os.kill(os.getpid(), signal.SIGKILL)

    def profile(self, frame, event, arg):
        self.hit()
        if event.startswith("c_") and getattr(arg, "__name__", "") in MUTATE:
            self.muts.append(self.c)

    def trace(self, frame, event, arg):
        if "pyDeltaRCM" not in frame.f_code.co_filename:
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == "line":
            self.hit()
            self.lines.append(self.c)
        return self.line

    def start(self):
        # the frame that is running (a wrapper of ours) is not traced: its callees are
        sys.settrace(self.trace)
        sys.setprofile(self.profile)

    def stop(self):
        sys.setprofile(None)
        sys.settrace(None)

    def save(self, path):
        import json

        json.dump([self.c, self.lines, self.muts], open(path, "w"))


def points(path, rng, n):
    """Where to kill: around every change of the folder, between statements, anywhere."""
    import json

    total, lines, muts = json.load(open(path))
    pts = set(int(p) for p in np.linspace(1, total, n // 2))
    pts |= set(int(total - i) for i in range(5))
    for q in muts[:40]:
        pts |= {q, q + 1}
    for q in lines:
        # statements that directly follow a change of the folder
        if any(0 < q - u < 40 for u in muts):
            pts.add(q)
    if lines:
        pts |= set(lines[int(i)] for i in np.linspace(0, len(lines) - 1, n // 2))
        pts |= set(lines[int(i)] for i in rng.randint(0, len(lines), 4))
    return sorted(p for p in pts if 1 <= p <= total), total


def in_child(fn):
    """Run fn in a forked child; returns the wait status."""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            signal.alarm(120)
            fn()
            code = 0
        except BaseException:
            import traceback

            traceback.print_exc()
            sys.stderr.flush()
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    return st


def state(m):
    return util.snap(m, *FIELDS), float(m.time), float(m.H_SL), int(m.time_iter)


def eq(a, b):
    return a[1:] == b[1:] and all(np.array_equal(a[0][k], b[0][k]) for k in FIELDS)


def judge_dir(src, cfg, allowed, records, res, what, **detail):
    """In a child: resume from a copy of the directory; check state and records."""
    if allowed[0] is None:
        # the first checkpoint of a run: there need not be one yet
        allowed = allowed[1:]
        if not os.path.exists(os.path.join(src, "checkpoint.npz")):
            res.n("none_yet")
            return
    d = util.outdir()
    shutil.copytree(src, d)
    verdict = os.path.join(d, "..", os.path.basename(d) + ".verdict")

    def child():
        import json

        v = {"err": None}
        try:
            nc = os.path.join(d, "pyDeltaRCM_output.nc")
            if not os.path.exists(nc):
                v["err"] = "the output file is gone"
            else:
                try:
                    got = util.read_nc(nc)
                except Exception as e:
                    v["err"] = "the output file is unreadable: %r" % e
                else:
                    for k, want in records.items():
                        if k not in got:
                            v["err"] = "output variable %s lost" % k
                            break
                        n = len(want)
                        if len(got[k][0]) < n or not np.array_equal(got[k][0][:n], want):
                            v["err"] = "records of %s saved earlier are lost or changed" % k
                            break
            if v["err"] is None:
                try:
                    m = util.make(cfg, out=d, resume_checkpoint=True)
                except Exception as e:
                    v["err"] = "resuming fails: %s: %s" % (type(e).__name__, e)
                else:
                    s = state(m)
                    v["it"] = s[3]
                    if not any(eq(s, a) for a in allowed):
                        v["err"] = "the resumed state is not one that was checkpointed"
                    else:
                        try:
                            m.update()
                            m.finalize()
                            got = util.read_nc(nc)
                            for k, want in records.items():
                                n = min(len(want), s[3] + 1)
                                if not np.array_equal(got[k][0][:n], want[:n]):
                                    v["err"] = "resuming changes records saved earlier"
                        except Exception as e:
                            v["err"] = "the resumed run fails: %s: %s" % (
                                type(e).__name__, e)
        finally:
            json.dump(v, open(verdict, "w"))

    st = in_child(child)
    import json

    res.n("judged")
    try:
        v = json.load(open(verdict))
    except Exception:
        if os.WIFSIGNALED(st):
            res.fail("process dies when resuming after %s" % what, status=st, **detail)
            return
        raise util.Inconclusive("judge failed, status %r" % st)
    if v["err"]:
        res.fail("after %s: %s" % (what, v["err"]), **detail)
    else:
        res.n("resumed_old" if v["it"] == allowed[0][3] else "resumed_new")
    shutil.rmtree(d, ignore_errors=True)


def nc_records(path):
    a = util.read_nc(path)
    return {k: v[0] for k, v in a.items()
            if k != "__attrs__" and v[2] and v[2][0] == a["time"][2][0]}


def run_save(case, res):
    rng = np.random.RandomState(case["rs"])
    cfg = dict(case["cfg"])
    st = {"mode": None, "saved": []}
    box = {}

    def at_ckpt(m):
        if st["mode"] is not None:      # we are inside a child: arm it
            st["mode"](m)
            return
        if m.time_iter == case["at"]:
            experiment(m)
        st["saved"].append(state(m))

    def experiment(m):
        prefix = m.out_dir
        keep = util.outdir()
        shutil.copytree(prefix, keep)
        allowed = [st["saved"][-1] if st["saved"] else None, state(m)]
        recs = nc_records(os.path.join(keep, "pyDeltaRCM_output.nc"))

        def restore():
            if not os.path.isdir(prefix):
                os.makedirs(prefix)
            for f in os.listdir(prefix):
                if f.endswith(".nc") and f in os.listdir(keep):
                    continue  # held open by this process, not touched by the save
                os.remove(os.path.join(prefix, f))
            for f in os.listdir(keep):
                if not f.endswith(".nc"):
                    shutil.copy2(os.path.join(keep, f), os.path.join(prefix, f))

        # how many calls does the save make?
        cnt = os.path.join(util.casedir(), "count")

        def child(kill, fsize=None):
            k = Killer(kill)

            def fn():
                if fsize is not None:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                k.start()
                try:
                    m.output_checkpoint()
                finally:
                    k.stop()
                if fsize is None and kill is None:
                    k.save(cnt)
            return fn

        s = in_child(child(None))
        if s != 0:
            res.fail("saving a checkpoint fails", status=s)
            return
        pts, total = points(cnt, rng, case["points"])
        size = os.path.getsize(os.path.join(prefix, "checkpoint.npz"))
        # a completed save must be the new state
        judge_dir(prefix, cfg, [allowed[1]], recs, res, "a completed checkpoint")
        restore()
        res.n("calls_in_save", total)
        for p in pts:
            s = in_child(child(int(p)))
            res.n("kill_save" if os.WIFSIGNALED(s) else "not_killed")
            judge_dir(prefix, cfg, allowed, recs, res,
                      "a kill while the checkpoint is written", point=int(p), of=total)
            res.sig(case["rs"], "save", int(p))
            restore()
        for f in np.unique((size * np.array([0.0, 0.02, 0.3, 0.7, 0.97])).astype(int)):
            in_child(child(None, int(f)))
            res.n("fault_save")
            judge_dir(prefix, cfg, allowed, recs, res,
                      "a full disk while the checkpoint is written", bytes=int(f), of=size)
            res.sig(case["rs"], "fault", int(f))
            restore()
        box["total"] = total

    cls = util.monitored({"output_checkpoint": at_ckpt})
    m = util.make(cfg, cls)
    for _ in range(case["at"]):
        m.update()
    m.finalize()
    res.sample({"calls_in_one_save": box.get("total"), "at_step": case["at"]})


def run_resume(case, res):
    rng = np.random.RandomState(case["rs"])
    cfg = dict(case["cfg"])
    saved = []
    cls = util.monitored({"output_checkpoint": lambda m: saved.append(state(m))})
    # the first run ends abruptly: it is never finalized
    src = util.outdir()

    def first():
        m = util.make(cfg, cls, out=src)
        for _ in range(case["at"]):
            m.update()
        import pickle

        pickle.dump(saved, open(src + ".pkl", "wb"))
        os.kill(os.getpid(), signal.SIGKILL)

    s = in_child(first)
    import pickle

    if not os.path.exists(src + ".pkl"):
        res.fail("the run fails", status=s)
        return
    saved = pickle.load(open(src + ".pkl", "rb"))
    # what was saved before the kill must be there after it
    try:
        recs = nc_records(os.path.join(src, "pyDeltaRCM_output.nc"))
    except Exception as e:
        res.fail("records saved before a kill are unreadable: %r" % e)
        return
    ok = len(recs["time"]) == case["at"] + 1 and all(
        np.array_equal(recs["eta"][i], saved[i][0]["eta"]) and
        recs["time"][i] == np.float32(saved[i][1]) for i in range(case["at"] + 1))
    if not res.expect(ok, "records saved before a kill are lost",
                      n=len(recs["time"]), want=case["at"] + 1):
        return
    allowed = [saved[-1]]
    cnt = os.path.join(util.casedir(), "count")

    def child(d, kill):
        def fn():
            k = Killer(kill)
            c = util.monitored({"load_checkpoint": lambda m: k.start()})
            m = util.make(cfg, c, out=d, resume_checkpoint=True)
            k.stop()
            if kill is None:
                k.save(cnt)
        return fn

    d = util.outdir()
    shutil.copytree(src, d)
    s = in_child(child(d, None))
    if s != 0:
        res.fail("resuming after a kill between updates fails", status=s)
        return
    judge_dir(d, cfg, allowed, recs, res, "a kill right after a resume")
    pts, total = points(cnt, rng, case["points"])
    res.n("calls_in_resume", total)
    for p in pts:
        d = util.outdir()
        shutil.copytree(src, d)
        s = in_child(child(d, int(p)))
        res.n("kill_resume" if os.WIFSIGNALED(s) else "not_killed")
        judge_dir(d, cfg, allowed, recs, res, "a kill while resuming", point=int(p), of=total)
        res.sig(case["rs"], "resume", int(p))
        shutil.rmtree(d, ignore_errors=True)
    res.sample({"calls_in_resume": total, "kill_points": len(pts)})
