"""Lifecycle of a model and the files it touches."""
import hashlib
import os
import sys
import warnings

import numpy as np
import util

RULE = (
    "random sequences of update / finalize / resume / new model / change of the working folder on one or two output folders "
    "with random output settings, next to decoy files of other runs; an interpreter audit "
    "hook records every file opened for writing, made, renamed or removed, and the whole "
    "tree is compared before and after; files held open after finalisation and the "
    "state of the process (figures, folder, environment, settings) are checked; distinct and non-trivial: (operation sequence, "
    "output settings)"
)
PHASES = [
    {"name": "py", "mode": "nojit", "workers": 6,
     "budget": {"quick": 22, "thorough": 900}, "min": {"quick": 25},
     "require": {"ops": 200, "refused_update": 40, "refused_finalize": 20, "audited": 300,
                 "no_clobber": 6, "clobber": 3, "pairs": 6, "moved_relative": 4,
                 "closed": 20, "process_state": 60, "jobs": 8}},
]
AUDIT = {"on": False, "events": [], "installed": False}


def hook(ev, args):
    if not AUDIT["on"]:
        return
    if ev == "open":
        path, mode, flags = args
        w = (isinstance(mode, str) and any(c in mode for c in "wax+")) or \
            (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR))
        if w and isinstance(path, (str, bytes)):
            AUDIT["events"].append(("open", os.path.abspath(os.fsdecode(path))))
    elif ev in ("os.mkdir", "os.remove", "os.rmdir", "os.truncate", "os.chmod",
                "shutil.rmtree", "os.utime"):
        if isinstance(args[0], (str, bytes, os.PathLike)):
            AUDIT["events"].append((ev, os.path.abspath(os.fsdecode(args[0]))))
    elif ev in ("os.rename", "os.link", "os.symlink", "shutil.move", "shutil.copyfile"):
        AUDIT["events"].append((ev, os.path.abspath(os.fsdecode(args[0]))))
        AUDIT["events"].append((ev, os.path.abspath(os.fsdecode(args[1]))))


def tree(d, skip=()):
    out = {}
    for r, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.join(r, x)] = "dir"
        for x in fs:
            p = os.path.join(r, x)
            if not any(p.startswith(s + os.sep) or p == s for s in skip):
                with open(p, "rb") as f:
                    out[p] = hashlib.md5(f.read()).hexdigest()
    return {p: v for p, v in out.items()
            if not any(p.startswith(s + os.sep) or p == s for s in skip)}


def cases_py(tier, seed):
    rng = util.subrng(seed, "C20", tier)
    out = []
    for i in range(120 if tier == "quick" else 4000):
        save = {}
        for q in util.GRIDS:
            if rng.rand() < 0.2:
                save["save_%s_grids" % q] = True
        if rng.rand() < 0.3:
            save["save_eta_figs"] = True
            save["save_figs_sequential"] = bool(rng.rand() < 0.5)
        if rng.rand() < 0.5:
            save["save_checkpoint"] = True
        if rng.rand() < 0.3:
            save["save_metadata"] = True
        save["save_dt"] = int(util.pick(rng, 1, 1, 100000))
        ops = [util.pick(rng, "update", "update", "update", "finalize")
               for _ in range(rng.randint(3, 8))] + ["finalize", "update", "finalize"]
        out.append({"cfg": util.gen_config(rng, "tiny", itermax=1), "save": save, "ops": ops,
                    "kind": ["seq", "seq", "again", "pair", "seq", "jobs"][i % 6],
                    "rel": bool(rng.rand() < 0.4), "rs": int(rng.randint(2**31 - 1))})
    return out


def contents(d):
    return {k: v for k, v in tree(d).items() if not k.endswith(".log")}


def audit_start():
    if not AUDIT["installed"]:
        sys.addaudithook(hook)
        AUDIT["installed"] = True
    AUDIT["events"] = []
    AUDIT["on"] = True


def audit_stop(outs, res):
    AUDIT["on"] = False
    ok = [os.path.realpath(o) for o in outs]
    for what, p in AUDIT["events"]:
        res.n("audited")
        q = os.path.realpath(p)
        if q.startswith(("/dev/", "/proc/")) or "matplotlib" in q or "mplconfig" in q or \
                q.endswith((".pyc", ".nbi", ".nbc")):
            continue
        inside = any(q == o or q.startswith(o + os.sep) for o in ok)
        parent = what == "os.mkdir" and any(o.startswith(q + os.sep) for o in ok)
        res.expect(inside or parent, "the model touches a file outside its output folder",
                   what=what, path=p)


def run_py(case, res):
    rng = np.random.RandomState(case["rs"])
    base = util.casedir()
    decoy = os.path.join(base, "other")
    os.makedirs(decoy)
    for f in ("pyDeltaRCM_output.nc", "checkpoint.npz", "eta_00000.png", "data.txt"):
        open(os.path.join(decoy, f), "wb").write(os.urandom(64))
        open(os.path.join(base, f), "wb").write(os.urandom(64))
    name = util.pick(rng, "run", "a/b/c", "with space", "run.d")
    out = os.path.join(base, name)
    given = name if case["rel"] else out
    cfg = dict(case["cfg"], **case["save"])
    try:
        globals()["do_" + case["kind"]](case, cfg, given, out, rng, res)
    finally:
        AUDIT["on"] = False
        os.chdir(base)


def expect_error(res, key, fn, msg, exc=RuntimeError):
    res.n(key)
    try:
        fn()
    except exc:
        return
    except Exception as e:  # noqa
        res.fail(msg + " (another error is raised)", error=repr(e)[:300])
        return
    res.fail(msg)


def open_files(d):
    """Files below d which this process holds open."""
    out = []
    for f in os.listdir("/proc/self/fd"):
        try:
            p = os.readlink("/proc/self/fd/" + f)
        except OSError:
            continue
        if p.startswith(os.path.realpath(d) + os.sep):
            out.append(os.path.basename(p))
    return sorted(out)


def process_state(cwd=True):
    """What belongs to the user of the process, not to a model."""
    import logging
    import matplotlib
    import matplotlib.pyplot as plt

    d = {"folder": os.getcwd(), "figures": plt.get_fignums(), "errors": np.geterr(),
         "umask": (lambda u: (os.umask(u), u)[1])(os.umask(0o77)),
         "argv": list(sys.argv), "root_log": len(logging.getLogger().handlers),
         "level": logging.getLogger().level, "off": logging.root.manager.disable,
         "backend": matplotlib.get_backend(),
         "style": hashlib.md5(repr(sorted((k, str(v)) for k, v in dict.items(
             matplotlib.rcParams))).encode()).hexdigest(),
         "environ": hashlib.md5(repr(sorted(os.environ.items())).encode()).hexdigest()}
    return d


def do_seq(case, cfg, given, out, rng, res):
    import matplotlib.pyplot as plt

    mine = plt.figure()
    ax = mine.add_subplot()
    ax.plot([0, 1], [0, 1])
    top = os.path.join(util.casedir(), os.path.relpath(out, util.casedir()).split(os.sep)[0])
    before = tree(util.casedir(), skip=(top,))
    audit_start()
    m = util.make(cfg, out=given)
    done = False
    moves = [rng.rand() < 0.3 for _ in case["ops"]]
    for op, mv in zip(case["ops"], moves):
        res.n("ops")
        if mv:  # the caller goes to another folder while the run is under way
            res.n("moved_relative" if case["rel"] else "moved")
            os.chdir(util.pick(rng, os.path.join(util.casedir(), "other"), util.casedir()))
        if not done:
            t = m.time_iter
            state = process_state()
            getattr(m, op)()
            now = process_state()
            res.n("process_state")
            res.expect(now == state, "a model changes what belongs to the process",
                       what=[k for k in state if now[k] != state[k]], op=op)
            if op == "finalize":
                done = True
                frozen, dig = contents(out), util.digest(m)
                res.n("closed")
                res.expect(not open_files(out), "a finalized model keeps files open",
                           files=open_files(out))
            else:
                res.expect(m.time_iter == t + 1, "an update does not advance the model")
        else:
            expect_error(res, "refused_" + op, getattr(m, op),
                         "a finalized model accepts '%s'" % op)
            res.expect(contents(out) == frozen, "a finalized model changes its output",
                       op=op)
            res.expect(util.digest(m) == dig, "a refused operation changes the model", op=op)
            res.expect(not open_files(out), "a finalized model keeps files open",
                       files=open_files(out), op=op)
    res.expect(plt.fignum_exists(mine.number) and len(ax.lines) == 1 and
               len(mine.axes) == 1 and not ax.images and not ax.collections,
               "a model draws into or closes a figure of the user")
    plt.close(mine)
    audit_stop([out], res)
    res.expect(tree(util.casedir(), skip=(top,)) == before,
               "files outside the output folder are changed or made")
    if case["save"] and any(k.endswith("grids") or k == "save_metadata"
                            for k in case["save"]):
        nc = os.path.join(out, "pyDeltaRCM_output.nc")
        from netCDF4 import Dataset

        ok = True
        try:
            Dataset(nc, "r+").close()
        except Exception:  # noqa
            ok = False
        res.expect(ok, "the output file of a finalized model is not closed and readable")
    known = {".log", ".nc", ".png", ".npz"}
    for p in contents(out):
        if os.path.isfile(p):
            res.expect(os.path.splitext(p)[1] in known and not
                       os.path.basename(p).startswith(("new_", "tmp", "old_")),
                       "an unknown file is left in the output folder",
                       file=os.path.basename(p))
    res.sig(tuple(case["ops"]), tuple(sorted(case["save"])))
    res.sample({"ops": case["ops"], "audit_events": len(AUDIT["events"]),
                "files": sorted(os.path.basename(p) for p in tree(out))[:8]})


def do_again(case, cfg, given, out, rng, res):
    """A second run on the folder of an earlier one."""
    kinds = ({"save_eta_grids": True}, {"save_metadata": True},
             {"save_velocity_components": True}, {"save_sandfrac_grids": True},
             {"save_metadata": True, "legacy_netcdf": True})
    cfg = dict({k: v for k, v in cfg.items() if not k.endswith(("_grids", "_metadata"))},
               save_dt=1)
    second = dict(cfg, **kinds[rng.randint(len(kinds))])
    cfg.update(kinds[rng.randint(len(kinds))])
    audit_start()
    m = util.make(cfg, out=given)
    m.update()
    m.finalize()
    # the user keeps files of their own there
    own = {os.path.join(out, n): os.urandom(8) for n in (
        "notes.txt", "my_figure.png", "eta_old.png", "copy.nc", "pyDeltaRCM_output_1.nc",
        "grids.npz", os.path.join("extra", "eta_00000.png"))}
    os.makedirs(os.path.join(out, "extra"))
    for p, b in own.items():
        with open(p, "wb") as f:
            f.write(b)
    first = contents(out)
    util.close_loggers()
    nc = os.path.join(out, "pyDeltaRCM_output.nc")
    old = util.read_nc(nc)
    cfg2 = dict(second, seed=cfg["seed"] ^ 5)
    expect_error(res, "no_clobber", lambda: util.make(cfg2, out=given),
                 "the output of an earlier run is overwritten without being asked to",
                 FileExistsError)
    res.expect(contents(out) == first, "a refused run changes the output of an earlier one")
    res.sig("again", tuple(sorted(case["save"])))
    if rng.rand() < 0.7:
        res.n("clobber")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m = util.make(dict(cfg2, clobber_netcdf=True), out=given)
        m.update()
        m.update()
        m.finalize()
        new = util.read_nc(nc)
        res.expect(new["time"][0].shape[0] == 3 and new["time"][0][0] == 0,
                   "a run that replaces an earlier one continues its file",
                   records=int(new["time"][0].shape[0]), old=int(old["time"][0].shape[0]))
    for p, b in own.items():
        res.n("own_files")
        if res.expect(os.path.exists(p), "a run removes a file of the user's from its folder",
                      file=os.path.relpath(p, out)):
            with open(p, "rb") as f:
                res.expect(f.read() == b, "a run changes a file of the user's in its folder",
                           file=os.path.relpath(p, out))
    audit_stop([out], res)


def do_jobs(case, cfg, given, out, rng, res):
    """Models run as jobs of the preprocessor, one after the other."""
    import contextlib
    import io

    from pyDeltaRCM import preprocessor

    n = int(rng.randint(2, 4))
    cfg = dict({k: v for k, v in cfg.items() if k != "seed"}, out_dir=out,
               ensemble=n, timesteps=int(rng.randint(1, 3)))
    os.makedirs(os.path.dirname(out), exist_ok=True)
    f = os.path.join(util.casedir(), "in.yml")
    import json
    with open(f, "w") as fh:
        for k, v in cfg.items():
            fh.write("%s: %s\n" % (k, json.dumps(v)))
    before = tree(util.casedir(), skip=(out,))
    state = process_state()
    audit_start()
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pp = preprocessor.Preprocessor(f)
        pp.run_jobs()
    audit_stop([out], res)
    res.n("jobs", len(pp.job_list))
    res.expect(len(pp.job_list) == n, "not every job was run")
    res.expect(not open_files(out), "finished jobs keep files open", files=open_files(out))
    now = process_state()
    res.expect(now == state, "jobs change what belongs to the process",
               what=[k for k in state if now[k] != state[k]])
    res.expect(tree(util.casedir(), skip=(out,)) == before,
               "files outside the output folder of the jobs are changed or made")
    res.sig("jobs", n, tuple(sorted(case["save"])))


def do_pair(case, cfg, given, out, rng, res):
    """Two models at once, each with its own folder."""
    cfg = dict(cfg, save_eta_grids=True, save_dt=1, save_checkpoint=True, checkpoint_dt=1)
    out2 = out + "_2"
    audit_start()
    a = util.make(cfg, out=given)
    b = util.make(dict(cfg, seed=cfg["seed"] ^ 9, h0=cfg["h0"] * 1.5), out=out2)
    seen = {id(a): [a.eta.copy()], id(b): [b.eta.copy()]}
    for _ in range(5):
        m = (a, b)[rng.randint(2)]
        o = {out: contents(out), out2: contents(out2)}
        other = out2 if m is a else out
        m.update()
        res.n("ops")
        seen[id(m)].append(m.eta.copy())
        res.expect(contents(other) == o[other], "a model changes the output of another")
    a.finalize()
    seen[id(b)].append(None)
    b.update()
    seen[id(b)][-1] = b.eta.copy()
    b.finalize()
    audit_stop([out, out2], res)
    for m, o in ((a, out), (b, out2)):
        d = util.read_nc(os.path.join(o, "pyDeltaRCM_output.nc"))
        res.n("pairs")
        e = d["eta"][0]
        res.expect(e.shape[0] == len(seen[id(m)]) and all(
            np.array_equal(np.asarray(x, "f4"), y) for x, y in zip(seen[id(m)], e)),
            "the file of a model does not hold its own states when another runs",
            records=int(e.shape[0]), want=len(seen[id(m)]))
        c = np.load(os.path.join(o, "checkpoint.npz"), allow_pickle=True)
        res.expect(np.array_equal(c["eta"], m.eta), "the checkpoint of a model is that of "
                   "another")
        logs = [f for f in os.listdir(o) if f.endswith(".log")]
        text = "".join(open(os.path.join(o, f)).read() for f in logs)
        res.expect("Random seed is: %d " % m.seed in text or str(m.seed) in text,
                   "the log of a model does not name its own seed")
        other = b if m is a else a
        res.expect(text.count("Finalize") <= 1, "the log of a model holds messages of another")
    res.sig("pair", tuple(sorted(case["save"])), len(seen[id(a)]))
