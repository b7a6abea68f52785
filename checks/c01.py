"""Seeded runs are reproducible, and nothing but the physics consumes randomness."""
import hashlib
import json
import os
import re
import subprocess
import sys

import numpy as np
import util

RULE = (
    "random configuration x seed; each is run several times under different "
    "circumstances (after other random activity and other models, with other "
    "output/verbosity/checkpoint settings, from YAML or keywords, in fresh "
    "interpreters with another hash seed and other contents of fresh memory, re-using the logged seed of an unseeded "
    "run) and the per-step state digests are compared; distinct and non-trivial: a "
    "distinct end state digest whose bed has changed"
)
PHASES = [
    {"name": "jit", "mode": "jit", "workers": 7,
     "budget": {"quick": 30, "thorough": 900}, "min": {"quick": 8},
     "require": {"rerun": 40, "seed_state": 50, "figures": 3}},
    {"name": "memory", "mode": "nojit", "workers": 6,
     "budget": {"quick": 12, "thorough": 300}, "min": {"quick": 4},
     "require": {"poisoned": 8}},
    {"name": "fresh", "mode": "plain", "workers": 1, "timeout": {"quick": 400,
     "thorough": 1200}, "require": {"fresh_process": 2}},
]
GRID = ("Length", "Width", "dx", "L0_meters", "N0_meters")
SEEDS = [0, 1, 2**32 - 1, 2**31]


def cases_jit(tier, seed):
    rng = util.subrng(seed, "C01", tier)
    n = 20 if tier == "quick" else 800
    out = []
    for i in range(n):
        c = util.gen_config(rng, "tiny" if i % 3 else "small")
        if i < len(SEEDS):
            c["seed"] = SEEDS[i]
        out.append({"cfg": c, "steps": 4, "rs": int(rng.randint(2**31 - 1))})
    return out


def cases_memory(tier, seed):
    rng = util.subrng(seed, "C01m", tier)
    return [{"cfg": util.gen_config(rng, "tiny", Np_water=20, Np_sed=24), "steps": 2}
            for _ in range(12 if tier == "quick" else 300)]


def run_memory(case, res):
    """What fresh memory happens to hold never matters: numpy's uninitialised arrays are
    given different contents in each run (the compiled kernels get the same treatment from
    the C library's allocator in the fresh processes)."""
    real, like = np.empty, np.empty_like
    got = []
    for fill in (None, 0xA5, 0x7F):
        def poison(a):
            if fill is not None and a.dtype != object and a.size:
                res.n("poisoned_arrays")
                a.view("u1" if a.flags.c_contiguous else a.dtype)[...] = \
                    fill if a.flags.c_contiguous else 0
            return a

        def empty(*a, **k):
            x = real(*a, **k)
            return poison(x) if x.ndim else x

        def empty_like(*a, **k):
            x = like(*a, **k)
            return poison(x) if x.ndim else x

        np.empty, np.empty_like = empty, empty_like
        try:
            got.append(trace(case["cfg"], case["steps"])[0])
        finally:
            np.empty, np.empty_like = real, like
        res.n("poisoned")
    res.sig(got[0][-1])
    res.expect(got[0] == got[1] == got[2],
               "a run depends on what uninitialised memory holds")


def cases_fresh(tier, seed):
    rng = util.subrng(seed, "C01f", tier)
    cfgs = [util.gen_config(rng, "tiny") for _ in range(8 if tier == "quick" else 60)]
    for i in range(1, len(cfgs), 2):
        cfgs[i].update({k: cfgs[i - 1][k] for k in GRID})
        while 9.81 * cfgs[i]["S0"] * cfgs[i]["dx"] / cfgs[i]["u0"] ** 2 > 0.95:
            cfgs[i]["S0"] /= 2
    # both halves of a pair run in fresh interpreters, in opposite orders
    return [{"cfgs": cfgs, "steps": 3}]


def state(m):
    more = [np.asarray(getattr(m, k, 0.0)) for k in ("Vp_dep_sand", "Vp_dep_mud", "cell_type")]
    return util.digest(m) + hashlib.md5(b"".join(
        np.ascontiguousarray(a, dtype=np.float64).tobytes() for a in more)).hexdigest()


def trace(cfg, steps, **kw):
    m = util.make(cfg, **kw)
    out = [state(m)]
    eta = m.eta.copy()
    for _ in range(steps):
        m.update()
        out.append(state(m))
    moved = float(np.abs(m.eta - eta).max())
    s = m.seed
    m.finalize()
    return out, moved, s, m


def run_jit(case, res):
    from pyDeltaRCM import DeltaModel, shared_tools

    rng = np.random.RandomState(case["rs"])
    cfg, steps = case["cfg"], case["steps"]
    ref, moved, s, m0 = trace(cfg, steps)
    res.expect(int(s) == cfg["seed"], "the seed given is not the seed used", used=s)
    if moved > 0:
        res.sig(ref[-1])

    def same(tag, got):
        res.n("rerun")
        if got != ref:
            k = [a == b for a, b in zip(got, ref)].index(False) if len(got) == len(ref) else -1
            res.fail("two runs with the same configuration and seed differ (%s)" % tag,
                     first_differing_step=k)

    # 1: after unrelated random activity and another model
    np.random.seed(int(rng.randint(2**31)))
    np.random.rand(int(rng.randint(1, 50)))
    shared_tools.set_random_seed(int(rng.randint(2**31)))
    for _ in range(int(rng.randint(1, 9))):
        shared_tools.get_random_uniform(1.0)
    other = util.gen_config(rng, "tiny")
    if rng.rand() < 0.6:    # of the same shape, everything else different
        other.update({k: cfg[k] for k in GRID})
        while 9.81 * other["S0"] * other["dx"] / other["u0"] ** 2 > 0.95:
            other["S0"] /= 2
        res.n("same_shape_before")
    trace(other, int(rng.randint(0, 3)))
    alive = util.make(util.gen_config(rng, "tiny"))   # never updated, not finalized
    same("after other activity", trace(cfg, steps)[0])
    alive.finalize()

    # 2: output and logging choices
    kw = {"verbose": int(util.pick(rng, 0, 1, 2, 2, 3, 5)), "save_checkpoint": bool(rng.rand() < 0.7),
          "save_dt": int(util.pick(rng, 0, 1, 20000, 86400)),
          "save_metadata": bool(rng.rand() < 0.5),
          "legacy_netcdf": bool(rng.rand() < 0.3)}
    for g in util.GRIDS:
        kw["save_%s_grids" % g] = bool(rng.rand() < 0.5)
        kw["save_%s_figs" % g] = bool(rng.rand() < (0.15, 0.9)[case["rs"] % 2])
    for k in ("save_discharge_components", "save_velocity_components",
              "save_figs_sequential", "clobber_netcdf"):
        kw[k] = bool(rng.rand() < 0.5)
    kw["checkpoint_dt"] = util.pick(rng, None, 1, 50000)
    if case["rs"] % 2:
        kw["save_dt"] = 1
        res.n("figures")
    sys.stdout.flush()
    import matplotlib.figure

    real = matplotlib.figure.Figure.savefig
    try:    # figures are made but, mostly, not rendered
        if case["rs"] % 8:
            matplotlib.figure.Figure.savefig = lambda *a, **k: None
        same("other output settings", trace(cfg, steps, **kw)[0])
    finally:
        matplotlib.figure.Figure.savefig = real

    # 3: the same configuration through a YAML file
    p = os.path.join(util.casedir(), "in.yml")
    with open(p, "w") as f:
        keys = list(cfg)
        rng.shuffle(keys)
        for k in keys:
            f.write("%s: %s\n" % (k, "null" if cfg[k] is None else repr(cfg[k])))
        f.write("out_dir: %s\n" % util.outdir())
    m = DeltaModel(input_file=p)
    got = [state(m)]
    for _ in range(steps):
        m.update()
        got.append(state(m))
    m.finalize()
    same("from a YAML file", got)

    # 4: monitored (all hooks overridden with observers)
    cls = util.monitored({h: (lambda *a, **k: None) for h in util.HOOKS})
    same("with observer hooks", trace(cfg, steps, cls=cls)[0])

    # 5: another seed gives another run
    if moved > 0:
        o, _, _, _ = trace(cfg, steps, seed=(cfg["seed"] + 1 + int(rng.randint(1000))) % 2**32)
        res.expect(o[-1] != ref[-1], "runs with different seeds are identical")
    # ... also when the seeds differ in a few bits only (the generator's start state
    # is a one-to-one function of a 32 bit seed)
    bit = 1 << int(rng.randint(0, 32))
    states = {}
    for sd in {cfg["seed"], cfg["seed"] ^ (1 << 31), cfg["seed"] ^ bit, cfg["seed"] ^ (1 << 16),
               (cfg["seed"] + 10 ** int(rng.randint(1, 9))) % 2**32, 0, 2**32 - 1, 2**31}:
        m = util.make(dict(cfg, seed=int(sd)))
        m.finalize()
        st = shared_tools.get_random_state()
        k = (int(st[0]), hash(tuple(st[1])))
        res.n("seed_state")
        res.expect(int(m.seed) == sd, "the seed given is not the seed used", given=sd, used=m.seed)
        res.expect(k not in states, "two different seeds start the same random stream",
                   seeds=[states.get(k), sd])
        states[k] = sd

    # 6: an unseeded run is reproducible from its seed, which is in the log
    out = util.outdir()
    a, _, s1, _ = trace(cfg, steps, seed=None, out=out)
    logs = [f for f in os.listdir(out) if f.endswith(".log")]
    txt = "".join(open(os.path.join(out, f)).read() for f in logs)
    mt = re.findall(r"[Ss]eed is: *(\d+)", txt)
    res.expect(len(mt) >= 1 and int(mt[-1]) == int(s1),
               "the random seed of an unseeded run is not in its log", found=mt, seed=s1)
    b, _, s2, _ = trace(cfg, steps, seed=None)
    res.expect(int(s1) != int(s2), "two unseeded models use the same seed", seed=s1)
    if mt:
        c = trace(cfg, steps, seed=int(mt[-1]))[0]
        res.n("rerun")
        res.expect(c == a, "an unseeded run is not reproduced by its logged seed")
    res.sample({"digest": ref[-1], "bed_moved_m": moved, "log_seed": mt[-1:]})


CHILD = r"""
import json, sys
sys.path.insert(0, sys.argv[1]); sys.path.insert(0, sys.argv[2])
import warnings; warnings.simplefilter("ignore")
import util, os
spec = json.load(open(sys.argv[3]))
util.setup(os.getcwd(), sys.argv[2]); util.new_case_dir()
from checks import c01
order = list(range(len(spec["cfgs"])))
if spec["reverse"]: order.reverse()
out = {}
for i in order:
    out[i] = c01.trace(spec["cfgs"][i], spec["steps"])[0]
json.dump(out, open(sys.argv[4], "w"))
"""


def run_fresh(case, res):
    lib = os.path.dirname(os.path.abspath(util.__file__))
    procs = []
    for k in range(2):
        d = os.path.join(util.casedir(), "p%d" % k)
        os.makedirs(d)
        spec = os.path.join(d, "spec.json")
        json.dump({"cfgs": case["cfgs"], "steps": case["steps"], "reverse": k}, open(spec, "w"))
        env = dict(os.environ)
        env.pop("NUMBA_DISABLE_JIT", None)
        env["NUMBA_OPT"] = "0"
        env["PYTHONHASHSEED"] = str(7 + 1000 * k)
        env["MALLOC_PERTURB_"] = str((90, 201)[k])
        env["PYTHONPATH"] = os.path.dirname(lib)
        procs.append((subprocess.Popen(
            [sys.executable, "-W", "ignore", "-c", CHILD, lib, util.REPO, spec,
             os.path.join(d, "out.json")], cwd=d, env=env,
            stderr=open(os.path.join(d, "err"), "w"), stdout=subprocess.DEVNULL), d))
    outs = []
    for p, d in procs:
        rc = p.wait()
        if rc != 0:
            err = open(os.path.join(d, "err")).read()
            if os.path.join(util.REPO, "pyDeltaRCM") in err:
                res.fail("a fresh process cannot run the model", err=err[-2000:])
                return
            raise util.Inconclusive(err[-2000:])
        outs.append(json.load(open(os.path.join(d, "out.json"))))
        res.n("fresh_process")
    for i in outs[0]:
        res.n("rerun")
        res.sig(outs[0][i][-1])
        res.expect(outs[0][i] == outs[1][i],
                   "two processes with the same configuration and seed differ",
                   cfg=case["cfgs"][int(i)])
