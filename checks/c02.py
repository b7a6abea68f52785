"""A run interrupted and resumed from its checkpoint equals the unbroken run."""
import glob
import os
import shutil

import numpy as np
import util

RULE = (
    "random configuration x output settings x interruption points (one or several "
    "resumes, checkpoints less frequent than steps, resume into the same or another "
    "folder, subclass with its own saved variables); the resumed state is compared "
    "after loading and after every further update, and the output file record by "
    "record, with an unbroken run; distinct and non-trivial: a distinct (run, "
    "interruption) whose bed changed after the resume"
)
PHASES = [
    {"name": "jit", "mode": "jit", "workers": 7,
     "budget": {"quick": 35, "thorough": 1200}, "min": {"quick": 20},
     "require": {"resume": 20, "nc_compared": 10, "step_after_resume": 40, "long": 1}},
]
SAVED = ("eta", "stage", "depth", "qx", "qy", "qw", "ux", "uy", "uw", "sand_frac",
         "active_layer")


def cases_jit(tier, seed):
    rng = util.subrng(seed, "C02", tier)
    n = 60 if tier == "quick" else 2500
    out = []
    for i in range(n):
        c = util.gen_config(rng, "tiny" if i % 4 else "small")
        c.update({
            "SLR": float(util.pick(rng, 0.0, 1e-6, 1e-5, 3.33e-7)),
            "save_eta_grids": bool(rng.rand() < 0.7),
            "save_metadata": bool(rng.rand() < 0.5),
            "legacy_netcdf": bool(rng.rand() < 0.25),
            "save_discharge_components": bool(rng.rand() < 0.3),
            "save_velocity_components": bool(rng.rand() < 0.3),
        })
        for g in util.GRIDS[1:]:
            c["save_%s_grids" % g] = bool(rng.rand() < 0.25)
        if i % 10 == 0:
            c["save_eta_figs"] = True
        if i % 20 == 10:    # figures and nothing else
            for g in [q for q in c if q.endswith(("_grids", "_components"))] + ["save_metadata"]:
                c[g] = False
        if i % 7 == 0:
            c["seed"] = None
        N = int(rng.randint(4, 10))
        out.append({
            "cfg": c, "N": N,
            "save_every": float(util.pick(rng, 0.2, 0.999, 1.0, 1.5, 2.0, 2.7)),
            "ckpt_every": util.pick(rng, None, None, 0.5, 1.0, 2.0, 2.5),
            "cuts": sorted(set(int(x) for x in rng.randint(1, N, size=rng.randint(1, 4)))),
            "mode": util.pick(rng, "same", "same", "same", "other"),
            "sub": bool(rng.rand() < 0.4),
            "step": util.pick(rng, None, None, 0, 1, 2), "long": 0,
        })
        if i % 12 == 5:     # a long history
            N = int(rng.randint(40, 120))
            out[-1].update(long=1, N=N, step=util.pick(rng, None, 20), cuts=sorted(set(
                int(x) for x in rng.randint(10, N, size=rng.randint(1, 5)))))
    return out


def model_class(sub, step=None, long=0):
    from pyDeltaRCM import DeltaModel

    if long:
        DeltaModel = util.eventful()

    class Base(DeltaModel):
        """Sea level jumps once, in a hook of one time step."""

        def hook_finalize_timestep(self):
            if int(self.time_iter) == step:
                self.sea_surface_mean_elevation = float(self.H_SL) + 0.21

    if step is None:
        Base = DeltaModel
    if not sub:
        return Base

    class Custom(Base):
        """Saves a variable and metadata of its own, as the documentation shows."""

        big = 2**40 + 1

        def hook_init_output_file(self):
            self._save_var_list["twobed"] = ["twobed", "furlong", "f4", self._netcdf_coords]
            self._save_var_list["fine"] = ["fine", "rod", "f8", self._netcdf_coords]
            self._save_var_list["level"] = ["level", "count", "i4", self._netcdf_coords]
            self._save_var_list["meta"]["ctime"] = [None, "fortnight", "f4",
                                                    self._netcdf_coords[0]]
            self._save_var_list["meta"]["wtime"] = [None, "fortnight", "f8",
                                                    self._netcdf_coords[0]]
            self._save_var_list["meta"]["big"] = ["big", "count", "i8", ()]

        def hook_output_data(self):
            self.twobed = self.eta * 2
            self.fine = self.eta.astype(float) / 3.0
            self.level = (2**30 + self.eta * 1e5).astype("i4")
            self.wtime = self.time / 3.0
            self.ctime = self.time / 10.0

    return Custom


def run_jit(case, res):
    from pyDeltaRCM import shared_tools

    cfg = dict(case["cfg"])
    probe = util.make(cfg)
    dt = probe.dt
    if cfg["seed"] is None:
        # both runs continue from the same unseeded start: use the drawn seed for
        # the unbroken run, none for the interrupted one
        pass
    probe.finalize()
    cfg["save_dt"] = int(case["save_every"] * dt)
    cfg["checkpoint_dt"] = None if case["ckpt_every"] is None else int(case["ckpt_every"] * dt)
    cls = model_class(case["sub"], case["step"], case["long"])
    res.n("long", case["long"])
    if case["step"] is not None and case["step"] < case["cuts"][-1]:
        res.n("sea_level_set")
    N = case["N"]
    out1 = util.outdir()
    m = util.make(cfg, cls, out=out1, save_checkpoint=True)
    # interrupted run first (its drawn seed is then given to the unbroken run)
    used_seed = int(m.seed)
    cuts = list(case["cuts"])
    snaps = {}

    def record(mm, store):
        store[int(mm.time_iter)] = (util.snap(mm, *(SAVED + ("qs",))), float(mm.time),
                                    float(mm.H_SL))

    parts = []  # (model state after load, {iter: state}, start_iter, out)
    cur = {}
    record(m, cur)
    prevout = out1
    resumed_at = []
    loaded = []
    log = [cur]
    outs = [out1]
    for cut in cuts + [N]:
        while m.time_iter < cut:
            m.update()
            record(m, log[-1])
        m.finalize()
        if cut == N:
            break
        util.close_loggers()
        # other random activity between the two halves
        shared_tools.set_random_seed(4711)
        kw = {"save_checkpoint": True}
        if case["mode"] == "other" and cut == cuts[-1]:
            newout = util.outdir()
            kw["resume_checkpoint"] = prevout
        else:
            newout = prevout
            kw["resume_checkpoint"] = True
        m = util.make(cfg, cls, out=newout, **kw)
        prevout = newout
        outs.append(newout)
        res.n("resume")
        resumed_at.append(int(m.time_iter))
        loaded.append((util.snap(m, *SAVED), float(m.time), float(m.H_SL), int(m.time_iter)))
        log.append({})
    # the unbroken run
    out2 = util.outdir()
    ref_m = util.make(dict(cfg, seed=used_seed), cls, out=out2, save_checkpoint=True)
    ref = {}
    record(ref_m, ref)
    wait = cfg["checkpoint_dt"] if cfg["checkpoint_dt"] is not None else cfg["save_dt"]
    since, due = 0.0, 0
    while ref_m.time_iter < N:
        ref_m.update()
        record(ref_m, ref)
        since += ref_m.dt
        if since >= wait:
            since, due = 0.0, int(ref_m.time_iter)
        with np.load(os.path.join(out2, "checkpoint.npz"), allow_pickle=True) as ck:
            at = int(ck["time_iter"])
        res.n("checkpoint_due")
        res.expect(at == due, "the checkpoint is not that of the last time one was due",
                   step=int(ref_m.time_iter), checkpoint=at, due=due, interval=wait, dt=dt)
    ref_m.finalize()

    def same(a, b, names):
        return [k for k in names if not (a[k].dtype == b[k].dtype and a[k].shape == b[k].shape
                                         and np.array_equal(a[k], b[k]))]

    for st, t, sl, it in loaded:
        if not res.expect(it in ref, "resumed at a step the unbroken run never had", it=it):
            return
        r = ref[it]
        bad = same(st, r[0], SAVED)
        res.expect(not bad, "state after loading the checkpoint differs from the state "
                   "at that step", step=it, fields=bad)
        res.expect(t == r[1] and sl == r[2], "time or sea level not restored exactly",
                   step=it, got=[t, sl], want=list(r[1:]))
    for part in log:
        for it, (st, t, sl) in part.items():
            res.n("step_after_resume")
            r = ref[it]
            bad = same(st, r[0], SAVED + ("qs",))
            res.expect(not bad, "resumed run diverges from the unbroken run", step=it,
                       fields=bad, resumed_at=resumed_at)
            res.expect(t == r[1] and sl == r[2],
                       "time or sea level of the resumed run differs", step=it)
    # the checkpoints must not lag behind their schedule
    cdt = cfg["checkpoint_dt"] if cfg["checkpoint_dt"] is not None else cfg["save_dt"]
    for cut, it in zip(cuts, resumed_at):
        res.expect((cut - it) * dt < cdt + dt * 1e-9 + 1e-6 or cut == it,
                   "checkpoint is older than the checkpoint interval", cut=cut,
                   resumed=it, checkpoint_dt=cdt, dt=dt)
    # output files
    f1, f2 = (os.path.join(o, "pyDeltaRCM_output.nc") for o in (outs[-1], out2))
    res.expect(os.path.exists(f1) == os.path.exists(f2),
               "output file exists for only one of the two runs")
    if os.path.exists(f1) and os.path.exists(f2):
        a, b = util.read_nc(f1), util.read_nc(f2)
        res.n("nc_compared")
        tdim = b["time"][2]
        shift = 0
        if case["mode"] == "other":
            # a new file: it starts with the first record due after the resume
            t0 = ref[resumed_at[-1]][1]
            # (float32 storage)
            shift = int(np.sum(b["time"][0] <= np.float32(t0)))
        none_due = shift >= len(b["time"][0])  # the new file holds no record yet
        res.expect(set(a) == set(b), "output variables differ after resuming",
                   only_one=sorted(set(a) ^ set(b)))
        for k in sorted(set(a) & set(b)):
            if k == "__attrs__":
                at, bt = dict(a[k][0]), dict(b[k][0])
                at.pop("history", None), bt.pop("history", None)
                res.expect(at == bt, "file attributes differ after resuming", got=str(at))
                continue
            x, y = a[k], b[k]
            yv = y[0]
            if tdim and y[2] and y[2][0] == tdim[0]:
                if none_due:
                    continue
                yv = yv[shift:]
            ok = x[0].shape == yv.shape and np.array_equal(x[0], yv, equal_nan=False)
            if not ok and x[0].shape == yv.shape and k.startswith("meta/"):
                ok = np.array_equal(np.nan_to_num(x[0]), np.nan_to_num(yv))
            res.expect(ok, "output records differ after resuming", var=k,
                       shapes=[list(x[0].shape), list(yv.shape)])
            res.expect(x[1] == y[1] and x[2] == y[2],
                       "units or dimensions of an output variable changed by resuming",
                       var=k, got=[x[1], x[2]], want=[y[1], y[2]])
    if case["mode"] != "other":
        p1 = sorted(os.path.basename(p) for p in glob.glob(os.path.join(outs[-1], "*.png")))
        p2 = sorted(os.path.basename(p) for p in glob.glob(os.path.join(out2, "*.png")))
        res.expect(p1 == p2, "figure files differ after resuming", got=p1, want=p2)
        for p in set(p1) & set(p2):
            with open(os.path.join(outs[-1], p), "rb") as x, open(os.path.join(out2, p), "rb") as y:
                res.expect(x.read() == y.read(), "a figure differs after resuming", figure=p)
            res.n("figure_compared")
    last = resumed_at[-1]
    if last < N and np.abs(ref[N][0]["eta"] - ref[last][0]["eta"]).max() > 0:
        res.sig(used_seed, tuple(cuts), N, case["mode"])
    res.sample({"cuts": cuts, "resumed_at": resumed_at, "N": N, "mode": case["mode"],
                "nc": os.path.exists(f1)})
