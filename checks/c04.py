"""What is written to the output file and figures, and when."""
import os
import re

import numpy as np
import util

RULE = (
    "random configuration x which grids/figures/metadata are enabled x save interval "
    "(zero, below, equal to, above and far above the time step) x legacy or current "
    "layout; every record of the file is compared with the state observed when it was "
    "due; distinct and non-trivial: (run, record) with at least one grid whose values "
    "changed since the previous record"
)
PHASES = [
    {"name": "py", "mode": "nojit", "workers": 7,
     "budget": {"quick": 45, "thorough": 1200}, "min": {"quick": 30},
     "require": {"record": 200, "grid_compared": 400, "figure": 30,
                 "changed_live": 20, "custom": 5, "long": 3}},
]
VARS = {  # documented output: name -> (attribute, units)
    "eta": ("eta", "meters"), "stage": ("stage", "meters"), "depth": ("depth", "meters"),
    "discharge": ("qw", "cubic meters per second"),
    "velocity": ("uw", "meters per second"),
    "sedflux": ("qs", "cubic meters per second"), "sandfrac": ("sand_frac", "fraction"),
}
COMP = {
    "save_discharge_components": {"discharge_x": ("qx", "cubic meters per second"),
                                  "discharge_y": ("qy", "cubic meters per second")},
    "save_velocity_components": {"velocity_x": ("ux", "meters per second"),
                                 "velocity_y": ("uy", "meters per second")},
}
META0 = {"L0": "L0", "N0": "N0", "CTR": "CTR", "dx": "dx", "h0": "h0", "hb": "hb",
         "cell_type": "cell_type"}
METAT = ("H_SL", "f_bedload", "C0_percent", "u0")


def cases_py(tier, seed):
    rng = util.subrng(seed, "C04", tier)
    out = []
    for i in range(110 if tier == "quick" else 2500):
        c = util.gen_config(rng, "tiny", Np_water=5, Np_sed=6, f_bedload=0.5,
                            SLR=float(util.pick(rng, 0.0, 1e-6)))
        p = [0.0, 0.3, 0.6, 1.0][i % 4]
        for g in util.GRIDS:
            c["save_%s_grids" % g] = bool(rng.rand() < p)
        for k in COMP:
            c[k] = bool(rng.rand() < 0.3)
        if i % 5 == 1:   # exactly one kind of output
            for g in util.GRIDS:
                c["save_%s_grids" % g] = False
            for k in COMP:
                c[k] = False
            one = util.pick(rng, *(["save_%s_grids" % g for g in util.GRIDS] + list(COMP)))
            c[one] = True
        c["save_metadata"] = bool(rng.rand() < 0.4)
        c["legacy_netcdf"] = bool(rng.rand() < 0.3)
        figs = i % 3 == 0
        for g in util.FIGS:
            c["save_%s_figs" % g] = bool(figs and rng.rand() < 0.4)
        c["save_figs_sequential"] = bool(rng.rand() < 0.6)
        out.append({"cfg": c, "steps": int(rng.randint(3, 9)), "every":
                    util.pick(rng, 0.0, 0.3, 0.9999, 1.0, 1.01, 1.5, 2.0, 2.3, 3.7, 1e4),
                    "chg": [[int(rng.randint(0, 5)), util.pick(
                        rng, "SLR", "time_step", "C0", "u0", "bedload", "hsl", "width")]
                        for _ in range(rng.randint(0, 3))],
                    "long": 0, "custom": bool(any(c["save_%s_grids" % g] for g in util.GRIDS)
                                   and rng.rand() < 0.4)})
        if i % 13 == 3:     # a long history of records
            o = out[-1]
            o.update(long=1, steps=int(rng.randint(60, 140)) if tier == "quick" else
                     int(rng.randint(100, 1500)), custom=False,
                     every=util.pick(rng, 0.0, 0.3, 1.0, 1.5, 2.3, 3.7, 7.1))
            if rng.rand() < 0.5:
                c["save_%s_grids" % util.pick(rng, *util.GRIDS)] = True
            one = util.pick(rng, *util.FIGS)
            for g in util.FIGS:
                c["save_%s_figs" % g] = bool(g == one and i % 26 == 3)
    return out


def change(m, what):
    """Change something on the live model: what is saved later must follow."""
    if what == "SLR":
        m.SLR = 2e-6
    elif what == "time_step":
        m.time_step = m.dt * 0.61
    elif what == "C0":
        m.influx_sediment_concentration = m.C0_percent / 100.0 * 1.7
    elif what == "u0":
        m.channel_flow_velocity = m.u0 * 1.2
    elif what == "bedload":
        m.bedload_fraction = 0.25 if m.f_bedload > 0.4 else 0.75
    elif what == "hsl":
        m.sea_surface_mean_elevation = m.H_SL + 0.05


CUSTOM = {"twice": ("twice_eta", "bananas"), "active": ("active_layer", "fraction")}


class Custom(object):
    """The documented way to save more than the built-in quantities."""

    @property
    def twice_eta(self):
        return self.eta * 2

    def hook_init_output_file(self):
        for k, (a, u) in CUSTOM.items():
            self._save_var_list[k] = [a, u, "f4", self._netcdf_coords]
        self._save_fig_list["actfig"] = ["active_layer"]
        self._save_var_list["meta"]["myconst"] = ["my_const", "apples", "i8", ()]
        self._save_var_list["meta"]["myvar"] = [None, "pears", "f4", (self._netcdf_coords[0])]

    my_const = 17

    @property
    def myvar(self):
        return self.time_iter * 0.5


def run_py(case, res):
    import matplotlib.figure

    cfg = dict(case["cfg"])
    probe = util.make(dict(cfg))
    dt = float(probe.dt)
    probe.finalize()
    cfg["save_dt"] = int(case["every"] * dt)
    snaps, figs = [], []
    names = sorted({v[0] for v in VARS.values()} |
                   {a for d in COMP.values() for a, _ in d.values()} | {"active_layer"})
    ref = {"since": float("inf")}
    due = []

    def at_output(m):
        # reference schedule: a record is due when the model time elapsed since the
        # previous record reaches the interval; the initial state is always saved
        if m.time_iter > 0:
            ref["since"] += float(m.dt)
        if ref["since"] >= cfg["save_dt"]:
            due.append(int(m.time_iter))
            ref["since"] = 0.0
            s = util.snap(m, *names)
            s["time"] = float(m.time)
            for k in METAT:
                s[k] = float(getattr(m, k))
            s["twice_eta"] = m.eta * 2
            s["myvar"] = m.time_iter * 0.5
            snaps.append(s)
            figs.append([])

    cls = util.monitored({"output_data": at_output},
                         base=util.eventful() if case["long"] else None)
    res.n("long", case["long"])
    custom = case.get("custom")
    if custom:
        cls = type("C", (Custom, cls), {})
    orig = matplotlib.figure.Figure.savefig

    def fake(self, path, *a, **k):
        arrs = [np.ma.filled(np.ma.asarray(c.get_array()).astype(float), np.nan).reshape(-1)
                for ax in self.axes[:1] for c in ax.collections]
        ttl = self.axes[0].get_title() if self.axes else ""
        view = None
        if arrs:
            ax = self.axes[0]
            xy = np.asarray(ax.collections[0].get_coordinates())
            view = (xy, ax.get_xlim(), ax.get_ylim())
        figs[-1].append((str(path), arrs[0] if arrs else None, ttl, view))
        open(path, "wb").write(b"png")

    matplotlib.figure.Figure.savefig = fake
    try:
        m = util.make(cfg, cls)
        out = m.out_dir
        L, W, dx = m.L, m.W, m.dx
        sigma0 = np.array(getattr(m, "sigma", 0))
        start0 = m.start_subsidence
        meta0 = {k: np.array(getattr(m, v)) for k, v in META0.items()}
        for s in range(case["steps"]):
            for at, what in case["chg"]:
                if at == s:
                    change(m, what)
                    res.n("changed_live")
            m.update()
            if s == case["steps"] // 2:
                # what was due so far is in the file already, the run being alive
                live = os.path.join(out, "pyDeltaRCM_output.nc")
                if os.path.exists(live):
                    import shutil

                    cp = os.path.join(util.casedir(), "live.nc")
                    shutil.copy(live, cp)
                    try:
                        n_live = len(util.read_nc(cp)["time"][0])
                    except OSError:
                        n_live = -1
                    res.n("live_read")
                    res.expect(n_live == len(snaps), "the file of a run under way does not "
                               "hold the records due so far", records=n_live, due=len(snaps))
        m.finalize()
    finally:
        matplotlib.figure.Figure.savefig = orig
    want = {}
    for g, v in VARS.items():
        if cfg["save_%s_grids" % g]:
            want[g] = v
    for k, d in COMP.items():
        if cfg[k]:
            want.update(d)
    expect_nc = bool(want) or cfg["save_metadata"]
    if custom and want:   # custom grids go along with built-in ones
        want.update(CUSTOM)
        res.n("custom")
    path = os.path.join(out, "pyDeltaRCM_output.nc")
    res.expect(os.path.exists(path) == expect_nc,
               "output file exists although nothing was to be saved, or is missing",
               exists=os.path.exists(path))
    if expect_nc and os.path.exists(path):
        nc = util.read_nc(path)
        dims = ("total_time", "length", "width") if cfg["legacy_netcdf"] else ("time", "x", "y")
        t = nc["time"][0]
        res.expect(nc["time"][2] == dims[:1] and nc["time"][1] == "second",
                   "time coordinate has the wrong dimension or units", got=str(nc["time"][1:]))
        if res.expect(len(t) == len(snaps), "number of records is not the number due",
                      records=len(t), due=due, save_dt=cfg["save_dt"], dt=dt):
            res.expect(util.close(t, [s["time"] for s in snaps], rtol=1e-6),
                       "record times are not the model times", got=t.tolist())
        got = {k for k, v in nc.items() if k != "__attrs__" and "/" not in k} - {"time", "x", "y"}
        res.expect(got == set(want), "saved variables are not the ones enabled",
                   got=sorted(got), want=sorted(want))
        if cfg["legacy_netcdf"]:
            xs, ys = np.meshgrid(np.arange(W), np.arange(L))
            ok = np.array_equal(nc["x"][0], xs) and np.array_equal(nc["y"][0], ys)
        else:
            ok = util.close(nc["x"][0], np.arange(L) * dx) and \
                util.close(nc["y"][0], np.arange(W) * dx)
        res.expect(ok, "coordinate arrays are wrong")
        res.expect(nc["x"][1] == "meter" and nc["y"][1] == "meter",
                   "coordinates have the wrong units", got=[nc["x"][1], nc["y"][1]])
        for k in sorted(got & set(want)):
            arr, units, dd = nc[k]
            res.expect(dd == dims and units == want[k][1],
                       "saved variable has the wrong dimensions or units", var=k,
                       got=[list(dd), units])
            for i in range(min(len(arr), len(snaps))):
                res.n("grid_compared")
                if not np.array_equal(arr[i], snaps[i][want[k][0]].astype("f4")):
                    res.fail("a saved grid is not the model state at that time", var=k,
                             record=i)
                if i and not np.array_equal(arr[i], arr[i - 1]):
                    res.sig(cfg["seed"], i)
        # metadata goes along with any grid
        for k, v in meta0.items():
            if res.expect("meta/" + k in nc, "metadata variable missing", var=k):
                res.expect(np.array_equal(np.asarray(nc["meta/" + k][0], "f4"),
                                          np.asarray(v, "f4")),
                           "metadata value is wrong", var=k)
        for k in METAT:
            if res.expect("meta/" + k in nc, "metadata variable missing", var=k):
                g = nc["meta/" + k][0]
                w = np.array([s[k] for s in snaps], "f4")
                res.expect(g.shape == w.shape and util.close(g, w, rtol=1e-6, atol=0),
                           "time-varying metadata is not the value at the record time",
                           var=k, got=g.tolist(), want=w.tolist())
        if cfg["toggle_subsidence"]:
            res.expect("meta/sigma" in nc and "meta/start_subsidence" in nc,
                       "subsidence metadata missing")
            if "meta/sigma" in nc:
                res.n("sigma")
                res.expect(util.close(nc["meta/sigma"][0], sigma0, rtol=1e-6),
                           "subsidence metadata is not the model's subsidence per step")
                res.expect(int(nc["meta/start_subsidence"][0]) == int(start0),
                           "subsidence start in the metadata is wrong")
        if custom:
            if res.expect("meta/myconst" in nc and "meta/myvar" in nc,
                          "custom metadata missing"):
                res.expect(int(nc["meta/myconst"][0]) == 17, "custom constant is wrong")
                g = nc["meta/myvar"][0]
                w = np.array([s["myvar"] for s in snaps], "f4")
                res.expect(g.shape == w.shape and util.close(g, w),
                           "custom metadata is not the value at the record time")
        un = {"L0": "cells", "N0": "cells", "CTR": "cells", "dx": "meters", "h0": "meters",
              "hb": "meters", "cell_type": "type", "H_SL": "meters", "f_bedload": "fraction",
              "C0_percent": "percent", "u0": "meters per second"}
        for k, u in un.items():
            if "meta/" + k in nc:
                res.expect(nc["meta/" + k][1] == u, "metadata units are wrong", var=k,
                           got=nc["meta/" + k][1])
        res.n("record", len(t))
    # figures
    enabled = {g: VARS[g][0] for g in util.FIGS if cfg["save_%s_figs" % g]}
    if custom:
        enabled["actfig"] = "active_layer"
    for i, fl in enumerate(figs):
        seen = {}
        for p, arr, ttl, view in fl:
            res.expect(str(snaps[i]["time"]) in ttl, "figure is labelled with another time",
                       title=ttl, time=snaps[i]["time"])
            if view is not None and view[0].shape == (L + 1, W + 1, 2):
                xy, xl, yl = view
                res.n("view")
                res.expect(util.close(xy[..., 0], np.arange(W + 1)[None, :] * dx + np.zeros((L + 1, 1)))
                           and util.close(xy[..., 1], np.arange(L + 1)[:, None] * dx
                                          + np.zeros((1, W + 1))),
                           "cells of a figure are not where they are in the domain")
                res.expect(abs(xl[0]) < dx and abs(xl[1] - W * dx) < dx and
                           abs(yl[0]) < dx and abs(yl[1] - L * dx) < dx,
                           "a figure does not show the whole domain", xlim=xl, ylim=yl)
            seen[os.path.basename(p)] = arr
            res.n("figure")
            res.expect(os.path.dirname(os.path.abspath(p)) == os.path.abspath(out),
                       "figure written outside the output directory", path=p)
        tag = str(i).zfill(5) if cfg["save_figs_sequential"] else "latest"
        exp = {"%s_%s.png" % (g, tag): a for g, a in enabled.items()}
        if res.expect(set(seen) == set(exp), "figures saved are not the ones enabled and due",
                      got=sorted(seen), want=sorted(exp), record=i):
            for f, a in exp.items():
                if seen[f] is not None:
                    res.expect(np.array_equal(seen[f], snaps[i][a].reshape(-1).astype(float)),
                               "figure does not show the model state", fig=f)
    res.sample({"due_steps": due, "save_dt": cfg["save_dt"], "dt": dt,
                "variables": sorted(want), "figures": sorted(enabled)})
