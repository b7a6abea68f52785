"""Parameters changed on a live model."""
import os
import warnings

import numpy as np
import util
from checks.c15 import TABLE

RULE = (
    "random run x moment x parameter set through the model's public properties; the live "
    "model is compared, update by update, with a model built with the new value and "
    "resumed from the live one's checkpoint; derived quantities, read-back, rejected "
    "values and output switches are checked directly; distinct and non-trivial: "
    "(run, parameter) whose later states differ from those without the change"
)
PHASES = [
    {"name": "jit", "mode": "jit", "workers": 7,
     "budget": {"quick": 25, "thorough": 1200}, "min": {"quick": 24},
     "require": {"compared": 60, "effective": 20, "derived": 20, "rejected": 60,
                 "readback": 100}},
    {"name": "figs", "mode": "nojit", "workers": 3,
     "budget": {"quick": 25, "thorough": 600}, "min": {"quick": 8},
     "require": {"fig_toggle": 20, "schedule": 4}},
    {"name": "grids", "mode": "nojit", "workers": 5,
     "budget": {"quick": 20, "thorough": 600}, "min": {"quick": 10},
     "require": {"grid_toggle": 80, "grid_records": 200, "in_file": 60}},
]
NAMED = ["channel_flow_velocity", "channel_flow_depth", "influx_sediment_concentration",
         "bedload_fraction", "sea_surface_elevation_change", "sea_surface_mean_elevation"]
PLAIN = ["omega_sfc", "omega_flow", "Csmooth", "Nsmooth", "active_layer_thickness",
         "sand_frac_bc", "start_subsidence"]


PARAMETERS = list(TABLE)


def cases_jit(tier, seed):
    rng = util.subrng(seed, "C22", tier)
    out = []
    names = NAMED * 3 + PLAIN + ["channel_width"] * 2
    for i in range(50 if tier == "quick" else 2500):
        c = util.gen_config(rng, "tiny", S0=0.00005, dx=25.0)
        L, W = rng.randint(10, 15), rng.randint(16, 26)
        c.update(Length=25.0 * L, Width=25.0 * W, N0_meters=25.0 * rng.randint(3, 6),
                 L0_meters=25.0 * rng.randint(1, 4))
        if c["active_layer_thickness"] is None:
            c["active_layer_thickness"] = c["h0"] / 2
        if c["hb"] is None:
            c["hb"] = c["h0"]
        c["f_bedload"] = float(util.pick(rng, 0.25, 0.5, 0.75))
        c["Np_sed"] = 40
        name, factor = names[i % len(names)], float(util.pick(rng, 0.5, 2.0))
        if name == "channel_flow_depth" and rng.rand() < 0.5:
            # across one metre, where the depth of a dry cell starts to follow the inlet's
            c.update(h0=1.5 if factor < 1 else 0.75, hb=c["hb"] if rng.rand() < 0.5 else None,
                     active_layer_thickness=0.5)
            if c["hb"] is None:
                c["hb"] = c["h0"]
        then = None     # a second one, set on top of the first
        if name != "channel_width" and rng.rand() < 0.4:
            then = str(util.pick(rng, *[q for q in NAMED[:5] if q != name]))
        out.append({"cfg": c, "name": name, "k": int(rng.randint(0, 4)),
                    "n": 3, "factor": factor, "then": then,
                    "rs": int(rng.randint(2**31 - 1))})
    return out


def derived(m, res, u0, h0, C0, N0m):
    """Documented dependents of the inlet parameters, from the parameters alone."""
    N0 = max(3, min(int(round(N0m / m.dx)), m.W // 4))
    V0 = h0 * m.dx ** 2
    want = {
        "u0": u0, "h0": h0, "C0_percent": C0, "N0": N0, "V0": V0,
        "Qw0": u0 * h0 * N0 * m.dx, "qw0": u0 * h0, "qs0": u0 * h0 * C0 / 100,
        "u_max": 2 * u0, "dVs": 0.1 * N0 ** 2 * V0,
        "Vp_sed": 0.1 * N0 ** 2 * V0 / m.Np_sed,
        "Qp_water": u0 * h0 * N0 * m.dx / m.Np_water,
        "Qs0": u0 * h0 * N0 * m.dx * C0 / 100,
        "dt": 0.1 * N0 ** 2 * V0 / (u0 * h0 * N0 * m.dx * C0 / 100),
        "time_step": 0.1 * N0 ** 2 * V0 / (u0 * h0 * N0 * m.dx * C0 / 100),
        "dry_depth": min(0.1, 0.1 * h0), "gamma": 9.81 * m.S0 * m.dx / u0 ** 2,
        "channel_flow_velocity": u0, "channel_flow_depth": h0, "channel_width": N0 * m.dx,
    }
    for k, v in want.items():
        g = float(getattr(m, k))
        res.expect(abs(g - v) <= 1e-9 * (1 + abs(v)) or abs(g - v) <= 1e-9 * abs(v),
                   "a quantity that depends on a parameter is not updated when it is set",
                   quantity=k, got=g, want=v)
    res.n("derived")
    dm = m.dt / m.N_crossdiff * m.alpha * 0.5 / m.dx ** 2
    res.expect(abs(m.diffusion_multiplier - dm) <= 1e-9 * dm + 1e-300 and
               abs(m.N_crossdiff - 0.1 * N0 ** 2) <= 0.5 + 1e-9,
               "diffusion per step is not updated when a parameter is set")
    if m.toggle_subsidence:
        w = m.subsidence_rate * m.dt
        res.expect(abs(np.abs(m.sigma).max() - abs(w)) <= 1e-9 * abs(w),
                   "subsidence per step does not follow the time step",
                   got=float(np.abs(m.sigma).max()), want=w)


def set_one(a, name, cfg, f, now, b_over, before, state, rng, res):
    """Set one parameter of the live model; check it reads back, and what follows from it."""
    changed, new, over = set(), None, {}
    with warnings.catch_warnings(record=True) as wl:
        warnings.simplefilter("always")
        if name == "channel_flow_velocity":
            now["u0"] = new = cfg["u0"] * f
            changed, over = {"u0"}, {"u0": new}
            for q in ("coeff_U_dep_mud", "coeff_U_ero_mud", "coeff_U_ero_sand"):
                over[q] = cfg[q] / f
        elif name == "channel_flow_depth":
            now["h0"] = new = cfg["h0"] * f
            changed, over = {"h0"}, {"h0": new}
        elif name == "influx_sediment_concentration":
            new = cfg["C0_percent"] * f / 100.0
            now["C0_percent"] = new * 100
            changed, over = {"C0_percent"}, {"C0_percent": new * 100}
        elif name == "bedload_fraction":
            new = float(util.pick(rng, 0.3, 0.5, 0.8))
            changed, over = {"f_bedload"}, {"f_bedload": new}
        elif name == "sea_surface_elevation_change":
            new = float(util.pick(rng, 1e-6, -1e-6, 1e-5))
            changed, over = {"SLR"}, {"SLR": new}
        elif name == "sea_surface_mean_elevation":
            new = float(a.H_SL) + float(util.pick(rng, -0.5, 0.25, 1.0))
            changed = {"H_SL"}
        elif name == "channel_width":
            changed = {"N0_meters"}
            new = 25.0 * rng.randint(2, 8) + float(util.pick(rng, 0.0, 0.25, 5.0, -0.5))
            now["N0_meters"] = new
        elif name in ("omega_sfc", "omega_flow", "Csmooth", "sand_frac_bc"):
            new = float(util.pick(rng, 0.2, 0.35, 0.8))
        elif name == "Nsmooth":
            new = int(util.pick(rng, 0, 2, 7))
        elif name == "active_layer_thickness":
            new = float(util.pick(rng, 0.0, 0.1, 3.0))
        elif name == "start_subsidence":
            new = float(a.time + a.dt * 1.5)
        if name in PLAIN:
            changed, over = {name}, {name: new}
        setattr(a, name, new)
    b_over.update(over)
    got = getattr(a, name)
    if name == "influx_sediment_concentration":
        res.expect(abs(float(a.C0) - new) <= 1e-12, "concentration set is not the one used")
        res.n("concentration_read")
        if abs(got - 100 * new) <= 1e-9 * new:
            res.fail("influx_sediment_concentration is set as a fraction and read in percent",
                     set=new, read=got)
        else:
            res.expect(abs(got - new) <= 1e-12, "the concentration read is not the one set",
                       set=new, read=got)
    elif name == "channel_width":
        n0 = max(3, min(int(round(new / a.dx)), a.W // 4)) * a.dx
        res.expect(abs(got - n0) <= 1e-9, "channel width is not the settable width closest to "
                   "the one given", got=got, want=n0)
        warned = any("idth" in str(w.message) for w in wl)
        res.expect(warned == (n0 != new), "changed channel width without (or with needless) "
                   "warning", given=new, used=n0)
    else:
        res.expect(got == new, "a parameter set on a live model is not the one given",
                   name=name, got=got, want=new)
    for q, v in before.items():
        if q in changed:
            before[q] = getattr(a, q)
        else:
            res.expect(getattr(a, q) == v, "setting one parameter changes another",
                       set=name, changed=q)
    for q, v in state.items():
        res.expect(np.array_equal(getattr(a, q), v), "setting a parameter changes a field",
                   set=name, field=q)
    if name in NAMED or name == "channel_width":
        derived(a, res, now["u0"], now["h0"], now["C0_percent"], now["N0_meters"])
    return new


def run_jit(case, res):
    rng = np.random.RandomState(case["rs"])
    cfg, name, k = case["cfg"], case["name"], case["k"]
    a = util.make(cfg, save_checkpoint=True, checkpoint_dt=1, save_dt=10**12)
    for _ in range(k):
        a.update()
    folder = a.out_dir
    before = {q: getattr(a, q) for q in ("u0", "h0", "C0_percent", "f_bedload", "SLR",
              "H_SL", "omega_sfc", "omega_flow", "Csmooth", "Nsmooth", "S0", "Np_sed",
              "Np_water", "itermax", "beta", "alpha", "dx", "Length", "Width", "theta_water",
              "sed_lag", "subsidence_rate", "time", "time_iter")}
    before.update({q: getattr(a, q) for q in PARAMETERS})
    state = util.snap(a, *[s for s in util.STATE])
    f, b_over = case["factor"], {}
    now = {q: cfg[q] for q in ("u0", "h0", "C0_percent", "N0_meters")}
    for name in [case["name"]] + ([case["then"]] if case["then"] else []):
        new = set_one(a, name, cfg, f, now, b_over, before, state, rng, res)
    name = case["name"]
    if name == "channel_width":
        a.update()
        res.expect(np.all(np.isfinite(a.eta)), "non-finite bed after setting the width")
        a.finalize()
        return reject(cfg, res)
    if case["then"]:
        res.n("two_set")
    level = case["name"] == "sea_surface_mean_elevation"
    if level:
        new = float(a.H_SL)
    # a copy of the checkpoint: the live run goes on and would replace it
    import shutil

    from pyDeltaRCM import shared_tools

    folder_b, folder_c = util.outdir(), util.outdir()
    shutil.copytree(folder, folder_b)
    shutil.copytree(folder, folder_c)
    da = []
    for _ in range(case["n"]):
        a.update()
        da.append(util.digest(a))
    a.finalize()
    if level:
        # the other model takes the sea level from its checkpoint
        res.expect(abs(float(a.H_SL) - (new + case["n"] * a.SLR * a.dt)) <= 1e-9 * (1 + abs(new)),
                   "sea level set on a live model is not the one it goes on from",
                   got=float(a.H_SL), set=new)
        f_npz = os.path.join(folder_b, "checkpoint.npz")
        with np.load(f_npz, allow_pickle=True) as z:
            held = {q: z[q] for q in z.files}
        held["H_SL"] = np.array(new)
        np.savez_compressed(f_npz, **held)
    b = util.make({**cfg, **b_over}, out_dir=folder_b, resume_checkpoint=True)
    db = []
    for _ in range(case["n"]):
        b.update()
        db.append(util.digest(b))
    b.finalize()
    c = util.make(cfg, out_dir=folder_c, resume_checkpoint=True)
    dc = []
    for _ in range(case["n"]):
        c.update()
        dc.append(util.digest(c))
    c.finalize()
    res.n("compared", len(da))
    res.n("effective", da[-1] != dc[-1])
    if da[-1] != dc[-1]:
        res.sig(case["rs"], name)
    first = next((i for i, (x, y) in enumerate(zip(da, db)) if x != y), None)
    res.expect(first is None, "a model in which a parameter is set does not run like one built "
               "with that value", parameter=name, after_updates=first, value=new)
    res.sample({"parameter": name, "value": new, "k": k, "effective": da[-1] != dc[-1]})
    reject(cfg, res)


BAD = {"Length": [0.0, -1.0], "Width": [0.0, -5.0], "dx": [0.0, -1.0, 1e9],
       "L0_meters": [-1.0], "itermax": [-1], "Np_water": [0, -3], "N0_meters": [0.0, -2.0],
       "Np_sed": [0, -1], "f_bedload": [-0.01, 1.01],
       "active_layer_thickness": [-0.1], "C0_percent": [-0.1], "Csmooth": [-0.5]}
GOOD = {"verbose": 2, "S0": 0.0003, "u0": 1.25, "h0": 3.0, "hb": 4.0, "H_SL": -0.25,
        "SLR": 1e-7, "Np_sed": 11, "Np_water": 12, "itermax": 5, "beta": 4,
        "theta_water": 0.7, "coeff_theta_sand": 1.5, "coeff_theta_mud": 0.75,
        "sed_lag": 0.4, "coeff_U_dep_mud": 0.2, "coeff_U_ero_mud": 1.4,
        "coeff_U_ero_sand": 1.2, "alpha": 0.2, "stepmax": 77, "save_dt": 123.0,
        "checkpoint_dt": 456.0, "save_checkpoint": True, "toggle_subsidence": False,
        "subsidence_rate": 3e-9, "omega_sfc": 0.3, "omega_flow": 0.6, "Nsmooth": 2,
        "Csmooth": 0.45, "C0_percent": 0.2, "f_bedload": 0.0, "seed": 5,
        "L0_meters": 0.0, "clobber_netcdf": True, "legacy_netcdf": True,
        "save_figs_sequential": False, "save_metadata": True}


def reject(cfg, res):
    m = util.make(cfg)
    for k, vals in BAD.items():
        old = getattr(m, k)
        for v in vals:
            res.n("rejected")
            try:
                setattr(m, k, v)
                res.fail("an invalid value is accepted", parameter=k, value=v)
            except ValueError:
                pass
            res.expect(getattr(m, k) == old, "a rejected value changes the parameter",
                       parameter=k, value=v)
    for k, v in GOOD.items():
        res.n("readback")
        others = {q: getattr(m, q) for q in GOOD if q != k}
        setattr(m, k, v)
        res.expect(getattr(m, k) == v, "a parameter does not read back as set", parameter=k,
                   got=getattr(m, k), want=v)
        ch = [q for q, o in others.items() if getattr(m, q) != o]
        res.expect(not ch, "setting one parameter changes another", set=k, changed=ch)


def cases_figs(tier, seed):
    rng = util.subrng(seed, "C22f", tier)
    out = []
    for i in range(20 if tier == "quick" else 400):
        c = util.gen_config(rng, "tiny", Np_water=5, Np_sed=6, f_bedload=0.5, itermax=1)
        c["save_dt"] = 1
        c["save_figs_sequential"] = True
        on = [g for g in util.FIGS if rng.rand() < 0.4]
        flips = [[g for g in util.FIGS if rng.rand() < 0.4] for _ in range(3)]
        out.append({"cfg": c, "on": on, "flips": flips, "every": int(rng.randint(2, 4))})
    return out


def run_figs(case, res):
    cfg = dict(case["cfg"])
    for g in util.FIGS:
        cfg["save_%s_figs" % g] = g in case["on"]
    m = util.make(cfg)
    # figures are recorded instead of rendered
    wrote = []

    def save_figure(fig, directory, filename_root, save_iter, **kw):
        import matplotlib.pyplot as plt

        plt.close(fig)
        wrote.append(filename_root.rstrip("_"))

    m.save_figure = save_figure
    on = set(case["on"])
    for fl in case["flips"]:
        for g in fl:
            on ^= {g}
            setattr(m, "save_%s_figs" % g, g in on)
            res.expect(getattr(m, "save_%s_figs" % g) == (g in on),
                       "figure switch does not read back")
            res.n("fig_toggle")
        wrote.clear()
        m.update()
        res.expect(sorted(wrote) == sorted(on), "figures written are not the ones switched on",
                   got=sorted(wrote), want=sorted(on))
        res.sig(m.seed, tuple(sorted(on)))
    m.finalize()
    # the save interval, changed during the run
    cfg = dict(case["cfg"], save_eta_grids=True, save_dt=1)
    m = util.make(cfg)
    m.update()
    n0 = int(m.save_iter)
    m.save_dt = float(m.dt) * (case["every"] - 0.5)
    for _ in range(2 * case["every"]):
        m.update()
    m.finalize()
    res.n("schedule")
    res.expect(int(m.save_iter) - n0 == 2, "a changed save interval is not obeyed",
               saved=int(m.save_iter) - n0, want=2)
    t = util.read_nc(os.path.join(m.prefix, "pyDeltaRCM_output.nc"))["time"][0]
    res.expect(len(t) == int(m.save_iter), "records do not match the saves")


SWITCH = {"save_%s_grids" % g: [g] for g in util.GRIDS}
SWITCH["save_discharge_components"] = ["discharge_x", "discharge_y"]
SWITCH["save_velocity_components"] = ["velocity_x", "velocity_y"]
FIELD = {"eta": "eta", "stage": "stage", "depth": "depth", "discharge": "qw",
         "velocity": "uw", "sedflux": "qs", "sandfrac": "sand_frac", "discharge_x": "qx",
         "discharge_y": "qy", "velocity_x": "ux", "velocity_y": "uy"}


def cases_grids(tier, seed):
    rng = util.subrng(seed, "C22g", tier)
    out = []
    for i in range(24 if tier == "quick" else 600):
        c = util.gen_config(rng, "tiny", Np_water=5, Np_sed=6, f_bedload=0.5, itermax=1)
        c["save_dt"] = 1
        c["legacy_netcdf"] = bool(i % 3 == 0)
        out.append({"cfg": c, "on": [k for k in SWITCH if rng.rand() < 0.6] or ["save_eta_grids"],
                    "before": [k for k in SWITCH if rng.rand() < 0.4],
                    "flips": [[k for k in SWITCH if rng.rand() < 0.4] for _ in range(4)]})
    return out


def run_grids(case, res):
    """Grid switches: set before the file is made, and off and on again while running."""
    cfg = dict(case["cfg"])
    for k in SWITCH:
        cfg[k] = k in case["on"]
    m = util.make(cfg, defer_output=True)
    on = set(case["on"])

    def flip(k):
        on.symmetric_difference_update({k})
        setattr(m, k, k in on)
        res.expect(getattr(m, k) == (k in on), "grid switch does not read back", switch=k)
        res.n("grid_toggle")

    for k in case["before"]:
        flip(k)
    m.init_output_file()
    m.output_data()
    there = set(on)
    names = {v for k in there for v in SWITCH[k]}
    want = [{v: np.array(getattr(m, FIELD[v])) for v in names}]
    for fl in case["flips"]:
        for k in fl:
            if k in there:      # a grid not in the file cannot be added to it
                flip(k)
        m.update()
        live = {v for k in on for v in SWITCH[k]}
        want.append({v: np.array(getattr(m, FIELD[v])) for v in live})
    m.finalize()
    nc = util.read_nc(os.path.join(m.prefix, "pyDeltaRCM_output.nc"))
    got = {k for k in nc if "/" not in k and k not in ("time", "x", "y", "__attrs__")}
    res.n("in_file", len(got))
    res.expect(got == names, "the file does not hold the grids switched on when it was made",
               got=sorted(got), want=sorted(names))
    for v in got & names:
        d = nc[v][0]
        for i, w in enumerate(want):
            res.n("grid_records")
            rec = d[i] if i < len(d) else None
            if v in w:
                res.expect(rec is not None and np.array_equal(rec, w[v].astype("f4")),
                           "a grid switched on is not saved", grid=v, record=i)
            else:
                res.expect(rec is None or np.all(np.abs(rec) > 1e36),
                           "a grid switched off is saved", grid=v, record=i)
    res.sig(tuple(sorted(on)), tuple(sorted(there)))
