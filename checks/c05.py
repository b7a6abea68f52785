"""Model time, step length, sea level and subsidence bookkeeping."""
import numpy as np
import util

RULE = (
    "random configuration (sea-level rates of both signs, subsidence with start times "
    "before, at and after step boundaries, time step changed mid-run) x updates; each "
    "update is an observation; distinct and non-trivial: (run, update) with a changing "
    "sea level or with subsidence applied"
)
PHASES = [
    {"name": "py", "mode": "nojit", "workers": 4,
     "budget": {"quick": 35, "thorough": 900}, "min": {"quick": 20},
     "require": {"update": 200, "subsided": 50, "not_subsided": 50, "changed_by_hook": 5}},
    {"name": "jit", "mode": "jit", "workers": 4,
     "budget": {"quick": 20, "thorough": 900}, "min": {"quick": 10},
     "require": {"update": 200, "subsided": 50}},
    {"name": "long", "mode": "nojit", "workers": 4,
     "budget": {"quick": 12, "thorough": 600}, "min": {"quick": 4},
     "require": {"update": 1200, "subsided": 300}},
]


def _cases(tier, seed, tag, n, size, lo, hi):
    rng = util.subrng(seed, "C05", tag, tier)
    out = []
    for i in range(n):
        c = util.gen_config(rng, size, toggle_subsidence=bool(i % 4),
                            subsidence_rate=float(util.pick(rng, 2e-9, 1e-7, 1e-6, 1e-5, -1e-7)),
                            SLR=float(util.pick(rng, 0.0, 1e-7, -1e-7, 1e-6, 1e-5)))
        out.append({"cfg": c, "steps": int(rng.randint(lo, hi)),
                    "start": util.pick(rng, 0.0, 0.5, 1.0, 1.0, 2.0, 2.0, 3.5, 3.0),
                    "how": util.pick(rng, "int", "float", "exact"),
                    "hookdt": util.pick(rng, None, 0.5, 3.0),
                    "setdt": util.pick(rng, None, None, 0.5, 2.0, 0.1),
                    "setsl": util.pick(rng, None, None, None, 0.25),
                    "setrate": util.pick(rng, None, None, 3e-6)})
    return out


def cases_py(tier, seed):
    return _cases(tier, seed, "py", 40 if tier == "quick" else 1500, "tiny", 4, 8)


def cases_jit(tier, seed):
    return _cases(tier, seed, "jit", 40 if tier == "quick" else 3000, "small", 5, 30)


def cases_long(tier, seed):
    """Many steps: the time of the step is what counts, not what moves the bed."""
    out = _cases(tier, seed, "long", 8 if tier == "quick" else 200, "tiny", 300,
                 700 if tier == "quick" else 4000)
    rng = util.subrng(seed, "C05", "start", tier)
    for c in out:
        c["long"] = 1
        c["start"] = float(util.pick(rng, 0.0, 17.0, 100.0, 213.5))
    return out


def run_py(case, res):
    cfg = dict(case["cfg"])
    probe = util.make(cfg)
    dt0 = float(probe.dt)
    probe.finalize()
    # dt from first principles (documented reference volume over supply)
    dx = float(cfg["dx"])
    W = int(round(cfg["Width"] / dx))
    N0 = max(3, min(int(round(cfg["N0_meters"] / dx)), W // 4))
    want = 0.1 * N0 ** 2 * cfg["h0"] * dx ** 2 / (
        cfg["u0"] * cfg["h0"] * N0 * dx * cfg["C0_percent"] / 100.0)
    res.expect(abs(dt0 - want) <= 1e-6 * want,
               "time step is not the sediment volume per step over the sediment supply",
               got=dt0, want=want)
    start = case["start"] * dt0
    cfg["start_subsidence"] = int(start) if case["how"] == "int" else float(start)
    st = {}

    def pre_sub(m):
        st["eta"] = m.eta.copy()

    def post_sub(m):
        deta = (m.eta.astype(float) - st["eta"].astype(float))
        on = bool(cfg["toggle_subsidence"]) and float(m.time) >= cfg["start_subsidence"]
        exp = np.zeros(m.eta.shape)
        if on:
            exp[m.L0:, :] = -cfg["subsidence_rate"] * float(m.dt)
        tol = 2e-6 * (np.abs(st["eta"]).max() + 1)
        res.n("subsided" if on else "not_subsided")
        res.expect(np.abs(deta - exp).max() <= tol,
                   "bed change by subsidence is not rate x time step beyond the inlet, "
                   "from the start time on", time=float(m.time), on=on,
                   start=cfg["start_subsidence"], worst=float(np.abs(deta - exp).max()),
                   expected=float(exp.min()))
        st["on"] = on
        st["mid"] = m.eta.copy()

    def after_fin(m):
        # nothing but the inlet row moves the bed while the step is finalised
        d = np.abs(m.eta.astype(float) - st["mid"])
        d[0, m.inlet] = 0
        res.expect(d.max() == 0, "the bed moves while the step is finalised",
                   worst=float(d.max()))
        res.expect(float(m.time) == st["t_begin"], "time moves before the step is complete")

    def begin(m):
        # what the hook before the step changes applies to the whole step
        if case["hookdt"] and int(m.time_iter) == 1:
            m.influx_sediment_concentration = cfg["C0_percent"] / 100.0 / case["hookdt"]

    cls = util.monitored({"solve_water_and_sediment_timestep": begin, "apply_subsidence": pre_sub, "finalize_timestep": post_sub,
                          "after_finalize_timestep": after_fin},
                         base=util.eventful() if case.get("long") else None)
    m = util.make(cfg, cls)
    res.expect(float(m.time) == 0.0 and int(m.time_iter) == 0, "a new model is not at time 0")
    res.expect(float(m.H_SL) == float(cfg["H_SL"]), "initial sea level is not the configured one")
    t, sl, dt, slr = 0.0, float(cfg["H_SL"]), dt0, float(cfg["SLR"])
    for s in range(case["steps"]):
        if s == 2 and case["setdt"]:
            dt = dt0 * case["setdt"]
            m.time_step = dt
            res.expect(abs(float(m.dt) - dt) <= 1e-9 * dt, "time step cannot be set")
        if s == 3 and case["setsl"] is not None:
            sl = sl + case["setsl"]
            m.sea_surface_mean_elevation = sl
        if s == 3 and case["setrate"] is not None:
            slr = case["setrate"]
            m.sea_surface_elevation_change = slr
        st["t_begin"] = float(m.time)
        if s == 1 and case["hookdt"]:
            dt = dt * case["hookdt"]
            res.n("changed_by_hook")
        m.update()
        t, sl = t + dt, sl + slr * dt
        res.n("update")
        res.expect(abs(float(m.time) - t) <= 1e-9 * (1 + t),
                   "model time is not the sum of the time steps", step=s,
                   got=float(m.time), want=t)
        res.expect(int(m.time_iter) == s + 1, "step counter is wrong", got=int(m.time_iter))
        res.expect(abs(float(m.H_SL) - sl) <= 1e-9 * (1 + abs(sl)) + 1e-6 * abs(slr * t),
                   "sea level is not the initial level plus rate x time", step=s,
                   got=float(m.H_SL), want=sl)
        if slr or st.get("on"):
            res.sig(cfg["seed"], s)
    res.sample({"dt": dt0, "steps": case["steps"], "start": cfg["start_subsidence"],
                "final_time": t, "final_sea_level": sl})
    m.finalize()


run_jit = run_long = run_py
