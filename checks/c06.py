"""Hydrodynamic state invariants at every water iteration and every update."""
import numpy as np
import util

RULE = (
    "random valid configurations (grid, inlet, forcing, numerics) x updates; the "
    "state is judged after each water iteration and after each update; an "
    "observation counts as distinct and non-trivial when the (configuration, "
    "step) state has wet, dry and moving cells and a bed that differs from the "
    "initial one"
)
PHASES = [
    {"name": "py", "mode": "nojit", "workers": 4,
     "budget": {"quick": 40, "thorough": 900}, "require": {"update": 100}},
    {"name": "jit", "mode": "jit", "workers": 6,
     "budget": {"quick": 20, "thorough": 900}, "require": {"update": 100}},
]


def cases_py(tier, seed):
    rng = util.subrng(seed, "C06py", tier)
    n = 28 if tier == "quick" else 1500
    return [{"cfg": util.gen_config(rng, "tiny"), "steps": 6} for _ in range(n)]


def cases_jit(tier, seed):
    rng = util.subrng(seed, "C06jit", tier)
    n = 40 if tier == "quick" else 3000
    out = [{"cfg": util.gen_config(rng, "small" if i % 8 else "medium"),
            "steps": 8 if i % 4 else 25} for i in range(n)]
    return [{"cfg": util.gen_config(rng, "huge", itermax=2, stepmax=None), "steps": 3}] + out


def run_py(case, res):
    H_TOL = 1e-5
    step = [0]

    def close(a, b, tol=H_TOL):
        a, b = np.asarray(a, float), np.asarray(b, float)
        return np.all(np.abs(a - b) <= tol * (1 + np.abs(a) + np.abs(b)))

    def common(m, where, sl):
        ok = True
        for k in ("eta", "stage", "depth", "qx", "qy", "qw", "ux", "uy", "uw"):
            ok &= res.expect(np.all(np.isfinite(getattr(m, k))),
                             "non-finite values in %s (%s)" % (k, where), step=step[0])
        if not ok:
            return
        st, dp, et = (np.asarray(getattr(m, k), float) for k in ("stage", "depth", "eta"))
        res.expect(np.all(st >= sl - H_TOL * (1 + abs(sl))),
                   "water surface below sea level (%s)" % where, step=step[0],
                   worst=float((st - sl).min()))
        res.expect(np.all(dp >= 0), "negative depth (%s)" % where, step=step[0])
        want = np.maximum(st - et, 0)
        res.expect(np.all(np.abs(dp - want) <= 2e-5 * (1 + np.abs(st) + np.abs(et))),
                   "depth is not max(stage - bed, 0) (%s)" % where, step=step[0],
                   worst=float(np.abs(dp - want).max()))
        res.expect(np.all(m.uw <= 2.0 * m.u0 * (1 + 1e-5)),
                   "velocity exceeds the cap of twice the inlet velocity (%s)" % where,
                   step=step[0], worst=float(m.uw.max()))
        res.expect(np.all(m.uw >= 0) and np.all(m.qw >= 0),
                   "negative velocity or discharge magnitude (%s)" % where, step=step[0])
        res.expect(close(m.qw, np.hypot(np.asarray(m.qx, float), m.qy), 1e-4),
                   "discharge magnitude is not the norm of its components (%s)" % where,
                   step=step[0])
        qw0 = m.u0 * m.h0
        res.expect(close(m.qx[0, m.inlet], qw0) and close(m.qw[0, m.inlet], qw0)
                   and np.all(m.qy[0, m.inlet] == 0),
                   "inlet discharge is not the configured one (%s)" % where, step=step[0])

    def after_iter(m, where):
        res.n("iteration")
        common(m, where, m.H_SL)
        dry = np.asarray(m.depth) <= min(0.1, 0.1 * m.h0) * (1 - 1e-6)
        for k in ("uw", "ux", "uy"):
            res.expect(np.all(getattr(m, k)[dry] == 0),
                       "flow velocity in a dry cell (%s)" % where, step=step[0], field=k)
        wet = np.asarray(m.depth) > min(0.1, 0.1 * m.h0) * (1 + 1e-6)
        mv = wet & (m.qw > 0)
        want = np.minimum(2.0 * m.u0, np.asarray(m.qw, float)[mv] / m.depth[mv])
        res.expect(close(m.uw[mv], want, 1e-4),
                   "speed is not capped discharge over depth (%s)" % where, step=step[0])
        for u, q in (("ux", "qx"), ("uy", "qy")):
            w = want * np.asarray(getattr(m, q), float)[mv] / m.qw[mv]
            res.expect(np.all(np.abs(getattr(m, u)[mv] - w) <= 1e-4 * (1 + np.abs(w))),
                       "velocity is not parallel to discharge (%s)" % where,
                       step=step[0], field=u)

    first = [True]

    def pre_iter(m):
        # runs before every water iteration: from the second one on this sees
        # the state the previous iteration left behind
        if not first[0]:
            after_iter(m, "after a water iteration")
        first[0] = False

    sl = [None]
    cls = util.monitored({
        "route_water": lambda m: (first.__setitem__(0, True), sl.__setitem__(0, m.H_SL)),
        "init_water_iteration": pre_iter,
        "after_route_water": lambda m: after_iter(m, "after water routing"),
    })
    m = util.make(case["cfg"], cls)
    eta0 = m.eta.copy()
    for s in range(case["steps"]):
        step[0] = s
        m.update()
        res.n("update")
        common(m, "after update", sl[0])
        res.expect(close(m.depth[0, m.inlet], m.h0),
                   "inlet depth is not the configured one", step=s)
        res.expect(close(m.stage[0, m.inlet] - m.eta[0, m.inlet], m.h0, 1e-4),
                   "inlet bed is not stage minus inlet depth", step=s)
        if (m.uw > 0).any() and (m.depth <= m.dry_depth).any() and \
                np.abs(m.eta - eta0).max() > 1e-3:
            res.sig(case["cfg"]["seed"], s)
    res.sample({"steps": case["steps"], "eta_range": [m.eta.min(), m.eta.max()],
                "max_speed": m.uw.max(), "wet_cells": int((m.depth > m.dry_depth).sum())})
    m.finalize()


run_jit = run_py
