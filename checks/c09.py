"""Sediment mass conservation: what enters is deposited or leaves."""
import numpy as np
import sedtrace
import util

RULE = (
    "random configurations and beds x updates; every parcel is routed through the "
    "model's own router one at a time, and the bed volume change it causes is balanced "
    "against what it carried in and still carries at its end; over a whole sand pass "
    "the balance is also closed from public fields only (flux arriving at the domain "
    "edge); distinct and non-trivial: a parcel that changed the bed"
)
PHASES = [
    {"name": "jit", "mode": "jit", "workers": 7,
     "budget": {"quick": 30, "thorough": 1200}, "min": {"quick": 20},
     "require": {"parcel": 3000, "sand_balance": 40, "input": 100, "emerged": 300,
                 "together": 40}},
]


def cases_jit(tier, seed):
    rng = util.subrng(seed, "C09", tier)
    out = []
    for i in range(70 if tier == "quick" else 3000):
        c = util.gen_config(rng, "tiny" if i % 3 else "small")
        c["Np_sed"] = int(util.pick(rng, 5, 10, 21, 40, 64, 99))
        c["f_bedload"] = float(util.pick(rng, 0.0, 0.25, 0.3, 0.5, 0.5, 0.77, 1.0))
        if i % 12 == 7:
            c["Np_sed"] = int(util.pick(rng, 300, 517))
        # half of the runs: no sediment parcel runs out of steps
        out.append({"cfg": c, "steps": 4, "long": bool(i % 2), "lift": i % 5 < 2,
                    "shock": util.pick(rng, None, "bumps", "shoal"),
                    "rs": int(rng.randint(2**31 - 1))})
    return out


class Split(object):
    """Stands in for a router: hands it its parcels one at a time."""

    def __init__(self, real, kind, m, res, log):
        object.__setattr__(self, "_r", real)
        object.__setattr__(self, "_k", (kind, m, res, log))

    def __getattr__(self, k):
        return getattr(object.__getattribute__(self, "_r"), k)

    def run(self, *a, **kw):
        from pyDeltaRCM import shared_tools as st

        call = sedtrace.Call(a, kw)
        sk = call.find_starts(None)
        starts = call[sk]
        real = object.__getattribute__(self, "_r")
        kind, m, res, log = object.__getattribute__(self, "_k")
        eta = m.eta
        if not any(v is eta for _, v in call.items()):
            raise sedtrace.Missing("router call does not receive the model's bed")
        if not hasattr(real, "Vp_res"):
            raise sedtrace.Missing("the router does not tell what a parcel still carries")
        log["n_" + kind] = len(starts)
        if len(starts) == 0:
            call.into(real)
        together = None
        if len(starts) > 1 and (len(starts) > 64 or m.time_iter % 2):
            # the same parcels in one call, on copies
            rs = st.get_random_state()
            c = call.copy()
            for k, v in call.items():
                if isinstance(v, np.ndarray) and v.ndim == 2:
                    c[k] = v.copy()
                    if v is eta:
                        ke = k
            c.into(real)
            together = (float(((c[ke].astype(float) - eta) * m.dx ** 2).sum()),
                        st.get_random_state())
            st.set_random_state(rs)
        first = eta.astype(float)
        for i in range(len(starts)):
            before = eta.astype(float)
            arrived = float(m.qs[m.cell_type == -1].sum(dtype=float))
            call[sk] = starts[i:i + 1]
            call.into(real)
            d = (eta.astype(float) - before) * m.dx ** 2
            left = float(real.Vp_res)
            if kind == "sand" and m.qs[m.cell_type == -1].sum(dtype=float) <= arrived:
                log["not_out"] = log.get("not_out", 0) + 1
            vp = float(m.Vp_sed)
            # rounding to single precision, of the bed and of the load, at every step
            cells = np.count_nonzero(d)
            n = log["steps"]
            tol = 2e-5 * vp + n * 7e-8 * (
                (np.abs(before).max() + np.abs(d).max() / m.dx ** 2 + 1) * m.dx ** 2
                + 2 * max(vp, abs(left), np.abs(d).sum()))
            res.n("parcel")
            res.expect(abs(d.sum() + left - vp) <= tol,
                       "a %s parcel does not conserve volume" % kind, carried=vp,
                       deposited=float(d.sum()), left=left, tol=tol)
            res.expect(left >= -2e-5 * vp, "a %s parcel carries a negative volume" % kind,
                       left=left)
            log["exit_" + kind] = log.get("exit_" + kind, 0.0) + left
            if cells:
                res.sig(m.seed, m.time_iter, kind, i)
        if together is not None and together[1] == st.get_random_state():
            res.n("together")
            alone = float(((eta - first) * m.dx ** 2).sum())
            res.expect(abs(alone - together[0]) <= 2e-5 * vp * len(starts),
                       "%s parcels routed together do not leave on the bed what they lose"
                       % kind, together=together[0], alone=alone, parcels=len(starts), one=vp)


def run_jit(case, res):
    from checks import c07, c10

    rng = np.random.RandomState(case["rs"])
    cfg = case["cfg"]
    log, st = {}, {}

    def shock(m):
        if case["shock"] and rng.rand() < 0.5:
            c07.shock_bed(m, case["shock"], rng)

    def lift(m):
        """Beds above the surface in cells still wet and moving, as diffusion leaves them."""
        if case["lift"] and rng.rand() < 0.6:
            qs = m.qs.copy()
            c10.stir_fields(m, rng)
            m.qs[:] = qs
            sel = (np.asarray(m.cell_type) >= 0) & (rng.rand(*m.eta.shape) < 0.15)
            sel[0] = False
            m.eta[sel] = m.stage[sel] + (rng.uniform(0, 1, sel.sum()) * m.h0).astype("f4")
            res.n("emerged", int(sel.sum()))

    def pre_sand(m):
        lift(m)
        st["eta"] = m.eta.astype(float)
        log["steps"] = 4000 if case["long"] else int(m.stepmax)
        if case["long"]:
            keep = m.stepmax
            m.stepmax = 4000
            m.init_sediment_routers()
            m.stepmax = keep
        for kind in ("sand", "mud"):
            name = sedtrace.where(m, kind)
            setattr(m, name, Split(getattr(m, name), kind, m, res, log))

    def volume(m):
        # what is handed out per step: Np parcels of the reference volume over Np
        res.n("input")
        V = 0.1 * m.N0 ** 2 * m.h0 * m.dx ** 2
        res.expect(abs(m.Vp_sed * m.Np_sed - V) <= 1e-6 * V,
                   "the parcels do not add up to the sediment volume of a step",
                   total=float(m.Vp_sed * m.Np_sed), want=V)
        res.expect(abs(m.dt * m.u0 * m.h0 * m.N0 * m.dx * m.C0_percent / 100 - V) <= 1e-6 * V,
                   "sediment volume of a step is not concentration x discharge x time step")

    def post_sand(m):
        volume(m)
        deta = m.eta.astype(float) - st["eta"]
        dx2 = m.dx ** 2
        edge = np.asarray(m.cell_type) == -1
        ns = int(m.Np_sed * m.f_bedload)
        vp = float(m.Vp_sed)
        # deposited sand is never more than the volume supplied plus eroded
        pos = float(deta[deta > 0].sum() * dx2)
        tot = float(deta.sum() * dx2)
        tol = 1e-4 * (ns * vp + np.abs(deta).sum() * dx2) + 1e-6 * dx2 * deta.size * 1e-1
        res.expect(tot <= ns * vp + tol, "sand deposited exceeds the sand supplied",
                   net=tot, supplied=ns * vp)
        st["pos"] = pos
        out = float(np.asarray(m.qs, float)[edge].sum() * 2 * m.dt * m.dx)
        bal = float(deta[~edge].sum() * dx2) + out
        tolb = 2e-3 * (ns * vp + np.abs(deta).sum() * dx2 + out) + 1e-9
        if log.get("not_out", 0) == 0:
            res.n("sand_balance")
            res.expect(abs(bal - ns * vp) <= tolb,
                       "sand supplied is not deposited plus leaving at the edge",
                       supplied=ns * vp, deposited=bal - out, leaving=out)
        else:
            res.expect(bal <= ns * vp + tolb,
                       "more sand is deposited and leaving than is supplied",
                       supplied=ns * vp, deposited=bal - out, leaving=out)
        if "n_sand" in log:
            res.expect(log["n_sand"] == ns,
                       "number of sand parcels is not the bedload share", got=log["n_sand"],
                       want=ns, Np=m.Np_sed, f=m.f_bedload)
        dep = np.asarray(m.Vp_dep_sand, float)
        res.expect(np.all(dep >= 0), "sand deposit record is negative")
        res.expect(np.all(dep[(deta > 1e-6)] > 0),
                   "bed aggraded by sand is not recorded as sand deposit")

    def pre_mud(m):
        lift(m)
        st["eta2"] = m.eta.astype(float)

    def post_mud(m):
        deta = m.eta.astype(float) - st["eta2"]
        dx2 = m.dx ** 2
        vp = float(m.Vp_sed)
        nm = int(m.Np_sed * (1 - m.f_bedload))
        if "n_mud" in log:
            ns = log["n_sand"]
            if ns + log["n_mud"] != m.Np_sed:
                if log["n_mud"] == nm and ns + nm == m.Np_sed - 1:
                    res.fail("one sediment parcel fewer than configured is routed: both "
                             "shares are truncated", Np=m.Np_sed, f=m.f_bedload,
                             sand=ns, mud=nm)
                else:
                    res.fail("number of sediment parcels routed is not the configured one",
                             Np=m.Np_sed, sand=ns, mud=log["n_mud"], f=m.f_bedload)
        tot = float(deta.sum() * dx2)
        tol = 1e-4 * (m.Np_sed * vp + np.abs(deta).sum() * dx2) + 1e-6 * dx2
        res.expect(tot <= (m.Np_sed - int(m.Np_sed * m.f_bedload)) * vp + tol,
                   "mud deposited exceeds the mud supplied", net=tot)
        dep = np.asarray(m.Vp_dep_mud, float)
        res.expect(np.all(dep >= 0), "mud deposit record is negative")
        res.expect(np.all(dep[(deta > 1e-6)] > 0),
                   "bed aggraded by mud is not recorded as mud deposit")
        if "n_mud" in log:
            for name in sedtrace.both(m):
                setattr(m, name, object.__getattribute__(getattr(m, name), "_r"))
        log.clear()

    cls = util.monitored({
        "solve_water_and_sediment_timestep": shock,
        "route_all_sand_parcels": pre_sand, "topo_diffusion": post_sand,
        "route_all_mud_parcels": pre_mud, "after_route_sediment": post_mud,
    })
    m = util.make(cfg, cls)
    for _ in range(case["steps"]):
        m.update()
    res.sample({"Np_sed": m.Np_sed, "f_bedload": m.f_bedload, "Vp": float(m.Vp_sed)})
    m.finalize()
