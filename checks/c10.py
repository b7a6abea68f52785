"""Deposition and erosion at every cell a parcel visits, against the documented laws."""
import numpy as np
import sedtrace
import util

RULE = (
    "random configurations, beds, velocities, fluxes and erosion modifiers x updates; "
    "sampled parcels are followed step by step and the bed change of each step is "
    "compared with the law evaluated on the fields just before it; distinct and "
    "non-trivial: (run, parcel, step) with a non-zero predicted change"
)
PHASES = [
    {"name": "jit", "mode": "jit", "workers": 7,
     "budget": {"quick": 20, "thorough": 1200}, "min": {"quick": 20},
     "require": {"visit": 3000, "sand_dep": 300, "sand_ero": 100, "mud_dep": 300,
                 "mud_ero": 100, "quarter": 100, "none": 300}},
]
ASSUMPTIONS = [
    "a visit within 1e-4 (flux) or 1e-5 (velocity) of a threshold is not judged",
    "when a step leaves no trace, every cell it can have reached is considered",
]


def cases_jit(tier, seed):
    rng = util.subrng(seed, "C10", tier)
    out = []
    for i in range(60 if tier == "quick" else 4000):
        c = util.gen_config(rng, "tiny" if i % 4 else "small")
        c["Np_sed"] = int(util.pick(rng, 8, 20, 40))
        c["f_bedload"] = float(util.pick(rng, 0.25, 0.5, 0.75))
        if i % 12 == 7:
            c["Np_sed"] = int(util.pick(rng, 300, 517))
        c["beta"] = int(util.pick(rng, 3, 3, 2, 1, 4))
        c["sed_lag"] = float(util.pick(rng, 1.0, 0.5, 0.2))
        out.append({"cfg": c, "steps": 3, "shock": util.pick(rng, None, "bumps", "shoal"),
                    "stir": bool(i % 2), "rs": int(rng.randint(2**31 - 1))})
    return out


class Judge(object):
    def __init__(self, res, rs):
        self.res, self.rs = res, rs

    def whole(self, kind, m, pairs, same_rng, n):
        """A parcel changes the bed by the same laws alone and among others."""
        if n < 2 or not same_rng:       # other paths: judged by C11
            return
        self.res.n("whole")
        bad = [k for k in ("eta", "Vp_dep_sand", "Vp_dep_mud", "qs") if k in pairs and
               not np.array_equal(*pairs[k], equal_nan=True)]
        self.res.expect(not bad, "%s parcels change the bed by other laws among others than "
                        "alone" % kind, fields=bad, parcels=n)

    def step(self, m, ev):
        if ev.ended:
            return set()
        pairs = sedtrace.consistent(m, ev)
        if not pairs:
            return set()            # not a legal step: judged by C11
        pairs = sedtrace.prune(m, ev, pairs)
        if len(pairs) > 12:
            return set()
        verdicts = []
        for p, n, d in pairs:
            verdicts.append(self.law(m, ev, n))
        res = self.res
        if any(v[0] is None for v in verdicts):
            res.n("borderline")
        else:
            ok = any(v[0] for v in verdicts)
            res.n("visit")
            if len(pairs) == 1:
                v = verdicts[0]
                res.n(v[1])
                if v[2]:
                    res.n("quarter")
                if v[1] != "none":
                    res.sig(self.rs, int(m.time_iter), ev.kind, ev.parcel, ev.k)
            if not ok:
                v = verdicts[0]
                res.fail("the bed change of a %s parcel's visit is not the one of the "
                         "documented law (%s)" % (ev.kind, v[1]), step=ev.k, **v[3])
        return {n for _, n, _ in pairs}

    def law(self, m, ev, n):
        """(holds or None if borderline, what the law says, limited?, detail)"""
        b, a = ev.before, ev.after
        dx2 = float(m.dx) ** 2
        U = float(b["uw"][n])
        dep = float(b["stage"][n]) - float(b["eta"][n])
        cap4 = abs(dep) / 4 * dx2
        beta = float(m.beta)
        vp = float(m.Vp_sed)
        u0 = float(m.u0)
        mod = float(m.mod_erosion[n])
        dV, what, lim = 0.0, "none", False
        if ev.kind == "sand":
            q = float(a["qs"][n])
            qs0 = u0 * float(m.h0) * float(m.C0_percent) / 100.0
            cap = qs0 * float(m.f_bedload) * (U / u0) ** beta
            Ue = float(m.coeff_U_ero_sand) * u0
            if abs(q - cap) <= 1e-4 * max(cap, q):
                return None, what, lim, {}
            if q > cap:
                what = "sand_dep"
                full = ev.load
                dV = min(full, cap4 if dep > 0 else 0.0)
                lim = dV < full
            else:
                if abs(U - Ue) <= 1e-5 * Ue:
                    return None, what, lim, {}
                if U > Ue:
                    what = "sand_ero"
                    full = mod * vp * ((U / Ue) ** beta - 1)
                    dV = -min(full, cap4)
                    lim = -dV < full
        else:
            Ud, Ue = float(m.coeff_U_dep_mud) * u0, float(m.coeff_U_ero_mud) * u0
            if min(abs(U - Ud) / Ud, abs(U - Ue) / Ue) <= 1e-5:
                return None, what, lim, {}
            if U > Ue:
                what = "mud_ero"
                full = mod * vp * ((U / Ue) ** beta - 1)
                dV = -min(full, cap4)
                lim = -dV < full
            elif U < Ud:
                what = "mud_dep"
                full = float(m.sed_lag) * ev.load * (1 - (U / Ud) ** beta)
                dV = min(full, cap4 if dep > 0 else 0.0)
                lim = dV < full
        d = float(a["eta"][n]) - float(b["eta"][n])
        tol = 2e-4 * abs(dV) / dx2 + (ev.load_err + 1e-6 * vp) / dx2 + 6e-7 * (
            abs(float(b["eta"][n])) + abs(float(b["stage"][n])))
        ok = abs(d - dV / dx2) <= tol
        # the deposit is recorded, as the right material, and nothing else is
        for mat in ("sand", "mud"):
            v = "Vp_dep_" + mat
            got = float(a[v][n]) - float(b[v][n])
            want = max(dV, 0.0) if mat == ev.kind else 0.0
            ok &= abs(got - want) <= tol * dx2 + 4e-7 * abs(float(a[v][n]))
        return bool(ok), what, lim, {
            "U": U, "load": ev.load, "depth": dep, "bed_change": d, "law": dV / dx2,
            "tol": tol, "limited": bool(lim), "vp": vp, "kind": ev.kind}


def stir_fields(m, rng):
    """Local flow states a subclass may set through a hook: all speeds, some flux."""
    u = np.where(rng.rand(*m.eta.shape) < 0.5, rng.uniform(0, 2, m.eta.shape),
                 rng.uniform(0.2, 1.8, (1, 1)) * np.ones(m.eta.shape)) * m.u0
    live = m.depth > m.dry_depth
    m.uw[live] = u[live].astype("f4")
    m.mod_erosion[:] = rng.uniform(0, 2, m.eta.shape)
    if rng.rand() < 0.5:
        m.qs[:] = (rng.uniform(0, 3, m.eta.shape) * m.qs0 * (rng.rand() < 0.7)).astype("f4")


def drive(case, res, judge, nparcels, kmax):
    from checks import c07

    rng = np.random.RandomState(case["rs"])

    def real(r):
        while isinstance(r, sedtrace.Probe):
            r = r.__dict__["_p"][0]
        return r

    def install(m, kind, *a):
        name = sedtrace.where(m, kind)
        setattr(m, name, sedtrace.Probe(real(getattr(m, name)), kind, m, *a))

    def sand(m):
        if case["stir"]:
            stir_fields(m, rng)
        install(m, "sand",  judge, nparcels, kmax, rng)

    def mud(m):
        if case["stir"] and rng.rand() < 0.7:
            stir_fields(m, rng)
        install(m, "mud",  judge, nparcels, kmax, rng)

    def shock(m):
        if case["shock"] and rng.rand() < 0.7:
            c07.shock_bed(m, case["shock"], rng)
        if case["shock"] and rng.rand() < 0.3:
            sel = (m.cell_type >= 0) & (rng.rand(*m.eta.shape) < 0.1)
            m.eta[sel] = m.stage[sel] + 0.3     # bed above the water surface

    cls = util.monitored({"route_all_sand_parcels": sand, "route_all_mud_parcels": mud,
                          "init_sediment_iteration": shock})
    m = util.make(case["cfg"], cls)
    for _ in range(case["steps"]):
        m.update()
        res.n("update")
    m.finalize()
    return m


def run_jit(case, res):
    m = drive(case, res, Judge(res, case["rs"]), 4, 45)
    res.sample({"cfg_seed": case["cfg"]["seed"], "steps": int(m.time_iter),
                "counts": dict(res.counts)})
