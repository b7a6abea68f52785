"""Routing probabilities of water and sediment parcels."""
import numpy as np
import util

RULE = (
    "random configurations with disturbed beds and random weight modifiers; water: the "
    "direction probabilities of every routable cell in every water iteration against an "
    "independent evaluation of the published rule, and the observed first steps of "
    "thousands of parcels against those probabilities; sediment: destinations of "
    "thousands of one-step parcels on randomised local fields against the rule; "
    "distinct: cells (resp. one-step experiments) with at least two possible directions"
)
PHASES = [
    {"name": "py", "mode": "nojit", "workers": 3,
     "budget": {"quick": 40, "thorough": 900}, "min": {"quick": 6},
     "require": {"cell": 1500}},
    {"name": "jit", "mode": "jit", "workers": 3,
     "budget": {"quick": 25, "thorough": 900}, "min": {"quick": 6},
     "require": {"cell": 5000, "water_chi2": 30}},
    {"name": "sed", "mode": "jit", "workers": 4,
     "budget": {"quick": 25, "thorough": 900}, "min": {"quick": 30},
     "require": {"sed_chi2": 40}},
    {"name": "walk", "mode": "jit", "workers": 6,
     "budget": {"quick": 18, "thorough": 900}, "min": {"quick": 10},
     "require": {"sed_step": 3000, "sed_scores": 20}},
    {"name": "inlet", "mode": "jit", "workers": 2,
     "budget": {"quick": 10, "thorough": 300}, "min": {"quick": 6},
     "require": {"inlet_chi2": 18}},
]
ASSUMPTIONS = [
    "frequencies are judged by a chi-square test at p < 1e-9 (and by a strict zero "
    "count where the rule gives probability zero)",
    "the directions of whole sediment walks are judged by scores with a known mean and "
    "variance under the rule, and Freedman's inequality at 1e-9",
    "cells with a neighbour within 1e-5 (relative) of the dry depth are not judged",
]
DJ = np.array([-1, -1, -1, 0, 0, 0, 1, 1, 1])   # along the flow (rows)
DI = np.array([-1, 0, 1, -1, 0, 1, -1, 0, 1])   # across (columns)
DIST = np.where((DJ != 0) & (DI != 0), np.sqrt(2.0), 1.0)
S = np.where((DJ != 0) & (DI != 0), np.sqrt(0.5), 1.0)


def cases_py(tier, seed):
    rng = util.subrng(seed, "C08py", tier)
    n = 14 if tier == "quick" else 800
    return [{"cfg": util.gen_config(rng, "tiny", itermax=2), "steps": 3,
             "rs": int(rng.randint(2**31 - 1)), "mod": bool(i % 3 == 0)} for i in range(n)]


def cases_jit(tier, seed):
    rng = util.subrng(seed, "C08jit", tier)
    n = 24 if tier == "quick" else 1500
    return [{"cfg": util.gen_config(rng, "tiny" if i % 4 else "small", itermax=2,
                                    Np_water=1500 if i % 2 else 60), "steps": 4,
             "rs": int(rng.randint(2**31 - 1)), "mod": bool(i % 3 == 0)} for i in range(n)]


def cases_sed(tier, seed):
    rng = util.subrng(seed, "C08sed", tier)
    n = 60 if tier == "quick" else 3000
    out = []
    for i in range(n):
        out.append({"rs": int(rng.randint(2**31 - 1)), "kind": ["sand", "mud"][i % 2],
                    "dry": [0.0, 0.4, 0.8, 1.0][(i // 2) % 4], "wall": bool(i % 3 == 0),
                    "theta": [float(rng.choice([0.5, 1.0, 1.5])),
                              float(rng.choice([0.5, 1.0, 2.0])),
                              float(rng.choice([0.4, 1.0, 3.0]))],
                    "still": bool(i % 11 == 10)})
    return out


def neighbours(a, i, j):
    p = np.pad(np.asarray(a, float), 1, "edge")
    return p[i:i + 3, j:j + 3].reshape(-1)


def water_ref(m, i, j, pads, drop_up):
    """Published rule for one cell; None when a threshold is too close to call."""
    n = {k: p[i:i + 3, j:j + 3].reshape(-1) for k, p in pads.items()}
    dd = m.dry_depth
    if np.any(np.abs(n["depth"] - dd) <= 1e-5 * dd):
        return None
    dry, wall = n["depth"] < dd, n["ct"] == -2
    bad = dry | wall
    bad[4] = True
    up = np.zeros(9, bool)
    if i == 0:
        up[:3] = True
    if drop_up:
        bad = bad | up
    sfc = np.maximum(0, (n["stage"][4] - n["stage"]) / DIST)
    inr = np.maximum(0, (pads["qx"][i + 1, j + 1] * DJ + pads["qy"][i + 1, j + 1] * DI) * S / DIST)
    sfc[bad] = 0
    inr[bad] = 0
    if sfc.sum() > 0:
        sfc = sfc / sfc.sum()
    if inr.sum() > 0:
        inr = inr / inr.sum()
    g = 9.81 * m.S0 * m.dx / m.u0 ** 2
    w = (g * sfc + (1 - g) * inr) * (n["depth"] * n["mod"]) ** m.theta_water
    w[4] = 0
    if w.sum() > 0:
        return w / w.sum()
    ok = ~dry & ~wall & ~up
    ok[4] = False
    if not ok.any():
        ok = ~wall & ~up
        ok[4] = False
    if not ok.any():
        return None
    return ok / ok.sum()


def run_py(case, res):
    from checks import c07

    rng = np.random.RandomState(case["rs"])
    cfg = case["cfg"]

    def shock(m):
        if rng.rand() < 0.7:
            c07.shock_bed(m, util.pick(rng, "bumps", "plug", "shoal"), rng)

    def dom(m):
        if case["mod"]:
            m.mod_water_weight[:] = rng.uniform(0.2, 2.0, m.eta.shape)

    def judge(m):
        L, W = m.eta.shape
        pads = {"depth": m.depth, "stage": m.stage, "ct": m.cell_type,
                "mod": m.mod_water_weight, "qx": m.qx, "qy": m.qy}
        pads = {k: np.pad(np.asarray(v, float), 1, "edge") for k, v in pads.items()}
        ww = getattr(m, "water_weights", None)
        refs = {}
        if ww is not None:
            ww = np.asarray(ww, float).reshape(L, W, 9)
            for i in range(L):
                for j in range(W):
                    if m.cell_type[i, j] < 0:
                        continue
                    a = water_ref(m, i, j, pads, True)
                    if a is None:
                        continue
                    res.n("cell")
                    got = ww[i, j]
                    if i == 0:
                        b = water_ref(m, i, j, pads, False)
                        ok = False
                        if got[3:].sum() > 0:
                            gn = got[3:] / got[3:].sum()
                            for r in (a, b):
                                if r is not None and r[3:].sum() > 0:
                                    ok |= np.abs(gn - r[3:] / r[3:].sum()).max() < 2e-4
                        else:
                            ok = True
                    else:
                        ok = np.abs(got - a).max() < 2e-4
                    refs[(i, j)] = a
                    if not ok:
                        res.fail("direction probabilities of a water cell differ from the "
                                 "rule", cell=[i, j], got=got.tolist(), want=a.tolist(),
                                 row0=(i == 0))
                    elif (a > 0).sum() >= 2:
                        res.sig(cfg["seed"], m.time_iter, i, j)
        walks = np.asarray(m.free_surf_walk_inds)
        if walks.shape[0] >= 1000:
            stats(m, walks, pads, res)

    cls = util.monitored({"after_create_domain": dom,
                          "solve_water_and_sediment_timestep": shock,
                          "compute_free_surface": judge})
    m = util.make(cfg, cls)
    for _ in range(case["steps"]):
        m.update()
    res.sample({"theta": m.theta_water, "gamma": float(m.gamma), "steps": case["steps"]})
    m.finalize()


def chi2_p(obs, p):
    from scipy import stats as ss

    n = obs.sum()
    e = n * p
    big = e >= 5
    o = np.append(obs[big], obs[~big].sum())
    ee = np.append(e[big], e[~big].sum())
    if ee[-1] < 5:
        # merge the small class into the largest one
        k = np.argmax(ee[:-1])
        o[k] += o[-1]
        ee[k] += ee[-1]
        o, ee = o[:-1], ee[:-1]
    if len(o) < 2:
        return 1.0
    x = ((o - ee) ** 2 / ee).sum()
    return ss.chi2.sf(x, len(o) - 1)


def stats(m, walks, pads, res):
    L, W = m.eta.shape
    inlet = np.asarray(m.inlet)
    cnt = np.array([(walks[:, 0] == c).sum() for c in inlet])
    res.expect(chi2_p(cnt, np.full(len(inlet), 1.0 / len(inlet))) > 1e-9,
               "water parcels do not enter uniformly over the inlet", counts=cnt.tolist())
    # steps up to the inlet length cannot have been relocated
    trans = {}
    for k in range(min(m.L0, walks.shape[1] - 1)):
        for a, b in zip(walks[:, k], walks[:, k + 1]):
            if a > 0 and b != 0:
                trans.setdefault(int(a), []).append(int(b) - int(a))
    for a, ds in trans.items():
        i, j = a // W, a % W
        if len(ds) < 150 or i == 0:
            # the first row is subject to a known finding (steps out of the domain)
            if i != 0 or len(ds) < 150:
                continue
        r = water_ref(m, i, j, pads, True)
        if r is None:
            continue
        flat = DJ * W + DI
        obs = np.array([sum(d == f for d in ds) for f in flat], float)
        other = len(ds) - obs.sum()
        res.n("water_chi2")
        if i == 0:
            r2 = water_ref(m, i, j, pads, False)
            obs[:3] = 0
            ok = False
            for q in (r, r2):
                if q is None or q[3:].sum() == 0:
                    continue
                q = np.append(np.zeros(3), q[3:] / q[3:].sum())
                ok |= chi2_p(obs, q) > 1e-9 and obs[q == 0].sum() == 0
        else:
            ok = chi2_p(obs, r) > 1e-9 and obs[r == 0].sum() == 0 and other == 0
        res.expect(ok, "water parcels do not step with the probabilities of the rule",
                   cell=[i, j], observed=obs.tolist(), want=(r * len(ds)).tolist())


run_jit = run_py


def run_sed(case, res):
    from pyDeltaRCM import DeltaModel

    rng = np.random.RandomState(case["rs"])
    kind = case["kind"]
    N = 3000
    tw, cs, cm = case["theta"]
    which = [0]

    class One(DeltaModel):
        def get_inlet_weights_sediment(self, **kw):
            w = np.zeros(len(self.inlet))
            w[which[0]] = 1
            return w

    cfg = {"Length": 600.0, "Width": 1000.0, "dx": 50.0, "L0_meters": 50.0 * rng.randint(1, 3),
           "N0_meters": 250.0, "u0": 1.0, "h0": 5.0, "Np_water": 5, "Np_sed": N,
           "itermax": 1, "f_bedload": 1.0 if kind == "sand" else 0.0, "beta": 30,
           "coeff_U_ero_sand": 1000.0, "coeff_U_ero_mud": 1000.0, "sed_lag": 1e-7,
           "theta_water": tw, "coeff_theta_sand": cs, "coeff_theta_mud": cm,
           "seed": int(rng.randint(2**31 - 1))}
    m = util.make(cfg, One)
    theta = tw * (cs if kind == "sand" else cm)
    shape = m.eta.shape
    which[0] = int(rng.randint(len(m.inlet)))
    c = int(m.inlet[which[0]])
    # local fields
    depth = rng.uniform(0.3, 6.0, shape)
    dry = rng.rand(*shape) < case["dry"]
    depth[dry] = 0.3 * m.dry_depth
    stage = rng.uniform(0, 0.3, shape)
    m.stage[:] = stage
    m.eta[:] = m.stage - depth.astype("f4")
    m.depth[:] = np.maximum(m.stage - m.eta, 0)
    if case["wall"]:
        for dj, di in ((1, -1), (1, 0), (1, 1)):
            if rng.rand() < 0.4:
                m.cell_type[dj, c + di] = -2
    m.mod_sed_weight[:] = rng.uniform(0.3, 2.0, shape)
    qx = rng.uniform(0.5, 3.0)
    qy = rng.uniform(-1, 1) * qx
    if case["still"]:
        qx = qy = 0.0
    m.qx[:], m.qy[:] = qx, qy
    if kind == "sand":
        m.qw[:] = 1e6
        m.uw[:] = m.u_max
    else:
        m.qw[:] = 0
        m.uw[:] = 0
    m.stepmax = 1
    m.init_sediment_routers()
    m.init_sediment_iteration()
    eta0 = m.eta.copy()
    d = neighbours(m.depth, 0, c)
    ct = neighbours(m.cell_type, 0, c)
    mod = neighbours(m.mod_sed_weight, 0, c)
    if kind == "sand":
        m.route_all_sand_parcels()
        cnt = np.asarray(m.qs, float) * 2 * m.dt * m.dx / m.Vp_sed
        cnt[0, c] -= 2 * N
    else:
        m.route_all_mud_parcels()
        cnt = np.asarray(m.Vp_dep_mud, float) / (1e-7 * m.Vp_sed)
    if not res.expect(np.abs(m.eta - eta0).max() < 1e-3,
                      "transport without deposition or erosion changes the bed",
                      kind=kind, worst=float(np.abs(m.eta - eta0).max())):
        return
    m.finalize()
    wall = ct == -2
    isdry = d <= m.dry_depth
    inr = np.maximum(0, (qx * DJ + qy * DI) * S / DIST)
    w = (d * mod) ** theta * inr
    w[4] = 0
    w[wall | isdry] = 0
    fallback = w.sum() == 0
    if fallback:
        w = 1 / DIST
        w[wall] = 0
        w[4] = 0
    w[:3] = 0
    if w.sum() == 0:
        return
    w = w / w.sum()
    obs = np.zeros(9)
    for k in range(3, 9):
        obs[k] = cnt[DJ[k], c + DI[k]]
        cnt[DJ[k], c + DI[k]] = 0
    obs[4] = 0
    cnt[0, c] = 0
    res.n("sed_chi2")
    res.n("sed_fallback", fallback)
    tolc = 0.02 * N
    res.expect(np.abs(cnt).max() < tolc, "sediment parcels step beyond the neighbouring cells",
               kind=kind, where=[int(x) for x in np.argwhere(np.abs(cnt) >= tolc).ravel()[:8]])
    res.expect(abs(obs.sum() - N) < tolc, "sediment parcels are missing after one step",
               kind=kind, arrived=float(obs.sum()), want=N)
    o = np.round(obs)
    res.expect(chi2_p(o, w) > 1e-9 and np.all(o[w == 0] <= 0),
               "sediment parcels do not step with the probabilities of the rule",
               kind=kind, observed=o.tolist(), want=(w * N).tolist(), fallback=bool(fallback),
               theta=theta)
    if (w > 0).sum() >= 2:
        res.sig(case["rs"])
    res.sample({"kind": kind, "observed": o.tolist(), "expected": np.round(w * N, 1).tolist()})


def cases_walk(tier, seed):
    rng = util.subrng(seed, "C08walk", tier)
    out = []
    for i in range(30 if tier == "quick" else 2000):
        c = util.gen_config(rng, "tiny" if i % 3 else "small")
        c["Np_sed"], c["f_bedload"] = 60, 0.5
        c["L0_meters"] = c["dx"] * rng.randint(1, 4)
        out.append({"cfg": c, "steps": 3, "stir": False, "mod": bool(i % 2),
                    "shock": util.pick(rng, None, "bumps", "shoal", "bumps"),
                    "rs": int(rng.randint(2**31 - 1))})
    return out


class WalkJudge(object):
    """Scores of the directions taken: zero on average where the rule is followed."""

    def __init__(self, res):
        self.res, self.acc = res, {}

    def whole(self, *a):
        pass

    def add(self, key, x, w):
        """One score: value x[d] of the direction taken against its mean under w."""
        d, v = x
        mu = float((w * v).sum())
        var = float((w * v * v).sum()) - mu * mu
        if var <= 1e-12:
            return
        a = self.acc.setdefault(key, [0.0, 0.0, 0, 0.0])
        a[3] = max(a[3], float(np.abs(v - mu)[w > 0].max()))
        a[0] += (v[d] - mu)
        a[1] += var
        a[2] += 1

    def step(self, m, ev):
        import sedtrace

        if ev.ended or len(ev.hyp) != 1:
            return set()
        p = next(iter(ev.hyp))
        L, W = m.eta.shape
        if m.cell_type[p] == -1:
            return set()
        b, a = ev.before, ev.after
        own = set()
        for n, c in ev.changed.items():
            if n != "qs":
                own |= c
        nxt = own if len(own) == 1 else set()
        # judge only where a visit to any neighbour would have shown
        rc = [(p[0] + int(DJ[d]), p[1] + int(DI[d])) for d in range(9) if d != 4]
        for n in rc:
            if not (0 <= n[0] < L and 0 <= n[1] < W) or m.cell_type[n] == -2:
                continue
            if b["depth"][n] == max(np.float32(0), b["stage"][n] - b["eta"][n]):
                return nxt
        theta = float(m.theta_water) * float(
            m.coeff_theta_sand if ev.kind == "sand" else m.coeff_theta_mud)
        w, sure = sedtrace.sed_weights(m, b, p, theta)
        if not sure or w.sum() <= 0 or len(own) != 1:
            return nxt
        n = next(iter(own))
        ds = [d for d in range(9) if d != 4 and
              (p[0] + int(DJ[d]), p[1] + int(DI[d])) == n]
        if not ds:
            return nxt
        d = ds[0]
        w = w / w.sum()
        self.res.n("sed_step")
        self.res.expect(w[d] > 0, "a sediment parcel steps where the rule gives no weight",
                        kind=ev.kind, at=list(p), to=list(n))
        place = "inlet" if p[0] < m.L0 else ("first" if p[0] == m.L0 else "basin")
        r = np.clip(p[0] + DJ, 0, L - 1)
        c = np.clip(p[1] + DI, 0, W - 1)
        dep = np.log(np.maximum(b["depth"][r, c].astype(float), 1e-3))
        mod = np.log(np.maximum(b["mod_sed_weight"][r, c].astype(float), 1e-3))
        inr = np.maximum(0, (float(b["qx"][p]) * DJ + float(b["qy"][p]) * DI) * S / DIST)
        inr = inr / max(inr.max(), 1e-30)
        for nm, v in (("depth", dep), ("weight", mod), ("inertia", inr),
                      ("along", DJ.astype(float)), ("across", DI.astype(float)),
                      ("diagonal", (DIST > 1).astype(float)), ("likely", w)):
            self.add((ev.kind, place, nm), (d, v), w)
        return nxt


def run_walk(case, res):
    import sedtrace
    from checks import c07

    rng = np.random.RandomState(case["rs"])
    judge = WalkJudge(res)

    def real(r):
        while isinstance(r, sedtrace.Probe):
            r = r.__dict__["_p"][0]
        return r

    def probe(kind):
        def f(m):
            name = sedtrace.where(m, kind)
            setattr(m, name, sedtrace.Probe(real(getattr(m, name)), kind, m, judge, 25, 14, rng))
        return f

    def dom(m):
        if case["mod"]:
            m.mod_sed_weight[:] = rng.uniform(0.2, 2.0, m.eta.shape)

    def shock(m):
        if case["shock"] and rng.rand() < 0.7:
            c07.shock_bed(m, case["shock"], rng)

    cls = util.monitored({"after_create_domain": dom, "init_sediment_iteration": shock,
                          "route_all_sand_parcels": probe("sand"),
                          "route_all_mud_parcels": probe("mud")})
    m = util.make(case["cfg"], cls)
    for _ in range(case["steps"]):
        m.update()
    m.finalize()
    z = {}
    for k, (s, v, n, c) in judge.acc.items():
        if n >= 30 and v > 3 * c * c:
            z["/".join(k)] = round(s / np.sqrt(v), 2)
            res.n("sed_scores")
            # Freedman's inequality for sums of bounded, centred increments, at 1e-9
            res.expect(s * s / 2 / (v + c * abs(s) / 3) <= 20.7, "sediment parcels prefer directions the rule "
                       "does not prefer", what="/".join(k), z=s / np.sqrt(v), steps=n)
    if z:
        res.sig(case["rs"])
    res.sample({"z_scores": z})


def cases_inlet(tier, seed):
    rng = util.subrng(seed, "C08inlet", tier)
    return [{"cfg": util.gen_config(rng, "tiny", Np_water=1500, Np_sed=3000, f_bedload=0.5,
                                    itermax=1, stepmax=4),
             "rs": int(rng.randint(2**31 - 1))} for _ in range(10 if tier == "quick" else 400)]


def run_inlet(case, res):
    """Inlet weights a subclass gives are the ones its parcels start with."""
    import sedtrace
    from pyDeltaRCM import DeltaModel

    rng = np.random.RandomState(case["rs"])
    used, seen = {}, {}

    class Weighted(DeltaModel):
        def weights(self, kind):
            w = rng.uniform(0.1, 1, len(self.inlet))
            w[int(rng.randint(len(w)))] = 0
            used[kind] = w
            return w

        def get_inlet_weights_water(self, **kw):
            return self.weights("water")

        def get_inlet_weights_sediment(self, **kw):
            return self.weights(kw.get("parcel_type"))

        def hook_compute_free_surface(self):
            first = np.asarray(self.free_surf_walk_inds)[:, 0]
            seen["water"] = np.array([(first == c).sum() for c in self.inlet])

        def tap(self, kind):
            name = sedtrace.where(self, kind)
            real, inlet = getattr(self, name), np.asarray(self.inlet)

            class Tap(object):
                def __getattr__(s, k):
                    return getattr(real, k)

                def run(s, *a, **kw):
                    c = sedtrace.Call(a, kw)
                    starts = np.asarray(c[c.find_starts(self)])
                    seen[kind] = np.array([(starts == c).sum() for c in inlet])
                    return real.run(*a, **kw)
            setattr(self, name, Tap())
            self._keep = (name, real)

        def hook_route_all_sand_parcels(self):
            self.tap("sand")

        def hook_topo_diffusion(self):
            setattr(self, *self._keep)

        def hook_route_all_mud_parcels(self):
            self.tap("mud")

        def hook_after_route_sediment(self):
            setattr(self, *self._keep)

    m = util.make(case["cfg"], Weighted)
    m.update()
    m.finalize()
    for kind in ("water", "sand", "mud"):
        if not res.expect(kind in used, "inlet weights of a subclass are not asked for",
                          kind=kind, asked=sorted(str(k) for k in used)):
            continue
        if kind not in seen:
            continue
        w = used[kind] / used[kind].sum()
        res.n("inlet_chi2")
        res.expect(chi2_p(seen[kind].astype(float), w) > 1e-9 and
                   seen[kind][w == 0].sum() == 0 and seen[kind].sum() > 0,
                   "parcels do not enter with the inlet weights given", kind=kind,
                   seen=seen[kind].tolist(), want=(w * seen[kind].sum()).tolist())
    res.sig(case["rs"])
