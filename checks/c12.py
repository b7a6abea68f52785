"""Topographic diffusion of real runs against its equation."""
import numpy as np
import util

RULE = (
    "random configurations (coefficient, inlet width, hence number of repetitions) and "
    "beds and fluxes x updates; the bed before and after each diffusion is compared with "
    "an independent evaluation; distinct and non-trivial: a diffusion that moved the bed"
)
PHASES = [
    {"name": "py", "mode": "nojit", "workers": 7,
     "budget": {"quick": 30, "thorough": 900}, "min": {"quick": 20},
     "require": {"diffusion": 100, "moved": 60, "repeated": 30, "still": 5,
                 "no_deposit": 5, "live": 30}},
]
ASSUMPTIONS = ["cells on the border of the grid see bed elevation and flux zero outside"]


def cases_py(tier, seed):
    rng = util.subrng(seed, "C12", tier)
    out = []
    for i in range(150 if tier == "quick" else 4000):
        c = util.gen_config(rng, "tiny" if i % 3 else "small", Np_water=10, Np_sed=20,
                            f_bedload=0.5, itermax=1)
        c["alpha"] = float(util.pick(rng, 0.1, 0.1, 0.05, 0.3, 0.0, 0.01))
        c["N0_meters"] = float(c["dx"] * rng.randint(2, 14))
        if i % 10 == 7:   # a wide inlet: many repetitions
            W = int(rng.randint(48, 64))
            c.update(Width=W * c["dx"], N0_meters=c["dx"] * float(rng.randint(11, W // 4 + 1)))
        mode = util.pick(rng, "run", "stir", "zero", "pass")
        if mode == "pass":
            c["coeff_U_ero_sand"] = 1000.0
        out.append({"cfg": c, "steps": 4, "mode": mode,
                    "live": util.pick(rng, None, None, "time_step", "channel_flow_velocity",
                                      "channel_width", "influx_sediment_concentration",
                                      "channel_flow_depth"),
                    "rs": int(rng.randint(2**31 - 1))})
    return out


def nb_sum(a):
    p = np.pad(a, 1)
    L, W = a.shape
    return sum(p[1 + dj:1 + dj + L, 1 + di:1 + di + W]
               for dj in (-1, 0, 1) for di in (-1, 0, 1) if dj or di)


def qs_live(m):
    return bool(np.any(m.qs > 0))


def run_py(case, res):
    rng = np.random.RandomState(case["rs"])
    st = {}

    def pre(m):
        if case["mode"] == "stir":
            wet = m.cell_type != -2
            m.eta[wet] += rng.uniform(-0.5, 0.5, wet.sum()).astype("f4")
            m.qs[wet] = (rng.uniform(0, 3, wet.sum()) * m.qs0).astype("f4")
            if rng.rand() < 0.5:
                # flux next to, and on, land
                m.qs[:] = (rng.uniform(0, 2, m.qs.shape) * m.qs0).astype("f4")
        elif case["mode"] == "zero":
            m.qs[:] = 0
        st["eta"], st["qs"] = m.eta.astype(float), m.qs.astype(float)

        st["nodep"] = bool(qs_live(m) and not np.any(m.Vp_dep_sand > 0))

    def fast(m):
        """Sand that passes through: capacity everywhere, no erosion."""
        if case["mode"] == "pass":
            m.uw[:] = m.u_max
            m.stage[:] = np.maximum(m.stage, m.eta + m.h0)
            m.depth[:] = m.stage - m.eta
            m.qw[:] = 10 * m.u_max * m.depth

    def post(m):
        res.n("no_deposit", st["nodep"])
        e0, qs = st["eta"], st["qs"]
        N = int(m.N_crossdiff)
        res.expect(N >= 1 and abs(N - 0.1 * m.N0 ** 2) <= 0.5 + 1e-9,
                   "number of diffusions is not the documented one", N=N, N0=int(m.N0))
        mult = float(m.dt) / N * float(m.alpha) * 0.5 / float(m.dx) ** 2
        e = e0.copy()
        land = m.cell_type == -2
        size = 0.0
        for _ in range(N):
            # flux between a cell and each of its 8 neighbours, by symmetric conductance
            cf = mult * (qs * (nb_sum(e) - 8 * e) + nb_sum(qs * e) - e * nb_sum(qs))
            cf[land] = 0
            cf[0, :] = 0
            e = e + cf
            size = max(size, float(np.abs(cf).max()))
        res.n("diffusion")
        res.n("repeated", N > 1)
        got = m.eta.astype(float)
        if not np.all(np.isfinite(e)) or size > 1e3:
            return
        amp = 8 * mult * float(qs.max()) * 4 + 1
        tol = 2e-6 * (1 + np.abs(e0).max() + size) * amp ** min(N, 8)
        tol = min(tol, 1e-3 * (1 + size))
        res.expect(np.array_equal(got[land], e0[land]), "diffusion changes land")
        res.expect(np.array_equal(got[0], e0[0]), "diffusion changes the inlet row")
        if not qs.any() or m.alpha == 0:
            res.n("still")
            res.expect(np.array_equal(got, e0), "diffusion without flux or coefficient "
                       "changes the bed")
        bad = np.abs(got - e)
        res.expect(bad.max() <= tol, "the bed after diffusion is not that of the documented "
                   "equation", worst=float(bad.max()), tol=tol, moved=size, N=N,
                   at=[int(x) for x in np.unravel_index(bad.argmax(), bad.shape)])
        res.expect(np.array_equal(m.qs.astype(float), qs), "diffusion changes the flux")
        if size > 1e-6:
            res.n("moved")
            res.sig(m.seed, int(m.time_iter))
            res.sample({"N": N, "multiplier": mult, "largest_change": size,
                        "error": float(bad.max())})

    cls = util.monitored({"topo_diffusion": pre, "route_all_mud_parcels": post,
                          "route_all_sand_parcels": fast})
    m = util.make(case["cfg"], cls)
    for s in range(case["steps"]):
        if s == 2 and case["live"]:
            res.n("live")
            f = float(util.pick(rng, 0.5, 1.5))
            new = {"time_step": m.dt * f, "channel_flow_velocity": m.u0 * max(f, 1.0 / f),
                   "channel_width": m.dx * rng.randint(3, 9), "channel_flow_depth": m.h0 * f,
                   "influx_sediment_concentration": m.C0_percent / 100 * f}[case["live"]]
            setattr(m, case["live"], new)
        m.update()
    m.finalize()
