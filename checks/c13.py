"""Surface sand fraction and active layer, update by update."""
import numpy as np
import util

RULE = (
    "random configurations (basement value, layer thickness, sand share, erosion "
    "thresholds, subsidence) and disturbed beds x updates; the sand fraction of every "
    "cell after each update is compared with the one implied by the deposits and the bed "
    "change of that update; distinct and non-trivial: an update with deposition in some "
    "cells and erosion in others"
)
PHASES = [
    {"name": "py", "mode": "nojit", "workers": 4,
     "budget": {"quick": 30, "thorough": 900}, "min": {"quick": 20},
     "require": {"update": 100, "deposit": 1000, "eroded_within": 300,
                 "eroded_below": 300, "unchanged": 1000, "mixed": 20}},
    {"name": "jit", "mode": "jit", "workers": 4,
     "budget": {"quick": 15, "thorough": 900}, "min": {"quick": 15},
     "require": {"update": 100, "deposit": 1000, "unchanged": 1000}},
]


def _cases(tier, seed, tag, n, size, steps):
    rng = util.subrng(seed, "C13", tag, tier)
    out = []
    for i in range(n):
        c = util.gen_config(rng, size)
        c["coeff_U_ero_mud"] = float(util.pick(rng, 1.5, 0.8, 0.5))
        c["coeff_U_ero_sand"] = float(util.pick(rng, 1.05, 0.7, 0.5))
        c["active_layer_thickness"] = util.pick(rng, None, 0.0, 0.05, 0.3, 2.0)
        c["sand_frac_bc"] = float(util.pick(rng, 0.0, 0.25, 1.0))
        out.append({"cfg": c, "steps": steps, "shock": bool(i % 3 == 0),
                    "rs": int(rng.randint(2**31 - 1))})
    return out


def cases_py(tier, seed):
    return _cases(tier, seed, "py", 40 if tier == "quick" else 2000, "tiny", 5)


def cases_jit(tier, seed):
    return _cases(tier, seed, "jit", 40 if tier == "quick" else 3000, "small", 8)


def run_py(case, res):
    rng = np.random.RandomState(case["rs"])
    st = {}

    def begin(m):
        st.clear()
        st.update(util.snap(m, "eta", "sand_frac", "active_layer"))
        st["sand"] = np.zeros_like(m.eta, float)

    def dig(m):
        # a subclass may dig or fill during the step; the rule uses the bed change
        if case["shock"]:
            sel = (m.cell_type >= 0) & (rng.rand(*m.eta.shape) < 0.15)
            m.eta[sel] -= rng.uniform(0, 1.5, sel.sum()).astype("f4")

    def before(m):
        for k in ("sand_frac", "active_layer"):
            res.expect(np.array_equal(st[k], getattr(m, k)),
                       "%s changes before the end of the step" % k)
        st["now"] = util.snap(m, "eta", "Vp_dep_sand", "Vp_dep_mud")

    def after(m):
        if "now" not in st:
            res.fail("the sand fraction step is not reached in an update")
            return
        e0, e1 = st["eta"], st["now"]["eta"]
        s, d = st["now"]["Vp_dep_sand"].astype(float), st["now"]["Vp_dep_mud"].astype(float)
        thick = case["cfg"]["active_layer_thickness"]
        if thick is None:
            thick = m.h0 / 2.0
        res.expect(abs(float(m.active_layer_thickness) - thick) <= 1e-9 * (1 + thick),
                   "active layer thickness is not the configured one (or half the depth)",
                   got=float(m.active_layer_thickness), want=thick)
        dep = (s > 0) | (d > 1e-6)
        low = e1 - e0
        bot = e0.astype(float) - thick
        border = np.abs(e1 - bot) <= 2e-6 * (1 + np.abs(e0) + thick)
        below = ~dep & (low < 0) & (e1 < bot)
        within = ~dep & (low < 0) & (e1 >= bot)
        same = ~dep & ~(low < 0)
        sf, al = m.sand_frac.astype(float), m.active_layer.astype(float)
        res.n("update")
        for k, v in (("deposit", dep), ("eroded_below", below), ("eroded_within", within),
                     ("unchanged", same), ("mixed_cells", (s > 0) & (d > 1e-6))):
            res.n(k, int(v.sum()))
        res.n("mixed", bool(((s > 0) & (d > 1e-6)).any()))
        for nm, f in (("sand fraction", sf), ("active layer", al)):
            res.expect(np.all(np.isfinite(f)) and f.min() >= 0 and f.max() <= 1,
                       "%s is not a fraction" % nm, lo=float(np.nanmin(f)), hi=float(np.nanmax(f)))
        mix = s[dep] / (s[dep] + d[dep])
        ok = np.abs(sf[dep] - mix) <= 2e-6
        ok2 = np.abs(al[dep] - mix) <= 2e-6
        res.expect(ok.all(), "sand fraction of a deposit is not its share of sand",
                   n=int((~ok).sum()))
        res.expect(ok2.all(), "active layer of a deposit is not its share of sand",
                   n=int((~ok2).sum()))
        res.expect(np.array_equal(al[~dep], st["active_layer"][~dep].astype(float)),
                   "active layer changes without deposition")
        res.expect(np.array_equal(sf[same], st["sand_frac"][same].astype(float)),
                   "sand fraction changes without deposition or erosion")
        b = below & ~border
        res.expect(np.all(np.abs(sf[b] - case["cfg"]["sand_frac_bc"]) <= 1e-6),
                   "sand fraction where erosion cut through the active layer is not the "
                   "basement value")
        w = within & ~border
        res.expect(np.array_equal(sf[w], st["active_layer"][w].astype(float)),
                   "sand fraction where erosion stayed in the active layer is not the layer's")
        res.expect(np.array_equal(m.eta, e1), "the sand fraction step moves the bed")
        if dep.any() and (below.any() or within.any()):
            res.sig(m.seed, int(m.time_iter))
        res.sample({"deposit": int(dep.sum()), "below": int(below.sum()),
                    "within": int(within.sum()), "unchanged": int(same.sum())})

    cls = util.monitored({"solve_water_and_sediment_timestep": begin,
                          "compute_sand_frac": before, "after_route_sediment": dig,
                          "after_finalize_timestep": after})
    m = util.make(case["cfg"], cls)
    res.expect(np.all(np.abs(m.sand_frac - case["cfg"]["sand_frac_bc"]) <= 1e-6),
               "initial sand fraction is not the configured one")
    for _ in range(case["steps"]):
        m.update()
    m.finalize()


run_jit = run_py
