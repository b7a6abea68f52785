"""Array bounds of every compiled kernel."""
import numpy as np
import util
from checks import c07

RULE = (
    "all kernels compiled with bounds checks; random and extreme configurations (smallest "
    "grids, one parcel, very short and very long walks, plugged inlet, beds raised above "
    "the water, dry basins) run for several updates; an IndexError or a crash is a "
    "violation; distinct and non-trivial: "
    "(grid shape, walk limit, disturbance) that moved parcels"
)
PHASES = [
    {"name": "bounds", "mode": "bounds", "workers": 7,
     "budget": {"quick": 30, "thorough": 1800}, "min": {"quick": 30},
     "require": {"updates": 150, "walk_steps": 20000, "grown": 3, "disturbed": 40}},
]
ASSUMPTIONS = ["numba's bounds checks accept negative indices within the array (they wrap, "
               "as in Python); paths that use them are judged by C07 and C11"]


def cases_bounds(tier, seed):
    rng = util.subrng(seed, "C18", tier)
    out = []
    for i in range(90 if tier == "quick" else 6000):
        c = util.gen_config(rng, ("tiny", "small", "tiny", "small", "medium")[i % 5])
        if i == 7:
            c = util.gen_config(rng, "huge", itermax=2, Np_water=30, Np_sed=30)
        kind = [None, "bumps", "plug", "shoal", "dry", "deep", "ridge"][i % 7]
        if i % 6 == 1:
            c["Length"] = c["dx"] * rng.randint(6, 10)
            c["Width"] = c["dx"] * rng.randint(12, 16)
        if i % 6 == 2:
            c["Np_water"] = int(util.pick(rng, 1, 2))
            c["Np_sed"] = int(util.pick(rng, 1, 2, 3))
        if i % 6 == 3:
            c["stepmax"] = util.pick(rng, 1, 2, 3, 4, 5, 7, 11)
        if i % 6 == 4:
            c["stepmax"] = util.pick(rng, 400, 1000, 51, 101)
        if i % 6 == 5:
            c["theta_water"] = util.pick(rng, 0.0, 5.0)
            c["coeff_U_ero_sand"] = 0.05
            c["coeff_U_ero_mud"] = 0.05
        out.append({"cfg": c, "kind": kind, "n": 4 if i % 5 == 4 else 6,
                    "again": bool(rng.rand() < 0.5), "rs": int(rng.randint(2**31 - 1))})
    return out


def disturb(m, kind, rng):
    if kind in (None, "bumps", "plug", "shoal"):
        c07.shock_bed(m, kind, rng)
        return
    free = np.asarray(m.cell_type) >= -1
    if kind == "dry":
        m.eta[free] = m.stage[free] + 1.0
    elif kind == "deep":
        m.eta[free] -= rng.uniform(0, 50, free.sum()).astype("f4")
    elif kind == "ridge":
        r = min(m.L - 2, m.L0 + 2)
        m.eta[r] = m.stage[r] + 2.0
        m.eta[r, rng.randint(1, m.W - 1)] -= 4.0
    m.depth[:] = np.maximum(m.stage - m.eta, 0)


def run_bounds(case, res):
    rng = np.random.RandomState(case["rs"])
    st = {"cols": 0}

    def before(m):
        if m.time_iter == 1 or case["again"] and m.time_iter > 1:
            disturb(m, case["kind"], rng)
            if case["kind"]:
                res.n("disturbed")

    def walked(m):
        w = m.free_surf_walk_inds
        res.n("walk_steps", int((w > 0).sum()))
        if w.shape[1] > int(m.stepmax / 2):
            st["cols"] += 1

    cls = util.monitored({"solve_water_and_sediment_timestep": before,
                          "compute_free_surface": walked})
    try:
        m = util.make(case["cfg"], cls=cls)
        for _ in range(case["n"]):
            m.update()
            res.n("updates")
        m.finalize()
    except IndexError as e:
        import traceback

        res.fail("an array is indexed beyond its bounds: %s" % str(e)[:200],
                 trace=traceback.format_exc()[-1500:], kind=case["kind"])
        return
    except RuntimeError:
        # unstable settings may erode holes of kilometres, whose depth to the exponent is
        # no single-precision number: the model says so, and there is nothing to judge
        top = max(m.theta_sand, m.theta_mud, m.theta_water)
        if not float(np.nanmax(m.depth)) > 1.5 * m.h0 + 60 or not (
                np.log10(float(np.nanmax(m.depth))) * top > 37):
            raise
        res.n("overflow")
        return
    if st["cols"]:
        res.n("grown")
    res.sig(m.L, m.W, m.stepmax, case["kind"])
    res.sample({"shape": [m.L, m.W], "stepmax": m.stepmax, "kind": case["kind"],
                "walk_columns_grown": st["cols"]})
