"""Free surface from parcel paths, smoothing, relaxation, flooding."""
import numpy as np
import util

RULE = (
    "random configurations (smoothing, relaxation, slope, sea level of both signs) and "
    "disturbed beds x water iterations; the surface after each iteration and after each "
    "update is compared with an independent reconstruction from the recorded parcel "
    "paths; distinct and non-trivial: an iteration in which paths raised the surface or "
    "a dry cell was flooded"
)
PHASES = [
    {"name": "py", "mode": "nojit", "workers": 4,
     "budget": {"quick": 30, "thorough": 900}, "min": {"quick": 16},
     "require": {"iteration": 100, "raised": 30, "cells": 10000, "flooded": 20,
                 "final": 60}},
    {"name": "jit", "mode": "jit", "workers": 4,
     "budget": {"quick": 20, "thorough": 900}, "min": {"quick": 16},
     "require": {"iteration": 100, "raised": 30, "cells": 10000, "flooded": 20,
                 "final": 60, "final_flood": 5}},
]


def _cases(tier, seed, tag, n, size, steps):
    rng = util.subrng(seed, "C14", tag, tier)
    out = []
    for i in range(n):
        c = util.gen_config(rng, size)
        if i == 0 and tag == "jit":
            c = util.gen_config(rng, "huge", itermax=2, Np_water=30, Np_sed=30)
        c["H_SL"] = float(util.pick(rng, 0.0, 0.0, 1.0, -1.5))
        c["S0"] = float(util.pick(rng, 0.00015, 0.0005, 0.001))
        while 9.81 * c["S0"] * c["dx"] / c["u0"] ** 2 > 0.95:
            c["S0"] /= 2.0
        if i % 9 == 7:
            c["Np_water"] = int(util.pick(rng, 300, 517))
        if i % 9 == 4:
            c["Csmooth"] = 1.1
        if i % 5 == 2:          # walks outgrow the array first reserved for them
            c["stepmax"] = float(util.pick(rng, 19.5, 26, 34))
        out.append({"cfg": c, "steps": steps,
                    "shock": util.pick(rng, None, "bumps", "shoal", "bumps"),
                    "rs": int(rng.randint(2**31 - 1))})
    return out


def cases_py(tier, seed):
    return _cases(tier, seed, "py", 28 if tier == "quick" else 1500, "tiny", 4)


def cases_jit(tier, seed):
    return _cases(tier, seed, "jit", 40 if tier == "quick" else 2500, "small", 5)


def ref_paths(m, f, walks, flag):
    """Average surface implied by the parcels' paths: (sum, visits)."""
    L, W = f["eta"].shape
    tot, vis = np.zeros((L, W)), np.zeros((L, W))
    u0, h0, S0, dx, sl = (float(m.u0), float(m.h0), float(m.S0), float(m.dx), float(m.H_SL))
    border = False
    for p in range(len(walks)):
        w = walks[p]
        if (w == 0).any():      # where the path of this iteration ends
            w = w[:int(np.argmax(w == 0))]
        w = w[w > 0]
        if len(w) == 0 or flag[p] != 1:
            continue
        r, c = w // W, w % W
        if f["cell_type"][r[-1], c[-1]] != -1:
            continue
        H = {}
        H[(r[-1], c[-1])] = sl
        ocean, dH = True, 0.0
        for k in range(len(w) - 2, -1, -1):
            i, j, ip, jp = r[k], c[k], r[k + 1], c[k + 1]
            u = float(f["uw"][i, j])
            if (i, j) != (ip, jp):
                if ocean:
                    a = u / (0.5 * u0) - 1
                    b = float(f["depth"][i, j]) / (0.1 * h0) - 1
                    if abs(a) < 1e-5 or abs(b) < 1e-5:
                        border = True
                    if a > 0 or b < 0:
                        ocean = False
                elif u == 0:
                    dH = 0.0
                else:
                    dH = S0 * dx * (float(f["ux"][i, j]) * (ip - i)
                                    + float(f["uy"][i, j]) * (jp - j)) / u
            h = H.get((ip, jp), 0.0) + dH
            H[(i, j)] = h
            tot[i, j] += h
            vis[i, j] += 1
    return tot, vis, border


def judge_flags(m, f, walks, flag, res):
    """A parcel that looped where the surface is above the sea is not averaged."""
    from checks import c07

    L, W = f["eta"].shape
    above = f["stage"].astype(float) - float(m.H_SL)
    for p in range(len(walks)):
        w = walks[p]
        nz = np.nonzero(w <= 0)[0]
        end = int(nz[0]) if len(nz) else len(w)
        if end < 2 or w.min() < 0 or w.max() >= L * W:
            continue
        r, c = w[:end] // W, w[:end] % W
        jumps = np.nonzero(np.maximum(np.abs(np.diff(r)), np.abs(np.diff(c))) > 1)[0]
        must, may = False, bool(f["cell_type"][r[-1], c[-1]] != -1)
        for k in range(end - 1):
            cells = c07.loop_cells(m, r, c, k)
            hit = [q for q in cells if max(abs(a - b) for a, b in zip(
                c07.relocated(m, q), (r[k + 1], c[k + 1]))) <= 1]
            if any(abs(above[q]) > 1e-6 for q in hit):
                may = True
            if k in jumps and hit and all(above[q] > 0.2 for q in hit):
                must = True
            if k in jumps and not hit:
                may = True
        if must:
            res.n("looped_above")
            res.expect(flag[p] == 0, "a parcel that looped where the surface is above sea "
                       "level is part of the average", parcel=p)
        elif not may:
            res.n("looped_at_sea" if len(jumps) else "unlooped")
            res.expect(flag[p] == 1, "a parcel that did not loop where the surface is above "
                       "sea level is left out of the average", parcel=p,
                       jumps=len(jumps))


def ref_smooth(H, ct, n, cs):
    ctp = np.pad(ct, 1, mode="edge")
    L, W = H.shape
    ok = np.zeros((L, W))
    for dj in (-1, 0, 1):
        for di in (-1, 0, 1):
            if dj or di:
                ok += ctp[1 + dj:1 + dj + L, 1 + di:1 + di + W] != -2
    for _ in range(n):
        Hp = np.pad(H, 1, mode="edge")
        s = np.zeros((L, W))
        for dj in (-1, 0, 1):
            for di in (-1, 0, 1):
                if dj or di:
                    sl = (slice(1 + dj, 1 + dj + L), slice(1 + di, 1 + di + W))
                    s += np.where(ctp[sl] != -2, Hp[sl], 0)
        new = np.where(ok > 0, cs * H + (1 - cs) * s / np.maximum(ok, 1), H)
        H = np.where(ct != -1, new, H)
    return H


def ref_flood(stage, eta, depth, dry):
    """(flooded stage, cells too close to call, number flooded)"""
    L, W = stage.shape
    wet = depth > dry
    sp = np.pad(np.where(wet, stage, -np.inf), 1, constant_values=-np.inf)
    best = np.full((L, W), -np.inf)
    for dj in (-1, 0, 1):
        for di in (-1, 0, 1):
            if dj or di:
                best = np.maximum(best, sp[1 + dj:1 + dj + L, 1 + di:1 + di + W])
    flood = ~wet & (best > eta)
    close = ~wet & (np.abs(best - eta) <= 1e-5 * (1 + np.abs(eta)))
    # a depth at the very limit of wet and dry: it and its neighbours are not judged
    edge = np.pad(np.abs(depth - dry) <= 1e-6 * (1 + np.abs(eta)), 1)
    for dj in (0, 1, 2):
        for di in (0, 1, 2):
            close = close | edge[dj:dj + L, di:di + W]
    return np.where(flood, best, stage), close, int(flood.sum()), flood


def run_py(case, res):
    from checks import c07

    rng = np.random.RandomState(case["rs"])
    st = {}
    F = ("eta", "stage", "depth", "uw", "ux", "uy", "cell_type")

    def shock(m):
        if case["shock"] and rng.rand() < 0.3:
            c07.shock_bed(m, case["shock"], rng)

    def pre(m):
        st["f"] = util.snap(m, *F)
        st["walks"] = np.array(m.free_surf_walk_inds)
        st["flag"] = np.array(m.free_surf_flag)
        judge_flags(m, st["f"], st["walks"], st["flag"], res)

    def post(m, iteration):
        f = st["f"]
        sl = float(m.H_SL)
        eta, stage, depth = (f[k].astype(float) for k in ("eta", "stage", "depth"))
        tot, vis, border = ref_paths(m, f, st["walks"], st["flag"])
        H = eta + depth
        H = np.where(vis > 0, tot / np.maximum(vis, 1), H)
        H = np.maximum(np.maximum(H, sl), eta)
        H = ref_smooth(H, f["cell_type"], int(m.Nsmooth), float(m.Csmooth))
        if int(m.time_iter) > 0:
            om = float(m.omega_sfc)
            want = (1 - om) * stage + om * H
        else:
            want = stage
        want, close, nf, _ = ref_flood(want, eta, depth, float(m.dry_depth))
        got = m.stage.astype(float)
        scale = 1 + np.abs(eta).max() + np.abs(stage).max()
        if border:
            res.n("borderline")
            return
        bad = (np.abs(got - want) > 1e-5 * scale) & ~close
        res.n("iteration")
        res.n("cells", got.size)
        res.n("flooded", nf)
        raised = bool((vis > 0).any() and (tot > sl * vis + 1e-4).any())
        res.n("raised", raised)
        res.expect(not bad.any(), "the water surface after an iteration is not the "
                   "documented one", n=int(bad.sum()), step=int(m.time_iter),
                   iteration=int(iteration), worst=float(np.abs(got - want)[~close].max()),
                   at=[int(x) for x in np.argwhere(bad)[0]] if bad.any() else None)
        for k in ("eta", "depth"):
            res.expect(np.array_equal(getattr(m, k), f[k]),
                       "%s changes while the surface is computed" % k)
        if raised or nf:
            res.sig(m.seed, int(m.time_iter), int(iteration))
        res.sample({"step": int(m.time_iter), "visited": int((vis > 0).sum()),
                    "flooded": nf, "largest_error": float(np.abs(got - want)[~close].max())})

    def before_final(m):
        st["fin"] = util.snap(m, "eta", "stage", "depth")
        st["sl"] = float(m.H_SL)

    def after_final(m):
        f = st["fin"]
        eta, stage, depth = (f[k].astype(float) for k in ("eta", "stage", "depth"))
        want, close, nf, flood = ref_flood(stage, eta, depth, float(m.dry_depth))
        want = np.maximum(want, st["sl"])
        got = m.stage.astype(float)
        scale = 1 + np.abs(eta).max() + np.abs(stage).max()
        bad = (np.abs(got - want) > 1e-5 * scale) & ~close
        res.n("final")
        res.n("final_flood", nf)
        res.expect(not bad.any(), "the water surface after an update is not the documented "
                   "flooding of the dry shore", n=int(bad.sum()), step=int(m.time_iter),
                   at=[int(x) for x in np.argwhere(bad)[0]] if bad.any() else None)

    cls = util.monitored({"init_water_iteration": shock, "compute_free_surface": pre,
                          "finalize_water_iteration": post,
                          "finalize_timestep": before_final,
                          "compute_sand_frac": after_final})
    m = util.make(case["cfg"], cls)
    for _ in range(case["steps"]):
        m.update()
    m.finalize()


run_jit = run_py
