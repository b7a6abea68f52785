"""The initial domain."""
import math

import numpy as np
import util

RULE = (
    "random domain sizes (also far too small or narrow for the inlet asked for), spacings, "
    "inlet shapes, depths, slopes; every cell of the constructed model compared with an "
    "independent construction of the domain; distinct and non-trivial: (L, W, L0, N0, "
    "whether the inlet was limited, channel depth against basin depth)"
)
PHASES = [
    {"name": "dom", "mode": "nojit", "workers": 8,
     "budget": {"quick": 15, "thorough": 900}, "min": {"quick": 120},
     "require": {"domains": 120, "cells": 50000, "limited": 20, "shallow": 10}},
]
LAND, EDGE, OCEAN, CHANNEL = -2, -1, 0, 1


def cases_dom(tier, seed):
    rng = util.subrng(seed, "C23", tier)
    out = []
    for i in range(200 if tier == "quick" else 20000):
        dx = float(util.pick(rng, 1.0, 10.0, 33.3, 50.0, 50.0, 120.0, 7.0))
        s = i % 4
        L = int(rng.randint(*((4, 12), (10, 30), (20, 80), (6, 150))[s]))
        W = int(rng.randint(*((4, 20), (12, 40), (20, 160), (12, 150))[s]))
        h0 = float(util.pick(rng, 0.3, 1.0, 2.0, 5.0, 12.0))
        c = {"Length": dx * (L + float(util.pick(rng, 0, 0, 0.3, -0.3))),
             "Width": dx * (W + float(util.pick(rng, 0, 0, 0.3, -0.3))), "dx": dx,
             "L0_meters": dx * float(util.pick(rng, 0, 0.3, 1, 2, 3.3, 5, 40)),
             "N0_meters": dx * float(util.pick(rng, 0.2, 1, 2, 3, 4, 5, 6.3, 7, 8, 11, 90)),
             "h0": h0, "u0": float(util.pick(rng, 0.5, 1.0, 2.0)),
             "hb": util.pick(rng, None, None, h0, h0 / 4, h0 * 3, 0.0),
             "S0": float(util.pick(rng, 0.0, 0.00015, 0.0005)),
             "sand_frac_bc": float(util.pick(rng, 0, 0.2, 1)),
             "H_SL": float(util.pick(rng, 0.0, 1.0, -1.0)),
             "Np_water": 5, "Np_sed": 6, "seed": 1}
        while 9.81 * c["S0"] * dx / c["u0"] ** 2 > 0.9:
            c["S0"] /= 2
        out.append({"cfg": c})
    return out


def nearest(x):
    f = math.floor(x)
    if abs(x - f - 0.5) < 1e-9:
        return None
    return int(f + (x - f > 0.5))


def run_dom(case, res):
    c = case["cfg"]
    dx, h0, u0 = c["dx"], c["h0"], c["u0"]
    L, W = nearest(c["Length"] / dx), nearest(c["Width"] / dx)
    l0, n0 = nearest(c["L0_meters"] / dx), nearest(c["N0_meters"] / dx)
    seen = {}

    def after(m):
        seen["eta"] = m.eta.copy()

    m = util.make(c, cls=util.monitored({"after_create_domain": after}))
    res.n("domains")
    L0, N0 = max(1, min(l0, L // 4)), max(3, min(n0, W // 4))
    if (L0, N0) != (l0, n0):
        res.n("limited")
    hb = c["hb"] if c["hb"] is not None else h0
    if hb < h0:
        res.n("shallow")
    ok = res.expect((m.L, m.W, m.L0, m.N0) == (L, W, L0, N0),
                    "grid or inlet size does not follow from the configuration",
                    got=[m.L, m.W, m.L0, m.N0], want=[L, W, L0, N0])
    ctr = W // 2 - 1 if W // 2 - 1 > 1 else W // 2
    ok &= res.expect(m.CTR == ctr, "the centre column is not the middle of the grid",
                     got=m.CTR, want=ctr)
    ok &= res.expect(m.eta.shape == (L, W), "grid shape is not (length, width) in cells")
    if not ok:
        return
    # N0 channel columns around the centre
    first = ctr - int(round(N0 / 2)) + 1
    ch = list(range(first, first + N0))
    ct = np.full((L, W), OCEAN)
    j, i = np.meshgrid(np.arange(W), np.arange(L))
    r2 = (i - 3) ** 2 + (j - ctr) ** 2
    lim = min(L - 5, W / 2 - 5)
    ct[np.sqrt(r2) >= lim] = EDGE
    ct[-1, :] = ct[:, 0] = ct[:, -1] = EDGE
    sea = np.ones((L, W), bool)
    sea[:L0] = False
    ct[:L0] = LAND
    ct[:L0, ch] = CHANNEL
    got = np.asarray(m.cell_type)
    res.n("cells", ct.size)
    for name, v in (("land", LAND), ("edge", EDGE), ("ocean", OCEAN), ("inlet", CHANNEL)):
        res.expect(np.array_equal(got == v, ct == v),
                   "cells of the kind '%s' are not where documented" % name,
                   wrong=int(np.sum((got == v) != (ct == v))),
                   where=np.argwhere((got == v) != (ct == v))[:4].tolist(), shape=[L, W])
    res.expect(sorted(int(q) for q in m.inlet) == ch, "inlet columns are not the channel "
               "columns", got=[int(q) for q in m.inlet], want=ch)
    chan = np.zeros((L, W), bool)
    chan[:L0, ch] = True
    stage = np.maximum(0, L0 - i - 1) * dx * c["S0"]
    stage[sea] = 0
    depth = np.where(sea, hb, np.where(chan, h0, 0.0))
    qx = np.where(chan, u0 * h0, np.where(sea, u0 * h0 / 5, 0.0))
    ux = np.where(depth > 0, qx / np.where(depth > 0, depth, 1), 0.0)
    z = np.zeros((L, W))
    want = {"stage": stage, "depth": depth, "eta": stage - depth, "qx": qx, "qy": z,
            "qw": qx, "ux": ux, "uy": z, "uw": ux, "qs": z, "Vp_dep_sand": z,
            "Vp_dep_mud": z, "sand_frac": z + c["sand_frac_bc"],
            "active_layer": z + c["sand_frac_bc"]}
    for k, w in want.items():
        g = np.asarray(getattr(m, k), float)
        if not res.expect(g.shape == w.shape, "the initial field '%s' is not a grid" % k,
                          shape=list(g.shape)):
            continue
        e = np.abs(g - w) > 2e-6 * (1 + np.abs(w))
        res.expect(g.shape == w.shape and not e.any(),
                   "the initial field '%s' is not the documented one" % k,
                   wrong=int(e.sum()), where=np.argwhere(e)[:3].tolist(),
                   got=g[e][:3].tolist(), want=w[e][:3].tolist())
    res.expect(np.array_equal(seen.get("eta"), m.eta),
               "the domain a hook sees after its creation is not the initial domain")
    res.expect(util.close(m.xc, np.arange(L) * dx, rtol=1e-9) and
               util.close(m.yc, np.arange(W) * dx, rtol=1e-9) and
               np.array_equal(m.x, j) and np.array_equal(m.y, i) and
               util.close(m.X, np.arange(W + 1)[None, :] * dx + np.zeros((L + 1, 1))) and
               util.close(m.Y, np.arange(L + 1)[:, None] * dx + np.zeros((1, W + 1))),
               "grid coordinates do not follow from the spacing")
    res.sig(L, W, L0, N0, (L0, N0) != (l0, n0), hb < h0)
    res.sample({"L": L, "W": W, "L0": L0, "N0": N0, "channel": [ch[0], ch[-1]],
                "ocean": int((ct == OCEAN).sum())})
    m.finalize()
