"""Water parcels: every recorded path, and the discharge it produces."""
import numpy as np
import util

RULE = (
    "random configurations and disturbed beds (islands, shoals, a plugged inlet) x "
    "water iterations; every parcel path of every iteration is judged cell by cell; "
    "distinct and non-trivial: a path of at least 4 cells not seen before"
)
PHASES = [
    {"name": "py", "mode": "nojit", "workers": 4,
     "budget": {"quick": 40, "thorough": 900}, "require": {"path": 1000, "step": 5000}},
    {"name": "jit", "mode": "jit", "workers": 6,
     "budget": {"quick": 25, "thorough": 900}, "require": {"path": 1000, "step": 5000}},
]
ASSUMPTIONS = [
    "a path that jumps is accepted only as the relocation of a loop: some cell next "
    "to the parcel was already on its path, and the jump stays within 6 cells"
]


def _cases(tier, seed, name, n, size, steps):
    rng = util.subrng(seed, "C07", name, tier)
    out = []
    for i in range(n):
        c = util.gen_config(rng, size)
        if i == 0 and name == "jit":
            c = util.gen_config(rng, "huge", itermax=2, Np_water=30, Np_sed=30)
        if i % 9 == 5:
            c["Np_water"] = int(util.pick(rng, 300, 517))
        if i % 7 == 3:
            c["stepmax"] = float(util.pick(rng, 12.6, 19.5))
        out.append({
            "cfg": c, "steps": steps,
            "shock": [None, "bumps", "plug", "shoal"][i % 4],
            "sseed": int(rng.randint(2**31 - 1)),
        })
    return out


def cases_py(tier, seed):
    return _cases(tier, seed, "py", 28 if tier == "quick" else 1500, "tiny", 5)


def cases_jit(tier, seed):
    return _cases(tier, seed, "jit", 48 if tier == "quick" else 3000, "small", 7)


def shock_bed(m, kind, rng):
    """A legitimate but hostile bed: what a subclass may set through a hook."""
    if kind is None:
        return
    free = np.asarray(m.cell_type) >= -1
    free[0, :] = False
    if kind == "bumps":
        sel = free & (rng.rand(*m.eta.shape) < 0.25)
        m.eta[sel] = m.stage[sel] + rng.uniform(-0.5, 0.5, sel.sum()).astype("f4")
    elif kind == "plug":
        rows = slice(1, m.L0 + 2)
        sel = np.zeros_like(free)
        sel[rows] = free[rows] & (rng.rand(*m.eta[rows].shape) < 0.8)
        m.eta[sel] = m.stage[sel] - rng.uniform(0.0, 0.05, sel.sum()).astype("f4")
    elif kind == "shoal":
        m.eta[free] = np.maximum(m.eta[free], m.stage[free] - 0.12 * m.h0)
    m.depth[:] = np.maximum(m.stage - m.eta, 0)


def run_py(case, res):
    rng = np.random.RandomState(case["sseed"])
    st = {}

    def before_run(m):
        st["pre"] = util.snap(m, "qx", "qy")
        st["inlet_w"] = None

    def after_run(m):
        judge_paths(m, res, case)

    def before_fin(m, iteration):
        st["q"] = util.snap(m, "qxn", "qyn", "qwn", "qx", "qy")
        st["it"] = iteration

    def check_flow(m):
        if "q" not in st:
            return
        q = {k: v.astype(float) for k, v in st["q"].items()}
        n = np.hypot(q["qxn"], q["qyn"])
        f = np.where(n > 0, q["qwn"] / np.where(n > 0, n, 1), 1.0)
        nx, ny = q["qxn"] * f, q["qyn"] * f
        if m.time_iter > 0:
            w = m.omega_flow if st["it"] == 0 else 2.0 / m.itermax
            nx, ny = nx * w + q["qx"] * (1 - w), ny * w + q["qy"] * (1 - w)
        nx[0, m.inlet] = m.u0 * m.h0
        ny[0, m.inlet] = 0
        scale = 1e-6 + np.abs(q["qwn"]).max() + np.abs(q["qx"]).max()
        res.n("flow_field")
        res.expect(np.abs(m.qx - nx).max() <= 1e-4 * scale
                   and np.abs(m.qy - ny).max() <= 1e-4 * scale,
                   "discharge field is not the relaxed mean of the parcel flux",
                   it=st["it"], dx=float(np.abs(m.qx - nx).max()),
                   dy=float(np.abs(m.qy - ny).max()))
        del st["q"]

    cls = util.monitored({
        "solve_water_and_sediment_timestep":
            lambda m: shock_bed(m, case["shock"], rng) if rng.rand() < 0.6 else None,
        "init_water_iteration": check_flow,
        "run_water_iteration": before_run,
        "compute_free_surface": after_run,
        "finalize_water_iteration": before_fin,
        "after_route_water": check_flow,
    })
    m = util.make(case["cfg"], cls)
    for s in range(case["steps"]):
        m.update()
    m.finalize()


def relocated(m, q):
    """Where a parcel looping back to the cell q is put: away from the inlet."""
    L, W = m.eta.shape
    fx, fy = float(q[0] - 1), float(q[1] - m.CTR)
    w = np.hypot(fx, fy)
    x, y = q
    if w:
        x, y = q[0] + int(np.round(fx / w * 5.0)), q[1] + int(np.round(fy / w * 5.0))
    return min(L - 2, max(x, m.L0)), min(W - 2, max(1, y))


def loop_cells(m, r, c, k):
    """Cells next to the k-th of a path, on the path before: a step there is a loop."""
    near = (np.abs(r[:k] - r[k]) <= 1) & (np.abs(c[:k] - c[k]) <= 1) & (r[:k] >= m.L0)
    near &= (r[:k] != r[k]) | (c[:k] != c[k])
    return sorted({(int(a), int(b)) for a, b in zip(r[:k][near], c[:k][near])})


def judge_paths(m, res, case):
    L, W = m.eta.shape
    ct = np.asarray(m.cell_type)
    walks = np.asarray(m.free_surf_walk_inds)
    flag = np.asarray(m.free_surf_flag)
    inlet = set(int(i) for i in m.inlet)
    stepmax = case["cfg"]["stepmax"]
    stepmax = 2 * (L + W) if stepmax is None else int(stepmax)
    dx = m.dx
    part = m.Qp_water / dx / 2.0
    qwn = np.zeros((L, W))
    qxn = np.zeros((L, W))
    qyn = np.zeros((L, W))
    nre = 0
    tail = 0
    res.expect(walks.shape[0] == m.Np_water, "not one path per water parcel")
    for p in range(walks.shape[0]):
        w = walks[p]
        res.n("path")
        nz = np.nonzero(w == 0)[0]
        end = nz[0] if len(nz) else len(w)
        if end == 0:
            # flat index 0 is the corner cell, which is never an inlet cell
            res.fail("a water parcel has no path", parcel=p)
            continue
        if not res.expect(np.all(w[end:] == 0), "a parcel moves after leaving", parcel=p,
                          path=w.tolist()):
            continue
        path = w[:end]
        if path[-1] < 0 and end >= 2 and 0 < path[-2] < W and \
                abs(path[-1] - (path[-2] - W)) == 1:
            side = path[-2] + (path[-1] - (path[-2] - W))
            if m.stage[0, side] < m.stage[0, path[-2]]:
                res.fail("water parcel steps out of the domain, diagonally upstream "
                         "of the first row, towards a lower lateral neighbour",
                         parcel=p, path=path.tolist())
                res.n("upstream_exit")
                nre += 1
                tail += 1
                path = path[:-1]
                end -= 1
        if not res.expect(np.all((path > 0) & (path < L * W)),
                          "parcel outside the domain", parcel=p, path=path.tolist()):
            nre += 1
            continue
        r, c = path // W, path % W
        res.expect(r[0] == 0 and int(c[0]) in inlet, "parcel does not enter at the inlet",
                   parcel=p, at=[int(r[0]), int(c[0])])
        res.expect(np.all(ct[r, c] != -2), "parcel in a land cell", parcel=p)
        res.expect(end - 1 <= stepmax, "parcel takes more than the allowed steps",
                   parcel=p, steps=int(end - 1))
        edge = np.nonzero(ct[r, c] == -1)[0]
        if len(edge):
            res.expect(edge[0] == end - 1, "parcel continues beyond the domain edge",
                       parcel=p, path=path.tolist())
        # how it ended: at an edge cell, as a looped parcel, or out of steps
        if not len(edge) and end - 1 < stepmax and end < len(w) and w[end] == 0:
            res.expect(flag[p] == 0, "parcel vanished inside the domain", parcel=p,
                       at=[int(r[-1]), int(c[-1])], steps=int(end - 1))
            tail += 1
        dr, dc = np.diff(r), np.diff(c)
        adj = (np.maximum(np.abs(dr), np.abs(dc)) == 1)
        for k in np.nonzero(~adj)[0]:
            nre += 1
            res.n("relocation")
            a = (r[k], c[k])
            seen = (np.abs(r[:k + 1] - a[0]) <= 1) & (np.abs(c[:k + 1] - a[1]) <= 1) \
                & (r[:k + 1] >= m.L0)
            seen[k] = False  # the cell itself is not a move
            res.expect(seen.any() and max(abs(dr[k]), abs(dc[k])) <= 6,
                       "parcel jumps between cells that are not neighbours", parcel=p,
                       frm=[int(a[0]), int(a[1])], to=[int(r[k + 1]), int(c[k + 1])],
                       W=W)
            res.expect(r[k + 1] >= m.L0 and r[k + 1] <= L - 2
                       and 1 <= c[k + 1] <= W - 2,
                       "relocated parcel is put in the inlet or on the domain border",
                       parcel=p, to=[int(r[k + 1]), int(c[k + 1])])
        # a relocation may be clipped to the border of the routing area and so land
        # next to the parcel: which cell such a step fluxed through is not recorded
        for k in np.nonzero(adj)[0]:
            if k + 1 <= m.L0:
                continue
            y, x = r[k + 1], c[k + 1]
            back = np.any((r[:k + 1] == y) & (c[:k + 1] == x))
            if back and y >= m.L0:
                # a loop: legal only if relocating it led back here
                to = [relocated(m, q) for q in loop_cells(m, r, c, k)]
                res.n("revisit")
                res.expect(any(max(abs(a - y), abs(b - x)) <= 1 for a, b in to),
                           "a parcel that loops is not relocated", parcel=p,
                           at=[int(y), int(x)], step=int(k + 1))
            if back or y in (m.L0, L - 2) or x in (1, W - 2):
                near = (np.abs(r[:k] - r[k]) <= 1) & (np.abs(c[:k] - c[k]) <= 1) \
                    & (r[:k] >= m.L0)
                if near.any():
                    adj[k] = False
                    nre += 1
                    res.n("ambiguous")
        res.n("step", len(dr))
        if end >= 4:
            res.sig(path.tolist(), L, W)
        d = np.hypot(dr, dc)
        for k in np.nonzero(adj)[0]:
            for (y, x) in ((r[k], c[k]), (r[k + 1], c[k + 1])):
                qwn[y, x] += part
                qxn[y, x] += dr[k] / d[k]
                qyn[y, x] += dc[k] / d[k]
        if len(edge) and end >= 2:
            k = end - 2
            if adj[k]:
                qwn[r[-1], c[-1]] += part
                qxn[r[-1], c[-1]] += dr[k] / d[k]
                qyn[r[-1], c[-1]] += dc[k] / d[k]
            else:
                tail += 1
    # discharge: what the paths carry, except the inlet row (a fixed boundary)
    res.n("discharge")
    got = {k: np.asarray(getattr(m, k), float)[1:] for k in ("qwn", "qxn", "qyn")}
    ref = {"qwn": qwn[1:], "qxn": qxn[1:], "qyn": qyn[1:]}
    tol = 1e-4 * max(1.0, np.abs(ref["qwn"]).max())
    if nre == 0 and tail == 0:
        res.n("discharge_exact")
        for k in got:
            t = tol if k == "qwn" else 1e-4 * max(1.0, np.abs(ref[k]).max(), len(walks))
            res.expect(np.abs(got[k] - ref[k]).max() <= t,
                       "parcel flux is not half a parcel per cell and step", field=k,
                       worst=float(np.abs(got[k] - ref[k]).max()))
    extra = (got["qwn"] - ref["qwn"])
    res.expect(extra.min() >= -tol, "discharge of some parcel steps is missing",
               worst=float(extra.min()))
    res.expect(extra.sum() <= part * (3 * nre + 3 * tail) + tol * 10,
               "discharge exceeds what the parcels carry", excess=float(extra.sum()),
               relocations=nre, looped_out=tail)


run_jit = run_py
