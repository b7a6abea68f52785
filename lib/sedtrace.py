"""Step-by-step observation of sediment parcels, without looking inside a router.

A stand-in takes the place of the model's router and receives the model's own call.
For a sampled parcel the real router is run again and again on copies of the fields,
from the same random state, allowed 1, 2, 3, ... steps: the difference between two
consecutive runs is the effect of exactly one step.  Then the real call is made."""
import numpy as np

import util

NAMES = ("eta", "stage", "depth", "cell_type", "uw", "ux", "uy", "Vp_dep_mud",
         "Vp_dep_sand", "qw", "qx", "qy", "qs", "mod_sed_weight")
OUT = ("eta", "depth", "uw", "ux", "uy", "Vp_dep_mud", "Vp_dep_sand", "qs")
DJ = np.array([-1, -1, -1, 0, 0, 0, 1, 1, 1])   # along the flow (rows)
DI = np.array([-1, 0, 1, -1, 0, 1, -1, 0, 1])   # across (columns)
DIST = np.where((DJ != 0) & (DI != 0), np.sqrt(2.0), 1.0)
S = np.where((DJ != 0) & (DI != 0), np.sqrt(0.5), 1.0)


class Missing(util.Unobservable):
    pass


def where(m, kind):
    """Name of the attribute that holds the model's router of this kind."""
    d = vars(m)
    if {"sand": "_sr", "mud": "_mr"}[kind] in d:
        return {"sand": "_sr", "mud": "_mr"}[kind]
    hit = [k for k, v in d.items() if callable(getattr(v, "run", None)) and (
        kind in type(v).__name__.lower() or kind in k.lower())]
    if len(hit) != 1:
        raise Missing("the model has no %s router" % kind)
    return hit[0]


def both(m):
    return where(m, "sand"), where(m, "mud")


class Call(object):
    """Arguments of a call, by position or by name."""

    def __init__(self, a, kw):
        self.pos, self.kw = list(a), dict(kw)

    def items(self):
        return list(enumerate(self.pos)) + list(self.kw.items())

    def copy(self):
        return Call(self.pos, self.kw)

    def __getitem__(self, k):
        return self.kw[k] if isinstance(k, str) else self.pos[k]

    def __setitem__(self, k, v):
        if isinstance(k, str):
            self.kw[k] = v
        else:
            self.pos[k] = v

    def find_starts(self, m):
        """The one argument that is not a field of the model: the start cells."""
        hit = [k for k, v in self.items() if isinstance(v, (list, np.ndarray))
               and np.ndim(v) == 1]
        if len(hit) != 1:
            raise Missing("router call without the start cells")
        return hit[0]

    def into(self, router):
        return router.run(*self.pos, **self.kw)


class Step(object):
    """One observed step: fields before and after, where it may have been."""
    __slots__ = ("k", "kind", "before", "after", "changed", "hyp", "load", "load_err",
                 "ended", "parcel")


class Probe(object):
    def __init__(self, real, kind, m, judge, nparcels, kmax, rng):
        self.__dict__["_p"] = (real, kind, m, judge, nparcels, kmax, rng)

    def __getattr__(self, k):
        return getattr(self.__dict__["_p"][0], k)

    def __setattr__(self, k, v):
        setattr(self.__dict__["_p"][0], k, v)

    def run(self, *a, **kw):
        from pyDeltaRCM import shared_tools as st

        real, kind, m, judge, nparcels, kmax, rng = self.__dict__["_p"]
        args = Call(a, kw)
        sk = args.find_starts(m)
        starts = args[sk]
        pos = {n: i for i, v in args.items() for n in NAMES
               if getattr(m, n, None) is v}
        need = [n for n in NAMES if kind == "sand" or n != "qs"]
        if any(n not in pos for n in need):
            raise Missing("router call does not receive the model's fields")
        keep = m.stepmax
        attrs = {n: getattr(m, n) for n in both(m)}

        def fresh(k):
            m.stepmax = k
            try:
                m.init_sediment_routers()
                return getattr(m, where(m, kind))
            finally:
                m.stepmax = keep
                for n, v in attrs.items():
                    setattr(m, n, v)

        def arrays():
            a = args.copy()
            for n in pos:
                a[pos[n]] = a[pos[n]].copy()
            return a

        full = [i for i in range(len(starts))]
        chosen = set(rng.permutation(full)[:nparcels].tolist())
        rs_begin = st.get_random_state()
        single = arrays()                # advanced parcel by parcel
        for i in full:
            s1 = starts[i:i + 1]
            rs0 = st.get_random_state()
            if i in chosen:
                self.follow(judge, kind, m, sk, s1, single, pos, fresh, rs0, st, kmax, i)
                st.set_random_state(rs0)
            single[sk] = s1
            single.into(fresh(int(keep)))
        rs_end = st.get_random_state()
        st.set_random_state(rs_begin)
        args.into(real)
        judge.whole(kind, m, {n: (args[pos[n]], single[pos[n]]) for n in OUT if n in pos},
                    st.get_random_state() == rs_end, len(starts))

    @staticmethod
    def follow(judge, kind, m, sk, s1, base, pos, fresh, rs0, st, kmax, i):
        dx, vp = float(m.dx), float(m.Vp_sed)
        # a mark in every cell: a visit leaves the depth as surface minus bed
        mark = np.random.RandomState(i + 1).uniform(2e-6, 6e-6, m.eta.shape)
        base = base.copy()
        base[sk] = s1
        base[pos["depth"]] = (base[pos["depth"]] * (1 + mark)).astype("f4")
        prev = {n: base[pos[n]].copy() for n in pos}
        start = (0, int(s1[0]))
        hyp = {start}
        load, err = vp, 1e-7 * vp
        rprev = rs0
        for k in range(1, min(kmax, int(m.stepmax)) + 1):
            a = base.copy()
            for n in pos:
                a[pos[n]] = base[pos[n]].copy()
            st.set_random_state(rs0)
            a.into(fresh(k))
            rk = st.get_random_state()
            cur = {n: a[pos[n]] for n in pos}
            ev = Step()
            ev.k, ev.kind, ev.before, ev.after, ev.parcel = k, kind, prev, cur, i
            ev.load, ev.load_err, ev.ended = load, err, rk == rprev
            if kind == "sand" and k == 1:
                # the supply enters at the start cell before the first step
                prev = dict(prev)
                prev["qs"] = prev["qs"].copy()
                prev["qs"][start] += np.float32(vp / 2.0 / m.dt / dx)
                ev.before = prev
            ch = {}
            for n in pos:
                w = np.argwhere(~((cur[n] == prev[n]) | (np.isnan(cur[n]) & np.isnan(prev[n]))))
                if len(w):
                    ch[n] = {tuple(int(x) for x in c) for c in w}
            ev.changed, ev.hyp = ch, hyp
            hyp = judge.step(m, ev)
            if ev.ended or not hyp:
                break
            if "eta" in ch:
                for c in ch["eta"]:
                    d = float(cur["eta"][c]) - float(prev["eta"][c])
                    load -= d * dx * dx
                    err += 2.5e-7 * (abs(float(cur["eta"][c])) + abs(d)
                                     ) * dx * dx + 1e-7 * (abs(load) + vp)
            prev, rprev = cur, rk


def consistent(m, ev):
    """Pairs (from, to) under which the step is a legal move that touched nothing
    but the cells it connects."""
    L, W = m.eta.shape
    own = set()
    for n, c in ev.changed.items():
        if n != "qs":
            own |= c
    qs = ev.changed.get("qs", set())
    out = []
    if len(own) > 1 or len(qs) > 2:
        return out
    part = (ev.load - 3 * ev.load_err) / 2.0 / float(m.dt) / float(m.dx)
    for p in ev.hyp:
        for d in range(9):
            n = (p[0] + int(DJ[d]), p[1] + int(DI[d]))
            if d == 4 or not (0 <= n[0] < L and 0 <= n[1] < W):
                continue
            if m.cell_type[n] == -2:
                continue
            if not (own <= {n} and qs <= {p, n}):
                continue
            if ev.kind == "sand" and not qs and part > 1e-5 * max(
                    float(ev.before["qs"][p]), float(ev.before["qs"][n]), 1e-30):
                continue
            if ev.kind == "sand" and qs and qs != {p, n} and part > 1e-5 * max(
                    float(ev.before["qs"][p]), float(ev.before["qs"][n]), 1e-30):
                continue
            out.append((p, n, d))
    return out


def left_consistent(m, ev, n):
    """Are depth and velocity of a visited cell those of its bed after the step?"""
    b, a = ev.before, ev.after
    dep = max(0.0, float(b["stage"][n]) - float(a["eta"][n]))
    tol = 6e-7 * (0.3 + abs(float(b["stage"][n])) + abs(float(a["eta"][n])))
    if abs(float(a["depth"][n]) - dep) > tol:
        return False
    q = float(b["qw"][n])
    dd = float(a["depth"][n])
    u = min(2.0 * float(m.u0), q / dd) if dd > 0 else float(b["uw"][n])
    if abs(float(a["uw"][n]) - u) > 1e-5 * (u + 1e-6):
        return False
    for c, qc in (("ux", "qx"), ("uy", "qy")):
        w = u * float(b[qc][n]) / q if q > 0 else 0.0
        if abs(float(a[c][n]) - w) > 1e-5 * (abs(w) + u) + 1e-7:
            return False
    return True


def prune(m, ev, pairs):
    """Drop the moves that would have left other traces (see left_consistent)."""
    keep = [x for x in pairs if left_consistent(m, ev, x[1])]
    return keep or pairs


def sed_weights(m, f, p, theta):
    """Documented direction weights of a sediment parcel at cell p, fields f.
    Returns (weights, sure): sure is False where a neighbour is at the dry limit."""
    L, W = m.eta.shape
    r = np.clip(p[0] + DJ, 0, L - 1)
    c = np.clip(p[1] + DI, 0, W - 1)
    inside = (p[0] + DJ >= 0) & (p[0] + DJ < L) & (p[1] + DI >= 0) & (p[1] + DI < W)
    d = f["depth"][r, c].astype(float)
    mod = f["mod_sed_weight"][r, c].astype(float)
    wall = f["cell_type"][r, c] == -2
    dry = d <= m.dry_depth
    sure = np.all(np.abs(d - m.dry_depth) > 1e-5 * m.dry_depth)
    inr = np.maximum(0, (float(f["qx"][p]) * DJ + float(f["qy"][p]) * DI) * S / DIST)
    w = np.where(dry | wall, 0.0, (np.abs(d) * mod) ** theta * inr)
    w[4] = 0
    if w.sum() == 0:
        w = 1 / DIST
        w[wall] = 0
        w[4] = 0
    w[~inside] = 0
    return w, bool(sure)
