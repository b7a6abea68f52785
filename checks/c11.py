"""Where sediment parcels go, and what they touch."""
import numpy as np
import sedtrace
import util

RULE = (
    "random configurations and beds x updates; sampled sediment parcels are followed "
    "step by step and every array element a step changes is accounted for; each whole "
    "call is compared with its parcels routed one by one; distinct and non-trivial: a "
    "followed parcel of at least 4 steps"
)
PHASES = [
    {"name": "jit", "mode": "jit", "workers": 7,
     "budget": {"quick": 20, "thorough": 1200}, "min": {"quick": 20},
     "require": {"step": 4000, "ended_at_edge": 60, "whole": 100, "allowed": 3000,
                 "limit": 20}},
]


def cases_jit(tier, seed):
    rng = util.subrng(seed, "C11", tier)
    out = []
    for i in range(60 if tier == "quick" else 4000):
        c = util.gen_config(rng, "tiny" if i % 4 else "small")
        if i == 0:
            c = util.gen_config(rng, "huge", itermax=1, Np_water=20)
        c["Np_sed"] = int(util.pick(rng, 8, 20, 40))
        c["f_bedload"] = float(util.pick(rng, 0.25, 0.5, 0.75))
        if i % 12 == 7:
            c["Np_sed"] = int(util.pick(rng, 300, 517))
        c["stepmax"] = util.pick(rng, None, None, 12, 25, 12.6, 19.5)
        out.append({"cfg": c, "steps": 3,
                    "shock": util.pick(rng, None, "bumps", "shoal", "plug"),
                    "stir": bool(i % 5 == 0), "rs": int(rng.randint(2**31 - 1))})
    return out


class Judge(object):
    def __init__(self, res, rs):
        self.res, self.rs = res, rs

    def whole(self, kind, m, pairs, same_rng, n):
        self.res.n("whole")
        bad = [k for k, (x, y) in pairs.items() if not np.array_equal(x, y, equal_nan=True)]
        self.res.expect(not bad and same_rng,
                        "routing %s parcels together differs from routing them one after "
                        "the other" % kind, fields=bad, parcels=n)

    def step(self, m, ev):
        res = self.res
        ct = m.cell_type
        at_edge = {bool(ct[h] == -1) for h in ev.hyp}
        if ev.ended:
            res.expect(True in at_edge, "a %s parcel stops inside the domain before its "
                       "last allowed step" % ev.kind, step=ev.k - 1, at=list(ev.hyp)[:3],
                       stepmax=int(m.stepmax))
            res.expect(not ev.changed, "fields change although no step is taken", step=ev.k)
            res.n("ended_at_edge")
            if ev.k > 4:
                res.sig(self.rs, int(m.time_iter), ev.kind, ev.parcel)
            return set()
        res.n("step")
        if not res.expect(False in at_edge, "a %s parcel goes on from a domain-edge cell"
                          % ev.kind, step=ev.k, at=list(ev.hyp)[:3]):
            return set()
        land = [(n, c) for n, cs in ev.changed.items() for c in cs if ct[c] == -2]
        res.expect(not land, "a %s parcel changes a land cell" % ev.kind, where=land[:3])
        ev.hyp = {h for h in ev.hyp if ct[h] != -1}
        pairs = sedtrace.consistent(m, ev)
        if not pairs:
            res.fail("a step of a %s parcel is not a move to an adjacent cell that is not "
                     "land" % ev.kind, step=ev.k, at=list(ev.hyp)[:3],
                     changed={k: list(v)[:4] for k, v in ev.changed.items()})
            return set()
        # the visited cell is left consistent
        pairs = [x for x in pairs if sedtrace.left_consistent(m, ev, x[1])]
        if not res.expect(pairs, "depth or velocity of a cell visited by a %s parcel does not "
                          "match its bed" % ev.kind, step=ev.k):
            return set()
        if len(pairs) > 12:
            res.n("lost_track")
            return set()
        if int(ev.k) == int(m.stepmax):
            res.n("limit")
        # the rule allows this direction, on the fields as they are now
        theta = float(m.theta_water) * float(
            m.coeff_theta_sand if ev.kind == "sand" else m.coeff_theta_mud)
        ok, unsure = False, False
        for p, n, d in pairs:
            w, sure = sedtrace.sed_weights(m, ev.before, p, theta)
            unsure |= not sure
            ok |= bool(w[d] > 0)
        if not unsure:
            res.n("allowed")
            res.expect(ok, "a %s parcel steps where the routing rule gives it no weight"
                       % ev.kind, step=ev.k, move=[pairs[0][0], pairs[0][1]],
                       weights=w.tolist(), q=[float(ev.before["qx"][p]),
                                              float(ev.before["qy"][p])])
        # the flux of the parcel is added to the cells it connects
        if ev.kind == "sand":
            b, a = ev.before, ev.after
            part = ev.load / 2.0 / float(m.dt) / float(m.dx)
            tolq = 1e-5 * part + ev.load_err / 2.0 / float(m.dt) / float(m.dx)
            good = False
            for p, n, d in pairs:
                good |= all(abs(float(a["qs"][c]) - float(b["qs"][c]) - part)
                            <= tolq + 4e-7 * abs(float(a["qs"][c])) for c in (p, n))
            res.expect(good, "the sediment flux recorded for a sand step is not the load of "
                       "the parcel", step=ev.k, load=ev.load)
        return {n for _, n, _ in pairs}


def run_jit(case, res):
    from checks import c10

    m = c10.drive(case, res, Judge(res, case["rs"]), 4, 80)
    res.sample({"cfg_seed": case["cfg"]["seed"], "counts": dict(res.counts)})
