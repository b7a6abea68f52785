"""Array, random and time helpers."""
import math

import numpy as np
import util

RULE = (
    "random shapes, indices, weight vectors, states, times and number notations passed to "
    "the helpers as the model calls them (compiled); results compared with independent "
    "implementations, frequencies with the weights (p<1e-9); distinct and non-trivial: "
    "(helper, shape or weight pattern)"
)
PHASES = [
    {"name": "jit", "mode": "jit", "workers": 7,
     "budget": {"quick": 20, "thorough": 900}, "min": {"quick": 70},
     "require": {"indices": 5000, "outside": 100, "pads": 40, "draws": 200000,
                 "states": 100, "times": 200, "numbers": 200, "weights": 50}},
]
KINDS = ["index", "pad", "pick", "start", "state", "time", "yaml", "weights", "uniform",
         "tables"]


def cases_jit(tier, seed):
    rng = util.subrng(seed, "C24", tier)
    return [{"kind": KINDS[i % len(KINDS)], "rs": int(rng.randint(2**31 - 1))}
            for i in range(100 if tier == "quick" else 20000)]


def run_jit(case, res):
    rng = np.random.RandomState(case["rs"])
    from pyDeltaRCM import shared_tools as st

    st.set_random_seed(int(rng.randint(2**31 - 1)))
    globals()["do_" + case["kind"]](rng, st, res)


def do_index(rng, st, res):
    for _ in range(6):
        one_index(rng, st, res)


def a_shape(rng, n):
    """Small ones, and some that do not fit in 8, 15 or 16 bits."""
    if rng.rand() < 0.25:
        a, b = int(rng.randint(1, n)), int(util.pick(rng, 130, 257, 300, 1030, 2050))
        return (a, b) if rng.rand() < 0.6 else (b, a)
    if rng.rand() < 0.1:
        return int(rng.randint(180, 300)), int(rng.randint(180, 300))
    return int(rng.randint(1, n)), int(rng.randint(1, n))


def one_index(rng, st, res):
    sh = a_shape(rng, 60)
    n = sh[0] * sh[1]
    res.sig("index", sh)
    ids = set(rng.randint(0, n, 150).tolist()) | {0, n - 1, min(n - 1, sh[1]), sh[1] - 1}
    for i in ids:
        res.n("indices")
        want = (i // sh[1], i - (i // sh[1]) * sh[1])
        got = tuple(int(q) for q in st.custom_unravel(i, sh))
        res.expect(got == want, "unravelled index is not the cell's row and column",
                   index=i, shape=sh, got=got, want=want)
        res.expect(int(st.custom_ravel(want, sh)) == i, "ravelled index is not the cell's",
                   cell=want, shape=sh)
    for i in (n, n + 1, n + int(rng.randint(2, 100)), -1, -n, -int(rng.randint(2, 100))):
        res.n("outside")
        try:
            got = st.custom_unravel(i, sh)
            res.fail("an index outside the array is unravelled", index=i, shape=sh,
                     got=list(got))
        except IndexError:
            pass
    for t in ((sh[0], 0), (0, sh[1]), (sh[0] - 1, sh[1]), (sh[0] + 3, 0), (0, sh[1] + 2),
              (-1, 0), (0, -1), (sh[0] - 1, -1), (-1, sh[1] - 1), (-2, -3)):
        res.n("outside")
        try:
            got = st.custom_ravel(t, sh)
            res.fail("a cell outside the array is ravelled", cell=t, shape=sh, got=got)
        except IndexError:
            pass


def do_pad(rng, st, res):
    for _ in range(6):
        sh = a_shape(rng, 40)
        dt = [np.float32, np.int64, np.float64][rng.randint(3)]
        a = (rng.normal(0, 100, sh)).astype(dt)
        a0 = a.copy()
        p = st.custom_pad(a)
        res.n("pads")
        res.sig("pad", sh, dt.__name__)
        rows = np.clip(np.arange(-1, sh[0] + 1), 0, sh[0] - 1)
        cols = np.clip(np.arange(-1, sh[1] + 1), 0, sh[1] - 1)
        res.expect(p.dtype == a.dtype and np.array_equal(p, a0[rows][:, cols]) and
                   np.array_equal(a, a0),
                   "a padded array is not the array with its border repeated once",
                   shape=sh, dtype=dt.__name__)


def chi(counts, p, n):
    from scipy.stats import chi2

    p = np.asarray(p, float) / np.sum(p)
    k = p > 0
    if counts[~k].any():
        return 0.0
    big = k & (p * n >= 8)
    rest = k & ~big
    o, e = list(counts[big]), list(p[big] * n)
    if rest.any():
        o.append(counts[rest].sum())
        e.append(p[rest].sum() * n)
    o, e = np.array(o, float), np.array(e)
    if len(o) < 2:
        return 1.0
    return chi2.sf(((o - e) ** 2 / np.maximum(e, 1e-12)).sum(), len(o) - 1) \
        if e.min() > 1 else chi2.sf(((o[:-1] - e[:-1]) ** 2 / e[:-1]).sum(), len(o) - 1)


def weights(rng, n):
    w = rng.rand(n)
    z = rng.rand(n) < util.pick(rng, 0.0, 0.3, 0.7)
    w[z] = 0
    r = rng.rand()
    if r < 0.3:
        w[0] = 0
    elif r < 0.6:
        w[-1] = 0
    if rng.rand() < 0.3:
        w = np.where(w > 0, 1.0, 0.0)
    if not w.any():
        w[rng.randint(n)] = 1.0
    if rng.rand() < 0.5:
        w = w / w.sum()
    else:
        w = w * util.pick(rng, 1e-6, 3.0, 1e4)
    return w


def do_pick(rng, st, res):
    for _ in range(4):
        n = int(util.pick(rng, 9, 9, 1, 2, 5, 30))
        w = weights(rng, n)
        if rng.rand() < 0.4:
            w = w.astype(np.float32)
        N = 8000
        c = np.zeros(n)
        for _ in range(N):
            i = int(st.random_pick(w))
            if not 0 <= i < n:
                res.fail("a weighted pick is outside the weights", got=i, n=n)
                return
            c[i] += 1
        res.n("draws", N)
        res.sig("pick", n, int((w > 0).sum()), bool(w[0]), bool(w[-1]))
        res.expect(not c[w == 0].any(), "an outcome with zero weight is drawn",
                   weights=w.tolist(), counts=c.tolist())
        res.expect(chi(c, w, N) > 1e-9, "outcomes are not drawn in proportion to their "
                   "weights", weights=w.tolist(), counts=c.tolist())


def do_start(rng, st, res):
    first, n = int(rng.randint(0, 60)), int(rng.randint(1, 14))
    inlet = np.arange(first, first + n)
    iw = st.get_inlet_weights(inlet)
    res.expect(len(iw) == n and np.all(np.asarray(iw) == iw[0]) and iw[0] > 0,
               "inlet cells do not have equal weights")
    for w in (iw, weights(rng, n)):
        N = int(util.pick(rng, 5000, 12000))
        s = np.asarray(st.get_start_indices(inlet, w, N))
        res.n("draws", N)
        res.sig("start", n, w is iw)
        res.expect(s.shape == (N,) and np.all((s >= first) & (s < first + n)),
                   "start cells are not one inlet cell for each parcel", n=N)
        c = np.bincount(s - first, minlength=n)[:n].astype(float)
        res.expect(chi(c, w, N) > 1e-9, "start cells are not drawn in proportion to the "
                   "inlet weights", weights=np.asarray(w).tolist(), counts=c.tolist())
    for N in (1, 2, 3):
        res.expect(len(st.get_start_indices(inlet, iw, N)) == N, "wrong number of starts")


def do_state(rng, st, res):
    for _ in range(12):
        seed = int(util.pick(rng, 0, 1, 2**32 - 1, int(rng.randint(2**31 - 1))))
        st.set_random_seed(seed)
        a = [st.get_random_uniform(1.0) for _ in range(20)]
        st.set_random_seed(seed)
        res.expect([st.get_random_uniform(1.0) for _ in range(20)] == a,
                   "the same seed gives different random numbers", seed=seed)
        skip = int(util.pick(rng, 0, 1, 292, 312, 623, 1000))
        for _ in range(skip):
            st.get_random_uniform(1.0)
        s = st.get_random_state()
        b = [st.get_random_uniform(1.0) for _ in range(700)]
        via = util.pick(rng, "direct", "npz", "other")
        if via == "npz":
            f = util.outdir() + ".npz"
            o = np.empty(len(s), dtype=object)
            for i, q in enumerate(s):
                o[i] = q
            np.savez(f, s=np.array(s, dtype=object))
            s = tuple(np.load(f, allow_pickle=True)["s"])
        elif via == "other":
            st.set_random_seed(int(rng.randint(1000)))
            st.get_random_uniform(3.0)
        st.set_random_state(s)
        res.n("states")
        res.sig("state", skip, via)
        res.expect([st.get_random_uniform(1.0) for _ in range(700)] == b,
                   "a restored random state does not continue the same stream",
                   skip=skip, via=via)


def do_uniform(rng, st, res):
    from scipy.stats import kstest

    for lim in (1.0, 0.001, 1e6, float(rng.rand() * 50)):
        x = np.array([st.get_random_uniform(lim) for _ in range(6000)])
        res.n("draws", len(x))
        res.sig("uniform", lim)
        res.expect(x.min() >= 0 and x.max() < lim * (1 + 1e-12),
                   "a random number is outside its range", limit=lim)
        res.expect(kstest(x / lim, "uniform").pvalue > 1e-9 and
                   abs(np.corrcoef(x[1:], x[:-1])[0, 1]) < 0.1,
                   "random numbers are not uniform and independent", limit=lim)


def do_time(rng, st, res):
    from pyDeltaRCM import preprocessor

    for _ in range(40):
        t = float(util.pick(rng, 0.0, 1.0, 86400.0, 1e9, rng.rand() * 1e7))
        If = float(util.pick(rng, 1.0, 0.1, 10 / 365.25, rng.rand() * 0.99 + 0.005, 1e-5))
        u = util.pick(rng, "seconds", "days", "years")
        f = {"seconds": 1.0, "days": 86400.0, "years": 86400 * 365.25}[u]
        res.n("times")
        g = st.scale_model_time(t, If=If, units=u)
        res.expect(abs(g - t / If / f) <= 1e-12 * abs(t / If / f),
                   "scaled model time is not time over intermittency in the unit asked for",
                   time=t, If=If, units=u, got=g)
        mm = float(util.pick(rng, rng.rand() * 20, -rng.rand() * 5, 0.0, 1000.0))
        g = preprocessor.scale_relative_sea_level_rise_rate(mm, If=If)
        w = mm / 1000 / (86400 * 365.25) / If
        res.expect(abs(g - w) <= 1e-12 * abs(w), "scaled sea level rise is not the rate in "
                   "metres per second of model time", mmyr=mm, If=If, got=g, want=w)
        res.sig("time", u, If)
        for bad in ({"If": 0.0}, {"If": 1.0001}, {"If": -0.5}, {"units": "hours"}):
            try:
                st.scale_model_time(t, **bad)
                res.fail("an invalid intermittency or unit is accepted", **bad)
            except ValueError:
                pass
    res.expect(st.scale_model_time(5.0) == 5.0, "model time is scaled by default")
    g = preprocessor.scale_relative_sea_level_rise_rate(3.0)
    res.expect(abs(g * 86400 * 365.25 - 0.003) < 1e-12, "sea level rise is scaled by an "
               "intermittency by default", got=g)


def do_yaml(rng, st, res):
    import yaml

    for _ in range(40):
        x = float(util.pick(rng, rng.normal(0, 1), rng.rand() * 1e-9, rng.rand() * 1e12,
                            0.0, float(rng.randint(100)), -2.5e-7))
        k = int(rng.randint(-999, 999))
        forms = {repr(x): x, "%.17e" % x: x, ("%.17e" % x).upper(): x, "%d." % k: float(k),
                 "%d" % k: k, "%de-3" % k: float("%de-3" % k), "%de5" % k: k * 1e5,
                 "%de+2" % k: k * 1e2, ".5": 0.5, "null": None, "true": True, "False": False,
                 "abc": "abc", "e5": "e5", "-e3": "-e3", "1_000": 1000, "1_000.5": 1000.5, "'1e5'": "1e5", "job_1e5": "job_1e5", "1.2.3": "1.2.3"}
        for s, w in forms.items():
            res.n("numbers")
            try:
                g = yaml.load("a: %s\nb: [%s, %s]\n" % (s, s, s),
                              Loader=st.custom_yaml_loader())
            except Exception as e:  # noqa
                res.fail("a value in a configuration file cannot be read", text=s,
                         error=repr(e)[:200])
                continue
            ok = type(g["a"]) is type(w) and g["a"] == w and g["b"] == [w, w]
            res.expect(ok, "a value in a configuration file is read as something else",
                       text=s, got=repr(g), want=repr(w))
    res.sig("yaml", k)


def do_weights(rng, st, res):
    from pyDeltaRCM import DeltaModel  # noqa

    iv, jv, ds = TAB["ivec"], TAB["jvec"], TAB["distances"]
    for _ in range(20):
        stage = np.float32(rng.normal())
        nb = rng.normal(0, 1, 9).astype(np.float32)
        qx, qy = np.float32(rng.normal()), np.float32(rng.normal())
        a, b = st.get_weight_sfc_int(stage, nb, qx, qy, iv.astype(np.float32),
                                     jv.astype(np.float32), ds.astype(np.float32))
        wa = np.maximum(0, (float(stage) - nb) / ds)
        wb = np.maximum(0, (float(qx) * jv + float(qy) * iv) / ds)
        res.n("weights")
        res.expect(np.allclose(a, wa, atol=1e-5) and np.allclose(b, wb, atol=1e-5),
                   "routing weights are not downhill slope and alignment with the flow",
                   got=[np.asarray(a).tolist(), np.asarray(b).tolist()])
    res.sig("weights", float(stage))


R = math.sqrt(0.5)
TAB = {
    "distances": np.array([math.sqrt(2), 1, math.sqrt(2), 1, 1, 1, math.sqrt(2), 1,
                           math.sqrt(2)]),
    "ivec": np.array([-R, 0, R, -1, 0, 1, -R, 0, R]),
    "jvec": np.array([-R, -1, -R, 0, 0, 0, R, 1, R]),
    "iwalk": np.array([-1, 0, 1] * 3), "jwalk": np.repeat([-1, 0, 1], 3),
}


def do_tables(rng, st, res):
    c = util.gen_config(rng, "tiny")
    m = util.make(c)
    for k, w in TAB.items():
        for g in (getattr(m, k), getattr(m, k + "_flat")):
            res.expect(np.allclose(np.ravel(g), w, atol=1e-6),
                       "neighbour table does not describe the eight neighbours", table=k)
    res.expect(np.array_equal(np.ravel(m.ravel_walk), TAB["jwalk"] * m.W + TAB["iwalk"]) and
               np.array_equal(np.ravel(m.ravel_walk_flat), np.ravel(m.ravel_walk)),
               "flat neighbour offsets do not lead to the neighbours")
    for d in range(9):
        dist, i, j, a = st.get_steps(d, m.iwalk_flat, m.jwalk_flat)
        res.expect((i, j) == (TAB["iwalk"][d], TAB["jwalk"][d]) and bool(a) == (d != 4) and
                   abs(dist - math.hypot(i, j)) < 1e-6, "a step is not to the neighbour "
                   "in its direction", direction=d, got=[float(dist), int(i), int(j)])
    res.sig("tables", m.W)
    m.finalize()
