"""Inspecting a model."""
import glob
import os

import numpy as np
import util

RULE = (
    "models of random shape and history; every two-dimensional attribute drawn with random "
    "options and compared cell by cell with the attribute; random points and lines in every "
    "documented notation; wrong names and indices; the model continued afterwards and "
    "compared with one never looked at; the same run at each verbosity; distinct and "
    "non-trivial: (what was drawn, notation, options)"
)
PHASES = [
    {"name": "show", "mode": "nojit", "workers": 8,
     "budget": {"quick": 25, "thorough": 600}, "min": {"quick": 30},
     "require": {"images": 300, "points": 1500, "lines": 400, "refused": 300,
                 "untouched": 30, "views": 400}},
    {"name": "log", "mode": "nojit", "workers": 8,
     "budget": {"quick": 15, "thorough": 300}, "min": {"quick": 12},
     "require": {"levels": 40, "lines_compared": 1000, "messages": 100}},
]


def cases_show(tier, seed):
    rng = util.subrng(seed, "C21", tier)
    return [{"cfg": util.gen_config(rng, "tiny", Np_water=int(util.pick(rng, 5, 9)), Np_sed=6,
                                    itermax=1, f_bedload=0.5),
             "steps": int(rng.randint(0, 3)), "s": int(rng.randint(2**31 - 1))}
            for _ in range(40 if tier == "quick" else 3000)]


def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def everything(m):
    """Digest of all arrays and numbers the model object holds."""
    import hashlib

    h = hashlib.md5(util.digest(m).encode())
    for k in sorted(vars(m)):
        v = vars(m)[k]
        if isinstance(v, np.ndarray) and v.dtype != object:
            h.update(k.encode() + str(v.shape).encode() + np.ascontiguousarray(v).tobytes())
        elif isinstance(v, (int, float, str, bool, list, tuple, dict)):
            h.update(k.encode() + repr(v).encode())
    return h.hexdigest()


def views(m, n, res):
    """The names under which the state of a model is read."""
    for a, b in (("bed_elevation", "eta"), ("water_depth", "depth"),
                 ("sea_surface_elevation", "stage")):
        res.n("views")
        res.expect(same(getattr(m, a), getattr(m, b)), "a view of the model is not its "
                   "current field", view=a)
    for a, b in (("time_step", m.dt), ("sea_surface_mean_elevation", m.H_SL),
                 ("channel_flow_velocity", m.u0), ("channel_flow_depth", m.h0),
                 ("channel_width", m.N0 * m.dx), ("sea_surface_elevation_change", m.SLR),
                 ("bedload_fraction", m.f_bedload),
                 ("time_iter", n)):
        got = float(getattr(m, a))
        res.n("views")
        res.expect(abs(got - b) <= 1e-12 * abs(b), "a view of the model is not its current "
                   "value", view=a, got=got, want=b)
    res.expect(abs(m.time - n * m.dt) <= 1e-9 * (m.time + m.dt), "the time read is not that "
               "of the model", got=m.time, steps=n)


def run_show(case, res):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from pyDeltaRCM import shared_tools

    rng = np.random.RandomState(case["s"])
    m = util.make(case["cfg"])
    views(m, 0, res)
    for i in range(case["steps"]):
        m.update()
        views(m, i + 1, res)
    L, W = m.eta.shape
    # fields a subclass may keep, with values far apart, integers and switches
    m.my_field = rng.normal(size=(L, W)) * 10.0 ** rng.randint(-8, 9, (L, W))
    m.my_count = rng.randint(-5000, 5000, (L, W))
    m.my_switch = rng.rand(L, W) < 0.5
    before = everything(m)
    state = [np.array(x) if isinstance(x, np.ndarray) else x
             for x in shared_tools.get_random_state()]
    grids = [k for k in dir(type(m)) + list(vars(m)) if not k.startswith("__")]
    grids = sorted(k for k in grids if isinstance(getattr(m, k, None), np.ndarray)
                   and getattr(m, k).ndim == 2)
    res.expect(set(util.STATE) <= set(grids), "the model holds its fields as 2d arrays")
    names = list(util.STATE) + ["cell_type"] + [k for k in grids if rng.rand() < 0.15]
    rng.shuffle(names)
    for name in names[:9] + ["my_field", "my_count", "my_switch"]:
        n = int(rng.randint(1, 4))
        fig, axs = plt.subplots(1, n, squeeze=False)
        axs = list(axs[0])
        k = int(rng.randint(n))
        kw = {}
        use_ax = rng.rand() < 0.7
        if use_ax:
            kw["ax"] = axs[k]
        else:
            plt.sca(axs[k])
        grid = util.pick(rng, None, True, False)
        if grid is not None:
            kw["grid"] = grid
        label = util.pick(rng, None, "a label")
        if label:
            kw["label"] = label
        vm = None
        if rng.rand() < 0.3:
            vm = (-3.0, 2.0)
            kw["vmin"], kw["vmax"] = vm
        cmap = util.pick(rng, None, None, "Blues", plt.get_cmap("Reds"))
        if cmap is not None:
            kw["cmap"] = cmap
        m.show_attribute(name, **kw)
        res.n("images")
        for i, a in enumerate(axs):
            im = a.get_images()
            if i != k:
                res.expect(not im and not a.lines, "drew into axes it was not asked to use",
                           name=name)
                continue
            if not res.expect(len(im) == 1, "not one image in the axes asked for", name=name,
                              n=len(im)):
                continue
            want = np.asarray(getattr(m, name), float)
            got = im[0].get_array()
            if isinstance(got, np.ma.MaskedArray):
                got = got.filled(np.nan)
            res.expect(same(got, want), "the image is not the attribute, cell by cell",
                       name=name, wrong=int(np.sum(np.asarray(got, float) != want))
                       if got.shape == want.shape else got.shape)
            x0, x1, y0, y1 = im[0].get_extent()
            r, c = want.shape
            res.expect((x0, x1, y0, y1) == (-0.5, c - 0.5, r - 0.5, -0.5)
                       and a.get_ylim()[0] > a.get_ylim()[1],
                       "cell (row, column) is not drawn at x = column, y = row", name=name,
                       extent=[x0, x1, y0, y1])
            if vm:
                res.expect(im[0].get_clim() == vm, "the colour range asked for is not used")
            elif np.isfinite(want).all() and want.min() < want.max():
                lim = im[0].get_clim()
                res.expect(util.close(lim, (want.min(), want.max()), rtol=1e-6, atol=1e-12),
                           "the colour range does not span the values", name=name,
                           got=list(lim), want=[want.min(), want.max()])
            cm = plt.get_cmap("viridis" if cmap is None else cmap)
            res.expect(im[0].get_cmap().name == cm.name, "not the colour map asked for")
            tx, ty = a.xaxis.get_minorticklocs(), a.yaxis.get_minorticklocs()
            if grid is False:
                res.expect(len(tx) == 0 and len(ty) == 0, "cell grid shown although off")
            else:
                res.expect(same(tx, np.arange(c + 1) - 0.5) and
                           same(ty, np.arange(r + 1) - 0.5),
                           "the grid does not separate the cells", name=name)
            if label:
                res.expect(any(label in (b.get_ylabel(), b.get_xlabel()) for b in fig.axes),
                           "the label asked for is not shown")
            res.sig("image", name, grid, use_ax, n, bool(vm))
        plt.close(fig)
    # points
    fig, axs = plt.subplots(1, 2)

    def cell():
        return int(util.pick(rng, 0, L - 1, rng.randint(L))), \
            int(util.pick(rng, 0, W - 1, rng.randint(W)))

    def drawn(a):
        return sorted((float(x), float(y)) for ln in a.lines
                      for x, y in zip(np.atleast_1d(ln.get_xdata()),
                                      np.atleast_1d(ln.get_ydata())))

    for _ in range(14):
        axs[0].clear(), axs[1].clear()
        plt.sca(axs[1])
        n = int(rng.randint(1, 9))
        cs = [cell() for _ in range(n)]
        how = util.pick(rng, "tuple", "flat", "tuples", "flats", "mix", "array")
        if how in ("tuple", "flat"):
            cs = cs[:1]
        ind = {"tuple": lambda: cs[0], "flat": lambda: cs[0][0] * W + cs[0][1],
               "tuples": lambda: cs, "flats": lambda: [r * W + c for r, c in cs],
               "mix": lambda: [rc if rng.rand() < 0.5 else rc[0] * W + rc[1] for rc in cs],
               "array": lambda: np.array([r * W + c for r, c in cs])}[how]()
        args, kw = util.pick(rng, ((), {}), (("g^",), {}), ((), {"marker": "s"}),
                             ((), {"color": "blue", "markersize": 7}))
        kw = dict(kw)
        use = rng.rand() < 0.6
        if use:
            kw["ax"] = axs[0]
        m.show_ind(ind, *args, **kw)
        a, o = (axs[0], axs[1]) if use else (axs[1], axs[0])
        res.n("points", len(cs))
        res.expect(drawn(a) == sorted((float(c), float(r)) for r, c in cs),
                   "the marks are not at the cells asked for", how=how, got=drawn(a)[:5],
                   want=[(c, r) for r, c in cs][:5])
        res.expect(not o.lines, "marks in axes which were not asked for")
        for ln in a.lines:
            mk = {"g^": "^"}.get(args[0]) if args else kw.get("marker", ".")
            res.expect(ln.get_marker() == mk, "not the marker asked for", got=ln.get_marker(),
                       want=mk)
            col = "g" if args else kw.get("color", "red")
            res.expect(matplotlib.colors.same_color(ln.get_color(), col),
                       "not the colour asked for", got=str(ln.get_color()), want=col)
        res.sig("ind", how, bool(args), tuple(sorted(k for k in kw)))
    # lines
    for _ in range(14):
        axs[0].clear(), axs[1].clear()
        plt.sca(axs[1])
        how = util.pick(rng, "flat", "list", "multi", "list of arrays", "pairs", "tuples")
        nz = bool(rng.rand() < 0.5)
        n, k = int(rng.randint(2, 12)), int(rng.randint(1, 6))
        many = [[cell() if rng.rand() > 0.2 else (0, 0) for _ in range(n)] for _ in range(k)]
        flat = np.array([[r * W + c for r, c in ln] for ln in many])
        if how in ("flat", "list", "pairs", "tuples"):
            many = many[:1]
        ind = {"flat": lambda: flat[0], "list": lambda: [int(q) for q in flat[0]],
               "multi": lambda: flat.T, "list of arrays": lambda: [q for q in flat],
               "pairs": lambda: np.array(many[0]),
               "tuples": lambda: list(many[0])}[how]()
        kw = {}
        use = rng.rand() < 0.6
        if use:
            kw["ax"] = axs[0]
        if how == "multi":
            kw["multiline"] = True
        if nz:
            kw["nozeros"] = True
        got = m.show_line(ind, **kw)
        a, o = (axs[0], axs[1]) if use else (axs[1], axs[0])
        res.n("lines", len(many))
        res.expect(isinstance(got, list) and len(got) == len(many) and
                   set(map(id, got)) == set(map(id, a.lines)),
                   "the lines drawn are not all returned", how=how, drawn=len(a.lines),
                   returned=len(got), want=len(many))
        res.expect(not o.lines, "lines in axes which were not asked for")
        if len(got) != len(many):
            continue
        for ln, cells in zip(got, many):
            xy = np.column_stack((ln.get_xdata(), ln.get_ydata())).astype(float)
            want = np.array([(c, r) for r, c in cells], float)
            if how in ("pairs", "tuples"):  # [x, y] pairs
                want = want[:, ::-1]
            elif nz:
                want[[r == 0 and c == 0 for r, c in cells]] = np.nan
            res.expect(same(xy, want), "the line does not follow the cells given", how=how,
                       nozeros=nz, got=xy[:4].tolist(), want=want[:4].tolist())
        res.sig("line", how, nz, use, n, len(many))
    plt.close(fig)
    # refusals
    fig, ax = plt.subplots()
    m_bad = [(AttributeError, "no_such_field"), (TypeError, "dx"), (TypeError, "L"),
             (ValueError, "inlet"), (TypeError, 42), (TypeError, None),
             (ValueError, "xc")]
    for err, name in m_bad:
        res.n("refused")
        try:
            m.show_attribute(name, ax=ax)
        except err:
            continue
        except Exception as e:
            res.expect(False, "an attribute which is no grid is refused with another error",
                       name=str(name), got=repr(e), want=err.__name__)
        else:
            res.expect(False, "an attribute which is no grid was drawn", name=str(name))
    for err, ind in [(ValueError, (1, 2, 3)), (ValueError, (1,)), (IndexError, L * W),
                     (IndexError, L * W + 17), (IndexError, -1), (IndexError, -W)]:
        res.n("refused")
        try:
            m.show_ind(ind, ax=ax)
        except err:
            continue
        except Exception as e:
            res.expect(False, "an index outside of the grid is refused with another error",
                       ind=str(ind), got=repr(e), want=err.__name__)
        else:
            res.expect(False, "an index which is no cell was drawn", ind=str(ind))
    for bad in (L * W, L * W + 5, -1, -W - 2):
        res.n("refused")
        try:
            m.show_line(np.array([W + 1, bad, W + 2]), ax=ax)
        except IndexError:
            continue
        else:
            res.expect(False, "a line through an index which is no cell was drawn",
                       ind=bad)
    res.expect(not ax.lines and not ax.get_images(), "something refused was drawn")
    plt.close(fig)
    # nothing changed
    res.expect(everything(m) == before, "looking at the model changed it")
    now = shared_tools.get_random_state()
    res.expect(all(np.array_equal(x, y) for x, y in zip(state, now)),
               "looking at the model consumed random numbers")
    d = []
    for _ in range(2):
        m.update()
        d.append(util.digest(m))
    m.finalize()
    w = util.make(case["cfg"])
    for _ in range(case["steps"]):
        w.update()
    e = []
    for _ in range(2):
        w.update()
        e.append(util.digest(w))
    w.finalize()
    res.expect(d == e, "a model which was looked at goes another way")
    res.n("untouched")
    res.sample({"shape": [L, W], "grids": len(grids), "steps": case["steps"]})


def cases_log(tier, seed):
    rng = util.subrng(seed, "C21log", tier)
    return [{"cfg": util.gen_config(rng, "tiny", Np_water=5, Np_sed=6, itermax=1,
                                    f_bedload=0.5, save_dt=1, save_eta_grids=True,
                                    save_checkpoint=bool(rng.rand() < 0.5)),
             "steps": int(rng.randint(1, 3)), "s": int(rng.randint(2**31 - 1))}
            for _ in range(16 if tier == "quick" else 800)]


def body(path):
    """The messages of a log file, in order."""
    out = []
    for ln in open(path):
        p = ln.rstrip("\n").split(" - ", 2)
        if len(p) == 3:
            out.append(p[2])
        elif out:
            out[-1] += "\n" + ln.rstrip("\n")
    return out


def run_log(case, res):
    rng = np.random.RandomState(case["s"])
    logs, digests = [], []
    marks = [(int(rng.randint(0, 4)), "mark %d of %d" % (i, case["s"])) for i in range(12)]
    for v in range(4):
        out = util.outdir("run")  # the same folder name, the log quotes it
        m = util.make(case["cfg"], out=out, verbose=v)
        res.expect(m.verbose == v, "verbosity is not the one asked for")
        for lv, text in marks:
            if lv == 0 and rng.rand() < 0.5:
                m.log_info(text)
            else:
                m.log_info(text, verbosity=lv)
        d = []
        for _ in range(case["steps"]):
            m.update()
            d.append(util.digest(m))
        m.finalize()
        files = glob.glob(os.path.join(out, "*.log"))
        if not res.expect(len(files) == 1, "a run writes one log file", n=len(files)):
            return
        b = body(files[0])
        res.n("levels")
        for lv, text in marks:
            res.n("messages")
            res.expect(b.count(text) == (lv <= v), "a message is logged exactly when its "
                       "level is within the verbosity", level=lv, verbose=v,
                       logged=b.count(text))
        res.n("lines_compared", len(b))
        logs.append(b)
        digests.append(d)
        util.close_loggers()
        os.rename(out, out + "_%d" % v)
    res.expect(all(d == digests[0] for d in digests), "the verbosity changes the run")
    for lo, hi in zip(logs, logs[1:]):
        # every message of the lower level also appears at the higher one, in order
        it = iter(hi)
        missing = [x for x in lo if "verbose" not in x and "time" not in x.lower()
                   and not any(x == y for y in it)]
        res.expect(not missing, "a message disappears or moves at a higher verbosity",
                   missing=missing[:2])
    n = [len(x) for x in logs]
    res.expect(n == sorted(n) and n[0] > 20, "higher verbosity logs less", n=n)
    res.sig(tuple(n), case["steps"], case["cfg"]["save_checkpoint"])
    res.sample({"messages at verbosity 0..3": n})
