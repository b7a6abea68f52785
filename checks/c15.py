"""Configuration: sources, defaults, types, ranges, derived quantities."""
import glob
import json
import os
import warnings

import numpy as np
import util

RULE = (
    "random subset of the documented parameters, each given by keyword, by file (in "
    "different YAML notations) or by both; every parameter of the constructed model is "
    "compared with the independently resolved value, derived quantities with their "
    "formulas; invalid values, types and keys are injected one at a time; distinct and "
    "non-trivial: (parameter, source, type) resolved to something else than its default, "
    "and (parameter, kind of invalid value) refused"
)
PHASES = [
    {"name": "accept", "mode": "nojit", "workers": 5,
     "budget": {"quick": 14, "thorough": 900}, "min": {"quick": 60},
     "require": {"resolved": 4000, "kw": 300, "file": 300, "both": 60, "derived": 60,
                 "logged": 500, "unknown": 10}},
    {"name": "reject", "mode": "nojit", "workers": 3,
     "budget": {"quick": 14, "thorough": 600}, "min": {"quick": 60},
     "require": {"wrong_type": 150, "out_of_range": 25, "custom": 60}},
]

# documented parameters: types and defaults (docs: yaml_defaults)
F, FN = ("float", "int"), ("float", "int", "None")
TABLE = {
    "out_dir": (("str",), "deltaRCM_Output"), "verbose": (("int",), 0),
    "seed": (("int", "None"), None), "Length": (F, 5000.), "Width": (F, 10000.),
    "dx": (F, 50.), "L0_meters": (F, 150.), "S0": (F, 0.00015), "itermax": (("int",), 3),
    "Np_water": (("int",), 2000), "u0": (F, 1.0), "N0_meters": (F, 250.), "h0": (F, 5.),
    "hb": (FN, None), "H_SL": (F, 0.), "SLR": (F, 0.), "Np_sed": (("int",), 2000),
    "f_bedload": (F, 0.5), "active_layer_thickness": (FN, None), "C0_percent": (F, 0.1),
    "Csmooth": (F, 0.9), "toggle_subsidence": (("bool",), False),
    "subsidence_rate": (F, 2e-9), "start_subsidence": (F, 216000),
    "save_figs_sequential": (("bool",), True), "save_metadata": (("bool",), False),
    "save_discharge_components": (("bool",), False),
    "save_velocity_components": (("bool",), False), "save_dt": (("int",), 86400),
    "checkpoint_dt": (("int", "None"), None), "save_checkpoint": (("bool",), False),
    "resume_checkpoint": (("bool", "str"), False), "omega_sfc": (F, 0.1),
    "omega_flow": (F, 0.9), "Nsmooth": (("int",), 10), "theta_water": (F, 1.0),
    "coeff_theta_sand": (F, 2.0), "coeff_theta_mud": (F, 1.0), "beta": (("int",), 3),
    "sed_lag": (F, 1.0), "coeff_U_dep_mud": (F, 0.3), "coeff_U_ero_mud": (F, 1.5),
    "coeff_U_ero_sand": (F, 1.05), "alpha": (F, 0.1), "stepmax": (FN, None),
    "sand_frac_bc": (F, 0), "clobber_netcdf": (("bool",), False),
    "legacy_netcdf": (("bool",), False),
}
for _q in util.GRIDS:
    TABLE["save_%s_figs" % _q] = (("bool",), False)
    TABLE["save_%s_grids" % _q] = (("bool",), False)
BAD = {"Length": [0.0, -1.0, 0], "Width": [0.0, -5.0, 0], "dx": [0.0, -1.0, 1e9, 700.0, 700.0, 700.0, 700.0],
       "L0_meters": [-1.0, -1], "itermax": [-1], "Np_water": [0, -3],
       "N0_meters": [0.0, -2.0], "Np_sed": [0, -1], "f_bedload": [-0.01, 1.01, 2],
       "active_layer_thickness": [-0.1, -3], "C0_percent": [-0.1], "Csmooth": [-0.5]}
WRONG = {"str": "abc", "int": 3, "float": 2.5, "bool": True, "None": None,
         "list": [1.0, 2.0], "dict": {"a": 1}}


def value(rng, k):
    """A valid value different from the default."""
    P = lambda *a: util.pick(rng, *a)  # noqa
    t = TABLE[k][0]
    if t == ("bool",):
        return not TABLE[k][1]
    special = {
        "verbose": (1, 2), "seed": (0, 1, 4294967294, 12345), "S0": (0.0001, 0.0003, 1e-5),
        "itermax": (1, 2, 4, 7), "Np_water": (1, 9, 33), "Np_sed": (2, 15, 38),
        "u0": (0.6, 2.0, 2, 1.1), "N0_meters": (120.0, 300, 470.5),
        "L0_meters": (0.0, 0, 100.0, 75.5, 1000), "h0": (2.0, 3, 0.4), "hb": (1.0, 7, 2.5, 0.3, 0, 0.0),
        "H_SL": (1.0, -1.5, 2), "SLR": (1e-6, -3e-8, 2e-07), "f_bedload": (0.25, 0.6, 0.9),
        "active_layer_thickness": (0.0, 0, 0.75, 3), "C0_percent": (0.05, 1, 0.7),
        "Csmooth": (0.0, 0, 0.5, 1), "subsidence_rate": (1e-7, 0.0, 4e-10),
        "start_subsidence": (0, 1000.0, 5e5), "save_dt": (1000, 7, 1, 0), "Nsmooth": (0, 1, 4),
        "checkpoint_dt": (500, 17, 0), "omega_sfc": (0.2, 1, 0.0), "omega_flow": (0.5, 1),
        "theta_water": (0.5, 2), "coeff_theta_sand": (1.5, 1), "coeff_theta_mud": (0.5, 2),
        "beta": (1, 2, 5), "sed_lag": (0.5, 0.0, 2), "coeff_U_dep_mud": (0.4, 1),
        "coeff_U_ero_mud": (1.2, 2), "coeff_U_ero_sand": (1.3, 1), "alpha": (0.0, 0.05, 1),
        "stepmax": (30, 45.0, 101, 0, 0.0), "sand_frac_bc": (0.4, 1), "Length": (600., 750, 1200.),
        "Width": (900., 1050, 1500.), "dx": (50, 40.0, 75.0, 30),
    }
    return P(*special[k])


def notation(rng, v):
    """The value as a user may write it in YAML."""
    if v is None:
        return util.pick(rng, "null", "~", "Null", "")
    if isinstance(v, bool):
        return util.pick(rng, *(("true", "True", "on", "yes") if v else
                                ("false", "False", "off", "no")))
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        o = [repr(v), "%.17g" % v if "." in "%.17g" % v or "e" in "%.17g" % v
             else "%.17g." % v, "%.16e" % v]
        s = repr(v)
        if "e" not in s and s.endswith(".0"):
            o += [s[:-1], s]
        if "e" in s:
            o += [s.replace("e-0", "e-"), s.replace("e", "E")]
        return util.pick(rng, *o)
    return json.dumps(v)


def cases_accept(tier, seed):
    rng = util.subrng(seed, "C15", tier)
    return [{"rs": int(rng.randint(2**31 - 1)),
             "density": float(util.pick(rng, 0.05, 0.3, 0.7, 1.0)),
             "mode": ["mixed", "kw", "file", "both"][i % 4]}
            for i in range(150 if tier == "quick" else 8000)]


def same(a, b):
    if isinstance(b, bool) or isinstance(a, bool):
        return isinstance(a, (bool, np.bool_)) and isinstance(b, bool) and bool(a) == b
    return type(a) is type(b) and a == b or (
        isinstance(a, (int, float, np.number)) and isinstance(b, (int, float)) and a == b)


def expected(given, out):
    want = {k: d for k, (t, d) in TABLE.items()}
    want.update(given)
    want["out_dir"] = out
    if any(want["save_%s_grids" % q] for q in util.GRIDS) or \
            want["save_discharge_components"] or want["save_velocity_components"]:
        want["save_metadata"] = True
    if want["active_layer_thickness"] is None:
        want["active_layer_thickness"] = want["h0"] / 2
    if want["checkpoint_dt"] is None:
        want["checkpoint_dt"] = want["save_dt"]
    if want["hb"] is None:
        want["hb"] = want["h0"]
    return want


def run_accept(case, res):
    from pyDeltaRCM import DeltaModel

    rng = np.random.RandomState(case["rs"])
    base = {"Length": 600.0, "Width": 900.0, "dx": 50.0, "Np_water": 5, "Np_sed": 6,
            "N0_meters": 150.0}
    given = dict(base)
    for k in TABLE:
        if k in ("out_dir", "resume_checkpoint", "save_checkpoint") or \
                k.endswith("_figs") and rng.rand() < 0.9:
            continue
        if rng.rand() < case["density"]:
            r = rng.rand()
            if "None" in TABLE[k][0] and r < 0.25:
                given[k] = None
            elif r < 0.35 and k not in base:
                given[k] = TABLE[k][1]
            else:
                given[k] = value(rng, k)
    while 9.81 * given.get("S0", 0.00015) * given["dx"] / given.get("u0", 1.0) ** 2 > 0.9:
        given["S0"] = given.get("S0", 0.00015) / 2
    out = util.outdir()
    kw, file = {}, {}
    for k, v in list(given.items()) + [("out_dir", out)]:
        s = case["mode"] if case["mode"] in ("kw", "file") else \
            util.pick(rng, "kw", "file", "both" if case["mode"] == "both" else "kw")
        if s in ("kw", "both"):
            kw[k] = v
        if s == "file":
            file[k] = v
        elif s == "both":
            file[k] = value(rng, k) if k != "out_dir" else util.outdir("never")
    unknown = {}
    if rng.rand() < 0.3:
        for n in ("no_such_parameter", "no_such_a", "no_such_b")[:rng.randint(1, 4)]:
            unknown[n] = 3.0
            (kw if rng.rand() < 0.5 else file)[n] = 3.0
    ignored = {}
    if rng.rand() < 0.3:
        ignored = {util.pick(rng, "timesteps", "time", "time_years", "parallel"): 2}
        file.update(ignored)
    inp = None
    if file or rng.rand() < 0.5:
        from pathlib import Path

        inp = os.path.join(util.casedir(), "cfg_%d.yml" % rng.randint(10**6))
        items = list(file.items())
        rng.shuffle(items)
        with open(inp, "w") as f:
            f.write("# a comment\n")
            for k, v in items:
                f.write("%s: %s\n" % (k, notation(rng, v)))
            if not items:   # nothing to say: any of these is such a file
                f.write(util.pick(rng, "verbose: 0\n", "", "\n# nothing\n", "---\n"))
                res.n("empty_file")
        text0 = open(inp).read()
        if rng.rand() < 0.3:
            inp = Path(inp)
    kw0 = dict(kw)
    with warnings.catch_warnings(record=True) as wl:
        warnings.simplefilter("always")
        cls = DeltaModel
        if rng.rand() < 0.3:    # one with parameters of its own, left at their defaults
            cls = type("Own", (DeltaModel,), {"subclass_parameters": {
                "own_number": {"type": ["float", "int"], "default": 1.5},
                "own_flag": {"type": "bool", "default": False}}})
            res.n("with_own_parameters")
        m = cls(input_file=inp, **kw) if inp is not None else cls(**kw)
        if cls is not DeltaModel:
            res.expect(m.own_number == 1.5 and m.own_flag is False,
                       "a parameter of the subclass does not have its default")
    if inp is not None:
        res.expect(open(inp).read() == text0, "the configuration file is changed")
    res.expect(kw == kw0, "keyword values are changed")
    want = expected(given, out)
    for k, w in want.items():
        got = getattr(m, k)
        res.n("resolved")
        src = "kw" if k in kw and k not in file else "both" if k in kw else \
            "file" if k in file else "default"
        if src != "default":
            res.n(src)
            if w != TABLE[k][1]:
                res.sig(k, src, type(w).__name__)
        if k == "seed" and w is None:
            res.expect(isinstance(int(got), int) and 0 <= int(got) < 2**32,
                       "no seed was drawn for a run without one", got=repr(got))
            continue
        if k == "stepmax":
            w = 2 * (m.L + m.W) if w is None else int(w)
        res.expect(same(got, w), "a parameter does not have the value configured",
                   parameter=k, source=src, given=repr(given.get(k, "(not given)")),
                   got=repr(got), want=repr(w))
    res.expect(not hasattr(m, "no_such_parameter"), "an unknown keyword is taken as a "
               "parameter")
    dup = {k for k in kw if k in file}
    for k in dup:
        res.expect(any(issubclass(w.category, UserWarning) and k in str(w.message)
                       for w in wl), "no warning that a keyword replaces a value of the "
                   "file", parameter=k)
    if unknown:
        res.n("unknown")
        for n in unknown:
            res.expect(any(issubclass(w.category, UserWarning) and n in str(w.message)
                           for w in wl),
                       "no warning about a parameter the model does not know", name=n)
    if not unknown and not dup:
        res.expect(not any("no_such" in str(w.message) or "unused" in str(w.message)
                           for w in wl), "a warning about unused parameters although "
                   "all are used", warnings=[str(w.message)[:200] for w in wl])
    for v in (0, -0.1, 0.0, 1.01, 2):  # the intermittency a run may set on the model
        try:
            m.If = v
            res.fail("an intermittency out of range is accepted", value=v, got=repr(m.If))
        except ValueError:
            res.n("intermittency")
    derived(m, want, res)
    log = glob.glob(os.path.join(out, "*.log"))
    res.expect(len(log) == 1, "a run writes one log file", logs=log)
    text = open(log[0]).read().splitlines() if log else []
    raw = {k: d for k, (t, d) in TABLE.items()}
    raw.update(given)
    raw["out_dir"] = out
    for k, w in raw.items():
        res.n("logged")
        line = [t for t in text if k in t.replace("`", " ").replace(":", " ").split()]
        ok = any(str(w) in t for t in line) or isinstance(w, float) and any(
            repr(w) in t for t in line)
        res.expect(ok, "the log does not record the configured value of a parameter",
                   parameter=k, value=repr(w), lines=line[:3])
    m.finalize()
    res.sample({"given": {k: repr(v) for k, v in list(given.items())[:12]},
                "file": len(file), "kw": len(kw)})


def close(a, b):
    return abs(float(a) - float(b)) <= 1e-9 * abs(float(b)) + 1e-300


def derived(m, w, res):
    """Quantities documented to follow from the parameters."""
    res.n("derived")
    dx, u0, h0, C0 = float(w["dx"]), w["u0"], w["h0"], w["C0_percent"] / 100.0
    L, W = int(round(w["Length"] / dx)), int(round(w["Width"] / dx))
    N0 = max(3, min(int(round(w["N0_meters"] / dx)), W // 4))
    L0 = max(1, min(int(round(w["L0_meters"] / dx)), L // 4))
    V0 = h0 * dx ** 2
    dVs = 0.1 * N0 ** 2 * V0
    Qw0 = u0 * h0 * N0 * dx
    dt = dVs / (Qw0 * C0)
    ncd = m.N_crossdiff
    want = {
        "L": L, "W": W, "N0": N0, "L0": L0, "V0": V0, "dVs": dVs, "Qw0": Qw0, "qw0": u0 * h0,
        "C0": C0, "qs0": u0 * h0 * C0, "Qs0": Qw0 * C0, "u_max": 2 * u0,
        "Vp_sed": dVs / w["Np_sed"], "Qp_water": Qw0 / w["Np_water"], "dt": dt,
        "dry_depth": min(0.1, 0.1 * h0), "gamma": 9.81 * w["S0"] * dx / u0 ** 2,
        "theta_sand": w["coeff_theta_sand"] * w["theta_water"],
        "theta_mud": w["coeff_theta_mud"] * w["theta_water"],
        "U_dep_mud": w["coeff_U_dep_mud"] * u0, "U_ero_mud": w["coeff_U_ero_mud"] * u0,
        "U_ero_sand": w["coeff_U_ero_sand"] * u0, "omega_flow_iter": 2.0 / w["itermax"],
        "diffusion_multiplier": dt / ncd * w["alpha"] * 0.5 / dx ** 2,
        "time": 0.0, "time_iter": 0,
    }
    for k, v in want.items():
        res.expect(close(getattr(m, k), v), "a derived quantity does not follow from the "
                   "parameters", quantity=k, got=float(getattr(m, k)), want=float(v))
    res.expect(abs(ncd - 0.1 * N0 ** 2) <= 0.5 + 1e-9, "number of diffusion passes does "
               "not follow from the sediment supply", got=ncd, want=0.1 * N0 ** 2)
    if w["toggle_subsidence"]:
        s = w["subsidence_rate"] * dt
        res.expect(close(np.abs(m.sigma).max(), abs(s)) and not m.sigma[:L0].any() and
                   bool(np.all(m.sigma[L0:] == m.sigma[L0, 0])),
                   "subsidence per step does not follow from the parameters")


# --------------------------------------------------------------------------
def cases_reject(tier, seed):
    rng = util.subrng(seed, "C15r", tier)
    out = []
    for k in TABLE:
        for t in WRONG:
            if t not in TABLE[k][0]:
                out.append({"what": "type", "k": k, "t": t})
    for k, vs in BAD.items():
        for v in vs:
            out.append({"what": "range", "k": k, "v": v})
    for i in range(40):
        out.append({"what": "custom"})
    for c in out:
        c["rs"] = int(rng.randint(2**31 - 1))
    rng.shuffle(out)
    groups = [out[i::60] for i in range(60)]
    return [{"cases": g} for g in groups]


def run_reject(case, res):
    for c in case["cases"]:
        one_reject(c, res)
        util.close_loggers()


def files_in(d):
    return sorted(f for _, _, fs in os.walk(d) for f in fs if not f.endswith(".log"))


def one_reject(case, res):
    from pyDeltaRCM import DeltaModel

    rng = np.random.RandomState(case["rs"])
    base = {"Length": 600.0, "Width": 900.0, "dx": 50.0, "Np_water": 5, "Np_sed": 6,
            "N0_meters": 150.0, "save_eta_grids": True, "save_checkpoint": True}
    out = util.outdir()
    base["out_dir"] = out
    if case["what"] == "custom":
        return custom(rng, base, res)
    k = case["k"]
    v = WRONG[case["t"]] if case["what"] == "type" else case["v"]
    if k == "dx" and v == 700.0:    # larger than one side of the domain only
        base.update(util.pick(rng, {"Length": 2000.0, "Width": 600.0},
                              {"Length": 600.0, "Width": 2000.0}))
    exc = TypeError if case["what"] == "type" else ValueError
    res.n("wrong_type" if exc is TypeError else "out_of_range")
    by_file = rng.rand() < 0.5
    cfg = dict(base)
    cfg.pop(k, None)
    inp = None
    if by_file:
        inp = os.path.join(util.casedir(), "bad_%d.yml" % rng.randint(10**9))
        open(inp, "w").write("%s: %s\n" % (k, json.dumps(v) if v is not None else "null"))
        if k != "out_dir":
            open(inp, "a").write("verbose: 0\n" if k != "verbose" else "beta: 3\n")
    else:
        cfg[k] = v
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            m = DeltaModel(input_file=inp, **cfg)
        except exc:
            res.sig(k, case.get("t", repr(case.get("v"))), by_file)
        except Exception as e:  # noqa
            res.fail("an invalid value is refused with the wrong kind of error",
                     parameter=k, value=repr(v), error=repr(e)[:300], want=exc.__name__)
        else:
            res.fail("an invalid value is accepted", parameter=k, value=repr(v),
                     got=repr(getattr(m, k)))
            m.finalize()
    if k != "out_dir":
        left = files_in(out) if os.path.isdir(out) else []
        res.expect(not left, "output is produced although the configuration is invalid",
                   parameter=k, files=left)


def custom(rng, base, res):
    """Parameters a subclass declares."""
    from pyDeltaRCM import DeltaModel

    spec = {"tree_height": (util.pick(rng, "float", ["float", "int"], ["float", "None"]), 2.5),
            "n_trees": ("int", 7), "plant": ("str", "oak"), "grow": ("bool", False)}

    decl = {k: {"type": t, "default": d} for k, (t, d) in spec.items()}

    class Sub(DeltaModel):
        def __init__(self, input_file=None, **kw):
            self.subclass_parameters = decl
            super().__init__(input_file, **kw)

    class Hooked(DeltaModel):
        def hook_import_files(self):
            for k, v in decl.items():
                self.subclass_parameters[k] = v

    hooked = bool(rng.rand() < 0.5)
    if hooked:
        Sub = Hooked

    vals = {"tree_height": 4.25, "n_trees": 12, "plant": "fir", "grow": True}
    given = {k: v for k, v in vals.items() if rng.rand() < 0.6}
    inp, kw, fl = None, {}, {}
    for k, v in given.items():
        (kw if rng.rand() < 0.5 else fl)[k] = v
    if fl:
        inp = os.path.join(util.casedir(), "sub_%d.yml" % rng.randint(10**9))
        open(inp, "w").write("".join("%s: %s\n" % (k, notation(rng, v))
                                     for k, v in fl.items()))
    with warnings.catch_warnings(record=True) as wl:
        warnings.simplefilter("always")
        m = Sub(input_file=inp, **dict(base, **kw))
    for k, (t, d) in spec.items():
        res.n("custom")
        res.sig("custom", k, k in kw, k in fl)
        res.expect(same(getattr(m, k), given.get(k, d)),
                   "a parameter declared by a subclass does not have the value configured",
                   parameter=k, got=repr(getattr(m, k)), want=repr(given.get(k, d)))
    res.expect(not any("unused" in str(w.message) for w in wl),
               "a declared parameter is reported as unused")
    m.finalize()
    # another model knows nothing of them
    with warnings.catch_warnings(record=True) as wl:
        warnings.simplefilter("always")
        other = DeltaModel(**dict(base, out_dir=util.outdir(), n_trees=3))
    res.n("custom")
    res.expect(not any(hasattr(other, k) for k in spec),
               "a parameter declared by one model class becomes one of another",
               hooked=hooked)
    res.expect(any("n_trees" in str(w.message) for w in wl),
               "a parameter of another model class is used without a warning", hooked=hooked)
    other.finalize()
    util.close_loggers()
    bad = util.pick(rng, ("n_trees", 2.5), ("plant", 3), ("grow", 1), ("tree_height", "x"),
                    ("n_trees", True), ("n_trees", "7"), ("tree_height", True),
                    ("n_trees", None), ("plant", None), ("plant", True), ("grow", None),
                    ("grow", "true"), ("n_trees", [3]))
    res.n("custom")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            Sub(**dict(base, out_dir=util.outdir(), **{bad[0]: bad[1]}))
            res.fail("a parameter declared by a subclass accepts a value of the wrong type",
                     parameter=bad[0], value=bad[1])
        except TypeError:
            pass
