"""Expansion of job specifications by the preprocessor."""
import copy
import itertools
import json
import os
import sys
import warnings

import numpy as np
import util

RULE = (
    "random matrix / set / ensemble / combined specifications over parameters of every type "
    "from file, dictionary, keywords or command line; the expected jobs are enumerated "
    "independently and compared with the job list, the folders and configuration files on "
    "disk, the models those files give, and the job table; invalid specifications are "
    "injected; distinct and non-trivial: (kind, source, dimensions, number of jobs)"
)
PHASES = [
    {"name": "expand", "mode": "plain", "workers": 8,
     "budget": {"quick": 20, "thorough": 1200}, "min": {"quick": 120},
     "require": {"specs": 120, "jobs": 800, "models": 100, "invalid": 100, "tables": 80,
                 "cli": 10, "resumed": 5}},
]
VALS = {
    "f_bedload": [0.0, 0.1, 0.25, 0.5, 0.75, 1, 1.0], "h0": [1.0, 2.0, 3, 5.5],
    "u0": [0.5, 1.0, 2, 1.3], "Np_water": [3, 9, 11], "Np_sed": [4, 10, 12],
    "S0": [1e-05, 0.00015, 0.0003], "SLR": [0.0, 1e-07, 3e-10, -2e-8], "hb": [None, 4.0, 2],
    "C0_percent": [0.05, 0.1, 1], "toggle_subsidence": [True, False],
    "subsidence_rate": [1e-9, 2e-07], "alpha": [0.0, 0.1, 0.3], "beta": [1, 2, 3],
    "stepmax": [None, 30, 55.0], "active_layer_thickness": [None, 0.5, 2],
    "save_eta_grids": [True, False], "seed": [0, 5, 4294967294], "Csmooth": [0.1, 0.9, 1],
    "N0_meters": [150.0, 200, 250.5], "verbose": [0], "start_subsidence": [0, 1e5, 216000],
    "checkpoint_dt": [None, 100], "save_dt": [1000, 86400], "H_SL": [0.0, -1.5, 2],
}
SHARED = {"Length": 600.0, "Width": 900.0, "dx": 50.0, "Np_water": 5, "Np_sed": 6,
          "N0_meters": 150.0}
KINDS = ["matrix", "matrix", "set", "ensemble", "matrix+ensemble", "set+ensemble",
         "single"]


def cases_expand(tier, seed):
    rng = util.subrng(seed, "C16", tier)
    out = []
    for i in range(500 if tier == "quick" else 20000):
        out.append({"kind": KINDS[i % len(KINDS)] if i % 3 else "invalid",
                    "src": util.pick(rng, "file", "file", "dict", "kw", "cli", "split"),
                    "many": 0 if i % 60 != 7 else 1030 if i in (67, 307) else 110,
                    "rs": int(rng.randint(2**31 - 1))})
        if out[-1]["many"]:
            out[-1]["kind"] = ("matrix", "set", "ensemble matrix", "ensemble set",
                               "ensemble")[i // 60 % 5]
    return out


def run_expand(case, res):
    rng = np.random.RandomState(case["rs"])
    np.random.seed(case["rs"] % (2**32))
    if case["kind"] == "invalid":
        for i in range(3):
            invalid(rng, res)
        return
    valid(rng, case, res)


def gen_many(rng, kind, many):
    """Hundreds of jobs."""
    spec = {k: v for k, v in SHARED.items() if k not in ("u0", "f_bedload", "h0")}
    n = int(rng.randint(3, 6)) if "ensemble" in kind else 1
    total = -(-many // n)
    if "matrix" in kind:
        a = int(rng.randint(3, 7))
        b = -(-total // (2 * a))
        over = {"u0": [0.5 + 0.125 * i for i in range(a)], "h0": [4.0, 2.0],
                "f_bedload": [round(0.9 - 0.001 * i, 3) for i in range(b)]}
        spec["matrix"] = over
        var = list(over)
        jobs = [dict(zip(var, c)) for c in itertools.product(*over.values())]
    elif "set" in kind:
        spec["set"] = [{"u0": 0.5 + 0.01 * i, "h0": 2.0 + i % 3} for i in range(total)]
        jobs, var = [dict(d) for d in spec["set"]], ["u0", "h0"]
    else:
        n, jobs, var = many, [{}], []
    if "ensemble" in kind:
        spec["ensemble"] = n
    return spec, jobs, var, n


def gen_spec(rng, kind):
    keys = [k for k in VALS]
    rng.shuffle(keys)
    spec = {k: v for k, v in SHARED.items()}
    nfix = rng.randint(0, 6)
    nm = int(rng.randint(1, 4))
    var = keys[:nm]
    if "ensemble" in kind:
        var = [k for k in var if k != "seed"] or ["u0"]
    for k in var:
        spec.pop(k, None)
    for k in keys[nm:nm + nfix]:
        if k == "seed" and "ensemble" in kind or k in var:
            continue
        spec[k] = VALS[k][rng.randint(len(VALS[k]))]
    over = None
    if "matrix" in kind:
        over = {}
        for k in var:
            v = list(VALS[k])
            rng.shuffle(v)
            over[k] = v[:max(1, int(rng.randint(2, 4)))]
        spec["matrix"] = over
        jobs = [dict(zip(var, c)) for c in itertools.product(*[over[k] for k in var])]
    elif "set" in kind:
        over = []
        for i in range(int(rng.randint(1, 5))):
            d = [(k, VALS[k][rng.randint(len(VALS[k]))]) for k in var]
            rng.shuffle(d)
            over.append(dict((k, v) for k, v in d))
        spec["set"] = over
        if rng.rand() < 0.2:
            # a shared value that every member of the set replaces
            k = var[int(rng.randint(len(var)))]
            if not (k == "seed" and "ensemble" in kind):
                spec[k] = VALS[k][0]
        jobs = [dict(d) for d in over]
    else:
        jobs, var = [{}], []
    n = 1
    if "ensemble" in kind:
        n = int(rng.randint(2, 5))
        spec["ensemble"] = n
    return spec, jobs, var, n


def dump_yaml(rng, spec, path):
    import yaml

    text = yaml.safe_dump(spec, sort_keys=False,
                          default_flow_style=util.pick(rng, None, False))
    open(path, "w").write(text)
    return text


def eq(a, b):
    if a is None or b is None or isinstance(a, (bool, np.bool_)) or isinstance(b, bool):
        return type(a) is type(b) and a == b
    if isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    return isinstance(a, (int, np.integer)) == isinstance(b, (int, np.integer)) and a == b


def norm(v):
    return int(v) if isinstance(v, np.integer) else v


def cfg_key(c):
    return repr(sorted((k, type(norm(v)).__name__, norm(v)) for k, v in c.items()))


def build(rng, src, spec, res):
    """Hand the specification to the preprocessor in the way asked for."""
    from pyDeltaRCM import preprocessor

    extra = {}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if src == "dict":
            given = copy.deepcopy(spec)
            ref = copy.deepcopy(given)
            pp = preprocessor.Preprocessor(given)
            res.expect(given == ref, "the user's dictionary is changed", was=repr(ref)[:300],
                       now=repr(given)[:300])
            return pp, extra
        if src == "kw":
            given = copy.deepcopy(spec)
            ref = copy.deepcopy(given)
            pp = preprocessor.Preprocessor(**given)
            res.expect(given == ref, "the user's keyword values are changed",
                       was=repr(ref)[:300], now=repr(given)[:300])
            return pp, extra
        path = os.path.join(util.casedir(), "spec%d.yml" % rng.randint(10**9))
        if src == "split":
            kw = {k: spec[k] for k in spec if k not in ("set", "matrix") and
                  rng.rand() < 0.4}
            if rng.rand() < 0.15:   # a file that says nothing, the rest by keyword
                kw = dict(spec)
            f = {k: v for k, v in spec.items() if k not in kw}
            for k in (kw if f else ()):
                if k in VALS and rng.rand() < 0.5:
                    f[k] = VALS[k][0]
            if f:
                text = dump_yaml(rng, f, path)
            else:
                res.n("empty_file")
                text = util.pick(rng, "", "# nothing\n", "---\n")
                with open(path, "w") as g:
                    g.write(text)
            pp = preprocessor.Preprocessor(path, **kw)
        else:
            text = dump_yaml(rng, spec, path)
            if src == "cli":
                res.n("cli")
                argv = ["pyDeltaRCM", "--config", path, "--timesteps", "3"]
                extra = {"timesteps": 3, "config": path, "dryrun": False}
                if rng.rand() < 0.5:
                    argv += ["--dryrun"]
                    extra["dryrun"] = True
                if rng.rand() < 0.5:
                    argv += ["--parallel", "2"]
                    extra["parallel"] = 2
                old = sys.argv
                sys.argv = argv
                try:
                    pp = preprocessor.PreprocessorCLI()
                finally:
                    sys.argv = old
            else:
                pp = preprocessor.Preprocessor(path)
        res.expect(open(path).read() == text, "the configuration file is changed")
    return pp, extra


def read(path):
    import yaml

    from pyDeltaRCM import shared_tools

    with open(path) as f:
        return yaml.load(f, Loader=shared_tools.custom_yaml_loader())


def valid(rng, case, res):
    from pyDeltaRCM import DeltaModel

    kind, src = case["kind"], case["src"]
    if kind == "single" and src != "cli":
        src = "file"
    spec, jobs, var, n = gen_spec(rng, kind) if not case["many"] else \
        gen_many(rng, kind, case["many"])
    res.n("many", bool(case["many"]))
    root = os.path.join(util.casedir(), util.pick(rng, "jobs", "my jobs", "out_1e5", "o-1"))
    spec["out_dir"] = root
    pp, extra = build(rng, src, spec, res)
    res.n("specs")
    fixed = {k: v for k, v in spec.items() if k not in ("matrix", "set", "ensemble")}
    fixed.update(extra)
    if kind == "single":
        res.expect(len(pp.file_list) == 1 and len(pp.config_list) == 1 and
                   not os.path.exists(root), "a single specification is not one job")
        got = pp.config_list[0]
        res.expect(all(k in got and eq(got[k], v) for k, v in fixed.items()),
                   "the configuration of a single job is not the one given")
        res.sig("single", src)
        return
    res.sig(kind, src, len(var), len(jobs), n)
    total = len(jobs) * n
    if not res.expect(len(pp.config_list) == total and len(pp.file_list) == total,
                      "the number of jobs is not the number of combinations",
                      kind=kind, got=[len(pp.config_list), len(pp.file_list)], want=total,
                      spec=repr({k: spec.get(k) for k in ("matrix", "set", "ensemble")})):
        return
    folders = sorted(d for d in os.listdir(root) if os.path.isdir(os.path.join(root, d)))
    res.expect(len(folders) == total, "there is not one folder for each job",
               folders=folders, jobs=total)
    # every job, from the list and from its file
    want = {}
    for j in jobs:
        c = dict(fixed)
        c.update(j)
        c.pop("out_dir")
        k = cfg_key(c)
        want[k] = want.get(k, 0) + n
    groups, dirs = {}, set()
    for where in ("list", "file"):
        left = dict(want)
        for i, (f, c) in enumerate(zip(pp.file_list, pp.config_list)):
            got = dict(c) if where == "list" else dict(read(f))
            res.n("jobs")
            d = got.pop("out_dir", None)
            if where == "file":
                res.expect(os.path.dirname(os.path.abspath(str(f))) == os.path.abspath(d) and
                           os.path.dirname(os.path.abspath(d)) == os.path.abspath(root),
                           "a job's folder is not a folder of its own under the parent "
                           "folder", file=str(f), out_dir=d, root=root)
                dirs.add(os.path.abspath(d))
            seed = None
            if n > 1:
                seed = got.pop("seed", None)
                res.expect(isinstance(seed, (int, np.integer)) and 0 <= int(seed) < 2**32,
                           "a replicate has no valid seed of its own", seed=repr(seed))
            k = cfg_key({q: v for q, v in got.items()
                         if not (n > 1 and q == "seed")})
            if n > 1:
                groups.setdefault((where, k), []).append(seed)
            if "seed" in fixed and n > 1:
                pass
            if left.get(k, 0) < 1:
                res.fail("a job is not one of the combinations specified, or is there twice"
                         if where == "list" else "a job's configuration file does not hold "
                         "the values of the job", job=i, got=repr(got)[:600],
                         expected=sorted(want)[0][:600])
            else:
                left[k] -= 1
        res.expect(not any(left.values()), "a combination has no job (%s)" % where,
                   missing=[k[:200] for k, v in left.items() if v][:2])
    res.expect(len(dirs) == total, "two jobs share an output folder")
    for (where, k), seeds in groups.items():
        # identical sets of parameters may be listed twice: then n seeds per listing
        res.expect(len(set(int(s) for s in seeds)) >= min(len(seeds), n),
                   "replicates of a configuration have the same seed", seeds=repr(seeds))
    if not n > 1 and len(var) == 1 or "set" in kind:
        seq = [pp.config_list[i * n].get(var[0]) for i in range(len(jobs))]
        res.expect(all(eq(a, j[var[0]]) for a, j in zip(seq, jobs)),
                   "jobs are not in the order of the specification", got=repr(seq))
    table(pp, root, var, n, res)
    # the models those files give
    for i in rng.permutation(total)[:2]:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            c = read(pp.file_list[i])
            m = DeltaModel(input_file=pp.file_list[i], defer_output=True)
        res.n("models")
        ref = pp.config_list[i]
        for k, v in ref.items():
            if k in ("out_dir",) or not hasattr(m, k) or v is None or \
                    k in ("time", "config", "dryrun", "parallel", "timesteps"):
                continue
            g = getattr(m, k)
            if k == "stepmax":
                v = int(v)
            res.expect(g == v and isinstance(g, bool) == isinstance(v, bool),
                       "the model of a job does not have the job's parameters",
                       parameter=k, got=repr(g), want=repr(v))
        res.expect(os.path.abspath(m.out_dir) == os.path.abspath(c["out_dir"]),
                   "the model of a job writes elsewhere")
        util.close_loggers()
    res.sample({"kind": kind, "src": src, "jobs": total, "vary": var})
    if rng.rand() < 0.25:
        resume(rng, spec, pp, root, total, src, res)


def table(pp, root, var, n, res):
    path = os.path.join(root, "jobs_parameters.txt")
    if not res.expect(os.path.isfile(path), "there is no job table"):
        return
    rows = [[c.strip() for c in r.split(",")] for r in open(path).read().splitlines()]
    head, rows = rows[0], rows[1:]
    cols = set(var) | ({"seed"} if n > 1 else set())
    res.n("tables")
    res.expect(head[0] == "job_id" and set(head[1:]) == cols and len(head) == len(cols) + 1,
               "the job table does not list the parameters that vary", got=head,
               want=sorted(cols))
    res.expect(len(rows) == len(pp.config_list), "the job table does not list every job",
               rows=len(rows), jobs=len(pp.config_list))
    by = {os.path.basename(c["out_dir"]): c for c in pp.config_list}
    for r in rows:
        if r[0] not in by:
            res.fail("the job table lists a job that does not exist", job=r[0])
            continue
        for k, v in zip(head[1:], r[1:]):
            res.expect(k in by[r[0]] and str(by[r[0]][k]) == v,
                       "the job table lists a value that is not the job's", job=r[0],
                       parameter=k, got=v, want=repr(by[r[0]].get(k)))


def resume(rng, spec, pp, root, total, src, res):
    """An existing job folder is refused, unless the jobs are resumed."""
    from pyDeltaRCM import preprocessor

    before = {str(f): open(f).read() for f in pp.file_list}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for extra in ({}, {"resume_checkpoint": False}, {"resume_checkpoint": None}):
            try:
                preprocessor.Preprocessor(dict(copy.deepcopy(spec), **extra))
                res.fail("job folders of an earlier run are overwritten", extra=extra)
            except FileExistsError:
                pass
        res.expect({str(f): open(f).read() for f in pp.file_list} == before,
                   "a refused specification changes the files of an earlier run")
        s = copy.deepcopy(spec)
        s["resume_checkpoint"] = True
        p2 = preprocessor.Preprocessor(s)
    res.n("resumed")
    res.expect(len(p2.file_list) == total and
               [os.path.abspath(str(f)) for f in p2.file_list] ==
               [os.path.abspath(str(f)) for f in pp.file_list],
               "resumed jobs are not the jobs of the earlier run")
    for f, c in zip(p2.file_list, p2.config_list):
        got = read(f)
        res.expect(all(eq(norm(got.get(k)), norm(v)) for k, v in c.items()),
                   "a resumed job's configuration file does not hold the values of the job",
                   got=repr(got)[:400], want=repr(c)[:400])


# --------------------------------------------------------------------------
def invalid(rng, res):
    from pyDeltaRCM import preprocessor

    root = os.path.join(util.casedir(), "inv%d" % rng.randint(10**9))
    b = dict(SHARED, out_dir="@")
    no_out = {k: v for k, v in b.items() if k != "out_dir"}
    M = {"f_bedload": [0.2, 0.5]}
    fixed = str(rng.choice([k for k in VALS if k not in SHARED and k != "verbose"]))
    fval = norm(util.pick(rng, *(VALS[fixed] + [v for v in (0, 0.0, False) if v in
                                               VALS[fixed]] * 2)))
    rest = str(rng.choice([k for k in VALS if k not in SHARED and k != fixed]))
    both = [(k, VALS[k][:2]) for k in (fixed, rest)]
    both = dict(both[::-1] if rng.rand() < 0.5 else both)
    deep = [0.2, 0.5, 0.7]
    deep.insert(int(rng.randint(4)), [0.3, 0.4] if rng.rand() < 0.5 else [0.3])
    S = [{"h0": 1.0, "u0": 1.0}, {"h0": 2.0, "u0": 1.5}]
    table = {
        "matrix and set": dict(b, matrix=M, set=S),
        "matrix of lists": dict(b, matrix=util.pick(rng, {"f_bedload": deep}, {"h0": [1, 2], "f_bedload": deep})),
        "colon in matrix": dict(b, matrix=util.pick(rng, {"f_bedload:h0": [0.2, 0.5]}, {"h0": [1, 2], "u0:": [1, 2]},
                                                    {":u0": [1], "h0": [1, 2]})),
        "out_dir in matrix": dict(b, matrix=util.pick(rng, {"out_dir": ["a", "b"], "h0": [1, 2]},
                                                      {"h0": [1, 2], "out_dir": ["a"]})),
        "same key fixed and in matrix": dict(b, matrix=both, **{fixed: fval}),
        "matrix not a mapping": dict(b, matrix=[0.2, 0.5]),
        "matrix without folder": dict(no_out, matrix=M),
        "set without folder": dict(no_out, set=S),
        "ensemble without folder": dict(no_out, ensemble=2),
        "ensemble not a number": dict(b, ensemble=util.pick(rng, "3", 2.5, [2])),
        "ensemble and seeds in matrix": dict(b, ensemble=2, matrix={"seed": [1, 2]}),
        "ensemble and fixed seed": dict(b, ensemble=2, seed=util.pick(rng, 5, 0)),
        "ensemble of none": dict(b, ensemble=util.pick(rng, 0, -1), **util.pick(
            rng, {}, {"matrix": M})),
        "set of different keys": dict(b, set=[{"h0": 1.0}, {"u0": 1.0}]),
        "set with a missing key": dict(b, set=S + [{"h0": 3.0}]),
        "set with an extra key": dict(b, set=S + [{"h0": 3.0, "u0": 1.0, "S0": 1e-4}]),
        "set not a list": dict(b, set={"h0": [1, 2]}),
        "set of numbers": dict(b, set=[1.0, 2.0]),
        "colon in set": dict(b, set=[{"h0:u0": 1.0}, {"h0:u0": 2.0}]),
    }
    for name in rng.choice(list(table), 7, replace=False):
        spec, r = table[str(name)], root + str(name).replace(" ", "_")
        one_invalid(rng, str(name), dict(spec, out_dir=r) if "out_dir" in spec else spec,
                    r, res)


def one_invalid(rng, name, spec, root, res):
    from pyDeltaRCM import preprocessor

    path = os.path.join(util.casedir(), "i%d.yml" % rng.randint(10**9))
    dump_yaml(rng, spec, path)
    res.n("invalid")
    os.makedirs(os.path.join(util.casedir(), "cwd"), exist_ok=True)
    os.chdir(os.path.join(util.casedir(), "cwd"))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            if rng.rand() < 0.5:
                preprocessor.Preprocessor(path)
            else:
                preprocessor.Preprocessor(copy.deepcopy(spec))
            res.fail("an invalid job specification is accepted: " + name)
        except (ValueError, TypeError):
            res.sig("invalid", name)
    made = [d for r in (root, os.getcwd()) if os.path.isdir(r)
            for d in os.listdir(r) if os.path.isdir(os.path.join(r, d))]
    res.expect(not made, "job folders are made for an invalid specification: " + name,
               made=made)
