"""Hooks: order, number, state seen."""
import json
import os
import warnings

import numpy as np
import util

RULE = (
    "random configurations (water iterations, output, checkpoint, resume, deferred output) x "
    "updates; every hook and every step it announces records an event with a digest of the "
    "model state; an online checker follows the documented sequence event by event; "
    "models with all, some and no hooks defined are compared state by state; distinct and "
    "non-trivial: (event sequence of the initialisation, length of an update's sequence, "
    "set of hooks defined)"
)
PHASES = [
    {"name": "py", "mode": "nojit", "workers": 6,
     "budget": {"quick": 20, "thorough": 900}, "min": {"quick": 30},
     "require": {"events": 3000, "updates": 80, "resumed": 8, "deferred": 5,
                 "compared": 30, "effects": 25, "deprecated": 4, "resumed_new_file": 1}},
    {"name": "jobs", "mode": "nojit", "workers": 2,
     "budget": {"quick": 20, "thorough": 500}, "min": {"quick": 5},
     "timeout": {"quick": 150, "thorough": 300},
     "require": {"jobs": 12, "jobs_parallel": 4, "jobs_resumed": 3, "events": 1500}},
]
BEFORE = [h for h in util.HOOKS if not h.startswith("after_")]
AFTER = {"after_create_domain": "create_domain", "after_route_water": "route_water",
         "after_route_sediment": "route_sediment",
         "after_finalize_timestep": "finalize_timestep"}
ONE = [  # one update, in order: hooks only
    "solve_water_and_sediment_timestep", "route_water", "*water", "after_route_water",
    "route_sediment", "init_sediment_iteration", "route_all_sand_parcels",
    "topo_diffusion", "route_all_mud_parcels", "after_route_sediment", "apply_subsidence",
    "finalize_timestep", "compute_sand_frac", "after_finalize_timestep", "output_data",
    "output_checkpoint"]
WATER = ["init_water_iteration", "run_water_iteration", "compute_free_surface",
         "finalize_water_iteration"]
INIT = ["import_files", "process_input_to_model", "create_other_variables",
        "create_domain", "after_create_domain"]
OUT = ["init_output_file", "output_data", "output_checkpoint"]


def cases_py(tier, seed):
    rng = util.subrng(seed, "C19", tier)
    return [{"cfg": util.gen_config(rng, "tiny", itermax=int(rng.randint(1, 5))),
             "n": 3, "resume": i % 4 == 1, "defer": i % 4 == 3, "moved": i % 12 == 5,
             "save": util.pick(rng, {}, {"save_eta_grids": True},
                               {"save_metadata": True, "save_checkpoint": True})
             if i % 12 != 5 else {"save_eta_grids": True},
             "rs": int(rng.randint(2**31 - 1))}
            for i in range(48 if tier == "quick" else 3000)]


def mini(m):
    import hashlib

    h = hashlib.md5()
    for k in util.STATE + ("Vp_dep_sand", "Vp_dep_mud", "qxn", "qyn", "sfc_sum"):
        a = getattr(m, k, None)
        if a is not None:
            h.update(np.ascontiguousarray(a).tobytes())
    h.update(repr((getattr(m, "time", None), getattr(m, "time_iter", None),
                   getattr(m, "H_SL", None))).encode())
    return h.hexdigest()


def recorder(trace, names=None):
    """A model class in which hooks and the steps they announce leave events."""
    from pyDeltaRCM import DeltaModel

    ns = {"_sink": lambda self, e: trace.append(e)}

    def mk_hook(name):
        def hook(self, *a, **k):
            self._sink(("hook", name, mini(self), getattr(self, "time_iter", None), a))
        return hook

    def mk_step(name):
        base = getattr(DeltaModel, name)

        def step(self, *a, **k):
            self._sink(("enter", name, mini(self), None, a))
            r = base(self, *a, **k)
            self._sink(("exit", name, mini(self), None, a))
            return r
        return step

    for h in util.HOOKS:
        if names is None or h in names:
            ns["hook_" + h] = mk_hook(h)
        if h not in AFTER and hasattr(DeltaModel, h) and names is None:
            ns[h] = mk_step(h)
    return type("Recorded", (DeltaModel,), ns)


def hooks(trace):
    return [e[1] for e in trace if e[0] == "hook"]


def check_pairs(trace, res):
    """Each hook directly precedes (follows) its step, with the state unchanged between."""
    res.n("events", len(trace))
    for i, e in enumerate(trace):
        kind, name, dig = e[:3]
        if kind == "hook" and name in AFTER:
            p = trace[i - 1] if i else None
            res.expect(p is not None and p[:2] == ("exit", AFTER[name]),
                       "hook_%s does not directly follow the step it is named after" % name,
                       before=p and list(p[:2]))
            if p is not None:
                res.expect(p[2] == dig, "the state changes between a step and the hook after "
                           "it", hook=name)
        elif kind == "hook":
            q = trace[i + 1] if i + 1 < len(trace) else None
            ok = q is not None and q[:2] == ("enter", name)
            if name == "init_output_file" and not ok and not any(
                    t[:2] == ("enter", name) for t in trace):
                # a resumed run continues its file instead of starting one
                continue
            res.expect(ok, "hook_%s does not directly precede the step it is named after"
                       % name, after=q and list(q[:2]))
            if ok:
                res.expect(q[2] == dig, "the state changes between a hook and the step it "
                           "announces", hook=name)
                res.expect(q[4] == e[4] or name == "load_checkpoint" or
                           name == "import_files",
                           "a hook is given other arguments than its step",
                           hook=name, hook_args=repr(e[4]), step_args=repr(q[4]))
        elif kind == "enter" and name in BEFORE:
            p = trace[i - 1] if i else None
            res.expect(p is not None and p[:2] == ("hook", name),
                       "the step %s happens without its hook" % name,
                       before=p and list(p[:2]))


def run_py(case, res):
    rng = np.random.RandomState(case["rs"])
    trace = []
    cls = recorder(trace)
    cfg = dict(case["cfg"], **case["save"])
    if case["resume"]:
        cfg.update(save_checkpoint=True, checkpoint_dt=1)
    out = util.outdir()
    m = util.make(cfg, cls=cls, out=out, defer_output=case["defer"])
    if case["defer"]:
        res.n("deferred")
    want = INIT + ([] if case["defer"] else OUT)
    got = hooks(trace)
    res.expect(got == want, "the hooks of the initialisation are not called once each in the "
               "documented order", got=got, want=want)
    check_pairs(trace, res)
    if case["defer"]:
        res.expect(not any(f.endswith((".nc", ".npz", ".png")) for f in os.listdir(out)),
                   "output is written although it is deferred", files=os.listdir(out))
        m.init_output_file()
    updates(m, trace, case["n"], res)
    res.sig(tuple(got), len(trace), "fresh")
    m.finalize()
    if case["resume"]:
        res.n("resumed")
        del trace[:]
        put_off = bool(rng.rand() < 0.4)   # resumed with its output put off
        nc = os.path.join(out, "pyDeltaRCM_output.nc")
        if case["moved"]:                  # its output moved away: a new file is begun
            put_off = False
            if os.path.exists(nc):
                os.remove(nc)
                res.n("resumed_new_file")
        m = util.make(dict(cfg, resume_checkpoint=True), cls=cls, out=out,
                      defer_output=put_off)
        got = hooks(trace)
        anyout = any(cfg.get(k) for k in ("save_eta_grids", "save_metadata"))
        want = INIT + ["load_checkpoint"] + (
            ["init_output_file"] if anyout and not put_off else [])
        if put_off:
            res.n("resumed_deferred")
        res.expect(got == want, "the hooks of a resumed initialisation are not called once "
                   "each in the documented order", got=got, want=want)
        check_pairs(trace, res)
        res.sig(tuple(got), "resumed")
        if put_off:
            m.load_checkpoint(defer_output=False)
        updates(m, trace, 2, res)
        m.finalize()
    compare(case, rng, res)
    effects(case, rng, res)
    late(case, rng, res)
    res.sample({"init": got, "itermax": m.itermax})


def cases_jobs(tier, seed):
    rng = util.subrng(seed, "C19", "jobs", tier)
    return [{"n": int(rng.randint(2, 4)), "workers": (2, False, True, False)[i % 4],
             "itermax": int(rng.randint(1, 4)), "steps": int(rng.randint(1, 4)),
             "resume": i % 4 in (0, 3),
             "save": util.pick(rng, {}, {"save_eta_grids": True},
                               {"save_metadata": True, "save_checkpoint": True})}
            for i in range(8 if tier == "quick" else 200)]


class FileTrace:
    """Events of one job, kept across the processes it runs in."""

    def __init__(self, folder):
        self.folder, self.made = folder, 0

    def append(self, model, *e):
        if "_trace_no" not in model.__dict__:
            model.__dict__["_trace_no"] = self.made
            self.made += 1
        with open(os.path.join(self.folder, "%d" % model._trace_no), "a") as f:
            f.write(json.dumps(e) + "\n")

    def take(self):
        out = []
        for n in sorted(os.listdir(self.folder), key=int):
            with open(os.path.join(self.folder, n)) as f:
                out.append([tuple(json.loads(x)) for x in f])
            os.remove(os.path.join(self.folder, n))
        self.made = 0
        return out


def run_jobs(case, res):
    """The hooks of models the preprocessor runs, in this process and in others."""
    from checks import c17
    from pyDeltaRCM import preprocessor

    folder = os.path.join(util.casedir(), "trace")
    os.makedirs(folder)
    trace = FileTrace(folder)
    base = recorder(None)

    cls = type("Recorded", (base,), {"_sink": lambda self, e: trace.append(self, *e)})
    n, steps = case["n"], case["steps"]
    spec = dict(c17.BASE, out_dir=os.path.join(util.casedir(), "root"), timesteps=steps,
                itermax=case["itermax"], save_dt=1, checkpoint_dt=1,
                set=[{"h0": 1.0 + 0.25 * i, "seed": 10 + i} for i in range(n)],
                **case["save"])
    if case["resume"]:
        spec["save_checkpoint"] = True
    if case["workers"] is not False:
        spec["parallel"] = case["workers"]
    for resumed in (False, True) if case["resume"] else (False,):
        with c17.bounded(res), c17.quiet():
            pp = preprocessor.Preprocessor(dict(spec, resume_checkpoint=resumed)
                                           if resumed else spec)
            pp.run_jobs(DeltaModel=cls)
        one = []
        for h in ONE:
            one += WATER * case["itermax"] if h == "*water" else [h]
        anyout = any(case["save"].get(k) for k in ("save_eta_grids", "save_metadata"))
        want = INIT + (["load_checkpoint"] + ["init_output_file"] * anyout if resumed
                       else OUT) + one * steps
        traces = trace.take()
        res.expect(len(traces) == n, "not every job makes one model", models=len(traces),
                   jobs=n)
        for t in traces:
            # a resumed job of another process loads its checkpoint there again
            again = [i for i, e in enumerate(t) if e[1] == "load_checkpoint"]
            drop = set(again[3:])
            t = [e for i, e in enumerate(t) if i not in drop]
            got = hooks(t)
            res.n("jobs")
            res.n("jobs_parallel", case["workers"] is not False)
            res.n("jobs_resumed", resumed)
            res.expect(got == want, "the hooks of a job are not called once each in the "
                       "documented order", got=got, want=want, workers=str(case["workers"]),
                       resumed=resumed)
            check_pairs(t, res)
            res.sig("job", tuple(got), str(case["workers"]), resumed)
    res.sample({"jobs": n, "workers": str(case["workers"]), "resumed": case["resume"]})


def updates(m, trace, n, res):
    for _ in range(n):
        del trace[:]
        k = m.time_iter
        m.update()
        res.n("updates")
        want = []
        for h in ONE:
            want += WATER * m.itermax if h == "*water" else [h]
        got = hooks(trace)
        res.expect(got == want, "the hooks of an update are not called once each in the "
                   "documented order", got=got, want=want)
        check_pairs(trace, res)
        it = [e[4] for e in trace if e[0] == "hook" and e[1] == "finalize_water_iteration"]
        res.expect([a[0] if a else None for a in it] == list(range(m.itermax)),
                   "hook_finalize_water_iteration is not given the number of the iteration",
                   got=repr(it))
        for e in trace:
            if e[0] == "hook":
                late = e[1] in ("output_data", "output_checkpoint")
                res.expect(e[3] == k + late, "a hook sees the wrong time step", hook=e[1],
                           got=e[3], want=k + late)


def compare(case, rng, res):
    """Defining hooks that do nothing changes nothing."""
    from pyDeltaRCM import DeltaModel

    a = util.make(case["cfg"], cls=DeltaModel)
    some = [h for h in util.HOOKS if rng.rand() < 0.5]
    da = []
    for _ in range(2):
        a.update()
        da.append(util.digest(a))
    b = util.make(case["cfg"], cls=recorder([], some))
    for d in da:
        b.update()
        res.n("compared")
        res.expect(util.digest(b) == d, "a hook that does nothing changes the run",
                   hooks=some)
    res.sig(tuple(some))
    for m in (a, b):
        m.finalize()


# (parameter, values) that only the step after a hook, or later ones, use
LATE = {
    "solve_water_and_sediment_timestep": [("itermax", (1, 2, 3)),
                                          ("Np_sed", (21, 36)), ("C0_percent", (0.05, 0.3))],
    "route_water": [("itermax", (1, 2, 3)), ("theta_water", (0.5, 2.0)),
                    ("Np_sed", (21, 36))],
    "init_water_iteration": [("omega_flow", (0.3, 0.8)), ("omega_sfc", (0.4, 0.05)),
                             ("f_bedload", (0.1, 0.9))],
    "run_water_iteration": [("omega_flow", (0.3, 0.8)), ("Csmooth", (0.5, 0.8))],
    "compute_free_surface": [("omega_flow", (0.3, 0.8)), ("Csmooth", (0.5, 0.8)),
                             ("omega_sfc", (0.4, 0.05)), ("Nsmooth", (0, 3, 8))],
    "after_route_water": [("f_bedload", (0.1, 0.9)), ("Np_sed", (21, 36)),
                          ("alpha", (0.0, 0.2)), ("beta", (1, 4))],
    "route_sediment": [("f_bedload", (0.1, 0.9)), ("Np_sed", (21, 36)), ("alpha", (0.0, 0.2)),
                       ("coeff_U_ero_sand", (1.0, 1.3)), ("coeff_theta_sand", (1.5, 2.5))],
    "init_sediment_iteration": [("Np_sed", (21, 36)), ("alpha", (0.0, 0.2)), ("f_bedload", (0.2, 0.8)),
                                ("coeff_theta_mud", (0.7, 1.5))],
    "route_all_sand_parcels": [("Np_sed", (21, 36)), ("Np_sed", (21, 36)),
                               ("alpha", (0.0, 0.2)), ("coeff_theta_mud", (0.7, 1.5)),
                               ("f_bedload", (0.2, 0.8))],
    "topo_diffusion": [("Np_sed", (21, 36)), ("alpha", (0.0, 0.2)), ("coeff_U_dep_mud", (0.2, 0.6))],
    "route_all_mud_parcels": [("Np_sed", (21, 36)), ("Np_sed", (21, 36)),
                              ("coeff_U_dep_mud", (0.2, 0.6)), ("SLR", (1e-6, -1e-6)),
                              ("coeff_theta_mud", (0.7, 1.5))],
    "after_route_sediment": [("SLR", (1e-6, -1e-6)), ("subsidence_rate", (1e-7, 3e-7)),
                             ("active_layer_thickness", (0.1, 2.0))],
    "apply_subsidence": [("SLR", (1e-6, -1e-6)), ("subsidence_rate", (1e-7, 3e-7)),
                         ("start_subsidence", (0, 1e12)),
                         ("active_layer_thickness", (0.1, 2.0))],
    "finalize_timestep": [("SLR", (1e-6, -1e-6)), ("active_layer_thickness", (0.1, 2.0))],
    "compute_sand_frac": [("active_layer_thickness", (0.1, 2.0))],
}
# hooks after which the number of sand parcels can no longer change in the step
AFTER_SAND = ("topo_diffusion", "route_all_mud_parcels")


def late(case, rng, res):
    """A parameter set in a hook is used by the step the hook announces: the run is that of
    a model given the value before the update."""
    from pyDeltaRCM import DeltaModel

    cfg = dict(case["cfg"], toggle_subsidence=True, start_subsidence=0, subsidence_rate=5e-8,
               Np_sed=24)
    for h in rng.choice(sorted(LATE), 4, replace=False):
        name, vals = LATE[h][rng.randint(len(LATE[h]))]
        cfg["f_bedload"] = 0.5
        if name == "Np_sed":
            cfg["f_bedload"] = 0.05 if h in AFTER_SAND else util.pick(rng, 0.05, 0.5, 0.95)
        plan = [util.pick(rng, *vals) for _ in range(2)]
        digs = []
        for way in ("hook", "before", "never"):
            st = {}

            def hook(self, *a, **k):
                if st.get("v") is not None:
                    v, st["v"] = st["v"], None      # once per update
                    setattr(self, name, v)

            m = util.make(cfg, cls=type("Late", (DeltaModel,), {"hook_" + h: hook})
                          if way == "hook" else DeltaModel)
            d = []
            for v in plan:
                if way == "hook":
                    st["v"] = v
                elif way == "before":
                    setattr(m, name, v)
                m.update()
                d.append(util.digest(m))
            m.finalize()
            digs.append(d)
        res.n("late")
        if digs[0] != digs[2]:
            res.n("late_matters")
            res.sig("late", h, name)
        # another number of parcels or iterations takes other random numbers
        if name == "Np_sed":
            res.n("late_counts")
            res.expect(digs[0] != digs[2], "a number of parcels set in a hook is not used by "
                       "the step it announces", hook=h, values=plan, f_bedload=cfg["f_bedload"])
        res.expect(digs[0] == digs[1] or h in AFTER_SAND and name == "Np_sed",
                   "a parameter set in a hook is not used by the step it announces",
                   hook=h, parameter=name, values=plan)


def effects(case, rng, res):
    """A change made in a hook is there for the step it announces, and stays."""
    from pyDeltaRCM import DeltaModel

    seen = {}

    class Eff(DeltaModel):
        def hook_process_input_to_model(self):
            self._input_file_vars["theta_water"] = 1.75

        def hook_create_other_variables(self):
            self.f_bedload = 0.5
            self.h0 = self.h0 * 2

        def hook_create_domain(self):
            self.N0 = 4 if self.W > 16 else 3

        def hook_after_create_domain(self):
            self.eta[-2, 1:-1] -= 0.125
            self.depth[:] = np.maximum(self.stage - self.eta, 0)

        def hook_apply_subsidence(self):
            seen["eta"] = self.eta.copy()
            self.toggle_subsidence = True
            self.start_subsidence = 0
            self.sigma = np.full(self.eta.shape, 0.25)

        def hook_finalize_timestep(self):
            seen["after"] = self.eta.copy()
            self.SLR = 1e-6

        def hook_output_data(self):
            seen["out"] = self.time

    m = util.make(case["cfg"], cls=Eff)
    res.n("effects")
    c = case["cfg"]
    res.expect(m.theta_water == 1.75 and abs(m.theta_sand - 1.75 * c["coeff_theta_sand"])
               < 1e-9, "a configuration value set in a hook before it is applied is not used")
    res.expect(abs(m.qw0 - m.u0 * c["h0"] * 2) < 1e-9,
               "a parameter set in a hook before derived quantities are computed is not used")
    res.expect(len(m.inlet) == m.N0, "a size set in a hook before the domain is created is "
               "not used", inlet=len(m.inlet), N0=m.N0)
    e0 = -(c["hb"] if c["hb"] is not None else 2 * c["h0"]) - 0.125
    res.expect(abs(float(m.eta[-2, m.W // 2]) - e0) < 1e-4, "a change of the domain made in "
               "a hook is lost", got=float(m.eta[-2, m.W // 2]), want=e0)
    h = m.H_SL
    m.update()
    d = seen["eta"] - seen["after"]
    res.expect(np.allclose(d, 0.25, atol=1e-5), "a change made in hook_apply_subsidence is "
               "not used by the step", got=[float(d.min()), float(d.max())])
    res.expect(abs(m.H_SL - h - 1e-6 * m.dt) <= 1e-6 * abs(1e-6 * m.dt),
               "a change made in hook_finalize_timestep is not used by the step")
    res.expect(seen["out"] == m.time, "hook_output_data sees another time than the output")
    m.finalize()
    if rng.rand() < 0.4:
        for old in ("hook_sed_route", "hook_run_one_timestep"):
            res.n("deprecated")
            bad = type("Old", (DeltaModel,), {old: lambda self: None})
            how = rng.randint(3)
            if how == 1:    # inherited
                bad = type("Older", (bad,), {"hook_route_water": lambda self: None})
            elif how == 2:  # mixed in
                bad = type("Mixed", (DeltaModel, type("Mix", (), {old: lambda self: None})), {})
            try:
                util.make(case["cfg"], cls=bad)
                res.fail("a hook that is never called any more is accepted silently",
                         hook=old)
            except AttributeError:
                pass
