"""Shared helpers for the checks: scratch directories, workload generators,
instrumented models."""
import logging
import os
import shutil
import sys
import tempfile
import warnings

import numpy as np

SCRATCH = None
REPO = None
_case = None


class Unobservable(Exception):
    """The place a monitor watches is not there any more in this form."""


class Inconclusive(Exception):
    pass


def setup(scratch, repo):
    global SCRATCH, REPO
    SCRATCH, REPO = scratch, repo


def new_case_dir():
    global _case
    _case = tempfile.mkdtemp(prefix="case_", dir=SCRATCH)
    os.chdir(_case)
    return _case


def end_case_dir(d):
    os.chdir(SCRATCH)
    close_loggers()
    shutil.rmtree(d, ignore_errors=True)


def close_loggers():
    for name in list(logging.Logger.manager.loggerDict):
        lg = logging.Logger.manager.loggerDict[name]
        if isinstance(lg, logging.Logger) and lg.handlers:
            for h in list(lg.handlers):
                if isinstance(h, logging.FileHandler):
                    h.close()
                    lg.removeHandler(h)
    try:
        import matplotlib.pyplot as plt

        plt.close("all")
    except Exception:
        pass


_n = [0]


def outdir(name=None):
    """A fresh (not yet existing) output directory inside the case directory."""
    _n[0] += 1
    return os.path.join(_case, name or "out%d" % _n[0])


def casedir():
    return _case


def subrng(seed, *tags):
    import zlib

    return np.random.RandomState(
        (zlib.crc32(repr((seed,) + tags).encode()) + 77003 * seed) % (2**32)
    )


def warmup():
    """Compile every kernel once (forked workers inherit the code)."""
    from pyDeltaRCM import DeltaModel, shared_tools

    d = tempfile.mkdtemp(prefix="warm_", dir=SCRATCH)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = DeltaModel(
            out_dir=os.path.join(d, "o"), Length=600.0, Width=900.0, dx=50.0,
            N0_meters=150.0, L0_meters=100.0, Np_water=10, Np_sed=10, itermax=1,
            seed=1,
        )
        m.update()
        m.update()
        m.finalize()
    shared_tools.get_random_uniform(1.0)
    shutil.rmtree(d, ignore_errors=True)


# --------------------------------------------------------------------------
# workload generator
# --------------------------------------------------------------------------
def pick(rng, *opts):
    return opts[rng.randint(len(opts))]


def gen_config(rng, size="small", **over):
    """A random valid run configuration (plain python types only)."""
    dx = float(pick(rng, 10.0, 25.0, 50.0, 50.0, 100.0, 33.0))
    if size == "tiny":
        L, W = rng.randint(10, 16), rng.randint(14, 26)
    elif size == "small":
        L, W = rng.randint(10, 24), rng.randint(14, 44)
    elif size == "huge":    # more cells than two bytes count, more columns than one
        L, W = rng.randint(115, 125), rng.randint(290, 310)
    else:
        L, W = rng.randint(24, 60), rng.randint(40, 110)
    L, W = int(L), int(W)
    h0 = float(pick(rng, 1.0, 2.0, 3.5, 5.0, 5.0, 8.0))
    u0 = float(pick(rng, 0.5, 1.0, 1.0, 1.5, 2.0))
    S0 = float(pick(rng, 0.00005, 0.00015, 0.00015, 0.0005, 0.001))
    while 9.81 * S0 * dx / u0**2 > 0.95:
        S0 /= 2.0
    c = {
        "Length": float(L * dx),
        "Width": float(W * dx),
        "dx": dx,
        "L0_meters": float(dx * rng.randint(1, 5)),
        "N0_meters": float(dx * rng.randint(2, 9)),
        "S0": S0,
        "u0": u0,
        "h0": h0,
        "hb": pick(rng, None, None, h0, h0 * 0.5, h0 * 2.0, h0 * 0.15),
        "H_SL": float(pick(rng, 0.0, 0.0, 0.0, 0.5, -0.5, 2.0)),
        "SLR": float(pick(rng, 0.0, 0.0, 1e-7, 1e-6, -1e-7, 1e-5)),
        "itermax": int(pick(rng, 1, 2, 3, 3, 4)),
        "Np_water": int(pick(rng, 5, 20, 40, 60)),
        "Np_sed": int(pick(rng, 5, 20, 40, 60)),
        "f_bedload": float(pick(rng, 0.0, 0.25, 0.5, 0.5, 0.75, 1.0)),
        "C0_percent": float(pick(rng, 0.05, 0.1, 0.1, 0.5, 1.0)),
        "Csmooth": float(pick(rng, 0.0, 0.5, 0.9, 0.9, 1.0)),
        "Nsmooth": int(pick(rng, 0, 1, 3, 5)),
        "omega_sfc": float(pick(rng, 0.1, 0.1, 0.5, 1.0)),
        "omega_flow": float(pick(rng, 0.9, 0.9, 0.5, 1.0, 0.0)),
        "theta_water": float(pick(rng, 1.0, 1.0, 0.5, 2.0)),
        "coeff_theta_sand": float(pick(rng, 2.0, 2.0, 1.0)),
        "coeff_theta_mud": float(pick(rng, 1.0, 1.0, 0.5)),
        "beta": int(pick(rng, 3, 3, 2, 1)),
        "sed_lag": float(pick(rng, 1.0, 1.0, 0.5)),
        "coeff_U_dep_mud": float(pick(rng, 0.3, 0.3, 0.6)),
        "coeff_U_ero_mud": float(pick(rng, 1.5, 1.5, 0.8)),
        "coeff_U_ero_sand": float(pick(rng, 1.05, 1.05, 0.7)),
        "alpha": float(pick(rng, 0.1, 0.1, 0.0, 0.05)),
        "stepmax": pick(rng, None, None, None, 20, 50, float(2 * (L + W))),
        "sand_frac_bc": float(pick(rng, 0.0, 0.0, 0.3, 1.0)),
        "active_layer_thickness": pick(rng, None, None, 0.0, 0.5, 2.0),
        "toggle_subsidence": bool(rng.rand() < 0.35),
        "subsidence_rate": float(pick(rng, 2e-9, 1e-7, 1e-6, 1e-5)),
        "start_subsidence": pick(rng, 0, 0.0, 10000, 216000, 50000.0),
        "seed": int(rng.randint(0, 2**31 - 1)),
    }
    c["verbose"] = (0, 0, 0, 0, 1, 2, 3, 9)[c["seed"] % 8]
    c.update(over)
    if os.environ.get("NUMBA_DISABLE_JIT") == "1":
        # an empty parcel list only types correctly when compiled
        n, f = c["Np_sed"], c["f_bedload"]
        if int(n * f) == 0 or int(n * (1 - f)) == 0:
            c["f_bedload"] = 0.5
    return c


def make(cfg, cls=None, out=None, **kw):
    """Build a model on a fresh scratch output directory."""
    if cls is None:
        from pyDeltaRCM import DeltaModel as cls
    c = dict(cfg)
    c.update(kw)
    c.setdefault("out_dir", out or outdir())
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return cls(**c)


STATE = ("eta", "stage", "depth", "qx", "qy", "qw", "ux", "uy", "uw", "qs",
         "sand_frac", "active_layer")
GRIDS = ("eta", "stage", "depth", "discharge", "velocity", "sedflux", "sandfrac")
FIGS = GRIDS


def digest(m):
    """Bytes of everything a user can observe of the model state."""
    import hashlib

    h = hashlib.md5()
    for k in STATE:
        a = np.ascontiguousarray(getattr(m, k), dtype=np.float64)
        h.update(k.encode() + a.tobytes())
    h.update(repr((float(m.time), int(m.time_iter), float(m.H_SL))).encode())
    return h.hexdigest()


def read_nc(path):
    """Independent reader: {name: (array, units, dims)} incl. 'meta/...'."""
    from netCDF4 import Dataset

    out = {}
    with Dataset(path, "r") as ds:
        ds.set_auto_mask(False)
        for name, v in ds.variables.items():
            out[name] = (np.array(v[...]), getattr(v, "units", None), v.dimensions)
        for g, grp in ds.groups.items():
            for name, v in grp.variables.items():
                v.set_auto_mask(False)
                out[g + "/" + name] = (
                    np.array(v[...]), getattr(v, "units", None), v.dimensions)
        out["__attrs__"] = ({k: ds.getncattr(k) for k in ds.ncattrs()}, None, None)
    return out


# --------------------------------------------------------------------------
# instrumentation through the model's public hooks
# --------------------------------------------------------------------------
HOOKS = (
    "import_files", "process_input_to_model", "create_other_variables",
    "create_domain", "after_create_domain", "load_checkpoint", "init_output_file",
    "output_data", "output_checkpoint", "solve_water_and_sediment_timestep",
    "route_water", "init_water_iteration", "run_water_iteration",
    "compute_free_surface", "finalize_water_iteration", "after_route_water",
    "route_sediment", "init_sediment_iteration", "route_all_sand_parcels",
    "topo_diffusion", "route_all_mud_parcels", "after_route_sediment",
    "apply_subsidence", "finalize_timestep", "compute_sand_frac",
    "after_finalize_timestep",
)


def monitored(callbacks, base=None, extra=None):
    """A DeltaModel subclass whose hooks call ``callbacks[name](model, *args)``."""
    if base is None:
        from pyDeltaRCM import DeltaModel as base
    ns = {}

    def mk(name):
        def hook(self, *a, **k):
            getattr(base, "hook_" + name)(self, *a, **k)
            callbacks[name](self, *a, **k)

        return hook

    for name in callbacks:
        assert name in HOOKS, name
        ns["hook_" + name] = mk(name)
    ns.update(extra or {})
    return type("Monitored", (base,), ns)


def eventful(base=None):
    """A model whose flow and sediment step is replaced by small changes of every field (a
    function of seed and step): long histories of everything around that step are cheap."""
    if base is None:
        from pyDeltaRCM import DeltaModel as base

    class Eventful(base):
        def solve_water_and_sediment_timestep(self):
            self.eta0 = np.copy(self.eta)
            r = np.random.RandomState((int(self.seed) + 7919 * int(self.time_iter)) % 2**32)

            def add(a, w=0.01):
                a += r.uniform(-w, w, a.shape).astype(a.dtype)

            for k in ("eta", "qx", "qy", "ux", "uy", "stage"):
                add(getattr(self, k))
            self.qs[:] = r.uniform(0, 1, self.eta.shape)
            self.qw[:] = np.sqrt(self.qx**2 + self.qy**2)
            self.uw[:] = np.sqrt(self.ux**2 + self.uy**2)
            self.depth[:] = np.maximum(self.stage - self.eta, 0)
            self.Vp_dep_sand[:] = r.uniform(0, 1, self.eta.shape) * (r.rand(*self.eta.shape) < 0.2)
            self.Vp_dep_mud[:] = r.uniform(0, 1, self.eta.shape) * (r.rand(*self.eta.shape) < 0.2)

    return Eventful


def snap(m, *names):
    return {k: np.array(getattr(m, k), copy=True) for k in names}


def close(a, b, **kw):
    """np.allclose which is False, not an error, for arrays of different shapes."""
    if np.ndim(b) and np.shape(a) != np.shape(b):
        return False
    return np.allclose(a, b, **kw)
