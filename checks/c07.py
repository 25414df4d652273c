"""C07: minimum masses from tracer densities."""

import numpy as np
from hypothesis import strategies as st

from halomod.halo_model import NGException
from checks.c05 import hod_st
from vlib import formulas as F
from vlib import models as M
from vlib.core import Clause, Violation
from vlib.util import close, ensure, fl, fx, raises

ASSUMPTIONS = [
    "The density is that integrated by the model itself (checked in C06). Where the occupation is discontinuous, an "
    "error of one cell of the mass grid is allowed.",
]


def params(hod):
    return {**hod["params"], **({"central": True} if hod["central"] else {})}


def limits(cfg, hod):
    """Densities at the smallest and largest minimum mass."""
    out = []
    for mm in (cfg["Mmin"], cfg["Mmax"] - 0.25):
        h = M.tracer(cfg, hod_model=hod["name"], hod_params={**params(hod), "M_min": mm})
        out.append(float(h.mean_tracer_den))
    return out


def tol(h, cfg, hod):
    r = M.Ref(h, cfg, dict(hod, params={**hod["params"], "M_min": float(h.hod.params["M_min"])}))
    d, e = r.density()
    return 4e-3 + 1.5 * e / max(d, 1e-300)


def solve(cfg, hod, ng):
    return M.tracer(cfg, hod_model=hod["name"], hod_params=params(hod), tracer_density=ng)


def same(a, b, what):
    for q in ("mean_tracer_den", "bias_effective_tracer", "satellite_fraction", "mass_effective", "total_occupation"):
        close(f"{q} {what}", getattr(a, q), getattr(b, q), rtol=1e-8)


def fn_solve(case, note):
    cfg, hod = case["cfg"], case["hod"]
    hi, lo = limits(cfg, hod)
    ng = 10 ** case["ln"] if case["how"] == "free" else float(
        M.tracer(cfg, hod_model=hod["name"], hod_params={**params(hod), "M_min": case["mm"]}).mean_tracer_den)
    if ng <= 1e-14:
        return note.trivial("no tracers")
    make = lambda: solve(cfg, hod, ng)
    if ng > 1.15 * hi or ng < 0.9 * lo:
        raises("unreachable density", (NGException,), make)
        note("too dense" if ng > hi else "too sparse")
        return note(hod["name"])
    if not (1.1 * lo < ng < 0.87 * hi):
        return note.trivial("near a limit")
    h = make()
    t = tol(h, cfg, hod)
    if t > 0.5:
        return note.trivial("discontinuous on this grid")
    close("mean tracer density", float(h.mean_tracer_den), ng, rtol=t)
    close("density asked for", float(h.tracer_density), ng, rtol=0)
    mm = float(h.hod.params["M_min"])
    ensure(cfg["Mmin"] - 1e-6 <= mm <= cfg["Mmax"], f"minimum mass {mm}")
    if case["how"] != "free" and 1.3 * lo < ng:
        # the density falls with the minimum mass: with both sides known the mass is bracketed
        for side in (-1, 1):
            x = mm + side * 0.25
            if cfg["Mmin"] < x < cfg["Mmax"] - 0.1:
                d = float(M.tracer(cfg, hod_model=hod["name"], hod_params={**params(hod), "M_min": x}).mean_tracer_den)
                ensure(side * (d - ng) <= t * ng, f"density {d} at M_min {x}, {ng} at {mm}")
    for k, v in params(hod).items():
        if k not in ("M_min", "central"):
            close(f"parameter {k} after solving", float(h.hod.params[k]), v, rtol=0)
    e = M.tracer(cfg, hod_model=hod["name"], hod_params={**params(hod), "M_min": mm})
    ensure(e.tracer_density is None, "a density nobody asked for")
    same(h, e, "with the minimum mass set explicitly")
    note(hod["name"]), note("central condition" if hod["central"] else "independent"), note(case["how"])


def fn_history(case, note):
    """Updates keep the density, until a minimum mass is given."""
    cfg, hod = dict(case["cfg"]), dict(case["hod"])
    ng = 10 ** case["ln"]
    hi, lo = limits(cfg, hod)
    if not 1.2 * lo < ng < 0.8 * hi:
        return note.trivial("unreachable")
    h = solve(cfg, hod, ng)
    for step in case["steps"]:
        kind, val = step
        if kind in ("z", "sigma_8", "n"):
            new = dict(cfg, **{kind: val})
            upd = {kind: val}
            nh, nn = dict(hod), ng
        elif kind == "hod":
            new, nn = dict(cfg), ng
            nh = dict(hod, params={**hod["params"], "alpha": val})
            upd = dict(hod_params={"alpha": val})
        elif kind == "density":
            new, nh, nn = dict(cfg), dict(hod), 10**val
            upd = dict(tracer_density=nn)
        elif kind == "free":
            new, nn = dict(cfg), None
            nh = dict(hod, params={**hod["params"], "M_min": val})
            upd = dict(hod_params={"M_min": val})
        else:
            new, nh, nn, upd = dict(cfg), dict(hod), ng, {"dlog10m": val}
            new["dlog10m"] = val
        if nn is not None:
            hi, lo = limits(new, nh)
            if not 1.2 * lo < nn < 0.8 * hi:
                note("step skipped")
                continue
        cfg, hod, ng = new, nh, nn
        h.update(**upd)
        note(kind)
        if ng is None:
            ensure(h.tracer_density is None, "an explicit minimum mass does not release the density")
            f = M.tracer(cfg, hod_model=hod["name"], hod_params=params(hod))
        else:
            close("density after the update", float(h.mean_tracer_den), ng, rtol=tol(h, cfg, hod))
            f = solve(cfg, hod, ng)
        same(h, f, f"after {kind}, and of a new model")
    note(hod["name"])


def fn_none(case, note):
    """HODs whose occupation does not depend on a minimum mass."""
    n = case["name"]
    h = M.tracer(case["cfg"], hod_model=n)
    d = float(h.mean_tracer_den)
    raises("density of an HOD without a minimum mass", (NGException, ValueError), lambda: M.tracer(case["cfg"], hod_model=n, tracer_density=d * case["f"]))
    note(n)


names = ["Zehavi05", "Zheng05", "Contreras13", "Tinker05", "Zehavi05WithMax", "Zehavi05Marked", "Geach12", "Constant", "ContinuousPowerLaw"]
hods = lambda ns: st.tuples(hod_st(ns), st.booleans()).map(lambda t: dict(t[0], central=t[1])).map(
    lambda h: dict(h, params={k: v for k, v in h["params"].items() if k not in ("M_min", "logA", "sigma_A")}))
grid = dict(dlog10m=st.sampled_from([0.01, 0.02, 0.05]), Mmin=st.sampled_from([9.0, 10.0]), Mmax=st.sampled_from([16.0, 17.0]))
step = st.one_of(st.tuples(st.just("z"), fl(0, 2)), st.tuples(st.just("sigma_8"), fl(0.7, 0.9)), st.tuples(st.just("n"), fl(0.92, 1)), st.tuples(st.just("hod"), fl(0.7, 1.3)),
                 st.tuples(st.just("density"), fl(-4, -1.5)), st.tuples(st.just("free"), fl(11, 13.5)), st.tuples(st.just("grid"), st.sampled_from([0.01, 0.02]))).map(list)
CLAUSES = [
    Clause("solve", lambda: fx(cfg=M.dm_cfg(**grid), hod=hods(names), how=st.sampled_from(["free", "from", "from"]), ln=fl(-5, -0.5), mm=fl(10.3, 14)), fn_solve, quick=1000, shards=8,
           rule="random model, HOD and density, or the density of a random minimum mass", what="density obtained, equivalence with the explicit minimum mass, unreachable densities refused"),
    Clause("history", lambda: fx(cfg=M.dm_cfg(**dict(grid, dlog10m=st.just(0.02), z=fl(0, 1))), hod=hods(["Zehavi05", "Zheng05", "Zheng05"]).map(lambda h: dict(h, central=True)),
                                 ln=fl(-3.5, -1.5), steps=st.lists(step, min_size=1, max_size=4)), fn_history, quick=300, shards=8,
           rule="up to four updates; non-trivial when the density is attainable", what="the density is kept through updates, equal to a new model"),
    Clause("none", lambda: fx(cfg=M.dm_cfg(dlog10m=st.just(0.05)), name=st.sampled_from(["Spinelli19", "Leauthaud11"]), f=st.one_of(fl(0.01, 0.7), fl(1.4, 50))), fn_none, quick=40, shards=2,
           rule="random model", what="HODs that do not depend on a minimum mass are refused"),
]
