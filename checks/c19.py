"""C19: projected correlation functions."""

import warnings

import numpy as np
from hypothesis import strategies as st

from checks.c13 import hods
from vlib import formulas as F
from vlib import models as M
from vlib.core import Clause
from vlib.util import asnum, close, ensure, finite, fl, fx, raises, shape

ASSUMPTIONS = [
    "The correlation is tabulated on at least 20 points per decade, and projected separations lie between the first "
    "tabulated separation and 0.7 of the line-of-sight limit, which lies within the table.",
    "The line-of-sight integral of the code starts at a small distance from the projected separation: what this leaves "
    "out (up to 0.02 rp xi(rp)) is allowed.",
    "In the model form, the 3D correlation is the model's own (checked in C15).",
]


def project(xi, rp, rlim, n=240):
    """2 int xi ds along the line of sight up to the separation rlim, and the same of |xi|."""
    t, w = F.gl(n)
    out = np.zeros((2, len(rp)))
    for i, a in enumerate(rp):
        T = np.arccosh(rlim / a)
        r = a * np.cosh(T * t)
        y = 2 * xi(r) * r * T * w
        out[:, i] = np.sum(y), np.sum(np.abs(y))
    return out


def table_error(xi, r, rp, rlim):
    """Effect of cubic interpolation of the table."""
    sp = M.InterpolatedUnivariateSpline(r, xi(r))
    return project(lambda q: np.abs(sp(q) - xi(q)), rp, rlim, 120)[0]


def agree(what, got, want, size, err, rp, xi):
    """Within errors of integration, and the neglected start of the integral (up to 2 per cent of rp)."""
    got = shape(what, finite(what, got), want.shape)
    start = 0.0215 * np.asarray(rp, dtype=float) * xi(rp)
    close(what, got + start / 2, want, rtol=0, atol=0.55 * np.abs(start) + 0.004 * size + 1.2 * err)


def xi_of(spec, rmax):
    cut = spec["cut"] and max(spec["cut"], rmax / 6)  # resolved by the table

    def f(r):
        r = np.asarray(r, dtype=float)
        x = (r / spec["r0"]) ** -spec["g"] + spec["a2"] * (r / 3.0) ** -spec["g2"]
        if cut:
            x = x * np.exp(-r / cut)
        if spec["zero"]:
            x = x * (1 - (r / spec["zero"]) ** 2 / (1 + (r / spec["zero"]) ** 2) * 2)
        return x

    return f


XI = lambda: fx(r0=fl(1, 10), g=fl(1.1, 2.6), a2=st.one_of(st.just(0.0), fl(0, 2)), g2=fl(0.8, 2.8),
                cut=st.one_of(st.none(), fl(15, 60)), zero=st.one_of(st.none(), fl(20, 150)))
GRID = lambda: fx(lo=fl(-2.3, 0), span=fl(1.6, 3.5), per=st.integers(24, 60))


def grid(g):
    return np.logspace(g["lo"], g["lo"] + g["span"], max(40, int(g["span"] * g["per"])))


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            return fn(*a, **k)


def fn_function(case, note):
    from halomod.integrate_corr import projected_corr_gal as pc

    r = grid(case["grid"])
    xi = xi_of(case["xi"], r[-1])
    rlim = r[-1] * case["lim"]
    lo, hi = np.log(r[0]), np.log(0.7 * rlim)
    if hi <= lo:
        return note.trivial("no projected separations")
    rp = np.exp(lo + (hi - lo) * np.asarray(case["rp"]))
    x = xi(r)
    want, size = project(xi, rp, rlim)
    err = table_error(xi, r, rp, rlim)
    got = quiet(pc, r, x, rlim, rp)
    agree("projected correlation", got, want, size, err, rp, xi)
    if np.all(x > 0):
        note("positive correlation")
    # a single separation, another order, a subset
    for i in range(min(2, len(rp))):
        one = quiet(pc, r, x, rlim, rp[i : i + 1])
        agree("single separation", one, want[i : i + 1], size[i : i + 1], err[i : i + 1], rp[i : i + 1], xi)
    perm = np.random.RandomState(case["seed"]).permutation(len(rp))
    agree("unordered separations", quiet(pc, r, x, rlim, rp[perm]), want[perm], size[perm], err[perm], rp[perm], xi)
    agree("list of separations", quiet(pc, r, x, rlim, [float(v) for v in rp]), want, size, err, rp, xi)
    ints = np.unique(np.clip(np.round(rp), np.ceil(r[0]), np.floor(0.7 * rlim))).astype(int)
    ints = ints[(ints >= r[0]) & (ints <= 0.7 * rlim)]
    if len(ints):
        w, s = project(xi, ints.astype(float), rlim)
        agree("integer separations", quiet(pc, r, x, rlim, ints), w, s, table_error(xi, r, ints.astype(float), rlim), ints, xi)
        note("integer separations")
    # by default at the separations of the table
    sel = r <= 0.7 * rlim
    own = asnum("at the tabulated separations", quiet(pc, r, x, rlim))
    ensure(own.shape == r.shape, f"projected correlation at tabulated separations has shape {own.shape}")
    w, s = project(xi, r[sel][::5], rlim, 120)
    agree("at the tabulated separations", own[sel][::5], w, s, table_error(xi, r, r[sel][::5], rlim), r[sel][::5], xi)


def fn_linear(case, note):
    from halomod.integrate_corr import projected_corr_gal as pc

    r = grid(case["grid"])
    a, b = xi_of(case["xi"], r[-1]), xi_of(case["xi2"], r[-1])
    rlim = r[-1] * case["lim"]
    hi = np.log(0.7 * rlim)
    if hi <= np.log(r[0]):
        return note.trivial("no projected separations")
    rp = np.exp(np.log(r[0]) + (hi - np.log(r[0])) * np.sort(case["rp"]))
    s = case["scale"]
    g1, g2 = (quiet(pc, r, f(r), rlim, rp) for f in (a, b))
    size = project(a, rp, rlim)[1] + abs(s) * project(b, rp, rlim)[1]
    # the start of the integral depends on the local slope, so linear to the integration error only
    close("multiple of a correlation", quiet(pc, r, 1000 * a(r), rlim, rp), 1000 * np.asarray(g1), rtol=1e-6, atol=1e-9)
    got = quiet(pc, r, a(r) + s * b(r), rlim, rp)
    close("sum of correlations", got, g1 + s * np.asarray(g2), rtol=0, atol=0.022 * size)
    # lengths in other units
    f = case["unit"]
    close("other units of length", quiet(pc, r * f, a(r), rlim * f, rp * f), f * np.asarray(g1), rtol=5e-4, atol=5e-4 * size + 1e-12 * np.max(size))


def fn_model(case, note, cls=None):
    from halomod.integrate_corr import ProjectedCF

    ProjectedCF = cls or ProjectedCF
    cfg = dict(case["cfg"])
    kw = M.kwargs(cfg)
    for k in ("rnum", "rmin", "rmax"):
        kw.pop(k, None)
    spec = dict(rp_min=case["rp_min"], rp_max=case["rp_min"] * 10 ** case["decades"], rp_num=case["num"], rp_log=case["log"],
                proj_limit=case["limit"])
    if case["array"]:
        spec["rp_min"] = np.round(np.sort(case["rps"]), 3)
        if case["array"] == "list":
            spec["rp_min"] = [int(v) for v in np.unique(np.ceil(spec["rp_min"]))]
        elif case["array"] == "unsorted":
            spec["rp_min"] = spec["rp_min"][np.random.RandomState(case["seed"]).permutation(len(spec["rp_min"]))]
        rp = np.array(spec["rp_min"], dtype=float)
    elif case["log"]:
        rp = np.geomspace(spec["rp_min"], spec["rp_max"], spec["rp_num"])
    else:
        rp = np.linspace(spec["rp_min"], spec["rp_max"], spec["rp_num"])
    if case["update"]:
        p = ProjectedCF(rnum=case["rnum"], **{**kw, "z": 0.1})
        quiet(lambda: p.projected_corr_gal)
        p.update(z=kw.get("z", 0.0), **spec)
        note("after an update")
    else:
        p = ProjectedCF(rnum=case["rnum"], **spec, **kw)
    close("projected separations", p.rp, rp, rtol=1e-10)
    rlim = case["limit"] or max(80.0, 5 * rp.max())
    close("line-of-sight limit", p.rlim, rlim, rtol=1e-12)
    r = finite("separations", p.r)
    close("range of separations", [r[0], r[-1], len(r)], [rp.min(), rlim, case["rnum"]], rtol=1e-9)
    den = float(p.mean_tracer_den)
    if not den > 1e-15:
        return note.trivial("hardly any tracers")
    ok = rp <= 0.7 * rlim
    if not np.any(ok):
        return note.trivial("separations beyond the limit")
    fine = np.geomspace(rp.min(), rlim, 600)
    x = finite("3D correlation", quiet(p.corr_auto_tracer_fnc, fine))
    sp = M.InterpolatedUnivariateSpline(np.log(fine), x * fine)
    want, size = project(lambda q: sp(np.log(q)) / q, rp[ok], rlim)
    got = shape("projected correlation", quiet(lambda: p.projected_corr_gal), rp.shape)[ok]
    # interpolation of the model's own table of separations
    tab = asnum("correlation on the separations", p.corr_auto_tracer)
    dev = np.max(np.abs(M.InterpolatedUnivariateSpline(r, tab)(fine[fine >= rp.min()]) - x)[None, :] / np.maximum(np.abs(x), 1e-4))
    if dev > 0.2:
        return note.trivial("correlation poorly resolved by the separations")
    err = project(lambda q: np.abs(M.InterpolatedUnivariateSpline(r, tab)(q) - sp(np.log(q)) / q), rp[ok], rlim)[0]
    finite("projected correlation", got)
    agree("projected correlation of the model", got, want, size, err, rp[ok], lambda q: sp(np.log(q)) / q)


def fn_refused(case, note):
    from halomod.integrate_corr import ProjectedCF

    p = ProjectedCF(**M.kwargs(dict(z=case["z"])))
    raises("negative number of separations", ValueError, lambda: p.update(rp_num=-case["n"]))
    raises("negative number of separations", ValueError, lambda: ProjectedCF(rp_num=-case["n"], rnum=30))
    ensure(len(p.rp) == 30, "number of separations after a refused update")


RP = lambda n=10: st.lists(fl(0, 1), min_size=1, max_size=n)
CLAUSES = [
    Clause("function", lambda: fx(grid=GRID(), xi=XI(), lim=st.one_of(st.just(1.0), fl(0.6, 1)), rp=RP(), seed=st.integers(0, 99)),
           fn_function, quick=1600, shards=4, rule="there are projected separations within the limit",
           what="projected_corr_gal against the line-of-sight integral of analytic correlations; single, unordered, integer separations"),
    Clause("linearity", lambda: fx(grid=GRID(), xi=XI(), xi2=XI(), lim=st.one_of(st.just(1.0), fl(0.6, 1)), rp=RP(), scale=fl(-2, 2), unit=fl(0.2, 5)),
           fn_linear, quick=800, shards=2, rule="there are projected separations within the limit",
           what="linearity in the correlation and change of units"),
    Clause("model", lambda: fx(cfg=M.tracer_cfg(hods()), rp_min=fl(0.03, 2), decades=fl(0.5, 1.6), num=st.integers(1, 12), log=st.booleans(),
                               limit=st.one_of(st.none(), st.none(), fl(30, 200)), array=st.sampled_from([None, None, "array", "list", "unsorted"]),
                               rps=st.lists(fl(0.1, 30), min_size=1, max_size=8, unique=True), rnum=st.integers(80, 150), seed=st.integers(0, 99),
                               update=st.booleans()),
           fn_model, quick=240, shards=8, rule="the model has tracers and its separations resolve the correlation",
           what="ProjectedCF against the line-of-sight integral of its own correlation; separations, limit"),
    Clause("refused", lambda: fx(z=fl(0, 1), n=st.integers(1, 50)), fn_refused, quick=5, shards=1, what="invalid numbers of separations"),
]
