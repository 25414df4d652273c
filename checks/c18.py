"""C18: extended splines and spline integration."""

import numpy as np
from hypothesis import strategies as st

from halomod import tools
from vlib.core import Clause, Violation
from vlib.util import close, ensure, finite, fl, fx, raises

ASSUMPTIONS = [
    "Splines are built on smooth positive, negative or sign-changing functions on 15 to 200 "
    "increasing points.",
]


def smooth(spec):
    """Smooth function: sum of power law and Gaussian bump in log x; optionally negated/crossing."""
    a, n, b, mu, w, sgn = (spec[k] for k in ("a", "n", "b", "mu", "w", "sgn"))

    def f(x):
        lx = np.log(x)
        y = a * np.exp(n * (lx - mu)) + b * np.exp(-0.5 * ((lx - mu) / w) ** 2)
        if sgn == "neg":
            return -y
        if sgn == "cross":
            return y - (a + b) * 0.9
        return y

    return f


spec_st = fx(a=fl(0.1, 5), n=fl(-2, 2), b=fl(0.0, 3), mu=fl(-1, 1), w=fl(0.8, 2),
             sgn=st.sampled_from(["pos", "neg", "cross"]))
grid_st = fx(lo=fl(-2, -0.5), hi=fl(0.5, 2), n=st.integers(30, 120), log=st.just(True))
EXT = ["power_law", "boundary", "none", "fn", "fn_match", "zero"]


def mkgrid(g):
    return np.logspace(g["lo"], g["hi"], g["n"])


def extfn_of(spec):
    return lambda x: spec["s"] * (spec["a"] + x ** spec["p"])


ext_st = lambda: fx(s=st.sampled_from([1.0, -1.0, 2.5, -0.3]), a=fl(0.1, 3), p=fl(0.2, 2))


def zero(x):
    return 0.0 * np.asarray(x, dtype=float)


def build(x, y, case):
    kw = {}
    for side in ("lower", "upper"):
        kind = case["lo" if side == "lower" else "hi"]
        if kind in ("fn", "fn_match"):
            kw[side + "_func"] = extfn_of(case["ext_" + side])
            if kind == "fn" or not case["implicit"]:
                kw["match_" + side] = kind == "fn_match"  # matched by default
        elif kind == "zero":
            kw[side + "_func"] = zero  # cannot be matched
        elif kind != "none":
            kw[side + "_func"] = kind
    if case["npl"] != 10:
        kw.update(lower_power_law_n=case["npl"], upper_power_law_n=case["npl"])
    if case["k"] != 3:
        kw["k"] = case["k"]
    return tools.ExtendedSpline(x, y, **kw)


def fn_extended(case, note):
    f = smooth(case["spec"])
    x = mkgrid(case["grid"])
    y = f(x)
    lo, hi = case["lo"], case["hi"]
    s = build(x, y, case)
    note(f"lo={lo}"), note(f"hi={hi}"), note(case["spec"]["sgn"])
    amp = np.max(np.abs(y))
    close("value at the data", s(x), y, rtol=1e-9, atol=1e-12 * amp)
    t = np.array(case["t"])
    xm = np.exp(np.log(x[0]) + t * (np.log(x[-1]) - np.log(x[0])))
    xm = np.clip(xm, x[0], x[-1])
    # interpolation error of a cubic on this grid is bounded through the local 4th difference;
    # compare with a finely resolved independent interpolant of the same data instead
    from scipy.interpolate import CubicSpline

    linear = case["k"] == 1
    want = np.interp(xm, x, y) if linear else CubicSpline(x, y, bc_type="not-a-knot")(xm)
    close("value between the data", s(xm), want, rtol=1e-7, atol=1e-9 * amp)
    d = 10 ** np.array(case["out"])
    xlo, xhi = x[0] / d, x[-1] * d

    def outside(side, xx, kind, edge, pts):
        got = finite(f"{side} extension", s(xx))
        extfn = extfn_of(case["ext_" + side])
        if kind == "boundary":
            close(f"{side} boundary extension", got, np.full(len(xx), y[edge]), rtol=1e-9, atol=1e-12 * amp)
        elif kind == "zero":
            close(f"{side} zero extension", got, np.zeros(len(xx)))
        elif kind == "fn":
            close(f"{side} function extension", got, extfn(xx), rtol=1e-12)
        elif kind == "fn_match":
            close(f"{side} matched function extension", got, extfn(xx) * y[edge] / extfn(x[edge]),
                  rtol=1e-9, atol=1e-12 * amp)
        elif kind == "none":
            e = edge if edge == 0 else -2
            line = y[e] + (xx[:1] - x[e]) * (y[e + 1] - y[e]) / (x[e + 1] - x[e])
            close(f"{side} spline extension", s(xx[:1]), line if linear else CubicSpline(x, y, bc_type="not-a-knot")(xx[:1]),
                  rtol=1e-6, atol=1e-7 * amp * float(np.max(d)) ** 3)
        elif kind == "power_law":
            yy = y[pts]
            if np.all(yy > 0) or np.all(yy < 0):
                # a power law through (or fitted to) the outermost points, with their sign
                ensure(np.all(np.sign(got) == np.sign(yy[0])), f"{side} power-law extension has the wrong sign")
                lx, ly = np.log(xx), np.log(np.abs(got))
                if len(xx) >= 3 and np.ptp(lx) > 1e-3:
                    p = np.polyfit(lx, ly, 1)
                    close(f"{side} extension is a power law", np.polyval(p, lx), ly, atol=1e-6)
                slopes = np.diff(np.log(np.abs(yy))) / np.diff(np.log(x[pts]))
                if np.ptp(lx) > 1e-3:
                    p = np.polyfit(lx, ly, 1)
                    ensure(slopes.min() - 1e-6 - 0.05 * np.ptp(slopes) <= p[0] <= slopes.max() + 1e-6 + 0.05 * np.ptp(slopes),
                           f"{side} power-law slope {p[0]} outside the slopes {slopes.min()}..{slopes.max()} of the outer data")
            else:
                close(f"{side} extension of sign-changing data", got, np.zeros(len(xx)))

    outside("lower", xlo, lo, 0, slice(0, case["npl"]))
    outside("upper", xhi, hi, -1, slice(-case["npl"], None))
    # scalar and array evaluation agree, in any order, and mixed arrays are piecewise the same
    allx = np.concatenate([xlo, xm, xhi])
    vec = s(allx)
    for i in case["pick"]:
        j = i % len(allx)
        close("scalar evaluation", float(np.ravel(s(float(allx[j])))[0]), vec[j], rtol=1e-10, atol=1e-13 * amp)
    close("order of coordinates", s(allx[::-1])[::-1], vec, rtol=1e-12)


def fn_exact_powerlaw(case, note):
    """Data that is a power law is continued exactly, whatever its sign."""
    A, n = case["A"] * (-1 if case["neg"] else 1), case["n"]
    x = mkgrid(case["grid"])
    s = tools.ExtendedSpline(x, A * x**n, lower_func="power_law", upper_func="power_law")
    d = 10 ** np.array(case["out"])
    xx = np.concatenate([x[0] / d, x[-1] * d])
    close("power-law continuation", s(xx), A * xx**n, rtol=1e-6)
    ints = np.arange(1, 6) if not case["neg"] else np.array([1, 2, 100, 5000])
    close("integer coordinates", s(ints), A * ints.astype(float) ** n, rtol=5e-3)
    close("list coordinates", s(list(ints)), A * ints.astype(float) ** n, rtol=5e-3)
    note("negative" if case["neg"] else "positive")


def fn_scatter(case, note):
    """A single power law continues scattered data too, passing between the outer points."""
    x = mkgrid(case["grid"])
    rng = np.random.default_rng(case["seed"])
    ly = case["n"] * np.log(x) + case["scatter"] * rng.normal(size=len(x))
    sg = -1 if case["neg"] else 1
    s = tools.ExtendedSpline(x, sg * np.exp(ly), lower_func="power_law", upper_func="power_law")
    d = 10.0 ** np.linspace(0.01, case["far"], 6)
    for xx, pts in ((x[0] / d, slice(0, 10)), (x[-1] * d, slice(-10, None))):
        got = sg * finite("extension", s(xx))
        ensure(np.all(got > 0), "wrong sign of the extension")
        p = np.polyfit(np.log(xx), np.log(got), 1)
        close("extension of scattered data is one power law", np.polyval(p, np.log(xx)), np.log(got), rtol=1e-6, atol=1e-5)
        at = np.polyval(p, np.log(x[pts]))
        res = ly[pts] - at
        ensure(res.min() <= 1e-6 and res.max() >= -1e-6, f"extension does not pass between the outer points: residuals {res.tolist()}")
        lim = 12 * case["scatter"] / np.ptp(np.log(x[pts]))
        ensure(abs(p[0] - case["n"]) <= lim + 1e-6, f"slope {p[0]} far from that of the outer points {case['n']} (scatter allows {lim})")
    note("strong" if case["scatter"] > 1 else "weak")


def fn_domain(case, note):
    x = mkgrid(case["grid"])
    y = 1 + x
    lo = x[0] * (1 + case["eps"]) if case["side"] == "low" else 0
    hi = x[-1] * (1 - case["eps"]) if case["side"] == "high" else np.inf
    if case["side"] == "ok":
        s = tools.ExtendedSpline(x, y, domain=(x[0], x[-1]))
        close("data", s(x), y, rtol=1e-9)
    else:
        raises("data outside the domain", ValueError, lambda: tools.ExtendedSpline(x, y, domain=(lo, hi)))
    raises("unknown extension", ValueError,
           lambda: tools.ExtendedSpline(x, y, **{case["which"]: case["word"]}))
    note(case["side"])


# ---- integrals -------------------------------------------------------------------------
def antideriv(spec):
    kind = spec["kind"]
    a, n = spec["a"], spec["n"]
    if kind == "power":
        return (lambda x: a * x**n), (lambda x: a * x ** (n + 1) / (n + 1))
    if kind == "exp":
        return (lambda x: a * np.exp(-x / 3)), (lambda x: -3 * a * np.exp(-x / 3))
    if kind == "schechter":
        from scipy.special import gammainc, gamma

        al = n + 4.0
        return (lambda x: a * x ** (al - 1) * np.exp(-x)), (lambda x: a * gamma(al) * gammainc(al, x))
    raise KeyError(kind)


def fn_integral(case, note):
    f, F = antideriv(case["spec"])
    lo, hi, n = case["lo"], case["hi"], case["n"]
    if case["log"]:
        x = np.logspace(lo, hi, n)
    else:
        x = np.linspace(10**lo, 10**hi, n)
    a, b = sorted(case["ab"])

    def pos(t):
        return float(x[0] + t * (x[-1] - x[0])) if not case["log"] else float(np.exp(
            np.log(x[0]) + t * (np.log(x[-1]) - np.log(x[0]))))

    xa = pos(a) if case["use_a"] else None
    xb = pos(b) if case["use_b"] else None
    note(f"log={case['log']}"), note(f"bounds={case['use_a']},{case['use_b']}")
    A, B = (xa if xa is not None else x[0]), (xb if xb is not None else x[-1])
    kw = {}
    if xa is not None:
        kw["xmin"] = xa
    if xb is not None:
        kw["xmax"] = xb
    if not case["log"] and case["spec"]["kind"] == "power":
        # keep the integrand resolved on a linear grid
        x = np.linspace(10**lo + 1.0, 10**hi + 1.0, n)
        A, B = (pos(a) if xa is not None else x[0]), (pos(b) if xb is not None else x[-1])
        kw = {**({"xmin": A} if xa is not None else {}), **({"xmax": B} if xb is not None else {})}
    got = tools.spline_integral(x, f(x), log=case["log"], **kw)
    whole = abs(F(x[-1]) - F(x[0]))
    close("integral", got, F(B) - F(A), rtol=1e-3, atol=5e-4 * whole)
    # additivity in the bounds
    m = pos(case["mid"])
    s = tools.spline_integral(x, f(x), xmax=m, log=case["log"]) + tools.spline_integral(
        x, f(x), xmin=m, log=case["log"])
    close("additivity", s, tools.spline_integral(x, f(x), log=case["log"]), rtol=1e-9, atol=1e-9 * whole)
    if case["spec"]["kind"] == "exp" and not case["log"]:
        # a lower bound of zero is a bound like any other
        x0 = np.linspace(0, 10**hi, 4 * n)
        close("zero lower bound", tools.spline_integral(x0, f(x0), xmin=0.0, log=False), F(x0[-1]) - F(0.0), rtol=1e-4)
        xn = np.linspace(-5, 5, 4 * n)
        close("zero upper bound", tools.spline_integral(xn, f(xn), xmax=0.0, log=False), F(0.0) - F(-5.0), rtol=1e-4)
        close("zero lower bound inside", tools.spline_integral(xn, f(xn), xmin=0, log=False), F(5.0) - F(0.0), rtol=1e-4)
        note("zero bounds")


ab = st.lists(fl(0.0, 1.0), min_size=2, max_size=2)
CLAUSES = [
    Clause("extended", lambda: fx(spec=spec_st, grid=grid_st, lo=st.sampled_from(EXT), hi=st.sampled_from(EXT), ext_lower=ext_st(), ext_upper=ext_st(), implicit=st.booleans(),
                                  npl=st.sampled_from([10, 10, 4, 7, 20]), k=st.sampled_from([3, 3, 3, 1]),
                                  t=st.lists(fl(0, 1), min_size=1, max_size=6),
                                  out=st.lists(fl(0.01, 2), min_size=3, max_size=5, unique=True),
                                  pick=st.lists(st.integers(0, 30), min_size=1, max_size=3)),
           fn_extended, quick=2500, shards=4,
           rule="random smooth data, extension kinds on both sides, coordinates inside and outside",
           what="interpolation inside, the requested extension outside, scalar/array agreement"),
    Clause("powerlaw", lambda: fx(A=fl(0.01, 100), n=fl(-3, 3), neg=st.booleans(),
                                  grid=fx(lo=fl(-2, -0.5), hi=fl(0.5, 2), n=st.integers(120, 250), log=st.just(True)),
                                  out=st.lists(fl(0.01, 2), min_size=1, max_size=4)),
           fn_exact_powerlaw, quick=1000, shards=2, rule="random power laws of either sign",
           what="power-law data is continued exactly"),
    Clause("scatter", lambda: fx(n=fl(-3, 2), neg=st.booleans(), scatter=fl(0.01, 4), seed=st.integers(0, 10**6), far=fl(0.2, 3), grid=grid_st),
           fn_scatter, quick=600, shards=1, rule="power laws with random scatter", what="scattered data is continued by a single power law between the outer points"),
    Clause("domain", lambda: fx(grid=grid_st, eps=fl(0.001, 0.4), side=st.sampled_from(["low", "high", "ok"]),
                                which=st.sampled_from(["lower_func", "upper_func"]),
                                word=st.sampled_from(["powerlaw", "bound", "", "linear"])),
           fn_domain, quick=300, rule="domains inside/outside the data; unknown names",
           what="data outside the domain and unknown extensions are rejected"),
    Clause("integral", lambda: fx(spec=fx(kind=st.sampled_from(["power", "exp", "schechter"]), a=fl(0.1, 10),
                                          n=fl(-1.5, 2).filter(lambda n: abs(n + 1) > 0.05)),
                                  lo=fl(-1.5, -0.5), hi=fl(0.2, 1), n=st.integers(60, 300), log=st.booleans(),
                                  ab=ab, use_a=st.booleans(), use_b=st.booleans(), mid=fl(0.02, 0.98)),
           fn_integral, quick=2500, shards=3, rule="analytic integrands, random bounds, linear/log",
           what="spline integrals equal analytic integrals between the given bounds, additive"),
]
