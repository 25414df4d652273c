"""C17: the Fourier/Hankel transform utilities against analytic transform pairs."""

import numpy as np
from hypothesis import strategies as st

from halomod import tools
from vlib.core import Clause
from vlib.util import close, finite, fl, fx

ASSUMPTIONS = [
    "Scales are drawn where Ogata quadrature is documented to converge: the transform variable "
    "times the scale of the function lies between 0.2 and 8.",
    "Amplitudes are at least 1e-2: the quadrature's stopping rule is absolute.",
]


# (P(k), xi(r)) pairs with scale s and amplitude A
def gauss(A, s):
    return (
        lambda k: A * np.exp(-(k**2) * s**2 / 2),
        lambda r: A / ((2 * np.pi) ** 1.5 * s**3) * np.exp(-(r**2) / (2 * s**2)),
    )


def yukawa(A, s):
    return (
        lambda k: A / (k**2 + 1 / s**2),
        lambda r: A * np.exp(-r / s) / (4 * np.pi * r),
    )


def expo(A, s):
    # xi = A exp(-r/s)
    return (
        lambda k: A * 8 * np.pi / s / (k**2 + 1 / s**2) ** 2,
        lambda r: A * np.exp(-r / s),
    )


PAIRS = {"gauss": gauss, "yukawa": yukawa, "expo": expo}


def mixture(comps):
    fs = [PAIRS[c["kind"]](c["A"], c["s"]) for c in comps]
    return (
        lambda k: np.sum([f[0](k) for f in fs], axis=0),
        lambda r: np.sum([f[1](r) for f in fs], axis=0),
    )


def comp(s0):
    return fx(kind=st.sampled_from(sorted(PAIRS)), A=fl(0.01, 100), s=fl(s0 / 2, s0 * 2))


def mix_case(**kw):
    return fl(-1.5, 1.5).flatmap(
        lambda ls: fx(
            ls=st.just(ls),
            comps=st.lists(comp(10**ls), min_size=1, max_size=3),
            xs=st.lists(fl(0.5, 3.0), min_size=1, max_size=6, unique=True),
            **kw,
        )
    )


def scale_of(comps, fn, at):
    """A magnitude for absolute tolerances: the value around the typical scale."""
    return np.max(np.abs(fn(np.asarray(at))))


def fn_hankel(case, note):
    P, xi = mixture(case["comps"])
    s = 10 ** case["ls"]
    xs = np.array(case["xs"])
    note(f"dir={case['dir']}")
    note(f"n={len(case['comps'])}")
    if case["dir"] == "r":
        var = xs * s
        if case["listed"]:
            note("one function per scale")
            amp = 1.0 + np.arange(len(var))
            f = [lambda k, a=a: a * P(k) for a in amp]
            want = amp * xi(var)
        else:
            f, want = P, xi(var)
        got = tools.hankel_transform(f, var, "r", h=case["h"])
    else:
        var = xs / s
        if case["listed"]:
            note("one function per scale")
            amp = 1.0 + np.arange(len(var))
            f = [lambda r, a=a: a * xi(r) for a in amp]
            want = amp * P(var)
        else:
            f, want = xi, P(var)
        got = tools.hankel_transform(f, var, "k", h=case["h"])
    finite("transform", got)
    sc = np.max(np.abs(want))
    close("hankel transform", got, want, rtol=6e-3, atol=2e-3 * sc)


def fn_hankel_algebra(case, note):
    """Linearity, and the scaling f(k s) -> xi(r/s)/s^3, without any reference values."""
    P, _ = mixture(case["comps"])
    s = 10 ** case["ls"]
    var = np.array(case["xs"]) * (s if case["dir"] == "r" else 1 / s)
    a, q = case["a"], case["q"]
    if case["dir"] == "k":
        _, P = mixture(case["comps"])
    base = tools.hankel_transform(P, var, case["dir"])
    sc = np.max(np.abs(base))
    close("homogeneity", tools.hankel_transform(lambda k: a * P(k), var, case["dir"]), a * base,
          rtol=1e-4, atol=1e-4 * abs(a) * sc)
    close("dilation", tools.hankel_transform(lambda k: P(k * q), var * q, case["dir"]), base / q**3,
          rtol=1e-4, atol=1e-4 * sc / q**3)
    one = tools.hankel_transform(P, var[:1], case["dir"])
    close("each scale independent of the others", one, base[:1], rtol=1e-12)
    note(case["dir"])


def fn_table(case, note):
    """Tabulated transforms with extrapolation beyond the table."""
    s = 10 ** case["ls"]
    xs = np.array(case["xs"])
    P, xi = mixture(case["comps"])
    grid = np.logspace(-4.5, case["top"], case["n"])
    n2d = case["two_d"]
    if case["dir"] == "r":
        var = xs * s
        tab, want = P(grid / s), xi(var)
        if n2d:
            amp = 1.0 + np.arange(len(var))
            tab, want = np.outer(amp, tab), want * amp
            note("2D table")
        got = tools.power_to_corr_ogata(tab, grid / s, var)
    else:
        var = xs / s
        tab, want = xi(grid * s), P(var)
        if np.any(~(tab > 0)):
            # underflow of an exponentially small tail
            tab = np.maximum(tab, 1e-300)
        got = tools.corr_to_power_ogata(tab, grid * s, var)
    finite("transform", got)
    close("tabulated transform", got, want, rtol=6e-3, atol=2e-3 * np.max(np.abs(want)))
    note(case["dir"])


def fn_rows(case, note):
    """A different function for every separation, some vanishing or negative at the ends of the table."""
    s0 = 10 ** case["ls"]
    k = np.logspace(-4, 1.6, case["n"]) / s0
    rows, r, want = [], [], []
    for c in case["rows"]:
        P, xi = gauss(c["A"], c["s"] * s0)
        p = np.maximum(P(k), 0.0)
        if c["low"] != "as is":
            p[k * s0 < 2e-3] *= 0 if c["low"] == "zero" else -1
        if c["high"] == "zero":
            p[k * s0 * c["s"] > 9] = 0
        elif c["high"] == "negative":
            p[k * s0 * c["s"] > 9] *= -1
        else:
            p = np.maximum(p, 1e-280)
        note(f"low: {c['low']}")
        note(f"high: {c['high']}")
        rows.append(p)
        r.append(c["x"] * c["s"] * s0)
        want.append(xi(r[-1]))
    got = tools.power_to_corr_ogata(np.array(rows), k, np.array(r))
    finite("transform", got)
    tol = 1e-2 * np.array([gauss(c["A"], c["s"] * s0)[1](c["s"] * s0) for c in case["rows"]])
    for g, w, t in zip(got, want, tol):
        close("transform of a row", g, w, rtol=6e-3, atol=t)


def fn_simple(case, note):
    """The Simpson-rule transform of a function of log k."""
    comps = [dict(c, kind="gauss") if case["only_gauss"] else c for c in case["comps"]]
    P, xi = mixture(comps)
    s = 10 ** case["ls"]
    var = np.clip(np.array(case["xs"]) * s, 1e-2, 40)
    if case["integer"]:
        var = np.unique(np.maximum(np.round(var), 1)).astype(int)
        note("integer separations")
    r = list(var) if case["as_list"] else var
    got = tools.power_to_corr(lambda lk: P(np.exp(lk)), r)
    want = xi(var.astype(float))
    close("power_to_corr", got, want, rtol=2e-3, atol=2e-4 * float(np.max(np.abs(xi(np.array([s]))))))
    g1 = tools.power_to_corr(lambda lk: P(np.exp(lk)), var[0].item())
    close("scalar separation", np.ravel(g1), np.ravel(got)[:1], rtol=1e-9)


def fn_powerlaw(case, note):
    from scipy.special import gamma

    n = case["n"]
    r = np.array(case["r"])
    c = gamma(n + 2) * np.sin(np.pi * (n + 2) / 2) / (2 * np.pi**2)
    want = case["A"] * c * r ** (-n - 3)
    P = lambda k: case["A"] * k**n  # noqa: E731
    close("power-law by function", tools.hankel_transform(P, r, "r"), want, rtol=3e-3)
    k = np.logspace(-5, 5, 300)
    close("power-law by table", tools.power_to_corr_ogata(P(k), k, r), want, rtol=3e-3)
    k = np.logspace(-2, 2, 200)
    close("extrapolated power-law", tools.power_to_corr_ogata(P(k), k, r), want, rtol=3e-3)


def fn_tails(case, note):
    """Beyond a table: its last two points are followed, linearly in ln k where it is not known to be positive."""
    d = 0.05
    lo, hi = -case["below"], case["above"]
    n = int(round((hi - lo) / d)) + 1
    extra = int(round(6 / d))
    L = lo + d * np.arange(n)
    LL = lo + d * np.arange(-extra, n + extra)
    r = np.array(case["r"])
    back = case["back"]
    T = (lambda p, x, **kw: tools.corr_to_power_ogata(p, x, r, **kw)) if back else (lambda p, x, **kw: tools.power_to_corr_ogata(p, x, r, **kw))
    line = lambda x, q: (q["a"] + q["b"] * x) * 10.0 ** case["e"]  # noqa: E731
    no = dict(power_pos=(False, False))
    rows = [case["lines"][i % len(case["lines"])] for i in range(len(r))]
    singles = []
    for i, q in enumerate(rows):
        got = finite("transform", T(line(L, q), np.exp(L), **no))
        want = T(line(LL, q), np.exp(LL), **no)
        sc = 10.0 ** case["e"] * (abs(q["a"]) + abs(q["b"])) / r**3
        close("linear tails of a table", got, want, rtol=1e-6, atol=1e-7 * sc)
        singles.append(got[i])
        ends = [bool(np.all(v > 0)) for v in (line(L[:2], q), line(L[-2:], q))]
        close("ends found to be positive or not", T(line(L, q), np.exp(L), power_pos=(True, True)), T(line(L, q), np.exp(L), power_pos=tuple(ends)), rtol=1e-12)
        for flags in ((True, False), (False, True)):
            close(f"ends found to be positive or not, of those said to be ({flags})", T(line(L, q), np.exp(L), power_pos=flags),
                  T(line(L, q), np.exp(L), power_pos=(flags[0] and ends[0], flags[1] and ends[1])), rtol=1e-12)
        close("default continuation", T(line(L, q), np.exp(L)), T(line(L, q), np.exp(L), power_pos=(ends[0], ends[1] and not back)), rtol=1e-12)
        note(f"positive ends {ends}")
        # positive ends continue as a power law
        pl = 10.0 ** (case["e"]) * np.exp(case["slope"] * L)
        bend = np.where(LL < lo, np.exp(case["slope"] * (LL - lo)) * pl[0], np.exp(case["slope"] * LL) * 10.0 ** case["e"])
        if i == 0:
            close("power-law tails of a table", T(pl, np.exp(L), power_pos=(True, True)), T(bend, np.exp(LL), power_pos=(True, True)), rtol=2e-3)
    if len(r) > 1:
        close("rows with linear tails", T(np.array([line(L, q) for q in rows]), np.exp(L), **no), np.array(singles), rtol=1e-9, atol=1e-9 * 10.0 ** case["e"] / r**3)


def fn_window(case, note):
    k = np.array(case["k"])
    r = case["r"]
    x = k * r
    got = tools.exclusion_window(k, r)
    # W = 3/(4 pi) int_{|y|<1} e^{i x.y}: integrate the definition
    y, w = np.polynomial.legendre.leggauss(120)
    y, w = (y + 1) / 2, w / 2
    want = 3 * np.sum(w * y**2 * np.sinc(np.outer(x, y) / np.pi), axis=1)
    close("top-hat window", got, want, rtol=1e-5, atol=2e-6)


CLAUSES = [
    Clause("hankel", lambda: mix_case(dir=st.sampled_from("kr"), h=st.sampled_from([0.005, 0.002, 1e-3]),
                                      listed=st.booleans()), fn_hankel, quick=400, shards=4,
           rule="mixtures of 1-3 analytic pairs (Gaussian, Yukawa, exponential); all non-trivial",
           what="transform of a callable equals the analytic transform in both directions"),
    Clause("algebra", lambda: mix_case(dir=st.sampled_from("kr"), a=fl(0.1, 50), q=fl(0.05, 20)),
           fn_hankel_algebra, quick=200, shards=2, rule="random mixtures, factors and dilations",
           what="linearity, dilation and independence of scales"),
    Clause("table", lambda: mix_case(dir=st.sampled_from("kr"), top=fl(2.5, 5), n=st.integers(250, 500),
                                     two_d=st.booleans()), fn_table, quick=200, shards=2,
           rule="mixtures tabulated on random grids, 1D or 2D",
           what="tabulated transforms equal the analytic ones"),
    Clause("rows", lambda: fx(ls=fl(-1.5, 1.5), n=st.integers(250, 400), rows=st.lists(fx(
               A=fl(0.01, 100), s=fl(0.6, 1.6), x=fl(0.5, 2.5), low=st.sampled_from(["as is", "zero", "negative"]),
               high=st.sampled_from(["as is", "zero", "negative"])), min_size=1, max_size=5)),
           fn_rows, quick=200, shards=2, rule="tables of 1-5 different rows whose ends vanish, are negative or positive",
           what="separation-dependent power is transformed row by row"),
    Clause("simple", lambda: mix_case(only_gauss=st.booleans(), integer=st.booleans(), as_list=st.booleans()),
           fn_simple, quick=120, shards=2, rule="mixtures; arrays, lists, integers and scalars",
           what="Simpson-rule transform equals the analytic one"),
    Clause("powerlaw", lambda: fx(n=fl(-1.85, -1.15), A=fl(0.1, 10),
                                  r=st.lists(fl(0.1, 30), min_size=1, max_size=5)),
           fn_powerlaw, quick=120, shards=1, rule="random power-law indices",
           what="power laws, including extrapolation from truncated tables"),
    Clause("tails", lambda: fx(below=fl(3, 6), above=fl(3, 6), r=st.lists(fl(0.3, 3), min_size=1, max_size=4), back=st.booleans(), e=fl(-6, 6), slope=fl(-1.8, -1.2),
                               lines=st.lists(fx(a=st.integers(-80, 80).map(lambda i: i / 16), b=st.integers(-16, 16).map(lambda i: i / 16)), min_size=1, max_size=3)),
           fn_tails, quick=300, shards=2, rule="straight lines in ln k of any sign, for one or several separations",
           what="tables are continued beyond their ends as their options say"),
    Clause("window", lambda: fx(r=fl(0.05, 20), k=st.lists(fl(0.05, 5), min_size=1, max_size=8)),
           fn_window, quick=400, shards=1, rule="random window sizes",
           what="top-hat window equals its defining integral"),
]
