"""C11: halo exclusion."""

import warnings

import numpy as np
from hypothesis import strategies as st

from vlib import models as M
from vlib.core import Clause, Violation
from vlib.util import close, ensure, finite, fl, fx, shape
from vlib.formulas import gl

ASSUMPTIONS = [
    "The double integrals are compared with the continuous ones within the error a mass grid makes at the edge of the "
    "allowed region: the value must lie between the integrals with the region shrunk and grown by 1.6 grid cells.",
    "Mass grids of 60 to 240 points with logarithmic steps below 0.2; integrands are smooth in mass.",
    "Probability of pairs of ellipsoidal halos: 3y^2-2y^3 with y=(x-0.8)/0.29, as documented.",
]
MODELS = ["NoExclusion", "Sphere", "DblSphere", "DblSphere_", "DblEllipsoid", "DblEllipsoid_", "NgMatched", "NgMatched_"]
CELLS = 1.6


def kind(name):
    return name.rstrip("_")


class Pairs:
    """Integrals over pairs of halos of log-mass l with weights f(l) (per log-mass), above ``lo``."""

    def __init__(self, lo, hi, rho, n=6000):
        self.l = np.linspace(lo, hi, n)
        self.rho = rho
        self.rh = (3 * np.exp(self.l) / (4 * np.pi * rho)) ** (1 / 3)

    def cum(self, f):
        d = np.diff(self.l)
        return np.concatenate([[0], np.cumsum(d * (f[1:] + f[:-1]) / 2)])

    def below(self, f, lmax):
        return np.interp(lmax, self.l, self.cum(f))

    def logm(self, r):
        return np.log(4 * np.pi / 3 * self.rho * np.maximum(r, 1e-300) ** 3)

    def single(self, f, r, shift):
        """Sphere: both halos smaller than half the separation."""
        return self.below(f, self.logm(r / 2) + shift) ** 2

    def double(self, f, r, shift):
        """Two spheres: sum of radii below the separation."""
        c = self.cum(f)
        return np.trapezoid(f * np.interp(self.logm(r * np.exp(shift / 3) - self.rh), self.l, c), self.l)

    def ellipsoid(self, f, r, step=20):
        l = self.l[::step]
        g = f[::step]
        rh = self.rh[::step]
        y = np.clip((r / (rh[:, None] + rh[None, :]) - 0.8) / 0.29, 0, 1)
        p = 3 * y**2 - 2 * y**3
        w = np.gradient(l)
        w[[0, -1]] = (l[1] - l[0]) / 2
        return (g * w) @ p @ (g * w)

    def total(self, f):
        return np.trapezoid(f, self.l) ** 2

    def pair(self, name, f, r, shift=0.0):
        """Integral of f(l1)f(l2) over the allowed pairs (not for NgMatched)."""
        k = kind(name)
        if k == "NoExclusion":
            return self.total(f)
        if k == "Sphere":
            return self.single(f, r, shift)
        if k == "DblSphere":
            return self.double(f, r, shift)
        return self.ellipsoid(f, r)


def matched(P, dens, f, dmod, dl, eps):
    """NgMatched: bounds on the single integral squared, up to the mass where the cumulative density reaches dmod."""
    c = P.cum(dens)
    out = []
    for s in (-1, 1):
        lim = 1.0001 * dmod + s * eps
        l = P.l[-1] if c[-1] <= lim else np.interp(lim, c, P.l)
        out.append(P.below(f, l + s * CELLS * dl) ** 2)
    return out


def make(case):
    m = np.geomspace(10.0 ** case["m0"], 10.0 ** case["m1"], case["nm"])
    rho = case["rho"]
    lm = np.log(m)
    a, mstar, b = case["slope"], 10.0 ** case["mstar"], case["cut"]
    raw = lambda l: np.exp(-a * (l - np.log(mstar)) - np.exp(b * (l - np.log(mstar))))  # dn/dlnm-like
    xmin = None
    if case["xmin"] is not None:
        xmin = 10.0 ** (case["m0"] + case["xmin"] * (case["mstar"] - case["m0"]))
    lo = lm[0] if xmin is None else max(np.log(xmin), lm[0])
    P = Pairs(lo, lm[-1], rho)
    norm = np.trapezoid(raw(P.l), P.l)
    dens = lambda l: raw(l) / norm
    rad = lambda l: (3 * np.exp(l) / (4 * np.pi * rho)) ** (1 / 3)
    k = np.array(case["k"])
    u = lambda kk, l: 1 / (1 + (kk * rad(l)) ** 2)
    bias = lambda l: 0.6 + 0.4 * np.exp(case["bs"] * (l - np.log(mstar)))
    r = 2 * rad(np.log(mstar)) * 10.0 ** np.array(case["lr"])
    sd = lambda rr: np.sqrt(1 + case["sd"] / (1 + rr)) if case["sd"] is not None else 1.0 + 0 * rr
    args = dict(
        m=m, density=dens(lm) / m, power_integrand=dens(lm) / m * u(k[:, None], lm[None, :]),
        bias=bias(lm) if case["sd"] is None else np.outer(sd(r), bias(lm)), r=r, halo_density=rho,
    )
    if xmin is not None:
        args["xmin"] = xmin
    return args, P, dens, u, bias, sd, k, r, lm


def build(name, args):
    import halomod.halo_exclusion as X

    return getattr(X, name)(**{a: (np.array(v) if isinstance(v, np.ndarray) else v) for a, v in args.items()})


def fn_pairs(case, note):
    name = case["model"]
    args, P, dens, u, bias, sd, k, r, lm = make(case)
    dl = lm[1] - lm[0]
    if dl > 0.2:
        return note.trivial("grid too coarse")
    keep = {a: np.array(v) for a, v in args.items()}
    x = build(name, args)
    got = np.asarray(finite("integral", x.integrate()))
    dmod = np.asarray(finite("modified density", x.density_mod), dtype=float) * np.ones(len(r))
    if name == "NoExclusion" and case["sd"] is None:
        ensure(got.shape in ((1, len(k)), (len(r), len(k))), f"shape {got.shape}")
        got = np.broadcast_to(got, (len(r), len(k)))
    shape("integral", got, (len(r), len(k)))
    for a in keep:
        ensure(np.array_equal(keep[a], args[a]), f"argument {a} changed")
    close("repeated integral", np.broadcast_to(x.integrate(), got.shape), got, rtol=1e-12)
    close("halo radius", x.r_halo, (3 * np.exp(lm) / (4 * np.pi * args["halo_density"])) ** (1 / 3), rtol=1e-9)

    dP = dens(P.l)
    # quadrature error of smooth integrands (the lower limit between grid points uses a spline)
    q = 2e-3 + 0.35 * dl**2
    # a spline rings for a few cells at the edge of the allowed region
    ring = 0.15 * dl if case["xmin"] is not None and name != "NoExclusion" else 0.0
    partial = False
    for i, rr in enumerate(r):
        if name == "NoExclusion":
            ensure(dmod[i] == 1, f"modified density {dmod[i]} without exclusion")
            band = None
        elif kind(name) in ("Sphere",):
            band = [np.sqrt(P.single(dP, rr, s * CELLS * dl)) for s in (-1, 1)]
        else:
            nm = "DblEllipsoid" if kind(name) != "DblSphere" else "DblSphere"
            band = [np.sqrt(max(P.pair(nm, dP, rr, s * CELLS * dl), 0)) for s in (-1, 1)]
        if band is not None:
            slack = q + 0.15 * (band[1] - band[0]) + ring * np.max(dP)
            if not max(band[0] - slack, 0) <= dmod[i] <= band[1] + slack:
                raise Violation(f"{name}: modified density at r={rr!r} is {dmod[i]!r}, expected {band[0]!r} to {band[1]!r}")
            partial |= 0.02 < dmod[i] < 0.98
        for j, kk in enumerate(k):
            f = dP * u(kk, P.l) * bias(P.l) * sd(rr)
            tot = P.total(f)
            if kind(name) == "NgMatched":
                eps = 3e-3 + 0.1 * dl**2 + (dP[0] * dl if case["xmin"] is not None else 0)
                lo, hi = matched(P, dP, f, dmod[i], dl, eps)
            else:
                lo, hi = (P.pair(name, f, rr, s * CELLS * dl) for s in (-1, 1))
            slack = q * tot + 0.15 * (hi - lo) + 2 * ring * np.max(f) * np.sqrt(tot)
            if not lo - slack <= got[i, j] <= hi + slack:
                raise Violation(f"{name}: integral at r={rr!r}, k={kk!r} is {got[i, j]!r}, expected {lo!r} to {hi!r} (without exclusion {tot!r})")
    # the same, each separation and wavenumber alone
    i, j = case["pick"] % len(r), case["pick"] % len(k)
    one = dict(args, r=r[i : i + 1], power_integrand=args["power_integrand"][j : j + 1])
    if case["sd"] is not None:
        one["bias"] = args["bias"][i : i + 1]
    y = build(name, one)
    close("a single separation and wavenumber", np.ravel(y.integrate())[0], got[i, j], rtol=1e-9, atol=1e-12)
    close("modified density of a single separation", np.ravel(y.density_mod)[0], dmod[i], rtol=1e-9)
    o = np.argsort(r)
    if kind(name) != "NoExclusion" and kind(name) != "NgMatched" and case["sd"] is None:
        ensure(np.all(np.diff(got[o], axis=0) >= -(q + 0.03) * P.total(dP * bias(P.l))), f"{name}: integral decreases with separation: {got[o].tolist()}")
    note(name)
    if not partial and name != "NoExclusion":
        note.trivial("all or nothing excluded")
    if case["xmin"] is not None:
        note("lower mass limit")
    if case["sd"] is not None:
        note("scale-dependent bias")
    if case["nm"] % 2:
        note("odd grid")


def comp_case(names):
    return fx(
        model=st.sampled_from(names), m0=fl(9, 11), m1=fl(14, 16), nm=st.integers(90, 180), rho=st.sampled_from([1.7e13, 6e13, 8e12, 1e14]),
        slope=fl(0.05, 1.0), mstar=fl(12, 14), cut=fl(0.6, 1.0), xmin=st.one_of(st.none(), fl(0.05, 1.05)), k=st.lists(fl(0.01, 5), min_size=1, max_size=3),
        bs=fl(0.1, 0.45), lr=st.lists(st.floats(-0.9, 0.8).map(lambda v: round(v, 4)), min_size=1, max_size=5, unique=True), sd=st.one_of(st.none(), st.none(), fl(-0.5, 1.0)), pick=st.integers(0, 20),
    )


def fn_same(case, note):
    """Compiled and interpreted versions agree."""
    args, P, dens, u, bias, sd, k, r, lm = make(case)
    dl = lm[1] - lm[0]
    if dl > 0.2:
        return note.trivial("grid too coarse")
    a, b = build(case["model"], args), build(case["model"] + "_", args)
    A, B = a.integrate(), b.integrate()
    scale = np.max(np.abs([np.trapezoid(args["power_integrand"] * np.exp(lm) * np.atleast_2d(args["bias"])[-1], lm, axis=-1) ** 2 for _ in [0]]))
    edge = 0.0
    if case["model"] == "DblSphere":
        # different quadrature rules at the edge of the allowed region
        edge = max(abs(P.pair("DblSphere", dens(P.l) * bias(P.l) * np.max(sd(r)), rr, dl) - P.pair("DblSphere", dens(P.l) * bias(P.l) * np.max(sd(r)), rr, -dl)) for rr in r)
    close("compiled and interpreted integral", B, A, rtol=2e-3 + 0.3 * dl**2, atol=1e-12 + edge + 2e-3 * scale)
    close("compiled and interpreted density", b.density_mod, a.density_mod, rtol=2e-3 + 0.3 * dl**2, atol=1e-3 + (0.1 * dl**2))
    note(case["model"])
    if not np.any((A > 0.02 * np.max(A)) & (A < 0.95 * np.max(A))):
        note.trivial("no partial exclusion")


# ------------------------------------------------------------------------------------ in the model
def model_integrals(r, name, h, tracer, R):
    """(I(k) at the model's wavenumbers between bounds, modified density) at separation R."""
    lo = np.log(r.mmin) if tracer and h.tracer_mmin is not None else np.log(h.m[0])
    P = Pairs(max(lo, np.log(h.m[0])) + 1e-9, np.log(h.m[-1]), r.delta * r.rho0, n=2401)
    x = np.exp(P.l)
    if tracer:
        w = r.n(x) * x * r.tot(x)
        w = w / r.density()[0]
    else:
        w = r.n(x) * x**2 / h.mean_density_in_halos
    return P, w, r.b(x), x


def fn_model(case, note):
    cfg, name, tr = case["cfg"], case["model"], case["tracer"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = M.tracer_ref(cfg, note, exclusion_model=name, rmin=0.05, rmax=100.0, rnum=12, dr_table=0.15, force_unity_dm_bias=case["unity"])
        if got is None:
            return
        h, r = got
        if r.density()[1] > 0.01 * r.density()[0]:
            return note.trivial("discontinuous occupation")
        dl = r.dl
        R = np.asarray(h._r_table)  # a step in separation is not resolved between the points of this table
        R = R[np.unique(np.searchsorted(R[:-1], 10.0 ** np.array(case["lr"])))]
        fnc = (h.corr_2h_auto_tracer_fnc if tr else h.corr_2h_auto_matter_fnc)
        x = fnc(R)
        base = M.tracer(cfg, rmin=0.05, rmax=100.0, rnum=12, dr_table=0.15, force_unity_dm_bias=case["unity"])
        bfnc = (base.corr_2h_auto_tracer_fnc if tr else base.corr_2h_auto_matter_fnc)
        nox = bfnc(R)
        low = np.asarray(h.k)[(np.asarray(h.k) > 1e-3) & (np.asarray(h.k) < 9e-3)][:: 7]
        q = "power_2h_auto_tracer_fnc" if tr else "power_2h_auto_matter_fnc"
        if not (r.tprof if tr else r.prof)["name"].endswith("Inf"):  # (their transforms do not tend to one)
            close("large-scale power with exclusion", getattr(h, q)(low), getattr(base, q)(low), rtol=2e-2)
    finite("correlation", x)
    k = np.asarray(h.k)
    phh = np.asarray(M.spectrum(h))
    sel = np.unique(np.concatenate([[0], np.searchsorted(k, np.geomspace(k[1], k[-2], 60)), [len(k) - 1]]))
    P, w, b, masses = model_integrals(r, name, h, tr, R)
    b2 = float(np.trapezoid(w * b, P.l)) ** 2
    U = np.array([r.u(np.full(P.l.shape, kk), masses, tracer=tr) for kk in k[sel]])
    F = w * b * U
    partial = False
    for i, R1 in enumerate(R):
        nm = kind(name)
        if nm == "Sphere":
            D = [np.sqrt(P.single(w, R1, s * CELLS * dl)) for s in (-1, 1)]
        else:
            D = [np.sqrt(max(P.pair("DblEllipsoid" if nm != "DblSphere" else nm, w, R1, s * CELLS * dl), 0)) for s in (-1, 1)]
        I = []
        for s in (0, 1):
            if nm == "NgMatched":
                v = [matched(P, w, f, D[s], dl, 5e-3 + (w[0] * dl if P.l[0] > np.log(h.m[0]) else 0))[s] for f in F]
            else:
                v = [P.pair(nm, f, R1, (2 * s - 1) * CELLS * dl) for f in F]
            I.append(np.array(v) * D[s])
        unit = 1.0
        if not tr and case["unity"]:
            unit = 1 / b2
        xi = []
        for v in I:
            if np.max(v) <= 0:
                xi.append(0.0)
                continue
            sp = M.InterpolatedUnivariateSpline(np.log(k[sel]), v, k=3)
            full = np.maximum(sp(np.log(k)), 1e-30 * np.max(v)) * phh * unit
            pk = M.pivot_spline(k, full, h.n)
            xi.append(M.xi_ref(pk, [R1])[0])
        s = abs(nox[i]) + 0.02 * abs(float(bfnc(8.0)))
        tol = abs(xi[1] - xi[0]) + 0.06 * s * max(np.max(I[1]) / (b2 + 1e-300), 1e-3)
        lo, hi = min(xi) - tol, max(xi) + tol
        if not lo <= x[i] <= hi:
            raise Violation(f"{name}: two-halo {'tracer' if tr else 'matter'} correlation at r={R1!r} is {x[i]!r}, expected {lo!r} to {hi!r} (without exclusion {nox[i]!r})")
        partial |= 0.02 * b2 < np.max(I[0]) * unit * (b2 if unit != 1 else 1) < 0.98 * b2
    note(name)
    note("tracer" if tr else "matter")
    if not partial:
        note.trivial("all or nothing excluded")


def fn_rules(case, note):
    """The double-integral rules are exact for the polynomials their order promises, for any number of points."""
    from halomod import halo_exclusion as E

    n = case["n"]
    L = case["length"]
    x = np.linspace(0, L, n)
    dx = x[1] - x[0]
    q = np.array(case["poly"])
    deg = 1 if case["rule"] != "simps" or n % 2 == 0 else 3

    def value(c):
        """Integral and values of a symmetric polynomial sum_ij c_i c_j x^i y^j."""
        p = sum(c[i] * (x / L) ** i for i in range(deg + 1))
        return sum(c[i] / (i + 1) for i in range(deg + 1)) * L, p

    i1, p1 = value(q)
    X, want = np.outer(p1, p1), i1 * i1
    Y = X.copy()
    if case["rule"] == "simps":
        got = E.dblsimps_(X, dx, dx)
    elif case["rule"] == "trapz_":
        got = E.dbltrapz_(X, dx, dx)
    else:
        y = np.linspace(0, 1, case["ny"])
        r = case["poly"][0] + case["poly"][2] * y
        X = np.array([np.outer(p1, r), 2 * np.outer(p1, r)])
        Y = X.copy()
        want = i1 * (case["poly"][0] + case["poly"][2] / 2) * np.array([1.0, 2.0])
        got = E.dbltrapz(X, dx, y[1] - y[0])
        close("one rule for both directions", E.dbltrapz(np.outer(p1, p1), dx), i1 * i1, rtol=1e-9, atol=1e-9 * L**2)
    close(f"double integral ({case['rule']}, {n} points)", got, want, rtol=1e-9, atol=1e-9 * L**2 * (1 + np.sum(q**2)))
    ensure(np.array_equal(X, Y), "the integrand is changed")
    note(case["rule"]), note("even" if n % 2 == 0 else "odd")


NUMBA = [m for m in MODELS if m.endswith("_")]
PLAIN = [m for m in MODELS if not m.endswith("_")]
CLAUSES = [
    Clause("pairs", lambda: comp_case(PLAIN), fn_pairs, quick=1200, shards=5, rule="random mass grid, integrand, separations; some pairs excluded and some not",
           what="excluded double integrals and densities count the allowed pairs"),
    Clause("compiled", lambda: comp_case(NUMBA), fn_pairs, quick=500, shards=2, rule="random mass grid, integrand, separations; some pairs excluded and some not",
           what="the same for the compiled models"),
    Clause("same", lambda: comp_case(["DblSphere", "DblEllipsoid", "NgMatched"]), fn_same, quick=200, shards=1, rule="partial exclusion",
           what="compiled and interpreted implementations agree"),
    Clause("model", lambda: fx(cfg=M.tracer_cfg(st.sampled_from([dict(name="Zheng05", params={}), dict(name="Zheng05", params=dict(M_min=12.5, M_0=12.5, M_1=13.5, sig_logm=0.4)), dict(name="Zehavi05", params={})]), dlog10m=st.just(0.05)),
                              model=st.sampled_from([m for m in MODELS if m != "NoExclusion"]), tracer=st.booleans(), unity=st.booleans(), lr=st.lists(fl(-0.7, 1.5), min_size=2, max_size=4, unique=True)), fn_model, quick=60, shards=4,
           rule="partial exclusion at some separation", what="two-halo correlations use the excluded integral of the model's own quantities"),
    Clause("rules", lambda: fx(rule=st.sampled_from(["simps", "trapz_", "trapz"]), n=st.integers(4, 60), ny=st.integers(2, 12), length=fl(0.5, 30),
                               poly=st.lists(st.integers(-8, 8).map(lambda i: i / 4), min_size=4, max_size=4)), fn_rules, quick=300, shards=1,
           rule="random polynomials and numbers of points", what="rules of double integration"),
]
