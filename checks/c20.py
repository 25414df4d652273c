"""C20: angular correlation functions."""

import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import InterpolatedUnivariateSpline
from scipy.special import gamma

from checks.c13 import hods
from vlib import formulas as F
from vlib import gen as G
from vlib import models as M
from vlib.core import Clause
from vlib.util import asnum, close, ensure, finite, fl, fx, raises, shape

ASSUMPTIONS = [
    "The expansion rate is astropy's; distances are integrated from it.",
    "Selections are smooth on at least 60 points between the limits of redshift; lines of sight are sampled at 60 or more points.",
    "With check_p_norm, selections are either normalised or off by more than 3 per cent (the code leaves errors below 1 per cent alone).",
    "In the model form, the 3D correlation is the model's own (checked in C15).",
]


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            return fn(*a, **k)


# ------------------------------------------------------------------------------------ cosmology
class Dist:
    """Comoving distance in Mpc/h (2997.92458 int dz/E) and its inverse."""

    def __init__(self, cosmo):
        self.e = cosmo.efunc
        z = np.linspace(0, 6, 1201)
        t, w = F.gl(6)
        x = z[:-1, None] + np.diff(z)[:, None] * t
        step = np.sum(w / self.e(x.ravel()).reshape(x.shape), axis=1) * np.diff(z)
        self._x = InterpolatedUnivariateSpline(z, 2997.92458 * np.concatenate([[0], np.cumsum(step)]))
        self._z = InterpolatedUnivariateSpline(self._x(z), z)

    def x(self, z):
        return self._x(z)

    def z(self, x):
        return self._z(x)

    def dxdz(self, z):
        return 2997.92458 / self.e(np.asarray(z, dtype=float))


COSMO = lambda: st.one_of(
    st.just(dict(name="Planck18")), st.just(dict(name="Planck15")), fx(name=st.just("flat"), Om0=fl(0.15, 0.5), H0=fl(50, 90), Ob0=st.just(0.05)))


# ------------------------------------------------------------------------------------ selections
SEL = lambda: st.one_of(
    fx(kind=st.just("flat")),
    fx(kind=st.just("gauss"), mu=fl(0.2, 0.8), sig=fl(0.12, 0.6)),
    fx(kind=st.just("power"), a=fl(-1, 3), b=fl(0.5, 4)),
)


def selection(spec, z0, z1):
    """Normalised p(z) between z0 and z1."""
    d = z1 - z0
    if spec["kind"] == "flat":
        f = lambda z: 1.0 + 0 * np.asarray(z, dtype=float)
    elif spec["kind"] == "gauss":
        f = lambda z: np.exp(-0.5 * (((np.asarray(z, dtype=float) - z0) / d - spec["mu"]) / spec["sig"]) ** 2)
    else:
        f = lambda z: (0.3 + (np.asarray(z, dtype=float) - z0) / d) ** spec["a"] * np.exp(-spec["b"] * (np.asarray(z, dtype=float) - z0) / d)
    t, w = F.gl(80)
    n = np.sum(f(z0 + d * t) * w) * d
    return lambda z: f(z) / n


class WithIntegral:
    """A distribution which knows its integral, like a scipy spline."""

    def __init__(self, p, a, b):
        self.s = InterpolatedUnivariateSpline(np.linspace(a, b, 400), p(np.linspace(a, b, 400)))

    def __call__(self, z):
        return self.s(z)

    def integral(self, a, b):
        return self.s.integral(a, b)


def xi_of(spec):
    def f(r, amp=1.0):
        r = np.asarray(r, dtype=float)
        y = (1 + (r / spec["rc"]) ** 2) ** (-spec["g"] / 2) + spec["a2"] * np.exp(-r / spec["cut"])
        if spec["neg"]:
            y = y - 0.02 * np.exp(-r / 30.0)
        return amp * spec["A"] * y

    return f


XI = lambda: fx(A=fl(0.1, 30), rc=fl(0.05, 5), g=fl(1.3, 2.8), a2=st.one_of(st.just(0.0), fl(0, 1)), cut=fl(3, 40), neg=st.booleans())


def project(theta, xi, p1, p2, D, z0, z1, lu0, lu1):
    """2 int dx p1 p2 int du xi(sqrt(u^2 + x^2 theta^2)), with the same of absolute values."""
    t, w = F.gl(40)
    a, b = float(D.x(z0)), float(D.x(z1))
    x = a + (b - a) * t
    z = D.z(x)
    wt = p1(z) * p2(z) / D.dxdz(z) ** 2 * w * (b - a)
    edges = np.linspace(lu0, lu1, max(8, int(np.ceil((lu1 - lu0) * 6))) + 1) * np.log(10)
    tu, wu = F.gl(5)
    L = (edges[:-1, None] + np.diff(edges)[:, None] * tu).ravel()
    W = (np.diff(edges)[:, None] * wu).ravel()
    u = np.exp(L)
    y = xi(np.sqrt((u**2)[None, None, :] + (np.outer(theta, x) ** 2)[:, :, None]).ravel()).reshape(len(theta), len(x), len(u))
    k = (wt[None, :, None] * (W * u)[None, None, :]) * 2
    return np.sum(y * k, axis=(1, 2)), np.sum(np.abs(y * k), axis=(1, 2))


Z = lambda: fx(z0=st.one_of(fl(0.05, 2), st.sampled_from([0.2, 1.0])), dz=fl(0.05, 1.0))
NORM = lambda: st.one_of(st.just(1.0), fl(1.1, 60), fl(0.01, 0.9))


def setup(case):
    z0 = case["zr"]["z0"]
    z1 = z0 + case["zr"]["dz"]
    cosmo = G.cosmology(case["cosmo"])
    return z0, z1, cosmo, Dist(cosmo)


def given(p, norm, how, D, z0, z1):
    """What the user passes for the distribution p(z)."""
    if how["of"] == "z":
        f = lambda z: norm * p(z)
        return WithIntegral(f, z0, z1) if how["spline"] else f
    f = lambda x: norm * p(np.clip(D.z(x), z0, z1)) / D.dxdz(np.clip(D.z(x), z0, z1))
    return WithIntegral(f, float(D.x(z0)), float(D.x(z1))) if how["spline"] else f


def fn_function(case, note):
    from halomod.integrate_corr import angular_corr_gal as ac

    z0, z1, cosmo, D = setup(case)
    theta = np.array(case["theta"])
    xi = xi_of(case["xi"])
    sel1 = selection(case["p1"], z0, z1)
    sel2 = selection(case["p2"], z0, z1) if case["p2"] else sel1
    lu0, lu1 = case["lu0"], case["lu1"]
    want, size = project(theta, xi, sel1, sel2, D, z0, z1, lu0, lu1)
    how = case["how"]
    n1, n2 = case["n1"], case["n2"]
    kw = dict(znum=case["znum"], unum=case["unum"], p_of_z=how["of"] == "z")
    if case["cosmo"]["name"] != "Planck18" or case["explicit"]:
        kw["cosmo"] = cosmo
    else:
        note("default cosmology")
    if case["p2"]:
        kw["p2"] = given(sel2, n2, how, D, z0, z1)
        note("cross")
    else:
        n2 = n1
    if not case["check"]:
        kw["check_p_norm"] = False
        want, size = want * n1 * n2, size * n1 * n2
        note("normalisation kept")
    note("distribution of " + how["of"])
    p1 = given(sel1, n1, how, D, z0, z1)
    got = quiet(ac, theta, xi, p1, z0, z1, lu0, lu1, **kw)
    shape("angular correlation", finite("angular correlation", got), theta.shape)
    close("angular correlation", got, want, rtol=0, atol=4e-3 * size)
    # arguments of the correlation are passed on
    close("argument of the correlation", quiet(ac, theta, xi, p1, z0, z1, lu0, lu1, amp=-2.5, **kw), -2.5 * np.asarray(got), rtol=1e-9)
    # each angle on its own, in any order
    i = case["pick"] % len(theta)
    close("single angle", quiet(ac, theta[i : i + 1], xi, p1, z0, z1, lu0, lu1, **kw), got[i : i + 1], rtol=1e-9)
    close("angles in a list", quiet(ac, [float(t) for t in theta], xi, p1, z0, z1, lu0, lu1, **kw), got, rtol=1e-9)
    close("an angle alone", np.ravel(quiet(ac, float(theta[i]), xi, p1, z0, z1, lu0, lu1, **kw)), got[i : i + 1], rtol=1e-9)
    close("angles in reverse", quiet(ac, theta[::-1], xi, p1, z0, z1, lu0, lu1, **kw), got[::-1], rtol=1e-9)
    if case["p2"]:
        k2 = dict(kw, p2=p1)
        close("exchanged samples", quiet(ac, theta, xi, given(sel2, n2, how, D, z0, z1), z0, z1, lu0, lu1, **k2), got, rtol=1e-6, atol=1e-9 * np.max(size))
    # linear in the correlation
    other = xi_of(case["xi2"])
    g2 = quiet(ac, theta, other, p1, z0, z1, lu0, lu1, **kw)
    s = case["s"]
    close("linear in the correlation", quiet(ac, theta, lambda r: xi(r) + s * other(r), p1, z0, z1, lu0, lu1, **kw),
          got + s * np.asarray(g2), rtol=1e-8, atol=1e-9 * np.max(np.abs(got) + np.abs(s * g2)))


def fn_limber(case, note):
    """Power laws: w = sqrt(pi) G((g-1)/2)/G(g/2) r0^g theta^(1-g) int dx p^2 x^(1-g)."""
    from halomod.integrate_corr import angular_corr_gal as ac

    z0, z1, cosmo, D = setup(case)
    g, r0 = case["g"], case["r0"]
    theta = np.array(case["theta"])
    p = selection(case["p1"], z0, z1)
    t, w = F.gl(40)
    a, b = float(D.x(z0)), float(D.x(z1))
    x = a + (b - a) * t
    px = p(D.z(x)) / D.dxdz(D.z(x))
    H = np.sqrt(np.pi) * gamma((g - 1) / 2) / gamma(g / 2)
    want = H * r0**g * theta ** (1 - g) * np.sum(w * (b - a) * px**2 * x ** (1 - g))
    lo = 2e-2 * theta.min() * a
    hi = 200 * theta.max() * b
    lu0, lu1 = np.log10(lo), np.log10(hi)
    got = quiet(ac, theta, lambda r: (r / r0) ** -g, p, z0, z1, lu0, lu1, znum=100, unum=int(40 * (lu1 - lu0)) + 1, cosmo=cosmo)
    # left out: the start and the end of the line of sight
    cut = 2 / H * (10**lu0 / (theta * a) + (theta * b / 10**lu1) ** (g - 1) / (g - 1))
    close("small-angle limit of power laws", got, want * (1 - cut / 2), rtol=0, atol=want * (0.52 * cut + 3e-3))


def fn_model(case, note):
    from halomod.integrate_corr import AngularCF

    z0 = case["zr"]["z0"]
    z1 = z0 + case["zr"]["dz"]
    cfg = dict(case["cfg"], z=z0 + case["zf"] * case["zr"]["dz"])
    kw = M.kwargs(cfg)
    for k in ("rmin", "rmax"):
        kw.pop(k, None)
    spec = dict(theta_min=case["t0"], theta_max=case["t0"] * 10 ** case["dec"], theta_num=case["num"], theta_log=case["log"],
                zmin=z0, zmax=z1, znum=case["znum"], logu_min=case["lu0"], logu_max=case["lu1"], unum=case["unum"], check_p_norm=case["check"],
                p_of_z=case["how"]["of"] == "z")
    base = dict(kw, rnum=40)
    a = AngularCF(**base, zmin=z0, zmax=z1)
    D = Dist(a.cosmo)
    p1 = given(selection(case["p1"], z0, z1), case["n1"], case["how"], D, z0, z1) if case["p1"] else None
    p2 = given(selection(case["p2"], z0, z1), case["n2"], case["how"], D, z0, z1) if case["p2"] else None
    if case["update"]:
        a = AngularCF(**{**base, "z": 0.3})
        if case["read"]:
            quiet(lambda: a.angular_corr_matter)
        a.update(z=cfg["z"], p1=p1, p2=p2, **spec)
        note("after an update")
    else:
        a = quiet(AngularCF, p1=p1, p2=p2, **spec, **base)
    theta = (np.geomspace if case["log"] else np.linspace)(spec["theta_min"], spec["theta_max"], spec["theta_num"])
    close("angles", a.theta, theta, rtol=1e-10)
    z = np.linspace(z0, z1, case["znum"])
    close("redshifts", a.zvec, z, rtol=1e-12)
    close("comoving distances", a.xvec, D.x(z), rtol=1e-6)
    close("line of sight", a.uvec, np.logspace(case["lu0"], case["lu1"], case["unum"]), rtol=1e-12)
    r = finite("separations", a.r)
    ends = [np.sqrt(10 ** (2 * case["lu0"]) + (theta.min() * D.x(z0)) ** 2), np.sqrt(10 ** (2 * case["lu1"]) + (theta.max() * D.x(z1)) ** 2)]
    close("range of separations", [r[0], r[-1]], ends, rtol=1e-6)
    ensure(len(r) == 40, "number of separations")
    s1 = selection(case["p1"] or dict(kind="flat"), z0, z1)
    s2 = selection(case["p2"], z0, z1) if case["p2"] else s1
    n1 = case["n1"] if case["p1"] and not case["check"] else 1.0
    n2 = (case["n2"] if case["p2"] else n1) if not case["check"] else 1.0
    for what in case["what"]:
        if what == "gal" and not float(a.mean_tracer_den) > 1e-15:
            return note.trivial("hardly any tracers")
        fnc = a.corr_auto_tracer_fnc if what == "gal" else a.corr_auto_matter_fnc
        want, size = project(theta, lambda q: quiet(fnc, q), s1, s2, D, z0, z1, case["lu0"], case["lu1"])
        want, size = want * n1 * n2, size * n1 * n2
        got = finite(what, quiet(lambda: getattr(a, "angular_corr_" + what)))
        close(f"angular correlation ({what})", got, want, rtol=0, atol=8e-3 * size)
        note(what)


def fn_tools(case, note):
    from halomod import integrate_corr as I

    z0, z1, cosmo, D = setup(case)
    f = I.flat_z_dist(z0, z1)
    inside = z0 + (z1 - z0) * np.array(case["t"])
    close("flat distribution", f(inside), np.full(len(inside), 1 / (z1 - z0)), rtol=1e-12)
    out = np.array([z0 - 1e-6, z1 + 1e-6, z1 + 1, 0.0])
    close("flat distribution outside", f(out), np.zeros(4))
    close("flat distribution of one redshift", np.ravel(f(float(inside[0]))), [1 / (z1 - z0)], rtol=1e-12)
    close("derivative of distance", I.dxdz(inside, cosmo), D.dxdz(inside), rtol=1e-6)
    e = 1e-4
    close("derivative of distance", I.dxdz(inside, cosmo), (D.x(inside + e) - D.x(inside - e)) / (2 * e), rtol=1e-4)
    if case["cosmo"]["name"] == "Planck18":
        close("derivative in the default cosmology", I.dxdz(inside), D.dxdz(inside), rtol=1e-6)
    a = I.AngularCF(**M.BASE, z=0.3)
    raises("negative angles", ValueError, lambda: a.update(theta_min=-case["eps"]))
    raises("reversed limits of angles", ValueError, lambda: I.AngularCF(**M.BASE, z=0.3, theta_min=0.02, theta_max=0.02 * (1 - case["eps"] / 2)).theta)


HOW = lambda: fx(of=st.sampled_from(["z", "x"]), spline=st.booleans())
THETA = lambda n: st.lists(fl(-4.5, -1.3).map(lambda v: 10**v), min_size=1, max_size=n)
CLAUSES = [
    Clause("function", lambda: fx(zr=Z(), cosmo=COSMO(), explicit=st.booleans(), xi=XI(), xi2=XI(), s=fl(-3, 3), p1=SEL(), p2=st.one_of(st.none(), SEL()),
                                  n1=NORM(), n2=NORM(), how=HOW(), check=st.booleans(), theta=THETA(5), lu0=fl(-5, -2), lu1=fl(1.5, 2.7),
                                  znum=st.integers(60, 150), unum=st.integers(90, 180), pick=st.integers(0, 9)),
           fn_function, quick=1500, shards=8, rule="always",
           what="angular_corr_gal against an independent double integral; linearity, selections in redshift or distance, normalisation, pairs of samples"),
    Clause("limber", lambda: fx(zr=Z(), cosmo=COSMO(), p1=SEL(), g=fl(1.5, 2.6), r0=fl(1, 10), theta=THETA(3)), fn_limber, quick=300, shards=4,
           rule="always", what="power laws against the analytic small-angle limit"),
    Clause("model", lambda: fx(cfg=M.tracer_cfg(hods()), zr=fx(z0=fl(0.1, 1.2), dz=fl(0.05, 0.6)), zf=fl(0, 1), p1=st.one_of(st.none(), SEL()), p2=st.one_of(st.none(), SEL()),
                               n1=NORM(), n2=NORM(), how=HOW(), check=st.booleans(), t0=fl(-4.5, -2.5).map(lambda v: 10**v), dec=fl(0.1, 1.5), num=st.integers(1, 6),
                               log=st.booleans(), lu0=fl(-4, -2), lu1=fl(1.5, 2.3), znum=st.integers(60, 120), unum=st.integers(90, 150),
                               update=st.booleans(), read=st.booleans(), what=st.sampled_from([["gal"], ["matter"], ["gal", "matter"]])),
           fn_model, quick=200, shards=8, rule="the model has tracers",
           what="AngularCF (tracers and matter) against the double integral of its own correlation; its grids"),
    Clause("tools", lambda: fx(zr=Z(), cosmo=COSMO(), t=st.lists(fl(0, 1), min_size=1, max_size=5), eps=fl(0.001, 1)), fn_tools, quick=60, shards=1,
           what="flat distribution, derivative of distance, refused angles"),
]
