"""C16: cross-correlations of two tracers."""

import numpy as np
from hypothesis import strategies as st

from checks.c05 import hod_st
from vlib import formulas as F
from vlib import models as M
from vlib.core import Clause
from vlib.util import close, ensure, finite, fl, fx

ASSUMPTIONS = [
    "Both populations live in one cosmology at one redshift; grids of mass and wavenumber of their own in the clause grids only; wavenumbers between 1e-3 and 30 h/Mpc.",
    "The one-halo cross power is integrated by the code over all halo masses with Simpson's rule, so an error of one "
    "mass-grid cell is allowed at discontinuities of either occupation.",
    "Means and dispersions of the occupations are those of the HOD classes, checked in C05.",
]


def corr_class():
    """A pair relation of our own: correlations which depend on mass, and pairs at zero separation."""
    from halomod.cross_correlations import _HODCross

    class MassCorr(_HODCross):
        _defaults = {"a": 0.3, "b": -0.2, "c": 0.1, "q": 0.05}

        def _w(self, m):
            return 1 / (1 + (np.asarray(m) / 1e13) ** 0.5)

        def R_ss(self, m):
            return self.params["a"] * self._w(m)

        def R_cs(self, m):
            return self.params["b"] * self._w(m)

        def R_sc(self, m):
            return self.params["c"] * self._w(m)

        def self_pairs(self, m):
            return self.params["q"] * self.hods[0].satellite_occupation(m)

    return MassCorr


def relation(spec):
    """(class or name, parameters, R_ss, R_cs, R_sc, self-pair factor)."""
    a, b, c = spec["ss"], spec["cs"], spec["sc"]
    if spec["kind"] == "mass":
        w = lambda m: 1 / (1 + (m / 1e13) ** 0.5)
        return corr_class(), {"a": a, "b": b, "c": c, "q": spec["self"]}, (lambda m: a * w(m)), (lambda m: b * w(m)), (lambda m: c * w(m)), spec["self"]
    p = {k: v for k, v in (("R_ss", a), ("R_cs", b), ("R_sc", c)) if v or spec["all"]}
    from halomod.cross_correlations import ConstantCorr

    one = lambda v: (lambda m: v + 0 * m)
    return ("ConstantCorr" if spec["kind"] == "name" else ConstantCorr), p, one(a), one(b), one(c), 0.0


R = lambda: st.one_of(st.just(0.0), fl(-1, 1))
REL = lambda: fx(kind=st.sampled_from(["name", "class", "mass"]), ss=R(), cs=R(), sc=R(), all=st.booleans(), self=fl(0, 0.5))


def full(x, m):
    return np.broadcast_to(np.asarray(x, dtype=float), np.shape(m))


def pairs(rel, h1, h2, m):
    """ss, cs, sc pair counts as published."""
    _, _, rss, rcs, rsc, q = rel
    f = lambda x: full(x, m)
    c1, s1, c2, s2 = f(h1.central_occupation(m)), f(h1.satellite_occupation(m)), f(h2.central_occupation(m)), f(h2.satellite_occupation(m))
    dc1, ds1, dc2, ds2 = f(h1.sigma_central(m)), f(h1.sigma_satellite(m)), f(h2.sigma_central(m)), f(h2.sigma_satellite(m))
    return s1 * s2 + ds1 * ds2 * rss(m) - q * s1, c1 * s2 + dc1 * ds2 * rcs(m), c2 * s1 + dc2 * ds1 * rsc(m)


def fn_pairs(case, note):
    from halomod import hod as H
    from halomod import cross_correlations as X

    h1, h2 = (getattr(H, h["name"])(central=h["central"], **h["params"]) for h in (case["hod1"], case["hod2"]))
    rel = relation(case["rel"])
    cls = rel[0] if not isinstance(rel[0], str) else getattr(X, rel[0])
    x = cls([h1, h2], **rel[1])
    m = 10.0 ** np.array(case["lm"])
    keep = m.copy()
    if any(np.max(h.central_occupation(m)) > 1 for h in (h1, h2)):
        # the dispersion of a number of centrals above one is not defined
        return note.trivial("more than one central per halo")
    ss, cs, sc = pairs(rel, h1, h2, m)
    close("satellite-satellite cross pairs", full(x.ss_cross_pairs(m), m), ss, rtol=1e-9, atol=1e-12 * (1 + np.max(np.abs(ss))))
    close("central-satellite cross pairs", full(x.cs_cross_pairs(m), m), cs, rtol=1e-9, atol=1e-12 * (1 + np.max(np.abs(cs))))
    close("satellite-central cross pairs", full(x.sc_cross_pairs(m), m), sc, rtol=1e-9, atol=1e-12 * (1 + np.max(np.abs(sc))))
    ensure(np.array_equal(m, keep), "the masses were changed")
    # exchanging the tracers
    sw = dict(case["rel"], cs=case["rel"]["sc"], sc=case["rel"]["cs"])
    if case["rel"]["kind"] != "mass":
        y = cls([h2, h1], **relation(sw)[1])
        close("exchanged satellites", full(y.ss_cross_pairs(m), m), ss, rtol=1e-9, atol=1e-12 * (1 + np.max(np.abs(ss))))
        close("exchanged central-satellite", full(y.cs_cross_pairs(m), m), sc, rtol=1e-9, atol=1e-12 * (1 + np.max(np.abs(sc))))
        ensure(full(x.self_pairs(m), m).max() == 0, "self pairs of a constant correlation")
        # uncorrelated: products of the means
        z = cls([h1, h2])
        close("uncorrelated pairs", full(z.ss_cross_pairs(m), m), full(h1.satellite_occupation(m), m) * full(h2.satellite_occupation(m), m), rtol=1e-9)
    note(case["rel"]["kind"]), note(case["hod1"]["name"]), note(case["hod2"]["name"])


def unphysical(*models):
    """The dispersion of a number of centrals above one is not defined (the cross pairs leave out such masses)."""
    return any(np.max(h.hod.central_occupation(h.m)) > 1 and h.hod.__class__.__name__ in ("Contreras13", "Geach12") for h in models)


class Two:
    """Independent integrals over both occupations."""

    def __init__(self, r1, r2):
        self.r = (r1, r2)
        s = sorted(set(r1.steps() + r2.steps()))
        a, z = r1.lm[0], r1.lm[-1]
        pts = np.unique(np.concatenate([[a, z], np.arange(a, z, 0.25), np.log(s)]))
        pts = pts[np.concatenate([[True], np.diff(pts) > 1e-12])]
        t, w = F.gl(5)
        L = (pts[:-1, None] + np.diff(pts)[:, None] * t).ravel()
        self.m = np.exp(L)
        self.w = (np.diff(pts)[:, None] * w).ravel() * self.m
        self.s = s

    def integral(self, fn):
        r1 = self.r[0]
        val = float(np.sum(fn(self.m) * self.w))
        err = 0.0
        for s in self.s:
            a, b, c = fn(np.array([s * (1 - 1e-7), s * (1 + 1e-7), s * np.exp(r1.dl)]))
            err += 1.2 * abs(b - a) * s * r1.dl
            if any(r.occ.name in ("Tinker05", "Zheng05") for r in self.r):
                err += 0.6 * abs(c - b) * s * r1.dl
        for r in self.r:
            if r.occ.name in ("Zheng05", "Contreras13", "Geach12"):
                p = r.occ.p
                wd = p["sig_logm"] * p.get("x", 1.0)
                s = 10 ** p["M_min"]
                y = fn(s * 10 ** np.linspace(-3 * wd, 3 * wd, 13))
                err += 1.2 * (np.max(y) - np.min(y)) * s * r1.dl * min(1.0, (0.4 * r1.dl / wd) ** 2)
        return val, err


NAMES = [n for n in F.HOD_DEFAULTS if n not in ("Leauthaud11", "Spinelli19")]
hods = lambda: hod_st(["Zehavi05", "Zheng05", "Zheng05"] * 2 + NAMES)
SHARED = ("hmf", "mdef", "z", "cosmo", "sigma_8", "n", "Mmin", "Mmax", "dlog10m", "hc_spectrum")


def configs(case):
    c1 = dict(case["cfg"])
    c2 = dict(case["cfg2"])
    for k in SHARED:
        c2[k] = c1[k]
        if k not in c1:
            c2.pop(k, None)
    c1["dlog10m"] = c2["dlog10m"] = 0.05
    return c1, c2


def build(rel, c1, c2):
    from halomod.cross_correlations import CrossCorrelations

    return CrossCorrelations(cross_hod_model=rel[0], cross_hod_params=dict(rel[1]), halo_model_1_params=M.kwargs(c1), halo_model_2_params=M.kwargs(c2))


def fn_power(case, note):
    c1, c2 = configs(case)
    rel = relation(case["rel"])
    x = build(rel, c1, c2)
    h1, h2 = x.halo_model_1, x.halo_model_2
    r1, r2 = M.Ref(h1, c1, c1["hod"]), M.Ref(h2, c2, c2["hod"])
    d1, d2 = r1.density(), r2.density()
    if min(d1[0], d2[0]) < 1e-15 or d1[1] > 0.1 * d1[0] or d2[1] > 0.1 * d2[0]:
        return note.trivial("hardly any tracers")
    if unphysical(h1, h2):
        return note.trivial("more than one central per halo")
    ks = M.pick_k(h1, case["idx"])
    k = h1.k[ks]
    tol = 2 * max(M.prof_tol(r1.tprof), M.prof_tol(r2.tprof)) + 4e-3
    T = Two(r1, r2)
    dd = d1[0] * d2[0]
    ed = d1[1] / d1[0] + d2[1] / d2[0]
    one, e1, mag, two, e2 = [], [], [], [], []
    for kk in k:
        def parts(m):
            ss, cs, sc = pairs(rel, h1.hod, h2.hod, m)
            u1, u2 = r1.u(kk, m, True), r2.u(kk, m, True)
            return r1.n(m) * np.array([u1 * u2 * ss, u1 * sc, u2 * cs])

        v, e = T.integral(lambda m: parts(m).sum(0))
        a = T.integral(lambda m: np.abs(parts(m)).sum(0))[0]
        one.append(v / dd), e1.append((e + abs(v) * ed) / dd), mag.append(a / dd)
        b1 = r1.integral(lambda m: r1.n(m) * r1.tot(m) * r1.b(m) * r1.u(kk, m, True), r1.mmin)
        b2 = r2.integral(lambda m: r2.n(m) * r2.tot(m) * r2.b(m) * r2.u(kk, m, True), r2.mmin)
        p = M.spectrum(h1)[ks][len(two)]
        v = b1[0] * b2[0] / dd * p
        two.append(v), e2.append(abs(v) * (ed + b1[1] / abs(b1[0]) + b2[1] / abs(b2[0])))
    one, e1, two, e2, mag = map(np.array, (one, e1, two, e2, mag))
    at = e1 + tol * mag
    close("one-halo cross power", x.power_1h_cross_fnc(k), one, rtol=0, atol=at)
    close("two-halo cross power", x.power_2h_cross_fnc(k), two, rtol=tol, atol=e2)
    close("cross power", x.power_cross_fnc(k), one + two, rtol=0, atol=at + tol * np.abs(two) + e2)
    for q in ("power_1h_cross", "power_2h_cross", "power_cross"):
        v = finite(q, getattr(x, q))
        ensure(v.shape == h1.k_hm.shape, f"{q} has length {v.shape}")
        close(f"tabulated {q}", v, getattr(x, q + "_fnc")(h1.k_hm), rtol=1e-9, atol=1e-12 * np.max(np.abs(v)))
    close("sum", x.power_cross, x.power_1h_cross + x.power_2h_cross, rtol=1e-9, atol=1e-12 * np.max(np.abs(x.power_cross)))
    note(c1["hod"]["name"]), note(case["rel"]["kind"]), note("own profile" if c1["tprof"] or c2["tprof"] else "profile of the halos")


def fn_meta(case, note):
    """Exchange, linearity in the correlations, identical populations, correlations functions."""
    c1, c2 = configs(case)
    c1["dr_table"] = 0.04
    if case["same"]:
        c2 = dict(c1)
    rel = relation(case["rel"])
    x = build(rel, c1, c2)
    h1, h2 = x.halo_model_1, x.halo_model_2
    if min(h1.mean_tracer_den, h2.mean_tracer_den) < 1e-15:
        return note.trivial("hardly any tracers")
    if unphysical(h1, h2):
        return note.trivial("more than one central per halo")
    k = h1.k[(h1.k > 1e-3) & (h1.k < 50)][::6]
    p1, p2 = finite("one-halo", x.power_1h_cross_fnc(k)), finite("two-halo", x.power_2h_cross_fnc(k))
    zero = build(relation(dict(case["rel"], ss=0.0, cs=0.0, sc=0.0, all=False, self=0.0)), c1, c2)
    p0 = zero.power_1h_cross_fnc(k)
    sc = np.max(np.abs(p0)) + np.max(np.abs(p1))
    close("two-halo power without correlations", zero.power_2h_cross_fnc(k), p2, rtol=1e-9)
    if case["rel"]["kind"] != "mass":
        f = case["f"]
        half = build(relation(dict(case["rel"], all=True, **{a: case["rel"][a] * f for a in ("ss", "cs", "sc")})), c1, c2)
        close("one-halo power is linear in the correlations", half.power_1h_cross_fnc(k), p0 + f * (p1 - p0), rtol=1e-7, atol=1e-9 * sc)
        y = build(relation(dict(case["rel"], cs=case["rel"]["sc"], sc=case["rel"]["cs"])), c2, c1)
        close("one-halo power of exchanged tracers", y.power_1h_cross_fnc(k), p1, rtol=1e-7, atol=1e-9 * sc)
        close("two-halo power of exchanged tracers", y.power_2h_cross_fnc(k), p2, rtol=1e-7)
    a1, a2 = h1.power_2h_auto_tracer_fnc(k), h2.power_2h_auto_tracer_fnc(k)
    close("two-halo power is the geometric mean of the auto powers", np.asarray(p2) ** 2, a1 * a2, rtol=4e-3)
    if case["same"]:
        close("two-halo power of identical populations", p2, a1, rtol=2e-3)
        if not c1["hod"]["central"] and c1["hod"]["name"] not in F.BULK and not h1.hod.sharp_cut:
            a = h1.clone(force_1halo_turnover=False).power_1h_auto_tracer_fnc(k)
            close("one-halo power of identical uncorrelated populations", p0, a, rtol=2e-2 if c1["hod"]["name"] in ("Zheng05", "Tinker05") else 1e-2)
            note("identical one-halo")
        note("identical")
    # correlations
    r = np.array(case["r"])
    c1h, c2h = finite("one-halo correlation", x.corr_1h_cross_fnc(r)), finite("two-halo correlation", x.corr_2h_cross_fnc(r))
    close("sum of correlations", x.corr_cross_fnc(r), c1h + c2h, rtol=1e-9, atol=1e-12 * (np.max(np.abs(c1h)) + np.max(np.abs(c2h))))
    close("tabulated correlation", x.corr_cross, x.corr_cross_fnc(h1.r), rtol=1e-9, atol=1e-12 * np.max(np.abs(x.corr_cross)))
    close("tabulated one-halo correlation", x.corr_1h_cross, x.corr_1h_cross_fnc(h1.r), rtol=1e-9, atol=1e-14)
    close("tabulated two-halo correlation", x.corr_2h_cross, x.corr_2h_cross_fnc(h1.r), rtol=1e-9, atol=1e-14)
    w2, s2, e2 = M.xi_and_error(x.power_2h_cross_fnc, r, h=1e-4)
    close("two-halo correlation is the transform of the power", c2h, w2, rtol=3e-2, atol=2e-2 * s2 + 2 * e2 + 1e-6)
    # one halo: within the halos, and where the quick transform is able to give it
    r1 = r / 20
    w1, s1, e1 = M.xi_and_error(x.power_1h_cross_fnc, r1)
    good = e1 < 0.05 * np.abs(w1)
    if good.any():
        close("one-halo correlation is the transform of the power", x.corr_1h_cross_fnc(r1)[good], w1[good], rtol=0.05, atol=4 * e1[good] + 0.02 * s1[good])
        note("one-halo correlation")
    note(case["rel"]["kind"])


OTHER = dict(
    shifted=dict(Mmin=0.5, Mmax=0.5), lower=dict(Mmin=-1.0), wider=dict(Mmin=-0.5, Mmax=0.5), higher=dict(Mmin=0.3), masses=dict(dlog10m=0.04),
    k=dict(lnk_min=-9.0, lnk_max=9.0), fewerk=dict(dlnk=0.125), allk=dict(lnk_min=-9.5, lnk_max=8.5, dlnk=0.08),
)


def fn_grids(case, note):
    """The second model has mass and wavenumber grids of its own."""
    c1, c2 = configs(case)
    c1.update(dlog10m=0.1), c2.update(dlog10m=0.1)
    rel = relation(case["rel"])
    x = build(rel, c1, c2)
    h1, h2 = x.halo_model_1, x.halo_model_2
    if min(h1.mean_tracer_den, h2.mean_tracer_den) < 1e-15:
        return note.trivial("hardly any tracers")
    if unphysical(h1, h2):
        return note.trivial("more than one central per halo")
    new = {}
    for g in case["grids"]:
        for n, v in OTHER[g].items():
            new[n] = getattr(h2, n) + v if n in ("Mmin", "Mmax") else v
    if case["update"]:
        x.power_cross  # noqa: B018
        y = build(rel, c1, c2)
        y.power_cross  # noqa: B018
        y.update(halo_model_2_params=new)
    else:
        y = build(rel, c1, {**c2, **new})
    g2 = y.halo_model_2
    if not g2.mean_tracer_den > 0.3 * h2.mean_tracer_den or unphysical(g2):
        return note.trivial("other tracers")
    k = h1.k[(h1.k > 1e-3) & (h1.k < 50)][::6]
    d, e = h1.mean_tracer_den * h2.mean_tracer_den, h1.mean_tracer_den * g2.mean_tracer_den
    # the halos are those of the first model
    a, b = finite("one-halo", x.power_1h_cross_fnc(k)) * d, finite("one-halo with other grids", y.power_1h_cross_fnc(k)) * e
    close(f"one-halo pairs with {sorted(new)} of the second model changed", b, a, rtol=1e-2, atol=1e-3 * np.max(np.abs(a)))
    p = finite("two-halo with other grids", y.power_2h_cross_fnc(k))
    close(f"two-halo power with {sorted(new)} of the second model changed", p**2, h1.power_2h_auto_tracer_fnc(k) * g2.power_2h_auto_tracer_fnc(k), rtol=2e-2)
    for q in ("power_1h_cross", "power_2h_cross", "power_cross"):
        ensure(np.shape(getattr(y, q)) == y.halo_model_1.k_hm.shape, f"length of {q}")
    for g in case["grids"]:
        note(g)


hod1 = lambda: st.tuples(hod_st(NAMES), st.booleans()).map(lambda t: dict(t[0], central=t[1]))
idx = lambda: st.lists(st.integers(0, 200), min_size=1, max_size=3, unique=True)
CLAUSES = [
    Clause("pairs", lambda: fx(hod1=hod1(), hod2=hod1(), rel=REL(), lm=st.lists(fl(8, 16), min_size=1, max_size=12)), fn_pairs, quick=1500, shards=2,
           rule="any two HODs, a constant correlation by name or class, or a mass-dependent one of our own with self-pairs",
           what="pair counts within a halo, uncorrelated and exchanged pairs"),
    Clause("power", lambda: fx(cfg=M.tracer_cfg(hods()), cfg2=M.tracer_cfg(hods()), rel=REL(), idx=idx()), fn_power, quick=240, shards=8,
           rule="two tracer models of one cosmology with profiles, concentrations and HODs of their own; non-trivial when both have tracers",
           what="one-halo, two-halo and total cross power against independent integrals"),
    Clause("grids", lambda: fx(cfg=M.tracer_cfg(hods()), cfg2=M.tracer_cfg(hods()), rel=REL(), grids=st.lists(st.sampled_from(sorted(OTHER)), min_size=1, max_size=2, unique=True), update=st.booleans()),
           fn_grids, quick=72, shards=8, rule="both have tracers", what="a second model with mass or wavenumber grids of its own"),
    Clause("meta", lambda: fx(cfg=M.tracer_cfg(hods()), cfg2=M.tracer_cfg(hods()), rel=REL(), f=fl(-1, 1), same=st.booleans(),
                              r=st.lists(fl(-1, 1.4).map(lambda x: 10.0**x), min_size=1, max_size=3)), fn_meta, quick=96, shards=8,
           rule="the same, with half of the pairs identical",
           what="exchange symmetry, linearity in the correlations, identical populations, correlations as transforms"),
]
