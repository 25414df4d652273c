"""C15: correlation functions are the Fourier partners of the power spectra."""

import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import InterpolatedUnivariateSpline

from checks.c05 import hod_st
from vlib import formulas as F
from vlib import models as M
from vlib.core import Clause
from vlib.util import close, ensure, finite, fl, fx

ASSUMPTIONS = [
    "One-halo terms of matter, of satellites (profiles with an analytic self-convolution) and of centrals with satellites are "
    "defined by the package less one (1+xi = pairs); this constant is accounted for, the totals have none.",
    "The reference transform is a direct, damped integral of the power functions. Where the package itself transforms "
    "numerically, the error of its transform (checked in C17) around the separation is allowed for, and one-halo terms are "
    "compared only where it is small; dr_table is 0.04 so that the interpolation is not tested by noise.",
    "Power is that with the one-halo turnover switched off when correlations come from self-convolutions, which do not know of it.",
]
EXACT = {"NFW", "Hernquist"}


def base(case):
    cfg = dict(case["cfg"])
    cfg["dr_table"] = 0.04
    cfg["rmin"], cfg["rmax"], cfg["rnum"] = 0.02, 90.0, 8
    return cfg


def has_lam(profile):
    return bool(profile.has_lam)


def one_halo(what, corr, power, r, offset, direct, note):
    """A one-halo correlation function (plus offset) against the transform of the power."""
    got = finite(what, corr(r)) + offset
    if direct:
        want = M.xi_ref(power, r)
        s = np.max([np.abs(M.xi_ref(power, r * f)) for f in (0.7, 1.0, 1.4)], axis=0)
        close(what, got, want, rtol=0.03, atol=1e-2 * s + 2e-4 * np.abs(power(0.1 / r)) / (4 * np.pi / 3 * r**3))
        note("direct " + what)
    else:
        want, s, e = M.xi_and_error(power, r)
        good = e < 0.05 * np.abs(want)
        if good.any():
            close(what, got[good], want[good], rtol=0.05, atol=4 * e[good] + 0.02 * s[good])
            note("transformed " + what)


def two_halo(what, corr, power, r, h=1e-4):
    got = finite(what, corr(r))
    want, s, e = M.xi_and_error(power, r, h=h)
    close(what, got, want, rtol=0.02, atol=0.01 * s + 2 * e + 1e-7)


def tables(h, names):
    for q in names:
        f = getattr(h, q + "_fnc")
        v = finite(q, getattr(h, q))
        ensure(v.shape == h.r.shape, f"{q} has shape {v.shape}")
        close(f"tabulated {q}", v, f(h.r), rtol=1e-9, atol=1e-13)
        # far outside of the table
        finite(f"{q} at any separation", f(np.array([1e-5, 1e-3, 0.9, 200.0, 400.0, 1e4])))


def far(what, f, scale):
    v = finite(what, f(np.array([180.0, 310.0, 330.0, 1000.0])))
    ensure(np.all(np.abs(v) < 0.02 * scale), f"{what} does not vanish far away: {v}")


def radii(case):
    return np.unique(case["r1"]), np.unique(case["r2"])


def fn_matter(case, note):
    cfg = base(case)
    cfg["hc_spectrum"] = case["hc"]
    if cfg["prof"]["name"] in EXACT:
        cfg["lnk_max"] = 9.0  # the power of the smallest halos reaches further
    h = M.dm(cfg)
    direct = has_lam(h.halo_profile)
    r1, r2 = radii(case)
    hp = h.clone(force_1halo_turnover=False) if direct else h
    ends = not cfg["prof"]["name"].endswith("Inf")
    if ends:
        one_halo("one-halo matter correlation", h.corr_1h_auto_matter_fnc, hp.power_1h_auto_matter_fnc, r1, 1.0, direct, note)
    two_halo("two-halo matter correlation", h.corr_2h_auto_matter_fnc, h.power_2h_auto_matter_fnc, r2)
    r = np.concatenate([r1, r2])
    close("sum of the matter terms", h.corr_auto_matter_fnc(r), h.corr_1h_auto_matter_fnc(r) + h.corr_2h_auto_matter_fnc(r) + 1, rtol=1e-9, atol=1e-12)
    tables(h, ["corr_1h_auto_matter", "corr_2h_auto_matter", "corr_auto_matter"])
    if ends:
        far("matter correlation", h.corr_auto_matter_fnc, max(1.0, abs(float(h.corr_auto_matter_fnc(3.0)))))
    p1 = np.asarray(h.corr_1h_auto_matter_fnc(r1)) + 1
    if direct:
        ensure(np.all(p1 >= -1e-9), f"negative one-halo pairs {p1}")
    note(cfg["prof"]["name"]), note(case["hc"])


def fn_tracer(case, note):
    cfg = base(case)
    if (cfg["tprof"] or cfg["prof"])["name"] in EXACT:
        cfg["lnk_max"] = 9.0  # the power of the smallest halos reaches further
    h = M.tracer(cfg)
    den = h.mean_tracer_den
    if den < 1e-15:
        return note.trivial("hardly any tracers")
    direct = has_lam(h.tracer_profile)
    r1, r2 = radii(case)
    hp = h.clone(force_1halo_turnover=False)
    if not (h.tracer_profile.__class__.__name__.endswith("Inf")):
        # a central and its satellites: the density profile, always directly
        if not bool(h.hod.sharp_cut) and np.max(h.hod.cs_pairs(h.m) * h.dndm) > 0:
            one_halo("central-satellite correlation", h.corr_1h_cs_auto_tracer_fnc, hp.power_1h_cs_auto_tracer_fnc, r1, 1.0, True, note)
        if np.max(h.hod.ss_pairs(h.m) * h.dndm) > 0:
            one_halo("satellite-satellite correlation", h.corr_1h_ss_auto_tracer_fnc, (hp if direct else h).power_1h_ss_auto_tracer_fnc, r1, 1.0 if direct else 0.0, direct, note)
    two_halo("two-halo tracer correlation", h.corr_2h_auto_tracer_fnc, h.power_2h_auto_tracer_fnc, r2)
    two_halo("two-halo tracer-matter correlation", h.corr_2h_cross_tracer_matter_fnc, h.power_2h_cross_tracer_matter_fnc, r2, h=0.005)
    if not (h.halo_profile.__class__.__name__.endswith("Inf") or h.tracer_profile.__class__.__name__.endswith("Inf")):
        one_halo("one-halo tracer-matter correlation", h.corr_1h_cross_tracer_matter_fnc, h.power_1h_cross_tracer_matter_fnc, r1, 0.0, False, note)
    r = np.concatenate([r1, r2])
    # the one-halo term is the sum of its parts
    parts = np.asarray(h.corr_1h_cs_auto_tracer_fnc(r1)) + np.asarray(h.corr_1h_ss_auto_tracer_fnc(r1)) + (2.0 if direct else 1.0)
    close("one-halo term and its parts", h.corr_1h_auto_tracer_fnc(r1), parts, rtol=2e-3, atol=1e-3 + 1e-5 * np.max(np.abs(parts)))
    close("sum of the tracer terms", h.corr_auto_tracer_fnc(r), h.corr_1h_auto_tracer_fnc(r) + h.corr_2h_auto_tracer_fnc(r), rtol=1e-9, atol=1e-12)
    close("sum of the cross terms", h.corr_cross_tracer_matter_fnc(r), h.corr_1h_cross_tracer_matter_fnc(r) + h.corr_2h_cross_tracer_matter_fnc(r), rtol=1e-9, atol=1e-12)
    tables(h, [a + b for b in ("auto_tracer", "cross_tracer_matter") for a in ("corr_1h_", "corr_2h_", "corr_")] + ["corr_1h_ss_auto_tracer", "corr_1h_cs_auto_tracer"])
    far("tracer correlation", h.corr_auto_tracer_fnc, max(1.0, abs(float(h.corr_2h_auto_tracer_fnc(3.0)))))
    far("cross correlation", h.corr_cross_tracer_matter_fnc, max(1.0, abs(float(h.corr_2h_cross_tracer_matter_fnc(3.0)))))
    ensure(np.all(np.asarray(h.corr_1h_cs_auto_tracer_fnc(r1)) + 1 >= -1e-9), "negative central-satellite pairs")
    note(cfg["hod"]["name"]), note(h.tracer_profile.__class__.__name__)


def fn_scale(case, note):
    """Two-halo terms with exclusion and scale-dependent bias."""
    import halomod.halo_exclusion as X

    cfg = base(case)
    cfg.update(exclusion_model=case["excl"], sd_bias_model=case["sd"], dr_table=0.06)
    who = case["who"]
    h = M.tracer(cfg)
    if who == "tracer":
        if h.mean_tracer_den < 1e-15:
            return note.trivial("hardly any tracers")
        if h.tracer_mmin is not None:
            return note.trivial("sharp cut with the central condition")
        dens = h.dndm * h.total_occupation / h.mean_tracer_den
        u = h.tracer_profile.u(h.k, h.m)
        corr, power, beff = h.corr_2h_auto_tracer_fnc, h.power_2h_auto_tracer_fnc, h.bias_effective_tracer
        norm = 1.0
    else:
        dens = h.dndm * h.m / h.rho_gtm[0]
        u = h.halo_profile.u(h.k, h.m)
        corr, power, beff = h.corr_2h_auto_matter_fnc, h.power_2h_auto_matter_fnc, h.bias_effective_matter
        norm = None
    r = np.unique(case["r2"])
    sd = np.ones_like(r)
    if case["sd"]:
        xi = np.asarray(h.corr_halofit_mm_fnc(r))
        sd = np.asarray(type(h.sd_bias)(xi).bias_scale())
    bias = h.halo_bias if not case["sd"] else np.outer(sd, h.halo_bias)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        E = getattr(X, case["excl"])(m=h.m, density=dens, power_integrand=dens * u, bias=bias, r=r, halo_density=h.halo_overdensity_mean * h.mean_density0)
        I = np.broadcast_to(np.asarray(E.integrate()), (len(r), len(h.k)))
        dm = np.broadcast_to(np.asarray(E.density_mod, dtype=float), (len(r),))
    if norm is None:
        # normalised to an effective bias of one
        if cfg["force_unity_dm_bias"]:
            b = h.halo_bias if not case["sd"] else h.halo_bias * float(np.asarray(type(h.sd_bias)(np.asarray(h.corr_halofit_mm_fnc(np.array([10**2.5])))).bias_scale())[0])
            from scipy.integrate import simpson
            norm = 1.0 / simpson(dens * b * h.m, x=np.log(h.m)) ** 2
        else:
            norm = 1.0
    phh = M.spectrum(h)
    want, scale, err = [], [], []
    for i, x in enumerate(r):
        p = I[i] * dm[i] * phh * norm
        if case["excl"] == "NoExclusion" and np.all(p > 0):
            f = M.pivot_spline(h.k, p, cfg["n"])
        else:
            sp = InterpolatedUnivariateSpline(np.log(h.k), p)

            def f(kk, sp=sp, p=p):
                y = np.where(kk > h.k[-1], 0.0, sp(np.log(np.clip(kk, h.k[0], h.k[-1]))))
                return np.where(kk < h.k[0], p[0] * (kk / h.k[0]) ** cfg["n"], y)

        w, s, e = M.xi_and_error(f, x, h=1e-4)
        want.append(w[0]), scale.append(s[0]), err.append(e[0])
    got = finite("two-halo correlation", corr(r))
    # interpolation between the tabulated separations where exclusion sets in steeply
    near = np.array([np.max(np.abs(np.asarray(corr(x * np.array([0.75, 0.87, 1.0, 1.15, 1.3]))))) for x in r])
    rng = np.array([np.ptp(np.asarray(corr(x * np.array([0.75, 0.87, 1.0, 1.15, 1.3])))) for x in r])
    wild = case["excl"] in ("NgMatched", "NgMatched_")
    close(f"two-halo correlation with {case['excl']}", got, want, rtol=0.05, atol=0.02 * near + (0.5 if wild else 0.2) * rng * (case["excl"] != "NoExclusion") + 2 * np.array(err) + 1e-6)
    if case["excl"] == "NoExclusion" and case["sd"]:
        none = h.clone(sd_bias_model=None)
        c0 = none.corr_2h_auto_tracer_fnc if who == "tracer" else none.corr_2h_auto_matter_fnc
        f = norm / (1.0 / simpson(dens * h.halo_bias * h.m, x=np.log(h.m)) ** 2) if who != "tracer" and cfg["force_unity_dm_bias"] else 1.0
        close("scale-dependent bias", got, np.asarray(c0(r)) * sd**2 * f, rtol=0.01, atol=1e-3 * near)
    if case["sd"] or case["excl"] != "NoExclusion":
        # the power is the transform of that correlation, and on large scales the biased linear power
        ks = h.k[h.k < 9.9e-3][::9]
        close("two-halo power on large scales", power(ks), beff**2 * np.interp(np.log(ks), np.log(h.k), h.power), rtol=1e-6)
        ks = h.k[(h.k > 0.03) & (h.k < 3)][::7]
        g = np.concatenate([np.geomspace(1e-4, 0.05 / ks[-1], 200, endpoint=False), np.arange(0.05 / ks[-1], 10**2.5, 0.05 / ks[-1])])
        from scipy.integrate import simpson
        y = np.asarray(corr(g)) * g**2
        back = np.array([4 * np.pi * simpson(y * np.sinc(kk * g / np.pi), x=g) for kk in ks])
        sc = np.maximum(np.abs(back), beff**2 * np.interp(np.log(ks), np.log(h.k), h.power))
        close("two-halo power is the transform of the correlation", power(ks), back, rtol=0, atol=0.08 * sc)
        note("back to power")
    note(case["excl"]), note(str(case["sd"])), note(who)


R1 = lambda: st.lists(fl(-1.7, 0.0).map(lambda x: 10.0**x), min_size=2, max_size=4)
R2 = lambda: st.lists(fl(-0.6, 1.85).map(lambda x: 10.0**x), min_size=2, max_size=4)
NAMES = [n for n in F.HOD_DEFAULTS if n not in ("Leauthaud11", "Spinelli19")]
hods = lambda: hod_st(["Zehavi05", "Zheng05", "Zheng05"] * 2 + NAMES)
CLAUSES = [
    Clause("matter", lambda: fx(cfg=M.power_cfg(), hc=st.sampled_from(["linear", "nonlinear", "filtered-lin", "filtered-nl"]), r1=R1(), r2=R2()), fn_matter, quick=150, shards=6,
           rule="random cosmology, redshift, mass function, profile, concentration and spectrum of halo centres",
           what="one- and two-halo matter correlations against transforms of the power; sums, tables and limits"),
    Clause("tracer", lambda: fx(cfg=M.tracer_cfg(hods()), r1=R1(), r2=R2()), fn_tracer, quick=160, shards=8,
           rule="the same for tracer models; non-trivial when tracers exist",
           what="satellite, central-satellite, two-halo and tracer-matter correlations against transforms of the power; sums, tables and limits"),
    Clause("scale", lambda: fx(cfg=M.tracer_cfg(hods(), force_unity_dm_bias=st.booleans(), prof=st.just(dict(name="NFW")), dlog10m=st.just(0.1)), who=st.sampled_from(["matter", "tracer"]),
                               excl=st.sampled_from(["NoExclusion", "Sphere", "DblSphere_", "DblEllipsoid_", "NgMatched_"]), sd=st.sampled_from([None, "TinkerSD05"]), r2=R2(), hc=st.just("linear")),
           fn_scale, quick=100, shards=8,
           rule="two-halo terms with every kind of exclusion and scale-dependent bias, of matter and tracers",
           what="two-halo correlations against the transform of the separation-dependent power"),
]
