"""C24: halo-centre spectra."""

import warnings

import numpy as np
from hypothesis import strategies as st

from vlib import models as M
from vlib.core import Clause, Violation
from vlib.util import close, ensure, finite, fl, fx, raises

ASSUMPTIONS = [
    "Linear and halofit power on the model's wavenumbers are those of the hmf dependency. Wavenumbers between 1e-3 and 30 h/Mpc.",
    "Averages of the bias over a range of masses are compared for ranges of at least four points of the mass grid.",
]
SCALE = 2.0  # Mpc/h, documented for the filtered spectra


def window(x):
    return 3 * (np.sin(x) - x * np.cos(x)) / x**3


def filtered(p, k, R):
    out = p * window(k * R)
    out[np.cumsum(out <= 0) > 0] = 0
    return out


def want_hc(h, hc):
    """Documented halo-centre spectrum at the wavenumbers of the model (and the variant of the known finding)."""
    k = np.asarray(h.k)
    if hc == "linear":
        return np.array(h.power), None
    if hc == "nonlinear":
        return np.array(h.nonlinear_power), None
    if hc == "filtered-lin":
        return filtered(np.array(h.power), k, SCALE), None
    return filtered(np.array(h.nonlinear_power), k, SCALE), filtered(np.array(h.nonlinear_power), k, 3.0)


def resolve(h, hc, ks, got, note, what):
    want, alt = want_hc(h, hc)
    if alt is not None and np.allclose(got, alt[ks], rtol=1e-3, atol=1e-9 * np.max(alt)) and not np.allclose(got, want[ks], rtol=1e-3, atol=1e-9 * np.max(alt)):
        note.known_finding("filtered-nl")
        return alt
    close(what, got, want[ks], rtol=1e-3, atol=1e-9 * np.max(want))
    return want


def fn_hh(case, note):
    cfg, hc = case["cfg"], case["hc"]
    h = M.dm(cfg, hc_spectrum=hc)
    ks = M.pick_k(h, case["idx"])
    k = h.k[ks]
    sp = M.InterpolatedUnivariateSpline(np.log10(h.m), h.halo_bias)
    l1, l2 = case["lm"]
    b1, b2 = float(sp(l1)), float(sp(l2))
    base = resolve(h, hc, ks, finite("halo power", h.power_hh(k, mmin=l1, mmax=l1)) / b1**2, note, f"{hc} halo-centre spectrum")
    close("two single masses", h.power_hh(k, mmin=l1, mmax=l1, mmin2=l2, mmax2=l2), b1 * b2 * base[ks], rtol=1e-3, atol=1e-9 * np.max(base))
    close("exchanged masses", h.power_hh(k, mmin=l2, mmax=l2, mmin2=l1, mmax2=l1), h.power_hh(k, mmin=l1, mmax=l1, mmin2=l2, mmax2=l2), rtol=1e-12)
    # ranges on the mass grid
    n = len(h.m)
    i = case["lo"] % (n - 30)
    j = i + 4 + case["len"] % (n - i - 5)
    lm = np.log10(h.m)
    mn, mx = lm[i] - 1e-9, lm[j] + 1e-9
    L = np.linspace(np.log(h.m[i]), np.log(h.m[j]), 2001)
    r = M.Ref(h, dict(cfg, prof=dict(name="NFW")))
    x = np.exp(L)
    w = r.n(x) * x
    if w[-1] < 1e-150 or not h.dndm[j] > 0:
        return note.trivial("no halos")
    br = float(np.trapezoid(w * r.b(x), L) / np.trapezoid(w, L))
    close("range of masses", h.power_hh(k, mmin=mn, mmax=mx), br**2 * base[ks], rtol=2e-2, atol=1e-9 * np.max(base))
    close("range and single mass", h.power_hh(k, mmin=mn, mmax=mx, mmin2=l1, mmax2=l1), br * b1 * base[ks], rtol=1e-2, atol=1e-9 * np.max(base))
    full = float(np.sqrt(h.power_hh(k[:1])[0] / base[ks[0]])) if base[ks[0]] > 0 else None
    if full is not None:
        L = np.linspace(np.log(h.m[0]), np.log(h.m[-1]), 3001)
        w = r.n(np.exp(L)) * np.exp(L)
        close("all halos", full, float(np.trapezoid(w * r.b(np.exp(L)), L) / np.trapezoid(w, L)), rtol=1e-2)
    note(hc)


def fn_two(case, note):
    """Every two-halo term is proportional to the spectrum chosen."""
    cfg, hc = case["cfg"], case["hc"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        h = M.tracer(cfg, hc_spectrum=hc)
        g = M.tracer(cfg, hc_spectrum="linear")
    ks = M.pick_k(h, case["idx"])
    k = h.k[ks]
    base = resolve(h, hc, ks, finite("halo power", h.power_hh(k, mmin=13.0, mmax=13.0)) / float(M.InterpolatedUnivariateSpline(np.log10(h.m), h.halo_bias)(13.0)) ** 2, note,
                   f"{hc} halo-centre spectrum")[ks] / np.asarray(g.power)[ks]
    for q in ("power_2h_auto_matter_fnc", "power_2h_auto_tracer_fnc", "power_2h_cross_tracer_matter_fnc"):
        want = getattr(g, q)(k) * base
        close(f"{q} with the {hc} spectrum", getattr(h, q)(k), want, rtol=1e-3, atol=2e-3 * (hc[:4] == "filt") * np.abs(getattr(g, q)(k)) + 1e-9 * np.max(getattr(g, q)(k)))
    h2 = M.tracer(cfg, hc_spectrum="linear")
    h2.power_2h_auto_tracer
    h2.update(hc_spectrum=hc)
    close("spectrum changed afterwards", h2.power_2h_auto_tracer_fnc(k), h.power_2h_auto_tracer_fnc(k), rtol=1e-9, atol=1e-12 * np.max(h.power_2h_auto_tracer_fnc(k)))
    note(hc)


def fn_corr(case, note):
    """The matter correlation functions are Fourier partners of the linear and non-linear spectra."""
    cfg = case["cfg"]
    r = np.sort(10 ** np.array(case["lr"]))
    h = M.dm(cfg, rmin=list(r), dr_table=0.02)
    lin = M.pivot_spline(np.asarray(h.k), np.asarray(h.power), h.n)
    nl = M.pivot_spline(np.asarray(h.k), np.asarray(h.nonlinear_power), h.n)
    x = np.geomspace(1e-4, 500, 40)
    x = x[(x > h.k[0]) & (x < h.k[-1])]
    for name, f, P in (("linear", h.linear_power_fnc, lin), ("nonlinear", h.nonlinear_power_fnc, nl)):
        close(f"{name} power between the table's wavenumbers", f(x), P(x), rtol=5e-3)
        close(f"{name} power below the table", f(h.k[0] / 10), P(h.k[0] / 10), rtol=5e-3)
        close(f"{name} power at the table", f(h.k), P(h.k), rtol=1e-6)
        want = M.xi_ref(P, r)
        env = np.sqrt(np.abs(want) ** 2 + (M.xi_ref(P, [10.0])[0] * (r / 10) ** -2.0) ** 2)
        got = h.corr_linear_mm if name == "linear" else h.corr_halofit_mm
        close(f"{name} matter correlation", got, want, rtol=0, atol=0.04 * env)
        g = h.corr_linear_mm_fnc if name == "linear" else h.corr_halofit_mm_fnc
        close(f"{name} correlation as a function", g(r), got, rtol=1e-9)
    note("z=0" if cfg["z"] == 0 else "z>0")


def fn_invalid(case, note):
    from halomod import DMHaloModel

    raises("unknown spectrum", (ValueError,), lambda: M.dm(dict(hmf="Tinker08"), hc_spectrum=case["bad"]))
    h = M.dm(dict(hmf="Tinker08"))
    raises("unknown spectrum on update", (ValueError,), lambda: h.update(hc_spectrum=case["bad"]))
    note(case["bad"])


HC = st.sampled_from(["linear", "nonlinear", "filtered-lin", "filtered-nl"])
IDX = st.lists(st.integers(0, 200), min_size=1, max_size=5, unique=True)
dm_ = lambda: M.dm_cfg(dlog10m=st.just(0.05))
CLAUSES = [
    Clause("hh", lambda: fx(cfg=dm_(), hc=HC, idx=IDX, lm=st.tuples(fl(10, 15), fl(10, 15)).map(list), lo=st.integers(0, 200), len=st.integers(0, 200)), fn_hh, quick=1000, shards=6,
           rule="random model, spectrum choice, masses and ranges of mass", what="halo-halo power is the product of biases with the documented spectrum"),
    Clause("two_halo", lambda: fx(cfg=M.dm_cfg(hod=st.just(dict(name="Zheng05", params={}, central=True))), hc=HC, idx=IDX), fn_two, quick=300, shards=6,
           rule="random model and spectrum choice", what="every two-halo term uses the chosen spectrum"),
    Clause("corr", lambda: fx(cfg=M.dm_cfg(), lr=st.lists(fl(-1, 1.9), min_size=2, max_size=4, unique=True)), fn_corr, quick=500, shards=6,
           rule="random cosmology and separations", what="matter correlations are Fourier partners of the spectra"),
    Clause("invalid", lambda: fx(bad=st.sampled_from(["", "lin", "Linear", "filtered", "filtered_lin", "halofit", None, 3])), fn_invalid, quick=30, rule="invalid choice", what="invalid choices are refused"),
]
