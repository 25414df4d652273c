"""C13: tracer power spectra."""

import numpy as np
from hypothesis import strategies as st

from checks.c05 import hod_st
from vlib import formulas as F
from vlib import models as M
from vlib.core import Clause
from vlib.util import close, ensure, finite, fl, fx

ASSUMPTIONS = [
    "The mass function, bias, concentrations and matter power of the model are checked elsewhere (hmf, C08, C10). "
    "Wavenumbers between 1e-3 and 30 h/Mpc; an error of one mass-grid cell is allowed at discontinuities of the occupation.",
    "As documented, the two-halo term weighs the total occupation with the tracer profile.",
]


def terms(r, k, with_errors=True):
    """one-halo ss, cs and two-halo weights at each k, each as (value, error)."""
    den = r.density()
    mm = r.mmin
    ss, cs, bt, full = [], [], [], []
    for kk in k:
        lo = r.lowest(kk, mm)
        fs = lambda x: r.n(x) * r.ss(x) * r.u(kk, x, True) ** 2
        fc = lambda x: 2 * r.n(x) * r.cs(x) * r.u(kk, x, True)
        ss.append(r.integral(fs, lo))
        cs.append(r.integral(fc, lo))
        full.append(max(r.integral(fs, mm)[0], 0) + max(r.integral(fc, mm)[0], 0))
        bt.append(r.integral(lambda x: r.n(x) * r.tot(x) * r.b(x) * r.u(kk, x, True), mm))
    d, e = den
    one = lambda a: (np.array([v for v, _ in a]) / d**2, np.array([w + 2 * v * e / d for v, w in a]) / d**2)
    two = (np.array([v for v, _ in bt]) / d, np.array([w + v * e / d for v, w in bt]) / d)
    return one(ss), one(cs), two, np.array(full) / d**2


def fn_power(case, note, numeric=1, **kw):
    cfg = case["cfg"]
    hr = M.tracer_ref(cfg, note, **kw)
    if hr is None:
        return
    h, r = hr
    ks = M.pick_k(h, case["idx"])
    k = h.k[ks]
    tol = 2 * M.prof_tol(r.tprof) * (numeric if r.tprof["name"] in ("Moore", "GeneralizedNFW") else 1)
    (ss, es), (cs, ec), (bt, eb), full = terms(r, k)
    at = 2e-4 * full
    close("satellite-satellite power", h.power_1h_ss_auto_tracer_fnc(k), ss, rtol=tol, atol=at + es)
    close("central-satellite power", h.power_1h_cs_auto_tracer_fnc(k), cs, rtol=tol, atol=at + ec)
    close("one-halo tracer power", h.power_1h_auto_tracer_fnc(k), ss + cs, rtol=tol, atol=at + es + ec)
    phc = M.spectrum(h)[ks]
    two, e2 = bt**2 * phc, 2 * bt * eb * phc
    close("two-halo tracer power", h.power_2h_auto_tracer_fnc(k), two, rtol=tol, atol=e2)
    close("tracer power", h.power_auto_tracer_fnc(k), ss + cs + two, rtol=tol, atol=at + es + ec + e2)
    for q in ("power_1h_ss_auto_tracer", "power_1h_cs_auto_tracer", "power_1h_auto_tracer", "power_2h_auto_tracer", "power_auto_tracer"):
        v = finite(q, getattr(h, q))
        # interpolation in the turnover region can undershoot
        ensure(v.shape == h.k_hm.shape and np.all(v >= -(1e-2 if cfg["force_1halo_turnover"] else 1e-5) * np.max(np.abs(v))), f"{q} is negative or has the wrong length")
        close(f"tabulated {q}", v, getattr(h, q + "_fnc")(h.k_hm), rtol=1e-10)
    close("sum of one-halo terms", h.power_1h_auto_tracer, h.power_1h_ss_auto_tracer + h.power_1h_cs_auto_tracer, rtol=1e-10)
    close("sum of the terms", h.power_auto_tracer, h.power_1h_auto_tracer + h.power_2h_auto_tracer, rtol=1e-10)
    if not r.tprof["name"].endswith("Inf"):
        i = int(np.argmin(np.abs(h.k - 2e-3)))
        close("large scales", float(h.power_2h_auto_tracer_fnc(h.k[i])), float(h.bias_effective_tracer) ** 2 * M.spectrum(h)[i], rtol=5e-3 + 4 * r.density()[1] / r.density()[0])
    note(cfg["hod"]["name"]), note("central condition" if cfg["hod"]["central"] else "independent")
    note("tracer profile of its own" if cfg["tprof"] else "profile of the halos"), note("own concentration" if cfg["tracer_concentration_model"] else "concentration of the halos")
    note("turnover" if cfg["force_1halo_turnover"] else "no turnover"), note(r.tprof["name"])


def fn_tables(case, note):
    """The profile tables entering the integrals, in Fourier and in real space."""
    cfg = case["cfg"]
    h = M.tracer(cfg)
    r = M.Ref(h, cfg, cfg["hod"])
    num = r.tprof["name"] in ("Moore", "GeneralizedNFW")
    ks = M.pick_k(h, case["idx"], hi=8.0 if num else 30.0)
    js = np.unique(np.array(case["mass"]) % len(h.m))
    want = np.array([r.u(kk, h.m[js], True) for kk in h.k[ks]])
    got = np.asarray(h.tracer_profile_ukm)
    ensure(got.shape == (len(h.k), len(h.m)), f"transform table has shape {got.shape}")
    close("transforms of the tracer profiles", got[np.ix_(ks, js)], want, rtol=1e-2 if num else 1e-3, atol=1.2e-2 if num else 1e-4)
    M.check_tables(h, r, case["idx"] + [40, 80], case["mass"], True)
    M.check_tables(h, r, case["idx"], case["mass"][:1], False)
    note(r.tprof["name"]), note("tracer profile of its own" if cfg["tprof"] else "profile of the halos")
    note("own concentration" if cfg["tracer_concentration_model"] else "concentration of the halos")


names = [n for n in F.HOD_DEFAULTS if n != "Leauthaud11"]
hods = lambda: hod_st(["Zehavi05", "Zheng05"] * 2 + names)
CLAUSES = [
    Clause("power", lambda: fx(cfg=M.tracer_cfg(hods()), idx=st.lists(st.integers(0, 200), min_size=1, max_size=4, unique=True)), fn_power, quick=1000, shards=8,
           rule="random cosmology, redshift, mass function, HOD, profiles and concentrations of halos and tracers; non-trivial when tracers exist",
           what="satellite-satellite, central-satellite, two-halo and total tracer power against independent integrals"),
    Clause("tables", lambda: fx(cfg=M.tracer_cfg(hods()), idx=st.lists(st.integers(0, 200), min_size=1, max_size=4, unique=True), mass=st.lists(st.integers(0, 200), min_size=1, max_size=4, unique=True)),
           fn_tables, quick=240, shards=4, rule="random model; all non-trivial", what="tables of transforms, densities and self-convolutions of tracer profiles"),
]
