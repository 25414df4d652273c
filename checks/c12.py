"""C12: matter power spectra."""

import numpy as np
from hypothesis import strategies as st

from vlib import models as M
from vlib.core import Clause
from vlib.util import close, ensure, finite, fl, fx

ASSUMPTIONS = [
    "The mass function, its cumulative mass density and the linear/halofit power are those of the hmf dependency; bias and "
    "concentrations are checked in C08 and C10. Wavenumbers between 1e-3 and 30 h/Mpc.",
    "With force_1halo_turnover the one-halo integral starts at the documented mass, (4/3) pi rho Delta (pi/10k)^3.",
]


def fn_power(case, note):
    cfg = case["cfg"]
    h = M.dm(cfg, force_unity_dm_bias=case["unity"])
    r = M.Ref(h, cfg, note=note)
    ks = M.pick_k(h, case["idx"])
    k = h.k[ks]
    tol = M.prof_tol(cfg["prof"])
    phc = M.spectrum(h)[ks]
    one = np.array([r.integral(lambda x: r.n(x) * x**2 * r.u(kk, x) ** 2, r.lowest(kk, h.m[0]))[0] for kk in k]) / h.mean_density0**2
    nm = lambda x: r.n(x) * x
    low = r.integral(nm)[0]
    bu = np.array([r.integral(lambda x: nm(x) * r.b(x) * r.u(kk, x))[0] for kk in k])
    b0 = r.integral(lambda x: nm(x) * r.b(x))[0]
    rho = float(h.rho_gtm[0])
    ensure(low <= rho * 1.002, "mass function inconsistent with its own cumulative mass")
    close("mean density", h.mean_density0, r.rho0, rtol=1e-4)
    close("mean density in halos", h.mean_density_in_halos, rho, rtol=1e-9)
    norm = b0 if case["unity"] else rho
    two = (bu / norm) ** 2 * phc
    close("effective bias of matter", float(h.bias_effective_matter), 1.0 if case["unity"] else b0 / rho, rtol=2e-3)
    # sum over a range of masses in which the turnover leaves hardly anything is not compared closely
    big = np.array([r.integral(lambda x: r.n(x) * x**2 * r.u(kk, x) ** 2)[0] for kk in k]) / h.mean_density0**2
    close("one-halo matter power", h.power_1h_auto_matter_fnc(k), one, rtol=2 * tol, atol=1e-4 * big)
    close("two-halo matter power", h.power_2h_auto_matter_fnc(k), two, rtol=2 * tol)
    close("matter power", h.power_auto_matter_fnc(k), one + two, rtol=2 * tol, atol=1e-4 * big)
    for q in ("power_1h_auto_matter", "power_2h_auto_matter", "power_auto_matter"):
        v = finite(q, getattr(h, q))
        ensure(v.shape == h.k_hm.shape and np.all(v >= -(1e-2 if cfg["force_1halo_turnover"] else 0) * np.max(v)), f"{q} is negative or has the wrong length")
        full = np.array([r.lowest(kk, h.m[0]) for kk in h.k_hm]) < 1e14
        ensure(np.all(v[full] > 0), f"{q} is not positive at high wavenumbers")
    close("tabulated total", h.power_auto_matter, h.power_1h_auto_matter + h.power_2h_auto_matter, rtol=1e-10)
    close("tabulated one-halo term", h.power_1h_auto_matter, h.power_1h_auto_matter_fnc(h.k_hm), rtol=1e-10)
    close("tabulated two-halo term", h.power_2h_auto_matter, h.power_2h_auto_matter_fnc(h.k_hm), rtol=1e-10)
    if not cfg["prof"]["name"].endswith("Inf"):
        i = int(np.argmin(np.abs(h.k - 2e-3)))
        close("large scales", float(h.power_2h_auto_matter_fnc(h.k[i])), float(h.bias_effective_matter) ** 2 * M.spectrum(h)[i], rtol=4e-3)
        ensure(np.all(h.power_2h_auto_matter_fnc(k) <= phc * max(1.0, b0 / rho) ** 2 * 1.01), "two-halo power exceeds the biased matter power")
    note(cfg["prof"]["name"]), note("forced unit bias" if case["unity"] else "free bias"), note(cfg["hc_spectrum"])
    note("turnover" if cfg["force_1halo_turnover"] else "no turnover"), note(cfg["hmf"])


def fn_ukm(case, note):
    """The profile tables entering the integrals."""
    cfg = case["cfg"]
    h = M.dm(cfg)
    r = M.Ref(h, cfg, note=note)
    num = cfg["prof"]["name"] in ("Moore", "GeneralizedNFW")
    ks = M.pick_k(h, case["idx"], hi=8.0 if num else 30.0)
    js = np.unique(np.array(case["mass"]) % len(h.m))
    want = np.array([r.u(kk, h.m[js]) for kk in h.k[ks]])
    got = np.asarray(h.halo_profile_ukm)
    ensure(got.shape == (len(h.k), len(h.m)), f"transform table has shape {got.shape}")
    close("transforms of the halo profiles", got[np.ix_(ks, js)], want, rtol=1e-2 if num else 1e-3, atol=1.2e-2 if num else 1e-4)
    M.check_tables(h, r, case["idx"] + [40, 80], case["mass"], False)
    note(cfg["prof"]["name"])


CLAUSES = [
    Clause("power", lambda: fx(cfg=M.power_cfg(), unity=st.booleans(), idx=st.lists(st.integers(0, 200), min_size=1, max_size=4, unique=True)), fn_power, quick=1000, shards=8,
           rule="random cosmology, redshift, mass function, mass range, profile, concentration, spectrum",
           what="one-halo, two-halo and total matter power against independent integrals"),
    Clause("ukm", lambda: fx(cfg=M.power_cfg(), idx=st.lists(st.integers(0, 200), min_size=1, max_size=4, unique=True), mass=st.lists(st.integers(0, 200), min_size=1, max_size=4, unique=True)),
           fn_ukm, quick=300, shards=4, rule="random model", what="tables of the transforms, densities and self-convolutions of the profiles"),
]
