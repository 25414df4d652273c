"""C14: tracer-matter cross power."""

import numpy as np
from hypothesis import strategies as st

from halomod import hod as H
from vlib import formulas as F
from vlib import models as M
from vlib.core import Clause
from vlib.util import close, ensure, finite, fl, fx
from checks.c13 import hods

ASSUMPTIONS = [
    "The mass function, bias, concentrations and matter power of the model are checked elsewhere (hmf, C08, C10). "
    "Wavenumbers between 1e-3 and 30 h/Mpc; an error of one mass-grid cell is allowed at discontinuities of the occupation.",
]


def fn_power(case, note):
    cfg = case["cfg"]
    hr = M.tracer_ref(cfg, note)
    if hr is None:
        return
    h, r = hr
    ks = M.pick_k(h, case["idx"])
    k = h.k[ks]
    tol = M.prof_tol(r.tprof) + M.prof_tol(r.prof)
    d, e = r.density()
    mm = r.mmin
    W = lambda kk: lambda x: r.cen(x) + r.sat(x) * r.u(kk, x, True)
    one, e1, two, e2 = [], [], [], []
    phc = M.spectrum(h)[ks]
    for kk, p in zip(k, phc):
        w = W(kk)
        v, er = r.integral(lambda x: r.n(x) * x * r.u(kk, x) * w(x), mm)
        one.append(v), e1.append(er + v * e / d)
        bt, eb = r.integral(lambda x: r.n(x) * r.b(x) * w(x), mm)
        bm = r.integral(lambda x: r.n(x) * r.b(x) * x * r.u(kk, x))[0]
        two.append(bt * bm * p), e2.append((eb + bt * e / d) * bm * p)
    norm = d * h.mean_density0
    one, e1, two, e2 = (np.array(a) / norm for a in (one, e1, two, e2))
    close("one-halo cross power", h.power_1h_cross_tracer_matter_fnc(k), one, rtol=tol, atol=e1)
    close("two-halo cross power", h.power_2h_cross_tracer_matter_fnc(k), two, rtol=tol, atol=e2)
    close("cross power", h.power_cross_tracer_matter_fnc(k), one + two, rtol=tol, atol=e1 + e2)
    for q in ("power_1h_cross_tracer_matter", "power_2h_cross_tracer_matter", "power_cross_tracer_matter"):
        v = finite(q, getattr(h, q))
        ensure(v.shape == h.k_hm.shape and np.all(v >= -1e-5 * np.max(v)), f"{q} is negative or has the wrong length")
        close(f"tabulated {q}", v, getattr(h, q + "_fnc")(h.k_hm), rtol=1e-10)
    close("sum of the terms", h.power_cross_tracer_matter, h.power_1h_cross_tracer_matter + h.power_2h_cross_tracer_matter, rtol=1e-10)
    if not r.prof["name"].endswith("Inf") and not r.tprof["name"].endswith("Inf"):
        i = int(np.argmin(np.abs(h.k - 2e-3)))
        bm = r.integral(lambda x: r.n(x) * r.b(x) * x)[0] / h.mean_density0
        close("large scales", float(h.power_2h_cross_tracer_matter_fnc(h.k[i])), float(h.bias_effective_tracer) * bm * M.spectrum(h)[i], rtol=5e-3 + 2 * e / d)
    note(cfg["hod"]["name"]), note("central condition" if cfg["hod"]["central"] else "independent")
    note("tracer profile of its own" if cfg["tprof"] else "profile of the halos"), note("own concentration" if cfg["tracer_concentration_model"] else "concentration of the halos")


class MassTracer(H.HODBulk):
    """A smooth tracer proportional to the halo mass."""

    _defaults = {"A": 1e-12, "M_min": 0.0}
    sharp_cut = False

    def _satellite_occupation(self, m):
        return self.params["A"] * m

    def sigma_satellite(self, m):
        return np.zeros_like(m)


def fn_mass(case, note):
    """A tracer of the mass itself."""
    cfg = {k: v for k, v in case["cfg"].items() if k not in ("hod", "tprof", "tracer_concentration_model")}
    cfg["force_1halo_turnover"] = False
    h = M.tracer(cfg, hod_model=MassTracer, hod_params=dict(A=case["A"]), force_unity_dm_bias=False)
    ks = M.pick_k(h, case["idx"])
    k = h.k[ks]
    f = float(h.mean_tracer_den) / case["A"] / h.mean_density0  # share of the matter in the halos considered
    r = M.Ref(h, cfg)
    close("density", f * h.mean_density0, r.integral(lambda x: r.n(x) * x)[0], rtol=1e-3)
    one = h.power_1h_auto_matter_fnc(k)
    close("one-halo cross and matter power", h.power_1h_cross_tracer_matter_fnc(k) * f, one, rtol=1e-3)
    close("one-halo tracer and matter power", h.power_1h_auto_tracer_fnc(k) * f**2, one, rtol=1e-3)
    two = h.power_2h_auto_matter_fnc(k) * (h.mean_density_in_halos / h.mean_density0) ** 2
    close("two-halo cross and matter power", h.power_2h_cross_tracer_matter_fnc(k) * f, two, rtol=4e-3)
    close("two-halo tracer and matter power", h.power_2h_auto_tracer_fnc(k) * f**2, two, rtol=4e-3)
    note(cfg["prof"]["name"])


CLAUSES = [
    Clause("power", lambda: fx(cfg=M.tracer_cfg(hods()), idx=st.lists(st.integers(0, 200), min_size=1, max_size=4, unique=True)), fn_power, quick=400, shards=8,
           rule="random cosmology, redshift, mass function, HOD, profiles and concentrations of halos and tracers; non-trivial when tracers exist",
           what="one-halo, two-halo and total cross power against independent integrals"),
    Clause("mass", lambda: fx(cfg=M.power_cfg(dlog10m=st.just(0.05)), A=fl(-14, -8).map(lambda x: 10**x), idx=st.lists(st.integers(0, 200), min_size=1, max_size=4, unique=True)), fn_mass,
           quick=120, shards=4, rule="random model with a tracer proportional to halo mass", what="cross, tracer and matter spectra of the same mass coincide"),
]
