"""C06: summary statistics of the tracers."""

import numpy as np
from hypothesis import strategies as st

from checks.c05 import hod_st
from vlib import formulas as F
from vlib import models as M
from vlib.core import Clause
from vlib.util import close, ensure, finite, fl, fx

ASSUMPTIONS = [
    "The mass function and halo bias of the model are those checked elsewhere (hmf, C08). Where an occupation is "
    "discontinuous inside the mass grid, an error of one grid cell times the jump is allowed.",
    "Spinelli19 counts exist in its stated range of masses only: its central condition is not checked in models.",
]


def fn_stats(case, note):
    cfg = case["cfg"]
    h = M.tracer(cfg, hod_model=case["hod"]["name"], hod_params={**case["hod"]["params"], **({"central": True} if case["central"] else {})},
                 dlog10m=case["dlog10m"])
    hod = dict(case["hod"], central=case["central"])
    r = M.Ref(h, cfg, hod)
    o, m = r.occ, h.m
    n = o.name
    rt = 1e-4 if n == "Leauthaud11" else 1e-9
    close("central occupation", h.central_occupation, o.cen(m), rtol=rt, atol=1e-12, same_shape=n not in F.BULK)
    close("satellite occupation", h.satellite_occupation, o.sat(m), rtol=rt, atol=1e-12, same_shape=n not in F.BULK)
    close("total occupation", h.total_occupation, o.tot(m), rtol=rt, atol=1e-12, same_shape=n not in F.BULK)
    close("tracer density per mass", h.tracer_density_m, o.tot(m) * h.dndm, rtol=rt, atol=1e-9 * np.max(o.tot(m) * h.dndm), same_shape=False)
    den = r.density()
    lo = r.mmin
    tol = 2e-3

    def chk(what, got, want):
        v, e = want
        close(what, float(got), v, rtol=tol, atol=e + 1e-300)

    if den[0] <= 1e-15 or den[1] > 0.3 * den[0]:
        return note.trivial("hardly any tracers")
    chk("mean tracer density", h.mean_tracer_den, den)
    sat = r.integral(lambda x: r.n(x) * r.sat(x), lo)
    bn = r.integral(lambda x: r.n(x) * r.tot(x) * r.b(x), lo)
    mn = r.integral(lambda x: r.n(x) * r.tot(x) * x, lo)
    chk("effective bias", h.bias_effective_tracer, r.ratio(bn, den))
    v, e = r.ratio(mn, den)
    close("effective mass", h.mass_effective, np.log10(v), rtol=0, atol=(tol + e / v) / np.log(10) * 1.3)
    fs = r.ratio(sat, den)
    close("satellite fraction", h.satellite_fraction, fs[0], rtol=tol, atol=fs[1] + 1e-6)
    close("fractions sum to one", h.satellite_fraction + h.central_fraction, 1.0, rtol=1e-12)
    ensure(-1e-9 <= h.satellite_fraction <= 1 + (1e-9 if not fs[1] else fs[1] + tol), f"satellite fraction {h.satellite_fraction}")
    ensure(h.halo_bias.min() * (1 - tol) <= h.bias_effective_tracer <= h.halo_bias.max() * (1 + tol), "effective bias outside the range of halo biases")
    conv = 1.0
    if n in ("Spinelli19", "Constant", "ContinuousPowerLaw") or n == "Zehavi05Marked":
        conv = None  # a unit conversion specific to the tracer, see C05
    unit = float(h.mean_tracer_den_unit)
    want = float(h.mean_tracer_den) * float(h.hod.unit_conversion(h.cosmo, h.z))
    close("density in the units of the HOD", unit, want, rtol=1e-10)
    if conv is not None:
        close("galaxies have no unit conversion", unit, float(h.mean_tracer_den), rtol=1e-12)
    note(n), note("central condition" if case["central"] else "independent"), note("steps" if den[1] > 1e-3 * den[0] else "smooth")


def fn_meta(case, note):
    """Redundant changes of the mass grid leave the statistics as they are."""
    cfg, hod = case["cfg"], dict(case["hod"], central=case["central"])
    kw = dict(hod_model=hod["name"], hod_params={**hod["params"], **({"central": True} if case["central"] else {})})
    base = M.tracer(cfg, dlog10m=0.05, **kw)
    what = case["what"]
    if what == "finer":
        other = M.tracer(cfg, dlog10m=0.02, **kw)
    elif what == "shifted":
        other = M.tracer(cfg, dlog10m=0.05, Mmin=8.0 + case["shift"], **kw)
    else:
        other = M.tracer(cfg, dlog10m=0.05, Mmax=16.5 + case["shift"], **kw)
    r = M.Ref(base, cfg, hod)
    low = M.Ref(other, cfg, hod)
    den = r.density()
    if den[0] <= 1e-15:
        return note.trivial("no tracers")
    if what == "shifted" and abs(low.integral(lambda x: low.n(x) * low.tot(x), low.mmin)[0] / den[0] - 1) > 2e-4:
        return note.trivial("tracers below the smaller grid")
    e = 2 * den[1] / den[0]
    if e > 0.1:
        return note.trivial("hardly any tracers")
    for q in ("mean_tracer_den", "bias_effective_tracer", "mass_effective", "satellite_fraction", "central_fraction"):
        close(f"{q} with a {what} mass grid", float(getattr(other, q)), float(getattr(base, q)), rtol=2e-3 + 2 * e, atol=(2e-3 + 2 * e) if "fraction" in q else 0)
    note(what), note(case["hod"]["name"])


names = [n for n in F.HOD_DEFAULTS]
cheap = [n for n in names if n != "Leauthaud11"]
CLAUSES = [
    Clause("stats", lambda: fx(cfg=M.dm_cfg(), hod=hod_st(cheap * 3 + ["Leauthaud11"]), central=st.booleans(), dlog10m=st.sampled_from([0.01, 0.02, 0.05])).filter(
        lambda c: not (c["central"] and c["hod"]["name"] == "Spinelli19")),
           fn_stats, quick=3000, shards=8, rule="random cosmology, mass function, HOD; non-trivial when a positive density results",
           what="occupations, densities, effective bias and mass, fractions against independent integrals"),
    Clause("grid", lambda: fx(cfg=M.dm_cfg(), hod=hod_st(["Zehavi05", "Zheng05", "Contreras13", "Tinker05"]), central=st.booleans(), what=st.sampled_from(["finer", "shifted", "further"]), shift=fl(0, 1)),
           fn_meta, quick=500, shards=6, rule="random model and change of grid", what="finer, longer and shifted mass grids change nothing"),
]
