"""C05: halo occupation distributions."""

import numpy as np
from hypothesis import strategies as st

from halomod import hod as H
from vlib import formulas as F
from vlib import gen as G
from vlib.core import Clause
from vlib.util import close, ensure, finite, fl, fx

ASSUMPTIONS = [
    "Halo masses are arrays between 1e8 and 1e16 Msun/h. Number counts of Spinelli19 (and its central "
    "condition) are only defined, and only checked, within its stated range of masses with counts.",
    "The stellar-to-halo-mass inverse of Leauthaud11 is tabulated by the code in 1000 points; 1e-4 relative.",
]


def hod_st(names=None):
    names = names or list(F.HOD_DEFAULTS)

    def one(n):
        d = F.HOD_DEFAULTS[n]
        rng = dict(
            M_min=fl(9.5, 13.5), M_1=fl(11.5, 14.5), alpha=fl(0.3, 1.8), M_0=fl(9.5, 13), sig_logm=fl(0.05, 1.0),
            fca=fl(0, 0.5), fcb=fl(0, 1), fs=fl(0.1, 3), delta=fl(0.2, 2), x=fl(0.3, 2), M_cut=fl(10.5, 13.5),
            M_max=fl(13.6, 16), logA=fl(-3, 10), sigma_A=fl(0, 3),
        )
        if n == "Spinelli19":
            rng = dict(a1=fl(1e-4, 1e-2), a2=fl(1e-5, 1e-3), alpha=fl(0.2, 1), beta=fl(0.1, 0.8), M_break=fl(10.5, 12.5),
                       M_1=fl(-3, 10), M_0=fl(7, 9.5), M_break_sat=fl(10.8, 12.5), alpha_sat=fl(0.3, 1.2),
                       beta_sat=fl(0.5, 1.4), M_1_counts=fl(12, 14), alpha_counts=fl(0.5, 1.5),
                       M_min_counts=fl(9.5, 12), M_max_counts=fl(14, 16))
        if n == "Leauthaud11":
            rng = dict(redshift=fl(0, 1.5), sm_thresh=fl(8.5, 11.3), smhm_m0_0=fl(10.4, 11), smhm_m0_a=fl(-.5, .5),
                       smhm_m1_0=fl(12, 12.7), smhm_m1_a=fl(-.5, .5), smhm_beta_0=fl(0.35, 0.6), smhm_beta_a=fl(-.1, .2),
                       smhm_delta_0=fl(0.4, 0.7), smhm_delta_a=fl(-.2, .2), smhm_gamma_0=fl(1, 2), smhm_gamma_a=fl(-.5, .5),
                       sig_logmstar=fl(0.15, 0.35), alphasat=fl(0.6, 1.4), betasat=fl(0.5, 1.2), bsat=fl(5, 15),
                       betacut=fl(-.5, .8), bcut=fl(0.5, 4))
        keys = [k for k in rng if k in d]
        return fx(name=st.just(n), params=st.fixed_dictionaries({}, optional={k: rng[k] for k in keys}))

    return st.one_of([one(n) for n in names])


def make(case):
    return getattr(H, case["hod"]["name"])(central=case["central"], **case["hod"]["params"])


def masses(case):
    occ = F.Occupation(case["hod"]["name"], case["hod"]["params"], case["central"])
    p = occ.p
    lm = list(case["lm"])
    # around every characteristic mass (both sides of every step), up to rounding of 10**x
    for key, off in case["near"]:
        if key in p and 8 < p[key] < 16:
            lm.append(p[key] + off)
    if occ.name == "Spinelli19" and (occ.cond or case.get("counts")):
        lm = [min(max(x, p["M_min_counts"] + 1e-6), p["M_max_counts"] - 1e-6) for x in lm]
    lm = np.array(lm)
    edges = [p[k] for k in ("M_min", "M_max", "M_0", "M_min_counts", "M_max_counts") if k in p] + [11.0]
    for e in edges:  # the exact edge depends on rounding
        lm = np.where(np.abs(lm - e) < 1e-9, e + 1e-6, lm)
    if case["sort"]:
        lm = np.sort(lm)
    return occ, 10.0**lm


def tol(occ):
    # the tabulated inverse relation enters an error function whose tail amplifies its error
    return dict(rtol=2e-3, atol=1e-5) if occ.name == "Leauthaud11" else dict(rtol=1e-9)


def fn_occ(case, note):
    occ, m = masses(case)
    h = make(case)
    keep = m.copy()
    t = tol(occ)
    full = lambda x: np.broadcast_to(np.asarray(x, dtype=float), m.shape)  # bulk models return plain zeros
    cen, sat = occ.cen(m), occ.sat(m)
    sc = np.max(np.abs(sat)) if occ.name == "Leauthaud11" else 0
    tt = dict(t, atol=t.get("atol", 0) * max(1, sc))
    close("central occupation", full(h.central_occupation(m)), cen, **t)
    close("satellite occupation", full(h.satellite_occupation(m)), sat, **tt)
    close("total occupation", full(h.total_occupation(m)), cen + sat, **tt)
    tt2 = dict(rtol=2 * t["rtol"], atol=3 * tt["atol"] * max(1, sc))
    close("satellite-satellite pairs", full(h.ss_pairs(m)), sat**2, **tt2)
    close("central-satellite pairs", full(h.cs_pairs(m)), occ.cs(m), **tt2)
    close("total pairs", full(h.total_pair_function(m)), sat**2 + occ.cs(m), **tt2)
    for w, x in [("central", h.central_occupation(m)), ("satellite", h.satellite_occupation(m))]:
        ensure(np.all(np.asarray(x) >= -1e-12), f"negative {w} occupation")
    ensure(np.array_equal(m, keep), "the masses passed in were changed")
    if occ.sharp:
        below = m < 10 ** occ.p["M_min"]
        ensure(np.all(full(h.central_occupation(m))[below] == 0), "centrals below a sharp minimum mass")
        if occ.cond or occ.name in ("Tinker05", "ContinuousPowerLaw"):
            ensure(np.all(full(h.satellite_occupation(m))[below] == 0), "satellites below a sharp minimum mass")
            note("below minimum" if below.any() else "above minimum")
    ensure(bool(h.sharp_cut) == occ.sharp, "sharp-cut flag")
    note(occ.name), note(f"central={case['central']}")


def fn_counts(case, note):
    case = dict(case, counts=True)
    occ, m = masses(case)
    h = make(case)
    full = lambda x: np.broadcast_to(np.asarray(x, dtype=float), m.shape)
    if occ.name in F.BULK:
        for w, x in [("nc", h.nc(m)), ("ns", h.ns(m)), ("sigma_central", h.sigma_central(m))]:
            close(w, full(x), np.zeros_like(m), atol=0)
        close("sigma_satellite", full(h.sigma_satellite(m)), np.full_like(m, occ.p["sigma_A"]), rtol=1e-12)
        return note(occ.name)
    t = tol(occ)
    nc, ns = occ.nc(m), occ.sat(m) / occ.per_satellite(m)
    close("mean number of centrals", full(h.nc(m)), nc, **t)
    close("mean number of satellites", full(h.ns(m)), ns, rtol=t["rtol"], atol=t.get("atol", 0) * max(1, np.max(ns)))
    if occ.name not in ("Spinelli19", "Zehavi05Marked", "Contreras13", "Geach12"):
        ensure(np.all((full(h.nc(m)) >= 0) & (full(h.nc(m)) <= 1 + 1e-12)), "mean number of centrals outside [0, 1]")
        close("sigma of the satellites", full(h.sigma_satellite(m)) ** 2, occ.sat(m), rtol=2 * t["rtol"],
              atol=t.get("atol", 0) * max(1, np.max(ns)))
        close("sigma of the centrals", full(h.sigma_central(m)) ** 2, nc * (1 - nc), rtol=2 * t["rtol"], atol=max(1e-9, 2 * t.get("atol", 0)))
    note(occ.name), note(f"central={case['central']}")


def fn_relations(case, note):
    """Relations which need no formula."""
    occ, m = masses(case)
    n, p = occ.name, dict(case["hod"]["params"])
    h = make(case)
    a, b = case["shift"]
    full = lambda x: np.broadcast_to(np.asarray(x, dtype=float), m.shape)
    # elementwise, order independent
    perm = np.argsort(np.sin(np.arange(len(m)) * 7.3))
    for w in ("central_occupation", "satellite_occupation", "ss_pairs", "cs_pairs"):
        f = getattr(h, w)
        x = full(f(m))
        close(f"{w}: order of masses", full(f(m[perm])), x[perm], rtol=1e-9, atol=1e-14)
        one = np.array([np.ravel(f(m[i : i + 1]))[0] for i in range(len(m))], dtype=float)
        close(f"{w}: one mass at a time", one, x, rtol=1e-9, atol=1e-14)
        mi = np.round(m[m < 9e15]).astype(np.int64)
        if len(mi):
            close(f"{w}: integer masses", np.broadcast_to(f(mi), mi.shape), np.broadcast_to(f(mi.astype(float)), mi.shape), rtol=1e-9, atol=1e-14)
    if "logA" in occ.p:
        h2 = getattr(H, n)(central=case["central"], **{**p, "logA": occ.p["logA"] + a})
        f = 10**a
        close("total scales with logA", full(h2.total_occupation(m)), f * full(h.total_occupation(m)), rtol=1e-9)
        close("pairs scale with logA", full(h2.total_pair_function(m)), f**2 * full(h.total_pair_function(m)), rtol=1e-9)
        if n == "Zehavi05Marked":
            close("counts do not depend on logA", full(h2.nc(m)), full(h.nc(m)), rtol=1e-9)
            close("counts do not depend on logA", full(h2.ns(m)), full(h.ns(m)), rtol=1e-9)
        note("logA")
    mass_keys = {"Zehavi05": ["M_min", "M_1"], "Zheng05": ["M_min", "M_1", "M_0"], "Contreras13": ["M_min", "M_1"],
                 "Geach12": ["M_min", "M_1"], "Tinker05": ["M_min", "M_1", "M_cut"], "Zehavi05WithMax": ["M_min", "M_1", "M_max"],
                 "Zehavi05Marked": ["M_min", "M_1", "M_max"], "ContinuousPowerLaw": ["M_min", "M_1", "M_max"],
                 "Constant": ["M_min"]}.get(n)
    if mass_keys:
        # every mass scaled together: the occupation follows
        h3 = getattr(H, n)(central=case["central"], **{**p, **{k: occ.p[k] + b for k in mass_keys}})
        far = np.min(np.abs(np.log10(m)[:, None] - np.array([occ.p[k] for k in mass_keys])), axis=1) > 1e-7
        for w in ("central_occupation", "satellite_occupation", "cs_pairs"):
            close(f"{w}: masses in other units", full(getattr(h3, w)(m * 10**b))[far], full(getattr(h, w)(m))[far], rtol=1e-6, atol=1e-12)
        note("units")
    if n == "Geach12":
        c = H.Contreras13(central=case["central"], **p)
        close("Geach12 is Contreras13", h.total_occupation(m), c.total_occupation(m), rtol=1e-12)
    if n == "Zehavi05":
        w = H.Zehavi05WithMax(central=case["central"], M_max=17.5, **p)
        close("no maximum mass", w.total_occupation(m), h.total_occupation(m), rtol=1e-12)
        cp = H.ContinuousPowerLaw(M_max=17.5, **p)
        hc = H.Zehavi05(central=True, **p)
        close("continuous form", cp.total_occupation(m), hc.total_occupation(m), rtol=1e-9)
    if n == "Leauthaud11":
        ls = np.array(case["ls"])
        lh = np.asarray(h.mean_log_halo_mass(ls))
        close("halo mass at a stellar mass", lh, [F.behroozi_log_mh(occ.p, x) for x in ls], rtol=1e-10)
        close("stellar mass inverts halo mass", h.mean_log_stellar_mass(10**lh), ls, rtol=1e-4)
        close("derived minimum mass", h.params["M_min"], F.behroozi_log_mh(occ.p, occ.p["sm_thresh"]), rtol=1e-10)
        close("derived minimum mass", h.mmin, F.behroozi_log_mh(occ.p, occ.p["sm_thresh"]), rtol=1e-10)
    elif n == "Zheng05":
        # nothing of note lives below the integration minimum
        mm = 10 ** float(h.mmin)
        ensure(float(h.central_occupation(np.array([mm]))[0]) < 1e-3, "centrals below the suggested minimum mass")
    elif n == "Contreras13" or n == "Geach12":
        pass
    else:
        close("minimum mass", h.mmin, occ.p["M_min"], rtol=1e-12)
    note(n)


def fn_units(case, note):
    """Conversion of HI mass density to brightness temperature; every other tracer has none."""
    cosmo = G.cosmology(case["cosmo"])
    z = case["z"]
    h = getattr(H, case["name"])()
    got = h.unit_conversion(cosmo, z)
    if case["name"] != "Spinelli19":
        close("unit conversion", got, 1.0)
        return note("none")
    hpl, c, kb, mp, me = 6.62607015e-34, 299792458.0, 1.380649e-23, 1.67262192595e-27, 9.1093837139e-31
    A12, nu, Mpc, Msun = 2.869e-15, 1.42e9, 3.0856775814913673e22, 1.988409870698051e30
    H0 = cosmo.H0.value
    Hz = H0 * cosmo.efunc(z) * 1e3 / Mpc
    want = 3 * A12 * hpl * c**3 / (32 * np.pi * (mp + me) * kb * nu**2) * (1 + z) ** 2 / Hz
    want *= Msun / (Mpc / (H0 / 100)) ** 3
    close("HI brightness temperature", float(got), want, rtol=1e-5)
    note("HI")


keys = ["M_min", "M_max", "M_0", "M_1", "M_min_counts", "M_max_counts", "M_break", "M_cut"]
offs = st.one_of(st.sampled_from([1e-6, -1e-6, 1e-3, -1e-3]), fl(-0.5, 0.5))
base = dict(hod=hod_st(), central=st.booleans(), lm=st.lists(fl(8.0, 16.0), min_size=1, max_size=8),
            near=st.lists(st.tuples(st.sampled_from(keys), offs).map(list), max_size=5), sort=st.booleans())
CLAUSES = [
    Clause("occupation", lambda: fx(**base), fn_occ, quick=6000, shards=4,
           rule="random HOD, parameters, central condition and masses around its edges",
           what="occupation and pair counts equal the published forms"),
    Clause("counts", lambda: fx(**base), fn_counts, quick=4000, shards=3, rule="as occupation, with number counts",
           what="number counts and scatter"),
    Clause("relations", lambda: fx(shift=st.tuples(fl(-2, 2), fl(-1, 1)).map(list), ls=st.lists(fl(6, 12), min_size=1, max_size=4), **base),
           fn_relations, quick=3000, shards=3, rule="as occupation", what="formula-free relations: order, scaling of masses and amounts, special cases, derived masses"),
    Clause("units", lambda: fx(name=st.sampled_from(["Spinelli19", "Spinelli19", *F.HOD_DEFAULTS]), cosmo=G.cosmo_st, z=fl(0, 6)), fn_units, quick=600,
           rule="random cosmology and redshift", what="unit conversion of the tracer"),
]
