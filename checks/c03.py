"""C03: density profiles in real space."""

import numpy as np
from hypothesis import strategies as st

from vlib import formulas as F
from vlib import gen as G
from vlib.core import Clause
from vlib.util import close, ensure, finite, fl, fx, raises, shape

ASSUMPTIONS = [
    "Masses 1e9-1e16 Msun/h, concentrations 0.5-40, redshifts 0-4; radii within 1e-3..3 halo radii.",
    "Masses, densities and radii are comoving; the un-normalised density is in physical units, i.e. "
    "(1+z)^3 times the comoving one (the convention of the code's documentation).",
]
NUM = ("GeneralizedNFW", "GeneralizedNFWInf")


def setup(case):
    cosmo, md = G.cosmology(case["cosmo"]), G.mdef(case["mdef"])
    z = case["z"]
    spec = case["prof"]
    cm = G.PowCM(case["cm"][0], case["cm"][1])
    p = G.make_profile(spec, cosmo, md, z, cm)
    delta, rho0 = G.mdef_density(case["mdef"], cosmo, z)
    return p, spec, cosmo, z, delta, rho0, cm


def ref(spec, m, c, delta, rho0):
    """r_vir (unbloated), r_s, x_edge=c, comoving rho_s per unit mass."""
    rv = (3 * m / (4 * np.pi * delta * rho0)) ** (1 / 3)
    rs = rv * G.bloat(spec, m) / c
    f = F.shape(spec["name"], spec)
    if spec["name"] == "PowerLawWithExpCut":
        h = F.total_mass(f) * np.ones_like(c)
    else:
        h = F.enclosed(f, c)
    return rv, rs, f, h


def tol(spec):
    return 3e-3 if spec["name"] in NUM else 1e-6


def fn_radius(case, note):
    p, spec, cosmo, z, delta, rho0, cm = setup(case)
    m = np.array(case["m"])
    rv = (3 * m / (4 * np.pi * delta * rho0)) ** (1 / 3)
    close("halo radius", p.halo_mass_to_radius(m), rv, rtol=1e-6)
    close("halo mass", p.halo_radius_to_mass(rv), m, rtol=1e-6)
    close("round trip", p.halo_radius_to_mass(p.halo_mass_to_radius(m)), m, rtol=1e-9)
    zz = rho0 * (1 + z) ** 3
    # at_z uses the proper density (in the cosmology, including its radiation content)
    fac = cosmo.Om(z) * (cosmo.efunc(z)) ** 2 / cosmo.Om0
    close("halo radius at z", p.halo_mass_to_radius(m, at_z=True), rv * fac ** (-1 / 3), rtol=1e-6)
    close("round trip at z", p.halo_radius_to_mass(p.halo_mass_to_radius(m, at_z=True), at_z=True), m, rtol=1e-9)
    close("density grows as (1+z)^3", fac, (1 + z) ** 3, rtol=1e-3)
    c = cm.cm(m, z)
    if spec["name"].startswith("Moore"):
        c = (c / 1.7) ** 0.9
    close("concentration", p.cm_relation(m), c, rtol=1e-9)
    close("scale radius", p.scale_radius(m), rv * G.bloat(spec, m) / c, rtol=1e-6)
    close("scale radius at z", p.scale_radius(m, at_z=True), rv * G.bloat(spec, m) / c * fac ** (-1 / 3), rtol=1e-6)
    close("virial velocity", p.virial_velocity(m=m), p.virial_velocity(r=p.halo_mass_to_radius(m)), rtol=1e-9)
    close("virial velocity scaling", p.virial_velocity(m=m) ** 2, 6.673e-11 * m / rv, rtol=1e-5)
    raises("neither mass nor radius", ValueError, lambda: p.virial_velocity())
    close("scalar radius", p.halo_mass_to_radius(float(m[0])), rv[0], rtol=1e-6)
    note(spec["name"]), note(f"z{'>0' if z else '=0'}")


def fn_density(case, note):
    p, spec, cosmo, z, delta, rho0, cm = setup(case)
    m, c = np.array(case["m"]), np.array(case["c"])[: len(case["m"])]
    m = m[: len(c)]
    inf = spec["name"].endswith("Inf") or spec["name"] == "PowerLawWithExpCut"
    how = case["c_from"]
    if how == "relation":
        c = cm.cm(m, z)
        if spec["name"].startswith("Moore"):
            c = (c / 1.7) ** 0.9
        kw = {}
    else:
        kw = {"c": c}
    rv, rs, f, h = ref(spec, m, c, delta, rho0)
    s = np.array(case["s"])  # in units of the profile's edge
    coord = case["coord"]
    edge = rs * c
    if coord == "r":
        r = np.mean(edge) * s
        X = r[:, None] / rs[None, :]
        arg = r
    elif coord == "s":
        arg = s
        X = s[:, None] * c[None, :]
    else:
        # scale-radius units are elementwise: one halo, many radii
        m, c, rs, h = m[:1], c[:1], rs[:1], h[:1]
        kw = {k: c for k in kw}
        arg = s * c[0]
        X = arg[:, None]
    if inf:
        ok = np.ones_like(X, dtype=bool)
    else:
        X = np.where(np.abs(X / c - 1) < 1e-9, X * (1 + 1e-6), X)  # exactly at the edge: either
        ok = X <= c
    want = np.where(ok, f(X) / (4 * np.pi * rs**3 * h), 0.0)
    norm = case["norm"]
    phys = rho0 * cosmo.Om(z) * cosmo.efunc(z) ** 2 / cosmo.Om0  # mean density at z
    if norm is None:
        want = want * m * phys / rho0 / (1.0 if not spec.get("eta_bloat") else 1.0)
        want = want * G.bloat(spec, m) ** 3  # the amplitude is that of the unbloated halo
    elif norm == "rho":
        want = want * m / rho0 * G.bloat(spec, m) ** 3
    scalar = case["scalar"]
    if scalar == "both":
        a, mm = float(arg[0]), float(m[0])
        kk = {k: float(c[0]) for k in kw}
        want = want[0, 0]
    elif scalar == "m" or coord == "x":
        a, mm = arg, float(m[0])
        kk = {k: float(c[0]) for k in kw}
        want = want[:, 0]
    elif scalar == "r":
        a, mm, kk = float(arg[0]), m, kw
        want = want[0, :]
    else:
        a, mm, kk = arg, m, kw
    if scalar == "ints" and coord == "r":
        pass
    if case["aslist"] and np.ndim(a) and coord != "x":
        a = list(a)
    got = p.rho(a, mm, norm=norm, coord=coord, **kk)
    want = np.squeeze(want)
    close(f"density ({coord}, norm={norm})", np.squeeze(got), want, rtol=tol(spec))
    note(spec["name"]), note(f"coord={coord}"), note(f"norm={norm}"), note(f"scalar={scalar}")
    if not np.any(want > 0):
        note.trivial("all outside")


def fn_mass(case, note):
    """Integrate the code's own density: independent of any shape formula."""
    p, spec, cosmo, z, delta, rho0, cm = setup(case)
    m, c = case["m"][0], case["c"][0]
    inf = spec["name"].endswith("Inf") or spec["name"] == "PowerLawWithExpCut"
    rv, rs, f, h = ref(spec, m, np.array(c), delta, rho0)
    x, w = F.radial_nodes(c * rs, 300, 5)
    rho = finite("density", p.rho(x, m, norm="m", c=c))
    ensure(np.all(rho >= 0), "negative density")
    got = np.sum(4 * np.pi * x**2 * rho * w)
    want = F.enclosed(f, c) / h if inf else 1.0
    close("normalised density integrates to one over the halo", got, want, rtol=tol(spec))
    if spec.get("eta_bloat", 0.0) == 0.0:
        mass = np.sum(4 * np.pi * x**2 * p.rho(x, m, c=c) * w)
        fac = cosmo.Om(z) * cosmo.efunc(z) ** 2 / cosmo.Om0
        close("density integrates to the mass", mass / fac, m * want, rtol=tol(spec))
        if z == 0:
            close("density integrates to the mass at z=0", mass, m * want, rtol=tol(spec))
    out = c * rs * np.array([1.0001, 1.5, 30.0])
    ro = finite("density outside", p.rho(out, m, norm="m", c=c))
    if inf:
        ensure(np.all(ro > 0) or spec["name"] == "PowerLawWithExpCut", "untruncated profile must not be cut")
    else:
        ensure(np.all(ro == 0), "truncated profile must vanish outside the halo")
    if p.has_lam and not inf:
        lo = finite("self-convolution outside", p.lam(2 * c * rs * np.array([1.0001, 1.2, 10.0]), m, c=c))
        ensure(np.all(np.abs(lo) < 1e-12 * p.lam(0.5 * c * rs, m, c=c)), "self-convolution must vanish beyond twice the halo radius")
    note(spec["name"]), note("inf" if inf else "trunc")


def fn_cdf(case, note):
    p, spec, cosmo, z, delta, rho0, cm = setup(case)
    m, c = case["m"][0], case["c"][0]
    rv, rs, f, h = ref(spec, m, np.array(c), delta, rho0)
    s = np.sort(np.array(case["s"]))
    s = s[s < 1 - 1e-6]
    s = np.concatenate([s, [1.0]])
    x = s * c
    want = F.enclosed(f, x) / F.enclosed(f, c)
    coord = case["coord"]
    arg = {"r": x * rs, "x": x, "s": s}[coord]
    t = 3e-3 if spec["name"] in NUM else 1e-6
    got = p.cdf(arg, c=c, m=m, coord=coord)
    got = np.squeeze(finite("cdf", got))
    close(f"enclosed mass fraction ({coord})", got, np.squeeze(want), rtol=t, atol=t)
    ensure(np.all(np.diff(np.atleast_1d(got)) >= -1e-9), "cdf must not decrease")
    close("cdf at the edge", np.atleast_1d(got)[-1], 1.0, rtol=1e-6)
    if coord != "r":
        close("cdf from the concentration alone", np.squeeze(p.cdf(arg, c=c, coord=coord)), got, rtol=1e-9)
    else:
        raises("cdf of physical radii without a mass", ValueError, lambda: p.cdf(arg, c=c, coord="r"))
    close("scalar cdf", float(np.squeeze(p.cdf(float(arg[0]), c=c, m=m, coord=coord))), np.atleast_1d(got)[0],
          rtol=t, atol=t)
    if coord != "x":
        mv = np.array(case["m"])
        cv = np.resize(np.array(case["c"]), len(mv))
        _, rsv, _, _ = ref(spec, mv, cv, delta, rho0)
        sv = np.array([0.1, 0.4, 0.9])
        X = np.outer(sv, cv)
        if coord == "r":
            av = sv * np.min(rsv * cv)
            X = av[:, None] / rsv
        else:
            av = sv
        close("cdf of many halos", p.cdf(av, c=cv, m=mv, coord=coord),
              F.enclosed(f, X) / F.enclosed(f, cv), rtol=t, atol=t)
    raises("unknown coordinate", ValueError, lambda: p.cdf(arg, c=c, m=m, coord=case["bad"]))
    note(spec["name"]), note(f"coord={coord}")


base = dict(cosmo=G.cosmo_st, mdef=G.mdef_st, z=st.one_of(st.just(0.0), fl(0.0, 4.0)),
            cm=st.tuples(fl(3, 15), fl(-0.2, 0.0)).map(list))
ms = G.uniq(fl(9, 16).map(lambda x: float(f"{10**x:.6g}")), 4, 4)
cs = st.lists(fl(0.5, 40), min_size=1, max_size=4)
ss = G.uniq(st.one_of(fl(1e-3, 0.999), fl(1.001, 3.0), fl(0.2, 0.9)), 2, 6)
ALL = G.TRUNC + G.INF
CLAUSES = [
    Clause("radius", lambda: fx(prof=G.profile_spec(["NFW", "Moore", "Einasto", "MooreInf", "CoredNFW"]), m=ms, **base),
           fn_radius, quick=400, rule="random cosmology, mass definition, redshift and masses",
           what="mass, radius, scale-radius and velocity conversions"),
    Clause("density", lambda: fx(prof=G.profile_spec(ALL), m=ms, c=cs, s=ss,
                                 coord=st.sampled_from(["r", "r", "s", "x"]),
                                 norm=st.sampled_from(["m", "m", None, "rho"]),
                                 scalar=st.sampled_from(["none", "none", "m", "r", "both"]),
                                 c_from=st.sampled_from(["given", "given", "relation"]),
                                 aslist=st.booleans(), **base),
           fn_density, quick=4000, shards=4,
           rule="random profile, parameters, halos and radii; trivial if every radius is outside",
           what="density equals the published shape with the mass normalisation, for every calling form"),
    Clause("mass", lambda: fx(prof=G.profile_spec(ALL), m=ms, c=cs, **base), fn_mass, quick=2500, shards=4,
           rule="random profile, parameters and halo",
           what="the density returned integrates to the halo mass and is truncated"),
    Clause("cdf", lambda: fx(prof=G.profile_spec([n for n in ALL if n != "PowerLawWithExpCut"]), m=ms, c=cs, s=ss,
                             coord=st.sampled_from(["r", "s", "x"]),
                             bad=st.sampled_from(["", "R", "rs", "kappa"]), **base), fn_cdf, quick=2000, shards=3,
           rule="random profile, parameters, halo and radii", what="cumulative mass fraction"),
]
