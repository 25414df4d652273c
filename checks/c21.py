"""C21: mock populations of halo catalogues."""

import numpy as np
from hypothesis import strategies as st

from checks.c05 import hod_st
from vlib import formulas as F
from vlib import gen as G
from vlib import models as M
from vlib.core import Clause, Violation
from vlib.util import close, ensure, finite, fl, fx, shape

ASSUMPTIONS = [
    "Catalogues of up to 4000 halos between 1e9 and 3e15 Msun/h, smaller than half the periodic box; galaxies rather than "
    "amounts of tracer are placed, so HODs of unresolved tracers are not sampled; mean numbers of centrals are at most one.",
    "Statistical tests have thresholds which a correct sampler exceeds with probability below 1e-9 per test.",
    "Radial fractions have errors below 3e-3 from the inverted table of the enclosed mass.",
]
HODS = ["Zehavi05", "Zheng05", "Contreras13", "Geach12", "Tinker05", "Zehavi05WithMax", "Zehavi05Marked", "Leauthaud11"]
SIG = 6.5


class Enclosed:
    """Enclosed mass of a profile in units of its scale radius."""

    def __init__(self, spec, cmax):
        f = F.shape(spec["name"], spec)
        x = np.concatenate([[0], np.geomspace(1e-4 * cmax, cmax * (1 + 1e-9), 500)])
        t, w = F.gl(8)
        q = x[:-1, None] + np.diff(x)[:, None] * t
        q[0] = x[1] * t**4  # cusp at the centre
        g = f(q) * q**2 * w * np.diff(x)[:, None]
        g[0] = f(q[0]) * q[0] ** 2 * w * x[1] * 4 * t**3
        self.x, self.h = x, np.concatenate([[0], np.cumsum(g.sum(axis=1))])
        self.s = M.InterpolatedUnivariateSpline(np.log(x[1:]), np.log(self.h[1:]))

    def __call__(self, x):
        return np.exp(self.s(np.log(np.clip(x, self.x[1] * 1e-6, None))))


def counts(what, got, mean):
    """A Poisson (or less dispersed) number with this mean."""
    ensure(abs(got - mean) <= SIG * np.sqrt(mean) + 7, f"{what}: {got}, expected {mean:.3f} on average")


def judge(pos, halo, H, centres, masses, occ, cond, spec, edge, conc, note, box=None):
    """All relations between one mock and the catalogue from which it was drawn."""
    n = len(masses)
    pos = finite("positions", pos)
    ensure(pos.ndim == 2 and pos.shape[1] == 3, f"positions have shape {pos.shape}")
    halo = np.asarray(halo)
    ensure(halo.shape == (len(pos),) and np.issubdtype(halo.dtype, np.integer), f"halo indices have shape {halo.shape} and type {halo.dtype}")
    ensure(int(H) == H and 0 <= H <= len(pos), f"number of centrals {H}")
    ensure(len(halo) == 0 or (halo.min() >= 0 and halo.max() < n), "galaxies of halos which do not exist")
    ensure(len(np.unique(halo[:H])) == H, "more than one central in a halo")
    close("centrals at the centres", pos[:H], centres[halo[:H]], rtol=1e-12, atol=1e-12)
    # numbers
    ncm = np.minimum(occ.nc(masses), 1.0) if n else np.zeros(0)
    nsm = occ.sat(masses) / np.where(occ.per_satellite(masses) == 0, 1, occ.per_satellite(masses)) if n else np.zeros(0)
    has = np.zeros(n, dtype=bool)
    has[halo[:H]] = True
    sat = np.bincount(halo[H:], minlength=n) if n else np.zeros(0, dtype=int)
    # right on a sharp step of the occupation, rounding decides
    edges = [10 ** occ.p[k] for k in ("M_min", "M_max") if k in occ.p]
    clear = np.all([np.abs(masses / e - 1) > 1e-9 for e in edges], axis=0) if edges and n else np.ones(n, dtype=bool)
    if cond:
        ensure(not np.any(sat[clear & ~has] > 0), "satellites in halos without central")
        with np.errstate(all="ignore"):
            lam = np.where(has & (ncm > 0), nsm / np.where(ncm > 0, ncm, 1), 0.0)
    else:
        lam = nsm
    ensure(not np.any(has[clear & (ncm == 0)]), "centrals where there are none on average")
    ensure(np.all(has[clear & (ncm == 1)]), "halos which always have a central have none")
    ensure(not np.any(sat[clear & (lam == 0)] > 0), "satellites where there are none on average")
    order = np.argsort(masses, kind="stable")
    groups = [("all halos", np.arange(n))] + ([(f"mass range {i}", g) for i, g in enumerate(np.array_split(order, 3))] if n >= 6 else [])
    groups += [("first halves", np.arange(n // 2))] + [("halos with central", np.where(has)[0]), ("halos without central", np.where(~has)[0])]
    for name, g in groups:
        if "central" not in name:
            mean, sd = ncm[g].sum(), np.sqrt(np.sum(ncm[g] * (1 - ncm[g])))
            ensure(abs(has[g].sum() - mean) <= SIG * sd + (7 if sd > 0 else 1e-6), f"{name}: {has[g].sum()} centrals, expected {mean:.3f}")
        counts(f"{name}: satellites", sat[g].sum(), lam[g].sum())
    big = lam >= 0.3
    if big.sum() >= 100:
        chi = np.sum((sat[big] - lam[big]) ** 2 / lam[big])
        mean, sd = big.sum(), np.sqrt(np.sum(2 + 1 / lam[big]))
        ensure(mean - 7 * sd <= chi <= mean + 9 * sd + 20, f"satellites are not Poisson distributed: dispersion {chi:.1f}, expected {mean} +- {sd:.1f}")
        note("dispersion of satellites")
    mid = (ncm > 0.05) & (ncm < 0.95)
    if mid.sum() > 200:
        note("partial centrals")
    # positions of satellites
    hs = halo[H:]
    d = pos[H:] - centres[hs] if n else pos[H:]
    if box is not None:
        ensure(np.all(pos >= box[0] - 1e-9) and np.all(pos <= box[1] + 1e-9), "galaxies outside the periodic box")
        L = box[1] - box[0]
        if len(d):
            out = np.abs(d) > L / 2
            if np.any(out):
                note("across the edge of the box")
        d = d - L * np.round(d / L)
    r = np.sqrt(np.sum(d**2, axis=1))
    if len(r) == 0:
        return "empty" if len(pos) == 0 else "no satellites"
    re = edge(masses[hs])
    ensure(np.all(r <= re * (1 + 1e-6) + 1e-9), f"satellites outside the halo: {np.max(r / re)} halo radii")
    c = conc(masses[hs])
    enc = Enclosed(spec, c.max())
    u = enc(c * np.minimum(r / re, 1.0)) / enc(c)
    k = len(u)
    s = np.sort(u)
    D = max(np.max(np.arange(1, k + 1) / k - s), np.max(s - np.arange(k) / k))
    ensure(D <= 3.6 / np.sqrt(k) + 3e-3, f"radii do not follow the enclosed mass: KS distance {D:.4f} of {k} satellites")
    e = d / np.where(r > 0, r, 1)[:, None]
    for what, v, var in [(f"direction along axis {i}", e[:, i], 1 / 3) for i in range(3)] + [
            (f"squared direction along axis {i}", e[:, i] ** 2 - 1 / 3, 4 / 45) for i in range(3)] + [
            (f"directions along axes {i},{j}", e[:, i] * e[:, j], 1 / 15) for i, j in ((0, 1), (0, 2), (1, 2))] + [
            (f"radius and axis {i}", (u - 0.5) * e[:, i], 1 / 36) for i in range(3)]:
        ensure(abs(v.sum()) <= SIG * np.sqrt(k * var) + 7, f"satellites are not isotropic: {what} averages to {v.mean():.4f} over {k}")
    if k > 1:
        cos = np.sum(e[1:] * e[:-1], axis=1)
        ensure(abs(cos.sum()) <= SIG * np.sqrt((k - 1) / 3) + 7, f"satellites are not independent: mean cosine {cos.mean():.4f} of neighbours")
        cu = (u[1:] - 0.5) * (u[:-1] - 0.5)
        ensure(abs(cu.sum()) <= SIG * np.sqrt((k - 1) / 144) + 3, f"radii of satellites are not independent: {cu.mean():.4f}")
        ensure(len(np.unique(np.round(e[:, 0], 12))) > 0.99 * k - 1, "satellites in repeated directions")
    return "many satellites" if k >= 300 else "satellites"


def catalogue(case, rng):
    n = case["n"]
    lm = rng.uniform(case["lm"], case["lm"] + case["spread"], size=n)
    if n and case["equal"]:
        lm[:] = case["lm"]
    box = None
    lo, hi = np.full(3, -50.0), np.full(3, 300.0)
    if case["edges"] == "float":
        edges, lo, hi = case["L"], np.zeros(3), np.full(3, case["L"])
    elif case["edges"] == "pair":
        edges = [case["x0"], case["x0"] + case["L"]]
        lo, hi = np.full(3, edges[0]), np.full(3, edges[1])
    elif case["edges"] == "array":
        lo = np.array([case["x0"], 0.0, -case["L"]])
        hi = lo + case["L"] * np.array([1.0, 1.5, 2.0])
        edges = np.array([lo, hi])
    else:
        edges = None
    centres = lo + (hi - lo) * rng.uniform(size=(n, 3))
    if case["edges"] and n:
        centres[:: 3] = lo + (hi - lo) * 1e-6 * rng.uniform(size=(len(centres[::3]), 3))  # at a corner
    return 10**lm, centres, edges, ((lo, hi) if edges is not None else None)


def trim(occ, masses, centres, total=60000):
    """Drop halos until the expected number of galaxies is manageable."""
    if not len(masses):
        return masses, centres
    with np.errstate(all="ignore"):
        ps = occ.per_satellite(masses)
        x = np.nan_to_num(occ.sat(masses) / np.where(ps > 0, ps, 1)) + np.nan_to_num(occ.sat0(masses) / np.where(ps > 0, ps, 1)) + 1
    keep = np.cumsum(x) <= total
    keep[0] = True
    return masses[keep], centres[keep]


def fn_mock(case, note):
    from halomod import hod as HOD
    from halomod.tools import populate

    rng = np.random.default_rng(case["seed"])
    h = case["hod"]
    occ = F.Occupation(h["name"], h["params"], case["central"])
    masses, centres, edges, box = catalogue(case, rng)
    masses, centres = trim(occ, masses, centres)
    if len(masses) and (np.max(occ.nc(masses)) > 1 or occ.sat0(masses).max() > 1e6):
        return note.trivial("not a number of galaxies")
    cosmo, md, z = G.cosmology(case["cosmo"]), G.mdef(case["mdef"]), case["z"]
    spec = case["prof"]
    cm = G.PowCM(*case["cm"])
    profile = G.make_profile(spec, cosmo, md, z, cm)
    delta, rho0 = G.mdef_density(case["mdef"], cosmo, z)
    edge = lambda m: (3 * m / (4 * np.pi * delta * rho0)) ** (1 / 3) * G.bloat(spec, m)
    conc = lambda m: (cm.cm(m, z) / 1.7) ** 0.9 if spec["name"].startswith("Moore") else cm.cm(m, z)
    hod = getattr(HOD, h["name"])(central=case["central"], **h["params"])
    cond = hod._central if h["name"] != "Tinker05" else bool(case["central"])
    m0, c0 = masses.copy(), centres.copy()
    kw = dict(profile=profile, hodmod=hod)
    if edges is not None:
        kw["edges"] = edges
    m_in = masses.tolist() if case["listed"] else masses
    gen = np.random.default_rng(case["seed"] + 1)
    pos, halo, H = populate(centres, m_in, rng=gen, **kw)
    ensure(np.array_equal(masses, m0) and np.array_equal(centres, c0), "the catalogue was altered")
    kind = judge(pos, halo, H, centres, masses, occ, cond, spec, edge, conc, note, box)
    note(kind), note(h["name"]), note(spec["name"]), note("no halos" if not len(masses) else "one halo" if len(masses) == 1 else "halos")
    again = populate(centres, m_in, rng=np.random.default_rng(case["seed"] + 1), **kw)
    ensure(all(np.array_equal(a, b) for a, b in zip((pos, halo, H), again)), "the same random numbers give another mock")
    # another realisation, without random numbers of our own
    pos2, halo2, H2 = populate(centres, m_in, **kw)
    judge(pos2, halo2, H2, centres, masses, occ, cond, spec, edge, conc, note, box)
    if H < len(pos) and H2 < len(pos2):
        ensure(not np.array_equal(pos[H:], pos2[H2:]), "two realisations are the same")
    pos3, halo3, H3 = populate(centres, m_in, rng=gen, **kw)
    judge(pos3, halo3, H3, centres, masses, occ, cond, spec, edge, conc, note, box)
    if H < len(pos) and H3 < len(pos3):
        ensure(not np.array_equal(pos[H:], pos3[H3:]), "two realisations are the same")
    if kind in ("empty", "no satellites") and len(masses) > 1:
        note.trivial("no satellites")


def fn_model(case, note):
    from halomod.tools import populate

    cfg = dict(case["cfg"])
    hod = cfg["hod"]
    h = M.tracer(cfg)
    occ = F.Occupation(hod["name"], hod["params"], hod.get("central", False))
    rng = np.random.default_rng(case["seed"])
    masses, centres, edges, box = catalogue(case, rng)
    masses, centres = trim(occ, masses, centres)
    if len(masses) and (np.max(occ.nc(masses)) > 1 or occ.sat0(masses).max() > 1e6):
        return note.trivial("not a number of galaxies")
    radius = M.radius_fn(h.tracer_profile, cfg, h.cosmo)  # known finding C12/planck15-radius
    spec = dict(cfg.get("tprof") or cfg["prof"])
    nu = M.InterpolatedUnivariateSpline(np.log(h.m), np.log(h.nu))
    edge = lambda m: radius(m) * np.exp(nu(np.log(m))) ** (0.5 * spec.get("eta_bloat", 0.0))
    c_of = M.InterpolatedUnivariateSpline(np.log(h.m), np.log(h.tracer_cmz_relation))
    # without an explicit concentration, Moore profiles convert that of the relation
    conc = lambda m: (np.exp(c_of(np.log(m))) / 1.7) ** 0.9 if spec["name"].startswith("Moore") else np.exp(c_of(np.log(m)))
    cond = hod.get("central", False)
    for k in range(2):
        pos, halo, H = populate(centres, masses, halomodel=h, edges=edges, rng=rng)
        kind = judge(pos, halo, H, centres, masses, occ, cond, spec, edge, conc, note, box)
        note(kind)
    if kind in ("empty", "no satellites"):
        note.trivial("no satellites")
    if cfg.get("tprof") or cfg.get("tracer_concentration_model"):
        note("tracer profile differs")


def fn_profile(case, note):
    """Points drawn from a single halo."""
    cosmo, md, z = G.cosmology(case["cosmo"]), G.mdef(case["mdef"]), case["z"]
    spec = case["prof"]
    cm = G.PowCM(*case["cm"])
    p = G.make_profile(spec, cosmo, md, z, cm)
    delta, rho0 = G.mdef_density(case["mdef"], cosmo, z)
    m = 10 ** case["lm"]
    kw = {}
    c = cm.cm(m, z)
    if spec["name"].startswith("Moore"):
        c = (c / 1.7) ** 0.9
    if case["c"]:
        c = case["c"]
        kw["c"] = c
    centre = np.array(case["centre"]) if case["centre"] else np.zeros(3)
    if case["centre"]:
        kw["centre"] = case["centre"] if case["listed"] else centre
    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    got = p.populate(n, m, rng=rng, **kw)
    shape("positions", got, (n, 3))
    finite("positions", got)
    if not n:
        return note.trivial("no points")
    d = got - centre
    r = np.sqrt(np.sum(d**2, axis=1))
    edge = (3 * m / (4 * np.pi * delta * rho0)) ** (1 / 3) * G.bloat(spec, m)
    ensure(np.all(r <= edge * (1 + 1e-6) + 1e-9), f"points outside the halo: {np.max(r / edge)}")
    enc = Enclosed(spec, c)
    u = np.sort(enc(np.minimum(r / edge, 1) * c) / enc(np.array([c])))
    D = max(np.max(np.arange(1, n + 1) / n - u), np.max(u - np.arange(n) / n))
    ensure(D <= 3.6 / np.sqrt(n) + 3e-3, f"radii do not follow the enclosed mass: KS distance {D:.4f} of {n}")
    e = d / r[:, None]
    ensure(np.all(np.abs(e.sum(axis=0)) <= SIG * np.sqrt(n / 3) + 7), "points are not isotropic")
    ensure(np.all(np.abs((e**2 - 1 / 3).sum(axis=0)) <= SIG * np.sqrt(n * 4 / 45) + 7), "points are not isotropic (second moment)")
    z3 = np.sort((e[:, 2] + 1) / 2)
    Dz = max(np.max(np.arange(1, n + 1) / n - z3), np.max(z3 - np.arange(n) / n))
    ensure(Dz <= 3.6 / np.sqrt(n), "polar angles are not uniform on the sphere")
    phi = np.sort(np.arctan2(e[:, 1], e[:, 0]) / (2 * np.pi) + 0.5)
    Dp = max(np.max(np.arange(1, n + 1) / n - phi), np.max(phi - np.arange(n) / n))
    ensure(Dp <= 3.6 / np.sqrt(n), "azimuths are not uniform")
    close("same random numbers", p.populate(n, m, rng=np.random.default_rng(case["seed"]), **kw), got, rtol=1e-12)
    ensure(not np.allclose(p.populate(n, m, rng=rng, **kw), got), "two realisations are the same")
    note(spec["name"])


MDEF = G.mdef_st
COSMO = st.sampled_from([dict(name="Planck15"), dict(name="flat", Om0=0.25, H0=72.0, Ob0=0.045)])
CM = st.tuples(fl(2, 20), fl(-0.2, 0.0))
CAT = dict(n=st.one_of(st.sampled_from([0, 1, 2]), st.integers(3, 40), st.integers(100, 4000)), lm=fl(10, 14.5), spread=fl(0, 1), equal=st.booleans(),
           edges=st.sampled_from([None, None, "float", "pair", "array"]), L=fl(30, 300), x0=fl(-100, 100), seed=st.integers(0, 10**6))
PROF = lambda: G.profile_spec(G.TRUNC + ["NFW", "NFW", "NFWInf"])
BAL = lambda: st.tuples(hod_st(HODS), st.booleans())


def near(d):
    """Catalogues mostly at masses where there are satellites, but not too many."""
    h = d["hod"]
    p = F.Occupation(h["name"], h["params"]).p
    if d.pop("aim") and "M_1" in p:
        d["lm"] = float(min(p["M_1"] + d["lm"] / 5 - 2.6, 14.5))
    return d


def near_cfg(d):
    return {k: v for k, v in near(dict(d, hod=d["cfg"]["hod"])).items() if k != "hod"}


CLAUSES = [
    Clause("mock", lambda: fx(hod=hod_st(HODS), central=st.booleans(), prof=PROF(), cosmo=COSMO, mdef=MDEF, z=st.one_of(st.just(0.0), fl(0, 2)), cm=CM,
                              listed=st.booleans(), aim=st.sampled_from([True, True, True, False]), **CAT).map(near),
           fn_mock, quick=900, shards=8, rule="there are satellites (or at most one halo)",
           what="mocks against occupation, Poisson statistics, enclosed mass, isotropy; periodic boxes; empty catalogues"),
    Clause("model", lambda: fx(cfg=M.tracer_cfg(hod_st(HODS), prof=M.prof_st(["NFW", "Hernquist", "CoredNFW", "Moore"]),
                                                tprof=st.one_of(st.none(), M.prof_st(["NFW", "Hernquist", "CoredNFW", "Constant"]))), aim=st.just(True), **CAT).map(near_cfg),
           fn_model, quick=160, shards=4, rule="there are satellites", what="mocks of a halo model follow its HOD and its tracer profile"),
    Clause("profile", lambda: fx(prof=PROF(), cosmo=COSMO, mdef=MDEF, z=st.one_of(st.just(0.0), fl(0, 2)), cm=CM, lm=fl(9, 15.5), n=st.one_of(st.integers(0, 20), st.integers(1000, 6000)),
                                 c=st.one_of(st.none(), fl(1, 30)), centre=st.one_of(st.none(), st.lists(fl(-500, 500), min_size=3, max_size=3)), listed=st.booleans(),
                                 seed=st.integers(0, 10**6)),
           fn_profile, quick=600, shards=4, rule="at least one point", what="Profile.populate: radii, directions, centre, reproducibility"),
]
