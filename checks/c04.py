"""C04: Fourier transforms and self-convolutions of profiles."""

import numpy as np
from hypothesis import strategies as st

from halomod import profiles as P
from vlib import formulas as F
from vlib import gen as G
from vlib.core import Clause
from vlib.util import close, ensure, finite, fl, fx, raises

ASSUMPTIONS = [
    "Truncated profiles: wavenumbers with k r_halo up to 150 (up to 40 where the code integrates "
    "numerically). Untruncated: K = k r_s between 1e-3 and 100.",
    "The Einasto profile is checked with its numerical transform (its table is not in the repository); "
    "the table-interpolated option reads a table made here, by independent quadrature, in its place.",
]
NUM = ("GeneralizedNFW", "Moore", "Einasto")


def setup(case):
    cosmo, md = G.cosmology(case["cosmo"]), G.mdef(case["mdef"])
    z, spec = case["z"], case["prof"]
    cm = G.PowCM(case["cm"][0], case["cm"][1])
    p = G.make_profile(spec, cosmo, md, z, cm)
    delta, rho0 = G.mdef_density(case["mdef"], cosmo, z)
    return p, spec, z, delta, rho0, cm


def halos(case, spec, z, delta, rho0, cm, n=None):
    m = np.array(case["m"])[: n or case["nm"]]
    if case["c_from"] == "relation":
        c = cm.cm(m, z)
        if spec["name"].startswith("Moore"):
            c = (c / 1.7) ** 0.9
        kw = {}
    else:
        c = np.resize(np.array(case["c"], dtype=float), len(m))
        kw = {"c": c}
    rv = (3 * m / (4 * np.pi * delta * rho0)) ** (1 / 3)
    return m, c, rv * G.bloat(spec, m) / c, kw


def want_u(spec, K, c):
    f = F.shape(spec["name"], spec)
    name = spec["name"]
    if name == "PowerLawWithExpCut":
        h = F.total_mass(f)
        return F.ft_inf(f, K) / h
    h = float(F.enclosed(f, c))
    if name.endswith("Inf"):
        return F.ft_inf(f, K) / h
    return F.ft_trunc(f, K, c) / h


def arrange(case, spec, p, m, c, rs, kw, scale):
    """Wavenumbers (or separations) with values q in units of 1/r_s-ish, in the calling form asked for."""
    q = np.array(case["q"]) * scale
    form = case["form"]
    if form == "kappa" or form == "x":
        # elementwise in units of the scale radius: one halo, many values
        return q, m[:1], c[:1], {k: v[:1] for k, v in kw.items()}, q[:, None], form
    phys = q / np.mean(rs) if case["fourier"] else q * np.mean(rs)
    K = phys[:, None] * rs[None, :] if case["fourier"] else phys[:, None] / rs[None, :]
    return phys, m, c, kw, K, "k" if case["fourier"] else "r"


def pick_form(case, arg, m, kw, want):
    """Scalar/vector variants of the call; returns (arg, m, kw, wanted)."""
    sc = case["scalar"]
    one = {k: float(v[0]) for k, v in kw.items()}
    if sc == "both":
        return float(arg[0]), float(m[0]), one, want[0, 0]
    if sc == "m" or len(m) == 1:
        return arg, float(m[0]), one, want[:, 0]
    if sc == "k":
        return float(arg[0]), m, kw, want[0, :]
    return arg, m, kw, want


def fn_u(case, note):
    p, spec, z, delta, rho0, cm = setup(case)
    m, c, rs, kw = halos(case, spec, z, delta, rho0, cm)
    name = spec["name"]
    inf = name in G.INF
    if case["scalar"] in ("m", "both"):
        m, c, rs, kw = m[:1], c[:1], rs[:1], {k: v[:1] for k, v in kw.items()}
    if inf:
        scale = 1.0
    else:
        # keep K c below the limit for every halo
        scale = (30.0 if name in NUM else 120.0) / 100.0 / np.max(c) * np.mean(rs) / np.max(rs)
        if case["form"] == "kappa":
            scale = (30.0 if name in NUM else 120.0) / 100.0 / c[0]
    arg, m, c, kw, K, coord = arrange(case, spec, p, m, c, rs, kw, scale)
    if case["scalar"] == "both":
        arg, K = arg[:1], K[:1]
    want = np.array([[want_u(spec, K[i, j], c[j]) for j in range(K.shape[1])] for i in range(K.shape[0])])
    a, mm, kk, want = pick_form(case, arg, m, kw, want)
    norm = case["norm"]
    if norm is None:
        want = want * (np.asarray(mm) if np.ndim(mm) == 0 or want.ndim < 2 else np.asarray(mm)[None, :])
    want = np.squeeze(want)
    if case["aslist"] and np.ndim(a) and np.ndim(mm) and coord == "k":
        a = list(a)
    got = np.squeeze(p.u(a, mm, norm=norm, coord=coord, **kk))
    sc = np.asarray(mm) if norm is None else 1.0
    if name in ("Moore", "GeneralizedNFW"):
        t = dict(rtol=3e-3, atol=2e-3 * np.max(sc))
    elif name == "Einasto":
        t = dict(rtol=1e-3, atol=1e-4 * np.max(sc))
    elif name in ("MooreInf", "GeneralizedNFWInf"):
        t = dict(rtol=1e-2, atol=1e-4 * np.max(sc))
    elif inf:
        t = dict(rtol=1e-4, atol=1e-6 * np.max(sc))
    else:
        # closed forms lose digits through cancellation at small K
        t = dict(rtol=1e-5, atol=np.max(sc) * 1e-6 * max(1.0, (1e-3 / float(np.min(K))) ** 2))
    close(f"transform ({coord}, norm={norm})", got, want, **t)
    if not inf:
        ensure(np.all(np.abs(got) <= np.max(sc) * (1 + 1e-3) + 1e-9), "transform exceeds the halo mass")
    if name not in ("MooreInf", "GeneralizedNFWInf"):  # expensive
        raises("unknown normalisation", ValueError, lambda: p.u(a, mm, norm=case["badnorm"], coord=coord, **kk))
    note(name), note(f"coord={coord}"), note(f"norm={norm}"), note(f"scalar={case['scalar']}"), note(f"c {case['c_from']}")


def fn_small_k(case, note):
    """The truncated transform tends to one (or the mass) as k tends to zero."""
    p, spec, z, delta, rho0, cm = setup(case)
    m, c, rs, kw = halos(dict(case, c_from="given"), spec, z, delta, rho0, cm)
    k = case["eps"] / np.max(rs * c)
    u = p.u(np.array([k, 1.01 * k]), m, c=c)
    t = 1e-2 if spec["name"] in ("GeneralizedNFW", "Moore") else 1e-3
    close("u at small k", np.squeeze(u), np.ones_like(np.squeeze(u)), rtol=t)
    um = p.u(np.array([k, 1.01 * k]), m, c=c, norm=None)
    close("mass at small k", np.squeeze(um), np.squeeze(np.outer([1, 1], m)), rtol=t)
    note(spec["name"])


def fn_own(case, note):
    """Transform of the code's own density: no formula shared with the oracle."""
    p, spec, z, delta, rho0, cm = setup(case)
    m, c, rs, _ = halos(dict(case, c_from="given"), spec, z, delta, rho0, cm, 1)
    m, c, rs = float(m[0]), float(c[0]), float(rs[0])
    x, w = F.radial_nodes(c * rs, 1500)
    rho = np.asarray(p.rho(x, m, norm="m", c=c))
    lim = 30.0 if spec["name"] in NUM else 120.0
    k = np.array(case["q"]) / 100 * lim / (c * rs)
    want = np.array([np.sum(4 * np.pi * x**2 * rho * w * np.sinc(kk * x / np.pi)) for kk in k])
    t = 3e-3 if spec["name"] in ("Moore", "GeneralizedNFW") else 1e-4
    close("transform of the density returned", np.squeeze(p.u(k, m, c=c)), np.squeeze(want), rtol=t, atol=t)
    note(spec["name"])


def fn_lam(case, note):
    p, spec, z, delta, rho0, cm = setup(case)
    name = spec["name"]
    inf = name.endswith("Inf")
    if not p.has_lam:
        raises("no self-convolution", AttributeError, lambda: p.lam(1.0, 1e13, c=5.0))
        note(f"{name} none")
        return note.trivial()
    m, c, rs, kw = halos(case, spec, z, delta, rho0, cm)
    if case["scalar"] in ("m", "both"):
        m, c, rs, kw = m[:1], c[:1], rs[:1], {k: v[:1] for k, v in kw.items()}
    scale = np.max(c) * 2.2 / 100.0 if case["form"] != "x" else c[0] * 2.2 / 100
    # closed forms lose digits through cancellation at small x: stay where they do not
    lowest = min(case["q"]) * scale * np.min(rs) / np.mean(rs)
    xmin = 0.3 if name.startswith("Hernquist") else 0.03
    scale = max(scale, scale * xmin / lowest)
    arg, m, c, kw, X, coord = arrange(case, spec, p, m, c, rs, kw, scale)
    rs = rs[: len(m)]
    if case["scalar"] == "both":
        arg, X = arg[:1], X[:1]
    f = F.shape(name, spec)
    h = F.enclosed(f, c)
    want = np.array([[(F.selfconv(name, X[i, j], None if inf else c[j]) if inf or X[i, j] < 2 * c[j] else 0.0)
                      * rs[j] ** 3 / (4 * np.pi * rs[j] ** 3 * h[j]) ** 2 for j in range(X.shape[1])]
                     for i in range(X.shape[0])])
    # scale for the tolerance: value at a tenth of the edge
    sc = np.array([F.selfconv(name, 0.5 * c[j], None if inf else c[j]) * rs[j] ** 3 / (4 * np.pi * rs[j] ** 3 * h[j]) ** 2
                   for j in range(len(m))])
    a, mm, kk, want = pick_form(case, arg, m, kw, want)
    sc = sc[0] if np.ndim(mm) == 0 else sc
    want = np.squeeze(want)
    got = np.squeeze(finite("self-convolution", p.lam(a, mm, norm="m", coord=coord, **kk)))
    at = 1e-5 * (sc if np.ndim(sc) == 0 else np.min(sc))
    close(f"self-convolution ({coord})", got, want, rtol=3e-4, atol=at)
    raises("unknown normalisation", ValueError, lambda: p.lam(a, mm, norm="rho", coord=coord, **kk))
    note(name), note(f"coord={coord}"), note(f"scalar={case['scalar']}")


def fn_lam_norm(case, note):
    """Integrated over all space, a truncated self-convolution gives one (the mass squared)."""
    p, spec, z, delta, rho0, cm = setup(case)
    m, c, rs, _ = halos(dict(case, c_from="given"), spec, z, delta, rho0, cm, 1)
    m, c, rs = float(m[0]), float(c[0]), float(rs[0])
    x1, w1 = F.radial_nodes(c * rs, 300, 3)
    x2 = c * rs + (c * rs) * F.gl(300)[0]
    w2 = c * rs * F.gl(300)[1]
    x, w = np.concatenate([x1, x2]), np.concatenate([w1, w2])
    ok = x > 0.02 * rs
    lam = np.asarray(p.lam(x[ok], m, c=c))
    tot = np.sum(4 * np.pi * x[ok] ** 2 * lam * w[ok])
    ensure(np.all(lam > -1e-9 * np.max(lam)), "negative self-convolution")
    close("self-convolution integrates to one", tot, 1.0, rtol=5e-3 if c > 0.3 else 2e-2)
    note(spec["name"])


class Table(dict):
    """What reading a table file gives."""

    files = property(lambda self: list(self))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


_TABLE = []


def einasto_table():
    if not _TABLE:
        K, c = np.logspace(-4, np.log10(3.0), 80), np.logspace(np.log10(1.5), np.log10(18.0), 40)
        f = F.shape("Einasto", dict(name="Einasto", params={}))
        pk = np.array([[float(F.ft_trunc(f, k, x)) for x in c] for k in K])
        _TABLE.append(Table(K=K, c=c, pk=pk))
    return Table({k: v.copy() for k, v in _TABLE[0].items()})


def fn_table(case, note):
    """The table-interpolated transform, with many masses and wavenumbers at once or one at a time."""
    cosmo, md = G.cosmology(case["cosmo"]), G.mdef(case["mdef"])
    z, cm = case["z"], G.PowCM(case["cm"][0], case["cm"][1])
    p = P.Einasto(cm, mdef=md, z=z, cosmo=cosmo)
    delta, rho0 = G.mdef_density(case["mdef"], cosmo, z)
    spec = dict(name="Einasto", params={})
    m = np.array(case["m"])[: case["nm"]]
    c = np.clip(np.resize(case["c"], len(m)), 2.0, 15.0) * (1 + 0.01 * np.arange(len(m)))
    rs = (3 * m / (4 * np.pi * delta * rho0)) ** (1 / 3) / c
    load = np.load
    stood_in = []

    def fake(f, *a, **k):
        try:
            return load(f, *a, **k)
        except FileNotFoundError:
            if "einasto" not in str(f).lower():
                raise
            stood_in.append(1)
            return einasto_table()

    # K = k r_s between 0.002 and 1.5
    k = 10 ** np.array([np.log10(2e-3 / rs.min()) + t * (np.log10(1.5 / rs.max()) - np.log10(2e-3 / rs.min())) for t in case["t"]])
    if np.log10(1.5 / rs.max()) < np.log10(2e-3 / rs.min()):
        return note.trivial("halos too different")
    want = np.array([[float(want_u(spec, kk * rs[j], c[j])) for j in range(len(m))] for kk in k])
    np.load = fake
    try:
        if case["form"] == "grid":
            got = p.u(k, m, c=c)
        elif case["form"] == "m":
            got = np.array([p.u(kk, m, c=c) for kk in k])
        elif case["form"] == "k":
            got = np.array([p.u(k, float(a), c=float(b)) for a, b in zip(m, c)]).T
        else:
            got = np.array([[p.u(float(kk), float(a), c=float(b)) for a, b in zip(m, c)] for kk in k])
    except FileNotFoundError:
        note.known_finding("einasto-table")
        return note.trivial("no table")
    finally:
        np.load = load
    if stood_in:
        note.known_finding("einasto-table")
    close("interpolated transform", np.squeeze(np.asarray(got)), np.squeeze(want), rtol=5e-3, atol=1e-6)
    note(case["form"])
    note("grid of several halos and wavenumbers" if len(m) > 1 and len(k) > 1 and case["form"] == "grid" else "one or each")


base = dict(cosmo=G.cosmo_st, mdef=G.mdef_st, z=st.one_of(st.just(0.0), fl(0.0, 4.0)),
            cm=st.tuples(fl(3, 15), fl(-0.2, 0.0)).map(list))
ms = G.uniq(fl(9, 16).map(lambda x: float(f"{10**x:.6g}")), 3, 3)
cs = st.lists(st.one_of(fl(1.0, 30), fl(2, 12)), min_size=1, max_size=3)
qs = G.uniq(st.one_of(fl(0.05, 100), fl(-1.5, 2).map(lambda x: 10**x)), 1, 5)
common = dict(m=ms, c=cs, nm=st.integers(1, 3), q=qs, c_from=st.sampled_from(["given", "given", "relation"]),
              scalar=st.sampled_from(["none", "none", "m", "k", "both"]), aslist=st.booleans(), **base)
few = dict(nm=st.integers(1, 2), q=G.uniq(st.one_of(fl(0.05, 100), fl(-1.5, 2).map(lambda x: 10**x)), 1, 3))
fewer = dict(nm=st.integers(1, 2), q=G.uniq(fl(-1.3, 1.3).map(lambda x: 10**x), 1, 2))
FAST = ["NFW", "Hernquist", "Constant", "CoredNFW", "NFWInf", "HernquistInf", "PowerLawWithExpCut"]
norms = dict(norm=st.sampled_from(["m", "m", None]), badnorm=st.sampled_from(["rho", "", "M"]),
             form=st.sampled_from(["k", "k", "kappa"]), fourier=st.just(True))
CLAUSES = [
    Clause("u", lambda: fx(prof=G.profile_spec(FAST), **common, **norms), fn_u, quick=2400, shards=6,
           rule="random closed-form profile, halos and wavenumbers",
           what="closed-form transforms equal numerical quadrature for every calling form"),
    Clause("u_num", lambda: fx(prof=G.profile_spec(["Moore", "GeneralizedNFW", "Einasto"]), **dict(common, **few), **norms),
           fn_u, quick=800, shards=2,
           rule="random numerically transformed profile, halos and wavenumbers",
           what="numerical transforms equal independent quadrature"),
    Clause("u_meijer", lambda: fx(prof=G.profile_spec(["MooreInf", "GeneralizedNFWInf"]), **dict(common, **fewer), **norms),
           fn_u, quick=24, thorough=400, shards=8,
           rule="random untruncated profile with a special-function transform, halos and wavenumbers",
           what="special-function transforms equal independent quadrature"),
    Clause("table", lambda: fx(nm=st.sampled_from([3, 4, 2, 1]), m=G.uniq(fl(11, 14).map(lambda x: float(f"{10**x:.6g}")), 4, 4), c=cs, t=G.uniq(fl(0, 1), 3, 4),
                               form=st.sampled_from(["grid", "grid", "m", "k", "each"]), **base), fn_table, quick=240, shards=3,
           rule="random halos and wavenumbers for the table-interpolated profile", what="the interpolated transform equals quadrature in every calling form"),
    Clause("small_k", lambda: fx(prof=G.profile_spec(G.TRUNC), eps=fl(0.003, 0.02), nm=st.integers(1, 3), m=ms, c=cs, **base),
           fn_small_k, quick=400, shards=3, rule="random truncated profile and halos", what="limit at small wavenumbers"),
    Clause("own", lambda: fx(prof=G.profile_spec(G.TRUNC), q=qs, m=ms, c=cs, **base), fn_own, quick=500, shards=4,
           rule="random truncated profile and halo", what="the transform is the transform of the density returned"),
    Clause("lam", lambda: fx(prof=G.profile_spec(G.TRUNC[:1] * 3 + G.TRUNC + ["NFWInf", "HernquistInf"] * 2 + G.INF),
                             **dict(common, c=st.lists(fl(1.0, 30), min_size=1, max_size=3)),
                             form=st.sampled_from(["r", "r", "x"]), fourier=st.just(False)),
           fn_lam, quick=1500, shards=4, rule="profiles with a self-convolution; separations up to 2.2 halo radii",
           what="self-convolutions equal the real-space convolution"),
    Clause("lam_norm", lambda: fx(prof=G.profile_spec(["NFW"]), m=ms, c=cs, **base), fn_lam_norm, quick=300,
           rule="random halos", what="self-convolution is normalised"),
]
