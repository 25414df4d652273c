"""C08: halo bias relations."""

import numpy as np
from hypothesis import strategies as st

from halomod import bias as B
from halomod import DMHaloModel
from vlib import formulas as F
from vlib import gen as G
from vlib import models as M
from vlib.core import Clause
from vlib.util import close, ensure, finite, fl, fx

ASSUMPTIONS = [
    "Peak heights (squared) between 0.01 and 40, overdensities 180-3200.",
    "In the framework clause the peak heights, non-linear mass and effective index are those the model reports "
    "(they are computed by the hmf dependency).",
]
NAMES = list(F.BIAS_DEFAULTS)


def params_st(n):
    d = F.BIAS_DEFAULTS[n]

    def rng(k, v):
        if k == "max_z":
            return fl(0, 5)
        if k in ("p",):
            return fl(0.05, 0.45)
        if k in ("c", "b") and n in ("SMT01", "Tinker05"):
            return fl(0.2, 0.9)
        if v == 0:
            return fl(-0.5, 0.5)
        return fl(*sorted((0.6 * v, 1.5 * v)))

    return st.fixed_dictionaries({}, optional={k: rng(k, v) for k, v in d.items()})


def spec_st():
    return st.one_of([fx(name=st.just(n), params=params_st(n)) for n in NAMES])


def build(case, nu, m, **over):
    c = case
    kw = dict(nu=nu, delta_c=c["delta_c"], m=m, mstar=10 ** c["lmstar"], delta_halo=c["delta"], n=c["n"],
              sigma_8=c["s8"], cosmo=G.cosmology(c["cosmo"]), n_eff=np.resize(np.array(c["neff"]), nu.shape), z=c["z"])
    kw.update(over)
    return getattr(B, c["spec"]["name"])(**kw, **c["spec"]["params"])


def want(case, nu, m, **over):
    cosmo = G.cosmology(case["cosmo"])
    kw = dict(delta_c=case["delta_c"], m=m, mstar=10 ** case["lmstar"], delta_halo=case["delta"], n=case["n"],
              sigma_8=case["s8"], Om0=cosmo.Om0, h=cosmo.h, n_eff=np.resize(np.array(case["neff"]), nu.shape), z=case["z"],
              params=case["spec"]["params"])
    kw.update(over)
    return F.bias(case["spec"]["name"], nu, **kw)


def fn_formula(case, note):
    nu = np.array(case["nu"]) ** 2
    m = np.resize(10 ** np.array(case["lm"]), nu.shape)
    if case["spec"]["name"] == "Tinker10PBSplit" and case["tab"]:
        case = dict(case, delta=int(np.array([200, 300, 400, 600, 800, 1200, 1600, 2400, 3200])[int(case["delta"]) % 9]))
    b = build(case, nu, m)
    got = finite("bias", b.bias())
    close(f"bias of {case['spec']['name']}", got, want(case, nu, m), rtol=1e-7, atol=1e-9)
    # elementwise: one halo at a time, in any order
    perm = np.argsort(np.cos(np.arange(len(nu)) * 3.1))
    c2 = dict(case, neff=list(np.resize(np.array(case["neff"]), nu.shape)[perm]))
    close("bias in another order", build(c2, nu[perm], m[perm]).bias(), got[perm], rtol=1e-10, atol=1e-12)
    c3 = dict(case, neff=[np.resize(np.array(case["neff"]), nu.shape)[0]])
    close("bias of one halo", build(c3, nu[:1], m[:1]).bias(), got[:1], rtol=1e-10, atol=1e-12)
    close("bias evaluated twice", b.bias(), got, rtol=0)
    note(case["spec"]["name"])
    if case["spec"]["params"]:
        note("parameters")


def fn_meaning(case, note):
    """Published properties which need no coefficients."""
    nu = np.sort(np.array(case["nu"])) ** 2
    n = case["spec"]["name"]
    case = dict(case, spec=dict(name=n, params={}))
    # the same halos, with rising mass
    m = 10 ** case["lmstar"] * nu**3
    dc = 1.686
    b = build(dict(case, delta_c=dc), nu, m).bias()
    if n == "UnityBias":
        close("unity", b, np.ones_like(nu), atol=0)
    if n == "Mo96":
        close("bias of nonlinear-mass halos", build(case, np.array([1.0]), m[:1]).bias(), [1.0], rtol=1e-12)
    if n in ("Mo96", "ST99", "SMT01", "Tinker05", "Mandelbaum05", "Manera10", "Pillepich10", "Seljak04"):
        big = nu > (1.2 if n != "Pillepich10" else 1.0)
        ensure(np.all(np.diff(b[big]) >= -1e-12), "bias falls with mass for massive halos")
        # high peaks are biased, ordinary small halos anti-biased
        hi = build(dict(case, delta_c=dc), np.array([16.0]), 10 ** case["lmstar"] * np.array([4096.0])).bias()
        lo = build(dict(case, delta_c=dc), np.array([0.3]), 10 ** case["lmstar"] * np.array([0.027])).bias()
        ensure(hi[0] > 2 and lo[0] < 1, f"biases of high and low peaks {hi} {lo}")
    if n == "ST99":
        # p=0, q=1 is the Press-Schechter form
        ps = B.ST99(nu=nu, delta_c=case["delta_c"], q=1.0, p=0.0).bias()
        close("ST99 with q=1, p=0", ps, B.Mo96(nu=nu, delta_c=case["delta_c"]).bias(), rtol=1e-12)
    if n == "Jing98":
        jj = B.Jing98(nu=nu, delta_c=case["delta_c"], n_eff=np.zeros_like(nu) - 1.5, a=0.0)
        close("Jing98 with a=0", jj.bias(), B.Mo96(nu=nu, delta_c=case["delta_c"]).bias(), rtol=1e-12)
    if n in ("Seljak04Cosmo",):
        cosmo = G.cosmology(case["cosmo"])
        zero = build(dict(case, spec=dict(name=n, params=dict(a1=0.0, a2=0.0))), nu, m).bias()
        close("no cosmology dependence", zero, build(dict(case, spec=dict(name="Seljak04", params={})), nu, m).bias(), rtol=1e-12)
    if n in ("Seljak04", "Seljak04Cosmo"):
        ensure(True, "")
    note(n)


def fn_sd(case, note):
    xi = np.array(case["xi"])
    p = {**dict(a=1.17, b=1.49, c=0.69, d=2.09), **case["params"]}
    got = B.TinkerSD05(xi, **case["params"]).bias_scale()
    close("scale-dependent bias", got, np.sqrt((1 + p["a"] * xi) ** p["b"] / (1 + p["c"] * xi) ** p["d"]), rtol=1e-10)
    close("no correction without correlation", B.TinkerSD05(np.array([0.0]), **case["params"]).bias_scale(), [1.0], rtol=1e-12)
    note("sd")


def fn_framework(case, note):
    """The bias used by a halo model is that of its own cosmology, redshift, masses and mass definition."""
    cfg = dict(case["cfg"], bias_model=case["spec"]["name"], bias_params=case["spec"]["params"])
    h = M.dm(cfg)
    n = case["spec"]["name"]
    delta = M.overdensity(cfg, h.cosmo)[0]
    kw = dict(delta_c=h.delta_c, m=h.m, mstar=h.mass_nonlinear, delta_halo=delta, n=h.n, sigma_8=h.sigma_8, Om0=h.cosmo.Om0,
              h=h.cosmo.h, n_eff=h.n_eff, params=case["spec"]["params"])
    nu2 = (h.delta_c / np.asarray(h.sigma)) ** 2
    got = finite("halo bias", h.halo_bias)
    w = F.bias(n, nu2, z=cfg["z"], **kw)
    if n == "Tinker10PBSplit" and cfg["z"] > 0:
        w0 = F.bias(n, nu2, z=0.0, **kw)
        if np.allclose(got, w0, rtol=2e-6) and not np.allclose(got, w, rtol=2e-6):
            note.known_finding("bias-redshift")
            w = w0
    close("halo bias of the model", got, w, rtol=2e-6)
    note(n), note((cfg["mdef"] or {}).get("name", "default"))


base = dict(spec=spec_st(), nu=st.lists(fl(0.1, 6.3), min_size=1, max_size=6), lm=st.lists(fl(8, 16), min_size=1, max_size=6),
            lmstar=fl(9, 14), delta_c=st.one_of(st.just(1.686), fl(1.5, 1.9)), delta=st.one_of(fl(200, 3200), st.just(200), st.sampled_from([300, 800, 1600])),
            n=fl(0.9, 1.05), s8=fl(0.6, 1.0), cosmo=G.cosmo_st, neff=st.lists(fl(-2.8, 0), min_size=1, max_size=6),
            z=st.one_of(st.just(0.0), fl(0, 5)), tab=st.booleans())
CLAUSES = [
    Clause("formula", lambda: fx(**base), fn_formula, quick=6000, shards=3, rule="random bias model, parameters, peak heights and cosmology",
           what="bias equals the published relation, elementwise"),
    Clause("meaning", lambda: fx(**base), fn_meaning, quick=3000, shards=2, rule="random halos at default parameters",
           what="relations between bias models and physical limits"),
    Clause("scale", lambda: fx(xi=st.lists(fl(0, 100), min_size=1, max_size=6),
                               params=st.fixed_dictionaries({}, optional=dict(a=fl(.5, 2), b=fl(1, 2), c=fl(.3, 1), d=fl(1, 3)))),
           fn_sd, quick=1000, rule="random correlations", what="scale-dependent correction"),
    Clause("framework", lambda: fx(spec=spec_st(), cfg=M.dm_cfg()), fn_framework, quick=1000, shards=8,
           rule="random halo model", what="the halo model evaluates its bias for its own cosmology, masses and mass definition"),
]
