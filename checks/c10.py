"""C10: concentration-mass relations."""

import numpy as np
from hypothesis import strategies as st
from scipy import special
from scipy.optimize import brentq

from hmf.cosmology.cosmo import Cosmology
from hmf.cosmology.growth_factor import GrowthFactor
from hmf.density_field.filters import TopHat
from halomod import concentration as C
from halomod import profiles as P
from vlib import formulas as F
from vlib import gen as G
from vlib import models as M
from vlib.core import Clause
from vlib.util import close, ensure, finite, fl, fx

ASSUMPTIONS = [
    "The growth factor and the mass variance are those of the hmf dependency.",
    "Bullock01 and Ludlow16 tabulate an inverse internally; compared to 1% (the published relations invert it exactly).",
    "Bullock01 takes arrays of masses. Non-linear masses are compared where they exceed 1e7 Msun/h.",
]
DEFAULTS = {
    "Duffy08": dict(a=None, b=None, c=None, ms=2e12, sample="relaxed", norm=1.0),
    "Maccio07": dict(c_0=28.65, gamma=1.45, norm=1.0), "Zehavi11": dict(a=11.0, b=-0.13, c=1.0, ms=2.26e12, norm=1.0),
    "Bullock01Power": dict(a=9.0, b=-0.13, c=1.0, ms=None, norm=1.0),
    "Bullock01": dict(F=0.01, K=3.4, norm=1.0), "Ludlow16": dict(f=0.02, C=650, norm=1.0),
    "Ludlow16Empirical": dict(c0_0=3.395, c0_z=-0.215, beta_0=0.307, beta_z=0.54, gamma1_0=0.628, gamma1_z=-0.047,
                              gamma2_0=0.317, gamma2_z=-0.893, norm=1.0),
}


def param_st(n):
    r = dict(a=st.one_of(st.just(0.0), fl(3, 14)) if n == "Duffy08" else fl(3, 14), b=st.one_of(st.just(0.0), fl(-0.2, 0)), c=st.one_of(st.just(0.0), fl(0, 1.5)),
             ms=fl(11, 14).map(lambda x: float(f"{10**x:.5g}")), norm=fl(0.3, 3), c_0=fl(10, 40), gamma=fl(0.5, 2), F=fl(0.002, 0.05), K=fl(2, 5),
             f=fl(0.01, 0.05), C=fl(300, 900), sample=st.sampled_from(["full", "relaxed"]))
    for k, v in DEFAULTS["Ludlow16Empirical"].items():
        if k != "norm":
            r[k] = fl(*sorted((0.8 * v, 1.2 * v)))
    opt = {k: r[k] for k in DEFAULTS[n]}
    if n == "Bullock01Power":
        opt.pop("ms")
        return st.fixed_dictionaries(dict(ms=r["ms"]), optional=opt)
    return st.fixed_dictionaries({}, optional=opt)


def spec_st(names):
    return st.one_of([fx(name=st.just(n), params=param_st(n)) for n in names])


def masses(case):
    return 10 ** np.array(case["lm"])


def variants(note, case, obj, m, z, want, rtol):
    n = case["spec"]["name"]
    keep = m.copy()
    got = finite("concentration", obj.cm(m, z))
    close(f"concentration of {n}", got, want, rtol=rtol)
    ensure(np.array_equal(m, keep), "the masses passed in were changed")
    perm = np.argsort(np.sin(11 * np.arange(len(m))))
    close("masses in another order", obj.cm(m[perm], z), np.asarray(got)[perm], rtol=1e-9)
    close("integer masses", obj.cm(m.astype(np.int64), z), obj.cm(np.floor(m), z), rtol=1e-9)
    if n != "Bullock01":
        close("a single mass", float(np.squeeze(obj.cm(float(m[0]), z))), got[0], rtol=1e-9)
    close("evaluated twice", obj.cm(m, z), got, rtol=0)
    # normalisation
    twice = type(obj)(**{**case["_kw"], **case["spec"]["params"], "norm": 2 * obj.params["norm"]})
    close("normalisation", twice.cm(m, z), 2 * np.asarray(got), rtol=1e-9)
    note(n)
    if case["spec"]["params"]:
        note("parameters")


def fn_power(case, note):
    n, par = case["spec"]["name"], dict(case["spec"]["params"])
    cosmo = G.cosmology(case["cosmo"])
    m, z = masses(case), case["z"]
    kw = dict(cosmo=Cosmology(cosmo_model=cosmo), delta_c=case["delta_c"])
    if n == "Duffy08":
        kw["mdef"] = G.mdef(case["mdef"])
        md = {"SOVirial": "vir"}.get(case["mdef"]["name"], f"{case['mdef'].get('overdensity')}{'m' if case['mdef']['name'] == 'SOMean' else 'c'}")
        par.setdefault("sample", "relaxed")
        want = F.duffy08(m, z, mdef=md, **par)
        note(f"mdef {md}")
    elif n == "Maccio07":
        want = F.maccio07(m, z, **par)
    elif n == "Zehavi11":
        want = F.zehavi11(m, z, **par)
    elif n == "Bullock01Power":
        want = F.zehavi11(m, z, **{**dict(a=9.0, b=-0.13, c=1.0), **par})
    else:
        D = float(np.squeeze(GrowthFactor(cosmo=cosmo).growth_factor(z)))
        want = F.ludlow16_empirical(m, z, D, delta_c=case["delta_c"], **par)
    obj = getattr(C, n)(**kw, **case["spec"]["params"])
    variants(note, dict(case, _kw=kw), obj, m, z, want, 1e-6)


def parts(case):
    """An independent z=0 variance and growth for a model's cosmology."""
    h = M.dm(dict(cosmo=case["cosmo"], sigma_8=case["s8"], n=case["n"], hmf="Tinker08"))
    filt = TopHat(h.k, h.power)
    growth = GrowthFactor(cosmo=h.cosmo)
    rho = h.mean_density0
    sig = lambda m: np.atleast_1d(filt.sigma(np.atleast_1d((3 * m / (4 * np.pi * rho)) ** (1 / 3))))
    D = lambda z: np.atleast_1d(growth.growth_factor(np.atleast_1d(z)))
    kw = dict(cosmo=Cosmology(cosmo_model=h.cosmo), filter0=TopHat(h.k, h.power), growth=GrowthFactor(cosmo=h.cosmo), delta_c=case["delta_c"])
    return h, sig, D, kw


def fn_bullock(case, note):
    h, sig, D, kw = parts(case)
    m, z, dc = masses(case), case["z"], case["delta_c"]
    n, par = case["spec"]["name"], {**DEFAULTS[case["spec"]["name"]], **case["spec"]["params"]}

    if n == "Bullock01":
        def zc(mm):
            target = dc / float(sig(par["F"] * mm)[0])
            if target >= float(D(z)[0]):
                return z
            if target <= float(D(18.0)[0]):
                return None
            return brentq(lambda x: float(D(x)[0]) - target, 0, 18.0, xtol=1e-6)

        zz = [zc(x) for x in m]
        if None in zz:
            return note.trivial("collapse before z=18")
        want = par["norm"] * par["K"] * (1 + np.array(zz)) / (1 + z)
        note("collapsed" if np.any(np.array(zz) > z) else "not collapsed")
        rtol = 5e-3
    else:
        lo, hi = 1e6, 1e17
        d = float(D(z)[0])
        f = lambda l: float(sig(10**l)[0]) * d - dc
        if f(7) < 0:
            return note.trivial("no nonlinear mass")
        ms = 10 ** brentq(f, 7, 17)
        want = F.zehavi11(m, z, a=par["a"], b=par["b"], c=par["c"], ms=ms, norm=par["norm"])
        rtol = 1e-3
        obj = getattr(C, n)(**kw, **{k: v for k, v in case["spec"]["params"].items() if k != "ms"})
        close("nonlinear mass", float(np.squeeze(obj.mass_nonlinear(z))), ms, rtol=1e-2)
        case = dict(case, spec=dict(name=n, params={k: v for k, v in case["spec"]["params"].items() if k != "ms"}))
    obj = getattr(C, n)(**kw, **case["spec"]["params"])
    variants(note, dict(case, _kw=kw), obj, m, z, want, rtol)


def fn_ludlow(case, note):
    h, sig, D, kw = parts(case)
    m, z, dc = masses(case), case["z"], case["delta_c"]
    par = {**DEFAULTS["Ludlow16"], **case["spec"]["params"]}
    md = case["mdef"]
    kw["mdef"] = G.mdef(md)
    cosmo = h.cosmo
    dcrit = G.mdef_density(md, cosmo, z)[0] * cosmo.Om(z)
    nfw = lambda c: np.log(1 + c) - c / (1 + c)
    c = np.geomspace(1, 100, 3000)
    # density within r_s relative to critical, and the redshift at which the universe was 1/C times that
    rho2 = dcrit * c**3 * nfw(1) / nfw(c)
    br = (rho2 / par["C"] * (cosmo.Om0 * (1 + z) ** 3 + cosmo.Ode0) - cosmo.Ode0) / cosmo.Om0
    zf = np.cbrt(np.maximum(br, 1e-9)) - 1
    ok = (zf > 1e-3) & (zf < 18)
    c, zf = c[ok], zf[ok]
    lhs = nfw(1) / nfw(c)
    num = dc * (1 / D(zf) - 1 / float(D(z)[0]))
    want, usable = [], []
    for mm in m:
        s = float(np.sqrt(2 * (sig(par["f"] * mm)[0] ** 2 - sig(mm)[0] ** 2)))
        d = lhs - special.erfc(num / s)
        k = np.where(np.sign(d[:-1]) != np.sign(d[1:]))[0]
        if len(k) != 1 or not (c[0] * 1.05 < c[k[0]] < c[-1] / 1.05):
            want.append(1.0), usable.append(False)
            continue
        k = k[0]
        want.append(c[k] + (c[k + 1] - c[k]) * d[k] / (d[k] - d[k + 1]))
        # away from the crossing the curve must not fold back to within the code's interpolation step
        far = np.abs(np.log(c / c[k])) > 0.03
        usable.append(bool(np.min(np.abs(d[far])) > np.max(np.abs(np.diff(d)[max(0, k - 3) : k + 3])) * 8))
    usable = np.array(usable)
    cls = C.Ludlow2016 if case["alias"] else C.Ludlow16
    obj = cls(**kw, **case["spec"]["params"])
    got = finite("concentration", obj.cm(m, z))
    if not usable.any():
        return note.trivial("no unique formation time")
    want = par["norm"] * np.array(want)
    close("concentration of Ludlow16", got[usable], want[usable], rtol=1e-2)
    for i in np.where(usable)[0][:1]:
        close("a single mass", float(np.squeeze(obj.cm(float(m[i]), z))), got[i], rtol=1e-9)
    perm = np.argsort(np.sin(11 * np.arange(len(m))))
    close("masses in another order", obj.cm(m[perm], z), got[perm], rtol=1e-9)
    close("integer masses", obj.cm(m.astype(np.int64), z), obj.cm(np.floor(m), z), rtol=1e-9)
    note("alias" if case["alias"] else "Ludlow16"), note("z=0" if z == 0 else "z>0")


def fn_framework(case, note):
    """A halo model's concentrations are those of its own cosmology, redshift and mass definition, used in its profile."""
    cfg = case["cfg"]
    n, par = case["spec"]["name"], dict(case["spec"]["params"])
    h = M.dm(cfg, halo_concentration_model=n, halo_concentration_params=par)
    m, z = h.m, cfg["z"]
    if n == "Duffy08":
        md = cfg["mdef"] or dict(name="SOMean", overdensity=200)
        md = {"SOVirial": "vir"}.get(md["name"], f"{md.get('overdensity')}{'m' if md['name'] == 'SOMean' else 'c'}")
        want = F.duffy08(m, z, mdef=md, **{"sample": "relaxed", **par})
    elif n == "Maccio07":
        want = F.maccio07(m, z, **par)
    elif n == "Zehavi11":
        want = F.zehavi11(m, z, **par)
    elif n == "Bullock01Power":
        want = F.zehavi11(m, z, **{**dict(a=9.0, b=-0.13, c=1.0), **par})
    elif n == "Ludlow16Empirical":
        D = float(np.squeeze(h.growth.growth_factor(z)))
        want = F.ludlow16_empirical(m, z, D, delta_c=h.delta_c, **par)
    else:
        h0 = M.dm(dict(cfg, z=0.0))
        filt = TopHat(h0.k, h0.power)
        cls = getattr(C, n)
        comp = cls(cosmo=Cosmology(cosmo_model=h.cosmo), filter0=filt, growth=GrowthFactor(cosmo=h.cosmo), delta_c=h.delta_c,
                   mdef=h.mdef, sigma_8=h.sigma_8, ns=h.n, **par)
        want = comp.cm(m, z)
    close(f"concentrations of the model ({n})", h.cmz_relation, want, rtol=1e-5)
    close("profile concentrations", h.halo_profile.cm_relation(m), want, rtol=1e-5)
    t = M.tracer(cfg, halo_concentration_model="Zehavi11", tracer_concentration_model=n, tracer_concentration_params=par)
    close(f"tracer concentrations ({n})", t.tracer_cmz_relation, want, rtol=1e-5)
    close("halo concentrations beside them", t.cmz_relation, F.zehavi11(m, z), rtol=1e-6)
    note(n)


base = dict(lm=G.uniq(fl(9, 15.8), 1, 6), z=st.one_of(st.just(0.0), fl(0, 5)), delta_c=st.one_of(st.just(1.686), fl(1.5, 1.9)))
hm = dict(cosmo=M.cosmo_params_st(), s8=fl(0.65, 0.95), n=fl(0.92, 1.0))
FRAME = ["Duffy08", "Maccio07", "Zehavi11", "Bullock01Power", "Ludlow16Empirical", "Bullock01", "Ludlow16"]
CLAUSES = [
    Clause("power", lambda: fx(spec=spec_st(["Duffy08", "Duffy08", "Maccio07", "Zehavi11", "Bullock01Power", "Ludlow16Empirical"]), cosmo=G.cosmo_st,
                               mdef=st.one_of(G.mdef_st, st.just(dict(name="SOMean", overdensity=200)), st.just(dict(name="SOCritical", overdensity=200))), **base),
           fn_power, quick=5000, shards=3, rule="random relation, parameters, masses, redshift, mass definition", what="closed-form relations"),
    Clause("bullock", lambda: fx(spec=spec_st(["Bullock01", "Bullock01Power"]), **dict(base, z=st.one_of(st.just(0.0), fl(0, 2.5))), **hm), fn_bullock, quick=800, shards=6,
           rule="random cosmology, masses, redshift", what="relations based on collapse times and nonlinear mass, against root finding"),
    Clause("ludlow", lambda: fx(spec=spec_st(["Ludlow16"]), alias=st.booleans(), mdef=st.sampled_from([dict(name="SOCritical", overdensity=200), dict(name="SOMean", overdensity=200), dict(name="SOVirial")]),
                                **dict(base, z=st.one_of(st.just(0.0), fl(0, 4))), **hm), fn_ludlow, quick=900, shards=6,
           rule="random cosmology, masses, redshift; non-trivial when the formation time is unique", what="Ludlow16, against an independent solution"),
    Clause("framework", lambda: fx(cfg=M.dm_cfg(), spec=spec_st(FRAME)), fn_framework, quick=700, shards=6, rule="random halo model",
           what="halo and tracer concentrations used by halo models"),
]
