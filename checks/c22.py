"""C22: warm dark matter."""

import warnings

import numpy as np
from hypothesis import strategies as st

from checks import c13, c19
from checks.c13 import hods
from vlib import formulas as F
from vlib import gen as G
from vlib import models as M
from vlib.core import Clause, Violation
from vlib.util import close, ensure, finite, fl, fx, raises

ASSUMPTIONS = [
    "The transfer functions, half-mode masses and recalibrated mass functions of warm dark matter are those of the hmf dependency.",
    "Particle masses from 0.3 to 10 keV, and 1e5 keV for the cold limit; mass ranges from 1e8.3 to 1e17 Msun/h.",
    "The suppression of concentrations includes a power of (1+z) which does not depend on the particle mass.",
]
DEF = dict(g1=60, g2=0.17, beta0=0.026, beta1=0.04)
ALTER = {
    "Schneider12_vCDM": lambda q, p: (1 + q) ** -p.get("beta", 1.16),
    "Schneider12": lambda q, p: (1 + q) ** -p.get("alpha", 0.6),
    "Lovell14": lambda q, p: (1 + p.get("gamma", 2.7) * q) ** -p.get("beta", 0.99),
}


def warm():
    return M.merged(
        fx(wdm_mass=st.one_of(fl(-0.5, 1).map(lambda v: 10**v), st.just(1.0))),
        st.one_of(
            st.just({}), fx(alter_model=st.sampled_from(sorted(ALTER))),
            fx(alter_model=st.just("Schneider12_vCDM"), alter_params=fx(beta=fl(0.3, 2))),
            fx(alter_model=st.just("Lovell14"), alter_params=fx(beta=fl(0.3, 2), gamma=fl(0.5, 4))),
        ),
        st.one_of(st.just({}), st.just({}), fx(wdm_params=fx(g_x=fl(1, 2)))),
    )


def cm_st():
    return st.sampled_from(["Duffy08", "Duffy08WDM", "Zehavi11WDM", "Maccio07WDM", "Ludlow16Empirical", "Ludlow16EmpiricalWDM"])


def suppression(m, z, m_hm, p):
    p = {**DEF, **p}
    return (1 + p["g1"] * m_hm / m) ** -p["g2"] * (1 + z) ** (p["beta0"] * z - p["beta1"])


def fn_power(case, note):
    from halomod.wdm import HaloModelWDM, TracerHaloModelWDM

    cfg = dict(case["cfg"])
    h = M.tracer(cfg, cls=TracerHaloModelWDM if case["tracer"] else HaloModelWDM, force_unity_dm_bias=case["unity"])
    ref_cfg = {k: v for k, v in cfg.items()}
    r = M.Ref(h, ref_cfg)
    ks = np.where((h.k_hm > 1e-3) & (h.k_hm < 30))[0]
    ks = ks[np.unique(np.asarray(case["idx"]) % len(ks))]
    k = np.asarray(h.k_hm)[ks]
    tol = M.prof_tol(cfg["prof"])
    phc, e = (np.exp(M.InterpolatedUnivariateSpline(np.log(h.k), np.log(M.spectrum(h)), k=o)(np.log(k))) for o in (3, 1))
    e = 1e-6 + np.abs(e / phc - 1) + np.abs(M.InterpolatedUnivariateSpline(h.k, M.spectrum(h))(k) / phc - 1)
    e = np.minimum(e, 0.1)  # how well the wavenumbers resolve the spectrum
    nm = lambda x: r.n(x) * x
    rho = r.integral(nm)[0]
    f = float(h.f_halos)
    close("fraction of matter in halos", f, rho / r.rho0, rtol=6e-3)
    ensure(0 < f, f"fraction of matter in halos is {f}")
    if f > 0.98:
        return note.trivial("hardly any smooth matter")  # not all mass functions are normalised
    close("density in halos", h.mean_density_halos, f * r.rho0, rtol=1e-4)
    close("density outside halos", h.mean_density_smooth, (1 - f) * r.rho0, rtol=1e-3)
    b0 = r.integral(lambda x: nm(x) * r.b(x))[0]
    rho = f * r.rho0
    beff = 1.0 if case["unity"] else b0 / rho
    close("effective bias of halos", float(h.bias_effective_matter), beff, rtol=3e-3)
    bs = (1 - f * beff) / (1 - f)
    ebs = 4e-3 * f * beff / (1 - f)
    close("bias of smooth matter", float(h.bias_smooth), bs, rtol=1e-6, atol=ebs)
    bs = float(h.bias_smooth)
    bu = np.array([r.integral(lambda x: nm(x) * r.b(x) * r.u(kk, x))[0] for kk in k])
    I = bu / (b0 if case["unity"] else rho)
    one = np.asarray(h.power_1h_auto_matter)[ks]
    full = np.array([r.integral(lambda x: r.n(x) * x**2 * r.u(kk, x) ** 2)[0] for kk in k]) / r.rho0**2
    want1 = np.array([r.integral(lambda x: r.n(x) * x**2 * r.u(kk, x) ** 2, r.lowest(kk, h.m[0]))[0] for kk in k]) / r.rho0**2
    close("one-halo matter power", one, want1, rtol=4 * tol, atol=2e-3 * full)
    ss, sh, hh = bs**2 * phc, bs * I * phc, want1 / f**2 + I**2 * phc
    close("smooth-smooth power", np.asarray(h.power_auto_matter_ss)[ks], ss, rtol=4e-3, atol=e * ss)
    close("smooth-halo power", np.asarray(h.power_auto_matter_sh)[ks], sh, rtol=2 * tol + 4e-3, atol=e * np.abs(sh))
    at = 2e-3 * full / f**2
    close("halo-halo power", np.asarray(h.power_auto_matter_hh)[ks], hh, rtol=4 * tol + 4e-3, atol=at + e * hh)
    total = (1 - f) ** 2 * ss + 2 * f * (1 - f) * sh + f**2 * hh
    got = finite("matter power", h.power_auto_matter)
    ensure(got.shape == h.k_hm.shape, "length of the matter power")
    size = (1 - f) ** 2 * ss + 2 * f * (1 - f) * np.abs(sh) + f**2 * hh
    close("matter power", got[ks], total, rtol=0, atol=(4 * tol + 4e-3 + e) * size + 2e-3 * full)
    if not cfg["prof"]["name"].endswith("Inf"):
        i = int(np.argmin(np.abs(h.k_hm - 2e-3)))
        if abs(np.log10(h.k_hm[i] / 2e-3)) < 0.3:
            p0 = float(np.exp(M.InterpolatedUnivariateSpline(np.log(h.k), np.log(M.spectrum(h)))(np.log(h.k_hm[i]))))
            close("large scales", got[i] - float(h.power_1h_auto_matter[i]), p0, rtol=1.5e-2)
    # function and tabulated forms
    fnc = np.asarray(h.power_auto_matter_fnc(h.k_hm))
    if not np.allclose(fnc, got, rtol=1e-3):
        if np.allclose(fnc, h.power_1h_auto_matter + h.power_2h_auto_matter, rtol=1e-6):
            note.known_finding("wdm-function-form")
        else:
            close("function form of the matter power", fnc, got, rtol=1e-3)
    note("forced unit bias" if case["unity"] else "free bias"), note("tracer" if case["tracer"] else "matter")
    note(cfg.get("alter_model") or "plain mass function"), note(cfg["halo_concentration_model"])


def fn_tracer(case, note):
    from halomod.wdm import TracerHaloModelWDM

    # more massive halos dominate: transforms are needed further out
    c13.fn_power(case, note, numeric=3, cls=TracerHaloModelWDM)


def fn_projected(case, note):
    from halomod.wdm import ProjectedCFWDM

    c19.fn_model(case, note, cls=ProjectedCFWDM)


def fn_mass_function(case, note):
    """Suppression of the linear power and of the mass function."""
    from halomod import DMHaloModel
    from halomod.wdm import HaloModelWDM

    cfg = dict(case["cfg"])
    kw = M.kwargs(cfg)
    h = HaloModelWDM(**kw)
    for q in ("wdm_mass", "alter_model", "alter_params", "wdm_params"):
        kw.pop(q, None)
    kw["halo_concentration_model"] = "Duffy08"
    c = DMHaloModel(**kw)
    g = cfg.get("wdm_params", {}).get("g_x", 1.5)
    lam = 0.049 * cfg["wdm_mass"] ** -1.11 * ((h.cosmo.Om0 - h.cosmo.Ob0) / 0.25) ** 0.11 * (h.cosmo.h / 0.7) ** 1.22 * (1.5 / g) ** 0.29
    T2 = (1 + (lam * np.asarray(h.k)) ** 2.24) ** (-10 / 1.12)
    ratio = np.asarray(h.power) / np.asarray(c.power)
    ok = T2 > 1e-12
    close("suppression of the linear power", ratio[ok] / ratio[0], (T2 / T2[0])[ok], rtol=1e-5)
    close("half-mode mass", float(h.wdm.m_hm), 4 / 3 * np.pi * c.mean_density0 * (1 + cfg["z"]) ** 3 * (np.pi * lam * (2 ** (1.12 / 5) - 1) ** (-1 / 2.24)) ** 3, rtol=1e-3)
    plain = HaloModelWDM(**{**M.kwargs(cfg), "alter_model": None, "alter_params": {}})
    want = np.array(plain.dndm)
    if cfg.get("alter_model"):
        want = want * ALTER[cfg["alter_model"]](h.wdm.m_hm / np.asarray(h.m), cfg.get("alter_params", {}))
        note(cfg["alter_model"])
    close("recalibrated mass function", h.dndm, want, rtol=1e-9)
    note("mass function")
    nc, nh = (float(np.asarray(x.sigma)[-1]) for x in (c, h))
    s = (np.asarray(c.sigma) / nc) / (np.asarray(h.sigma) / nh)
    ensure(np.all(s > 0.98), "warm dark matter enhances fluctuations of low masses")
    # switching the particle mass is the same as starting with it
    h.update(wdm_mass=case["mass2"])
    fresh = HaloModelWDM(**{**M.kwargs(cfg), "wdm_mass": case["mass2"]})
    for q in ("dndm", "f_halos", "cmz_relation", "power_auto_matter", "halo_bias"):
        close(f"{q} after a change of particle mass", getattr(h, q), getattr(fresh, q), rtol=1e-9)


def fn_cold(case, note):
    from halomod import TracerHaloModel
    from halomod.wdm import HaloModelWDM, TracerHaloModelWDM

    cfg = dict(case["cfg"])
    name = cfg.pop("halo_concentration_model")
    cold = M.tracer(dict(cfg, halo_concentration_model=name[:-3] if name.endswith("WDM") else name), cls=TracerHaloModel)
    mx = 1e5
    hot = M.tracer(dict(cfg, halo_concentration_model=name, wdm_mass=mx), cls=TracerHaloModelWDM)
    for q in ("dndm", "halo_bias", "nu", "power", "sigma"):
        close(f"{q} of cold particles", getattr(hot, q), getattr(cold, q), rtol=2e-4)
    c = np.asarray(cold.cmz_relation)
    z = cfg["z"]
    if name.endswith("WDM"):
        c = c * (1 + z) ** (DEF["beta0"] * z - DEF["beta1"])
    close("concentrations of cold particles", hot.cmz_relation, c, rtol=2e-4)
    same = z == 0 or not name.endswith("WDM")
    if same:
        if not float(cold.mean_tracer_den) > 1e-15:
            return note.trivial("hardly any tracers")
        for q in ("mean_tracer_den", "bias_effective_tracer", "mass_effective"):
            close(f"{q} of cold particles", float(getattr(hot, q)), float(getattr(cold, q)), rtol=1e-3)
        for q in ("power_1h_auto_matter", "power_2h_auto_matter", "power_1h_auto_tracer", "power_2h_auto_tracer"):
            w = np.asarray(getattr(cold, q))
            close(f"{q} of cold particles", getattr(hot, q), w, rtol=2e-3, atol=1e-5 * np.max(np.abs(w)))
        note("spectra")
    # a lighter particle suppresses more
    if case["cfg"]["hmf"] != "PS":
        lo, hi = (M.tracer(dict(cfg, halo_concentration_model=name, wdm_mass=m), cls=TracerHaloModelWDM) for m in case["masses"])
        ensure(np.all(np.asarray(lo.cmz_relation) <= np.asarray(hi.cmz_relation) * 1.2), "concentrations grow for lighter particles")


def fn_defaults(case, note):
    """The frameworks with their own defaults."""
    import halomod.wdm as W

    h = getattr(W, case["cls"])(wdm_mass=case["mass"], **case["kw"])
    try:
        p = finite("matter power", h.power_auto_matter)
    except ValueError as e:
        if "kw" in case and not case["kw"] and "x must be increasing" in str(e):
            return note.known_finding("wdm-default-range")
        raise Violation(f"spectra of the default model fail: {e!r}")
    ensure(np.all(p > 0), "power of the default model")
    note(case["cls"])


RELATIONS = ["Bullock01", "Bullock01Power", "Duffy08", "Zehavi11", "Maccio07", "Ludlow16Empirical", "Ludlow16"]


def fn_relation(case, note):
    from halomod import concentration as C
    from halomod.wdm import CMRelationWDMRescaled

    name = case["name"]
    cosmo, md = G.cosmology(case["cosmo"]), G.mdef(case["mdef"])
    m, z = np.array(case["m"]), case["z"]
    K = CMRelationWDMRescaled(name + ("WDM" if case["suffix"] else ""))
    base = getattr(C, name)
    ensure(isinstance(K, type) and issubclass(K, base), "a rescaled relation is one of its own kind")
    kw = dict(mdef=md)
    if name in ("Duffy08",):
        kw.pop("mdef") if case["plain"] else None
    par = dict(case["par"])
    if case["own"] and "norm" in base._defaults:
        par2 = {"norm": 1.3}
    else:
        par2 = {}
    nums = sorted(k for k, v in base._defaults.items() if isinstance(v, float) and k != "norm")
    for j in case["tweak"]:
        if nums:
            par2[nums[j % len(nums)]] = base._defaults[nums[j % len(nums)]] * 1.04
    if name == "Duffy08" and case["tweak"]:
        par2.update(a=8.5, b=-0.11, c=-0.7)
    before = dict(base._defaults)
    wd = K(m_hm=case["m_hm"], **kw, **par, **par2)
    cd = base(**kw, **par2)
    want = np.asarray(cd.cm(m, z=z)) * suppression(m, z, case["m_hm"], par)
    close("rescaled concentrations", wd.cm(m, z=z), want, rtol=1e-9)
    close("at redshift zero by default", wd.cm(m), np.asarray(cd.cm(m, z=0.0)) * suppression(m, 0.0, case["m_hm"], par), rtol=1e-9)
    i = case["pick"] % len(m)
    close("single mass", float(np.ravel(wd.cm(float(m[i]), z=z))[0]), want[i], rtol=1e-6 if name != "Ludlow16" else 1e-3)
    ensure(dict(base._defaults) == before, "defaults of the cold relation changed")
    ensure(not set(DEF) & set(cd.params), "parameters of the rescaling in the cold relation")
    # the default half-mode mass, another instance, later changes of the half-mode mass
    close("default half-mode mass", K(**kw, **par, **par2).cm(m, z=z), np.asarray(cd.cm(m, z=z)) * suppression(m, z, 1000, par), rtol=1e-9)
    wd.m_hm = 10 * case["m_hm"]
    close("changed half-mode mass", wd.cm(m, z=z), np.asarray(cd.cm(m, z=z)) * suppression(m, z, 10 * case["m_hm"], par), rtol=1e-9)
    close("large masses", wd.cm(np.array([1e30]), z=0.0) / np.asarray(cd.cm(np.array([1e30]), z=0.0)), [1.0], rtol=1e-6) if name in ("Duffy08", "Zehavi11", "Maccio07") else None
    note(name), note("z>0" if z else "z=0")


def fn_model_relation(case, note):
    from halomod.wdm import CMRelationWDMRescaled, HaloModelWDM, TracerHaloModelWDM

    cfg = dict(case["cfg"])
    name = case["name"]
    par = dict(case["par"])
    model = CMRelationWDMRescaled(name) if case["cls"] else name + "WDM"
    kw = M.kwargs({k: v for k, v in cfg.items() if k != "halo_concentration_model"})
    cls = TracerHaloModelWDM if case["tracer"] else HaloModelWDM
    h = cls(halo_concentration_model=model, halo_concentration_params=par, **kw)
    c = cls(halo_concentration_model=name, **kw)
    z = cfg["z"]
    want = np.asarray(c.cmz_relation) * suppression(np.asarray(h.m), z, h.wdm.m_hm, par)
    close("concentrations of the model", h.cmz_relation, want, rtol=1e-8)
    if case["tracer"]:
        close("tracer concentrations", h.tracer_cmz_relation, want, rtol=1e-8)
    # a relation for the tracers alone
        t = cls(halo_concentration_model=name, tracer_concentration_model=CMRelationWDMRescaled(case["name2"]), tracer_concentration_params=par, **kw)
        d = cls(halo_concentration_model=name, tracer_concentration_model=case["name2"], **kw)
        close("halo concentrations besides those of tracers", t.cmz_relation, c.cmz_relation, rtol=1e-8)
        close("rescaled tracer concentrations", t.tracer_cmz_relation, np.asarray(d.tracer_cmz_relation) * suppression(np.asarray(h.m), z, h.wdm.m_hm, par), rtol=1e-8)
        note("tracer relation")
    for upd in case["updates"]:
        z = upd.get("z", z)
        upd = dict(upd)
        new = upd.pop("par", None)
        if new is not None:
            par = {**par, **new}
            h.update(halo_concentration_params=new)
            if case["tracer"]:
                t.update(tracer_concentration_params=new)
        h.update(**upd)
        c.update(**upd)
        sup = suppression(np.asarray(h.m), z, h.wdm.m_hm, par)
        what = f"after updating {sorted(upd) or sorted(new)}"
        close(what, h.cmz_relation, np.asarray(c.cmz_relation) * sup, rtol=1e-8)
        if case["tracer"]:
            t.update(**upd)
            d.update(**upd)
            if new is None:
                close("tracer concentrations " + what, h.tracer_cmz_relation, np.asarray(c.cmz_relation) * sup, rtol=1e-8)
            close("halo concentrations besides those of tracers, " + what, t.cmz_relation, c.cmz_relation, rtol=1e-8)
            close("rescaled tracer concentrations " + what, t.tracer_cmz_relation, np.asarray(d.tracer_cmz_relation) * sup, rtol=1e-8)


PAR = lambda: st.fixed_dictionaries({}, optional=dict(g1=fl(10, 100), g2=fl(0.05, 0.4), beta0=fl(0, 0.1), beta1=fl(0, 0.1)))
WCFG = lambda: M.merged(M.power_cfg(halo_concentration_model=cm_st()), warm())
CLAUSES = [
    Clause("power", lambda: fx(cfg=WCFG(), unity=st.booleans(), tracer=st.booleans(), idx=st.lists(st.integers(0, 200), min_size=1, max_size=4, unique=True)),
           fn_power, quick=400, shards=8, rule="random cosmology, redshift, particle mass, mass function, profile, concentration",
           what="fraction in halos, smooth bias, smooth/halo/total power against independent integrals"),
    Clause("tracer", lambda: fx(cfg=M.merged(M.tracer_cfg(hods(), halo_concentration_model=cm_st()), warm()), idx=st.lists(st.integers(0, 200), min_size=1, max_size=3, unique=True)),
           fn_tracer, quick=120, shards=4, rule="there are tracers", what="tracer power in warm dark matter"),
    Clause("projected", lambda: fx(cfg=M.merged(M.tracer_cfg(hods(), halo_concentration_model=cm_st()), warm()), rp_min=fl(0.03, 2), decades=fl(0.5, 1.6), num=st.integers(1, 8), log=st.booleans(),
                                   limit=st.one_of(st.none(), fl(30, 200)), array=st.none(), rps=st.just([]), rnum=st.integers(80, 120), seed=st.just(0), update=st.booleans()),
           fn_projected, quick=24, shards=4, rule="there are tracers", what="projected correlations in warm dark matter"),
    Clause("massfunction", lambda: fx(cfg=WCFG(), mass2=fl(0.3, 10)), fn_mass_function, quick=120, shards=4, rule="always",
           what="linear power, half-mode mass, recalibrated mass function, change of particle mass"),
    Clause("cold", lambda: fx(cfg=M.tracer_cfg(hods(), halo_concentration_model=cm_st()), masses=st.tuples(fl(0.3, 1), fl(2, 10))), fn_cold, quick=60, shards=4,
           rule="there are tracers", what="limit of heavy particles"),
    Clause("defaults", lambda: fx(cls=st.sampled_from(["HaloModelWDM", "TracerHaloModelWDM", "ProjectedCFWDM"]), mass=fl(0.3, 10), kw=st.sampled_from([{}, {"Mmin": 8.5}, {"Mmin": 8.5, "z": 1.0}])),
           fn_defaults, quick=12, shards=1, rule="spectra available", what="frameworks with their own defaults"),
    Clause("relation", lambda: fx(name=st.sampled_from(RELATIONS[2:-1]), suffix=st.booleans(), cosmo=st.just(dict(name="Planck15")), mdef=G.mdef_st, m=st.lists(fl(8, 16).map(lambda v: 10**v), min_size=1, max_size=6),
                                  z=st.one_of(st.just(0.0), fl(0, 5)), m_hm=fl(5, 12).map(lambda v: 10**v), par=PAR(), own=st.booleans(), plain=st.booleans(), pick=st.integers(0, 9), tweak=st.lists(st.integers(0, 9), max_size=2)),
           fn_relation, quick=600, shards=2, rule="always", what="rescaled relations against the cold relation times the published suppression"),
    Clause("modelrelation", lambda: fx(cfg=M.merged(M.power_cfg(), warm()), name=st.sampled_from(["Duffy08", "Zehavi11", "Maccio07", "Ludlow16Empirical", "Ludlow16", "Bullock01", "Bullock01Power"]), name2=st.sampled_from(["Duffy08", "Zehavi11", "Maccio07", "Bullock01"]),
                                       cls=st.booleans(), tracer=st.booleans(), par=PAR(),
                                       updates=st.lists(st.one_of(fx(z=fl(0, 3)), fx(wdm_mass=fl(0.3, 5)), fx(wdm_mass=fl(0.3, 5), z=fl(0, 2)), fx(sigma_8=fl(0.7, 0.9)), fx(par=PAR().filter(bool)), fx(wdm_mass=fl(0.3, 5), par=PAR().filter(bool))), max_size=3)),
           fn_model_relation, quick=120, shards=4, rule="always", what="concentrations of halo models with rescaled relations, through updates"),
]
