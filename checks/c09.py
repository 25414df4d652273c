"""C09: bias and concentration components backed by colossus."""

import numpy as np
from hypothesis import strategies as st

from colossus.cosmology import cosmology as CC
from colossus.halo import concentration as KC
from colossus.lss import bias as KB
from hmf.cosmology.cosmo import Cosmology
from hmf.halos.mass_definitions import from_colossus_name
from halomod import bias as B
from halomod import concentration as C
from vlib import gen as G
from vlib import models as M
from vlib.core import Clause
from vlib.util import close, ensure, finite, fl, fx

ASSUMPTIONS = [
    "The colossus package itself is trusted; the reference calls it directly with the component's own cosmology.",
]
BM = ["cole89", "jing98", "sheth01", "seljak04", "pillepich10", "tinker10", "bhattacharya11", "comparat17"]
CMS = ["bullock01", "duffy08", "klypin11", "prada12", "bhattacharya13", "dutton14", "diemer15_orig", "diemer15",
       "ludlow16", "child18", "diemer19"]
BMDEF = ["200m", "200c", "vir", "500c", "300m"]


def set_cosmo(spec, s8, n):
    CC.fromAstropy(G.cosmology(spec), sigma8=s8, ns=n, cosmo_name="verif", persistence="")


def bias_ref(c):
    set_cosmo(c["cosmo"], c["s8"], c["n"])
    if c["model"] in ("jing98", "seljak04"):
        return None
    kw = dict(mdef=c["mdef"]) if c["model"] == "tinker10" else {}
    return np.asarray(KB.haloBiasFromNu(nu=np.array(c["nu"]), z=c["z"], model=c["model"], **kw))


def cm_ref(c, m=None):
    set_cosmo(c["cosmo"], c["s8"], c["n"])
    return c["norm"] * np.asarray(KC.concentration(M=10 ** np.array(c["lm"]) if m is None else m, mdef=c["mdef"], z=c["z"], model=c["model"],
                                                   range_return=False, range_warning=False))


def make(c):
    cosmo = G.cosmology(c["cosmo"])
    if c["kind"] == "bias":
        cls = B.make_colossus_bias(model=c["model"], mdef=from_colossus_name(c["mdef"]))
        ensure(isinstance(cls, type) and issubclass(cls, B.Bias), "the factory must return a Bias class")
        return cls(nu=np.array(c["nu"]) ** 2, cosmo=cosmo, sigma_8=c["s8"], n=c["n"], z=c["z"])
    cls = C.make_colossus_cm(model=c["model"])
    ensure(isinstance(cls, type) and issubclass(cls, C.CMRelation), "the factory must return a CMRelation class")
    names = {str(from_colossus_name(d)) for d in KC.models[c["model"]].mdefs}
    ensure({str(x) for x in cls.native_mdefs} == names, f"native mass definitions {cls.native_mdefs}")
    return cls(norm=c["norm"], cosmo=Cosmology(cosmo_model=cosmo), mdef=from_colossus_name(c["mdef"]), sigma_8=c["s8"], ns=c["n"])


def value(c, obj):
    return np.asarray(obj.bias() if c["kind"] == "bias" else obj.cm(10 ** np.array(c["lm"]), c["z"]))


def fn_history(case, note):
    """Several components with their own cosmologies, built first, then evaluated in any order."""
    comps = case["comps"]
    objs = [make(c) for c in comps]
    for i in case["order"]:
        i %= len(comps)
        c = comps[i]
        got = value(c, objs[i])
        want = bias_ref(c) if c["kind"] == "bias" else cm_ref(c)
        close(f"{c['kind']} {c['model']} (component {i} of {len(comps)})", got, want, rtol=1e-6)
        note(f"{c['kind']} {c['model']}")
        if case["disturb"]:
            CC.setCosmology("WMAP5", persistence="")
    if len({str(sorted(c["cosmo"].items())) for c in comps}) > 1:
        note("different cosmologies")


def fn_model(case, note):
    """Used in a halo model: the model's own cosmology, normalisation, redshift and mass definition."""
    cfg, c = dict(case["cfg"]), case["comp"]
    mdn = c["mdef"]
    cfg.pop("hmf"), cfg.pop("mdef")
    md = from_colossus_name(mdn)
    kw = dict(mdef_model=type(md).__name__, mdef_params=dict(md.params), hmf_model="Tinker08")
    cls = C.make_colossus_cm(model=c["model"])
    h = M.dm(cfg, halo_concentration_model=cls, halo_concentration_params=dict(norm=c["norm"]) if case["norm"] else {}, **kw)
    other = M.dm(dict(case["other"], z=0.3), halo_concentration_model=C.make_colossus_cm(model="duffy08"), **dict(kw, mdef_model="SOCritical", mdef_params=dict(overdensity=200)))
    h.halo_concentration
    other.cmz_relation
    got = h.cmz_relation
    CC.fromAstropy(h.cosmo, sigma8=h.sigma_8, ns=h.n, cosmo_name="verif", persistence="")
    want = (c["norm"] if case["norm"] else 1.0) * np.asarray(KC.concentration(
        M=h.m, mdef=mdn, z=h.z, model=c["model"], range_return=False, range_warning=False))
    close("concentrations of the halo model", got, want, rtol=1e-6)
    if case["tracer"]:
        # the same for tracers, in halos with another relation or the same
        t = M.tracer(cfg, halo_concentration_model=cls if case["same"] else "Duffy08", tracer_concentration_model=cls,
                     tracer_concentration_params=dict(norm=c["norm"]), **kw)
        other.cmz_relation
        got = t.tracer_cmz_relation
        CC.fromAstropy(h.cosmo, sigma8=h.sigma_8, ns=h.n, cosmo_name="verif", persistence="")
        want = c["norm"] * np.asarray(KC.concentration(M=t.m, mdef=mdn, z=h.z, model=c["model"], range_return=False, range_warning=False))
        close("concentrations of the tracers", got, want, rtol=1e-6)
        note("tracers")
    bc = B.make_colossus_bias(model=case["bias"], mdef=md)
    h.update(bias_model=bc)
    h.bias
    other.cmz_relation
    got = h.halo_bias
    CC.fromAstropy(h.cosmo, sigma8=h.sigma_8, ns=h.n, cosmo_name="verif", persistence="")
    bk = dict(mdef=mdn) if case["bias"] == "tinker10" else {}
    z = [KB.haloBiasFromNu(nu=np.sqrt(h.nu), z=zz, model=case["bias"], **bk) for zz in (h.z, 0.0)]
    if np.allclose(got, z[1], rtol=1e-6) and not np.allclose(got, z[0], rtol=1e-6):
        note("bias at z=0 (see the known finding of C08)")
        z[0] = z[1]
    close("halo bias of the halo model", got, z[0], rtol=1e-6)
    note(c["model"]), note(case["bias"])


def fn_interp(case, note):
    """Concentrations interpolated over masses for which the relation is undefined."""
    class Base(C.CMRelation):
        _defaults = {"a": 5.0}
        native_mdefs = (from_colossus_name("200m"),)

        def cm(self, m, z=0):
            out = self.params["a"] * (m / 1e12) ** case["slope"] / (1 + z)
            return np.where(np.isin(np.arange(len(m)), case["bad"]), -1.0, out)

    cls = C.interp_concentration(Base)
    obj = cls(a=case["a"])
    m = 10 ** np.sort(np.array(case["lm"]))
    raw = Base(a=case["a"]).cm(m, case["z"])
    got = np.asarray(obj.cm(m, case["z"]))
    ok = raw > 0
    ensure(np.all(got > 0), "a concentration which is not positive")
    if ok.sum() == 0:
        close("nothing defined", got, np.ones_like(m))
        return note("all undefined")
    if ok.sum() == 1:
        return note.trivial("one defined mass")
    close("defined masses", got[ok], raw[ok], rtol=1e-12)
    inside = (m > m[ok][0]) & (m < m[ok][-1]) & ~ok
    close("interpolated masses", got[inside], np.interp(m[inside], m[ok], raw[ok]), rtol=1e-10)
    outside = (m < m[ok][0]) | (m > m[ok][-1])
    close("masses outside", got[outside], np.ones(outside.sum()))
    ensure(cls._defaults == Base._defaults, "defaults of the interpolated relation")
    note("gaps" if inside.any() else "no gaps"), note("outside" if outside.any() else "no outside")


cosmos = st.one_of(st.just(dict(name="Planck15")), st.just(dict(name="WMAP7")),
                   fx(name=st.just("flat"), H0=fl(60, 80), Om0=fl(0.2, 0.4), Ob0=fl(0.035, 0.06)))
common = dict(cosmo=cosmos, s8=fl(0.7, 0.9), n=fl(0.93, 1.0), z=st.one_of(st.just(0.0), fl(0, 2.5)))
bias_c = fx(kind=st.just("bias"), model=st.sampled_from([b for b in BM if b not in ("jing98", "seljak04")]), mdef=st.sampled_from(BMDEF),
            nu=st.lists(fl(0.3, 5), min_size=1, max_size=4), **common)
cm_one = st.sampled_from(CMS).flatmap(lambda m: fx(
    kind=st.just("cm"), model=st.just(m), mdef=st.sampled_from(list(KC.models[m].mdefs)), norm=st.one_of(st.just(1.0), fl(0.5, 2)),
    lm=st.lists(fl(10.5, 15), min_size=1, max_size=4), **common))
CLAUSES = [
    Clause("history", lambda: fx(comps=st.lists(st.one_of(bias_c, cm_one), min_size=1, max_size=3),
                                 order=st.lists(st.integers(0, 5), min_size=1, max_size=4), disturb=st.booleans()),
           fn_history, quick=700, shards=8, rule="up to three components of random kind, cosmology, redshift; evaluated in random order",
           what="each component equals a direct colossus call with its own cosmology, whatever else was built or evaluated"),
    Clause("model", lambda: fx(cfg=M.dm_cfg(), other=M.dm_cfg(), comp=cm_one, norm=st.booleans(), tracer=st.booleans(), same=st.booleans(), bias=st.sampled_from(["tinker10", "comparat17", "sheth01", "bhattacharya11"])),
           fn_model, quick=240, shards=8, rule="random halo model", what="halo models using colossus components"),
    Clause("interp", lambda: fx(lm=G.uniq(fl(9, 16), 2, 8), bad=st.lists(st.integers(0, 7), max_size=8), a=fl(2, 20), slope=fl(-0.3, 0.1), z=fl(0, 3)),
           fn_interp, quick=1000, rule="random tables with undefined entries", what="interpolation over undefined masses"),
]
