"""C23: model resolution, iteration over parameters, command line, reported parameters."""

import itertools
import os
import random
import shutil
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st

from checks import c01
from vlib import models as M
from vlib.core import Clause, Violation
from vlib.util import close, ensure, fl, fx

ASSUMPTIONS = [
    "Names and defaults of transfer functions, mass functions, filters and growth models, the order of iteration and the "
    "format of files are those of hmf; only array quantities can be written by its command-line runner.",
    "Coarse grids are used: both sides of every comparison use the same.",
]

PROFILES = ["NFW", "NFWInf", "Hernquist", "HernquistInf", "Moore", "MooreInf", "Constant", "GeneralizedNFW", "GeneralizedNFWInf", "Einasto", "CoredNFW", "PowerLawWithExpCut"]
CMS = ["Bullock01", "Bullock01Power", "Maccio07", "Duffy08", "Zehavi11", "Ludlow16", "Ludlow16Empirical", "Ludlow2016", "Ludlow2016Empirical"]
#: kind -> (parameter prefixes, module, base class, documented models)
KINDS = {
    "bias": (["bias"], "bias", "Bias", ["UnityBias", "Mo96", "Jing98", "ST99", "SMT01", "Seljak04", "Seljak04Cosmo", "Tinker05", "Mandelbaum05", "Pillepich10", "Manera10", "Tinker10", "Tinker10PBSplit"]),
    "sd_bias": (["sd_bias"], "bias", "ScaleDepBias", ["TinkerSD05"]),
    "profile": (["halo_profile", "tracer_profile"], "profiles", "Profile", PROFILES),
    "concentration": (["halo_concentration", "tracer_concentration"], "concentration", "CMRelation", CMS),
    "hod": (["hod"], "hod", "HOD", ["Zehavi05", "Zheng05", "Contreras13", "Geach12", "Tinker05", "Zehavi05WithMax", "Zehavi05Marked", "ContinuousPowerLaw", "Constant", "Spinelli19", "Leauthaud11"]),
    "exclusion": (["exclusion"], "halo_exclusion", "Exclusion", ["NoExclusion", "Sphere", "DblSphere", "DblSphere_", "DblEllipsoid", "DblEllipsoid_", "NgMatched", "NgMatched_"]),
}
#: where the component built from a parameter is found
ATTR = {"bias": "bias", "sd_bias": "sd_bias", "halo_profile": "halo_profile", "tracer_profile": "tracer_profile", "halo_concentration": "halo_concentration",
        "tracer_concentration": "tracer_concentration", "hod": "hod"}
SMALL = dict(transfer_model="EH", dlnk=0.2, lnk_min=-9.0, lnk_max=6.0, dlog10m=0.2, Mmin=9.0, Mmax=16.0, dr_table=0.25, rnum=5, hm_dlog10k=0.3, rmin=0.05, rmax=60.0)
SHOW = {
    "bias": ["halo_bias", "bias_effective_tracer", "power_2h_auto_matter"],
    "sd_bias": ["sd_bias_correction", "corr_2h_auto_matter"],
    "profile": ["halo_profile_ukm", "tracer_profile_ukm", "power_1h_auto_tracer", "power_1h_cross_tracer_matter"],
    "concentration": ["cmz_relation", "tracer_cmz_relation", "power_1h_auto_tracer"],
    "hod": ["total_occupation", "mean_tracer_den", "power_1h_auto_tracer", "bias_effective_tracer"],
    "exclusion": ["corr_2h_auto_tracer", "corr_2h_auto_matter"],
}


def module(name):
    import importlib

    return importlib.import_module("halomod." + name)


def vary(defaults, seed):
    """Some of the scalar parameters of a model, changed a little."""
    r = random.Random(seed)
    out = {}
    for k, v in sorted(defaults.items()):
        if isinstance(v, (int, float)) and not isinstance(v, bool) and r.random() < 0.4:
            out[k] = v * r.choice([1.0, 0.98, 1.03]) if v else 0.01
    return out


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def outcome(h, names):
    """Values of quantities, or that they cannot be had."""
    return {n: quiet(c01.get, h, n) for n in names}


def agree(what, a, b):
    for n in a:
        if a[n][0] != b[n][0]:
            raise Violation(f"{what}: {n} gives {a[n][0]} {str(a[n][1])[:80]} and {b[n][0]} {str(b[n][1])[:80]}")
        if a[n][0] == "value":
            r = c01.same(a[n][1], b[n][1])
            if r:
                raise Violation(f"{what}: {n} differs: {r}")


def model_kw(case):
    # the default mass function depends on the bias at construction
    return dict(SMALL, z=case["z"], n=0.96, hmf_model="Tinker08")


def heavy(kind, name):
    return name in ("MooreInf", "GeneralizedNFWInf") or name in ("DblEllipsoid", "DblEllipsoid_")


def show(kind, name):
    if kind == "exclusion" and name.startswith(("DblEllipsoid",)):
        return ["corr_2h_auto_tracer"]
    if kind == "profile" and heavy(kind, name):
        return ["halo_profile", "tracer_profile"]  # transforms are expensive
    return SHOW[kind]


def fn_resolve(case, note):
    from halomod import TracerHaloModel

    kind, name = case["kind"], case["name"]
    prefixes, mod, _, _ = KINDS[kind]
    prefix = prefixes[case["which"] % len(prefixes)]
    cls = getattr(module(mod), name)
    kw = model_kw(case)
    if name in ("Einasto",):
        kw.update(dlog10m=0.5, dlnk=0.5)
    if heavy(kind, name):
        kw.update(dlog10m=0.5, dlnk=0.5, rnum=3, dr_table=0.5)
    par = vary(cls._defaults, case["seed"])
    if name == "Einasto":
        par["use_interp"] = False
    if kind == "hod" and case["central"] and "central" in cls._defaults:
        par["central"] = True
    kp = {f"{prefix}_params": dict(par)} if par else {}
    names = show(kind, name)
    try:
        by_class = quiet(TracerHaloModel, **{f"{prefix}_model": cls}, **kp, **kw)
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{prefix}_model={name} given as a class with {par} is refused: {e!r}") from e
    want = outcome(by_class, names)
    if all(v[0] == "error" for v in want.values()):
        raise Violation(f"nothing can be computed with {prefix}_model={name}, parameters {par}: {want}")
    # by its name
    by_name = quiet(TracerHaloModel, **{f"{prefix}_model": name}, **kp, **kw)
    ensure(getattr(by_name, f"{prefix}_model") is cls, f"{prefix}_model={name!r} resolves to {getattr(by_name, prefix + '_model')}")
    agree(f"{prefix}_model by name and by class", outcome(by_name, names), want)
    # by an update
    other = quiet(TracerHaloModel, **kw)
    if case["read"]:
        outcome(other, names)
    how = name if case["seed"] % 2 else cls
    if case["together"]:
        quiet(other.update, **{f"{prefix}_model": how}, **kp)
    else:
        quiet(other.update, **{f"{prefix}_model": how})
        if kp:
            quiet(other.update, **kp)
    agree(f"{prefix}_model by an update", outcome(other, names), want)
    # the component is that model with those parameters
    if prefix in ATTR:
        comp = getattr(by_name, ATTR[prefix])
        ensure(type(comp) is cls, f"{ATTR[prefix]} is a {type(comp).__name__} for {prefix}_model={name}")
        full = {**cls._defaults, **par}
        if name == "Leauthaud11":
            full.pop("M_min", None)  # derived
        ensure({k: comp.params.get(k) for k in full} == full, f"parameters of {name}: {comp.params}, given {par}")
    # a user's own model is reachable in the same ways
    own_name = f"Own{name}{os.getpid()}"
    own = type(own_name, (cls,), {})
    try:
        for v in (own, own_name):
            mine = quiet(TracerHaloModel, **{f"{prefix}_model": v}, **kp, **kw)
            ensure(getattr(mine, f"{prefix}_model") is own, "a model defined by the user is not found")
            if not (prefix.startswith("exclusion") or heavy(kind, name)):
                agree("a subclass without changes", outcome(mine, names), want)
        ensure(own_name in getattr(module(mod), KINDS[kind][2]).get_models(), "a model defined by the user is not listed")
    finally:
        getattr(module(mod), KINDS[kind][2])._plugins.pop(own_name, None)
    ensure(name in getattr(module(mod), KINDS[kind][2]).get_models(), f"{name} is not listed among the models")
    note(prefix), note(name), note("parameters" if par else "defaults")


def fn_alias(case, note):
    """Deprecated names and Colossus models."""
    from halomod import DMHaloModel
    from halomod import bias as B
    from halomod import concentration as C

    kw = model_kw(case)
    if case["what"] == "ludlow":
        new, old = case["pair"]
        a, b = (quiet(DMHaloModel, halo_concentration_model=x, **kw) for x in (new, old))
        agree(f"{old} and {new}", outcome(a, ["cmz_relation", "power_auto_matter"]), outcome(b, ["cmz_relation", "power_auto_matter"]))
    elif case["what"] == "cm":
        K = C.make_colossus_cm(model=case["model"])
        a = quiet(DMHaloModel, halo_concentration_model=K, mdef_model="SOCritical", mdef_params={"overdensity": 200}, **kw)
        ensure(a.halo_concentration_model is K and type(a.halo_concentration) is K, "Colossus relation of a model")
        K2 = C.make_colossus_cm(model=case["model"])
        b = quiet(DMHaloModel, halo_concentration_model=K2, mdef_model="SOCritical", mdef_params={"overdensity": 200}, **kw)
        agree("Colossus relations made twice", outcome(a, ["cmz_relation"]), outcome(b, ["cmz_relation"]))
        ensure(outcome(a, ["cmz_relation"])["cmz_relation"][0] == "value", f"Colossus relation {case['model']} in a model")
    else:
        K = B.make_colossus_bias(model=case["model"])
        a = quiet(DMHaloModel, bias_model=K, **kw)
        ensure(type(a.bias) is K, "Colossus bias of a model")
        ensure(outcome(a, ["halo_bias"])["halo_bias"][0] == "value", f"Colossus bias {case['model']} in a model")
    note(case["what"]), note(str(case.get("model") or case.get("pair")))


JUNK = ["", "nfw", "NFW ", "Tinker", "NoSuchModel", "Zehavi", "Duffy", "None", "object", 3, 2.5, True, ["NFW"], {"NFW": 1}]


def fn_refuse(case, note):
    """Names that are not models of that kind, and parameters that do not exist."""
    from halomod import AngularCF, ProjectedCF, TracerHaloModel

    kw = model_kw(case)
    r = random.Random(case["seed"])
    what = case["what"]
    if what == "model":
        kind = case["kind"]
        prefix = r.choice(KINDS[kind][0])
        bad = r.choice(["junk", "kind", "class", "instance", "mutant"])
        others = [k for k in KINDS if k != kind]
        o = r.choice(others)
        base = getattr(module(KINDS[kind][1]), KINDS[kind][2])
        if bad == "junk":
            v = r.choice(JUNK)
        elif bad == "kind":
            v = r.choice(KINDS[o][3])
        elif bad == "class":
            v = getattr(module(KINDS[o][1]), r.choice(KINDS[o][3]))
        elif bad == "instance":
            v = module("profiles").NFW(None) if kind != "profile" else module("hod").Zehavi05()
        else:
            n = r.choice(KINDS[kind][3])
            v = r.choice([n.lower(), n + "_x", n[:-1], n.swapcase(), n[1:], " " + n, n + "WDM"])
        if isinstance(v, str) and v in base.get_models():
            return note.trivial("a model of that kind")
        if isinstance(v, type) and issubclass(v, base):
            return note.trivial("a model of that kind")
        bad_kw = {f"{prefix}_model": v}
        note(bad)
    elif what == "component":
        kind = case["kind"]
        prefix = r.choice([p for p in KINDS[kind][0] if p in ATTR] or ["hod"])
        kind = "hod" if prefix == "hod" else kind
        name = r.choice([n for n in KINDS[kind][3] if not heavy(kind, n) and n != "Einasto"])
        par = r.choice(["no_such_parameter", "Alpha", "a_b", "m_hm", "z2"])
        k2 = dict(kw, **{f"{prefix}_model": name, f"{prefix}_params": {par: 1.0}})
        try:
            h = quiet(TracerHaloModel, **k2)
            got = getattr(h, ATTR[prefix])
        except Exception:  # noqa: BLE001
            return note("refused parameter of a component")
        raise Violation(f"{prefix}_params={{{par!r}: 1.0}} is accepted by {name}: {got}")
    elif what == "params":
        name = r.choice([f"{p}_params" for k in KINDS for p in KINDS[k][0]] + ["colossus_params"])
        bad_kw = {name: r.choice([3, 1.5, "alpha", ["alpha"], [("alpha", 1)], (1, 2), np.ones(3)])}
    elif what == "name":
        bad_kw = {r.choice(["no_such", "redshift", "hod", "halo_profile", "power_auto_matter", "Z", "omegam", "hod_model_params", "transfer_fit", "_params", "x_model"]): 1.0}
    else:
        bad_kw = r.choice([dict(hc_spectrum="Linear"), dict(hc_spectrum="filtered"), dict(hc_spectrum=None), dict(rmin=100.0), dict(hm_logk_min=3.0),
                           dict(rmin=5.0, rmax=5.0), dict(hm_logk_min=1.0, hm_logk_max=1.0), dict(z=-0.1), dict(rnum=0), dict(hod_params={"M_min": 30.0})])
    cls = {"t": TracerHaloModel, "p": ProjectedCF, "a": AngularCF}[case["cls"]]
    if what == "limits" and case["cls"] != "t":
        bad_kw = r.choice([dict(rp_num=-1)] if case["cls"] == "p" else [dict(theta_min=-1.0), dict(theta_max=200.0)])
    build = {k: v for k, v in kw.items() if not (cls is ProjectedCF and k in ("rmin", "rmax", "rnum"))}
    try:
        quiet(cls, **{**build, **bad_kw})
    except Exception:  # noqa: BLE001
        pass
    else:
        raise Violation(f"{cls.__name__}({bad_kw}) is accepted")
    h = quiet(cls, **build)
    names = ["halo_bias", "cmz_relation", "mean_tracer_den"]
    before = outcome(h, names) if case["read"] else None
    values = {k: v for k, v in h.parameter_values.items()}
    try:
        quiet(h.update, **bad_kw)
    except Exception:  # noqa: BLE001
        pass
    else:
        raise Violation(f"{cls.__name__}.update({bad_kw}) is accepted")
    if what in ("model", "params", "name"):
        after = h.parameter_values
        for k in values:
            ensure(k in after and (after[k] is values[k] or c01.same(c01.canon(k, after[k]), c01.canon(k, values[k])) is None), f"{k} changed to {after.get(k)!r} by the refused update({bad_kw})")
        got = outcome(h, names)
        agree(f"after the refused update({bad_kw})", got, before or outcome(quiet(cls, **build), names))
    note(what), note(cls.__name__)


QUANT = ["dndm", "halo_bias", "power_auto_matter", "power_auto_tracer", "mean_tracer_den", "bias_effective_tracer", "corr_auto_tracer", "cmz_relation", "k_hm", "r", "m", "satellite_fraction"]
DMQ = ["dndm", "halo_bias", "power_auto_matter", "cmz_relation", "k_hm", "r", "m", "corr_auto_matter", "bias_effective_matter"]
LISTS = dict(
    z=[0.0, 0.5, 1.3], sigma_8=[0.7, 0.8, 0.85], n=[0.94, 0.97], hmf_model=["Tinker08", "Tinker10", "Watson"], bias_model=["Tinker10", "ST99", "Mo96"],
    halo_profile_model=["NFW", "Hernquist", "CoredNFW"], halo_concentration_model=["Duffy08", "Zehavi11"], hc_spectrum=["linear", "nonlinear"],
    cosmo_params=[{"Om0": 0.25}, {"Om0": 0.33}], Mmin=[9.0, 10.0], transfer_model=["EH", "BBKS"], rnum=[4, 6], exclusion_model=["NoExclusion", "Sphere"],
    halo_concentration_params=[{"norm": 0.9}, {"norm": 1.1}], hod_params=[{"M_min": 11.5}, {"M_min": 12.0, "alpha": 1.2}, {"M_min": 12.5, "alpha": 0.9}],
    hod_model=["Zehavi05", "Zheng05"], delta_c=[1.686, 1.6], force_1halo_turnover=[True, False], takahashi=[True, False],
)


def grids(names=None, few=(0, 3)):
    def f(r):
        ks = r.sample(sorted(names or LISTS), r.randint(*few))
        out = {}
        for k in ks:
            v = r.sample(LISTS[k], r.randint(1, min(3, len(LISTS[k]))))
            # dictionaries merge when updated: keep to those with the same entries
            out[k] = v
        while len(out) > 1 and np.prod([len(v) for v in out.values()]) > 6:
            out.pop(r.choice(sorted(out)))
        if "hod_params" in out:
            out["hod_params"] = [dict({"alpha": 1.0}, **x) for x in out["hod_params"]]
        return out

    return c01.rnd(f)


def fn_iterate(case, note):
    from halomod import DMHaloModel, TracerHaloModel
    from halomod.functional import get_halomodel

    kls = DMHaloModel if case["dm"] else TracerHaloModel
    grid = {k: v for k, v in case["grid"].items() if not (case["dm"] and k.startswith("hod"))}
    qs = sorted({(DMQ if case["dm"] else QUANT)[i % (len(DMQ) if case["dm"] else len(QUANT))] for i in case["quants"]})
    kw = model_kw(case)
    kw.pop("z", None) if "z" in grid else None
    given = dict(kw)
    for k, v in grid.items():
        v = [dict(x) if isinstance(x, dict) else x for x in v]
        given[k] = tuple(v) if case["tuples"] else v
    names = qs[0] if len(qs) == 1 and case["single"] else list(qs)
    opts = {} if kls is TracerHaloModel and case["plain"] else dict(kls=kls)
    try:
        it = get_halomodel(names, get_label=case["label"], **opts, **given)
        got = []
        for row in quiet(lambda: list(_copying(it, case["label"]))):
            got.append(row)
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation(f"iteration over {given} fails: {e!r}") from e
    combos = [dict(zip(grid, v)) for v in itertools.product(*grid.values())]
    ensure(len(got) == len(combos), f"{len(got)} models for {len(combos)} combinations of {grid}")
    left = list(combos)
    for vals, params, label, kind in got:
        ensure(kind is kls, f"model of type {kind}")
        hit = [c for c in left if all(_is(params.get(k), v, k) for k, v in c.items())]
        ensure(hit, f"no requested combination is {({k: params.get(k) for k in grid})}; left: {left}")
        left.remove(hit[0])
        ensure(len(vals) == len(qs), "number of quantities")
        fresh = quiet(kls, **{k: (dict(v) if isinstance(v, dict) else v) for k, v in {**given, **hit[0]}.items()})
        want = outcome(fresh, qs)
        for q, v in zip(qs, vals):
            ensure(want[q][0] == "value", f"{q} of a new model: {want[q]}")
            r = c01.same(v, want[q][1])
            if r:
                raise Violation(f"{q} for {hit[0]} is not that of a new model: {r}")
        if label is not None:
            multi = {k: v for k, v in grid.items() if len(v) > 1}
            for k in multi:
                v = hit[0][k]
                for s in (v.values() if isinstance(v, dict) else [v]):
                    ensure(str(s) in label, f"label {label!r} does not show {k}={s}")
    if case["label"]:
        ensure(len({g[2] for g in got}) == len(got), f"labels repeat: {[g[2] for g in got]}")
    n = sum(len(v) > 1 for v in grid.values())
    note(f"{min(n, 3)} lists"), note(kls.__name__), note("with labels" if case["label"] else "without labels")


def _copying(it, label):
    for row in it:
        yield ([c01.canon(q, v) for q, v in enumerate_names(row[0])], {k: c01.cp(v) for k, v in row[1].parameter_values.items()}, row[2] if label else None, type(row[1]))


def enumerate_names(vals):
    return [("q", v) for v in vals]


def _is(have, want, k):
    if isinstance(want, dict):
        return isinstance(have, dict) and all(have.get(a) == b for a, b in want.items())
    if k.endswith("_model"):
        return getattr(have, "__name__", have) == want
    return have == want


# --------------------------------------------------------------------------- command line
CLIQ = ["m", "dndm", "halo_bias", "power_auto_tracer", "power_auto_matter", "corr_auto_tracer", "k_hm", "r", "cmz_relation", "total_occupation"]
CLIP = dict(
    z=[0.0, 0.25, 1.0], sigma_8=[0.75, 0.8], n=[0.95], hmf_model=["Tinker08", "Watson"], bias_model=["ST99", "Mo96", "Tinker10"], hod_model=["Zheng05", "Tinker05", "Contreras13"],
    halo_profile_model=["Hernquist", "CoredNFW"], halo_concentration_model=["Zehavi11", "Maccio07", "Duffy08"], hc_spectrum=["nonlinear", "filtered-lin"], Mmin=[9.5, 10.0], rnum=[3, 7],
    exclusion_model=["NoExclusion", "Sphere"], force_1halo_turnover=[False], tracer_profile_model=["Hernquist", "NFW"], tracer_concentration_model=["Zehavi11"], rlog=[False],
    cosmo_model=["Planck15", "WMAP7"], mdef_model=["SOMean", "SOCritical"], sd_bias_model=["TinkerSD05"], takahashi=[False], hm_logk_min=[-1.5],
)
CLID = dict(cosmo_params=[{"Om0": 0.28}, {"H0": 70.0, "Ob0": 0.045}], hod_params=[{"M_min": 12.2}, {"M_min": 11.0}], halo_concentration_params=[{"norm": 1.2}], transfer_params=[],
            tracer_concentration_params=[{"norm": 1.1}], mdef_params=[{"overdensity": 300}], halo_profile_params=[{"eta_bloat": 0.1}], bias_params=[], hmf_params=[], sd_bias_params=[{"a": 1.2}])


def cli_st():
    def f(r):
        cfg = {k: r.choice(CLIP[k]) for k in r.sample(sorted(CLIP), r.randint(0, 6))}
        for k in r.sample(sorted(CLID), r.randint(0, 3)):
            if CLID[k]:
                cfg[k] = r.choice(CLID[k])
        if cfg.get("halo_concentration_params") and cfg.get("halo_concentration_model") == "Maccio07":
            cfg.pop("halo_concentration_params")
        if "tracer_concentration_params" in cfg:
            cfg["tracer_concentration_model"] = "Zehavi11"
        if "mdef_params" in cfg:
            cfg.setdefault("mdef_model", "SOMean")
        if "sd_bias_params" in cfg:
            cfg["sd_bias_model"] = "TinkerSD05"
        args = {k: r.choice(CLIP[k]) for k in r.sample(sorted(CLIP), r.randint(0, 2)) if k not in ("halo_concentration_model", "tracer_concentration_model", "mdef_model")}
        lists = {}
        if r.random() < 0.4:
            k = r.choice(["z", "sigma_8", "bias_model", "hod_model"])
            args.pop(k, None)
            lists = {k: CLIP[k][:2]}
        return dict(cfg=cfg, args=args, lists=lists, form=r.choice(["=", "--=", "-- "]), quants=r.sample(CLIQ, r.randint(1, 4)) if r.random() < 0.9 else None,
                    label=r.choice([None, "run1", "a_b"]), framework=r.choice([None, None, "halomod.TracerHaloModel", "halomod.DMHaloModel"]))

    return c01.rnd(f)


def run_cli(cfg_file, outdir, label, args):
    from click.testing import CliRunner

    from halomod._cli import main

    argv = ["run"]
    if cfg_file:
        argv += ["-i", cfg_file]
    argv += ["--outdir", outdir]
    if label:
        argv += ["--label", label]
    return quiet(CliRunner().invoke, main, argv + (["--"] + args if args else []))


def fn_cli(case, note):
    import halomod
    import toml

    cfg, args, lists = dict(case["cfg"]), dict(case["args"]), case["lists"]
    kls = halomod.TracerHaloModel
    if case["framework"]:
        kls = getattr(halomod, case["framework"].split(".")[1])
    if kls is halomod.DMHaloModel:
        for d in (cfg, args):
            for k in [k for k in d if k.startswith(("hod", "tracer"))]:
                d.pop(k)
        lists = {k: v for k, v in lists.items() if k != "hod_model"}
    params = {**SMALL, "hmf_model": "Tinker08", **cfg}
    quants = [q for q in (case["quants"] or []) if kls is not halomod.DMHaloModel or q not in ("power_auto_tracer", "corr_auto_tracer", "total_occupation")] or None
    tmp = tempfile.mkdtemp(prefix="c23-")
    try:
        a, b = os.path.join(tmp, "a"), os.path.join(tmp, "b")
        os.mkdir(a), os.mkdir(b)
        doc = dict(params={**params, **lists})
        if quants:
            doc["quantities"] = quants
        if case["framework"]:
            doc["framework"] = case["framework"]
        f = os.path.join(tmp, "cfg.toml")
        with open(f, "w") as fl_:
            toml.dump(doc, fl_)
        argv = []
        for k, v in args.items():
            argv += [f"{k}={v}"] if case["form"] == "=" else [f"--{k}={v}"] if case["form"] == "--=" else [f"--{k}", str(v)]
        combos = [{k: x} for k, v in lists.items() for x in v] or [{}]
        models, error = [], None
        try:
            models = [quiet(kls, **{k: c01.cp(v) for k, v in {**params, **args, **c}.items()}) for c in combos]
            values = [outcome(h, quants or ["m", "dndm"]) for h in models]
            if any(v[0] == "error" for row in values for v in row.values()):
                error = "a quantity cannot be computed"
        except Exception as e:  # noqa: BLE001
            error = repr(e)
        res = run_cli(f, a, case["label"], argv)
        if error:
            ensure(res.exit_code != 0, f"the command line accepts {params} {args}, the model refuses: {error}")
            return note.trivial("a model which cannot be computed")
        if res.exit_code != 0:
            raise Violation(f"halomod run fails for {doc} {argv}: {res.exception!r}")
        expected = set()
        for c, row in zip(combos, values):
            lab = "_".join(str(v) if isinstance(v, str) else f"{k}={v}" for k, v in c.items()) or case["label"] or "halomod"
            for q, v in row.items():
                n = f"{lab}_{q}.txt"
                expected.add(n)
                ensure(os.path.exists(os.path.join(a, n)), f"no file {n} in {sorted(os.listdir(a))}")
                close(f"{q} written by the command line", np.loadtxt(os.path.join(a, n)), v[1], rtol=1e-12)
            expected.add(f"{lab}_cfg.toml")
        ensure(set(os.listdir(a)) == expected, f"files {sorted(os.listdir(a))}, expected {sorted(expected)}")
        # the configuration written reproduces the results
        for c, row in zip(combos, values):
            lab = "_".join(str(v) if isinstance(v, str) else f"{k}={v}" for k, v in c.items()) or case["label"] or "halomod"
            back = os.path.join(a, f"{lab}_cfg.toml")
            wrote = toml.load(back)
            ensure(wrote["quantities"] == (quants or ["m", "dndm"]), "quantities in the configuration written")
            if kls is halomod.DMHaloModel:
                wrote["framework"] = "halomod.DMHaloModel"
                with open(back, "w") as fl_:
                    toml.dump(wrote, fl_)
            for n in os.listdir(b):
                os.remove(os.path.join(b, n))
            res = run_cli(back, b, "again", [])
            if res.exit_code != 0:
                raise Violation(f"the configuration written for {doc} {argv} cannot be run: {res.exception!r}")
            for q, v in row.items():
                close(f"{q} from the configuration written", np.loadtxt(os.path.join(b, f"again_{q}.txt")), v[1], rtol=1e-9)
        note("list" if lists else "single"), note("arguments" if args else "file only"), note(kls.__name__), note("default quantities" if not quants else "quantities")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def fn_cli_grid(case, note):
    import toml

    tmp = tempfile.mkdtemp(prefix="c23-")
    try:
        f = os.path.join(tmp, "cfg.toml")
        with open(f, "w") as fl_:
            toml.dump(dict(quantities=[case["q"]], params={**SMALL, **case["lists"]}), fl_)
        res = run_cli(f, tmp, None, [])
        if res.exit_code != 0:
            if len(case["lists"]) > 1 and "(m>k) failed" in str(res.exception):
                return note.known_finding("cli-grid")
            raise Violation(f"halomod run fails for {case}: {res.exception!r}")
        n = int(np.prod([len(v) for v in case["lists"].values()]))
        files = [x for x in os.listdir(tmp) if x.endswith(case["q"] + ".txt")]
        ensure(len(files) == n, f"{files} for {case['lists']}")
        note(case["q"])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# --------------------------------------------------------------------------- reported parameters
def fn_rebuild(case, note):
    """A model built from the parameters which another reports, and what the classes say about themselves."""
    import halomod
    from halomod.cross_correlations import CrossCorrelations  # noqa: F401

    cls = getattr(halomod, case["cls"])
    kw = {k: v for k, v in SMALL.items() if not (cls is halomod.ProjectedCF and k in ("rmin", "rmax", "rnum"))}
    if cls is halomod.ProjectedCF:
        kw.update(rp_num=3, rp_min=0.2, rp_max=10.0)
    if cls is halomod.AngularCF:
        kw.update(theta_num=3, znum=10, unum=12, logu_min=-2.0)
    upd = {k: v for k, v in case["params"].items() if not (cls is halomod.DMHaloModel and k.startswith(("hod", "tracer")))}
    try:
        h = quiet(cls, **kw)
        if case["read"]:
            outcome(h, ["power_auto_matter", "cmz_relation"])
        quiet(h.update, **{k: c01.cp(v) for k, v in upd.items()})
    except Exception:  # noqa: BLE001
        return note.trivial("an impossible combination")
    rep = dict(h.parameter_values)
    other = quiet(cls, **{k: c01.cp(v) for k, v in rep.items()})
    names = [n for n in c01.quantities(h) if "lam" not in n]
    r = random.Random(case["seed"])
    names = r.sample(names, 14)
    agree("a model built from the reported parameters", outcome(other, names), outcome(h, names))
    c = quiet(h.clone)
    agree("a clone", outcome(c, names), outcome(h, names))
    for k, v in c.parameter_values.items():
        ensure(c01.same(c01.canon(k, v), c01.canon(k, rep[k])) is None, f"parameter {k} of a clone is {v}, not {rep[k]}")
    for k, v in upd.items():
        if k.endswith("_model") and k != "cosmo_model":
            ensure(rep[k].__name__ == v, f"{k} is reported as {rep[k]}, set to {v}")
        elif isinstance(v, dict):
            ensure(all(rep[k].get(a) == b for a, b in v.items()), f"{k} is reported as {rep[k]}, set to {v}")
        elif k != "cosmo_model":
            ensure(rep[k] == v, f"{k} is reported as {rep[k]}, set to {v}")
    note(cls.__name__)


def fn_listing(case, note):
    import inspect

    import halomod

    cls = getattr(halomod, case["cls"])
    names = set(quiet(cls.get_all_parameter_names))
    args = set()
    for k in cls.__mro__:
        if "__init__" in vars(k) and k.__module__.startswith("halomod"):
            args |= {n for n, p in inspect.signature(k.__init__).parameters.items() if n != "self" and p.kind not in (p.VAR_KEYWORD, p.VAR_POSITIONAL)}
    ensure(args <= names, f"arguments which are not parameters: {sorted(args - names)}")
    ensure(len(names) > len(args), "parameters of the mass function")
    defaults = quiet(cls.get_all_parameter_defaults, recursive=False)
    ensure(set(defaults) == names, "names of the defaults")
    fresh = quiet(cls)
    for k, v in defaults.items():
        ensure(c01.same(c01.canon(k, v), c01.canon(k, getattr(fresh, k))) is None, f"default of {k}")
    avail = set(quiet(cls.quantities_available))
    own = set(c01.quantities(fresh))
    ensure(own <= avail, f"quantities which are not listed: {sorted(own - avail)}")
    # all of them can be had
    kw = {k: v for k, v in SMALL.items() if not (cls is halomod.ProjectedCF and k in ("rmin", "rmax", "rnum"))}
    h = quiet(cls, z=case["z"], **kw)
    for q in sorted(own):
        got = quiet(c01.get, h, q)
        ensure(got[0] == "value", f"{q} of a default {case['cls']} cannot be computed: {got[1]}")
    note(case["cls"])


ZS = lambda: st.one_of(st.just(0.0), fl(0, 1.5))
RESOLVE = [(k, n) for k in KINDS for n in KINDS[k][3]]
CLAUSES = [
    Clause("resolve", lambda: fx(kn=st.sampled_from([x for x in RESOLVE for _ in range(1 if heavy(*x) else 4)]), which=st.integers(0, 1), seed=st.integers(0, 10**6), central=st.booleans(), read=st.booleans(), together=st.booleans(), z=ZS()).map(
        lambda d: dict({k: v for k, v in d.items() if k != "kn"}, kind=d["kn"][0], name=d["kn"][1])), fn_resolve, quick=260, shards=8, rule="always",
        what="every documented model by name, class, update and subclass, with parameters"),
    Clause("alias", lambda: st.one_of(fx(what=st.just("ludlow"), pair=st.sampled_from([("Ludlow16", "Ludlow2016"), ("Ludlow16Empirical", "Ludlow2016Empirical")]), z=ZS()),
                                      fx(what=st.just("cm"), model=st.sampled_from(["diemer15", "diemer19", "duffy08", "klypin11", "prada12", "bullock01", "dutton14", "ishiyama21"]), z=fl(0, 1)),
                                      fx(what=st.just("bias"), model=st.sampled_from(["comparat17", "tinker10", "cole89", "jing98", "sheth01", "seljak04", "bhattacharya11"]), z=ZS())),
           fn_alias, quick=40, shards=2, rule="always", what="deprecated names, Colossus models"),
    Clause("refuse", lambda: fx(what=st.sampled_from(["model", "model", "component", "params", "name", "limits"]), kind=st.sampled_from(sorted(KINDS)), seed=st.integers(0, 10**6),
                                cls=st.sampled_from("ttpa"), read=st.booleans(), z=ZS()), fn_refuse, quick=400, shards=6, rule="always", what="invalid names, models, parameters and limits"),
    Clause("iterate", lambda: fx(grid=grids(), dm=st.booleans(), quants=st.lists(st.integers(0, 50), min_size=1, max_size=4), tuples=st.booleans(), single=st.booleans(), plain=st.booleans(),
                                 label=st.booleans(), z=ZS()), fn_iterate, quick=100, shards=8, rule="always", what="functional iteration over grids of parameters"),
    Clause("cli", lambda: cli_st(), fn_cli, quick=120, shards=8, rule="the model can be computed", what="command line against the Python interface, and the configuration it writes"),
    Clause("cligrid", lambda: fx(q=st.sampled_from(["dndm", "power_auto_tracer", "cmz_relation"]), lists=st.sampled_from([dict(z=[0.0, 1.0]), dict(z=[0.0, 1.0], sigma_8=[0.7, 0.8])])), fn_cli_grid,
           quick=6, shards=1, rule="files are written", what="several lists of parameters on the command line"),
    Clause("rebuild", lambda: fx(cls=st.sampled_from(["DMHaloModel", "TracerHaloModel", "TracerHaloModel", "ProjectedCF", "AngularCF"]), params=c01.rnd(lambda r: {
        **{k: r.choice(CLIP[k]) for k in r.sample(sorted(CLIP), r.randint(1, 6))}, **{k: r.choice(CLID[k]) for k in r.sample(sorted(CLID), r.randint(0, 2)) if CLID[k]}}),
        read=st.booleans(), seed=st.integers(0, 10**6)), fn_rebuild, quick=120, shards=6, rule="possible combinations", what="models built from reported parameters, clones"),
    Clause("listing", lambda: fx(cls=st.sampled_from(["DMHaloModel", "TracerHaloModel", "ProjectedCF", "AngularCF"]), z=st.sampled_from([0.0, 0.7])), fn_listing, quick=6, shards=3, rule="always",
           what="lists of parameters, defaults and quantities"),
]
