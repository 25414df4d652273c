"""C02: models and components are independent of each other and of the inputs given to them."""

import copy
import functools
import json
import pickle
import random
import warnings

import numpy as np
from hypothesis import strategies as st

from checks import c01, c08, c10, c11
from checks.c05 import hod_st
from vlib import formulas as F
from vlib import gen as G
from vlib import models as M
from vlib import pristine
from vlib.core import Clause, Violation
from vlib.util import ensure, fl, fx

ASSUMPTIONS = [
    "State is what can be observed: values of quantities and methods, parameters, class defaults, numeric constants of modules and "
    "classes, and the objects given by the caller. Registries of plug-ins may grow.",
    "Arrays of integers or floats of any layout; lists and single numbers only where they are accepted (a TypeError is not a wrong result).",
]


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


# --------------------------------------------------------------------------- shared state
def frozen(v, depth=0):
    """A comparable copy of plain data (None for anything else)."""
    if isinstance(v, np.ndarray):
        return ("array", v.dtype.str, v.shape, v.tobytes()) if v.dtype != object else None
    if isinstance(v, (bool, int, float, str, np.number)):
        return (type(v).__name__, repr(v))
    if v is None:
        return "None"
    if isinstance(v, dict) and depth < 4:
        return ("dict", tuple((repr(k), frozen(x, depth + 1)) for k, x in v.items()))
    if isinstance(v, (list, tuple)) and depth < 4:
        return (type(v).__name__, tuple(frozen(x, depth + 1) for x in v))
    return ("object", type(v).__name__)


def static_state():
    """Defaults and constants of every module and class of the package."""
    import importlib

    out = {}
    for mod in ("bias", "concentration", "cross_correlations", "functional", "halo_exclusion", "halo_model", "hod", "integrate_corr", "profiles", "tools", "wdm"):
        m = importlib.import_module("halomod." + mod)
        for k, v in vars(m).items():
            if k.startswith("__"):
                continue
            if isinstance(v, type) and v.__module__.startswith(("halomod", "hmf")):
                for a, x in vars(v).items():
                    if not a.startswith("__") and isinstance(x, (dict, list, tuple, set, np.ndarray, int, float, str)) and a not in ("_plugins", "_models", "_abc_impl"):
                        if isinstance(x, dict) and any(isinstance(y, type) for y in x.values()):
                            continue  # registries
                        out[f"{v.__name__}.{a}"] = frozen(x)
            elif isinstance(v, (dict, list, np.ndarray, int, float, str)):
                if isinstance(v, dict) and any(isinstance(y, type) for y in v.values()):
                    continue
                out[f"{mod}.{k}"] = frozen(v)
    return out


def check_static(before, what):
    after = static_state()
    for k, v in before.items():
        if after.get(k) != v:
            raise Violation(f"{what} changed {k} from {str(v)[:150]} to {str(after.get(k))[:150]}")


# --------------------------------------------------------------------------- components
@functools.lru_cache(maxsize=4)
def parts(i):
    """Objects given to several components."""
    from hmf.cosmology.cosmo import Cosmology

    h = M.dm(dict(hmf="Tinker08", mdef=dict(name="SOMean", overdensity=200), sigma_8=[0.8, 0.75, 0.85][i], dlnk=0.2, cosmo=dict(Om0=[0.3, 0.25, 0.35][i])))
    return h, dict(cosmo=Cosmology(cosmo_model=h.cosmo), filter0=h.filter, growth=h.growth, delta_c=1.686, mdef=h.mdef)


MASS = 10 ** np.array([11.3, 12.02, 12.7, 14.4, 13.1])
RAD = np.array([0.03, 0.4, 1.7, 0.2])


def comp_st():
    excl = c11.CLAUSES[0].strategy().map(lambda a: a) if False else None  # noqa: F841
    return st.one_of(
        fx(kind=st.just("hod"), spec=hod_st(), central=st.booleans()),
        fx(kind=st.just("cm"), spec=c10.spec_st([n for n in c10.DEFAULTS]), part=st.integers(0, 2), z=fl(0, 1)),
        fx(kind=st.just("wdm"), name=st.sampled_from(["Duffy08", "Zehavi11", "Maccio07", "Duffy08", "Ludlow16Empirical", "Duffy08WDM"]),
           params=st.fixed_dictionaries({}, optional=dict(g1=fl(20, 90), g2=fl(0.1, 0.3), beta0=fl(0, 0.1), norm=fl(0.5, 2))), lm=fl(8, 11), part=st.integers(0, 2), z=fl(0, 1)),
        fx(kind=st.just("bias"), spec=c08.spec_st(), nu=st.lists(fl(0.2, 5), min_size=1, max_size=5), delta=fl(190, 800), part=st.integers(0, 2), z=fl(0, 2)),
        fx(kind=st.just("sd"), params=st.fixed_dictionaries({}, optional=dict(a=fl(0.5, 2), b=fl(0.5, 2), c=fl(0.3, 1))), xi=st.lists(fl(-0.3, 30), min_size=1, max_size=5)),
        fx(kind=st.just("profile"), spec=G.profile_spec([n for n in G.TRUNC + ["NFWInf", "HernquistInf", "PowerLawWithExpCut"] if n != "Einasto"]), mdef=G.mdef_st, part=st.integers(0, 2), z=fl(0, 2),
           cm=st.sampled_from(["own", "Duffy08", "Zehavi11"])),
        fx(kind=st.just("exclusion"), name=st.sampled_from(["NoExclusion", "Sphere", "DblSphere", "DblSphere_", "NgMatched", "NgMatched_", "DblEllipsoid_"]), seed=st.integers(0, 10**6)),
    )


@functools.lru_cache(maxsize=8)
def shared_cm(name, part):
    from halomod import concentration as C

    return getattr(C, name)(**parts(part)[1])


def exclusion_args(seed):
    r = np.random.RandomState(seed)
    m = np.geomspace(1e11, 1e15, 40)
    dens = 1e-3 * (m / 1e12) ** -0.9 * np.exp(-m / 3e14) / m * r.uniform(0.5, 2)
    k = np.array([0.02, 0.3, 2.0])
    u = 1 / (1 + (k[:, None] * (m / 1e13)[None, :] ** 0.33) ** 2)
    return dict(m=m, density=dens, power_integrand=dens * u, bias=0.7 + 0.3 * (m / 1e13) ** 0.4, r=np.array([0.3, 1.0, 4.0, 20.0]), halo_density=200 * 8e10)


def make(c):
    """(component, function giving its values, arrays and dictionaries given to it)."""
    from halomod import bias as B
    from halomod import concentration as C
    from halomod import halo_exclusion as X
    from halomod import hod as H
    from halomod.wdm import CMRelationWDMRescaled

    k = c["kind"]
    if k == "hod":
        given = dict(c["spec"]["params"], central=c["central"])
        o = getattr(H, c["spec"]["name"])(**given)

        def value(o, m=MASS):
            return np.concatenate([np.broadcast_to(quiet(f, m.copy()), m.shape) for f in (o.total_occupation, o.satellite_occupation, o.central_occupation, o.ss_pairs)])
    elif k == "cm":
        given = dict(c["spec"]["params"])
        o = getattr(C, c["spec"]["name"])(**parts(c["part"])[1], **given)

        def value(o):
            return np.asarray(quiet(o.cm, MASS.copy(), c["z"]))
    elif k == "wdm":
        given = dict(c["params"])
        o = CMRelationWDMRescaled(c["name"])(m_hm=10 ** c["lm"], **parts(c["part"])[1], **given)

        def value(o):
            return np.asarray(quiet(o.cm, MASS.copy(), c["z"]))
    elif k == "bias":
        n = len(c["nu"])
        h = parts(c["part"])[0]
        given = dict(nu=np.array(c["nu"]) ** 2, m=np.resize(MASS, n), n_eff=np.linspace(-2.2, -1.4, n))
        o = getattr(B, c["spec"]["name"])(**given, delta_c=1.686, mstar=3e12, delta_halo=c["delta"], n=0.96, sigma_8=0.8, cosmo=h.cosmo, z=c["z"], **c["spec"]["params"])

        def value(o):
            return np.asarray(quiet(o.bias))
    elif k == "sd":
        given = dict(xi=np.array(c["xi"]))
        o = B.TinkerSD05(given["xi"], **c["params"])

        def value(o):
            return np.asarray(quiet(o.bias_scale))
    elif k == "profile":
        given = {}
        h = parts(c["part"])[0]
        cm = G.PowCM(8.0, -0.1) if c["cm"] == "own" else shared_cm(c["cm"], c["part"])
        o = G.make_profile(c["spec"], h.cosmo, G.mdef(c["mdef"]), c["z"], cm)

        def value(o):
            return np.concatenate([np.ravel(quiet(f, x.copy(), MASS[:3].copy())) for f, x in ((o.rho, RAD), (o.u, np.array([0.1, 2.0])), (o.cdf if False else o.rho, RAD[::-1]))] + [np.ravel(o.halo_mass_to_radius(MASS.copy()))])
    else:
        given = exclusion_args(c["seed"])
        o = getattr(X, c["name"])(**given)

        def value(o):
            return np.asarray(quiet(o.integrate))
    return o, value, given


def dup(how, o):
    if how == "copy":
        return copy.copy(o)
    if how == "deepcopy":
        return copy.deepcopy(o)
    return pickle.loads(pickle.dumps(o))


def params_of(o):
    return frozen(getattr(o, "params", None))


def label(c):
    return c["kind"] + " " + str(c.get("name") or c.get("spec", {}).get("name", ""))


def fn_components(case, note):
    before = static_state()
    objs = []
    for c in case["comps"]:
        keep = None
        o, value, given = quiet(make, c)
        keep = frozen(make_given(c))
        v = value(o)
        objs.append(dict(c=c, o=o, value=value, given=given, keep=keep, v=v, p=params_of(o)))
    for how, i in case["ops"]:
        d = objs[i % len(objs)]
        if how == "again":
            o, value, _ = quiet(make, d["c"])
            same(f"{label(d['c'])} built again", value(o), d["v"])
        elif how == "value":
            same(f"{label(d['c'])} evaluated again", d["value"](d["o"]), d["v"])
        elif how == "poke":
            # change the parameters of a copy
            o = copy.deepcopy(d["o"])
            if not isinstance(getattr(o, "params", None), dict):
                continue
            for k, x in list(o.params.items()):
                if isinstance(x, (int, float)) and not isinstance(x, bool):
                    o.params[k] = x * 1.5 + 0.1
                    break
            else:
                continue
        else:
            try:
                o = dup(how, d["o"])
            except Exception as e:  # noqa: BLE001
                if how == "pickle" and d["c"]["kind"] in ("profile", "wdm"):
                    continue  # holds a function of the harness, or a class made on demand
                raise Violation(f"{label(d['c'])}: {how} fails: {type(e).__name__}: {str(e)[:150]}") from e
            same(f"{how} of {label(d['c'])}", d["value"](o), d["v"])
            ensure(params_of(o) == d["p"], f"{how} of {label(d['c'])} has other parameters")
            note(how)
    for d in objs:
        what = label(d["c"]) + " after other components were used"
        same(what, d["value"](d["o"]), d["v"])
        ensure(params_of(d["o"]) == d["p"], f"parameters of {what} changed from {d['p']} to {params_of(d['o'])}")
        ensure(frozen(d["given"]) == d["keep"], f"{label(d['c'])} changed what it was given")
        o, value, _ = quiet(make, d["c"])
        same(f"{label(d['c'])} built after the others", value(o), d["v"])
        note(d["c"]["kind"])
    check_static(before, " and ".join(label(d["c"]) for d in objs))


def make_given(c):
    return quiet(make, c)[2]


def same(what, got, want, rtol=1e-12):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        raise Violation(f"{what}: shape {got.shape} instead of {want.shape}")
    ok = np.isclose(got, want, rtol=rtol, atol=1e-300, equal_nan=True)
    if not np.all(ok):
        i = np.unravel_index(int(np.argmin(ok)), ok.shape) if ok.shape else ()
        raise Violation(f"{what}: {got[i]!r} instead of {want[i]!r}")


# --------------------------------------------------------------------------- forms of the input
def forms(x):
    """The same numbers (whole ones) in other forms: (name, input, index of the values)."""
    n = len(x)
    big = np.full(3 * n, 7.0)
    big[1::3] = x
    ro = x.copy()
    ro.flags.writeable = False
    perm = np.argsort(np.sin(np.arange(n) * 5.3 + 1))
    two = np.asfortranarray(np.stack([x, x * 0 + 3.0]))
    yield "strided", big[1::3], slice(None)
    yield "reversed", x[::-1], slice(None, None, -1)
    yield "read-only", ro, slice(None)
    yield "permuted", x[perm], perm
    yield "Fortran", two[0], slice(None)
    yield "sorted", np.sort(x), np.argsort(x, kind="stable")
    if np.all(x == np.round(x)):
        yield "integer", x.astype(np.int64), slice(None)
        yield "list of integers", [int(v) for v in x], slice(None)
        yield "one integer", int(x[0]), slice(0, 1)
    yield "list", [float(v) for v in x], slice(None)
    yield "one number", float(x[-1]), slice(n - 1, n)
    yield "one", x[:1], slice(0, 1)


def accepted(form):
    return form in ("strided", "reversed", "read-only", "permuted", "Fortran", "sorted", "integer", "one")


def check_forms(what, f, x, note, rtol=1e-8):
    want = np.asarray(quiet(f, x.copy()), dtype=float)
    if want.shape == () or want.shape != x.shape:
        if want.size != x.size and want.size != 1:
            raise Violation(f"{what}: shape {want.shape} for {x.shape}")
        want = np.broadcast_to(want.reshape(-1), x.shape)
    scale = np.nanmax(np.abs(np.where(np.isfinite(want), want, 0))) if want.size else 0
    for name, v, ix in forms(x):
        keep = frozen(v) if not np.isscalar(v) else v
        try:
            got = np.asarray(quiet(f, v), dtype=float)
        except (TypeError, AttributeError) as e:
            if accepted(name):
                raise Violation(f"{what} of {name} input: {e!r}") from e
            continue
        except Exception as e:  # noqa: BLE001
            raise Violation(f"{what} of {name} input: {e!r}") from e
        if (frozen(v) if not np.isscalar(v) else v) != keep:
            raise Violation(f"{what} changed its {name} input")
        w = want[ix]
        if got.size == 1 and w.size > 1 and np.all(w == w[0]):
            got = np.broadcast_to(got.reshape(-1), w.shape)  # constants
        if got.size != w.size:
            raise Violation(f"{what} of {name} input has shape {got.shape} for {w.shape}")
        got = got.reshape(w.shape)
        ok = np.isclose(got, w, rtol=rtol, atol=1e-13 * scale, equal_nan=True)
        if not np.all(ok):
            i = int(np.argmin(ok))
            raise Violation(f"{what} of {name} input: {got[i]!r} instead of {w[i]!r}")
        if not accepted(name):
            note(name)


def fn_forms(case, note):
    c = case["comp"]
    k = c["kind"]
    m = np.unique(np.round(10 ** np.array(case["lm"])))
    m = m[np.argsort(np.cos(np.arange(len(m)) * 2.7))]
    x = np.round(np.unique(10 ** np.array(case["lx"])) * 100) / 100 if case["frac"] else np.unique(np.ceil(10 ** np.array(case["lx"])))
    x = x[(x > 0)]
    x = x[np.argsort(np.cos(np.arange(len(x)) * 2.1))]
    o, _, _ = quiet(make, c)
    if k == "hod":
        for n in ("central_occupation", "satellite_occupation", "total_occupation", "ss_pairs", "cs_pairs", "sigma_central", "sigma_satellite", "nc", "ns"):
            f = getattr(o, n, None)
            if f is None:
                continue
            try:
                quiet(f, m.copy())
            except NotImplementedError:
                continue
            check_forms(f"{label(c)}.{n}", f, m, note)
    elif k in ("cm", "wdm"):
        # Bullock01 interpolates a table whose points depend on the masses given
        if c.get("spec", {}).get("name") in ("Bullock01",):
            return note.trivial("tabulated")
        check_forms(f"{label(c)}.cm", lambda v: o.cm(v, c["z"]), m, note, rtol=1e-7)
    elif k == "profile":
        # numeric transforms refine their steps for all wavenumbers together
        tol = 1e-4 if c["spec"]["name"] == "GeneralizedNFW" else 1e-7
        rr = RAD[: 1 + case["lx"].__len__() % 3]
        mm = np.array([3e12, 1e15])
        check_forms(f"{label(c)}.rho of separations", lambda v: o.rho(v, 2e13), x, note, rtol=tol)
        check_forms(f"{label(c)}.rho of masses", lambda v: o.rho(0.7, v), m, note, rtol=tol)
        check_forms(f"{label(c)}.u of wavenumbers", lambda v: o.u(v, 2e13), x, note, rtol=tol)
        check_forms(f"{label(c)}.u of masses", lambda v: o.u(0.7, v), m, note, rtol=tol)
        for n in ("halo_mass_to_radius", "virial_velocity", "cm_relation", "scale_radius"):
            check_forms(f"{label(c)}.{n}", getattr(o, n), m, note)
        check_forms(f"{label(c)}.halo_radius_to_mass", o.halo_radius_to_mass, x, note)
        if o.has_lam:
            check_forms(f"{label(c)}.lam of separations", lambda v: o.lam(v, 2e13), x, note, rtol=1e-7)
            check_forms(f"{label(c)}.lam of masses", lambda v: o.lam(0.7, v), m, note, rtol=1e-7)
        # two-dimensional results: every mass and separation by itself, whatever the layout
        for n, pts in (("rho", rr), ("u", rr)):
            f = getattr(o, n)
            a = np.asarray(quiet(f, pts.copy(), mm.copy()))
            ensure(a.size == len(pts) * len(mm), f"{label(c)}.{n}: shape {a.shape}")
            a = a.reshape(len(pts), len(mm))
            b = np.array([[np.ravel(quiet(f, float(p), float(q)))[0] for q in mm] for p in pts])
            same(f"{label(c)}.{n} one by one", a, b, rtol=tol)
            same(f"{label(c)}.{n} in another order", np.asarray(quiet(f, pts[::-1], mm[::-1])).reshape(a.shape)[::-1, ::-1], a, rtol=tol)
    elif k == "bias":
        n = c["spec"]["name"]
        nu, mm, ne = np.array(c["nu"]) ** 2, np.resize(MASS, len(c["nu"])), np.linspace(-2.2, -1.4, len(c["nu"]))
        from halomod import bias as B

        h = parts(c["part"])[0]
        kw = dict(delta_c=1.686, mstar=3e12, delta_halo=c["delta"], n=0.96, sigma_8=0.8, cosmo=h.cosmo, z=c["z"], **c["spec"]["params"])
        want = np.asarray(quiet(getattr(B, n)(nu=nu, m=mm, n_eff=ne, **kw).bias))
        big = np.zeros((3, 2 * len(nu)))
        big[:, ::2] = nu, mm, ne
        same(f"{n} of strided input", quiet(getattr(B, n)(nu=big[0, ::2], m=big[1, ::2], n_eff=big[2, ::2], **kw).bias), want)
        for a in (nu, mm, ne):
            a.flags.writeable = False
        same(f"{n} of read-only input", quiet(getattr(B, n)(nu=nu, m=mm, n_eff=ne, **kw).bias), want)
        same(f"{n} of reversed input", quiet(getattr(B, n)(nu=nu[::-1], m=mm[::-1], n_eff=ne[::-1], **kw).bias)[::-1], want)
        w = np.asarray(quiet(getattr(B, n)(nu=np.round(nu) + 1, m=np.round(mm), n_eff=ne, **kw).bias))
        same(f"{n} of integers", quiet(getattr(B, n)(nu=(np.round(nu) + 1).astype(int), m=np.round(mm).astype(np.int64), n_eff=ne, **kw).bias), w)
    elif k == "exclusion":
        a = exclusion_args(c["seed"])
        from halomod import halo_exclusion as X

        want = np.asarray(quiet(getattr(X, c["name"])(**{q: (v.copy() if isinstance(v, np.ndarray) else v) for q, v in a.items()}).integrate))
        b = {}
        for q, v in a.items():
            if isinstance(v, np.ndarray):
                v = np.asfortranarray(v) if v.ndim == 2 else np.stack([v, v], axis=1)[:, 0]
                v.flags.writeable = False
            b[q] = v
        same(f"{c['name']} of read-only input in another layout", quiet(getattr(X, c["name"])(**b).integrate), want, rtol=1e-9)
    else:
        return note.trivial("no input")
    note(k)


# --------------------------------------------------------------------------- functions
def fn_functions(case, note):
    """Functions of the package leave their inputs alone and do not depend on their layout."""
    from halomod import tools
    from halomod.integrate_corr import angular_corr_gal, projected_corr_gal

    r = random.Random(case["seed"])
    g = 1.2 + r.random()
    x = np.sort(10 ** np.array([r.uniform(-1, 1.5) for _ in range(case["n"])]))
    k = np.geomspace(1e-3, 1e3, 200)
    p = k / (1 + (k * r.uniform(2, 10)) ** 2) ** 1.3
    grid = np.geomspace(0.05, 90, 80)
    xi = (grid / 5) ** -g
    power = tools.ExtendedSpline(k, p, lower_func="power_law", upper_func="power_law")
    fns = dict(
        ExtendedSpline=(lambda a, b, q: tools.ExtendedSpline(a, b, lower_func="power_law", upper_func="boundary")(q), (k, p, x)),
        spline_integral=(lambda a, b: tools.spline_integral(a, b, xmin=0.02), (k, p)),
        spline_integral_log=(lambda a, b: tools.spline_integral(a, b, xmin=0.02, log=True), (k, p)),
        hankel_transform=(lambda q: tools.hankel_transform(power, q, "r"), (x,)),
        power_to_corr=(lambda q: tools.power_to_corr(power, q), (x[:3],)),
        exclusion_window=(lambda q: tools.exclusion_window(q, 1.3), (k,)),
        projected_corr_gal=(lambda a, b, q: projected_corr_gal(a, b, 90.0, q), (grid, xi, x[(x > 0.06) & (x < 60)])),
        angular_corr_gal=(lambda t: angular_corr_gal(t, lambda q: (q / 5) ** -g, lambda z: 5.0 + 0 * z, 0.2, 0.4, -3, 2, znum=20, unum=40), (x[:4] * 1e-3,)),
    )
    name = case["name"]
    f, args = fns[name]
    args = [np.array(a) for a in args]
    if any(len(a) == 0 for a in args):
        return note.trivial("no points")
    want = np.asarray(quiet(f, *[a.copy() for a in args]))
    given = [a.copy() for a in args]
    quiet(f, *given)
    for a, b in zip(given, args):
        ensure(np.array_equal(a, b), f"{name} changed its input")
    for a in given:
        a.flags.writeable = False
    same(f"{name} of read-only input", quiet(f, *given), want)
    same(f"{name} of strided input", quiet(f, *[np.stack([a, a * 0], axis=1)[:, 0] for a in args]), want, rtol=1e-9)
    if name in ("ExtendedSpline", "exclusion_window", "angular_corr_gal", "projected_corr_gal", "hankel_transform"):
        # points in another order
        last = args[-1][::-1] if name != "projected_corr_gal" else args[-1]
        got = np.asarray(quiet(f, *args[:-1], last))
        same(f"{name} at points in another order", got[::-1] if name != "projected_corr_gal" else got, want, rtol=1e-7)
    note(name)


def fn_populate(case, note):
    from halomod.tools import populate

    r = np.random.RandomState(case["seed"])
    h = shared_tracer(case["seed"] % 3)
    n = case["n"]
    centres = r.uniform(0, 100, size=(n, 3))
    masses = 10 ** r.uniform(11, 15, size=n)
    keep = centres.copy(), masses.copy()
    p0 = frozen(h.parameter_values)
    kw = dict(halomodel=h) if case["model"] else dict(profile=h.tracer_profile, hodmod=h.hod)
    if case["box"]:
        kw["edges"] = [0, 100] if case["box"] == 1 else np.array([0.0, 100.0])
    edges = frozen(kw.get("edges"))
    a = quiet(populate, centres, masses, rng=np.random.default_rng(case["seed"]), **kw)
    ensure(np.array_equal(centres, keep[0]) and np.array_equal(masses, keep[1]), "populate changed the catalogue")
    ensure(frozen(kw.get("edges")) == edges, "populate changed the edges")
    ensure(frozen(h.parameter_values) == p0, "populate changed the parameters of the model")
    centres.flags.writeable = masses.flags.writeable = False
    b = quiet(populate, np.asfortranarray(centres), np.stack([masses, masses], axis=1)[:, 0], rng=np.random.default_rng(case["seed"]), **kw)
    for p, q, w in zip(a, b, ("positions", "halos", "number of centrals")):
        same(f"{w} of the same catalogue and seed", b if False else q, p, rtol=1e-10)
    # changing the mock afterwards does not change the catalogue
    if len(a[0]):
        a[0][...] = -1.0
    ensure(np.array_equal(centres, keep[0]), "the mock shares the positions of the catalogue")
    note("box" if case["box"] else "no box")


@functools.lru_cache(maxsize=4)
def shared_tracer(i):
    return M.tracer(dict(hmf="Tinker08", mdef=dict(name="SOMean", overdensity=200), hod=[dict(name="Zheng05", params={}), dict(name="Zehavi05", params=dict(central=True)), dict(name="Contreras13", params={})][i]), dlog10m=0.2, dlnk=0.2)


# --------------------------------------------------------------------------- models
CLASSES = ["DMHaloModel", "TracerHaloModel", "TracerHaloModel", "TracerHaloModel", "HaloModelWDM", "TracerHaloModelWDM", "ProjectedCF", "AngularCF", "CrossCorrelations"]
DICTS = ["cosmo_params", "hod_params", "halo_profile_params", "tracer_profile_params", "halo_concentration_params", "tracer_concentration_params", "bias_params", "sd_bias_params", "exclusion_params", "growth_params", "transfer_params", "hmf_params", "mdef_params", "colossus_params", "filter_params"]


def get_class(n):
    import halomod
    from halomod import cross_correlations, integrate_corr, wdm

    for m in (halomod, wdm, integrate_corr, cross_correlations):
        if hasattr(m, n):
            return getattr(m, n)
    raise KeyError(n)


#: dictionaries shared by the models of a case, and their entries
CONTENT = {
    "cosmo_params": [{"Om0": 0.27}, {"Om0": 0.33, "H0": 70.0}, {}], "hod_params": [{"M_min": 12.3}, {"alpha": 1.2, "M_min": 11.8}, {"central": True}, {}],
    "halo_concentration_params": [{"norm": 1.3}, {}], "tracer_concentration_params": [{"norm": 0.8}], "halo_profile_params": [{"eta_bloat": 0.2}, {}],
    "tracer_profile_params": [{"eta_bloat": -0.1}], "colossus_params": [{"relspecies": False}, {}], "bias_params": [{}], "mdef_params": [{"overdensity": 200}, {"overdensity": 300}],
    "transfer_params": [{}], "growth_params": [{}], "sd_bias_params": [{"a": 1.3}, {}],
}
ARRAYS = {"rmin": [[0.2, 1.0, 5.0], [3, 1, 20]]}


def case_models(r):
    cls = r.choice(CLASSES)
    dm = cls in ("DMHaloModel", "HaloModelWDM")
    names = [n for n in CONTENT if not (dm and n.startswith(("hod", "tracer")))]
    if "WDM" in cls:
        names = [n for n in names if n not in ("mdef_params",)]
    pool = {n: r.choice(CONTENT[n]) for n in r.sample(names, r.randint(1, 4))}
    arr = {}
    if cls in ("DMHaloModel", "TracerHaloModel") and r.random() < 0.4:
        arr = {"rmin": dict(values=r.choice(ARRAYS["rmin"]), array=r.random() < 0.5)}
    ops = []
    for _ in range(r.randint(2, 7)):
        w = r.choice(["build", "build", "read", "update", "update", "plain", "clone", "deepcopy", "pickle", "poke", "component"])
        ops.append(dict(op=w, i=r.randrange(100), seed=r.randrange(10**6), plain=c01.pick_plain(r) if w in ("plain", "clone") else {}, subset=r.randrange(16)))
    return dict(cls=cls, pool=pool, arrays=arr, ops=ops, order=r.randrange(100))


PLAIN_OK = {"z", "sigma_8", "n", "delta_c", "cosmo_params", "takahashi", "hc_spectrum", "force_1halo_turnover", "dr_table", "hm_dlog10k", "cosmo_model", "colossus_params"}


class Models:
    def __init__(self, case, note):
        self.cls = get_class(case["cls"])
        self.cross = case["cls"] == "CrossCorrelations"
        self.note, self.case = note, case
        # the caller's objects: the same ones for every model
        self.shared = {k: dict(v) for k, v in case["pool"].items()}
        for k, a in case["arrays"].items():
            self.shared[k] = np.array(a["values"]) if a["array"] else list(a["values"])
        self.shared.update({k: (dict(v) if isinstance(v, dict) else v) for k, v in self.grid().items() if k not in self.shared})
        self.keep = frozen(self.shared)
        self.models = []
        self.names = None

    def grid(self):
        g = dict(c01.GRID, rnum=4)
        if "WDM" in self.case["cls"]:
            g = {k: v for k, v in g.items() if not k.startswith(("hmf", "mdef"))}
        if "tracer_concentration_params" in self.case["pool"]:
            g["tracer_concentration_model"] = "Duffy08"
        if "tracer_profile_params" in self.case["pool"]:
            g["tracer_profile_model"] = "NFW"
        if "sd_bias_params" in self.case["pool"]:
            g["sd_bias_model"] = "TinkerSD05"
        if self.case["cls"] == "AngularCF":
            g.update(z=0.3, theta_num=3, znum=10, unum=20)
            g["rnum"] = 20
        if self.case["cls"] == "ProjectedCF":
            g.update(rp_num=4, rnum=30)
        return g

    def build(self, kw):
        if self.cross:
            from halomod.cross_correlations import ConstantCorr

            return quiet(self.cls, cross_hod_model=ConstantCorr, halo_model_1_params=kw, halo_model_2_params=kw)
        return quiet(self.cls, **kw)

    def new(self):
        h = self.build(self.shared)
        self.models.append([h, {k: c01.cp(v) for k, v in self.shared.items()}])
        if self.names is None:
            self.names = [n for n in c01.quantities(h) if n not in ("halo_model_1", "halo_model_2")]

    def change(self, h, new):
        if self.cross:
            quiet(h.update, halo_model_1_params=new, halo_model_2_params=new)
        else:
            quiet(h.update, **new)

    def values(self, h, names):
        return {n: quiet(c01.get, h, n) for n in names}

    def some(self, seed, n=10):
        return random.Random(seed).sample(self.names, min(n, len(self.names)))

    def fresh(self, kw):
        return self.build({k: c01.cp(v) for k, v in kw.items()})

    def compare(self, what, h, kw, names):
        f = self.fresh(kw)
        want = self.values(f, names)
        got = self.values(h, names)
        for n in names:
            if got[n][0] != want[n][0]:
                raise Violation(f"{what}: {n} gives {got[n][0]} {str(got[n][1])[:80]}, but a model of its own {want[n][0]} {str(want[n][1])[:80]}")
            if got[n][0] == "value":
                r = c01.same(got[n][1], want[n][1])
                if r:
                    raise Violation(f"{what}: {n} is not that of a model built from the same parameters by itself: {r}")

    def run(self, op):
        m = self.models[op["i"] % len(self.models)] if self.models else None
        w = op["op"]
        if w == "build" or m is None:
            self.new()
        elif w == "read":
            self.values(m[0], self.some(op["seed"]))
        elif w in ("update", "plain"):
            if w == "update":
                # some of the caller's dictionaries, given to this model as well
                keys = [k for j, k in enumerate(self.case["pool"]) if op["subset"] >> (j % 4) & 1]
                new = {k: self.shared[k] for k in keys}
            else:
                new = {k: v for k, v in op["plain"].items() if k in PLAIN_OK and not (self.case["cls"] == "AngularCF" and k == "z")}
            if not new:
                return
            keep = frozen(new)
            self.change(m[0], new)
            ensure(frozen(new) == keep, f"update changed the dictionaries given to it: {keep} to {frozen(new)}")
            m[1] = c01.merge(m[1], new)
        elif w in ("clone", "deepcopy", "pickle"):
            new = {k: v for k, v in op["plain"].items() if k in PLAIN_OK and k != "z"} if w == "clone" and not self.cross else {}
            try:
                g = quiet(m[0].clone, **{k: c01.cp(v) for k, v in new.items()}) if w == "clone" else dup(w, m[0])
            except Exception as e:  # noqa: BLE001
                raise Violation(f"{w} of {self.case['cls']} fails: {type(e).__name__}: {str(e)[:200]}") from e
            ensure(type(g) is type(m[0]), f"{w} gives a {type(g).__name__}")
            names = self.some(op["seed"], 6)
            if not new:
                a, b = self.values(m[0], names), self.values(g, names)
                for n in names:
                    ensure(a[n][0] == b[n][0], f"{n} gives {a[n][0]} and {b[n][0]} in a {w}")
                    r = c01.same(a[n][1], b[n][1], 1e-12) if a[n][0] == "value" else None
                    ensure(not r, f"{n} differs in a {w}: {r}")
            self.models.append([g, c01.merge(m[1], new)])
            self.note(w)
        elif w == "poke":
            # a model of its own: reported dictionaries of a copy are changed
            g = copy.deepcopy(m[0])
            for v in g.parameter_values.values():
                if isinstance(v, dict):
                    v["no_such_thing"] = 1
                elif isinstance(v, np.ndarray) and v.size:
                    v *= 2
        elif w == "component":
            # components of a copy are changed
            g = copy.deepcopy(m[0])
            if not self.cross:
                for n in ("halo_profile", "hod", "bias", "halo_concentration"):
                    s, o = "value", None
                    try:
                        o = quiet(getattr, g, n)
                    except Exception:  # noqa: BLE001
                        s = "error"
                    if s == "value" and hasattr(o, "params"):
                        o.params["norm"] = 77.0
                        o.params["alpha"] = 77.0
        ensure(frozen(self.shared) == self.keep, f"{w} changed the objects given by the caller: {str(self.keep)[:300]} to {str(frozen(self.shared))[:300]}")


def fn_models(case, note):
    before = static_state()
    s = Models(case, note)
    s.new()
    for op in case["ops"]:
        s.run(op)
    order = list(range(len(s.models)))
    random.Random(case["order"]).shuffle(order)
    for i in order:
        s.compare(f"model {i} of {len(s.models)}", *s.models[i], s.some(case["order"] + i, 25))
    # the caller changes what was given
    h, kw = s.models[order[0]]
    for v in s.shared.values():
        if isinstance(v, dict):
            v["Om0"] = v["M_min"] = v["norm"] = 99.0
        elif isinstance(v, np.ndarray):
            v *= 3
        elif isinstance(v, list):
            v[0] = 99.0
    if case["order"] % 2:
        s.change(h, dict(z=0.31))
        kw = c01.merge(kw, dict(z=0.31))
    s.compare("a model whose caller changed the dictionaries and arrays afterwards", h, kw, s.some(case["order"] + 77, 12))
    check_static(before, "use of models")
    note(case["cls"])
    if len(s.models) > 1:
        note("several models")


# --------------------------------------------------------------------------- processes of their own
def evaluate(spec, names):
    """Values of a component or of some quantities of a model."""
    if spec["kind"] != "model":
        o, value, _ = quiet(make, spec)
        return [np.asarray(value(o), dtype=float)]
    h = quiet(get_class(spec["cls"]), **model_kwargs(spec))
    qs = [n for n in c01.quantities(h) if not n.endswith("_fnc")]
    out = []
    for n in random.Random(names).sample(qs, min(12, len(qs))):
        v = quiet(c01.get, h, n)
        if v[0] == "value" and isinstance(v[1], (int, float, np.ndarray, np.number)):
            out.append(np.array(v[1], dtype=float))
    return out


def model_kwargs(spec):
    kw = M.kwargs(spec["cfg"])
    kw.update(dlnk=0.3, dlog10m=0.2, dr_table=0.4, rnum=5, hm_dlog10k=0.5)
    if spec["cls"] in ("HaloModelWDM", "TracerHaloModelWDM"):
        for k in ("hmf_model", "mdef_model", "mdef_params"):
            kw.pop(k, None)
    if spec["cls"] in ("DMHaloModel", "HaloModelWDM"):
        kw = {k: v for k, v in kw.items() if not k.startswith(("hod", "tracer"))}
    if spec["cls"] == "ProjectedCF":
        kw.update(rp_num=3, rnum=25)
    return kw


def PREPARE():
    """What components are given: in both processes from the beginning."""
    for i in range(3):
        quiet(parts, i)


def last_of(specs, names):
    """Values of the last, in a process in which the others were used before."""
    for s in specs[:-1]:
        try:
            evaluate(s, names)
        except Exception:  # noqa: BLE001, S112
            continue  # not valid: no matter here
    return evaluate(specs[-1], names)


def leaves(v, path=()):
    if isinstance(v, dict):
        for k, x in v.items():
            yield from leaves(x, (*path, k))
    elif isinstance(v, (list, tuple)):
        for i, x in enumerate(v):
            yield from leaves(x, (*path, i))
    elif isinstance(v, float) and np.isfinite(v) or (isinstance(v, int) and not isinstance(v, bool)):
        yield path


def nudge(spec, r):
    """Nearly the same."""
    new = copy.deepcopy(spec)
    paths = [p for p in leaves(new) if p[-1] != "seed"]
    if not paths:
        return new
    for p in r.sample(paths, min(len(paths), r.choice([1, 1, 2]))):
        t = new
        for k in p[:-1]:
            t = t[k]
        if isinstance(t, tuple):
            continue
        if p[-1] == "part":
            t["part"] = (t["part"] + 1) % 3
        elif isinstance(t[p[-1]], int):
            t[p[-1]] += 1
        else:
            v = t[p[-1]]
            t[p[-1]] = r.choice([v * (1 + 1e-6), v * (1 + 1e-4), v * 1.003, v * 1.03, v * 0.9, v * 1.3, v + 1e-3, v + 0.2])
    return new


def fn_pristine(case, note):
    spec = json.loads(json.dumps(case["spec"]))
    r = random.Random(case["seed"])
    before = []
    for how in case["before"]:
        before.append(nudge(before[-1] if before and how == "chain" else spec, r) if how in ("nudge", "chain") else json.loads(json.dumps(case["other"])))
    alone = pristine.call("checks.c02", "last_of", [spec], case["seed"])
    after = pristine.call("checks.c02", "last_of", [*before, spec], case["seed"])
    if alone[0] == "error" and after[0] == "error":
        return note.trivial("cannot be built")
    if alone[0] != after[0]:
        raise Violation(f"{label(spec)} gives {str(alone)[:200]} by itself but {str(after)[:200]} after others were used")
    ensure(len(alone[1]) == len(after[1]), "number of quantities")
    for i, (a, b) in enumerate(zip(alone[1], after[1])):
        same(f"{label(spec)} after others were used in the process (value {i})", b, a)
    note(spec["kind"])


def model_st():
    return st.one_of(fx(kind=st.just("model"), cls=st.sampled_from(["DMHaloModel", "TracerHaloModel", "TracerHaloModel", "ProjectedCF"]), cfg=M.tracer_cfg(hod_st())),
                     fx(kind=st.just("model"), cls=st.sampled_from(["HaloModelWDM", "TracerHaloModelWDM"]), cfg=M.merged(M.tracer_cfg(hod_st()), fx(wdm_mass=fl(0.5, 5)))))


def spec_st():
    return st.one_of(comp_st().filter(lambda c: c["kind"] != "exclusion"), model_st())


OPS = lambda: st.lists(st.tuples(st.sampled_from(["again", "value", "copy", "deepcopy", "pickle", "poke"]), st.integers(0, 9)).map(list), min_size=2, max_size=8)
LM = lambda: st.lists(fl(9.5, 15.5), min_size=2, max_size=6, unique=True)
CLAUSES = [
    Clause("pristine", lambda: fx(spec=spec_st(), other=spec_st(), before=st.lists(st.sampled_from(["nudge", "nudge", "chain", "other"]), min_size=1, max_size=5), seed=st.integers(0, 10**6)),
           fn_pristine, quick=120, thorough=4000, shards=8, rule="the component or model can be built", what="values in a process of its own, and in one in which others (nearly the same ones among them) were used before"),
    Clause("components", lambda: fx(comps=st.lists(comp_st(), min_size=2, max_size=5), ops=OPS()), fn_components, quick=400, thorough=12000, shards=8, what="interleaved components"),
    Clause("forms", lambda: fx(comp=comp_st(), lm=LM(), lx=st.lists(fl(-2, 1.5), min_size=1, max_size=5, unique=True), frac=st.booleans()), fn_forms, quick=400, thorough=12000, shards=8, what="orders, layouts and types of input"),
    Clause("functions", lambda: fx(name=st.sampled_from(["ExtendedSpline", "spline_integral", "spline_integral_log", "hankel_transform", "power_to_corr", "exclusion_window", "projected_corr_gal", "angular_corr_gal"]),
                                   seed=st.integers(0, 10**6), n=st.integers(1, 8)), fn_functions, quick=160, thorough=4000, shards=4),
    Clause("populate", lambda: fx(seed=st.integers(0, 10**6), n=st.integers(1, 60), model=st.booleans(), box=st.sampled_from([0, 1, 2])), fn_populate, quick=60, thorough=1500, shards=4),
    Clause("models", lambda: c01.rnd(case_models), fn_models, quick=96, thorough=3000, shards=8, what="models sharing what the caller gives"),
]
