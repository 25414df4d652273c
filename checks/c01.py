"""C01: every quantity depends on the current parameters alone, whatever was read or updated before."""

import random

import numpy as np
from hypothesis import strategies as st

from vlib.core import Clause, Violation
from vlib.util import fx

ASSUMPTIONS = [
    "The oracle is a model of the same class freshly constructed from the parameters an exact bookkeeping "
    "of the updates predicts (dictionaries merge, an empty dictionary clears), or from those the model reports.",
    "Dictionaries are copied before they are handed to a model (hmf stores the caller's dictionary).",
]

GRID = dict(transfer_model="EH", dlnk=0.3, lnk_min=-8.0, lnk_max=6.0, dlog10m=0.25, Mmin=10.0, Mmax=15.5,
            dr_table=0.4, rnum=6, hm_dlog10k=0.4, hmf_model="Tinker10", mdef_model="SOMean", mdef_params={"overdensity": 200})


# --------------------------------------------------------------------------- values
def values():
    """Update operations: name -> list of keyword dictionaries."""
    s = {}
    for name, vals in dict(
        z=[0.0, 0.3, 1.2, 2], sigma_8=[0.75, 0.82, 0.9], n=[0.93, 0.965, 1], delta_c=[1.686, 1.6],
        cosmo_model=["Planck15", "WMAP5", "Planck18"], Mmin=[9.5, 10.0, 10.6], Mmax=[15.0, 15.5, 16],
        dlog10m=[0.25, 0.2], lnk_min=[-8.0, -9.0], lnk_max=[6.0, 5.0], dlnk=[0.3, 0.25],
        transfer_model=["EH", "BBKS", "BondEfs"], takahashi=[True, False], growth_model=["GrowthFactor", "Carroll1992"],
        hc_spectrum=["linear", "nonlinear", "filtered-lin", "filtered-nl"], force_1halo_turnover=[True, False],
        force_unity_dm_bias=[True, False], rmin=[0.01, 0.1, [0.2, 1.0, 5.0]], rmax=[60.0, 120.0], rnum=[6, 4], rlog=[True, False],
        dr_table=[0.4, 0.35], hm_dlog10k=[0.4, 0.5], hm_logk_min=[-2.0, -1.5], hm_logk_max=[2.0, 1.0],
        filter_model=["TopHat", "Gaussian"], disable_mass_conversion=[True, False],
    ).items():
        s[name] = [{name: v} for v in vals]
    s["cosmo_params"] = [dict(cosmo_params=v) for v in ({"Om0": 0.25}, {"H0": 72.0}, {"Om0": 0.33, "Ob0": 0.05}, {})]
    s["colossus_params"] = [dict(colossus_params=v) for v in ({"relspecies": False}, {})]
    return s


PLAIN = values()

#: (model parameter, params parameter) -> {name: possible parameter dictionaries}
MODELS = {
    "bias": dict(Tinker10=[{}, {"alpha": 1.02}] and [{}], ST99=[{}, {"q": 0.75}], SMT01=[{}, {"a": 0.7}], Jing98=[{}],
                 Mo96=[{}], Mandelbaum05=[{}], Seljak04=[{}]),
    "halo_profile": dict(NFW=[{}, {"eta_bloat": 0.2}] and [{}], Moore=[{}], GeneralizedNFW=[{}, {"alpha": 0.8}, {"alpha": 1.2}], Hernquist=[{}], CoredNFW=[{}]),
    "halo_concentration": dict(Duffy08=[{}, {"norm": 1.3}, {"sample": "full"}], Bullock01Power=[{"ms": 1e13}, {"ms": 1e12, "a": 7.0}],
                               Zehavi11=[{}, {"norm": 0.8}], Ludlow16Empirical=[{}], Maccio07=[{}, {"gamma": 1.0}]),
    "hod": dict(Zehavi05=[{}, {"alpha": 1.2}, {"M_min": 12.0}, {"central": True}, {"central": True, "M_min": 11.3}],
                Zheng05=[{}, {"sig_logm": 0.5}, {"M_min": 12.0, "central": True}], Tinker05=[{}, {"M_cut": 12.5}],
                Contreras13=[{}, {"fcb": 0.2}], Constant=[{}, {"logA": 1.0}], ContinuousPowerLaw=[{}, {"M_min": 12.0}],
                Leauthaud11=[{}]),
    "tracer_profile": {None: [{}], "NFW": [{}], "Moore": [{}], "GeneralizedNFW": [{}, {"alpha": 0.7}, {"alpha": 1.3}], "Hernquist": [{}]},
    "tracer_concentration": {None: [{}], "Duffy08": [{}, {"norm": 1.5}, {"b": -0.2}], "Zehavi11": [{}, {"norm": 0.7}], "Maccio07": [{}]},
    "sd_bias": {None: [{}], "TinkerSD05": [{}, {"a": 1.3}, {"b": 0.5}]},
    "exclusion": dict(NoExclusion=[{}], Sphere=[{}], DblSphere=[{}], NgMatched=[{}]),
}
DM_MODELS = ["bias", "halo_profile", "halo_concentration", "sd_bias", "exclusion"]

HMFS = [
    dict(hmf_model="Tinker10", mdef_model="SOMean", mdef_params={"overdensity": 200}),
    dict(hmf_model="Tinker08", mdef_model="SOMean", mdef_params={"overdensity": 300}),
    dict(hmf_model="Tinker08", mdef_model="SOCritical", mdef_params={"overdensity": 200}),
    dict(hmf_model="SMT", mdef_model="SOVirial", mdef_params={}),
    dict(hmf_model="Tinker08", mdef_model="SOVirial", mdef_params={}),
]

INVALID = [
    dict(rmin=50.0, rmax=1.0), dict(hc_spectrum="bogus"), dict(bias_model="NoSuchBias"), dict(Mmin=17.0),
    dict(no_such_parameter=1.0), dict(halo_profile_model="NoSuchProfile", z=0.7), dict(sigma_8=0.77, no_such=2),
    dict(z=-1.0), dict(hm_logk_min=3.0, hm_logk_max=1.0), dict(rmin=5.0, hc_spectrum="bogus", rmax=70.0),
    dict(exclusion_params=3), dict(halo_concentration_params=[1]), dict(lnk_min=8.0, sigma_8=0.85), dict(exclusion_model="Nope", z=0.2),
]
INVALID_TRACER = [dict(hod_params={"M_min": 25.0}), dict(hod_model="NoSuch", sigma_8=0.79), dict(tracer_profile_model="Nope"),
                  dict(hod_params={"no_such_parameter": 1}), dict(hod_params=7), dict(z=0.9, hod_params={"M_min": 40.0})]

# other frameworks: their own parameters, with the models only they accept
MODELS.update({
    "halo_concentration@wdm": {"Duffy08WDM": [{}, {"norm": 1.3}, {"g1": 30.0}, {"beta0": 0.1}], "Zehavi11WDM": [{}, {"g2": 0.4}],
                               "Duffy08": [{}, {"norm": 0.8}], "Ludlow16EmpiricalWDM": [{}, {"g1": 20.0}]},
    "tracer_concentration@wdm": {None: [{}], "Duffy08WDM": [{}, {"norm": 1.5}, {"g1": 90.0}], "Maccio07WDM": [{}, {"g2": 0.3}], "Duffy08": [{}]},
    "wdm": {"Viel05": [{}, {"mu": 1.3}, {"g_x": 1.8}], "Bode01": [{}, {"g_x": 1.2}]},
    "alter": {None: [{}], "Schneider12_vCDM": [{}, {"beta": 0.8}], "Schneider12": [{}, {"alpha": 0.9}], "Lovell14": [{}, {"gamma": 1.5}, {"beta": 0.5}]},
})


def bump(z):
    return np.exp(-(((z - 0.3) / 0.06) ** 2))


def ramp(z):
    return 1.0 + 5 * z


def shell(x):
    return np.exp(-(((x - 900.0) / 150.0) ** 2))


FUNCTIONS = {"fn:bump": bump, "fn:ramp": ramp, "fn:shell": shell}

OWN = dict(
    projected=dict(rp_min=[0.05, 0.2, [0.3, 1.0, 4.0], [0.5]], rp_max=[10.0, 25.0, 60.0], rp_num=[4, 6], rp_log=[True, False], proj_limit=[None, 40.0, 70.0], rnum=[20, 30]),
    angular=dict(theta_min=[1e-4, 3e-4], theta_max=[0.01, 0.02], theta_num=[3, 4], theta_log=[True, False], zmin=[0.2, 0.24], zmax=[0.4, 0.5],
                 znum=[8, 11], logu_min=[-3, -4], logu_max=[1.8, 2.2], unum=[10, 13], p1=[None, "fn:bump", "fn:ramp", "fn:shell"],
                 p2=[None, "fn:bump", "fn:ramp", "fn:shell"], p_of_z=[True, False], check_p_norm=[True, False], z=[0.3, 0.25], rnum=[8, 12]),
    wdm=dict(wdm_mass=[3.0, 1.0, 0.5, 8.0], z=[0.0, 0.4, 1.5], force_unity_dm_bias=[True, False], Mmin=[10.0, 9.5], sigma_8=[0.8, 0.7]),
)
OWN_INVALID = dict(
    projected=[dict(rp_num=-2), dict(rp_min=0.1, rp_num=-1, z=0.4), dict(rp_max=5.0, no_such=1), dict(rp_log=True, hod_model="Nope")],
    angular=[dict(theta_min=-1.0), dict(theta_max=200.0), dict(zmin=0.3, theta_min=-1e-3), dict(zmax=0.5, no_such=1), dict(p1="fn:bump", hod_model="Nope")],
    wdm=[dict(wdm_mass=-1.0), dict(wdm_model="Nope"), dict(alter_model="Nope", z=0.3), dict(alter_model="Schneider12", no_such=1), dict(wdm_params=4)],
)


def own_op(kind, n=(1, 1, 2, 3)):
    own = OWN[kind]

    def f(r):
        return dict(update={k: r.choice(own[k]) for k in r.sample(sorted(own), r.choice(n))})

    return rnd(f)


# weights: physics first
NAMES = sorted(PLAIN) + ["z", "z", "sigma_8", "cosmo_params", "cosmo_params", "n", "takahashi", "dlnk", "transfer_model",
                         "force_1halo_turnover", "dr_table", "hc_spectrum", "Mmin", "dlog10m"]


def rnd(f):
    """Values made by a function of a random generator (hypothesis repeats and mutates its own choices too much here)."""
    return st.integers(0, 2**23).map(lambda seed: f(random.Random(seed * 7919 + 5)))


def pick_plain(r, n=1):
    return {k: v for _ in range(n) for k, v in r.choice(PLAIN[r.choice(NAMES)]).items()}


def plain_op():
    return rnd(pick_plain)


def model_op(models):
    def f(r):
        w = r.choice(models)
        n = r.choice(sorted(MODELS[w], key=str))
        return dict(model=w, name=n, params=r.choice(MODELS[w][n]), together=r.random() < 0.5)

    return rnd(f)


def ops_st(models, extra=(), invalid=()):
    update = rnd(lambda r: dict(update=pick_plain(r, r.choice([1, 1, 2, 3]))))
    mdl = model_op(models)
    hmf = rnd(lambda r: dict(hmf=r.choice(HMFS)))
    read = st.lists(st.integers(0, 10**6), min_size=1, max_size=12).map(lambda r: dict(read=r))
    read_all = st.just(dict(read="all"))
    clone = st.one_of(st.just({}), plain_op()).map(lambda d: dict(clone=d))
    bad = fx(bad=st.sampled_from(INVALID + list(invalid)), restore=st.booleans())
    tweak = rnd(lambda r: dict(tweak=r.choice(models)))
    change = st.one_of(update, update, update, mdl, mdl, mdl, tweak, tweak, tweak, hmf, *extra)
    reads = st.one_of(read, read_all)
    step = st.one_of(st.tuples(change), st.tuples(change), st.tuples(change, reads), st.tuples(change, reads), st.tuples(clone, change), st.tuples(bad))
    return st.tuples(st.lists(change, max_size=2), reads, st.lists(step, min_size=1, max_size=5)).map(
        lambda t: [*t[0], t[1], *[o for x in t[2] for o in x]])


# --------------------------------------------------------------------------- reading quantities
SKIP = {"parameter_values", "how_big"}
PTS_K, PTS_R = np.array([0.004, 0.05, 0.7, 6.0, 40.0]), np.array([0.002, 0.06, 0.7, 6.0, 40.0, 110.0])


def quantities(h):
    par = set(h.parameter_values)
    out = []
    for n in dir(type(h)):
        a = getattr(type(h), n, None)
        if isinstance(a, property) and not n.startswith("_") and n not in par and n not in SKIP:
            out.append(n)
    return out


def canon(name, v, depth=0):
    from astropy.cosmology import Cosmology as AC
    from hmf import Component, Framework

    if v is None or isinstance(v, (str, bool)):
        return v
    if isinstance(v, type):
        return v.__name__
    if hasattr(v, "unit"):
        v = v.value
    if isinstance(v, (int, float, complex, np.number, np.ndarray)):
        return np.asarray(v)
    if isinstance(v, AC):
        return np.array([v.H0.value, v.Om0, v.Ob0 or 0.0, v.Tcmb0.value])
    if type(v).__module__.startswith("colossus"):
        return np.array([v.H0, v.Om0, v.Ob0, v.sigma8, v.ns, float(v.relspecies)])
    if isinstance(v, Component):
        d = {k: canon(k, x, depth + 1) for k, x in v.params.items()}
        for a in ("z", "nu", "m", "delta_c", "n", "sigma_8", "delta_halo", "mstar", "n_eff", "h", "Om0", "mean_density0", "ns",
                  "m_hm", "_central", "sharp_cut", "xi_dm", "cosmo", "mdef"):
            if depth < 2 and hasattr(v, a):
                x = getattr(v, a)
                if not callable(x) or isinstance(x, (Component, AC)):
                    d["." + a] = canon(a, x, depth + 1)
        return dict(cls=type(v).__name__, **d)
    if isinstance(v, Framework):
        return {q: canon(q, getattr(v, q), depth + 1) for q in ("parameter_values",)} if depth else type(v).__name__
    if isinstance(v, dict):
        return {str(k): canon(str(k), x, depth + 1) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [canon(name, x, depth + 1) for x in v]
    if callable(v):
        if name == "nu_fn":
            return np.asarray(v(np.array([1e11, 1e13])))
        if name.startswith("p1") or name.startswith("p2"):
            return np.asarray(v(np.linspace(0.1, 0.6, 7)))
        x = PTS_R if "corr" in name else PTS_K
        try:
            return np.asarray(v(x.copy()))
        except TypeError:
            return type(v).__name__
    return type(v).__name__


def get(h, name):
    """('value', canonical value) or ('error', exception class name)."""
    try:
        return "value", canon(name, getattr(h, name))
    except Exception as e:  # noqa: BLE001
        return "error", type(e).__name__


def same(a, b, rtol=1e-9):
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return f"shapes {a.shape} and {b.shape}"
        if a.dtype == object or b.dtype == object or a.dtype.kind in "US":
            return None if np.array_equal(a, b) else "different"
        a, b = np.asarray(a, dtype=float if a.dtype.kind != "c" else complex), np.asarray(b)
        if not a.size:
            return None
        sc = np.nanmax(np.where(np.isfinite(b), np.abs(b), 0)) if b.size else 0
        ok = np.isclose(a, b, rtol=rtol, atol=1e-12 * sc, equal_nan=True)
        if not np.all(ok):
            i = np.unravel_index(int(np.argmin(ok)), a.shape) if a.shape else ()
            return f"{a[i]!r} instead of {b[i]!r} at {tuple(int(x) for x in i)}"
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return f"entries {sorted(a)} and {sorted(b)}"
        for k in a:
            r = same(a[k], b[k], rtol)
            if r:
                return f"[{k}] {r}"
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "lengths"
        for x, y in zip(a, b):
            r = same(x, y, rtol)
            if r:
                return r
        return None
    return None if type(a) is type(b) and a == b else f"{a!r} instead of {b!r}"


def compare(h, kw, what, order=0, names=None):
    """The model against one freshly built from keyword arguments."""
    fresh = build(type(h), kw)
    names = names or quantities(h)
    if order:
        names = names[::-1] if order == 1 else names[order % len(names):] + names[: order % len(names)]
    want = {n: get(fresh, n) for n in names}
    for n in names:
        got = get(h, n)
        if got[0] != want[n][0]:
            raise Violation(f"{what}: {n} gives {got[0]} {str(got[1])[:80]}, but a new model {want[n][0]} {str(want[n][1])[:80]}")
        if got[0] == "value":
            r = same(got[1], want[n][1])
            if r:
                raise Violation(f"{what}: {n} is not that of a new model with the same parameters: {r}")


def cp(v):
    if isinstance(v, str) and v in FUNCTIONS:
        return FUNCTIONS[v]
    return dict(v) if isinstance(v, dict) else (v.copy() if isinstance(v, (list, np.ndarray)) else v)


def build(cls, kw):
    return cls(**{k: cp(v) for k, v in kw.items()})


def merge(kw, new):
    """The parameters after an update."""
    out = {k: cp(v) for k, v in kw.items()}
    for k, v in new.items():
        if isinstance(v, dict) and v and out.get(k):
            out[k] = {**out[k], **v}
        else:
            out[k] = cp(v)
    return out


class History:
    def __init__(self, cls, kw, note):
        self.cls, self.kw, self.note = cls, kw, note
        self.h = build(cls, kw)
        self.names = quantities(self.h)
        self.others = []
        self.n_upd = 0
        self.n_reads = 0

    def update(self, **new):
        """An update which may legitimately be refused (if a new model would refuse it as well)."""
        target = merge(self.kw, new)
        try:
            self.h.update(**{k: cp(v) for k, v in new.items()})
        except Exception as e:  # noqa: BLE001
            try:
                build(self.cls, target)
            except Exception:  # noqa: BLE001
                self.note("refused update")
                self.recover(new)
                return
            raise Violation(f"update({new}) was refused ({type(e).__name__}: {str(e)[:120]}), but a new model accepts these parameters") from e
        self.kw = target
        self.n_upd += 1
        self.note("update " + ("several" if len(new) > 2 else ",".join(sorted(new))))

    def recover(self, new, restore=True):
        """After a refused update: the model follows the parameters it reports, and can be repaired."""
        rep = {k: v for k, v in self.h.parameter_values.items() if v is not None or k in self.kw}
        if not restore:
            try:
                build(self.cls, rep)
                self.note("continued with the reported parameters")
                self.kw = {k: cp(v) for k, v in rep.items()}
                return
            except Exception:  # noqa: BLE001
                pass
        self.note("restored")
        known = set(rep) | set(self.kw)
        full = build(self.cls, self.kw).parameter_values
        back = {k: cp(full[k]) for k in new if k in known and k in full}
        for k in back:
            if isinstance(back[k], dict):
                try:
                    self.h.update(**{k: {}})
                except Exception:  # noqa: BLE001
                    pass
        try:
            self.h.update(**back)
        except Exception as e:
            raise Violation(f"valid parameters {back} are refused after a refused update {new}: {type(e).__name__}: {str(e)[:150]}") from e

    def run(self, op):
        if "read" in op:
            names = self.names if op["read"] == "all" else [self.names[i % len(self.names)] for i in op["read"]]
            self.n_reads += 1
            for n in names:
                if get(self.h, n)[0] == "error":
                    self.note("a quantity cannot be evaluated")
        elif "update" in op:
            self.update(**op["update"])
        elif "hmf" in op:
            self.update(mdef_params={})
            self.update(**{k: v for k, v in op["hmf"].items() if v != {}})
        elif "model" in op:
            w = op["model"].split("@")[0]
            m, p = w + "_model", w + "_params"
            self.update(**{p: {}})
            if op["together"]:
                self.update(**({m: op["name"], p: op["params"]} if op["params"] else {m: op["name"]}))
            else:
                self.update(**{m: op["name"]})
                if op["params"]:
                    self.update(**{p: op["params"]})
        elif "tweak" in op:
            # change the parameters of the present model, whichever it is
            w = op["tweak"].split("@")[0]
            m, p = w + "_model", w + "_params"
            cur = getattr(self.h, m)
            name = cur if cur is None else cur.__name__
            opts = [x for x in MODELS[op["tweak"]].get(name, []) if x]
            if opts:
                self.update(**{p: opts[self.n_upd % len(opts)]})
        elif "clone" in op:
            c = op["clone"]
            target = merge(self.kw, c)
            try:
                new = self.h.clone(**{k: cp(v) for k, v in c.items()})
            except Exception as e:  # noqa: BLE001
                try:
                    build(self.cls, target)
                except Exception:  # noqa: BLE001
                    self.note("refused clone")
                    return
                raise Violation(f"clone({c}) failed ({type(e).__name__}: {e}), but a new model accepts these parameters") from e
            if len(self.others) < 2:
                self.others.append((self.h, self.kw))
            self.h, self.kw = new, target
            self.note("clone")
        elif "bad" in op:
            try:
                self.h.update(**{k: cp(v) for k, v in op["bad"].items()})
            except Exception:  # noqa: BLE001
                self.note("rejected " + ",".join(op["bad"]))
                self.recover(op["bad"], op["restore"])
            else:
                self.kw = merge(self.kw, op["bad"])
                try:
                    build(self.cls, self.kw)
                except Exception as e:
                    raise Violation(f"update({op['bad']}) was accepted, but a new model refuses it: {type(e).__name__}: {e}") from e


def run_history(cls, case, note, base):
    ops = list(case["ops"])
    start = {}
    while case["born"] and ops and "update" in ops[0]:
        start = merge(start, ops.pop(0)["update"])
    try:
        H = History(cls, {**base, **start}, note)
    except Exception:  # noqa: BLE001
        return note.trivial("invalid start")
    if start:
        note("constructed with other parameters")
    for op in ops:
        H.run(op)
    if H.n_upd == 0 or H.n_reads == 0:
        note.trivial("no update or no read")
    compare(H.h, H.kw, "after the history", case["order"])
    for h, kw in H.others:
        compare(h, kw, "the original of a clone", case["order"])


def fn_dm(case, note):
    from halomod import DMHaloModel

    run_history(DMHaloModel, case, note, GRID)


def fn_tracer(case, note):
    from halomod import TracerHaloModel

    run_history(TracerHaloModel, case, note, GRID)


def framework(kind):
    from halomod import AngularCF, ProjectedCF, TracerHaloModel
    from halomod.wdm import HaloModelWDM, TracerHaloModelWDM

    return {
        "tracer": (TracerHaloModel, {}),
        "projected": (ProjectedCF, dict(rp_min=0.1, rp_max=15.0, rp_num=4, rnum=20)),
        "angular": (AngularCF, dict(z=0.3, theta_min=2e-4, theta_max=0.015, theta_num=3, znum=8, unum=10, rnum=10)),
        "wdm": (HaloModelWDM, dict(wdm_mass=2.0, halo_concentration_model="Duffy08WDM")),
        "tracer wdm": (TracerHaloModelWDM, dict(wdm_mass=2.0, halo_concentration_model="Duffy08WDM")),
    }[kind]


def fn_own(case, note):
    cls, base = framework(case["kind"])
    run_history(cls, case, note, {**GRID, **base})
    note(case["kind"])


# --------------------------------------------------------------------------- a switch, there and back, then the rest
SWITCHES = dict(
    tracer=dict(hc_spectrum=["linear", "nonlinear", "filtered-lin", "filtered-nl"], force_1halo_turnover=[True, False], force_unity_dm_bias=[True, False],
                rmin=[0.1, [0.2, 1.0, 5.0]], rlog=[True, False], hod_model=["Zehavi05", "Zheng05", "Contreras13", "Tinker05"],
                tracer_profile_model=[None, "NFW", "Moore"], tracer_concentration_model=[None, "Duffy08", "Zehavi11"], sd_bias_model=[None, "TinkerSD05"],
                exclusion_model=["NoExclusion", "Sphere", "DblSphere", "NgMatched"], disable_mass_conversion=[True, False], takahashi=[True, False],
                transfer_model=["EH", "BBKS"], bias_model=["Tinker10", "ST99", "Jing98"], halo_profile_model=["NFW", "Moore", "Hernquist"],
                halo_concentration_model=["Duffy08", "Zehavi11", "Bullock01"], filter_model=["TopHat", "Gaussian"], growth_model=["GrowthFactor", "Carroll1992"]),
    projected=dict(proj_limit=[None, 40.0, 70.0], rp_min=[0.05, 0.2, [0.3, 1.0, 4.0], [0.5]], rp_log=[True, False], rmin=[0.1, [0.2, 1.0, 5.0]]),
    angular=dict(p1=[None, "fn:bump", "fn:ramp"], p2=[None, "fn:bump", "fn:shell"], p_of_z=[True, False], check_p_norm=[True, False], theta_log=[True, False]),
    wdm=dict(wdm_model=["Viel05", "Bode01"], alter_model=[None, "Schneider12_vCDM", "Schneider12"], halo_concentration_model=["Duffy08", "Duffy08WDM", "Zehavi11WDM"],
             force_unity_dm_bias=[True, False], transfer_model=["EH", "BBKS"], hc_spectrum=["linear", "nonlinear"]),
)
SWITCHES["tracer wdm"] = {**SWITCHES["wdm"], "tracer_concentration_model": [None, "Duffy08", "Duffy08WDM"], "tracer_profile_model": [None, "NFW", "Moore"]}
OWN["tracer"] = {}
OWN["tracer wdm"] = OWN["wdm"]
HEAVY = {"projected_corr_gal", "angular_corr_gal", "angular_corr_matter"}


def toggle_st():
    def f(r):
        kind = r.choice(["tracer", "tracer", "projected", "projected", "angular", "wdm", "tracer wdm"])
        name = r.choice(sorted(SWITCHES[kind]))
        vals = list(SWITCHES[kind][name])
        r.shuffle(vals)
        path = vals[: r.choice([2, 2, 3])]
        if r.random() < 0.3:
            path.append(path[0])
        rest = []
        own = OWN[kind]
        turn = r.sample(sorted(own), len(own))
        for _ in range(r.choice([3, 4, 6]) + min(len(own), 4)):
            if own and r.random() < 0.75:
                k = turn[0]
                turn = [*turn[1:], k]
                u = {k: r.choice(own[k])}
            else:
                u = pick_plain(r)
            if name not in u:
                rest.append(u)
        return dict(kind=kind, switch=name, path=path, rest=rest, born=r.random() < 0.6, heavy=r.random() < 0.06, partial=r.choice([0, 0, 2, 3]), order=r.randrange(40))

    return rnd(f)


def fn_toggle(case, note):
    cls, base = framework(case["kind"])
    # some start with the first value (validation already reads quantities on construction)
    H = History(cls, {**GRID, **base, **({case["switch"]: case["path"][0]} if case["born"] else {})}, note)
    light = [n for n in H.names if n not in HEAVY and "corr" not in n and "power" not in n]
    for i, v in enumerate(case["path"]):
        if i or not case["born"]:
            H.update(**{case["switch"]: v})
        for i, n in enumerate(light):
            if not case["partial"] or (i + case["order"]) % case["partial"]:
                get(H.h, n)
    for u in case["rest"]:
        H.update(**u)
        compare(H.h, H.kw, f"{case['switch']} through {case['path']}, then {u}", case["order"], names=light)
    if case["heavy"]:
        compare(H.h, H.kw, "at the end", case["order"])
    note(case["kind"])
    note(case["switch"])


# --------------------------------------------------------------------------- cross-correlations
SIDE = dict(
    z=[0.0, 0.3, 1.2], sigma_8=[0.75, 0.82, 0.9], n=[0.93, 0.965], cosmo_params=[{"Om0": 0.25}, {"H0": 72.0}, {}], hc_spectrum=["linear", "nonlinear"],
    force_1halo_turnover=[True, False], hod_model=["Zehavi05", "Zheng05", "Contreras13"], hod_params=[{"M_min": 12.0}, {"M_min": 11.3, "central": True}, {"alpha": 1.3}, {}],
    tracer_profile_model=["NFW", "Moore", "Hernquist", None], tracer_concentration_model=["Duffy08", "Zehavi11", None],
    tracer_concentration_params=[{"norm": 1.5}, {"norm": 0.7}, {}], bias_model=["Tinker10", "ST99", "Mo96"], halo_profile_model=["NFW", "Moore"],
    halo_concentration_params=[{"norm": 1.2}, {}], rnum=[6, 4], rmin=[0.1, 0.3, [0.2, 1.0, 5.0]], dr_table=[0.4, 0.35], exclusion_model=["NoExclusion", "Sphere"],
    Mmin=[10.0, 10.5], dlog10m=[0.25, 0.2], hm_dlog10k=[0.4, 0.5], growth_model=["GrowthFactor", "Carroll1992"], takahashi=[True, False],
)
SIDE_INVALID = [dict(hod_model="Nope"), dict(hod_params={"no_such": 1}), dict(z=0.6, hod_model="Nope"), dict(rmin=70.0, rmax=1.0), dict(no_such=1)]
CROSS = {"ConstantCorr": [{}, {"R_ss": 0.3}, {"R_cs": -0.2, "R_sc": 0.5}, {"R_ss": 0.8, "R_cs": 0.1}]}
CROSS_Q = ["cross_hod", "power_1h_cross_fnc", "power_1h_cross", "corr_1h_cross_fnc", "corr_1h_cross", "power_2h_cross_fnc", "power_2h_cross",
           "corr_2h_cross_fnc", "corr_2h_cross", "power_cross_fnc", "power_cross", "corr_cross_fnc", "corr_cross"]


def cross_st():
    def upd(r):
        ks = r.sample(sorted(SIDE), r.choice([1, 1, 2]))
        return dict(side=r.choice(["1", "2", "12"]), how=r.choice(["top", "direct"]), new={k: r.choice(SIDE[k]) for k in ks})

    def ops(r):
        out = []
        for _ in range(r.choice([1, 2, 3, 4])):
            n = r.random()
            if n < 0.75:
                out.append(upd(r))
            elif n < 0.88:
                out.append(dict(cross=r.choice(CROSS["ConstantCorr"])))
            elif n < 0.94:
                out.append(dict(clone=True))
            else:
                out.append(dict(bad=r.choice(SIDE_INVALID), side=r.choice("12")))
            if r.random() < 0.6:
                out.append(dict(read=r.sample(range(len(CROSS_Q)), r.choice([1, 2, 3])), sub=r.randrange(1000) if r.random() < 0.3 else None))
        read = dict(read=r.sample(range(len(CROSS_Q)), r.choice([1, 2, 3, len(CROSS_Q)])), sub=None)
        return [upd(r), read, *out] if r.random() < 0.3 else [read, *out]

    return fx(ops=rnd(ops), order=st.integers(0, 20))


def new_cross(kws, cross):
    from halomod.cross_correlations import CrossCorrelations

    return CrossCorrelations(cross_hod_model="ConstantCorr", cross_hod_params=dict(cross),
                             halo_model_1_params={k: cp(v) for k, v in kws[0].items()}, halo_model_2_params={k: cp(v) for k, v in kws[1].items()})


def fn_cross(case, note):
    kws = [{**GRID, "z": 0.2, "hod_model": "Zehavi05"}, {**GRID, "z": 0.2, "hod_model": "Zheng05"}]
    cross = {}
    c = new_cross(kws, cross)
    olds = []
    n_upd = 0

    def names(i):
        return CROSS_Q[i % len(CROSS_Q):] + CROSS_Q[: i % len(CROSS_Q)]

    def check(c, kws, cross, what):
        fresh = new_cross(kws, cross)
        for n in names(case["order"]):
            want, got = get(fresh, n), get(c, n)
            if got[0] != want[0]:
                raise Violation(f"{what}: {n} gives {got[0]} {str(got[1])[:80]}, but new models {want[0]} {str(want[1])[:80]}")
            if got[0] == "value":
                r = same(got[1], want[1])
                if r:
                    raise Violation(f"{what}: {n} is not that of new models with the same parameters: {r}")
            else:
                note("error in both")
        for i, h in enumerate((c.halo_model_1, c.halo_model_2)):
            compare(h, kws[i], f"{what}, model {i + 1}", names=["power_auto_tracer", "corr_auto_tracer", "mean_tracer_den", "r", "power_auto_matter"])

    for op in case["ops"]:
        if "read" in op:
            for i in op["read"]:
                get(c, CROSS_Q[i])
            if op["sub"] is not None:
                qs = quantities(c.halo_model_1)
                get(c.halo_model_1, qs[op["sub"] % len(qs)])
                get(c.halo_model_2, qs[(op["sub"] * 7) % len(qs)])
        elif "new" in op:
            for s in op["side"]:
                i = int(s) - 1
                target = merge(kws[i], op["new"])
                try:
                    build_tracer(target)
                except Exception:  # noqa: BLE001
                    note("refused")
                    return note.trivial("refused")
                new = {k: cp(v) for k, v in op["new"].items()}
                # parameters of another model do not carry over
                if op["how"] == "top":
                    c.update(**{f"halo_model_{s}_params": new})
                else:
                    (c.halo_model_1 if i == 0 else c.halo_model_2).update(**new)
                kws[i] = target
                n_upd += 1
                note(op["how"])
                for k in sorted(new):
                    note(k)
        elif "cross" in op:
            c.update(cross_hod_params=dict(op["cross"]))
            cross = merge(dict(c=cross), dict(c=op["cross"]))["c"]
            n_upd += 1
            note("cross_hod_params")
        elif "clone" in op:
            olds.append((c, [dict(k) for k in kws], cross))
            c = c.clone()
            note("clone")
        elif "bad" in op:
            s = op["side"]
            i = int(s) - 1
            h = c.halo_model_1 if i == 0 else c.halo_model_2
            try:
                c.update(**{f"halo_model_{s}_params": {k: cp(v) for k, v in op["bad"].items()}})
            except Exception:  # noqa: BLE001
                pass
            else:
                raise Violation(f"update of model {s} with {op['bad']} was accepted")
            full = build_tracer(kws[i]).parameter_values
            back = {k: cp(full[k]) for k in op["bad"] if k in full}
            for k, v in back.items():
                if isinstance(v, dict):
                    try:
                        h.update(**{k: {}})
                    except Exception:  # noqa: BLE001
                        pass
            h.update(**back)
            note("refused and restored")
    if not n_upd:
        note.trivial("no update")
    check(c, kws, cross, "after the history")
    for o, k, x in olds:
        check(o, k, x, "the original of a clone")


def build_tracer(kw):
    from halomod import TracerHaloModel

    h = build(TracerHaloModel, kw)
    for n in ("hod", "tracer_profile", "bias", "halo_profile", "halo_concentration", "tracer_concentration"):
        getattr(h, n)
    return h


def own_ops(kind, models, invalid=()):
    own = own_op(kind)
    return ops_st(models, extra=(own,) * 9, invalid=[*OWN_INVALID[kind], *invalid])


def own_st():
    tr = ["hod", "tracer_profile", "tracer_concentration", "bias", "halo_profile"]
    wd = ["halo_concentration@wdm", "wdm", "alter", "wdm", "alter", "bias", "halo_profile"]
    return st.one_of(
        fx(kind=st.just("projected"), ops=own_ops("projected", tr), order=st.integers(0, 40), born=st.booleans()),
        fx(kind=st.just("angular"), ops=own_ops("angular", tr), order=st.integers(0, 40), born=st.booleans()),
        fx(kind=st.just("wdm"), ops=own_ops("wdm", wd), order=st.integers(0, 40), born=st.booleans()),
        fx(kind=st.just("tracer wdm"), ops=own_ops("wdm", [*wd, "tracer_concentration@wdm", "tracer_concentration@wdm", "hod", "tracer_profile"]), order=st.integers(0, 40), born=st.booleans()),
    )


CLAUSES = [
    Clause("dm", lambda: fx(ops=ops_st(DM_MODELS), order=st.integers(0, 40), born=st.booleans()), fn_dm, quick=240, shards=4,
           rule="histories of 2-9 updates, model switches, reads, clones and refused updates of a matter model, with at least one update and one read",
           what="every public quantity equals that of a new model"),
    Clause("tracer", lambda: fx(ops=ops_st(DM_MODELS + ["hod", "hod", "tracer_profile", "tracer_profile", "tracer_concentration"], invalid=INVALID_TRACER),
                                order=st.integers(0, 40), born=st.booleans()), fn_tracer, quick=400, shards=8,
           rule="the same for tracer models",
           what="every public quantity equals that of a new model"),
    Clause("frameworks", own_st, fn_own, quick=160, shards=8,
           rule="the same for projected, angular and warm-dark-matter models, with updates of their own parameters and models",
           what="every public quantity equals that of a new model"),
    Clause("toggle", toggle_st, fn_toggle, quick=800, shards=8,
           rule="one model or option taken through 2-4 values with reads in between, then 3-10 other updates, each followed by a comparison of the light quantities (6 %: of all)",
           what="every quantity equals that of a new model"),
    Clause("cross", cross_st, fn_cross, quick=200, shards=8,
           rule="histories of 1-6 updates of either or both models (by the cross-correlation or on the model itself) and of the correlation of tracers, reads and clones",
           what="every cross-correlation equals that of newly made models"),
]
