"""C25: predictions do not depend on the output grids or on the resolution of internal tables."""

import warnings

import numpy as np
from hypothesis import strategies as st

from checks import c01
from checks.c13 import hods
from vlib import models as M
from vlib.core import Clause, Violation
from vlib.util import close, ensure, finite, fl, fx

ASSUMPTIONS = [
    "Values at common points of two output grids, and everything not tabulated on them, agree to 1e-9; where the grid is also the "
    "table from which an integral is interpolated (projected and angular correlations), to the accuracy of that interpolation, "
    "which is measured on the 3D correlation itself.",
    "The change allowed when internal tables are refined is a multiple of that seen for the present integration rules.",
]


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


# --------------------------------------------------------------------------- output grids
def rgrid_st():
    return st.one_of(
        fx(kind=st.sampled_from(["log", "log", "lin"]), lo=fl(-2.5, 0.3), span=fl(0.5, 2.4), num=st.integers(2, 12), q=st.integers(1, 4)),
        fx(kind=st.sampled_from(["list", "array"]), rs=st.lists(fl(-2.5, 2.3).map(lambda v: round(10**v, 5)), min_size=1, max_size=6, unique=True)),
        fx(kind=st.just("ints"), rs=st.lists(st.integers(1, 150), min_size=1, max_size=5, unique=True)),
    )


def kgrid_st():
    return fx(lo=fl(-3, 0), span=fl(0.4, 4), num=st.integers(1, 12), q=st.integers(1, 4))


def rgrid(g, q=1):
    """(parameters, separations): the grid, or one which contains it."""
    if g["kind"] in ("log", "lin"):
        lo, hi = 10 ** g["lo"], 10 ** (g["lo"] + g["span"])
        n = (g["num"] - 1) * q + 1
        return dict(rmin=lo, rmax=hi, rnum=n, rlog=g["kind"] == "log"), (np.geomspace if g["kind"] == "log" else np.linspace)(lo, hi, n)
    rs = list(g["rs"])
    if q > 1:
        rs = [v for x in rs for v in [x, *([x + i for i in range(1, q)] if g["kind"] == "ints" else [x * (1 + 0.01 * i) for i in range(1, q)])]]
    return dict(rmin=np.array(rs) if g["kind"] == "array" else list(rs)), np.array(rs, dtype=float)


def kgrid(g, q=1):
    d = g["span"] / g["num"]
    # half a step beyond the last wavenumber: rounding does not decide how many there are
    return (dict(hm_logk_min=g["lo"], hm_logk_max=g["lo"] + g["span"] - d / 2 / q, hm_dlog10k=d / q),
            10 ** (g["lo"] + d / q * np.arange(g["num"] * q)))


def grid_params(p):
    kw = dict(rmin=0.01, rmax=120.0, rnum=5, rlog=True)
    kw.update(p)
    return kw


KINDS = ["dm", "tracer", "tracer", "tracer", "wdm", "twdm", "cross", "cross"]


def make(case, over):
    kw = M.kwargs({k: v for k, v in case["cfg"].items() if k not in (("hod", "tprof", "tracer_concentration_model") if case["kind"] in ("dm", "wdm") else ())})
    for k in ("rmin", "rmax", "rnum", "hm_dlog10k"):
        kw.pop(k, None)
    kw.update(dlog10m=0.2, dlnk=0.2, dr_table=0.2)
    if case["exclusion"]:
        kw["exclusion_model"] = case["exclusion"]
    if case["sd"]:
        kw["sd_bias_model"] = "TinkerSD05"
    kw.update(over)
    if case["kind"] == "dm":
        from halomod import DMHaloModel

        return quiet(DMHaloModel, **kw)
    if case["kind"] == "tracer":
        from halomod import TracerHaloModel

        return quiet(TracerHaloModel, **kw)
    if case["kind"] in ("wdm", "twdm"):
        from halomod.wdm import HaloModelWDM, TracerHaloModelWDM

        kw.pop("hmf_model", None)
        kw.pop("mdef_model", None), kw.pop("mdef_params", None)
        return quiet(HaloModelWDM if case["kind"] == "wdm" else TracerHaloModelWDM, wdm_mass=case["mx"], **kw)
    from halomod.cross_correlations import ConstantCorr, CrossCorrelations

    kw2 = dict(kw, hod_model="Zheng05", hod_params={"M_min": 12.3, "M_1": 13.5, "sig_logm": 0.3})
    # only the grids of the first model matter
    kw2.update(case["second"])
    return quiet(CrossCorrelations, cross_hod_model=ConstantCorr, halo_model_1_params=dict(kw), halo_model_2_params=kw2)


def first(h):
    return h.halo_model_1 if hasattr(h, "halo_model_1") else h


def change(h, over):
    if hasattr(h, "halo_model_1"):
        h.update(halo_model_1_params=dict(over))
    else:
        h.update(**over)


SKIPQ = {"halo_model_1", "halo_model_2"}
PTSK, PTSR = np.array([0.004, 0.7, 0.05, 40.0, 6.0]), np.array([0.7, 0.002, 110.0, 0.06, 6.0, 40.0])


def fn_grids(case, note):
    rA, sepA = rgrid(case["r"])
    rB, sepB = rgrid(case["r"], case["r"].get("q", 3))
    rC, sepC = rgrid(case["r2"])
    kA, wavA = kgrid(case["k"])
    kB, wavB = kgrid(case["k"], case["k"]["q"])
    kC, wavC = kgrid(case["k2"])
    A = make(case, {**grid_params(rA), **kA})
    B = make(case, {**grid_params(rB), **kB})
    if case["update"]:
        C = make(case, {**grid_params(rA), **kA})
        for n in c01.quantities(C)[:: 1 + case["seed"] % 3]:
            quiet(c01.get, C, n)
        quiet(change, C, {**grid_params(rC), **kC})
        note("after an update")
    else:
        C = make(case, {**grid_params(rC), **kC})
    for h, s, w in ((A, sepA, wavA), (B, sepB, wavB), (C, sepC, wavC)):
        close("separations", first(h).r, s, rtol=1e-9)
        close("wavenumbers", first(h).k_hm, w, rtol=1e-9)
    names = [n for n in c01.quantities(A) if n not in SKIPQ]
    common = 0
    for n in names:
        a, b, c = (quiet(c01.get, h, n) for h in (A, B, C))
        if not a[0] == b[0] == c[0]:
            raise Violation(f"{n} gives {a[0]}, {b[0]} and {c[0]} {str((a[1], b[1], c[1]))[:200]} on three output grids")
        if a[0] != "value" or n in ("r", "k_hm"):
            continue
        corr = "corr" in n
        grids = [(first(h).r if corr else first(h).k_hm) for h in (A, B, C)]
        # tabulated on the output grids: those that have a function form, and those that the WDM models tabulate
        if (hasattr(type(A), n + "_fnc") and n != "nonlinear_power") or n in ("power_auto_matter_hh", "power_auto_matter_sh", "power_auto_matter_ss"):
            for v, g, h in zip((a[1], b[1], c[1]), grids, (A, B, C)):
                if np.shape(v) != np.shape(g):
                    raise Violation(f"{n} has shape {np.shape(v)} on a grid of shape {np.shape(g)}")
            q = case["r"].get("q", 3) if corr else case["k"]["q"]
            size = np.nanmax(np.abs(np.where(np.isfinite(a[1]), a[1], 0)))
            ensure_close(n, b[1][::q][: len(a[1])], a[1], size, f"at the points common to grids of {len(grids[0])} and {len(grids[1])}")
            common += 1
            wdm_form = case["kind"] in ("wdm", "twdm") and n == "power_auto_matter"
            if hasattr(type(A), n + "_fnc") and not wdm_form:
                for i, (h, v, g) in enumerate(zip((A, B, C), (a[1], b[1], c[1]), grids)):
                    f = getattr(h, n + "_fnc")
                    ensure_close(n + "_fnc", quiet(f, g), v, size, "on the grid")
                    # the functions of the other models on this one's grid
                    ensure_close(n + "_fnc", quiet(getattr((B, C, A)[i], n + "_fnc"), g), v, size, "of a model with another grid")
        else:
            for other, lab in ((b, "finer"), (c, "different")):
                r = c01.same(other[1], a[1])
                if r:
                    raise Violation(f"{n} depends on the output grids ({lab}): {r}")
            if n.endswith("_fnc") and callable(getattr(A, n)):
                f = getattr(A, n)
                x = PTSR if corr else PTSK
                v = np.asarray(quiet(f, x.copy()))
                o = np.argsort(x)
                size = np.nanmax(np.abs(np.where(np.isfinite(v), v, 0)))
                ensure_close(n, quiet(f, x[o]), v[o], size, "in another order")
                one = [np.asarray(quiet(f, float(t)), dtype=float).reshape(-1) for t in x]
                if any(len(t) != 1 for t in one):
                    raise Violation(f"{n} of a single number has shapes {[np.shape(t) for t in one]}")
                ensure_close(n, np.concatenate(one), v, size, "one at a time")
                seams(n, f, EDGES_R if corr else np.array([first(A).k[0], first(A).k[-1], first(A).k[len(first(A).k) // 2]]), size)
    ensure(common >= 2, f"only {common} tabulated quantities")
    note(case["kind"])


#: first, last and another separation of the internal table
EDGES_R = 10 ** np.arange(-3, 2.5, 0.2)[[0, -1, 7]]


def seams(n, f, x, size):
    """At the very ends of its table, a function has the value next to it on one side at least."""
    for how in ("array", "single"):
        at, lo, hi = (np.array([float(np.squeeze(quiet(f, float(t)))) for t in y]) if how == "single" else np.asarray(quiet(f, y), dtype=float)
                      for y in (x.copy(), x * (1 - 1e-9), x * (1 + 1e-9)))
        ok = np.isclose(at, lo, rtol=1e-6, atol=1e-9 * size, equal_nan=True) | np.isclose(at, hi, rtol=1e-6, atol=1e-9 * size, equal_nan=True)
        if not np.all(ok):
            i = int(np.argmin(ok))
            raise Violation(f"{n} is {at[i]!r} at {x[i]!r}, between {lo[i]!r} and {hi[i]!r} ({how})")


def ensure_close(what, got, want, size, where):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        raise Violation(f"{what}: shapes {got.shape} and {want.shape} {where}")
    ok = np.isclose(got, want, rtol=1e-8, atol=1e-11 * size, equal_nan=True)
    if not np.all(ok):
        i = int(np.argmin(ok))
        raise Violation(f"{what}: {got[i]!r} and {want[i]!r} {where}")


def fn_klimits(case, note):
    """Limits of the grid of wavenumbers for arbitrary steps."""
    from halomod import DMHaloModel

    h = DMHaloModel(transfer_model="EH", dlnk=0.5, dlog10m=0.5, hm_logk_min=case["lo"], hm_logk_max=case["lo"] + case["span"], hm_dlog10k=case["d"])
    if case["update"]:
        h.k_hm
        lo = case["lo"] + case["shift"]
        h.update(hm_logk_min=lo, hm_logk_max=lo + case["span"])
    else:
        lo = case["lo"]
    lk = np.log10(finite("wavenumbers", h.k_hm))
    close("smallest wavenumber", lk[0], lo, rtol=0, atol=1e-9)
    if len(lk) > 1:
        close("spacing of wavenumbers", np.diff(lk), np.full(len(lk) - 1, case["d"]), rtol=0, atol=1e-9)
    ensure(lo + case["span"] - case["d"] * (1 + 1e-6) <= lk[-1] <= lo + case["span"] + 1e-9 * case["d"] + 1e-9, f"largest wavenumber 10**{lk[-1]} for a maximum 10**{lo + case['span']}, spacing {case['d']}")


# --------------------------------------------------------------------------- internal tables
#: quantities and how much (relatively) they may change; separations and wavenumbers at which functions are compared
TOLS = dict(
    mean_tracer_den=5e-3, mean_tracer_den_unit=5e-3, bias_effective_tracer=2e-3, mass_effective=1e-3, satellite_fraction=6e-3, mass_nonlinear=1.5e-2,
    dndm=1e-2, halo_bias=5e-3, sigma=2.5e-3, nu=5e-3, cmz_relation=1e-9, total_occupation=1e-9, satellite_occupation=1e-9, central_occupation=1e-9,
    power_1h_auto_matter_fnc=0.07, power_1h_auto_tracer_fnc=0.07, power_1h_ss_auto_tracer_fnc=0.07, power_1h_cs_auto_tracer_fnc=0.07,
    power_1h_cross_tracer_matter_fnc=0.01, power_2h_auto_matter_fnc=0.03, power_2h_auto_tracer_fnc=0.03, power_2h_cross_tracer_matter_fnc=0.03,
    linear_power_fnc=1e-2, nonlinear_power_fnc=2.5e-2, corr_linear_mm_fnc=2e-2, corr_1h_auto_matter_fnc=0.03, corr_1h_auto_tracer_fnc=0.12,
    corr_1h_cross_tracer_matter_fnc=0.08, corr_2h_auto_matter_fnc=0.04, corr_2h_auto_tracer_fnc=0.04, corr_2h_cross_tracer_matter_fnc=0.08,
)
#: halos below the smallest mass matter to the matter
LOW = dict(power_2h_cross_tracer_matter_fnc=0.2, corr_2h_auto_matter_fnc=0.3, corr_2h_cross_tracer_matter_fnc=0.4, power_2h_auto_matter_fnc=0.05)
TABLES = dict(dlnk=0.05, dlog10m=0.05, dr_table=0.05, lnk_min=-12.0, lnk_max=8.0, Mmax=16.6, Mmin=8.5)


def refine_case(r):
    return dict(
        cfg=dict(hmf=r.choice(["Tinker08", "Tinker10"]), mdef=dict(name="SOMean", overdensity=r.choice([200, 300])), z=r.choice([0.0, r.uniform(0, 2)]), cosmo={"Om0": r.uniform(0.22, 0.4)},
                 sigma_8=r.uniform(0.7, 0.9), n=r.uniform(0.92, 1), hod=dict(name=r.choice(["Zheng05", "Contreras13"]), params=dict(M_min=r.uniform(11, 13), sig_logm=r.uniform(0.2, 0.6))),
                 force_1halo_turnover=r.choice([True, False]), hc_spectrum=r.choice(["linear", "nonlinear", "filtered-lin"]),
                 prof=dict(name=r.choice(["NFW", "Hernquist", "CoredNFW", "GeneralizedNFW"])), halo_concentration_model=r.choice(["Duffy08", "Zehavi11", "Ludlow16Empirical"]),
                 sd_bias_model=r.choice([None, None, "TinkerSD05"])),
        refine=r.sample(sorted(TABLES), r.choice([1, 1, 2])), how=r.choice(["new", "update", "one by one"]), order=r.randrange(10**6))


def fn_refine(case, note):
    base = dict(case["cfg"], dlog10m=0.1, dlnk=0.1, dr_table=0.1)
    fine = {p: TABLES[p] for p in case["refine"]}
    h = quiet(M.tracer, base)
    if case["how"] == "new":
        g = quiet(M.tracer, dict(base, **fine))
    else:
        g = quiet(M.tracer, base)
        for i, n in enumerate(sorted(TOLS)):
            if (case["order"] >> (i % 20)) & 1:
                quiet(c01.get, g, n)
        if case["how"] == "update":
            quiet(g.update, **fine)
        else:
            for p, v in fine.items():
                quiet(g.update, **{p: v})
                quiet(c01.get, g, sorted(TOLS)[case["order"] % len(TOLS)])
    if not float(h.mean_tracer_den) > 1e-15:
        return note.trivial("hardly any tracers")
    x, K = np.geomspace(0.02, 80, 12), np.geomspace(3e-3, 20, 12)
    sd = case["cfg"]["sd_bias_model"]
    for n, tol in TOLS.items():
        tol *= len(fine)
        if "Mmin" in fine:
            tol = max(tol, LOW.get(n, 0))
        if sd and n.startswith("power_2h"):
            tol += 0.15
        a, b = quiet(getattr, h, n), quiet(getattr, g, n)
        if callable(a):
            t = x if "corr" in n else K
            va, vb = finite(n, quiet(a, t)), finite(n, quiet(b, t))
            off = 1 if "corr_1h" in n and n != "corr_1h_auto_tracer_fnc" else 0
            size = np.abs(va + off) + 0.3 if "corr" in n else np.maximum(np.abs(va), 1e-2 * np.max(np.abs(va)))
        elif np.ndim(a):
            m, m2 = np.asarray(h.m), np.asarray(g.m)
            ensure(np.shape(b) == m2.shape, f"{n} has shape {np.shape(b)} for {m2.shape} masses")
            # masses common to both
            i = np.argmin(np.abs(np.log(m)[:, None] - np.log(m2)[None, :]), axis=1)
            ok = np.abs(np.log(m2[i] / m)) < 1e-6
            ensure(np.sum(ok) > 0.9 * len(m) - 3, f"masses {m[~ok][:3]} are lost when {fine}")
            va, vb = finite(n, a)[ok], finite(n, b)[i[ok]]
            big = np.abs(va) > 1e-8 * np.max(np.abs(va))
            va, vb = va[big], vb[big]
            size = np.abs(va)
        else:
            va, vb = finite(n, a).reshape(1), finite(n, b).reshape(1)
            size = np.abs(va) + 1e-12
        d = np.abs(va - vb) / size
        if np.max(d) > tol:
            j = int(np.argmax(d))
            raise Violation(f"{n} changes from {va[j]!r} to {vb[j]!r} ({d[j]:.3g} > {tol:.3g}) when {fine} ({case['how']})")
    for p in fine:
        note(p)


# --------------------------------------------------------------------------- projected, angular
def interp_error(f, r):
    """Relative accuracy with which a cubic spline through the table reproduces the correlation."""
    from scipy.interpolate import InterpolatedUnivariateSpline as S

    x = np.geomspace(r[0], r[-1], 8 * len(r))
    v = np.asarray(quiet(f, x))
    return float(np.max(np.abs(S(r, quiet(f, r))(x) - v) / np.maximum(np.abs(v), 1e-3 * np.max(np.abs(v)) * (x / x[0]) ** -3)))


def fn_projected(case, note):
    from halomod.integrate_corr import ProjectedCF

    kw = M.kwargs(case["cfg"])
    for k in ("rnum", "rmin", "rmax"):
        kw.pop(k, None)
    lim = 80.0
    lo, hi = 10 ** case["lo"], 10 ** (case["lo"] + case["span"])
    n, q = case["num"], case["q"]
    mk = lambda **o: quiet(ProjectedCF, proj_limit=lim, **{**kw, "rnum": 150, **o})
    a = mk(rp_min=lo, rp_max=hi, rp_num=n, rp_log=case["log"])
    if not float(a.mean_tracer_den) > 1e-15:
        return note.trivial("hardly any tracers")
    if case["how"] == "finer":
        b = mk(rp_min=lo, rp_max=hi, rp_num=(n - 1) * q + 1, rp_log=case["log"])
        at = np.arange(n), np.arange(n) * q
    elif case["how"] == "list":
        at = np.arange(0, n, q), np.arange(len(range(0, n, q)))
        b = mk(rp_min=[float(v) for v in np.asarray(a.rp)[::q]])
    elif case["how"] == "wider":
        at = np.arange(n), np.arange(n) + 1
        b = mk(rp_min=np.concatenate([[lo / 1.7], np.asarray(a.rp), [min(hi * 1.3, 0.6 * lim)]]))
    elif case["how"] == "update":
        b = mk(rp_min=0.1, rp_max=10.0, rp_num=6)
        quiet(lambda: b.projected_corr_gal)
        quiet(b.update, rp_min=lo, rp_max=hi, rp_num=(n - 1) * q + 1, rp_log=case["log"])
        at = np.arange(n), np.arange(n) * q
    else:
        b = mk(rp_min=lo, rp_max=hi, rp_num=n, rp_log=case["log"], rnum=150 * (1 + q))
        at = np.arange(n), np.arange(n)
    ra, rb = np.asarray(a.rp), np.asarray(b.rp)
    close("common projected separations", rb[at[1]], ra[at[0]], rtol=1e-9)
    wa, wb = finite("w_p", quiet(lambda: a.projected_corr_gal)), finite("w_p", quiet(lambda: b.projected_corr_gal))
    ensure(wa.shape == ra.shape and wb.shape == rb.shape, f"shapes {wa.shape}, {wb.shape} on {ra.shape}, {rb.shape}")
    f = a.corr_auto_tracer_fnc
    e = max(interp_error(f, a.r), interp_error(b.corr_auto_tracer_fnc, b.r))
    if e > 0.05:
        return note.trivial("correlation poorly resolved by the separations")
    close("w_p at common separations", wb[at[1]], wa[at[0]], rtol=8e-3 + 2 * e, atol=1e-3 * np.max(np.abs(wa)))
    # the 3D correlation has nothing to do with these grids
    x = np.geomspace(0.05, 60, 9)
    close("3D correlation", quiet(b.corr_auto_tracer_fnc, x), quiet(f, x), rtol=1e-9)
    note(case["how"])


def fn_angular(case, note):
    from halomod.integrate_corr import AngularCF

    z = 0.3
    kw = M.kwargs(dict(case["cfg"], z=z))
    for k in ("rnum", "rmin", "rmax"):
        kw.pop(k, None)
    lo, hi = 10 ** case["lo"], 10 ** (case["lo"] + case["span"])
    n, q = case["num"], case["q"]
    base = dict(zmin=0.2, zmax=0.4, znum=40, unum=100, rnum=150)
    mk = lambda **o: quiet(AngularCF, **{**kw, **base, **o})
    a = mk(theta_min=lo, theta_max=hi, theta_num=n, theta_log=case["log"])
    what = case["what"]
    if what == "gal" and not float(a.mean_tracer_den) > 1e-15:
        return note.trivial("hardly any tracers")
    fine = dict(theta_min=lo, theta_max=hi, theta_num=(n - 1) * q + 1, theta_log=case["log"])
    ia, ib = np.arange(n), np.arange(n) * q
    if case["how"] == "finer":
        b = mk(**fine)
    elif case["how"] == "wider":
        b = mk(theta_min=lo / 2, theta_max=hi, theta_num=2, theta_log=case["log"])
        ia, ib = np.array([n - 1]), np.array([1])
    elif case["how"] == "update":
        b = mk(theta_min=1e-4, theta_max=1e-2, theta_num=4)
        quiet(lambda: getattr(b, "angular_corr_" + what))
        quiet(b.update, **fine)
    elif case["how"] == "coarse":
        # the 3D correlation is a function of separation: however few separations are asked for
        b = mk(**fine, rnum=case["rnum"])
    else:
        res = {"znum": 120, "unum": 250, "rnum": 400}
        res = res if case["how"] == "all" else {case["how"]: res[case["how"]]}
        b = mk(theta_min=lo, theta_max=hi, theta_num=n, theta_log=case["log"], **res)
        ib = np.arange(n)
    close("common angles", np.asarray(b.theta)[ib], np.asarray(a.theta)[ia], rtol=1e-9)
    wa, wb = (finite("w", quiet(lambda: getattr(h, "angular_corr_" + what))) for h in (a, b))  # noqa: B023
    ensure(wa.shape == np.shape(a.theta) and wb.shape == np.shape(b.theta), f"shapes {wa.shape}, {wb.shape}")
    close(f"angular correlation ({what}) at common angles", wb[ib], wa[ia], rtol=1e-2, atol=5e-3 * np.max(np.abs(wa)))
    note(case["how"])


CFG = lambda **o: M.tracer_cfg(hods(), prof=M.prof_st(["NFW", "NFW", "Hernquist", "CoredNFW"]), tprof=st.one_of(st.none(), M.prof_st(["NFW", "Hernquist"])), **o)
CLAUSES = [
    Clause("grids", lambda: fx(cfg=CFG(), kind=st.sampled_from(KINDS), r=rgrid_st(), r2=rgrid_st(), k=kgrid_st(), k2=kgrid_st(), update=st.booleans(), seed=st.integers(0, 99),
                               exclusion=st.sampled_from([None, None, None, "Sphere", "DblSphere_", "NgMatched_"]), sd=st.sampled_from([False, False, True]),
                               mx=fl(0.3, 5), second=st.sampled_from([{}, dict(rmin=0.5, rmax=7.0, rnum=4), dict(hm_dlog10k=0.31, hm_logk_min=-1.0, hm_logk_max=1.0), dict(rmin=[1.0, 3.0])])),
           fn_grids, quick=48, thorough=1200, shards=8, rule="a model with tracers or matter whose tabulated quantities exist", what="all quantities of a model on three output grids"),
    Clause("klimits", lambda: fx(lo=fl(-4, 1), span=fl(0.05, 5), d=fl(0.01, 0.6), shift=fl(-1, 1), update=st.booleans()), fn_klimits, quick=60, thorough=1500),
    Clause("refine", lambda: c01.rnd(refine_case), fn_refine, quick=48, thorough=1500, shards=8, what="refined and extended internal tables"),
    Clause("projected", lambda: fx(cfg=CFG(), lo=fl(-1.5, 0.3), span=fl(0.3, 1.2), num=st.integers(2, 8), q=st.integers(2, 4), log=st.booleans(),
                                   how=st.sampled_from(["finer", "list", "wider", "update", "rnum"])), fn_projected, quick=48, thorough=1200, shards=8, what="w_p on two grids of projected separations"),
    Clause("angular", lambda: fx(cfg=CFG(), lo=fl(-4, -2.5), span=fl(0.3, 1.2), num=st.integers(2, 7), q=st.integers(2, 4), log=st.booleans(), what=st.sampled_from(["gal", "matter"]), rnum=st.integers(2, 25),
                                 how=st.sampled_from(["coarse", "coarse", "finer", "wider", "update", "znum", "unum", "rnum", "all"])), fn_angular, quick=48, thorough=1200, shards=8, what="angular correlations on two grids of angles"),
]
