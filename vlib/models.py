"""Cheap halo-model configurations and independent mass-function integrals."""

from __future__ import annotations

from functools import lru_cache

import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import InterpolatedUnivariateSpline

from vlib import formulas as F
from vlib import gen as G
from vlib.util import fl, fx

BASE = dict(transfer_model="EH", dlnk=0.1, lnk_min=-10.0, lnk_max=7.0, dlog10m=0.1, Mmin=9.0, Mmax=16.0,
            dr_table=0.1, rnum=15, hm_dlog10k=0.1)

HMF = ["Tinker08", "Tinker10", "SMT", "PS", "Jenkins", "Watson"]


def cosmo_params_st():
    return st.one_of(st.just({}), st.fixed_dictionaries({}, optional=dict(Om0=fl(0.2, 0.45), H0=fl(60, 80), Ob0=fl(0.04, 0.06))))


def hmf_mdef_st():
    """Mass functions with a mass definition they accept (no conversion is done by default)."""
    so = st.one_of(
        st.just(dict(name="SOMean", overdensity=200)),
        fx(name=st.just("SOMean"), overdensity=st.sampled_from([200, 300, 500])),
        fx(name=st.just("SOCritical"), overdensity=st.sampled_from([200, 300])),
        st.just(dict(name="SOVirial")),
    )
    return st.one_of(
        fx(hmf=st.sampled_from(["Tinker08", "Tinker10", "Tinker08", "Watson"]), mdef=so),
        fx(hmf=st.sampled_from(["SMT", "ST", "Behroozi"]), mdef=st.just(dict(name="SOVirial"))),
        fx(hmf=st.just("PS"), mdef=st.none()),
    )


def merged(*strategies):
    return st.tuples(*strategies).map(lambda t: {k: v for d in t for k, v in d.items()})


def dm_cfg(**over):
    d = dict(
        z=st.one_of(st.just(0.0), fl(0, 3)), cosmo=cosmo_params_st(), sigma_8=st.one_of(st.just(0.8), fl(0.65, 0.95)),
        n=st.one_of(st.just(0.96), fl(0.9, 1.02)),
    )
    d.update(over)
    return merged(hmf_mdef_st(), fx(**d))


def overdensity(cfg, cosmo):
    """(overdensity with respect to the mean, mean comoving density) of the halos of a model."""
    return G.mdef_density(cfg["mdef"] or dict(name="SOMean", overdensity=200), cosmo, cfg["z"])


def kwargs(cfg):
    """Keyword arguments of a halo model from a JSON-able configuration."""
    c = dict(cfg)
    kw = dict(BASE)
    if "cosmo" in c:
        kw["cosmo_params"] = dict(c.pop("cosmo"))
    if "mdef" in c:
        md = dict(c.pop("mdef") or {})
        if md:
            kw["mdef_model"] = md.pop("name")
            kw["mdef_params"] = md
    if "prof" in c:
        p = dict(c.pop("prof"))
        kw["halo_profile_model"], kw["halo_profile_params"] = p.pop("name"), p
    if "tprof" in c:
        p = c.pop("tprof")
        if p:
            p = dict(p)
            kw["tracer_profile_model"], kw["tracer_profile_params"] = p.pop("name"), p
    if "hmf" in c:
        kw["hmf_model"] = c.pop("hmf")
    if "hod" in c:
        h = c.pop("hod")
        kw["hod_model"], kw["hod_params"] = h["name"], dict(h["params"])
        if h.get("central"):
            kw["hod_params"]["central"] = True
    kw.update(c)
    return kw


def dm(cfg, **over):
    from halomod import DMHaloModel

    return DMHaloModel(**{**kwargs(cfg), **over})


def tracer(cfg, cls=None, **over):
    from halomod import TracerHaloModel

    return (cls or TracerHaloModel)(**{**kwargs(cfg), **over})


# ------------------------------------------------------------------- independent mass integrals
PLANCK15 = dict(name="Planck15")


def radius_fn(profile, cfg, cosmo, note=None):
    """Halo radius as a function of mass, in the model's cosmology.

    Known finding C12/planck15-radius: halo models evaluate it with Planck15 whatever their cosmology is.
    """
    from vlib.core import Violation

    got = float(profile.halo_mass_to_radius(1e12))
    for k, co in enumerate([cosmo, G.cosmology(PLANCK15)]):
        delta, rho0 = overdensity(cfg, co)
        want = (3 * 1e12 / (4 * np.pi * delta * rho0)) ** (1 / 3)
        if abs(got / want - 1) < 2e-5:
            if k == 1 and note is not None:
                note.known_finding("planck15-radius")
            return lambda m: (3 * m / (4 * np.pi * delta * rho0)) ** (1 / 3)
    raise Violation(f"radius of a 1e12 halo is {got!r}, expected {want!r} or that of the model's cosmology")


@lru_cache(maxsize=64)
def _inf_table(name, par):
    f = F.shape(name, dict(par))
    K = np.geomspace(1e-6, 3e3, 500)
    v = np.array([F.ft_inf(f, x) for x in K])
    return InterpolatedUnivariateSpline(np.log(K), np.log(v))


def u_table(spec, K, c):
    """Normalised transform at K = k r_s (array) and concentration c (array of the same shape)."""
    f = F.shape(spec["name"], spec)
    h = F.enclosed(f, c, 200)
    if spec["name"].endswith("Inf"):
        return np.exp(_inf_table(spec["name"], tuple(sorted((k, v) for k, v in spec.items() if k in ("alpha",))))(np.log(K))) / h
    n = 160
    t, w = F.gl(n)
    x = c[..., None] * t**4
    g = f(x) * x**2 * np.sinc(K[..., None] * x / np.pi)
    return np.sum(g * w * 4 * t**3, axis=-1) * c / h


class Ref:
    """Mass integrals of one halo model, evaluated on a fine grid of halo masses.

    Taken from the model: masses, mass function, halo bias, peak heights, concentrations and the linear
    (or halo-centre) power. Occupations, profiles, transforms and integrals are independent.
    """

    def __init__(self, h, cfg, hod=None, note=None):
        self.h, self.cfg = h, cfg
        self.m = np.asarray(h.m)
        self.lm = np.log(self.m)
        self.dl = self.lm[1] - self.lm[0]
        good = h.dndm > 0
        sp = lambda y: InterpolatedUnivariateSpline(self.lm[good], np.log(np.asarray(y)[good]))
        self._n, self._nu = sp(h.dndm), sp(h.nu)
        self._b = InterpolatedUnivariateSpline(self.lm, h.halo_bias)
        self.occ = F.Occupation(hod["name"], hod["params"], hod.get("central", False)) if hod else None
        self.prof = dict(cfg.get("prof") or dict(name="NFW"))
        self.delta, self.rho0 = overdensity(cfg, h.cosmo)
        self.radius = radius_fn(h.halo_profile, cfg, h.cosmo, note)
        # Moore profiles convert the concentrations of the relation
        own = lambda c, p: (np.asarray(c) / 1.7) ** 0.9 if p["name"].startswith("Moore") else c
        self._c = sp(own(h.cmz_relation, self.prof))
        if hod:
            self.tprof = dict(cfg.get("tprof") or self.prof)
            self._ct = sp(own(h.tracer_cmz_relation, self.tprof))
            self.tradius = radius_fn(h.tracer_profile, cfg, h.cosmo, note)
        self._cache = {}

    n = lambda self, M: np.exp(self._n(np.log(M)))
    b = lambda self, M: self._b(np.log(M))

    @property
    def mmin(self):
        """Lower limit of the integrals over the tracer."""
        mm = self.occ.mmin
        return self.m[0] if mm is None else max(10.0**mm, self.m[0])

    def steps(self):
        """Masses at which the occupation is discontinuous."""
        o = self.occ
        if o is None:
            return []
        out = []
        if o.name in F.SHARP or o.name == "Constant":
            out.append(10 ** o.p["M_min"])
        if "M_max" in o.p and o.name != "Spinelli19":
            out.append(10 ** o.p["M_max"])
        if o.name == "Spinelli19":
            out += [1e11, 10 ** o.p["M_min_counts"], 10 ** o.p["M_max_counts"]]
        if o.name == "Zheng05":
            out.append(10 ** o.p["M_0"])
        return [s for s in out if self.m[0] < s < self.m[-1]]

    def nodes(self, lo):
        lo = max(float(lo), self.m[0])
        key = round(np.log(lo), 12)
        if key not in self._cache:
            a, z = np.log(lo), self.lm[-1]
            if a >= z:
                self._cache[key] = (np.array([self.m[-1]]), np.array([0.0]))
            else:
                pts = np.unique(np.concatenate([[a, z], np.arange(a, z, 0.3), [np.log(s) for s in self.steps() if s > lo]]))
                pts = pts[np.concatenate([[True], np.diff(pts) > 1e-12])]
                t, w = F.gl(5)
                L = (pts[:-1, None] + np.diff(pts)[:, None] * t).ravel()
                W = (np.diff(pts)[:, None] * w).ravel()
                self._cache[key] = (np.exp(L), W * np.exp(L))
        return self._cache[key]

    def u(self, k, M, tracer=False):
        spec = self.tprof if tracer else self.prof
        r = (self.tradius if tracer else self.radius)(M)
        c = np.exp((self._ct if tracer else self._c)(np.log(M)))
        rs = r * np.exp(self._nu(np.log(M))) ** (0.5 * spec.get("eta_bloat", 0.0)) / c
        return u_table(spec, k * rs, c)

    def integral(self, fn, lo=None):
        """(integral of fn(M) dM above ``lo``, error allowed for discontinuities on the model's grid)."""
        lo = self.m[0] if lo is None else lo
        M, W = self.nodes(lo)
        val = float(np.sum(fn(M) * W))
        err = 0.0
        if self.occ is None:
            return val, err
        for s in self.steps():
            if abs(s / lo - 1) < 1e-8:
                # a cut of the integral: the centrals are exact, the step in the satellites is not
                x = np.array([s * (1 + 1e-7)])
                self._nosat = True
                a = fn(x)[0]
                self._nosat = False
                err += 1.2 * abs(fn(x)[0] - a) * s * self.dl
            elif s > lo:
                a, b = fn(np.array([s * (1 - 1e-7), s * (1 + 1e-7)]))
                err += 1.2 * abs(b - a) * s * self.dl
            if s > lo * (1 - 1e-8) and self.occ.name in ("Tinker05", "Zheng05"):
                # satellites rising steeply (but continuously) from zero
                x = np.array([s * np.exp(self.dl)])
                self._nosat = True
                a = fn(x)[0]
                self._nosat = False
                err += (1.2 if self.occ.name == "Tinker05" else 0.4) * abs(fn(x)[0] - a) * s * self.dl
        if self.occ.name in ("Zheng05", "Contreras13", "Geach12", "Leauthaud11"):
            # transitions (nearly) narrower than the grid
            p = self.occ.p
            w = p.get("sig_logm", p.get("sig_logmstar")) * p.get("x", 1.0)
            s = 10 ** p["M_min"] if "M_min" in p else 10 ** F.behroozi_log_mh(p, p["sm_thresh"])
            if s * 10 ** (3 * w) > lo and s < self.m[-1]:
                y = fn(s * 10 ** np.linspace(-3 * w, 3 * w, 13))
                err += 1.2 * (np.max(y) - np.min(y)) * s * self.dl * min(1.0, (0.3 * self.dl / w) ** 2)
        return val, err

    # -- occupations (without satellites while the error at a cut is being estimated)
    _nosat = False

    def cen(self, M):
        return self.occ.cen(M)

    def sat(self, M):
        return 0.0 * M if self._nosat else self.occ.sat(M)

    def tot(self, M):
        return self.cen(M) + self.sat(M)

    def ss(self, M):
        return 0.0 * M if self._nosat else self.occ.ss(M)

    def cs(self, M):
        return 0.0 * M if self._nosat else self.occ.cs(M)

    # -- tracers
    def density(self):
        if "den" not in self._cache:
            self._cache["den"] = self.integral(lambda M: self.n(M) * self.tot(M), self.mmin)
        return self._cache["den"]

    def ratio(self, a, b):
        """a/b with errors."""
        v = a[0] / b[0]
        return v, a[1] / abs(b[0]) + abs(v) * b[1] / abs(b[0])

    def lowest(self, k, mmin):
        """Lower limit of the one-halo integral at wavenumber k (the documented turnover)."""
        if not self.cfg.get("force_1halo_turnover", True):
            return mmin
        r = np.pi / k / 10
        return max(mmin, 4 * np.pi / 3 * self.rho0 * self.delta * r**3)


# --------------------------------------------------------------------- strategies for power checks
PROFS = ["NFW", "NFW", "NFW", "Hernquist", "CoredNFW", "GeneralizedNFW", "Moore", "NFWInf", "HernquistInf"]


def prof_st(names=PROFS):
    return G.profile_spec(names)


def cm_st():
    return st.sampled_from(["Duffy08", "Zehavi11", "Maccio07", "Ludlow16Empirical"])


def power_cfg(**over):
    d = dict(prof=prof_st(), halo_concentration_model=cm_st(), force_1halo_turnover=st.booleans(),
             hc_spectrum=st.sampled_from(["linear", "linear", "nonlinear"]),
             Mmin=st.sampled_from([9.0, 9.0, 10.0, 8.3]), Mmax=st.sampled_from([16.0, 16.0, 15.5, 17]))
    d.update(over)
    return merged(dm_cfg(), fx(**d))


def spectrum(h):
    """The halo-centre spectrum on the model's wavenumbers, for the unfiltered choices."""
    return h.power if h.hc_spectrum == "linear" else h.nonlinear_power


def pick_k(h, idx, lo=1e-3, hi=30.0):
    ok = np.where((h.k > lo) & (h.k < hi))[0]
    return ok[np.unique(np.asarray(idx) % len(ok))]


def prof_tol(spec):
    return 4e-3 if spec["name"] in ("Moore", "GeneralizedNFW") else 2e-3


def tracer_cfg(hods, **over):
    """Configurations of tracer models; ``central`` applies the central condition."""
    d = dict(tprof=st.one_of(st.none(), st.none(), prof_st()),
             tracer_concentration_model=st.one_of(st.none(), cm_st()), dlog10m=st.just(0.05),
             hod=st.tuples(hods, st.booleans()).map(lambda t: dict(t[0], central=bool(t[1] and t[0]["name"] != "Spinelli19"))))
    d.update(over)
    return merged(power_cfg(), fx(**d))


def tracer_ref(cfg, note, **over):
    """(model, reference) or None when there are hardly any tracers."""
    c = dict(cfg)
    hod = c["hod"]
    # with another profile and no parameters given, class defaults apply, unless it is the profile of the halos
    h = tracer(c, **over)
    ref_cfg = dict(cfg)
    r = Ref(h, ref_cfg, hod)
    den = r.density()
    if den[0] < 1e-15 or den[1] > 0.1 * den[0]:
        note.trivial("hardly any tracers")
        return None
    return h, r


def xi_ref(P, r):
    """Correlation function of a power spectrum by direct integration (damped far beyond 1/r)."""
    from scipy.integrate import simpson

    out = []
    for x in np.atleast_1d(r):
        kd = 100 / x
        k = np.concatenate([np.geomspace(1e-7, 0.1 / x, 600, endpoint=False), np.arange(0.1 / x, 4.5 * kd, 0.03 * np.pi / x)])
        out.append(simpson(P(k) * k**2 * np.sinc(k * x / np.pi) * np.exp(-((k / kd) ** 2)), x=k) / (2 * np.pi**2))
    return np.array(out)


def pivot_spline(k, p, n):
    """The power spectrum p(k) at any wavenumber: interpolated, k^n below and a power law above the table."""
    sp = InterpolatedUnivariateSpline(np.log(k), np.log(p))
    hi = np.log(p[-1] / p[-2]) / np.log(k[-1] / k[-2])

    def f(x):
        x = np.asarray(x, dtype=float)
        y = np.exp(sp(np.log(np.clip(x, k[0], k[-1]))))
        y = np.where(x < k[0], p[0] * (x / k[0]) ** n, y)
        return np.where(x > k[-1], p[-1] * (x / k[-1]) ** hi, y)

    return f


def xi_and_error(P, r, h=0.005, dr=0.12):
    """(correlation of the power at r, scale of the correlation around r, error of the package's own quick transform there).

    The transform itself is checked against analytic pairs in C17; for power that falls slowly over many
    decades of wavenumber (one-halo terms) it has errors of a few per cent, which are allowed here.
    """
    from halomod import tools

    r = np.atleast_1d(np.asarray(r, dtype=float))
    want = xi_ref(P, r)
    near = np.concatenate([r * f for f in (0.75, 1 - dr, 1 + dr, 1.3)])
    x = np.concatenate([xi_ref(P, near), want])
    t = np.asarray(tools.hankel_transform(P, np.concatenate([near, r]), "r", h=h))
    n = len(r)
    e, s = np.abs(t - x), np.abs(x)
    big = lambda a: np.max(np.reshape(a, (-1, n)), axis=0)
    return want, big(s), big(e)


def check_tables(h, r, idx, mass, tracer):
    """Real-space tables of a model's profiles (density and self-convolution) against the published shapes."""
    from vlib.util import close, ensure

    which = "tracer" if tracer else "halo"
    spec = r.tprof if tracer else r.prof
    name = spec["name"]
    inf = name.endswith("Inf") or name == "PowerLawWithExpCut"
    rt = 10 ** np.arange(h._logr_table_min, h._logr_table_max, h.dr_table)
    js = np.unique(np.array(mass) % len(h.m))
    M = np.asarray(h.m)[js]
    rv = (r.tradius if tracer else r.radius)(M)
    c = np.exp((r._ct if tracer else r._c)(np.log(M)))
    rs = rv * np.exp(r._nu(np.log(M))) ** (0.5 * spec.get("eta_bloat", 0.0)) / c
    f = F.shape(name, spec)
    hh = F.total_mass(f) * np.ones_like(c) if name == "PowerLawWithExpCut" else F.enclosed(f, c)
    i = np.unique(np.array(idx) % len(rt))
    X = rt[i][:, None] / rs
    rho = np.asarray(getattr(h, f"{which}_profile_rho"))
    ensure(rho.shape == (len(rt), len(h.m)), f"density table has shape {rho.shape}")
    want = np.where((X <= c) | inf, f(X) / (4 * np.pi * rs**3 * hh), 0.0)
    got = np.where((np.abs(X / c - 1) < 1e-6) & (not inf), want, rho[np.ix_(i, js)])
    close(f"densities of the {which} profiles", got, want, rtol=1e-2 if name.startswith("GeneralizedNFW") else 1e-4)
    lam = getattr(h, f"{which}_profile_lam")
    if lam is None:
        ensure(name not in ("NFW", "NFWInf", "HernquistInf"), "self-convolutions are missing")
        return
    lam = np.asarray(lam)
    ensure(lam.shape == rho.shape, f"table of self-convolutions has shape {lam.shape}")
    base = name.replace("Inf", "")
    if base not in ("NFW", "Hernquist"):
        return
    untr = name.endswith("Inf")
    xmin = 0.3 if base == "Hernquist" else 0.03
    for a in range(len(i)):
        for b in range(len(js)):
            x = X[a, b]
            if x < xmin or (untr and x > 300):
                continue
            w = F.selfconv(base, x, None if untr else c[b]) if untr or x < 2 * c[b] else 0.0
            sc = F.selfconv(base, 0.5 * c[b], None if untr else c[b])
            n = rs[b] ** 3 / (4 * np.pi * rs[b] ** 3 * hh[b]) ** 2
            close(f"self-convolution of the {which} profiles", lam[i[a], js[b]], w * n, rtol=1e-3, atol=1e-5 * sc * n)
