"""Published formulae, written independently of the code under test (NumPy/SciPy only)."""

from __future__ import annotations

from functools import lru_cache

import numpy as np
from scipy import integrate, special


# ------------------------------------------------------------------------------- quadrature
@lru_cache(maxsize=None)
def gl(n):
    t, w = np.polynomial.legendre.leggauss(n)
    return 0.5 * (t + 1), 0.5 * w


def radial_nodes(c, n=400, p=4):
    """Nodes/weights for int_0^c dx g(x), with nodes crowding towards zero."""
    t, w = gl(n)
    return c * t**p, w * c * p * t ** (p - 1)


# --------------------------------------------------------------------------------- profiles
def shape(name, par):
    """Dimensionless density f(x) of a profile (the class name, "Inf" ignored)."""
    base = name[:-3] if name.endswith("Inf") else name
    if base == "NFW":
        return lambda x: 1 / (x * (1 + x) ** 2)
    if base == "Hernquist":
        return lambda x: 1 / (x * (1 + x) ** 3)
    if base == "Moore":
        return lambda x: 1 / (x**1.5 * (1 + x**1.5))
    if base == "Constant":
        return lambda x: np.ones_like(np.asarray(x, dtype=float))
    if base == "GeneralizedNFW":
        a = par.get("alpha", 1)
        return lambda x: x**-a * (1 + x) ** (a - 3)
    if base == "Einasto":
        a = par.get("alpha", 0.18)
        return lambda x: np.exp(-2 / a * (x**a - 1))
    if base == "CoredNFW":
        return lambda x: 1 / ((x + 0.75) * (1 + x) ** 2)
    if base == "PowerLawWithExpCut":
        a, b = par.get("a", 0.049), par.get("b", 2.248)
        return lambda x: x**-b * np.exp(-a * x)
    raise KeyError(name)


def enclosed(f, x, n=400):
    """int_0^x f(t) t^2 dt for scalar or array x."""
    x = np.asarray(x, dtype=float)
    t, w = gl(n)
    tt = t**4
    y = np.multiply.outer(x, tt)
    val = f(np.where(y > 0, y, 1.0)) * y**2
    return np.sum(val * w * 4 * t**3, axis=-1) * x


def total_mass(f, n=4000):
    """int_0^inf f x^2 dx for a convergent profile."""
    a = enclosed(f, 1.0)
    b = integrate.quad(lambda l: f(np.exp(l)) * np.exp(3 * l), 0, 40, limit=400)[0]
    return float(a) + b


def ft_trunc(f, K, c, n=1500):
    """int_0^c f(x) x^2 sinc(Kx) dx for scalar K, c."""
    x, w = radial_nodes(c, n)
    return float(np.sum(w * f(x) * x**2 * np.sinc(K * x / np.pi)))


def ft_inf(f, K):
    """int_0^inf f(x) x^2 sinc(Kx) dx for scalar K (Fourier integral on the tail)."""
    c0 = 1.0 / K
    head = ft_trunc(f, K, c0, 400)
    tail = integrate.quad(lambda x: x * f(x) / K, c0, np.inf, weight="sin", wvar=K, limlst=400, limit=2000)[0]
    return head + tail


def selfconv(name, x, c=None):
    """int d^3y f(y) f(|x-y|), dimensionless, for NFW/Hernquist shapes; c=None is untruncated."""
    base = name[:-3] if name.endswith("Inf") else name
    f = shape(base, {})
    G = {"NFW": lambda t: t / (1 + t), "Hernquist": lambda t: 0.5 * (1 - (1 + t) ** -2.0)}[base]
    cc = np.inf if c is None else c

    def inner(s):
        return G(np.minimum(x + s, cc)) - G(np.minimum(np.abs(x - s), cc))

    # break points: the singularities at s = 0 and s = x, the kinks at |s - x| = c
    top = cc if c is not None else None
    pts = sorted({0.0, x, *([] if c is None else [abs(cc - x), x + cc, cc])})
    pts = [p for p in pts if top is None or p <= top]
    if top is not None and pts[-1] < top:
        pts.append(top)
    tot = 0.0
    t, w = gl(200)
    for a, b in zip(pts[:-1], pts[1:]):
        # smooth substitution at both ends
        u = t**3 * (10 - 15 * t + 6 * t**2)
        du = 30 * t**2 * (1 - t) ** 2
        s = a + (b - a) * u
        s = np.maximum(s, 1e-300)
        tot += (b - a) * np.sum(w * du * s * f(s) * inner(s))
    if top is None:
        a = pts[-1]
        # tail: s = a/t
        tt, ww = gl(400)
        s = a / tt**2
        tot += np.sum(ww * 2 * a / tt**3 * s * f(s) * inner(s))
    return 2 * np.pi * tot / x


# ------------------------------------------------------------------------------- occupations
HOD_DEFAULTS = {
    "Zehavi05": dict(M_min=11.6222, M_1=12.851, alpha=1.049),
    "Zheng05": dict(M_min=11.6222, M_1=12.851, alpha=1.049, M_0=11.5047, sig_logm=0.26),
    "Contreras13": dict(M_min=11.6222, M_1=12.851, alpha=1.049, M_0=11.5047, sig_logm=0.26, fca=0.5,
                        fcb=0, fs=1, delta=1, x=1),
    "Tinker05": dict(M_min=11.6222, M_1=12.851, M_cut=12.0),
    "Zehavi05WithMax": dict(M_min=11.6222, M_1=12.851, alpha=1.049, M_max=18),
    "Zehavi05Marked": dict(M_min=11.6222, M_1=12.851, logA=0.0, alpha=1.049, M_max=18.0),
    "ContinuousPowerLaw": dict(M_min=11.6222, M_1=12.851, logA=0.0, alpha=1.049, M_max=18.0, sigma_A=0),
    "Constant": dict(logA=0, M_min=11.0, sigma_A=0),
    "Spinelli19": dict(a1=0.0016, a2=0.00011, alpha=0.56, beta=0.43, M_min=9, M_break=11.86, M_1=-2.99,
                       sigma_A=0, M_max=18, M_0=8.31, M_break_sat=11.4, alpha_sat=0.84, beta_sat=1.10,
                       M_1_counts=12.851, alpha_counts=1.049, M_min_counts=11, M_max_counts=15,
                       a=0.049, b=2.248, eta=1.0),
    "Leauthaud11": dict(redshift=0.0, sm_thresh=9.0, smhm_m0_0=10.72, smhm_m0_a=0.0, smhm_m1_0=12.35,
                        smhm_m1_a=0.0, smhm_beta_0=0.43, smhm_beta_a=0.0, smhm_delta_0=0.56,
                        smhm_delta_a=0.0, smhm_gamma_0=1.54, smhm_gamma_a=0.0, sig_logmstar=0.206,
                        alphasat=1.0, betasat=0.859, bsat=10.62, betacut=-0.13, bcut=1.47),
}
HOD_DEFAULTS["Geach12"] = HOD_DEFAULTS["Contreras13"]
BULK = ("ContinuousPowerLaw", "Constant")
SHARP = ("Zehavi05", "Tinker05", "Zehavi05WithMax", "Zehavi05Marked", "ContinuousPowerLaw")


def behroozi_log_mh(p, lms):
    """Behroozi+10 inverse stellar-to-halo mass relation (h=1 units)."""
    a = 1 / (1 + p["redshift"])
    ev = lambda k: p[f"smhm_{k}_0"] + p[f"smhm_{k}_a"] * (a - 1)
    t = 10 ** (lms - ev("m0"))
    return ev("m1") + ev("beta") * np.log10(t) + t ** ev("delta") / (1 + t ** -ev("gamma")) - 0.5


class Occupation:
    """Mean tracer in centrals/satellites and pair counts of a named HOD."""

    def __init__(self, name, params=None, central=False):
        self.name = name
        self.p = {**HOD_DEFAULTS[name], **(params or {})}
        self.cond = bool(central) and name not in BULK

    # -- raw ingredients (before the central condition)
    def per_central(self, m):
        if self.name == "Zehavi05Marked":
            return 10 ** self.p["logA"] * np.ones_like(m)
        if self.name == "Spinelli19":
            return ((m >= 10 ** self.p["M_min_counts"]) & (m <= 10 ** self.p["M_max_counts"])) * 1.0
        return np.ones_like(m)

    def per_satellite(self, m):
        if self.name == "Spinelli19":
            p = self.p
            return self.per_central(m) * (m / 10 ** p["M_1_counts"]) ** p["alpha_counts"]
        return self.per_central(m)

    def cen(self, m):
        m = np.asarray(m, dtype=float)
        n, p = self.name, self.p
        if n in BULK:
            return np.zeros_like(m)
        lm = np.log10(m)
        if n in ("Zehavi05", "Tinker05"):
            return (m >= 10 ** p["M_min"]) * 1.0
        if n in ("Zehavi05WithMax", "Zehavi05Marked"):
            return ((m >= 10 ** p["M_min"]) & (m <= 10 ** p["M_max"])) * self.per_central(m)
        if n == "Zheng05":
            return 0.5 * (1 + special.erf((lm - p["M_min"]) / p["sig_logm"]))
        if n in ("Contreras13", "Geach12"):
            u = (lm - p["M_min"]) / (p["x"] * p["sig_logm"])
            return p["fcb"] * (1 - p["fca"]) * np.exp(-(u**2) / 2) + p["fca"] * (1 + special.erf(u))
        if n == "Spinelli19":
            return m * (p["a1"] * (m / 1e10) ** p["beta"] * np.exp(-((m / 10 ** p["M_break"]) ** p["alpha"]))
                        + p["a2"]) * np.exp(-((10 ** p["M_1"] / m) ** 0.5))
        if n == "Leauthaud11":
            from scipy.optimize import brentq

            def lms(l):
                return brentq(lambda s: behroozi_log_mh(p, s) - l, -5, 16, xtol=1e-12)

            ls = np.vectorize(lms, otypes=[float])(lm)
            return 0.5 * special.erfc((p["sm_thresh"] - ls) / (np.sqrt(2) * p["sig_logmstar"]))
        raise KeyError(n)

    def sat0(self, m):
        m = np.asarray(m, dtype=float)
        n, p = self.name, self.p
        if n in ("Zehavi05", "Zehavi05WithMax", "Zehavi05Marked"):
            return (m / 10 ** p["M_1"]) ** p["alpha"] * self.per_satellite(m)
        if n == "Zheng05":
            d = m - 10 ** p["M_0"]
            return np.where(d > 0, (np.where(d > 0, d, 1.0) / 10 ** p["M_1"]) ** p["alpha"], 0.0)
        if n in ("Contreras13", "Geach12"):
            x = m / 10 ** p["M_1"]
            return p["fs"] * (1 + special.erf(np.log10(x) / p["delta"])) * x ** p["alpha"]
        if n == "Tinker05":
            d = m - 10 ** p["M_min"]
            ok = d > 0
            return np.where(ok, np.exp(-(10 ** p["M_cut"]) / np.where(ok, d, 1.0)) * m / 10 ** p["M_1"], 0.0)
        if n == "ContinuousPowerLaw":
            inside = (m >= 10 ** p["M_min"]) & (m <= 10 ** p["M_max"])
            return inside * 10 ** p["logA"] * ((m / 10 ** p["M_1"]) ** p["alpha"] + 1)
        if n == "Constant":
            return (m > 10 ** p["M_min"]) * 10.0 ** p["logA"]
        if n == "Spinelli19":
            m1 = 10 ** p["M_break_sat"]
            return (m >= 1e11) * 10 ** p["M_0"] * (m / m1) ** p["beta_sat"] * np.exp(-((m1 / m) ** p["alpha_sat"]))
        if n == "Leauthaud11":
            knee = 0.72e12
            mt = 10 ** behroozi_log_mh(p, p["sm_thresh"]) / knee
            msat = knee * p["bsat"] * mt ** p["betasat"]
            mcut = knee * p["bcut"] * mt ** p["betacut"]
            return np.exp(-mcut / m) * (m / msat) ** p["alphasat"] * self.cen(m)
        raise KeyError(n)

    # -- public algebra
    def nc(self, m):
        return self.cen(m) / self.per_central(m)

    def sat(self, m):
        s = self.sat0(m)
        if self.cond and self.name != "Tinker05":
            with np.errstate(all="ignore"):
                s = s * self.nc(m)
        return s

    def tot(self, m):
        return self.cen(m) + self.sat(m)

    def ss(self, m):
        return self.sat(m) ** 2

    def cs(self, m):
        if self.name in BULK:
            return np.zeros_like(np.asarray(m, dtype=float))
        if self.cond:
            return self.sat(m) * self.per_central(m)
        return self.cen(m) * self.sat(m)

    @property
    def sharp(self):
        return self.name in SHARP

    @property
    def mmin(self):
        """log10 of the mass below which integrals over the tracer are cut (None: no cut)."""
        if self.sharp and (self.cond or self.name == "Tinker05"):
            return self.p["M_min"]
        return None


# -------------------------------------------------------------------------------------- bias
def T10_params(delta):
    from scipy.interpolate import InterpolatedUnivariateSpline

    d = np.array([200, 300, 400, 600, 800, 1200, 1600, 2400, 3200])
    tab = dict(
        alpha=[0.368, 0.363, 0.385, 0.389, 0.393, 0.365, 0.379, 0.355, 0.327],
        beta=[0.589, 0.585, 0.544, 0.543, 0.564, 0.623, 0.637, 0.673, 0.702],
        gamma=[0.864, 0.922, 0.987, 1.09, 1.2, 1.34, 1.5, 1.68, 1.81],
        phi=[-0.729, -0.789, -0.910, -1.05, -1.2, -1.26, -1.45, -1.5, -1.49],
        eta=[-0.243, -0.261, -0.261, -0.273, -0.278, -0.301, -0.301, -0.319, -0.336],
    )
    return {k: float(InterpolatedUnivariateSpline(d, v)(delta)) for k, v in tab.items()}


BIAS_DEFAULTS = {
    "UnityBias": {}, "Mo96": {}, "Jing98": dict(a=0.5, b=0.06, c=0.02), "ST99": dict(q=0.707, p=0.3),
    "SMT01": dict(a=0.707, b=0.5, c=0.6),
    "Seljak04": dict(a=0.53, b=0.39, c=0.45, d=0.13, e=40, f=5e-4, g=1.5),
    "Seljak04Cosmo": dict(a=0.53, b=0.39, c=0.45, d=0.13, e=40, f=5e-4, g=1.5, a1=0.4, a2=0.3),
    "Tinker05": dict(a=0.707, b=0.35, c=0.8), "Mandelbaum05": dict(q=0.73, p=0.15),
    "Pillepich10": dict(B0=0.647, B1=-0.32, B2=0.568), "Manera10": dict(q=0.709, p=0.248),
    "Tinker10": dict(B=0.183, b=1.5, c=2.4),
    "Tinker10PBSplit": dict(beta_exp=0.2, phi_exp=-0.08, eta_exp=0.27, gamma_exp=-0.01, max_z=3),
}


def bias(name, nu2, delta_c=1.686, m=None, mstar=None, delta_halo=200, n=1.0, sigma_8=0.8, Om0=0.3,
         h=0.7, n_eff=None, z=0.0, params=None):
    """Halo bias; ``nu2`` is the squared peak height."""
    p = {**BIAS_DEFAULTS[name], **(params or {})}
    nu2 = np.asarray(nu2, dtype=float)
    nu = np.sqrt(nu2)
    dc = delta_c
    if name == "UnityBias":
        return np.ones_like(nu2)
    if name == "Mo96":
        return 1 + (nu2 - 1) / dc
    if name == "Jing98":
        return (p["a"] / nu**4 + 1) ** (p["b"] - p["c"] * n_eff) * (1 + (nu2 - 1) / dc)
    if name in ("ST99", "Mandelbaum05", "Manera10"):
        y = p["q"] * nu2
        return 1 + (y - 1) / dc + 2 * p["p"] / dc / (1 + y ** p["p"])
    if name in ("SMT01", "Tinker05"):
        a, b, c = p["a"], p["b"], p["c"]
        y = a * nu2
        return 1 + (np.sqrt(a) * y + np.sqrt(a) * b * y ** (1 - c)
                    - y**c / (y**c + b * (1 - c) * (1 - c / 2))) / (np.sqrt(a) * dc)
    if name.startswith("Seljak04"):
        x = m / mstar
        out = p["a"] + p["b"] * x ** p["c"] + p["d"] / (p["e"] * x + 1) + p["f"] * x ** p["g"]
        if name == "Seljak04Cosmo":
            lx = np.maximum(np.log10(x), -1)
            out = out + lx * (p["a1"] * (Om0 - 0.3 + n - 1) + p["a2"] * (sigma_8 - 0.9 + h - 0.7))
        return out
    if name == "Pillepich10":
        return p["B0"] + p["B1"] * nu + p["B2"] * nu2
    if name == "Tinker10":
        y = np.log10(delta_halo)
        e = np.exp(-((4 / y) ** 4))
        A, a = 1 + 0.24 * y * e, 0.44 * y - 0.88
        C = 0.019 + 0.107 * y + 0.19 * e
        return 1 - A * nu**a / (nu**a + dc**a) + p["B"] * nu ** p["b"] + C * nu ** p["c"]
    if name == "Tinker10PBSplit":
        t = T10_params(delta_halo)
        zz = 1 + min(z, p["max_z"])
        be, ph = t["beta"] * zz ** p["beta_exp"], t["phi"] * zz ** p["phi_exp"]
        et, ga = t["eta"] * zz ** p["eta_exp"], t["gamma"] * zz ** p["gamma_exp"]
        return 1 + (ga * nu2 - (1 + 2 * et)) / dc + 2 * ph / dc / (1 + (be**2 * nu2) ** ph)
    raise KeyError(name)


# ------------------------------------------------------------------------------ concentration
DUFFY = {
    ("200c", "full"): (5.71, -0.084, 0.47), ("200c", "relaxed"): (6.71, -0.091, 0.44),
    ("vir", "full"): (7.85, -0.081, 0.71), ("vir", "relaxed"): (9.23, -0.09, 0.69),
    ("200m", "full"): (10.14, -0.081, 1.01), ("200m", "relaxed"): (11.93, -0.09, 0.99),
}


def duffy08(m, z, mdef="200m", sample="relaxed", a=None, b=None, c=None, ms=2e12, norm=1.0):
    A, B, C = DUFFY.get((mdef, sample), DUFFY[("200c", sample)])
    A, B, C = (A if a is None else a), (B if b is None else b), (C if c is None else c)
    return norm * A * (m / ms) ** B * (1 + z) ** -C


def maccio07(m, z, c_0=28.65, gamma=1.45, norm=1.0):
    return norm * c_0 * (m / 1e11) ** -0.109 * 4 / (1 + z) ** gamma


def zehavi11(m, z, a=11.0, b=-0.13, c=1.0, ms=2.26e12, norm=1.0):
    return norm * a * (m / ms) ** b / (1 + z) ** c


def ludlow16_empirical(m, z, D, delta_c=1.686, c0_0=3.395, c0_z=-0.215, beta_0=0.307, beta_z=0.54,
                       gamma1_0=0.628, gamma1_z=-0.047, gamma2_0=0.317, gamma2_z=-0.893, norm=1.0):
    zz = 1.0 + z
    c0, be = c0_0 * zz**c0_z, beta_0 * zz**beta_z
    g1, g2 = gamma1_0 * zz**gamma1_z, gamma2_0 * zz**gamma2_z
    nu0 = (4.135 - 0.564 * zz - 0.21 * zz**2 + 0.0557 * zz**3 - 0.00348 * zz**4) / D
    xi = 1e10 / m
    sig = D * 22.26 * xi**0.292 / (1 + 1.53 * xi**0.275 + 3.36 * xi**0.198)
    t = delta_c / sig / nu0
    return norm * c0 * t**-g1 * (1 + t ** (1 / be)) ** (-be * (g2 - g1))
