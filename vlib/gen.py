"""Generators shared between checks. All cases are JSON-serialisable."""

from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from vlib.util import fl, fx

# ------------------------------------------------------------------------------- cosmologies
cosmo_st = st.one_of(
    st.just(dict(name="Planck15")),
    fx(name=st.just("flat"), H0=fl(55, 85), Om0=fl(0.15, 0.5), Ob0=fl(0.03, 0.07)),
    fx(name=st.sampled_from(["Planck13", "WMAP5", "WMAP7"])),
)


_COSMO = {}


def cosmology(spec):
    """An astropy cosmology (these are immutable, so they are shared between cases)."""
    key = tuple(sorted(spec.items()))
    if key not in _COSMO:
        if len(_COSMO) > 2000:
            _COSMO.clear()
        _COSMO[key] = _cosmology(spec)
    return _COSMO[key]


def _cosmology(spec):
    import astropy.cosmology as ac

    if spec["name"] == "flat":
        return ac.FlatLambdaCDM(H0=spec["H0"], Om0=spec["Om0"], Ob0=spec["Ob0"], Tcmb0=2.725)
    return getattr(ac, spec["name"])


mdef_st = st.one_of(
    fx(name=st.just("SOMean"), overdensity=st.sampled_from([178, 200, 300, 500, 800])),
    fx(name=st.just("SOCritical"), overdensity=st.sampled_from([100, 200, 500])),
    fx(name=st.just("SOVirial")),
)


def mdef(spec):
    from hmf.halos import mass_definitions as md

    kw = {k: v for k, v in spec.items() if k != "name"}
    return getattr(md, spec["name"])(**kw)


def mdef_density(spec, cosmo, z):
    """(overdensity w.r.t. mean at z, mean comoving density in Msun h^2/Mpc^3)"""
    rhoc0 = 277536627245.8307  # critical density [h^2 Msun / Mpc^3] (astropy constants)
    Omz = cosmo.Om(z)
    if spec["name"] == "SOMean":
        d = spec["overdensity"]
    elif spec["name"] == "SOCritical":
        d = spec["overdensity"] / Omz
    else:
        x = Omz - 1
        d = (18 * np.pi**2 + 82 * x - 39 * x**2) / Omz
    return d, rhoc0 * cosmo.Om0


# ----------------------------------------------------------------------------------- profiles
TRUNC = ["NFW", "Hernquist", "Moore", "Constant", "GeneralizedNFW", "Einasto", "CoredNFW"]
INF = ["NFWInf", "HernquistInf", "MooreInf", "GeneralizedNFWInf", "PowerLawWithExpCut"]


def profile_spec(names, eta=True):
    def build(n):
        d = dict(name=st.just(n))
        if n.startswith("GeneralizedNFW"):
            d["alpha"] = st.one_of(fl(0.3, 1.5), st.sampled_from([0.5, 1, 1.5]))
        if n == "Einasto":
            d["alpha"] = st.one_of(fl(0.12, 0.5), st.just(0.18))
            d["use_interp"] = st.just(False)
        if n == "PowerLawWithExpCut":
            d["a"] = fl(0.02, 1.0)
            d["b"] = st.one_of(fl(2.05, 2.7), fl(1.05, 1.95), st.just(2.0))
        if eta:
            d["eta_bloat"] = st.one_of(st.just(0.0), fl(-0.5, 0.5))
        return fx(**d)

    return st.one_of([build(n) for n in names])


class PowCM:
    """A minimal concentration-mass relation."""

    def __init__(self, c0, b):
        self.c0, self.b = c0, b

    def cm(self, m, z=0):
        return self.c0 * (np.asarray(m) / 1e12) ** self.b / (1 + z)


def nu_fn(m):
    return (np.asarray(m) / 1e13) ** 0.3


def make_profile(spec, cosmo, mdef_, z, cm=None):
    from halomod import profiles

    kw = {k: v for k, v in spec.items() if k != "name"}
    return getattr(profiles, spec["name"])(
        cm if cm is not None else PowCM(8.0, -0.1), mdef=mdef_, z=z, cosmo=cosmo, nu_fn=nu_fn, **kw
    )


def bloat(spec, m):
    return np.sqrt(nu_fn(m)) ** spec.get("eta_bloat", 0.0)


def uniq(strategy, lo, hi):
    return st.lists(strategy, min_size=lo, max_size=hi, unique=True)
