"""Shared callers of the stellar-population functions."""
import numpy as np

from .. import gen, ref
from ..core import C, api
from ..gen import st

AGE = "dsps.sed:calc_age_weights_from_sfh_table"
METL = "dsps.sed:calc_lgmet_weights_from_lognormal_mdf"
METT = "dsps.sed:calc_lgmet_weights_from_lgmet_table"
SSPL = "dsps.sed:calc_ssp_weights_sfh_table_lognormal_mdf"
SSPT = "dsps.sed:calc_ssp_weights_sfh_table_met_table"
SEDL = "dsps.sed:calc_rest_sed_sfh_table_lognormal_mdf"
SEDT = "dsps.sed:calc_rest_sed_sfh_table_met_table"


def arr(x):
    return np.asarray(x, dtype=float)


def age(g, **k):
    return C(api(AGE), arr(g["t"]), arr(g["sfr"]), arr(g["lgage"]), g["t_obs"], **k)


def metl(g):
    return C(api(METL), g["lgmet"], g["scatter"], arr(g["ssp_lgmet"]))


def mett(g):
    return C(api(METT), arr(g["t"]), arr(g["met_table"]), g["scatter"], arr(g["ssp_lgmet"]), arr(g["lgage"]), g["t_obs"])


def ssp(g, model, **k):
    z = g["lgmet"] if model == "mdf" else arr(g["met_table"])
    f = api(SSPL if model == "mdf" else SSPT)
    return C(f, arr(g["t"]), arr(g["sfr"]), z, g["scatter"], arr(g["ssp_lgmet"]), arr(g["lgage"]), g["t_obs"], **k)


def sed(g, model, flux, **k):
    z = g["lgmet"] if model == "mdf" else arr(g["met_table"])
    f = api(SEDL if model == "mdf" else SEDT)
    return C(f, arr(g["t"]), arr(g["sfr"]), z, g["scatter"], arr(g["ssp_lgmet"]), arr(g["lgage"]), flux, g["t_obs"], **k)


@st.composite
def full_galaxy(draw, shp, kinds=None, flux=False):
    """Galaxy with both metallicity models and optionally a flux cube specification."""
    g = draw(gen.met(draw(gen.galaxy(shp, kinds))))
    g["met_kind"], g["met_table"] = draw(gen.met_table(g["t"], g["ssp_lgmet"]))
    if flux:
        g["flux"] = draw(gen.flux_spec)
        g["n_wave"] = draw(gen.pick([1, 7]))
    return g


def cube(g):
    return gen.flux_cube(g["flux"], len(g["ssp_lgmet"]), len(g["lgage"]), g["n_wave"])


def conditioned(g, ctx, limit=1e10, sfr_min=ref.SFR_MIN):
    """(reference weights, tolerance) or None when no mass lies inside the age grid."""
    w, tol, amp = ref.age_weights_tol(g["t"], g["sfr"], g["lgage"], g["t_obs"], sfr_min)
    if not np.isfinite(amp) or amp > limit:
        ctx.label("no-mass-in-grid")
        return None
    return w, tol, amp


def met_cols(g, eps=0.0):
    return ref.met_weight_matrix(g["t"], g["met_table"], g["scatter"], g["ssp_lgmet"], g["lgage"], g["t_obs"] * (1 + eps))


def met_cols_tol(g):
    """Reference metallicity matrix and a tolerance from the problem's conditioning."""
    w = met_cols(g)
    tol = 1e-13 + 1e-15 * 20 / g["scatter"]
    for eps in (-1e-13, 1e-13):
        tol = tol + 3 * float(np.max(np.abs(met_cols(g, eps) - w)))
    return w, tol


def mstar_obs(g, sfr_min=ref.SFR_MIN):
    """(reference stellar mass at t_obs, relative tolerance)"""
    s = ref.floor_sfr(g["sfr"], sfr_min)
    m = 10 ** ref.lgm_at(g["t_obs"], g["t"], s)
    rt = 1e-12
    for eps in (-1e-13, 1e-13):
        rt += 3 * abs(10 ** ref.lgm_at(g["t_obs"] * (1 + eps), g["t"], s) / m - 1)
    return float(m), float(rt)
