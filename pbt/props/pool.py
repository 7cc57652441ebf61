"""A pool of public calculations with generated arguments.

entry(name)(seed, small) -> (path, args, batch) where batch marks the arguments that differ
from galaxy to galaxy (the others are shared by a population).
"""
import numpy as np

from .. import gen
from ..core import api

h = gen.hashed


def _galaxy(seed, small):
    n_t, n_age, n_met, n_w = (12, 6, 3, 4) if small else (31, 15, 7, 9)
    t = np.linspace(0.2, 14.0, n_t)
    sfr = 10 ** h(seed, (n_t,), -1.0, 1.0)
    lgage = np.linspace(-3.0, 1.1, n_age)
    lgmet = np.linspace(-4.0, -1.5, n_met)
    met = h(seed + 1, (n_t,), -3.5, -1.8)
    flux = 10 ** h(12345, (n_met, n_age, n_w), -3.0, 0.0)
    t_obs = float(h(seed + 2, (1,), 8.0, 13.9)[0])
    z = float(h(seed + 3, (1,), -3.5, -1.8)[0])
    s = float(h(seed + 4, (1,), 0.05, 0.5)[0])
    return t, sfr, lgage, lgmet, met, flux, t_obs, z, s


def _u(seed, k, lo, hi):
    return float(h(seed * 3 + k, (1,), lo, hi)[0])


def age(seed, small):
    t, sfr, lgage, lgmet, met, flux, to, z, s = _galaxy(seed, small)
    return "dsps:calc_age_weights_from_sfh_table", [t, sfr, lgage, to], [0, 1, 0, 1]


def metl(seed, small):
    t, sfr, lgage, lgmet, met, flux, to, z, s = _galaxy(seed, small)
    return "dsps:calc_lgmet_weights_from_lognormal_mdf", [z, s, lgmet], [1, 1, 0]


def mett(seed, small):
    t, sfr, lgage, lgmet, met, flux, to, z, s = _galaxy(seed, small)
    return "dsps:calc_lgmet_weights_from_lgmet_table", [t, met, s, lgmet, lgage, to], [0, 1, 1, 0, 0, 1]


def sspl(seed, small):
    t, sfr, lgage, lgmet, met, flux, to, z, s = _galaxy(seed, small)
    return "dsps:calc_ssp_weights_sfh_table_lognormal_mdf", [t, sfr, z, s, lgmet, lgage, to], [0, 1, 1, 1, 0, 0, 1]


def sspt(seed, small):
    t, sfr, lgage, lgmet, met, flux, to, z, s = _galaxy(seed, small)
    return "dsps:calc_ssp_weights_sfh_table_met_table", [t, sfr, met, s, lgmet, lgage, to], [0, 1, 1, 1, 0, 0, 1]


def sedl(seed, small):
    t, sfr, lgage, lgmet, met, flux, to, z, s = _galaxy(seed, small)
    return "dsps:calc_rest_sed_sfh_table_lognormal_mdf", [t, sfr, z, s, lgmet, lgage, flux, to], [0, 1, 1, 1, 0, 0, 0, 1]


def sedt(seed, small):
    t, sfr, lgage, lgmet, met, flux, to, z, s = _galaxy(seed, small)
    return "dsps:calc_rest_sed_sfh_table_met_table", [t, sfr, met, s, lgmet, lgage, flux, to], [0, 1, 1, 1, 0, 0, 0, 1]


def mstar(seed, small):
    t, sfr, *_ = _galaxy(seed, small)
    return "dsps:cumulative_mstar_formed", [t, sfr], [0, 1]


def cumtrapz(seed, small):
    t, sfr, *_ = _galaxy(seed, small)
    return "dsps.utils:cumtrapz", [t, sfr], [0, 1]


def trapz(seed, small):
    t, sfr, *_ = _galaxy(seed, small)
    return "dsps.utils:trapz", [t, sfr], [0, 1]


def _burst(seed, small, u):
    t, sfr, lgage, *_ = _galaxy(seed, small)
    w = h(seed + 5, (len(lgage),), 0.1, 1.0)
    w = w / w.sum()
    if u:
        p = api("dsps.sfh.diffburst:BurstUParams")(_u(seed, 1, -5, 5), _u(seed, 2, -20, 20), _u(seed, 3, -20, 20))
    else:
        p = api("dsps.sfh.diffburst:BurstParams")(_u(seed, 1, -4, -1.1), _u(seed, 2, 5.5, 7.0), _u(seed, 3, 8.0, 8.9))
    return p, w, lgage


def burst(seed, small):
    return "dsps.sfh.diffburst:calc_bursty_age_weights", list(_burst(seed, small, False)), [1, 1, 0]


def burstu(seed, small):
    return "dsps.sfh.diffburst:calc_bursty_age_weights_from_u_params", list(_burst(seed, small, True)), [1, 1, 0]


def _sed(seed, small):
    nw, nf = (30, 9) if small else (101, 23)
    w = np.linspace(500.0, 12000.0, nw)
    f = 10 ** h(seed, (nw,), -1.0, 1.0)
    fw = np.linspace(5000.0, 7000.0, nf)
    ft = h(777, (nf,), 0.0, 1.0)
    return w, f, fw, ft


def restmag(seed, small):
    return "dsps:calc_rest_mag", list(_sed(seed, small)), [0, 1, 0, 0]


def restflux(seed, small):
    return "dsps.photometry.photometry_kernels:calc_rest_flux", list(_sed(seed, small)), [0, 1, 0, 0]


def obsmag(seed, small):
    return "dsps:calc_obs_mag", [*_sed(seed, small), _u(seed, 1, 0.01, 1.5), 0.3, -1.0, 0.1, 0.7], [0, 1, 0, 0, 1, 0, 0, 0, 0]


def _dust(seed, small):
    return h(99, (6 if small else 13,), 0.1, 3.0)


def sblk(seed, small):
    return "dsps.dust.att_curves:sbl18_k_lambda", [_dust(seed, small), _u(seed, 1, 0, 5), _u(seed, 2, -1, 0.5)], [0, 1, 1]


def nollk(seed, small):
    return "dsps.dust.att_curves:noll09_k_lambda", [_dust(seed, small), _u(seed, 1, 0, 5), _u(seed, 2, -1, 0.5)], [0, 1, 1]


def sbla(seed, small):
    return "dsps.dust.att_curves:sbl18_k_att_curve", [_dust(seed, small), _u(seed, 3, 0, 3), _u(seed, 1, 0, 5), _u(seed, 2, -1, 0.5)], [0, 1, 1, 1]


def calz(seed, small):
    return "dsps.dust.att_curves:calzetti00_att_curve", [_dust(seed, small), _u(seed, 3, 0, 3)], [0, 1]


def ftrans(seed, small):
    return "dsps.dust.att_curves:_frac_transmission_from_k_lambda", [h(seed, (6 if small else 13,), 0.0, 9.0), _u(seed, 3, 0, 3), _u(seed, 4, 0, 0.5)], [1, 1, 1]


def mzr(seed, small):
    from . import c22

    p = [_u(seed, 10 + i, lo, hi) for i, (lo, hi) in enumerate(c22.B)]
    return "dsps.metallicity.umzr:mzr_model", [h(seed, (4 if small else 9,), 7.0, 12.0), _u(seed, 1, 1.0, 13.7), *p], [1, 1] + [1] * 9


def mzrb(seed, small):
    from . import c22

    p = api("dsps.metallicity.umzr:MZRUParams")(*[_u(seed, 10 + i, -20, 20) for i in range(9)])
    return "dsps.metallicity.umzr:get_bounded_mzr_params", [p], [1]


def surv(seed, small):
    return "dsps.imf.surviving_mstar:surviving_mstar", [h(seed, (4 if small else 9,), 5.0, 10.2)], [1]


def remn(seed, small):
    return "dsps.imf.remnant_mass:remnant_mass", [h(seed, (4 if small else 9,), 5.0, 10.2)], [1]


def lumdist(seed, small):
    return "dsps.cosmology.flat_wcdm:luminosity_distance_to_z", [_u(seed, 1, 0.01, 5.0), 0.3, -1.0, 0.1, _u(seed, 2, 0.6, 0.8)], [1, 0, 0, 0, 1]


def lookback(seed, small):
    return "dsps.cosmology.flat_wcdm:lookback_to_z", [_u(seed, 1, 0.01, 5.0), 0.3, -1.0, 0.1, _u(seed, 2, 0.6, 0.8)], [1, 0, 0, 0, 1]


def agez(seed, small):
    return "dsps.cosmology.flat_wcdm:age_at_z", [h(seed, (3 if small else 8,), 0.01, 5.0), 0.3, -1.0, 0.1, 0.7], [1, 0, 0, 0, 0]


def vir(seed, small):
    return "dsps.cosmology.flat_wcdm:virial_dynamical_time", [h(seed, (3 if small else 8,), 0.01, 5.0), 0.3, -1.0, 0.1, 0.7], [1, 0, 0, 0, 0]


def bbody(seed, small):
    return "dsps.dust.blackbody:blackbody_wave_density", [10 ** h(seed, (3 if small else 8,), 3.0, 6.0), _u(seed, 1, 20.0, 9000.0)], [1, 1]


def ppdf(seed, small):
    n = 5 if small else 12
    return "dsps.utils:powerlaw_pdf", [h(seed, (n,), 1.0, 2.0), np.full(n, 0.9), np.full(n, 2.1), h(seed + 1, (n,), 0.5, 3.0)], [1, 0, 0, 1]


def prvs(seed, small):
    import jax

    n = 5 if small else 12
    return "dsps.utils:powerlaw_rvs", [np.asarray(jax.random.PRNGKey(seed)), np.full(n, 0.9), np.full(n, 2.1), h(seed + 1, (n,), 0.5, 3.0)], [1, 0, 0, 1]


def twh(seed, small):
    n = 5 if small else 12
    return "dsps.utils:triweighted_histogram", [h(seed, (3,), -1.0, 2.0), _u(seed, 1, 0.1, 0.7), np.linspace(0.0, 1.0, n)], [1, 1, 0]


def twg(seed, small):
    return "dsps.utils:triweight_gaussian", [h(seed, (5 if small else 12,), -3.0, 3.0), _u(seed, 1, -0.5, 0.5), _u(seed, 2, 0.3, 2.0)], [1, 1, 1]


def obstab(seed, small):
    w, f, fw, ft = _sed(seed, small)
    cube = 10 ** h(seed, (2, 3, len(w)), -1.0, 1.0)
    z = np.array([0.05, 0.4]) if small else np.array([0.05, 0.3, 0.6])
    return "dsps.photometry.photpop:precompute_ssp_obsmags_on_z_table", [w, cube, np.stack([fw, fw * 0.8]), np.stack([ft, ft[::-1]]), z, 0.3, -1.0, 0.0, _u(seed, 1, 0.6, 0.8)], [0, 1, 0, 0, 0, 0, 0, 0, 1]


def resttab(seed, small):
    w, f, fw, ft = _sed(seed, small)
    cube = 10 ** h(seed, (2, 3, len(w)), -1.0, 1.0)
    return "dsps.photometry.photpop:precompute_ssp_restmags", [w, cube, np.stack([fw, fw * 0.8]), np.stack([ft, ft[::-1]])], [0, 1, 0, 0]


def effw(seed, small):
    w, f, fw, ft = _sed(seed, small)
    return "dsps.dust.utils:get_filter_effective_wavelength", [fw, h(seed, (len(fw),), 0.1, 1.0), _u(seed, 1, 0.0, 2.0)], [0, 1, 1]


def _cosmo(seed):
    return [_u(seed, 21, 0.1, 0.6), _u(seed, 22, -1.5, -0.6), _u(seed, 23, -0.5, 0.5), _u(seed, 24, 0.5, 0.9)]


def _z(seed):
    """Small, ordinary or very large."""
    return float(10 ** _u(seed, 1, -3.0, 1.9)) if seed % 3 else _u(seed, 1, 0.01, 3.0)


def _zs(seed, small):
    return 10 ** h(seed, (3 if small else 8,), -3.0, 1.9) if seed % 3 else h(seed, (3 if small else 8,), 0.01, 5.0)


def _one(path):
    def f(seed, small):
        return "dsps.cosmology.flat_wcdm:" + path, [_z(seed), *_cosmo(seed)], [1, 1, 1, 1, 1]

    return f


def _many(path):
    def f(seed, small):
        return "dsps.cosmology.flat_wcdm:" + path, [_zs(seed, small), *_cosmo(seed)], [1, 1, 1, 1, 1]

    return f


def age0(seed, small):
    return "dsps.cosmology.flat_wcdm:age_at_z0", _cosmo(seed), [1, 1, 1, 1]


def nolla(seed, small):
    return "dsps.dust.att_curves:noll09_k_att_curve", [_dust(seed, small), _u(seed, 3, 0, 3), _u(seed, 1, 0, 5), _u(seed, 2, -1, 0.5), _u(seed, 5, 0.1, 0.3), _u(seed, 6, 0.01, 0.1)], [0, 1, 1, 1, 1, 1]


def sblw(seed, small):
    return "dsps.dust.att_curves:sbl18_k_lambda", [_dust(seed, small), _u(seed, 1, 0, 5), _u(seed, 2, -1, 0.5), _u(seed, 5, 0.1, 0.3), _u(seed, 6, 0.01, 0.1)], [0, 1, 1, 1, 1]


def leit(seed, small):
    return "dsps.dust.att_curves:leitherer02_att_curve", [_dust(seed, small), _u(seed, 3, 0, 3)], [0, 1]


def twk(seed, small):
    return "dsps.dust.att_curves:triweight_k_lambda", [_dust(seed, small), _u(seed, 1, -1.5, -0.5), _u(seed, 2, 0.5, 1.5), _u(seed, 3, 0.0, 0.8)], [0, 1, 1, 1]


def bbodyf(seed, small):
    return "dsps.dust.blackbody:blackbody_freq_density", [10 ** h(seed, (3 if small else 8,), 11.0, 16.0), _u(seed, 1, 20.0, 9000.0)], [1, 1]


def mzr0(seed, small):
    return "dsps.metallicity.mzr:mzr_model", [h(seed, (4 if small else 9,), 6.0, 13.0), _u(seed, 1, 0.5, 15.0), _u(seed, 2, -1, 0.25), _u(seed, 3, 10, 11), _u(seed, 4, 0.5, 2), _u(seed, 5, 0.1, 1), _u(seed, 6, 0, 0.3),
        _u(seed, 7, -2, -1), _u(seed, 8, 0, 0.5), _u(seed, 9, 7.5, 9.5), _u(seed, 10, -1.5, -0.5), _u(seed, 11, 0, 0.5)], [1] * 12


def mzre(seed, small):
    return "dsps.metallicity.umzr:mzr_evolution_model", [h(seed, (4 if small else 9,), 6.0, 13.0), _u(seed, 1, 0.5, 15.0), _u(seed, 7, -2, -1), _u(seed, 8, 0, 0.5), _u(seed, 10, -1.5, -0.5), _u(seed, 11, 0, 0.5)], [1] * 6


def mzru(seed, small):
    from . import c22

    p = [_u(seed, 10 + i, lo + 0.05 * (hi - lo), hi - 0.05 * (hi - lo)) for i, (lo, hi) in enumerate(c22.B)]
    p[4] = min(p[4], 0.9 * p[3])
    return "dsps.metallicity.umzr:get_unbounded_mzr_params", [api("dsps.metallicity.umzr:MZRParams")(*p)], [1]


def kcorr(seed, small):
    w, f, fw, ft = _sed(seed, small)
    cube = 10 ** h(seed, (2, 3, len(w)), -1.0, 1.0)
    return "dsps.photometry.photpop:precompute_ssp_restmags_z_kcorrect", [w, cube, np.stack([fw, fw * 0.8]), np.stack([ft, ft[::-1]]), _u(seed, 1, 0.0, 0.6)], [0, 1, 0, 0, 1]


def ew(seed, small):
    w = np.linspace(4800.0, 5200.0, 60 if small else 160)
    f = 2.0 + (w / 5000.0 - 1) * _u(seed, 1, -3, 3) + np.exp(-0.5 * ((w - 5000.0) / 12.0) ** 2) * _u(seed, 2, 0.1, 3.0) + 0.01 * h(seed, (len(w),), -1, 1)
    return "dsps.em_lines.equivalent_width:_ew_kernel", [w, f, 4950.0, 5000.0, 5050.0, 4850.0, 4940.0, 5060.0, 5150.0], [0, 1, 0, 0, 0, 0, 0, 0, 0]


ENTRIES = dict(
    age=age, metl=metl, mett=mett, sspl=sspl, sspt=sspt, sedl=sedl, sedt=sedt, mstar=mstar, cumtrapz=cumtrapz, trapz=trapz, burst=burst, burstu=burstu, restmag=restmag, restflux=restflux,
    obsmag=obsmag, sblk=sblk, nollk=nollk, sbla=sbla, calz=calz, ftrans=ftrans, mzr=mzr, mzrb=mzrb, surv=surv, remn=remn, lumdist=lumdist, lookback=lookback, agez=agez, vir=vir, bbody=bbody,
    ppdf=ppdf, prvs=prvs, twh=twh, twg=twg, obstab=obstab, resttab=resttab, effw=effw, nolla=nolla, sblw=sblw, leit=leit, twk=twk, bbodyf=bbodyf, mzr0=mzr0, mzre=mzre, mzru=mzru, kcorr=kcorr, ew=ew, age0=age0,
    dcom=_one("comoving_distance_to_z"), dang=_one("angular_diameter_distance_to_z"), dmod=_one("distance_modulus_to_z"), dlum=_one("luminosity_distance_to_z"), dvol=_one("differential_comoving_volume_at_z"),
    look=_one("lookback_to_z"), dcoms=_many("comoving_distance"), dlums=_many("luminosity_distance"), dmods=_many("distance_modulus"), looks=_many("lookback_time"), ages=_many("age_at_z"), rhos=_many("rho_crit"), virs=_many("virial_dynamical_time"),
)
NAMES = list(ENTRIES)


def leaves(r):
    import jax

    return jax.tree_util.tree_leaves(r)


def fields(r, prefix=""):
    """(name, array) pairs of a result."""
    if hasattr(r, "_fields"):
        return [(prefix + k, v) for k, v in zip(r._fields, r)]
    if isinstance(r, (tuple, list)):
        return [(prefix + str(i), v) for i, v in enumerate(r)]
    return [(prefix or "value", r)]


def stack(args):
    """Stacks one argument (array, number or tuple of numbers) over galaxies."""
    a = args[0]
    if hasattr(a, "_fields"):
        return type(a)(*[np.array(c) for c in zip(*args)])
    return np.stack([np.asarray(x) for x in args])


# results that are differences of terms of order one or ten, whose rounding does not shrink with the result
DIFFS = {"mzr": 1.0, "mag": 1.0, "triweight": 1.0, "k_lambda": 10.0, "att_curve": 10.0, "age_at_z": 10.0, "lookback": 1.0, "modulus": 1.0, "_ew_kernel": 10.0, "sigmoid": 1.0, "mstar": 1.0, "mass": 1.0}


def scale(path, values):
    s = float(np.max(np.abs(values))) if np.size(values) else 0.0
    name = path.split(":")[-1].split(" ")[0]
    return max([s] + [v for k, v in DIFFS.items() if k in name])
