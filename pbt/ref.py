"""Independent reference implementations (numpy/scipy, written from the statements)."""
import numpy as np

SFR_MIN = 1e-14
T_BIRTH_MIN = 0.001
LGMET_LO, LGMET_HI = -10.0, 10.0


# ------------------------------------------------------------------ grids
def interior_edges(x):
    """Lower edges of every bin but the first: x_i - (x_{i+1} - x_{i-1})/4,
    with the half-spacing used at the last point."""
    x = np.asarray(x, float)
    n = len(x)
    out = np.empty(n - 1)
    for i in range(1, n):
        if i < n - 1:
            width = (x[i + 1] - x[i - 1]) / 2
        else:
            width = _last(x)
        out[i - 1] = x[i] - width / 2
    return out


def _last(x):
    # the last bin runs from the last midpoint to x_n + (half the last mid-spacing)
    mids = 0.5 * (x[:-1] + x[1:])
    hi = x[-1] + (mids[-1] - mids[-2]) / 2
    return hi - mids[-1]


def age_edges(lgage):
    x = np.asarray(lgage, float)
    lo = x[0] - (x[1] - x[0]) / 2
    hi = x[-1] + _last(x) / 2
    return np.concatenate([[lo], interior_edges(x), [hi]])


def met_edges(lgmet):
    x = np.asarray(lgmet, float)
    return np.concatenate([[LGMET_LO], interior_edges(x), [LGMET_HI]])


# ------------------------------------------------------------------ mass formed
def mstar_formed(t, sfr):
    """Trapezoid from (T_BIRTH_MIN, SFR_MIN), Msun."""
    t = np.concatenate([[T_BIRTH_MIN], np.asarray(t, float)])
    s = np.concatenate([[SFR_MIN], np.asarray(sfr, float)])
    return 1e9 * np.cumsum(0.5 * (s[1:] + s[:-1]) * np.diff(t))


def floor_sfr(sfr, sfr_min=SFR_MIN):
    return np.maximum(np.asarray(sfr, float), sfr_min)


def lgm_at(times, t, sfr):
    """log10 mass formed by each time: linear in log t, log m; constant outside."""
    m = mstar_formed(t, sfr)
    return np.interp(np.log10(times), np.log10(t), np.log10(m))


def birth_times(t_obs, lgage):
    return np.maximum(t_obs - 10 ** np.asarray(lgage, float), T_BIRTH_MIN)


def age_weights(t, sfr, lgage, t_obs, sfr_min=SFR_MIN):
    """(weights, amplification of rounding errors in them)"""
    s = floor_sfr(sfr, sfr_min)
    m = 10 ** lgm_at(birth_times(t_obs, age_edges(lgage)), t, s)
    d = m[:-1] - m[1:]
    tot = d.sum()
    if not tot > 0:
        return np.full(len(d), np.nan), np.inf
    return d / tot, m.max() / tot


def age_weights_tol(t, sfr, lgage, t_obs, sfr_min=SFR_MIN):
    """(weights, absolute tolerance per weight) with the tolerance from the conditioning
    of the problem: the reference's own response to 1e-14 relative changes of t_obs."""
    w, amp = age_weights(t, sfr, lgage, t_obs, sfr_min)
    tol = 1e-12 * amp + 1e-12
    for eps in (-1e-13, 1e-13):
        w2, _ = age_weights(t, sfr, lgage, t_obs * (1 + eps), sfr_min)
        tol = tol + 3 * np.abs(w2 - w)
    # an edge moves mass between two neighbouring bins: spread to the whole vector
    return w, np.full(len(w), float(np.max(tol))), amp


# ------------------------------------------------------------------ triweight
def tw_cdf(x, m, h):
    """Mass of a triweight (half-width 3h) below x."""
    u = np.clip((np.asarray(x, float) - m) / (3.0 * h), -1.0, 1.0)
    return 0.5 + (35.0 / 32.0) * (u - u**3 + 3.0 * u**5 / 5.0 - u**7 / 7.0)


def tw_pdf(x, m, h):
    u = (np.asarray(x, float) - m) / (3.0 * h)
    return np.where(np.abs(u) <= 1, 35.0 / 32.0 * (1 - np.clip(u, -1, 1) ** 2) ** 3 / (3.0 * h), 0.0)


def met_weights_from_edges(lgmet, scat, edges):
    edges = np.asarray(edges, float)
    # mass in [lo, hi] of a kernel centred on the galaxy
    w = tw_cdf(edges[1:], lgmet, scat) - tw_cdf(edges[:-1], lgmet, scat)
    if w.sum() == 0:
        w = np.zeros(len(edges) - 1)
        if lgmet < edges[0]:
            w[0] = 1.0
        elif lgmet > edges[-1]:
            w[-1] = 1.0
        return w
    return w / w.sum()


def met_weights(lgmet, scat, ssp_lgmet):
    return met_weights_from_edges(lgmet, scat, met_edges(ssp_lgmet))


def lgmet_at_birth(t, lgmet_table, lgage, t_obs):
    return np.interp(np.log10(birth_times(t_obs, lgage)), np.log10(t), lgmet_table)


def met_weight_matrix(t, lgmet_table, scat, ssp_lgmet, lgage, t_obs):
    z = lgmet_at_birth(t, lgmet_table, lgage, t_obs)
    return np.array([met_weights(x, scat, ssp_lgmet) for x in z]).T / len(lgage)


# ------------------------------------------------------------------ trapezoid
def trapz(x, y):
    x, y = np.asarray(x, float), np.asarray(y, float)
    return float(np.sum(0.5 * (y[1:] + y[:-1]) * (x[1:] - x[:-1])))


# ------------------------------------------------------------------ photometry
JY_CGS = 1e-23
PC_CM = 3.0856775814913673e18
LSUN_CGS = 3.828e33
AB0_EXACT = 3631.0 * JY_CGS * 4 * np.pi * (10 * PC_CM) ** 2 / LSUN_CGS  # Lsun/Hz


def interp0(x, xp, fp):
    """Linear interpolation, zero outside [xp[0], xp[-1]] (inclusive)."""
    x, xp, fp = (np.asarray(a, float) for a in (x, xp, fp))
    i = np.clip(np.searchsorted(xp, x, side="right") - 1, 0, len(xp) - 2)
    u = (x - xp[i]) / (xp[i + 1] - xp[i])
    y = fp[i] * (1 - u) + fp[i + 1] * u
    return np.where((x < xp[0]) | (x > xp[-1]), 0.0, y)


def filter_flux(w, f, fw, ft, z=0.0):
    fw, ft = np.asarray(fw, float), np.asarray(ft, float)
    return trapz(fw, ft / fw * interp0(fw, np.asarray(w, float) * (1 + z), f))


def ab_flux(w, f, fw, ft, z=0.0):
    """Filter flux in units of that of the AB reference (with its exact level)."""
    fw, ft = np.asarray(fw, float), np.asarray(ft, float)
    return filter_flux(w, f, fw, ft, z) / (AB0_EXACT * trapz(fw, ft / fw))


# ------------------------------------------------------------------ cosmology
C_KMS = 299792.458
GYR_PER_HUBBLE_H = 3.08567758149e19 / 3.15569252e16 / 100.0  # 1/(100 km/s/Mpc) in Gyr (tropical year)


def efunc(z, om, w0, wa):
    z = np.asarray(z, float)
    return np.sqrt(om * (1 + z) ** 3 + (1 - om) * (1 + z) ** (3 * (1 + w0 + wa)) * np.exp(-3 * wa * z / (1 + z)))


_GL = np.polynomial.legendre.leggauss(24)


def _integral(f, a, b):
    """Composite Gauss-Legendre in u = ln(1+z) from a to b."""
    n = max(1, int(np.ceil((b - a) / 0.25)))
    e = np.linspace(a, b, n + 1)
    h = np.diff(e)[:, None] / 2
    u = (e[:-1] + e[1:])[:, None] / 2 + h * _GL[0][None, :]
    return float(np.sum(h * _GL[1][None, :] * f(u)))


def comoving_distance(z, om, w0, wa, h):
    if z == 0:
        return 0.0
    return C_KMS / (100 * h) * _integral(lambda u: np.exp(u) / efunc(np.expm1(u), om, w0, wa), 0.0, np.log1p(z))


def lookback(z, om, w0, wa, h):
    if z == 0:
        return 0.0
    return GYR_PER_HUBBLE_H / h * _integral(lambda u: 1 / efunc(np.expm1(u), om, w0, wa), 0.0, np.log1p(z))


def age(z, om, w0, wa, h):
    return GYR_PER_HUBBLE_H / h * _integral(lambda u: 1 / efunc(np.expm1(u), om, w0, wa), np.log1p(z), 25.0)
