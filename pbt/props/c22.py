"""C22 mass-metallicity relation."""
import numpy as np
from scipy.special import expit

from .. import gen
from ..core import C, Facet, api, close, fail, finite
from ..gen import st

RULE = (
    "Parameter vectors inside and (for the slopes) beyond the declared bounds, defaults included; log masses 2-14 and times 0.05-20 Gyr as "
    "scalars, equal-length arrays of 1, 6 or 70-5000 or one of each. Non-trivial: some time before 12.5 Gyr with a non-zero reduction, and "
    "non-default parameters."
)
ASSUMPTIONS = ["vanishing means below 1e-3 dex (the slope's roll-over is exponentially small, not zero, at zero lookback)"]
TECHNIQUE = "reference model, differential between the two versions, invariants"
NOTE = "Random search against the relation written from the statement."
U, L = "dsps.metallicity.umzr:", "dsps.metallicity.mzr:"
NAMES = (
    "mzr_t0_ytp", "mzr_t0_x0", "mzr_t0_k", "mzr_t0_slope_lo", "mzr_t0_slope_hi",
    "c0_y_at_tlook_c", "c1_y_at_tlook_c", "c0_early_time_slope", "c1_early_time_slope",
)
DEF = (0.05, 10.5, 1, 0.4, 0.1, -1.455, 0.13, -0.959, 0.067242)
B = ((-1.0, 0.25), (10.25, 10.75), (0.5, 2), (0.1, 1.0), (0.0, 0.3), (-2.0, -1.0), (0.0, 0.5), (-1.5, -0.5), (0.0, 0.5))
SOLAR = np.log10(0.012)


@st.composite
def case(draw, n=None):
    kind = draw(gen.pick(["default", "bounds", "bounds", "wide"]))
    if kind == "default":
        p = [float(x) for x in DEF]
    else:
        e = 0.0 if kind == "bounds" else 0.5
        p = [draw(gen.flat(lo - e * (hi - lo), hi + e * (hi - lo))) for lo, hi in B]
        p[2] = max(p[2], 0.1)
    shape = draw(gen.pick(["scalar", "vec", "mass-vec", "time-vec"]))
    m = st.one_of(gen.flat(2.0, 14.0), gen.flat(8.0, 12.0), gen.pick([2.0, 10.5, 14.0]))
    t = st.one_of(gen.flat(0.05, 20.0), gen.flat(0.05, 13.0), gen.pick([0.05, 12.5, 13.8, 4.06]))
    nm = 6 if shape in ("vec", "mass-vec") else 1
    nt = 6 if shape in ("vec", "time-vec") else 1
    return dict(
        kind=kind, shape=shape, p=p, m=draw(gen.bulk(n, 2.0, 14.0) if n and nm > 1 else gen.vec(m, nm)), t=draw(gen.bulk(n, 0.05, 20.0) if n and nt > 1 else gen.vec(t, nt)), x0=draw(gen.flat(10.0, 11.0)), tc=draw(gen.flat(7.5, 9.5)),
    )


def sig_slope(x, xtp, ytp, x0, k, lo, hi):
    return ytp + (lo + (hi - lo) * expit(k * (x - x0))) * (x - xtp)


def t0_ref(m, p, xtp):
    return sig_slope(m, xtp, p[0], p[1], p[2], p[3], p[4]) + SOLAR


def evol_ref(m, t, p, tc):
    y = p[5] + p[6] * m
    early = p[7] + p[8] * m
    tl = np.maximum(12.5 - t, 0.0)
    return np.minimum(sig_slope(tl, tc, y, tc, 1.6, y / tc, early), 0.0)


def unpack(c):
    m, t = np.array(c["m"]), np.array(c["t"])
    if c["shape"] == "scalar":
        return float(m[0]), float(t[0])
    if c["shape"] == "mass-vec":
        return m, float(t[0])
    if c["shape"] == "time-vec":
        return float(m[0]), t
    return m, t


def judge(name, got, m, t, t0, want, ctx):
    """Common invariants; t0 = the package's own present-day relation."""
    red = np.asarray(got) - np.asarray(t0)
    if np.any(red > 1e-12):
        fail("{0}: metallicity {1!r} above the present-day relation", name, float(red.max()))
    late = np.broadcast_to(np.asarray(t) >= 12.5, red.shape)
    if np.any(np.abs(red[late]) > 1e-3):
        fail("{0}: reduction {1!r} at cosmic times past 12.5 Gyr", name, float(np.abs(red[late]).max()))
    close(got, want, atol=1e-11, what=name)
    return red


def current(c, ctx):
    m, t = unpack(c)
    p = c["p"]
    t0 = finite(C(api(U + "mzr_model_t0"), m, *p[:5]), "present-day relation")
    close(t0, t0_ref(np.asarray(m), p, 10.5), atol=1e-11, what="present-day relation")
    ev = finite(C(api(U + "mzr_evolution_model"), m, t, *p[5:]), "reduction")
    evr = evol_ref(np.asarray(m), np.asarray(t), p, 8.44)
    close(ev, evr, atol=1e-11, what="reduction")
    if np.any(ev > 0):
        fail("positive metallicity evolution {0!r}", float(ev.max()))
    got = finite(C(api(U + "mzr_model"), m, t, *p), "metallicity")
    red = judge("metallicity", got, m, t, t0, t0_ref(np.asarray(m), p, 10.5) + evr, ctx)
    # by name, as the parameter tuple, and one at a time
    P = api(U + "MZRParams")(**dict(zip(NAMES, p)))
    close(C(api(U + "mzr_model"), m, t, *P), got, atol=1e-13, what="metallicity from a parameter tuple")
    close(C(api(U + "mzr_model"), logsm=m, t=t, **dict(zip(NAMES, p))), got, atol=1e-13, what="metallicity from named parameters")
    g = np.atleast_1d(got)
    mm, tt = np.broadcast_arrays(np.atleast_1d(m), np.atleast_1d(t))
    for i in (0, len(g) - 1):
        close(C(api(U + "mzr_model"), float(mm[i]), float(tt[i]), *p), g[i], atol=1e-12, what="metallicity of one galaxy alone")
    ctx.label("params:" + c["kind"], "shape:" + c["shape"])
    ctx.nt(c["kind"] != "default" and bool(np.any(red < -1e-3)))


# redshift: (log10 M0, K0), table 5 of Maiolino et al. (2008); 3.51 is the second calibration at 3.5
MAIOLINO08 = {0.07: (11.18, 9.04), 0.7: (11.57, 9.04), 2.2: (12.38, 8.99), 3.5: (12.76, 8.79), 3.51: (12.87, 8.90)}


def legacy(c, ctx):
    m, t = unpack(c)
    p = c["p"]
    f, f0, fe = api(L + "mzr_model"), api(L + "mzr_model_t0"), api(L + "mzr_evolution_model")
    # free legacy-only parameters: tie mass and transition lookback time
    q = list(p)
    q[1] = c["x0"]
    ev = p[5], p[6], c["tc"], p[7], p[8]
    t0 = finite(C(f0, m, *q[:5]), "legacy present-day relation")
    r0 = t0_ref(np.asarray(m), q, c["x0"])
    close(t0, r0, atol=1e-11, what="legacy present-day relation")
    evr = evol_ref(np.asarray(m), np.asarray(t), p, c["tc"])
    e = close(C(fe, m, t, *ev), evr, atol=1e-11, what="legacy reduction")
    if np.any(e > 0):
        fail("positive legacy metallicity evolution {0!r}", float(e.max()))
    got = finite(C(f, m, t, *q[:5], *ev), "legacy metallicity")
    red = judge("legacy metallicity", got, m, t, t0, r0 + evr, ctx)
    mm = np.asarray(m)
    want = -12.0 - 0.0864 * (mm - c["x0"]) ** 2 + p[0]
    close(C(api(L + "maiolino08_metallicity_evolution"), m, c["x0"], p[0]), want, atol=1e-12, what="Maiolino et al. (2008) relation")
    fits = {float(z): tuple(float(x) for x in v) for z, v in api(L + "MAIOLINO08_PARAMS").items()}
    if fits != MAIOLINO08:
        fail("the fits of Maiolino et al. (2008) are {0}", fits)
    # matching parameters: both versions agree
    s = list(p)
    s[1] = 10.5
    a = finite(C(f, m, t, *s[:5], p[5], p[6], 8.44, p[7], p[8]), "legacy metallicity")
    close(C(api(U + "mzr_model"), m, t, *s), a, atol=1e-12, what="current against legacy metallicity")
    ctx.label("params:" + c["kind"], "shape:" + c["shape"])
    ctx.nt(c["kind"] != "default" and bool(np.any(red < -1e-3)))


def defaults(c, ctx):
    m, t = unpack(c)
    P = api(U + "DEFAULT_MZR_PARAMS")
    D = api(L + "DEFAULT_MET_PDICT")
    q = [float(v) for k, v in D.items() if k != "mzr_scatter"]
    a = finite(C(api(L + "mzr_model"), m, t, *q), "legacy metallicity")
    close(C(api(U + "mzr_model"), m, t, *P), a, atol=1e-12, what="default current against default legacy metallicity")
    g = np.array([float(x) for x in api(L + "DEFAULT_MET_PARAMS")])
    close(g[:-1], np.array(q), atol=1e-14, what="default parameter array")
    ctx.label("shape:" + c["shape"])
    ctx.nt()


FACETS = [
    Facet("current", lambda t, s: case(), current, 900, 10000, qshards=3, tshards=10),
    Facet("current-large", lambda t, s: case(gen.longs(s)), current, 60, 800, qshards=4, tshards=8),
    Facet("legacy-large", lambda t, s: case(gen.longs(s)), legacy, 60, 800, qshards=4, tshards=8),
    Facet("legacy", lambda t, s: case(), legacy, 900, 10000, qshards=3, tshards=10),
    Facet("defaults", lambda t, s: case(), defaults, 400, 3000, qshards=1, tshards=2),
]
