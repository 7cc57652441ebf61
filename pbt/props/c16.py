"""C16 reddening and attenuation curves."""
import numpy as np

from .. import gen, ref
from ..core import C, Facet, api, close, fail, finite, helper
from ..gen import st

RULE = (
    "Wavelength arrays in ascending, descending or no order (1, 2 or 8 points, also scalars and 70-5000 points) over 0.01-30 micron with extra weight near the 0.15 and 0.63 micron switches and the bump, "
    "slopes in [-3,3], bump amplitudes in [-3,10], centres 0.05-1 micron, widths 0.003-0.3 micron, Av in [0,10]. "
    "Non-trivial: slope, amplitude and Av all non-zero and at least one wavelength where the curve is positive."
)
ASSUMPTIONS = ["wavelengths within 1e-9 of a switch are not generated"]
TECHNIQUE = "reference model (published polynomials) and metamorphic relations"
NOTE = "Random search against formulas transcribed from the publications; tolerances at rounding level."
M = "dsps.dust.att_curves:"


def ok(w):
    return abs(w / 0.15 - 1) > 1e-9 and abs(w / 0.63 - 1) > 1e-9


def wave():
    return st.one_of(
        gen.logu(0.01, 30.0), gen.flat(0.05, 1.0), gen.flat(0.149, 0.151), gen.flat(0.62, 0.64),
        gen.flat(0.19, 0.25), gen.flat(0.5, 3.0), gen.pick([0.01, 0.2175, 0.55, 1.0, 2.2, 30.0]),
    ).filter(ok)


def order(w):
    """Ascending (half of the time), descending or in no order."""
    sh = [float(w[i]) for i in np.argsort(gen.hashed(len(w), (len(w),), 0.0, 1.0))]
    return gen.pick([sorted(w), sorted(w), sorted(w)[::-1], sh])


@st.composite
def case(draw, n=None):
    big = n
    n = n or draw(gen.pick([1, 2, 8]))
    std = draw(st.booleans())
    return dict(
        w=draw(order(draw(gen.bulk(n, 0.01, 30.0, True).map(lambda v: [x for x in v if ok(x)]) if big else gen.vec(wave(), n)))), slope=draw(st.one_of(gen.flat(-3.0, 3.0), gen.pick([0.0, -0.7]))),
        ampl=draw(st.one_of(gen.flat(-3.0, 10.0), gen.pick([0.0, 3.0]))),
        x0=None if std else draw(gen.logu(0.05, 1.0)), dw=None if std else draw(gen.logu(0.003, 0.3)),
        av=draw(st.one_of(gen.flat(0.0, 10.0), gen.logu(1e-6, 10.0), st.just(0.0))), k=draw(gen.logu(0.01, 100.0)),
    )


def c00(w):
    y = 1 / w
    k = np.where(w < 0.63, 2.659 * (-2.156 + 1.509 * y - 0.198 * y**2 + 0.011 * y**3), 2.659 * (-1.857 + 1.040 * y)) + 4.05
    s = np.where(w < 0.63, 2.659 * (2.156 + 1.509 * y + 0.198 * y**2 + 0.011 * y**3), 2.659 * (1.857 + 1.040 * y)) + 4.05
    return k, s


def l02(w):
    y = 1 / w
    return 5.472 + 0.671 * y - 9.218e-3 * y**2 + 2.620e-3 * y**3, 5.472 + 0.671 * y + 9.218e-3 * y**2 + 2.620e-3 * y**3


def drude(w, x0, dw, a):
    return a * (w * dw) ** 2 / ((w * w - x0 * x0) ** 2 + (w * dw) ** 2)


def ref_curves(c):
    """name -> (k before clipping, magnitude of its terms)"""
    w = np.array(c["w"])
    x0 = 0.2175 if c["x0"] is None else c["x0"]
    dw = 0.0350 if c["dw"] is None else c["dw"]
    kc, sc = c00(w)
    kl, sl = l02(w)
    base, sb = np.where(w > 0.15, kc, kl), np.where(w > 0.15, sc, sl)
    pl = (w / 0.55) ** c["slope"]
    b = drude(w, x0, dw, c["ampl"])
    return dict(
        calzetti00=(kc, sc), leitherer02=(kl, sl),
        noll09=((base + b) * pl, (sb + abs(b)) * pl), sbl18=(base * pl + b, sb * pl + abs(b)),
    )


def extra(c):
    return () if c["x0"] is None else (c["x0"], c["dw"])


def call_k(name, c, w):
    if name in ("calzetti00", "leitherer02"):
        return C(api(M + name + "_k_lambda"), w)
    return C(api(M + name + "_k_lambda"), w, c["ampl"], c["slope"], *extra(c))


def call_att(name, c, w, av):
    if name in ("calzetti00", "leitherer02"):
        return C(api(M + name + "_att_curve"), w, av)
    return C(api(M + name + "_k_att_curve"), w, av, c["ampl"], c["slope"], *extra(c))


def laws(c, ctx):
    w = np.array(c["w"])
    pos = False
    for name, (k, s) in ref_curves(c).items():
        tol = 1e-12 * s + 1e-14
        clip = k if name in ("calzetti00", "leitherer02") else np.maximum(k, 0)
        got = close(call_k(name, c, w), clip, atol=tol, what=name + " reddening curve")
        if name in ("noll09", "sbl18") and np.any(got < 0):
            fail("{0} reddening curve is negative: {1!r}", name, float(got.min()))
        att = close(call_att(name, c, w, c["av"]), np.maximum(c["av"] * k / 4.05, 0), atol=c["av"] * tol + 1e-300, what=name + " attenuation curve")
        if np.any(att < 0):
            fail("{0} attenuation is negative: {1!r}", name, float(att.min()))
        close(att, np.maximum(c["av"] * got / 4.05, 0), rtol=1e-12, what=name + " attenuation against its reddening curve")
        pos |= bool(np.any(k > 0))
    kc13 = helper(M + "_get_eb_from_delta")
    if kc13 is not None:
        close(C(kc13, c["slope"]), 0.85 - 1.9 * c["slope"], atol=1e-12, what="bump amplitude of Kriek and Conroy (2013)")
    ctx.label("bump:std" if c["x0"] is None else "bump:custom", "n=%d" % len(w))
    ctx.nt(pos and c["slope"] != 0 and c["ampl"] != 0 and c["av"] != 0)


def relations(c, ctx):
    w = np.array(c["w"])
    for name in ref_curves(c):
        a = finite(call_att(name, c, w, c["av"]), name)
        close(call_att(name, c, w, c["av"] * c["k"]), a * c["k"], rtol=1e-12, what=name + " attenuation scaled with Av")
        if np.any(np.asarray(call_att(name, c, w, 0.0)) != 0):
            fail("{0} attenuates without dust", name)
        one = [float(np.asarray(call_att(name, c, np.array([x]), c["av"]))[0]) for x in c["w"][:2]]
        close(a[:2], one, rtol=1e-13, what=name + " at one wavelength alone")
        close(call_att(name, c, float(w[0]), c["av"]), a[0], rtol=1e-13, what=name + " at a scalar wavelength")
        if name in ("noll09", "sbl18") and c["x0"] is None:
            d = dict(c, x0=0.2175, dw=0.0350)
            close(call_att(name, d, w, c["av"]), a, rtol=1e-13, what=name + " with the default bump given explicitly")
    # without slope and bump both modified curves are the base curve
    d = dict(c, slope=0.0, ampl=0.0)
    k0 = np.maximum(np.where(w > 0.15, np.asarray(call_k("calzetti00", c, w)), np.asarray(call_k("leitherer02", c, w))), 0)
    for name in ("noll09", "sbl18"):
        close(call_k(name, d, w), k0, rtol=1e-12, what=name + " without slope or bump")
    f = api(M + "_l02_below_c00_above")
    close(np.maximum(np.asarray(C(f, w)), 0), k0, rtol=1e-12, what="base curve")
    # at the V-band pivot the slope has no effect; without slope the two orders agree
    e = dict(c, slope=0.0)
    close(call_k("noll09", e, w), np.asarray(call_k("sbl18", e, w)), rtol=1e-12, what="Noll and Salim curves without slope")
    v = np.array([0.55])
    close(call_k("noll09", c, v), np.asarray(call_k("noll09", e, v)), rtol=1e-12, what="Noll curve at 0.55 micron")
    close(call_k("sbl18", c, v), np.asarray(call_k("sbl18", e, v)), rtol=1e-12, what="Salim curve at 0.55 micron")
    close(C(api(M + "power_law_vband_norm"), w, c["slope"]), (w / 0.55) ** c["slope"], rtol=1e-12, what="power law")
    ctx.label("n=%d" % len(w))
    ctx.nt(c["slope"] != 0 and c["ampl"] != 0 and c["av"] != 0)


@st.composite
def tw(draw):
    n = draw(gen.pick([1, 8, 8, 8, 700]))
    c = dict(w=draw(order(draw(gen.vec(gen.logu(0.01, 30.0), n) if n < 10 else gen.bulk(n, 0.01, 30.0, True)))), p=None)
    if draw(gen.pick([0, 1, 1])):
        c["p"] = dict(
            xtp=draw(gen.flat(-2.0, 1.5)), ytp=draw(gen.flat(-1.0, 2.0)), x0=draw(gen.flat(-2.0, 1.5)), tw_h=draw(gen.logu(0.05, 2.0)),
            lo=draw(gen.flat(-3.0, 2.0)), hi=draw(gen.flat(-3.0, 2.0)),
        )
    return c


def triweight(c, ctx):
    w = np.array(c["w"])
    f = api(M + "triweight_k_lambda")
    p = c["p"] or dict(xtp=-1.0, ytp=1.15, x0=0.5, tw_h=0.5, lo=-0.65, hi=-1.95)
    x = np.log10(w)
    slope = p["lo"] + (p["hi"] - p["lo"]) * ref.tw_cdf(x, p["x0"], p["tw_h"])
    got = finite(C(f, w, **(c["p"] or {})), "triweight curve")
    close(np.log10(got), p["ytp"] + slope * (x - p["xtp"]), atol=1e-10, what="log10 of the triweight curve")
    tie = np.array([10 ** p["xtp"]])
    close(np.log10(np.asarray(C(f, tie, **(c["p"] or {})))), np.array([p["ytp"]]), atol=1e-10, what="triweight curve at its tie point")
    ctx.label("default" if c["p"] is None else "custom")
    ctx.nt(c["p"] is not None or len(w) > 1)


FACETS = [
    Facet("laws", lambda t, s: case(), laws, 900, 10000, qshards=3, tshards=10),
    Facet("laws-large", lambda t, s: case(gen.longs(s)), laws, 60, 800, qshards=4, tshards=8),
    Facet("relations", lambda t, s: case(), relations, 500, 5000, qshards=4, tshards=10),
    Facet("triweight", lambda t, s: tw(), triweight, 800, 8000, qshards=1, tshards=4),
]
