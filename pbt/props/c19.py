"""C19 burst-mixed age weights."""
import numpy as np

from .. import gen, ref
from ..core import C, Facet, api, close, fail, finite
from ..gen import st

RULE = (
    "Burst fractions 10^-8 to 1, peak ages over 4-10.5 dex (inside, between and beyond the grid), supports 0.05-6 dex (also below the "
    "default 1 dex), age grids of 3-107, also 300 and 600 points, smooth weights normalised, unnormalised or concentrated in one bin; unbounded vectors incl. extreme values. "
    "Non-trivial: at least two grid ages lie inside the bump, or none does."
)
ASSUMPTIONS = ["maximum age above peak age", "cases where the bump's only overlap is at its very edge (density below 1e-15 of the peak) are judged only for sign and total"]
TECHNIQUE = "reference model and invariants"
NOTE = "Random search against the mixture written from the statement with an independent triweight density."
M = "dsps.sfh.diffburst:"


@st.composite
def smooth(draw, n):
    kind = draw(gen.pick(["rand", "rand", "one", "zero", "unnorm"]))
    sd = draw(st.integers(0, 1 << 16))
    w = gen.hashed(sd, (n,), 0.0, 1.0)
    if kind == "one":
        w = np.eye(n)[sd % n]
    elif kind == "zero":
        w = np.zeros(n)
    if kind in ("rand", "one"):
        w = w / w.sum()
    return kind, [float(x) for x in w]


def ns(tier, shard):
    return [3, 8, (40, 107, 40, 300)[shard % 4]] if tier == "quick" else [3, 8, (94, 107, 600)[shard % 3], 5 + shard]


@st.composite
def case(draw, tier, shard):
    n = draw(gen.pick(ns(tier, shard)))
    lgage = draw(gen.lgage_grid(n))
    peak = draw(st.one_of(gen.flat(4.0, 10.5), gen.flat(5.0, 8.0), gen.pick(lgage).map(lambda x: x + 9.0)))
    k = draw(gen.pick(["std", "std", "narrow", "wide"]))
    mx = peak + draw(gen.flat(1.0, 4.0) if k == "std" else gen.logu(0.05, 1.0) if k == "narrow" else gen.flat(1.0, 6.0))
    sk, s = draw(smooth(n))
    return dict(
        lgage=lgage, lgfburst=draw(st.one_of(gen.flat(-8.0, -1.0), gen.flat(-8.0, 0.0), st.just(0.0))), lgyr_peak=float(peak),
        lgyr_max=float(mx), smooth=s, kind=sk, u=draw(gen.vec(st.one_of(gen.flat(-60.0, 60.0), gen.flat(-500.0, 500.0), gen.pick([-1e5, 1e5, 0.0])), 3)),
    )


def burst_ref(lgyr, peak, mx):
    """(weights, absolute tolerance, state)"""
    h = (mx - peak) / 3

    def one(p, m):
        d = ref.tw_pdf(lgyr, p, (m - p) / 3)
        return d / d.sum() if d.sum() > 0 else d

    d = ref.tw_pdf(lgyr, peak, h) * h
    u = np.abs(lgyr - peak) / (3 * h)
    if np.any((np.abs(u - 1) < 1e-9)) or (0 < d.max() < 1e-15):
        return None, None, "edge"
    w = one(peak, mx)
    tol = 1e-13
    for dp, dm in ((1e-14, 0), (0, 1e-14), (-1e-14, 0), (0, -1e-14)):
        tol += 3 * float(np.max(np.abs(one(peak * (1 + dp), mx * (1 + dm)) - w)))
    return w, tol, "none" if w.sum() == 0 else "some"


def params(c):
    return api(M + "BurstParams")(c["lgfburst"], c["lgyr_peak"], c["lgyr_max"])


def mixture(c, ctx):
    lgage, s = np.array(c["lgage"]), np.array(c["smooth"])
    got = finite(C(api(M + "calc_bursty_age_weights"), params(c), s, lgage), "bursty age weights")
    tup = C(api(M + "calc_bursty_age_weights"), (c["lgfburst"], c["lgyr_peak"], c["lgyr_max"]), s, lgage)
    close(tup, got, atol=1e-15, what="bursty weights from a plain tuple")
    if np.any(got < 0):
        fail("negative bursty age weight {0!r}", float(got.min()))
    lgyr = lgage + 9.0
    b = finite(C(api(M + "_pureburst_age_weights_from_params"), lgyr, c["lgyr_peak"], c["lgyr_max"]), "burst weights")
    w, tol, state = burst_ref(lgyr, c["lgyr_peak"], c["lgyr_max"])
    f = 10 ** c["lgfburst"]
    tot = float(b.sum())
    if min(abs(tot), abs(tot - 1)) > 1e-12:
        fail("burst weights sum to {0!r}", tot)
    close(got, f * b + (1 - f) * s, atol=1e-15, rtol=1e-12, what="mixture of burst and smooth weights")
    if w is not None:
        b = close(b, w, atol=tol, what="burst age weights")
        close(got, f * w + (1 - f) * s, atol=tol * f + 1e-14, rtol=1e-12, what="bursty age weights")
        half = c["lgyr_max"] - c["lgyr_peak"]
        out = np.abs(lgyr - c["lgyr_peak"]) > half * (1 + 1e-9)
        if np.any(b[out] != 0):
            fail("burst weight {0!r} outside the burst's age range", float(b[out].max()))
        if state == "some" and c["kind"] in ("rand", "one"):
            close(float(got.sum()), 1.0, atol=1e-12, what="sum of the bursty weights")
        if state == "some":
            inside = b > 0
            i = int(np.argmax(b))
            if abs(lgyr[i] - c["lgyr_peak"]) > np.min(np.abs(lgyr - c["lgyr_peak"])) * (1 + 1e-9) + 1e-9:
                fail("the largest burst weight is at lg age {0}, the peak is {1}", float(lgyr[i]), c["lgyr_peak"])
            ctx.nt(inside.sum() >= 2)
        else:
            ctx.nt()
        g2 = api(M + "_compute_bursty_age_weights_from_params")
        close(C(g2, lgyr, s, params(c)), f * w + (1 - f) * s, atol=tol * f + 1e-14, rtol=1e-12, what="bursty age weights (years)")
    ctx.label("burst:" + state, "smooth:" + c["kind"])


def unbounded(c, ctx):
    lgage, s = np.array(c["lgage"]), np.array(c["smooth"])
    U = api(M + "BurstUParams")(*c["u"])
    got = finite(C(api(M + "calc_bursty_age_weights_from_u_params"), U, s, lgage), "bursty weights from unbounded parameters")
    p = C(api(M + "_get_params_from_u_params"), U)
    p = api(M + "BurstParams")(*[float(x) for x in p])
    want = C(api(M + "calc_bursty_age_weights"), p, s, lgage)
    close(got, want, atol=1e-12, what="bursty weights from unbounded parameters")
    f = 10 ** p.lgfburst
    w, tol, state = burst_ref(lgage + 9.0, p.lgyr_peak, p.lgyr_max)
    if w is not None:
        close(got, f * w + (1 - f) * s, atol=10 * tol * f + 1e-13, rtol=1e-11, what="bursty age weights")
    g2 = api(M + "_compute_bursty_age_weights_from_u_params")
    close(C(g2, lgage + 9.0, s, U), got, atol=1e-12, what="bursty age weights (years)")
    b1 = C(api(M + "_pureburst_age_weights_from_u_params"), lgage + 9.0, U.u_lgyr_peak, U.u_lgyr_max)
    b2 = C(api(M + "_pureburst_age_weights_from_params"), lgage + 9.0, p.lgyr_peak, p.lgyr_max)
    close(b1, np.asarray(b2), atol=1e-10, what="burst weights from unbounded parameters")
    ctx.label("burst:" + state)
    ctx.nt(state == "some" and (w > 0).sum() >= 2 or state == "none")


FACETS = [
    Facet("mixture", lambda t, s: case(t, s), mixture, 1200, 12000, qshards=4, tshards=12),
    Facet("unbounded", lambda t, s: case(t, s), unbounded, 700, 8000, qshards=4, tshards=12),
]
