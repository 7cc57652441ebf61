"""C03 lognormal metallicity weights."""
import numpy as np

from .. import gen, ref
from ..core import C, Facet, api, close, fail, finite
from ..gen import st
from . import common as K

RULE = (
    "Ascending log-metallicity grids of 3-22 (large: 60, 300) points (uniform or with spacings within a factor 4), galaxy metallicities "
    "inside, at a grid point, just outside or up to 40 dex outside the grid, scatters from 1e-6 to 10 dex. Non-trivial: at least two "
    "templates get more than 1e-6 of the weight, or the galaxy is beyond every bin."
)
ASSUMPTIONS = [
    "metallicity bins are the library's: outermost edges at +-10, interior edges x_i-(x_{i+1}-x_{i-1})/4 (last bin: half a spacing below)",
    "grids whose bin edges ascend (see known findings)",
]
TECHNIQUE = "reference model, numerical quadrature of the kernel, invariants"
NOTE = (
    "Random search: weights compared with an independently integrated triweight, also by direct quadrature of the density; "
    "support, normalisation and out-of-range behaviour asserted. Assumes numpy/scipy and the documented bin convention."
)


@st.composite
def case(draw, tier, shard, ns=None):
    ns = ns or ([3, 4, 5, 7, 12] if tier == "quick" else [3, 4, 6, 10, 22, 9 + shard % 8])
    lgmet = draw(gen.lgmet_grid(draw(gen.pick(ns))))
    k = draw(gen.pick(["in", "in", "point", "near", "far-lo", "far-hi", "mid"]))
    lo, hi = lgmet[0], lgmet[-1]
    sc = draw(st.one_of(gen.logu(1e-6, 10.0), gen.uni(0.01, 0.6), gen.uni(0.05, 3.0)))
    if k == "in":
        x = draw(gen.uni(lo, hi))
    elif k == "point":
        x = lgmet[draw(st.integers(0, len(lgmet) - 1))]
    elif k == "mid":
        i = draw(st.integers(1, len(lgmet) - 1))
        x = float(ref.interior_edges(lgmet)[i - 1])
    elif k == "near":
        x = draw(gen.uni(lo - 2.0, hi + 2.0))
    elif k == "far-lo":
        x = -10.0 - draw(gen.uni(0.0, 30.0))
    else:
        x = 10.0 + draw(gen.uni(0.0, 30.0))
    return dict(ssp_lgmet=lgmet, lgmet=float(x), scatter=float(sc), kind=k)


def reference(c, ctx):
    edges = ref.met_edges(c["ssp_lgmet"])
    got = C(api(K.METL), c["lgmet"], c["scatter"], K.arr(c["ssp_lgmet"]))
    x, s = c["lgmet"], c["scatter"]
    m = ref.tw_cdf(edges[-1], x, s) - ref.tw_cdf(edges[0], x, s)
    ctx.label("met:" + c["kind"], "scatter:%s" % ("narrow" if s < 0.05 else "mid" if s < 1 else "wide"))
    if 0 < m < 1e-10 or (m == 0 and min(abs(x - 3 * s - 10), abs(x + 3 * s + 10)) < 1e-6 * s):
        ctx.label("grazing")  # the kernel barely touches the outermost bin
        return
    want = ref.met_weights(x, s, c["ssp_lgmet"])
    finite(got, "metallicity weights")
    tol = (1e-13 + 5e-15 / s) / (m if m > 0 else 1.0)
    got = close(got, want, atol=tol, what="metallicity weights")
    if np.any(got < -tol):
        fail("negative metallicity weight {0!r}", float(got.min()))
    if abs(float(got.sum()) - 1) > 1e-9:
        fail("metallicity weights sum to {0!r}", float(got.sum()))
    out = (edges[1:] < x - 3 * s - 1e-9) | (edges[:-1] > x + 3 * s + 1e-9)
    if m > 0 and np.any(np.abs(got[out]) > tol):
        fail("weight outside three scatters of the galaxy metallicity")
    if m == 0:
        ctx.label("beyond-all-bins")
        i = 0 if x < 0 else len(got) - 1
        if got[i] != 1.0:
            fail("galaxy beyond every bin: weight of the outermost template is {0!r}", float(got[i]))
    ctx.nt(m == 0 or (want > 1e-6).sum() >= 2)


@st.composite
def quad_case(draw):
    lgmet = draw(gen.lgmet_grid(draw(gen.pick([4, 8]))))
    return dict(ssp_lgmet=lgmet, lgmet=draw(gen.uni(lgmet[0] - 0.5, lgmet[-1] + 0.5)), scatter=draw(gen.uni(0.05, 1.0)))


def quadrature(c, ctx):
    """Direct midpoint quadrature of the density over each bin: independent of the CDF."""
    e = ref.met_edges(c["ssp_lgmet"])
    x, s = c["lgmet"], c["scatter"]
    n = 6000
    lo, hi = max(e[0], x - 3 * s), min(e[-1], x + 3 * s)
    g = lo + (hi - lo) * (np.arange(n) + 0.5) / n
    u = (g - x) / (3 * s)
    p = (1 - u**2) ** 3
    w = np.histogram(g, bins=e, weights=p)[0]
    w = w / w.sum()
    got = finite(C(api(K.METL), x, s, K.arr(c["ssp_lgmet"])), "metallicity weights")
    close(got, w, atol=1e-3, what="metallicity weights (quadrature)")
    ctx.nt((w > 1e-2).sum() >= 2)


@st.composite
def shift_case(draw):
    c = draw(quad_case())
    c["shift"] = draw(gen.uni(-1.0, 1.0))
    return c


def shift(c, ctx):
    """Moving grid and galaxy together changes nothing (away from the far outer edges)."""
    s = min(c["scatter"], 0.9)
    f = api(K.METL)
    a = finite(C(f, c["lgmet"], s, K.arr(c["ssp_lgmet"])))
    b = C(f, c["lgmet"] + c["shift"], s, K.arr(c["ssp_lgmet"]) + c["shift"])
    close(b, a, atol=1e-11, what="weights of the shifted grid")
    r = C(f, -c["lgmet"], s, -K.arr(c["ssp_lgmet"])[::-1])
    if np.allclose(np.diff(c["ssp_lgmet"]), np.diff(c["ssp_lgmet"])[0], rtol=1e-9):
        ctx.label("mirrored")
        close(np.asarray(r)[::-1], a, atol=1e-9, what="weights of the mirrored grid")
    ctx.nt(abs(c["shift"]) > 0.01 and (a > 1e-6).sum() >= 2)


FACETS = [
    Facet("reference", case, reference, 2500, 30000, qshards=4, tshards=12),
    Facet("large", lambda t, s: case(t, s, [22, 60, 300]), reference, 300, 3000, qshards=1, tshards=3),
    Facet("quadrature", lambda t, s: quad_case(), quadrature, 1200, 10000, qshards=2, tshards=4),
    Facet("shift", lambda t, s: shift_case(), shift, 1200, 10000, qshards=2, tshards=4),
]
