"""C05 joint SSP weights."""
import numpy as np

from .. import gen, ref
from ..core import Facet, close, fail, finite
from ..gen import st
from . import common as K

RULE = (
    "Galaxies with every SFH kind and both metallicity models on square and non-square SSP grids (large: to 1500 times, 400 ages, 22 metallicities). "
    "Non-trivial: at least two age bins and two metallicity bins carry more than 1e-6 of the weight."
)
ASSUMPTIONS = ["a resolvable fraction of the mass lies inside the age grid"]
TECHNIQUE = "structural invariants, consistency with the stand-alone calculations, reference model"
NOTE = "Random search: every cell of the joint matrix against the product of independently computed reference weights."


def joint(g, ctx):
    c = K.conditioned(g, ctx)
    if c is None:
        return
    w, tol, amp = c
    t = float(np.max(tol))
    n_met, n_age = len(g["ssp_lgmet"]), len(g["lgage"])
    a0 = finite(K.age(g), "age weights")
    cols, mtol = K.met_cols_tol(g)
    for m in ("mdf", "table"):
        r = K.ssp(g, m)
        W = finite(r.weights, m + " weights")
        aw = close(r.age_weights, a0, atol=2 * t, what=m + " age weights (returned alongside)")
        lw = finite(r.lgmet_weights, m + " metallicity weights")
        if W.shape != (n_met, n_age):
            fail("{0} weights have shape {1}, expected {2}", m, W.shape, (n_met, n_age))
        if m == "mdf":
            close(lw, finite(K.metl(g)), atol=1e-12, what=m + " metallicity weights (returned alongside)")
            P = lw[:, None] * aw[None, :]
            mr = ref.met_weights(g["lgmet"], g["scatter"], g["ssp_lgmet"])
            want = mr[:, None] * w[None, :]
            close(W.sum(axis=1), lw, atol=1e-11 + t * n_age, what="marginal over age")
        else:
            close(lw, finite(K.mett(g)), atol=2 * mtol, what=m + " metallicity weights (returned alongside)")
            P = lw * aw[None, :]
            want = cols * n_age * w[None, :]
        close(W, P / P.sum(), rtol=1e-11, atol=1e-15, what=m + " joint weights (product of returned factors)")
        close(W, want / want.sum(), atol=1e-11 + 3 * t + 3 * mtol * n_age, what=m + " joint weights")
        close(W.sum(axis=0), aw, atol=1e-11 + t * n_age, what=m + " marginal over metallicity")
        if abs(W.sum() - 1) > 1e-11:
            fail("{0} joint weights sum to {1!r}", m, float(W.sum()))
        if np.any(W < -t):
            fail("{0} negative joint weight {1!r}", m, float(W.min()))
    mr = ref.met_weights(g["lgmet"], g["scatter"], g["ssp_lgmet"])
    ctx.label("sfh:" + g["sfh_kind"], "met:" + g["met_kind"], "square" if n_met == n_age else "non-square")
    ctx.nt((w > 1e-6).sum() >= 2 and ((mr > 1e-6).sum() >= 2 or (cols.sum(axis=1) > 1e-6).sum() >= 2))


SH = [(6, 5, 3), (9, 4, 4), (13, 3, 8), (30, 12, 5), (20, 6, 6)]
FACETS = [
    Facet("joint", lambda t, s: K.full_galaxy(SH if t == "quick" else gen.shapes(t, s)), joint, 400, 5000, qshards=7, tshards=24),
    Facet("large", lambda t, s: K.full_galaxy(gen.large(s)), joint, 90, 1000, qshards=3, tshards=6),
]
