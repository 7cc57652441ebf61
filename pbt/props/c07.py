"""C07 floor on the star-formation rate."""
import numpy as np

from .. import gen, ref
from ..core import Facet, close, fail, finite
from ..gen import st
from . import common as K

RULE = (
    "Histories mixing zeros and rates below, at and above a floor drawn from 1e-16 to 10 Msun/yr (and the default floor); large: to 1500 times and 400 ages. "
    "Non-trivial: at least one rate is below the floor."
)
ASSUMPTIONS = ["a resolvable fraction of the mass lies inside the age grid"]
TECHNIQUE = "metamorphic relation (pre-floored history) and reference model"
NOTE = "Random search over histories and floors for the age weights and both composite SEDs."


@st.composite
def case(draw, shp):
    g = draw(K.full_galaxy(shp, flux=True))
    fl = draw(st.one_of(gen.logu(1e-16, 10.0), st.just(1e-14)))
    s = list(g["sfr"])
    n = len(s)
    if n <= 13:
        mask = draw(gen.vec(gen.pick([0, 0, 1, 2, 3]), n))
    else:
        mask = [int(x) for x in gen.hashed(draw(st.integers(0, 1 << 16)), (n,), 0, 5)]
    f = draw(gen.uni(0.0, 1.0))
    for i, m in enumerate(mask):
        if m == 1:
            s[i] = fl * f
        elif m == 2:
            s[i] = 0.0
        elif m == 3:
            s[i] = fl
    g["sfr"], g["sfr_min"] = s, float(fl)
    return g


TINY = 1e-60


def floored(g, ctx):
    c = K.conditioned(g, ctx, sfr_min=g["sfr_min"])
    if c is None:
        return
    w, tol, amp = c
    t = float(np.max(tol))
    h = dict(g)
    h["sfr"] = [max(x, g["sfr_min"]) for x in g["sfr"]]
    a = finite(K.age(g, sfr_min=g["sfr_min"]), "age weights")
    close(a, w, atol=tol, what="age weights with a floor")
    close(a, finite(K.age(h, sfr_min=TINY)), atol=2 * t, what="age weights with a floor vs floored history")
    flux = K.cube(g)
    m, rt = K.mstar_obs(g, g["sfr_min"])
    n_age = len(g["lgage"])
    for mod in ("mdf", "table"):
        x = K.sed(g, mod, flux, sfr_min=g["sfr_min"])
        y = K.sed(h, mod, flux, sfr_min=TINY)
        _, mtol = K.met_cols_tol(g)
        at = m * flux.max() * (1e-12 + 3 * t * n_age + 3 * mtol * n_age**2) + 1e-300
        close(finite(x.rest_sed, "SED"), finite(y.rest_sed, "SED"), rtol=1e-11 + 2 * rt, atol=at, what=mod + " SED with a floor vs floored history")
        close(x.age_weights, w, atol=tol, what=mod + " age weights of the SED with a floor")
        want = m * np.einsum("ij,ijk->k", np.asarray(x.weights).reshape(flux.shape[:2]), flux)
        close(x.rest_sed, want, rtol=1e-11 + 2 * rt, atol=at, what=mod + " SED with a floor")
    below = sum(1 for x in g["sfr"] if x < g["sfr_min"])
    ctx.label("below:%s" % ("all" if below == len(g["sfr"]) else "some" if below else "none"), "sfh:" + g["sfh_kind"])
    ctx.nt(below > 0)


def default_floor(g, ctx):
    """Zeros with the default floor: finite weights and SEDs, same as the explicit default."""
    c = K.conditioned(g, ctx)
    if c is None:
        return
    w, tol, amp = c
    flux = K.cube(g)
    close(finite(K.age(g), "age weights"), w, atol=tol, what="age weights")
    for mod in ("mdf", "table"):
        x = finite(K.sed(g, mod, flux).rest_sed, mod + " SED")
        finite(K.ssp(g, mod).weights, mod + " weights")
        y = K.sed(g, mod, flux, sfr_min=1e-14).rest_sed
        close(x, y, rtol=1e-12, atol=1e-300, what=mod + " SED with the default floor given explicitly")
    z = sum(1 for x in g["sfr"] if x == 0)
    ctx.label("zeros:%s" % ("all" if z == len(g["sfr"]) else "some" if z else "none"))
    ctx.nt(z > 0)


SH = [(6, 5, 3), (2, 3, 4), (13, 8, 3), (30, 12, 5)]
ZK = ["zeros", "allzero", "quench", "burst", "late"]
FACETS = [
    Facet("floored", lambda t, s: case(SH if t == "quick" else gen.shapes(t, s)), floored, 350, 4000, qshards=5, tshards=20),
    Facet("large", lambda t, s: case(gen.large(s)), floored, 90, 1000, qshards=3, tshards=6),
    Facet("default-floor", lambda t, s: K.full_galaxy(SH if t == "quick" else gen.shapes(t, s), ZK, flux=True), default_floor, 350, 4000, qshards=3, tshards=12),
]
