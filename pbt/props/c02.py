"""C02 causality."""
import bisect

import numpy as np

from .. import gen, ref
from ..core import Facet, close, finite
from ..gen import st
from . import common as K

RULE = (
    "Pairs of histories that agree up to and including the first table time at or beyond the observation time "
    "and are replaced (SFR and metallicity), truncated or extended after it; both metallicity models, all SSP grids (large: tables to 1500 and age grids to 400 points). "
    "Non-trivial: at least one later table entry differs (or was cut/added) and at least two age bins hold weight."
)
ASSUMPTIONS = ["observations for which a resolvable fraction of the mass lies inside the age grid"]
TECHNIQUE = "metamorphic relation over pairs of histories sharing a past"
NOTE = (
    "Random search over pairs of histories; equality is up to rounding (tolerance from the conditioning of the weights). "
    "The replaced future reaches 1e8 times the past rates, so any leak beyond rounding shows."
)


@st.composite
def pair(draw, shp, how):
    g = draw(K.full_galaxy(shp, flux=True))
    n = len(g["t"])
    k = bisect.bisect_left(g["t"], g["t_obs"])
    if k >= n - 1:
        # move the observation into the table so that there is a future
        j = draw(st.integers(1, max(1, n - 2)))
        lo, _ = gen.t_obs_bounds(g["t"], g["lgage"])
        v = max(lo, g["t"][j] * draw(gen.pick([1.0, 1.0, 0.999])))
        g["t_obs"] = float(min(v, g["t"][-1]))
        g["t_obs_kind"] = "moved"
        k = bisect.bisect_left(g["t"], g["t_obs"])
    g["k"] = k
    if how == "replace":
        g["future_sfr"] = [draw(st.one_of(st.just(0.0), gen.logu(1e-12, 1e8))) for _ in range(n - 1 - k)] if n - 1 - k <= 8 else [
            float(10**x) for x in gen.hashed(draw(st.integers(0, 1 << 16)), (n - 1 - k,), -12, 8)
        ]
        g["future_met"] = draw(gen.fvec(-6.0, 2.0, n - 1 - k)) if n - 1 - k else []
    elif how == "extend":
        m = 2
        steps = draw(gen.vec(gen.flat(0.05, 3.0), m))
        t, out = g["t"][-1], []
        for s in steps:
            t += s
            out.append(float(t))
        g["more_t"] = out
        g["more_sfr"] = draw(gen.vec(gen.logu(1e-10, 1e6), m))
        g["more_met"] = draw(gen.vec(gen.flat(-6.0, 2.0), m))
    return g


def outputs(g):
    flux = K.cube(g)
    out = dict(age=K.age(g), mett=K.mett(g))
    for m in ("mdf", "table"):
        out["ssp-" + m] = K.ssp(g, m).weights
        out["sed-" + m] = K.sed(g, m, flux).rest_sed
    return out


def compare(g, h, ctx):
    c = K.conditioned(g, ctx)
    if c is None:
        return False
    w, tol, amp = c
    a, b = outputs(g), outputs(h)
    _, mtol = K.met_cols_tol(g)
    _, rt = K.mstar_obs(g)
    t = 2 * float(np.max(tol))
    close(b["age"], finite(a["age"], "age weights"), atol=t, what="age weights")
    close(b["mett"], finite(a["mett"], "metallicity weights"), atol=2 * mtol, what="metallicity weights")
    for m in ("mdf", "table"):
        close(b["ssp-" + m], finite(a["ssp-" + m]), atol=t + 2 * mtol * len(g["lgage"]), what="joint weights " + m)
        x = finite(a["sed-" + m], "SED " + m)
        scale = float(np.max(np.abs(K.cube(g)))) * K.mstar_obs(g)[0]
        close(b["sed-" + m], x, rtol=2 * rt, atol=scale * (t * len(g["lgage"]) + 4 * mtol * len(g["lgage"]) ** 2) + 1e-300, what="SED " + m)
    return int((w > 1e-6).sum()) >= 2


def replace(g, ctx):
    k, n = g["k"], len(g["t"])
    h = dict(g)
    h["sfr"] = g["sfr"][: k + 1] + g["future_sfr"]
    h["met_table"] = g["met_table"][: k + 1] + g["future_met"]
    ok = compare(g, h, ctx)
    ctx.label("future:%s" % ("none" if k >= n - 1 else "one" if k == n - 2 else "many"), "tobs:" + g["t_obs_kind"])
    ctx.nt(ok and k < n - 1)


def truncate(g, ctx):
    k, n = g["k"], len(g["t"])
    if k >= n or k < 1:
        ctx.label("nothing-to-cut")
        return
    h = dict(g)
    for x in ("t", "sfr", "met_table"):
        h[x] = g[x][: k + 1]
    ok = compare(g, h, ctx)
    ctx.label("cut:%d" % (n - 1 - k))
    ctx.nt(ok and k < n - 1)


def extend(g, ctx):
    if g["k"] >= len(g["t"]):
        ctx.label("beyond")  # the last interval of the table is still open at t_obs
        return
    h = dict(g)
    h["t"] = g["t"] + g["more_t"]
    h["sfr"] = g["sfr"] + g["more_sfr"]
    h["met_table"] = g["met_table"] + g["more_met"]
    ctx.nt(compare(g, h, ctx))


SH = [(6, 5, 3), (13, 8, 3), (30, 12, 5), (3, 3, 4)]
FACETS = [
    Facet("replace", lambda tier, sh: pair(SH if tier == "quick" else gen.shapes(tier, sh), "replace"), replace, 300, 4000, qshards=4, tshards=16),
    Facet("large", lambda tier, sh: pair(gen.large(sh), "replace"), replace, 90, 1000, qshards=3, tshards=6),
    Facet("truncate", lambda tier, sh: pair([(6, 5, 3)] if sh % 2 == 0 else [(5, 4, 4)], "cut"), truncate, 300, 4000, qshards=2, tshards=4),
    Facet("extend", lambda tier, sh: pair([(6, 5, 3), (9, 4, 4)], "extend"), extend, 300, 4000, qshards=1, tshards=4),
]
