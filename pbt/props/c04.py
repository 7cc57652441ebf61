"""C04 metallicity-history weights."""
import numpy as np

from .. import gen, ref
from ..core import C, Facet, api, close, fail, finite
from ..gen import st
from . import common as K

RULE = (
    "Galaxies with random, constant, rising and step metallicity histories tabulated on linear, log or random times; "
    "SSP age grids reaching beyond the age of the universe; observation inside, at a knot of and beyond the table; large: tables to 1500 and age grids to 400 points. "
    "Non-trivial: the populations were born at two or more metallicities differing by more than 1e-3 dex."
)
ASSUMPTIONS = ["metallicity bins as in C03", "metallicities within the +-10 dex bins"]
TECHNIQUE = "reference model plus consistency with the single-metallicity model"
NOTE = (
    "Random search: the whole matrix is compared with an independent reference; columns must carry equal weight and equal "
    "the single-metallicity weights at the (independently interpolated) birth metallicity."
)


def reference(g, ctx):
    got = finite(K.mett(g), "metallicity weight matrix")
    want, tol = K.met_cols_tol(g)
    got = close(got, want, atol=tol, what="metallicity weight matrix")
    n = len(g["lgage"])
    if np.any(got < -tol):
        fail("negative weight {0!r}", float(got.min()))
    close(got.sum(axis=0), np.full(n, 1.0 / n), atol=1e-11, what="column totals")
    if abs(got.sum() - 1) > 1e-10:
        fail("matrix sums to {0!r}", float(got.sum()))
    z = ref.lgmet_at_birth(g["t"], g["met_table"], g["lgage"], g["t_obs"])
    tb = ref.birth_times(g["t_obs"], g["lgage"])
    if np.any(tb <= ref.T_BIRTH_MIN):
        ctx.label("older-than-universe")
    if np.any(tb < g["t"][0]):
        ctx.label("born-before-table")
    if np.any(tb > g["t"][-1]):
        ctx.label("born-after-table")
    ctx.label("met:" + g["met_kind"], "tobs:" + g["t_obs_kind"])
    ctx.nt(np.ptp(z) > 1e-3)


def columns(g, ctx):
    """Each column is the single-metallicity answer at the birth metallicity."""
    got = finite(K.mett(g), "metallicity weight matrix")
    _, tol = K.met_cols_tol(g)
    z = ref.lgmet_at_birth(g["t"], g["met_table"], g["lgage"], g["t_obs"])
    n = len(g["lgage"])
    f = api(K.METL)
    for j in (0, n // 2, n - 1):
        w = finite(C(f, float(z[j]), g["scatter"], K.arr(g["ssp_lgmet"])))
        close(got[:, j] * n, w, atol=2 * tol * n, what="column %d" % j)
    if g["met_kind"] == "const":
        w = finite(C(f, g["met_table"][0], g["scatter"], K.arr(g["ssp_lgmet"])))
        close(got * n, np.repeat(w[:, None], n, axis=1), atol=2 * tol * n, what="columns of a constant history")
    ctx.label("met:" + g["met_kind"])
    ctx.nt(np.ptp(z) > 1e-3 or g["met_kind"] == "const")


FACETS = [
    Facet("reference", lambda t, s: K.full_galaxy(gen.shapes(t, s), ["const"]), reference, 700, 8000, qshards=5, tshards=20),
    Facet("large", lambda t, s: K.full_galaxy(gen.large(s), ["const"]), reference, 90, 1000, qshards=3, tshards=6),
    Facet("columns", lambda t, s: K.full_galaxy(gen.shapes(t, s), ["const"]), columns, 600, 6000, qshards=3, tshards=12),
]
