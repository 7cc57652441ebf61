"""C06 composite SED."""
import numpy as np

from .. import gen, ref
from ..core import Facet, close, fail, finite
from ..gen import st
from . import common as K

RULE = (
    "Galaxies of every SFH kind, both metallicity models, flux cubes with 1 or 7 wavelengths (large: to 1500 times, 400 ages, 22 metallicities; wide: thousands of wavelengths), up to 4 decades of contrast and "
    "zeros. Non-trivial: at least two age bins carry weight and the flux cube varies from cell to cell."
)
ASSUMPTIONS = ["a resolvable fraction of the mass lies inside the age grid"]
TECHNIQUE = "reference model plus linearity, proportionality and wavelength-independence relations"
NOTE = "Random search: SED against reference mass times the weighted sum with the stand-alone and with the independently computed weights."


def reference(g, ctx):
    c = K.conditioned(g, ctx)
    if c is None:
        return
    w, tol, amp = c
    t = float(np.max(tol))
    flux = K.cube(g)
    m, rt = K.mstar_obs(g)
    n_age = len(g["lgage"])
    cols, mtol = K.met_cols_tol(g)
    for mod in ("mdf", "table"):
        r = K.sed(g, mod, flux)
        s = K.ssp(g, mod)
        W = finite(s.weights)
        close(r.weights, W.reshape(np.shape(r.weights)) if np.size(r.weights) == W.size else W, atol=2 * t, what=mod + " weights")
        close(r.age_weights, s.age_weights, atol=2 * t, what=mod + " age weights")
        close(r.lgmet_weights, s.lgmet_weights, atol=2 * mtol, what=mod + " metallicity weights")
        x = finite(r.rest_sed, mod + " SED")
        want = m * np.einsum("ij,ijk->k", W, flux)
        close(x, want, rtol=1e-11 + 2 * rt, atol=m * flux.max() * 1e-13 + 1e-300, what=mod + " SED (returned weights)")
        if mod == "mdf":
            R = ref.met_weights(g["lgmet"], g["scatter"], g["ssp_lgmet"])[:, None] * w[None, :]
        else:
            R = cols * n_age * w[None, :]
        close(
            x, m * np.einsum("ij,ijk->k", R, flux), rtol=1e-11 + 2 * rt,
            atol=m * flux.max() * (1e-11 + 3 * t * n_age + 3 * mtol * n_age**2) + 1e-300, what=mod + " SED",
        )
    ctx.label("sfh:" + g["sfh_kind"], "tobs:" + g["t_obs_kind"], "n_wave:%d" % g["n_wave"])
    ctx.nt((w > 1e-6).sum() >= 2 and g["flux"]["dex"] > 0.01)


@st.composite
def lin_case(draw, shp):
    g = draw(K.full_galaxy(shp, ["knots", "exp", "const"], flux=True))
    g["n_wave"] = 7
    g["flux2"] = draw(gen.flux_spec)
    g["a"], g["b"] = draw(gen.flat(-3, 3)), draw(gen.flat(-3, 3))
    g["k"] = draw(gen.logu(1e-2, 1e4))
    g["perm"] = draw(st.permutations(list(range(7))))
    g["cell"] = [draw(st.integers(0, len(g["ssp_lgmet"]) - 1)), draw(st.integers(0, len(g["lgage"]) - 1))]
    return g


def relations(g, ctx):
    c = K.conditioned(g, ctx)
    if c is None or min(g["sfr"]) < 1e-9:
        return
    w, tol, amp = c
    t = float(np.max(tol))
    f1 = K.cube(g)
    f2 = gen.flux_cube(g["flux2"], f1.shape[0], f1.shape[1], 7)
    m, rt = K.mstar_obs(g)
    n_age = len(g["lgage"])
    for mod in ("mdf", "table"):
        x1 = finite(K.sed(g, mod, f1).rest_sed)
        x2 = finite(K.sed(g, mod, f2).rest_sed)
        x3 = K.sed(g, mod, g["a"] * f1 + g["b"] * f2).rest_sed
        sc = np.abs(g["a"]) * x1 + np.abs(g["b"]) * x2
        close(x3, g["a"] * x1 + g["b"] * x2, atol=1e-11 * sc + 1e-300, what=mod + " SED of a combination of flux cubes")
        p = g["perm"]
        close(K.sed(g, mod, f1[:, :, p]).rest_sed, x1[p], rtol=1e-12, what=mod + " SED with permuted wavelengths")
        h = dict(g)
        h["sfr"] = [x * g["k"] for x in g["sfr"]]
        pre = 1e-14 * max(1.0, 1 / g["k"]) / min(g["sfr"])
        atol = g["k"] * m * f1.max() * n_age * (1e-11 + 4 * t + 8 * amp * pre)
        close(K.sed(h, mod, f1).rest_sed, g["k"] * x1, rtol=1e-10 + 4 * rt, atol=atol, what=mod + " SED of the scaled history")
        one = np.zeros_like(f1)
        i, j = g["cell"]
        one[i, j, :] = 1.0
        W = finite(K.ssp(g, mod).weights)
        close(K.sed(g, mod, one).rest_sed, np.full(7, m * W[i, j]), rtol=1e-10 + 2 * rt, atol=m * 3 * t, what=mod + " SED of a one-cell flux cube")
    ctx.label("sfh:" + g["sfh_kind"])
    ctx.nt((w > 1e-6).sum() >= 2)


@st.composite
def wide_case(draw):
    n_wave, shp = draw(gen.pick([(300, (30, 12, 5)), (1000, (100, 107, 12)), (4096, (13, 8, 3)), (5994, (6, 5, 3)), (8193, (13, 8, 3)), (20011, (6, 5, 3)), (70000, (2, 3, 4))]))
    g = draw(K.full_galaxy([shp], ["knots", "exp", "const", "quench"], flux=True))
    g["n_wave"] = n_wave
    g["slope"] = draw(gen.flat(-6, 6))
    return g


def wide(g, ctx):
    """Spectra and grids of the size of real SSP libraries: the sum over templates at every wavelength."""
    c = K.conditioned(g, ctx)
    if c is None:
        return
    flux = K.cube(g) * np.logspace(0, g["slope"], g["n_wave"])
    m, rt = K.mstar_obs(g)
    for mod in ("mdf", "table"):
        r = K.sed(g, mod, flux)
        W = finite(r.weights).reshape(flux.shape[:2])
        close(W, finite(K.ssp(g, mod).weights).reshape(W.shape), atol=1e-11 + 2 * float(np.max(c[1])), what=mod + " weights")
        want = m * np.tensordot(W, flux, 2)
        pos = m * np.tensordot(np.abs(W), flux, 2)
        close(r.rest_sed, want, rtol=2 * rt, atol=1e-12 * pos + 1e-300, what=mod + " SED of a wide spectrum")
    ctx.label("n_wave:%d" % g["n_wave"])
    ctx.nt((c[0] > 1e-6).sum() >= 2)


SH = [(6, 5, 3), (2, 3, 4), (13, 8, 3), (30, 12, 5)]
FACETS = [
    Facet("reference", lambda t, s: K.full_galaxy(SH if t == "quick" else gen.shapes(t, s), flux=True), reference, 350, 4000, qshards=5, tshards=20),
    Facet("large", lambda t, s: K.full_galaxy(gen.large(s), flux=True), reference, 90, 1000, qshards=3, tshards=6),
    Facet("relations", lambda t, s: lin_case(SH[:3] if t == "quick" else gen.shapes(t, s)), relations, 250, 3000, qshards=3, tshards=12),
    Facet("wide", lambda t, s: wide_case(), wide, 120, 600, qshards=3, tshards=6),
]
