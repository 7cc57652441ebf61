"""C38 photometry commutes with population synthesis."""
import numpy as np

from .. import gen
from ..core import C, Facet, api, close, fail, finite
from ..gen import st
from . import common as K
from .common import arr

RULE = (
    "Galaxies of every SFH kind with both metallicity models on square and non-square SSP grids, flux cubes of 12 or 40 (large: 2000) wavelengths over up to 25 decades "
    "with and without zeros, one to three (large: 20) filters inside or across an end of the spectra, redshifts 0.001-8 and cosmologies as in C13; optionally a burst mixed in. "
    "Non-trivial: at least two age bins carry weight and the templates' magnitudes differ by more than 0.01."
)
ASSUMPTIONS = ["a resolvable fraction of the mass lies inside the age grid", "filter samples do not coincide with a (redshifted) end of the spectra to 1e-9"]
TECHNIQUE = "metamorphic relation between two routes through the package: magnitude of the summed spectrum vs weighted sum of the precomputed template fluxes"
NOTE = "Random search over whole pipelines (SFH, metallicity, SED, photometry, precomputed tables); agreement to 1e-8 of the flux."

REST = "dsps.photometry:calc_rest_mag"
OBS = "dsps.photometry:calc_obs_mag"
P = "dsps.photometry.photpop:"


@st.composite
def case(draw, shp, nws=(12, 40), nf=None):
    g = draw(K.full_galaxy(shp, flux=True))
    n = draw(gen.pick(list(nws)))
    g["n_wave"] = n
    lo = draw(gen.logu(300.0, 3000.0))
    hi = lo * draw(gen.flat(10.0, 60.0))
    g["w"] = draw(gen.wave_grid(n, lo, hi))
    nf = nf or draw(gen.pick([1, 3]))
    z = draw(st.one_of(gen.logu(1e-3, 8.0), gen.flat(0.01, 4.0)))
    g["filts"] = [draw(gen.filt(lo * 1.5, hi * 0.9, n=15)) for _ in range(nf)]
    g["filts_obs"] = [draw(gen.filt(lo * 1.5 * (1 + z), hi * 0.9 * (1 + z), n=15)) for _ in range(nf)]
    if draw(st.integers(0, 3)) == 0:  # across the red end of the spectra
        for k, s in (("filts", 1.0), ("filts_obs", 1 + z)):
            g[k][0] = draw(gen.filt(hi * s * 0.7, hi * s * 1.3, n=15))
    g["z"], g["cosmo"] = z, draw(gen.cosmo())
    g["burst"] = None
    if draw(st.booleans()):
        g["burst"] = [draw(gen.flat(-4.0, -0.01)), draw(gen.flat(5.0, 8.0)), draw(gen.flat(0.5, 2.0))]
    return g


def stack(fs):
    return np.array([f["w"] for f in fs]), np.array([f["t"] for f in fs])


def near(w, fw, s):
    return np.min(np.abs(np.log(w[[0, -1]][:, None] * s / fw.reshape(1, -1)))) < 1e-9


def flux_sum(W, mags):
    """-2.5 log10 of the weighted sum of the templates' fluxes, per filter."""
    ref = np.min(mags, axis=(0, 1))
    with np.errstate(invalid="ignore"):
        f = np.where(np.isinf(mags), 0.0, 10 ** (-0.4 * (mags - ref)))
    s = np.einsum("ij,ijk->k", W, f)
    with np.errstate(divide="ignore"):
        return ref - 2.5 * np.log10(s), s


def run(g, ctx):
    c = K.conditioned(g, ctx, limit=1e6)
    if c is None:
        return
    w, flux, z, Pc = arr(g["w"]), K.cube(g), g["z"], g["cosmo"]
    fw, ft = stack(g["filts"])
    ow, ot = stack(g["filts_obs"])
    if near(w, fw, 1.0) or near(w, ow, 1 + z):
        ctx.label("edge")
        return
    R = np.asarray(C(api(P + "precompute_ssp_restmags"), w, flux, fw, ft))
    O = np.asarray(C(api(P + "precompute_ssp_obsmags_on_z_table"), w, flux, ow, ot, np.array([z]), *Pc))[0]
    KC = np.asarray(C(api(P + "precompute_ssp_restmags_z_kcorrect"), w, flux, fw, ft, 0.0))
    if np.any(np.isnan(R)) or np.any(np.isnan(O)) or np.any(np.isneginf(R)) or np.any(np.isneginf(O)):
        fail("undefined entries in the precomputed tables")
    if np.any(np.all(np.isinf(R), axis=(0, 1))) or np.any(np.all(np.isinf(O), axis=(0, 1))):
        ctx.label("dark-filter")
        return
    spread = np.ptp(R[np.isfinite(R)])
    for mod in ("mdf", "table"):
        r = K.sed(g, mod, flux)
        sed = finite(r.rest_sed, mod + " SED")
        W = np.asarray(K.ssp(g, mod).weights)
        mstar = None
        for name, mags, fws, fts, f in (
            ("rest", R, fw, ft, lambda a, b: C(api(REST), w, sed, a, b)),
            ("rest (z=0 k-correction)", KC, fw, ft, lambda a, b: C(api(REST), w, sed, a, b)),
            ("apparent", O, ow, ot, lambda a, b: C(api(OBS), w, sed, a, b, z, *Pc)),
        ):
            direct = np.array([float(f(a, b)) for a, b in zip(fws, fts)])
            summed, s = flux_sum(W, mags)
            # the flux of the SED is that of one solar mass times the stellar mass
            ok = s > 1e-9
            if not np.any(ok):
                continue
            d = (summed - direct)[ok]
            if mstar is None:
                m, rt = K.mstar_obs(g)
                mstar = 2.5 * np.log10(m)
            close(d, np.full(len(d), mstar), atol=2e-8 + 2 * rt, what=mod + " " + name + " magnitude of the composite minus that of the summed templates")
    if g["burst"] is not None:
        burst(g, w, flux, fw, ft, R)
    ctx.label("sfh:" + g["sfh_kind"], "nf:%d" % len(g["filts"]), "burst" if g["burst"] else "smooth")
    ctx.nt((c[0] > 1e-6).sum() >= 2 and spread > 0.01)


def burst(g, w, flux, fw, ft, R):
    """A burst mixed into the ages: spectrum and photometry mix with the same fractions."""
    lgf, pk, dl = g["burst"]
    smooth = np.asarray(K.age(g))
    Wz = np.asarray(K.metl(g))
    p = api("dsps.sfh.diffburst:BurstParams")(lgf, pk, pk + dl)
    mixed = finite(C(api("dsps.sfh.diffburst:calc_bursty_age_weights"), p, smooth, arr(g["lgage"])), "bursty age weights")
    pure = finite(C(api("dsps.sfh.diffburst:calc_bursty_age_weights"), api("dsps.sfh.diffburst:BurstParams")(0.0, pk, pk + dl), smooth, arr(g["lgage"])), "pure burst")
    f = 10**lgf
    seds = [np.einsum("i,j,ijk->k", Wz, a, flux) for a in (smooth, pure, mixed)]
    F = [np.array([float(C(api("dsps.photometry.photometry_kernels:calc_rest_flux"), w, s, a, b)) for a, b in zip(fw, ft)]) for s in seds]
    want = (1 - f) * F[0] + f * F[1]
    close(F[2], want, rtol=1e-9, atol=1e-11 * np.max(np.abs(want)), what="flux of the burst-mixed population")


def strat(tier, s):
    if tier == "quick":  # one compiled shape per process
        return case([gen.SHAPES[s % len(gen.SHAPES)]], [(12, 40)[s % 2]])
    return case(gen.shapes(tier, s)[s % 3 : s % 3 + 2])


LARGE = [((9, 107, 12), 40, 2), ((30, 12, 5), 2000, 2), ((6, 5, 3), 40, 20)]

FACETS = [
    Facet("pipeline", strat, run, 400, 4000, qshards=6, tshards=20, cost=3),
    Facet("pipeline-large", lambda t, s: case([LARGE[s % 3][0]], [LARGE[s % 3][1]], LARGE[s % 3][2]), run, 45, 600, qshards=3, tshards=6, cost=3),
]
