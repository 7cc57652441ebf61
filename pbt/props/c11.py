"""C11 precomputed magnitude tables."""
import numpy as np

from .. import gen, ref
from ..core import C, Facet, api, close, fail, finite
from ..gen import st
from .common import arr

RULE = (
    "Flux cubes of distinct spectra with pairwise different numbers of metallicities, ages, filters and redshifts (including 1; large: to 40 metallicities or redshifts, 70 ages, 30 filters, 3000 wavelengths), "
    "filters of different ranges and shapes. Non-trivial: at least two filters and at least two spectra with distinct magnitudes."
)
ASSUMPTIONS = ["filters overlap the (redshifted) spectra; end points do not coincide to 1e-9"]
TECHNIQUE = "differential: every table entry against the single-spectrum calculation and a reference; permutation and subset relations"
NOTE = "Random search; exact entry-by-entry comparison (1e-9 mag)."

P_OBS = "dsps.photometry.photpop:precompute_ssp_obsmags_on_z_table"
P_REST = "dsps.photometry.photpop:precompute_ssp_restmags"
P_KC = "dsps.photometry.photpop:precompute_ssp_restmags_z_kcorrect"

SH = [(2, 3, 4, 12), (3, 1, 2, 20), (1, 4, 3, 12), (4, 2, 1, 20), (2, 2, 2, 12), (3, 5, 2, 20)]
MORE = [(5, 3, 4, 30), (7, 2, 6, 12), (2, 11, 3, 25), (1, 1, 1, 12), (6, 6, 6, 20), (12, 4, 2, 15)]


# n_met, n_age, filters, wavelengths, redshifts, samples per filter
LARGE = [(1, 2, 2, 12, 40, 6), (1, 2, 30, 12, 1, 6), (2, 70, 2, 12, 1, 6), (40, 2, 2, 12, 2, 6), (1, 1, 2, 3000, 2, 600), (2, 2, 8, 20, 9, 130)]


@st.composite
def case(draw, shp, big=None):
    n_met, n_age, n_f, nw = big[:4] if big else draw(gen.pick(shp))
    lo = draw(gen.logu(500.0, 2000.0))
    w = draw(gen.wave_grid(nw, lo, lo * draw(gen.uni(20.0, 60.0))))
    nfw = big[5] if big else draw(gen.pick([6, 15]))
    filts = [draw(gen.filt(lo * 5.0, lo * 18.0, n=nfw)) for _ in range(n_f)]
    nz = big[4] if big else draw(gen.pick([1, 3]))
    zs = sorted(draw(gen.vec(gen.uni(0.01, 4.0), nz)))
    return dict(
        n_met=n_met, n_age=n_age, w=w, filts=filts, zs=[float(z) for z in zs], cosmo=draw(gen.cosmo()),
        flux=draw(gen.flux_spec), zk=draw(gen.uni(0.0, 3.0)), i=draw(st.integers(0, 1 << 20)), perm=draw(st.permutations(list(range(n_f)))),
    )


def build(c):
    spec = dict(c["flux"])
    spec["zero"] = 0.0
    spec["dex"] = max(0.5, spec["dex"])
    F = gen.flux_cube(spec, c["n_met"], c["n_age"], len(c["w"]))
    fw = np.array([f["w"] for f in c["filts"]])
    ft = np.array([f["t"] for f in c["filts"]])
    return arr(c["w"]), F, fw, ft


def near_edge(w, fw, zs):
    return any(np.min(np.abs(np.log(w[[0, -1]][:, None] * (1 + z) / fw.reshape(1, -1)))) < 1e-9 for z in zs)


def want_mags(w, F, fw, ft, z):
    out = np.empty(F.shape[:2] + (len(fw),))
    for i in range(F.shape[0]):
        for j in range(F.shape[1]):
            for k in range(len(fw)):
                out[i, j, k] = -2.5 * np.log10(ref.ab_flux(w, F[i, j], fw[k], ft[k], z))
    return out


def tables(c, ctx):
    w, F, fw, ft = build(c)
    zs, P = arr(c["zs"]), c["cosmo"]
    if near_edge(w, fw, list(zs) + [0.0, c["zk"]]):
        ctx.label("edge")
        return
    nm, na, nf, nz = F.shape[0], F.shape[1], len(fw), len(zs)
    R = finite(C(api(P_REST), w, F, fw, ft), "rest magnitude table")
    O = finite(C(api(P_OBS), w, F, fw, ft, zs, *P), "apparent magnitude table")
    KC = finite(C(api(P_KC), w, F, fw, ft, c["zk"]), "k-corrected magnitude table")
    if R.shape != (nm, na, nf) or O.shape != (nz, nm, na, nf) or KC.shape != (nm, na, nf):
        fail("table shapes {0}, {1}, {2}", R.shape, O.shape, KC.shape)
    close(R, want_mags(w, F, fw, ft, 0.0), atol=3e-4, what="rest magnitude table")
    close(KC, want_mags(w, F, fw, ft, c["zk"]), atol=3e-4, what="k-corrected magnitude table")
    for iz, z in enumerate(zs):
        mu = 5 * np.log10(ref.comoving_distance(float(z), *P) * (1 + z) * 1e5)
        close(O[iz], want_mags(w, F, fw, ft, z) + mu - 2.5 * np.log10(1 + z), atol=7e-3 if gen.exotic(P) else 3.5e-3, what="apparent magnitude table at z=%g" % z)
    # single-spectrum calculations, a few entries
    for q in range(4):
        r = c["i"] + q * 7919
        i, j, k, iz = r % nm, (r // 3) % na, (r // 5) % nf, (r // 7) % nz
        close(R[i, j, k], C(api("dsps.photometry:calc_rest_mag"), w, F[i, j], fw[k], ft[k]), atol=1e-9, what="rest table entry [%d,%d,%d]" % (i, j, k))
        close(O[iz, i, j, k], C(api("dsps.photometry:calc_obs_mag"), w, F[i, j], fw[k], ft[k], float(zs[iz]), *P), atol=1e-9, what="apparent table entry [%d,%d,%d,%d]" % (iz, i, j, k))
        close(KC[i, j, k], C(api("dsps.photometry:calc_rest_mag"), w, F[i, j], fw[k] / (1 + c["zk"]), ft[k]), atol=1e-7, what="k-corrected entry [%d,%d,%d]" % (i, j, k))
    # reordering filters, spectra and redshifts permutes the entries
    p = np.array(c["perm"])
    close(C(api(P_REST), w, F[::-1], fw[p], ft[p]), R[::-1][:, :, p], atol=1e-9, what="reordered rest table")
    close(C(api(P_OBS), w, F[:, ::-1], fw[p], ft[p], zs[::-1], *P), O[::-1][:, :, ::-1][..., p], atol=1e-9, what="reordered apparent table")
    close(C(api(P_KC), w, F[::-1], fw[p], ft[p], c["zk"]), KC[::-1][:, :, p], atol=1e-9, what="reordered k-corrected table")
    ctx.label("shape:%dx%dx%dx%d" % (nz, nm, na, nf))
    ctx.nt(nf >= 2 and nm * na >= 2 and np.ptp(R) > 1e-3)


def subset(c, ctx):
    """Dropping spectra, filters or redshifts leaves the other entries alone."""
    w, F, fw, ft = build(c)
    zs, P = arr(c["zs"]), c["cosmo"]
    if near_edge(w, fw, list(zs) + [0.0, c["zk"]]):
        return
    R = finite(C(api(P_REST), w, F, fw, ft))
    O = finite(C(api(P_OBS), w, F, fw, ft, zs, *P))
    KC = finite(C(api(P_KC), w, F, fw, ft, c["zk"]))
    i, k, z = c["i"] % F.shape[0], c["i"] % len(fw), c["i"] % len(zs)
    close(C(api(P_REST), w, F[i : i + 1], fw, ft), R[i : i + 1], atol=1e-9, what="rest table of one metallicity")
    close(C(api(P_KC), w, F, fw[k : k + 1], ft[k : k + 1], c["zk"]), KC[:, :, k : k + 1], atol=1e-9, what="k-corrected table of one filter")
    close(C(api(P_OBS), w, F, fw, ft, zs[z : z + 1], *P), O[z : z + 1], atol=1e-9, what="apparent table of one redshift")
    close(C(api(P_KC), w, F, fw, ft, 0.0), R, atol=1e-9, what="k-correction to z=0")
    ctx.nt(len(fw) >= 2 or F.shape[0] >= 2 or len(zs) >= 2)


FACETS = [
    Facet("tables", lambda t, s: case(SH if t == "quick" else SH[:2] + MORE[s % 6 : s % 6 + 2]), tables, 160, 3000, qshards=6, tshards=18, cost=3),
    Facet("large", lambda t, s: case(None, LARGE[s % 6]), tables, 48, 600, qshards=6, tshards=12, cost=3),
    Facet("subset", lambda t, s: case(SH[:2] if t == "quick" else SH[:2] + MORE[s % 6 : s % 6 + 1]), subset, 200, 3000, qshards=2, tshards=6, cost=2),
]
