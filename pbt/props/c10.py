"""C10 apparent magnitudes."""
import numpy as np

from .. import gen, ref
from ..core import C, Facet, api, close, fail, finite, helper
from ..gen import st
from .common import arr

RULE = (
    "SEDs and filters as in C09 (also its large sizes) with the filter placed in the observer frame, redshifts 1e-4 to 20 (log and linear), cosmologies "
    "Om0 0.05-1, w0 -2..-0.3, wa -1..0.5, h 0.3-1.5. Non-trivial: the redshifted SED overlaps the filter and z > 0.01."
)
ASSUMPTIONS = ["positive SEDs; filters whose samples do not coincide with the redshifted SED's end points to 1e-9 (inclusive/exclusive is rounding there)"]
TECHNIQUE = "reference model (independent quadrature for the distance) and frame-change relations"
NOTE = "Random search: absolute agreement to 2 mmag (distance accuracy 0.08%), exact relations to 1e-8 mag."

D = "dsps.cosmology.flat_wcdm:distance_modulus_to_z"
OBS = "dsps.photometry:calc_obs_mag"
REST = "dsps.photometry:calc_rest_mag"
K = "dsps.photometry.photometry_kernels:"


@st.composite
def case(draw, nw=None, nf=None):
    s = draw(gen.sed(nw))
    z = draw(st.one_of(gen.logu(1e-4, 20.0), gen.uni(0.01, 3.0), gen.uni(1e-4, 20.0)))
    lo, hi = s["w"][0] * (1 + z), s["w"][-1] * (1 + z)
    where = draw(gen.pick(["in", "in", "in", "lo-edge", "hi-edge"]))
    if where == "in":
        f = draw(gen.filt(lo, hi, nf))
    elif where == "lo-edge":
        f = draw(gen.filt(lo * draw(gen.uni(0.3, 0.95)), min(hi, lo * 1.5), nf))
    else:
        f = draw(gen.filt(max(lo, hi / 1.5), hi * draw(gen.uni(1.05, 3.0)), nf))
    return dict(sed=s, filt=f, z=z, cosmo=draw(gen.cosmo()), where=where)


def edge(c):
    w, fw = arr(c["sed"]["w"]) * (1 + c["z"]), arr(c["filt"]["w"])
    return np.min(np.abs(np.log(w[[0, -1]][:, None] / fw[None, :]))) < 1e-9


def obs(c, ctx):
    w, f, fw, ft = arr(c["sed"]["w"]), arr(c["sed"]["f"]), arr(c["filt"]["w"]), arr(c["filt"]["t"])
    z, P = c["z"], c["cosmo"]
    ctx.label("where:" + c["where"], "z:%s" % ("<0.1" if z < 0.1 else "<3" if z < 3 else ">=3"))
    if edge(c):
        ctx.label("edge")
        return
    want = ref.ab_flux(w, f, fw, ft, z)
    m = C(api(OBS), w, f, fw, ft, z, *P)
    if want == 0:
        if not np.isposinf(float(m)):
            fail("apparent magnitude of zero flux is {0!r}", float(m))
        return
    if want < 1e-290:
        return
    m = float(finite(m, "apparent magnitude"))
    dl = ref.comoving_distance(z, *P) * (1 + z)
    mu = 5 * np.log10(dl * 1e5)
    dim = mu - 2.5 * np.log10(1 + z)
    close(m, -2.5 * np.log10(want) + dim, atol=7e-3 if gen.exotic(P) else 3e-3, what="apparent magnitude")
    dmod = float(finite(C(api(D), z, *P), "distance modulus"))
    kd = dmod - 2.5 * np.log10(1 + z)
    nd = m - kd  # undimmed magnitude
    # stretching the filter instead of the SED
    r = float(C(api(REST), w, f, fw / (1 + z), ft))
    close(nd, r, atol=1e-7, what="apparent magnitude minus dimming vs rest magnitude through the blueshifted filter")
    close(C(api(REST), w * (1 + z), f, fw, ft), r, atol=1e-7, what="rest magnitude of the stretched SED")
    nodim = api(K + "_calc_obs_mag_no_dimming")
    close(C(nodim, w, f, fw, ft, z), nd, atol=1e-8, what="undimmed magnitude")
    a, b = C(nodim, w, f, fw, ft, 0.0), C(api(REST), w, f, fw, ft)
    if np.isfinite(float(a)) or np.isfinite(float(b)):
        close(a, b, atol=1e-10, what="undimmed magnitude at z=0")
    # relations
    k = 3.7e3
    close(C(api(OBS), w, f * k, fw, ft, z, *P), m - 2.5 * np.log10(k), atol=1e-8, what="apparent magnitude of the scaled SED")
    close(C(api(OBS), w, f, fw, ft * 0.17, z, *P), m, atol=1e-8, what="apparent magnitude with the rescaled filter")
    P2 = [P[0], P[1], P[2], P[3] * 1.25]
    close(C(api(OBS), w, f, fw, ft, z, *P2), m - 5 * np.log10(1.25), atol=1e-8, what="apparent magnitude with h scaled by 1.25")
    ctx.nt(z > 0.01)


@st.composite
def table_case(draw):
    n = draw(gen.pick([2, 5, 20, 20, 300]))
    lo = draw(gen.logu(1e-3, 1.0))
    zt = draw(gen.wave_grid(n, lo, lo + draw(gen.uni(0.5, 10.0))))
    return dict(z_table=zt, cosmo=draw(gen.cosmo()), u=draw(gen.flat(0.0, 1.0)), i=draw(st.integers(0, n - 2)))


def table(c, ctx):
    T = helper(K + "_cosmological_dimming_from_table")
    dim = helper(K + "_cosmological_dimming")
    if T is None or dim is None:
        ctx.label("renamed")
        return
    zt, P = arr(c["z_table"]), c["cosmo"]
    mu = np.array([float(C(api(D), z, *P)) for z in zt])
    close(C(dim, float(zt[c["i"]]), *P), mu[c["i"]] - 2.5 * np.log10(1 + zt[c["i"]]), atol=1e-9, what="dimming")
    for i in (0, c["i"], len(zt) - 1):
        close(C(T, float(zt[i]), zt, mu), float(C(dim, float(zt[i]), *P)), atol=1e-9, what="dimming from the table at a table redshift")
    i, u = c["i"], c["u"]
    z = float(zt[i] + u * (zt[i + 1] - zt[i]))
    close(C(T, z, zt, mu), mu[i] * (1 - u) + mu[i + 1] * u - 2.5 * np.log10(1 + z), atol=1e-8, what="dimming from the table between redshifts")
    ctx.nt(0.01 < u < 0.99)


LARGE = [(6000, 17), (40, 3000), (1100, 300), (300, 130)]

FACETS = [
    Facet("obs", lambda t, s: case(), obs, 600, 8000, qshards=6, tshards=20, cost=2),
    Facet("obs-large", lambda t, s: case(*LARGE[s % 4]), obs, 60, 800, qshards=4, tshards=8, cost=2),
    Facet("table", lambda t, s: table_case(), table, 250, 4000, qshards=1, tshards=4),
]
