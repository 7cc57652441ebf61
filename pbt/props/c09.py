"""C09 rest-frame AB magnitudes."""
import numpy as np

from .. import gen, ref
from ..core import C, Facet, Reject, api, close, fail, finite
from ..gen import st
from .common import arr

RULE = (
    "SEDs of 12/40/150 (large: 300-6000) points (random, flat, power-law, step) on log or irregular wavelength grids, filters of 5/17/60 (large: to 3000) points "
    "(Gaussian, top-hat, random, ramp) fully inside, partly outside or entirely outside the SED's range, amplitudes over 24 decades. "
    "Non-trivial: the filter overlaps the SED and the SED is not constant over the filter (or coverage is partial)."
)
ASSUMPTIONS = ["positive SEDs; filters with positive integral", "AB reference level checked to 2e-4 relative (tabulated constant has 6 digits)"]
TECHNIQUE = "reference model and metamorphic relations (scaling, additivity, filter normalisation)"
NOTE = "Random search against an independent trapezoidal reference; exact relations to 1e-10."


@st.composite
def filt_near(draw, w, nf=None):
    """A filter inside, straddling an edge of, or outside the wavelengths w."""
    lo, hi = w[0], w[-1]
    where = draw(gen.pick(["in", "in", "in", "lo-edge", "hi-edge", "around", "below", "above"]))
    if where == "in":
        f = draw(gen.filt(lo, hi, nf))
    elif where == "lo-edge":
        f = draw(gen.filt(lo * draw(gen.uni(0.3, 0.95)), min(hi, lo * 1.5), nf))
    elif where == "hi-edge":
        f = draw(gen.filt(max(lo, hi / 1.5), hi * draw(gen.uni(1.05, 3.0)), nf))
    elif where == "around":
        n = nf or draw(gen.pick(gen.NF))
        g = draw(gen.wave_grid(n, lo * 0.5, hi * 2.0))
        k, t = draw(gen.trans(n))
        f = dict(w=g, t=t, kind=k)
    elif where == "below":
        f = draw(gen.filt(lo * 0.1, lo * 0.9, nf))
    else:
        f = draw(gen.filt(hi * 1.1, hi * 5.0, nf))
    f["where"] = where
    return f


@st.composite
def case(draw, rel=False, nw=None, nf=None):
    s = draw(gen.sed(nw))
    c = dict(sed=s, filt=draw(filt_near(s["w"], nf)))
    if rel:
        c["k"] = draw(gen.logu(1e-6, 1e6))
        c["ft"] = draw(gen.logu(1e-3, 1e3))
        n = len(s["w"])
        m = min(n, 8)
        k = draw(gen.fvec(-1.0, 1.0, m))
        c["f2"] = [float(s["f"][n // 2] * 10 ** k[i % m]) for i in range(n)]
    return c


def unpack(c):
    return arr(c["sed"]["w"]), arr(c["sed"]["f"]), arr(c["filt"]["w"]), arr(c["filt"]["t"])


def labels(c, ctx):
    w, f, fw, ft = unpack(c)
    inside = (fw >= w[0]) & (fw <= w[-1])
    cov = "none" if not inside.any() else "full" if inside.all() else "partial"
    ctx.label("coverage:" + cov, "sed:" + c["sed"]["kind"], "filter:" + c["filt"]["kind"])
    return cov


def reference(c, ctx):
    w, f, fw, ft = unpack(c)
    cov = labels(c, ctx)
    flux = C(api("dsps.photometry.photometry_kernels:calc_rest_flux"), w, f, fw, ft)
    mag = C(api("dsps.photometry:calc_rest_mag"), w, f, fw, ft)
    want = ref.ab_flux(w, f, fw, ft)
    flux = close(flux, want, rtol=2e-4, what="rest-frame AB flux")
    if want == 0:
        if not np.isposinf(np.asarray(mag)):
            fail("magnitude of zero flux is {0!r}", float(mag))
        return
    if want < 1e-290:
        return
    close(mag, -2.5 * np.log10(want), atol=3e-4, what="rest-frame magnitude")
    close(mag, -2.5 * np.log10(float(flux)), atol=1e-9, what="magnitude of the flux")
    # relative to a flat spectrum over the whole filter: exact
    wide = np.array([min(w[0], fw[0]) * 0.5, max(w[-1], fw[-1]) * 2.0])
    base = float(C(api("dsps.photometry.photometry_kernels:calc_rest_flux"), wide, np.ones(2), fw, ft))
    close(float(flux) / base, want / ref.ab_flux(wide, np.ones(2), fw, ft), rtol=1e-10, what="flux relative to a flat spectrum")
    ctx.nt(cov == "partial" or (cov == "full" and np.ptp(ref.interp0(fw, w, f)) > 1e-3 * f.mean()))


def relations(c, ctx):
    w, f, fw, ft = unpack(c)
    cov = labels(c, ctx)
    F = api("dsps.photometry.photometry_kernels:calc_rest_flux")
    M = api("dsps.photometry:calc_rest_mag")
    a = float(finite(C(F, w, f, fw, ft), "AB flux"))
    f2 = arr(c["f2"])
    b = float(finite(C(F, w, f2, fw, ft), "AB flux"))
    close(C(F, w, f + f2, fw, ft), a + b, rtol=1e-10, what="flux of a sum of SEDs")
    close(C(F, w, c["k"] * f, fw, ft), c["k"] * a, rtol=1e-10, what="flux of the scaled SED")
    close(C(F, w, f, fw, ft * c["ft"]), a, rtol=1e-10, what="flux with the rescaled filter")
    close(C(F, w * 7.5, f, fw * 7.5, ft), a, rtol=1e-6 if cov == "full" else np.inf, atol=0 if cov == "full" else np.inf, what="flux in another wavelength unit")
    if a > 1e-280:
        m = float(C(M, w, f, fw, ft))
        close(C(M, w, c["k"] * f, fw, ft), m - 2.5 * np.log10(c["k"]), atol=1e-8, what="magnitude of the scaled SED")
        close(C(M, w, f, fw, ft * c["ft"]), m, atol=1e-8, what="magnitude with the rescaled filter")
    if cov == "full":
        flat = np.full(len(w), ref.AB0_EXACT)
        close(C(M, w, flat, fw, ft), 0.0, atol=2e-4, what="magnitude of the AB reference spectrum")
    # splitting the filter's samples at their midpoints leaves a locally linear integrand unchanged to
    # second order only, so no relation is claimed there; zero-padding the filter is exact:
    d = (fw[-1] - fw[0]) * 0.5
    fw2 = np.concatenate([[fw[0] * 0.8, fw[0] * (1 - 1e-12)], fw, [fw[-1] * (1 + 1e-12), fw[-1] + d]])
    ft2 = np.concatenate([[0.0, 0.0], ft, [0.0, 0.0]])
    ed = abs(np.log(w[[0, -1]][:, None] / fw[None, [0, -1]])).min()
    if ed > 1e-9:
        close(C(F, w, f, fw2, ft2), a, rtol=1e-7, what="flux with a zero-padded filter")
    ctx.nt(cov != "none")


LARGE = [(6000, 17), (40, 3000), (1100, 300), (300, 130)]

FACETS = [
    Facet("reference", lambda t, s: case(), reference, 1200, 15000, qshards=4, tshards=12),
    Facet("reference-large", lambda t, s: case(False, *LARGE[s % 4]), reference, 80, 1000, qshards=4, tshards=8),
    Facet("relations-large", lambda t, s: case(True, *LARGE[s % 4]), relations, 40, 500, qshards=4, tshards=8),
    Facet("relations", lambda t, s: case(True), relations, 900, 10000, qshards=4, tshards=12),
]
