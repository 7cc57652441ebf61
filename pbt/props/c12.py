"""C12 filter resampling and effective wavelength."""
import numpy as np

from .. import gen, ref
from ..core import C, Facet, api, between, close, fail, finite, same
from ..gen import st
from .common import arr

RULE = (
    "Collections of 1-6 transmission curves of different or equal lengths (2-400), ranges and shapes (also slightly outside [0,1] or in percent), requested lengths None or 1..1000; "
    "effective wavelengths for filters of 3-60 points, redshifts 0-20. Non-trivial: at least two curves of different length or range, "
    "or for the effective wavelength a curve that is not constant."
)
ASSUMPTIONS = ["curves ascend in wavelength and have positive integral"]
TECHNIQUE = "reference model, invariance and purity relations"
NOTE = "Random search with exact (1e-12) comparison to linear interpolation and to the weighted mean."

RS = "dsps.photometry.utils:interpolate_filter_trans_curves"
EW = "dsps.dust.utils:get_filter_effective_wavelength"


@st.composite
def coll(draw):
    k = draw(st.integers(1, 6))
    ws, ts = [], []
    equal = draw(gen.pick([0, 0, 0, 3, 12, 200]))  # all curves of one length
    kind = draw(gen.pick(["unit", "unit", "noise", "percent"]))
    lo_t, hi_t = dict(unit=(0.0, 1.0), noise=(-0.02, 1.05), percent=(0.0, 100.0))[kind]
    for _ in range(k):
        n = equal or draw(gen.pick([2, 3, 4, 7, 12, 25, 40, 400]))
        lo = draw(gen.logu(900.0, 40000.0))
        w = draw(gen.wave_grid(n, lo, lo * draw(gen.uni(1.05, 2.0))))
        ws.append(w)
        ts.append([float(x) for x in draw(gen.fvec(lo_t, hi_t, n))])
    if equal and draw(gen.pick([False, False, True])):
        ws = [ws[0]] * k
    return dict(kind=kind, ws=ws, ts=ts, n=draw(st.one_of(st.none(), st.integers(1, 80), st.integers(80, 1000))), as_list=draw(st.booleans()))


def resample(c, ctx):
    ws, ts = [arr(w) for w in c["ws"]], [arr(t) for t in c["ts"]]
    if len(ws) > 1 and c["ws"][0] == c["ws"][1]:
        ws = [ws[0]] * len(ws)  # one array shared by all curves
    w0, t0 = [w.copy() for w in ws], [t.copy() for t in ts]
    a, b = (ws, ts) if c["as_list"] else (tuple(ws), tuple(ts))
    f = api(RS)
    W, T = C(f, a, b) if c["n"] is None else C(f, a, b, n=c["n"])
    n = c["n"] if c["n"] is not None else min(len(w) for w in ws)
    finite(W, "resampled wavelengths")
    finite(T, "resampled transmission")
    if np.shape(W) != (len(ws), n) or np.shape(T) != (len(ws), n):
        fail("resampled shapes {0}, {1}; expected {2}", np.shape(W), np.shape(T), (len(ws), n))
    for i, (w, t) in enumerate(zip(ws, ts)):
        want_w = w[0] + (w[-1] - w[0]) * np.arange(n) / max(1, n - 1)
        close(W[i], want_w, rtol=1e-12, what="resampled wavelengths of curve %d" % i)
        # exact linear interpolation; steep segments amplify the rounding of the new grid
        slope = np.max(np.abs(np.diff(t) / np.diff(w)))
        close(T[i], np.interp(want_w, w, t), atol=1e-12 * max(1.0, np.max(np.abs(t))) + slope * 1e-11 * w[-1], what="resampled transmission of curve %d" % i)
        if n > 1 and (W[i][0] != w[0] or W[i][-1] != w[-1]):
            fail("curve {0}: range {1!r}..{2!r} became {3!r}..{4!r}", i, w[0], w[-1], float(W[i][0]), float(W[i][-1]))
        same(w, w0[i], "input wavelengths")
        same(t, t0[i], "input transmission")
    lens = {len(w) for w in ws}
    ctx.label("curves:%d" % len(ws), "n:%s" % ("default" if c["n"] is None else "given"), "lengths:%d" % len(lens), c["kind"])
    ctx.nt(len(ws) >= 2)


@st.composite
def ecase(draw):
    n = draw(gen.pick([3, 17, 60, 1200]))
    lo = draw(gen.logu(10.0, 1e6))
    w = draw(gen.wave_grid(n, lo, lo * draw(st.one_of(gen.uni(1.01, 1.5), gen.uni(1.5, 100.0)))))
    k, t = draw(gen.trans(n))
    if sum(t[1:-1]) <= 0:
        t = [1.0] * n
    return dict(w=w, t=t, kind=k, z=draw(st.one_of(st.just(0.0), gen.uni(0.0, 3.0), gen.logu(1e-4, 20.0))), a=draw(gen.logu(1e-4, 1e4)), u=draw(gen.logu(1e-5, 1e5)))


def effwave(c, ctx):
    w, t, z = arr(c["w"]), arr(c["t"]), c["z"]
    f = api(EW)
    want = ref.trapz(w, t * w) / ref.trapz(w, t)
    got = float(finite(C(f, w, t, z), "effective wavelength"))
    close(got, want / (1 + z), rtol=1e-11, what="effective wavelength")
    e0 = float(C(f, w, t, 0.0))
    between(e0, w[0], w[-1], "effective wavelength at z=0", tol=1e-9 * w[-1])
    close(C(f, w, t * c["a"], z), got, rtol=1e-11, what="effective wavelength of the rescaled filter")
    close(C(f, w * c["u"], t, z), got * c["u"], rtol=1e-11, what="effective wavelength in another unit")
    ctx.label("filter:" + c["kind"], "z=0" if z == 0 else "z>0")
    ctx.nt(np.ptp(t) > 0 and z > 0)


FACETS = [
    Facet("resample", lambda t, s: coll(), resample, 1500, 20000, qshards=4, tshards=8),
    Facet("effective-wavelength", lambda t, s: ecase(), effwave, 1500, 20000, qshards=2, tshards=6),
]
