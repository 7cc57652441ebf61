"""C31 triweight kernels."""
import numpy as np

from .. import gen
from ..core import C, Facet, api, between, close, fail, finite, helper
from ..gen import st

RULE = (
    "Centres within +-100, widths 1e-3..100, 41 scaled distances covering [-5,5] with the exact support ends; bins: 1-12 (large: to 300; to 2000 points) ascending edges of equal or random spacing, points inside, at edges, just outside and "
    "far outside. Non-trivial: kernel: always when width differs from one; histogram: at least two bins with more than 1e-3 of the mass, or the point outside all bins."
)
ASSUMPTIONS = ["rounding tolerance 1e-14 on scaled quantities plus the conditioning (x-m)/h", "sums below 1e-12 before normalisation are only checked for the unit sum"]
TECHNIQUE = "reference model, invariants and metamorphic relations (shift, scale, merging of bins)"
NOTE = "Random points, widths and bins."
U = "dsps.utils:"


def cdf(z):
    z = np.clip(np.asarray(z, float), -3, 3)
    return 0.5 + 35 * z / 96 - 35 * z**3 / 864 + 7 * z**5 / 2592 - 5 * z**7 / 69984


def pdf(z):
    z = np.asarray(z, float)
    return np.where(np.abs(z) <= 3, 35 / 96 * (1 - (z / 3) ** 2) ** 3, 0.0)


@st.composite
def ker_case(draw):
    return dict(m=draw(gen.flat(-100, 100)), h=draw(gen.logu(1e-3, 100.0)), seed=draw(st.integers(0, 1 << 16)), dm=draw(gen.flat(-50, 50)), p=draw(st.integers(-8, 8)))


def kernel(c, ctx):
    m, h = c["m"], c["h"]
    z = np.sort(np.concatenate([gen.hashed(c["seed"], (31,), -3.0, 3.0), [-3.0, -2.0, 0.0, 2.0, 3.0], [-4.9, -3.001, 3.001, 4.9, 3.5]]))
    x = m + h * z
    e = 1e-14 + 4e-16 * (abs(m) / h)
    d = finite(C(api(U + "triweight_gaussian"), x, m, h), "density")
    close(d * h, pdf((x - m) / h), atol=3 * e, what="triweight density times width")
    if np.any(d < 0) and d.min() * h < -1e-30:
        fail("negative triweight density {0!r}", float(d.min()))
    out = np.abs((x - m) / h) > 3 + 1e-9 + 4 * e
    if np.any(d[out] != 0):
        fail("triweight density is not zero outside three widths: {0!r}", d[out].tolist())
    mir = finite(C(api(U + "triweight_gaussian"), 2 * m - x, m, h), "density")
    close(mir * h, d * h, atol=4 * e, what="mirrored density")
    close(np.asarray(C(api(U + "triweight_gaussian"), x + c["dm"], m + c["dm"], h)) * h, d * h, atol=1e-14 + 2e-15 * (abs(m) + abs(c["dm"])) / h, what="shifted density")
    s = 2.0 ** c["p"]
    close(np.asarray(C(api(U + "triweight_gaussian"), x * s, m * s, h * s)) * s, d, rtol=1e-12, atol=1e-14 / h, what="scaled density")
    K = helper(U + "_tw_cuml_kern")
    if K is not None:
        import jax

        k = finite(C(K, x, m, h), "cumulative kernel")
        close(k, cdf((x - m) / h), atol=3 * e, what="cumulative kernel")
        if np.any(np.diff(k) < -4e-15):
            fail("cumulative kernel decreases")
        if np.any(k[((x - m) / h) <= -3.0005] != 0) or np.any(k[((x - m) / h) >= 3.0005] != 1):
            fail("cumulative kernel is not exactly 0/1 outside three widths")
        g = finite(C(jax.vmap(jax.grad(K), in_axes=(0, None, None)), x, m, h), "derivative of the cumulative kernel")
        close(g * h, d * h, atol=1e-12 + 30 * e, what="derivative of the cumulative kernel")
        close(C(K, x * s, m * s, h * s), k, atol=1e-14, what="scaled kernel")
    ctx.nt(h != 1)


@st.composite
def hist_case(draw, ns=(1, 2, 5, 12), nx=3):
    n = draw(gen.pick(list(ns)))
    lo = draw(gen.flat(-20, 20))
    if draw(st.booleans()):
        d = [draw(gen.logu(0.01, 10.0))] * n
    else:
        d = [10.0**v for v in draw(gen.fvec(-2.0, 1.0, n))]
    e = [float(v) for v in lo + np.concatenate([[0.0], np.cumsum(d)])]
    h = draw(gen.logu(1e-3, 30.0))
    k = draw(gen.pick(["in", "in", "edge", "near", "far"]))
    if k == "in":
        x = draw(gen.flat(e[0], e[-1]))
    elif k == "edge":
        x = e[draw(st.integers(0, n))]
    else:
        f = draw(st.one_of(gen.flat(0.0, 3.5), gen.flat(-6.0, 0.0).map(lambda v: 3.0 - 10.0**v), gen.flat(-6.0, 0.0).map(lambda v: 3.0 + 10.0**v)) if k == "near" else gen.flat(3.1, 50.0))
        x = e[0] - f * h if draw(st.booleans()) else e[-1] + f * h
    return dict(e=e, h=h, x=float(x), kind=k, cut=draw(st.integers(0, n)), xs=draw(gen.vec(gen.flat(e[0] - 5 * h, e[-1] + 5 * h), 3) if nx == 3 else gen.fvec(e[0] - 5 * h, e[-1] + 5 * h, nx)))


def hist(c, ctx):
    e, h, x = np.array(c["e"]), c["h"], c["x"]
    n = len(e) - 1
    xs = np.array([x] + c["xs"])
    H = finite(C(api(U + "triweighted_histogram"), xs, h, e), "histogram")
    if H.shape != (n, len(xs)):
        fail("histogram has shape {0}, expected {1}", H.shape, (n, len(xs)))
    cond = 1e-14 + 1e-15 * (np.max(np.abs(e)) + np.max(np.abs(xs))) / h
    want = cdf((xs[None, :] - e[:-1, None]) / h) - cdf((xs[None, :] - e[1:, None]) / h)
    close(H, want, atol=cond, what="histogram")
    if np.any(H < -cond):
        fail("negative histogram value {0!r}", float(H.min()))
    close(H.sum(axis=0), cdf((xs - e[0]) / h) - cdf((xs - e[-1]) / h), atol=2 * cond, what="histogram total")
    k = c["cut"]
    if 0 < k < n:
        H2 = finite(C(api(U + "triweighted_histogram"), xs, h, np.delete(e, k)), "histogram of merged bins")
        close(H2[k - 1], H[k - 1] + H[k], atol=2 * cond, what="merged bin")
    w = finite(C(api(U + "_get_triweights_singlepoint"), x, h, e), "weights")
    if w.shape != (n,):
        fail("weights have shape {0}", w.shape)
    tot = want[:, 0].sum()
    out_lo, out_hi = x < e[0] - 3 * h * (1 + 1e-9) - 1e-9, x > e[-1] + 3 * h * (1 + 1e-9) + 1e-9
    if out_lo or out_hi:
        one = np.zeros(n)
        one[0 if out_lo else -1] = 1.0
        close(w, one, what="weights of a point outside all bins")
    else:
        if abs(w.sum() - 1) > 1e-9:
            fail("weights sum to {0!r}", float(w.sum()))
        if tot > 1e-12:
            t = 4 * n * cond / tot
            close(w, want[:, 0] / tot, atol=t, what="normalised weights")
            if np.any(w < -t):
                fail("negative weight {0!r}", float(w.min()))
    ctx.label("n=%d" % n, "x:" + c["kind"], "outside" if out_lo or out_hi else "inside")
    ctx.nt((want[:, 0] > 1e-3).sum() >= 2 or out_lo or out_hi)


FACETS = [
    Facet("kernel", lambda t, s: ker_case(), kernel, 300, 4000, qshards=3, tshards=6),
    Facet("hist-large", lambda t, s: hist_case(*[([40], 2000), ([300], 3), ([129], 129)][s % 3]), hist, 90, 900, qshards=3, tshards=6),
    Facet("hist", lambda t, s: hist_case(), hist, 400, 5000, qshards=4, tshards=8),
]
