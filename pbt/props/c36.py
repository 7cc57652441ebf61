"""C36 sigmoid and weight-product helpers."""
import numpy as np

from .. import gen
from ..core import C, Facet, api, close, fail, finite, helper
from ..gen import st

RULE = (
    "sigmoid: centres, heights and slopes of either sign over six decades, abscissae from deep saturation on one side to the other. slope: tie points, limiting slopes, widths. "
    "weights: 1-7 and up to 3000 galaxies, 1-300 bins per factor, zeros included. Non-trivial: k<0 or yhi<ylo (sigmoid), limiting slopes of opposite sign (slope), at least two galaxies and unequal lengths (weights)."
)
ASSUMPTIONS = ["inverse checked for |k(x-x0)|<=12, with the tolerance given by its conditioning"]
TECHNIQUE = "reference model, round trip, metamorphic relations (galaxy permutation and isolation)"
NOTE = "Random parameters."
U = "dsps.utils:"


def expit(t):
    t = np.asarray(t, float)
    return np.where(t >= 0, 1 / (1 + np.exp(-np.abs(t))), np.exp(-np.abs(t)) / (1 + np.exp(-np.abs(t))))


def signed(lo, hi):
    return st.tuples(gen.logu(lo, hi), gen.pick([1.0, -1.0])).map(lambda p: p[0] * p[1])


@st.composite
def sig_case(draw):
    ylo = draw(signed(1e-3, 1e3))
    return dict(x0=draw(gen.flat(-50, 50)), k=draw(signed(1e-3, 1e3)), ylo=ylo, yhi=ylo + draw(signed(1e-3, 1e3)), seed=draw(st.integers(0, 1 << 16)), span=draw(gen.pick([1.0, 12.0, 12.0, 80.0])))


def sigmoid(c, ctx):
    x0, k, ylo, yhi = c["x0"], c["k"], c["ylo"], c["yhi"]
    t = np.sort(np.concatenate([gen.hashed(c["seed"], (18,), -c["span"], c["span"]), [0.0]]))
    x = x0 + t / k
    H = yhi - ylo
    m = max(abs(ylo), abs(yhi), abs(H))
    te = k * (x - x0)
    dt = 1e-15 * (1 + np.abs(te)) + 4e-16 * abs(k) * (abs(x0) + np.abs(x))
    y = finite(C(api(U + "_sigmoid"), x, x0, k, ylo, yhi), "sigmoid")
    tol = 1e-15 * m + abs(H) * dt
    close(y, ylo + H * expit(te), atol=3 * tol, what="sigmoid")
    lo, hi = min(ylo, yhi), max(ylo, yhi)
    if np.any(y < lo - 2e-15 * m) or np.any(y > hi + 2e-15 * m):
        fail("sigmoid leaves its asymptotes")
    o = np.argsort(x)
    d = np.diff(y[o]) * np.sign(H) * np.sign(k)
    if np.any(d < -2e-15 * m):
        fail("sigmoid is not monotonic")
    close(C(api(U + "_sigmoid"), x0, x0, k, ylo, yhi), (ylo + yhi) / 2, atol=4e-16 * m, what="sigmoid at its centre")
    e = 2 * x0 - x
    close(np.asarray(C(api(U + "_sigmoid"), e, x0, k, ylo, yhi)) + y, np.full(len(x), ylo + yhi), atol=8 * tol.max(), what="sigmoid symmetry about the centre")
    ok = np.abs(te) <= 12
    if ok.any():
        xi = finite(C(api(U + "_inverse_sigmoid"), y[ok], x0, k, ylo, yhi), "inverse sigmoid")
        s = expit(te[ok])
        terr = (4e-16 * m / abs(H)) / (s * (1 - s)) + 3 * dt[ok] + 1e-14
        close(xi, x[ok], atol=4 * terr / abs(k) + 4e-16 * (abs(x0) + np.abs(x[ok])), what="inverse of the sigmoid")
        yy = finite(C(api(U + "_sigmoid"), xi, x0, k, ylo, yhi), "sigmoid of the inverse")
        close(yy, y[ok], atol=20 * tol[ok] + 1e-14 * m, what="sigmoid of the inverse")
    ctx.label("k<0" if k < 0 else "k>0", "falling" if H < 0 else "rising")
    ctx.nt(k < 0 or H < 0)


@st.composite
def slope_case(draw):
    return dict(x0=draw(gen.flat(-10, 10)), xtp=draw(gen.flat(-10, 10)), ytp=draw(gen.flat(-20, 20)), k=draw(gen.logu(0.05, 50.0)), h=draw(gen.logu(0.01, 5.0)), lo=draw(gen.flat(-5, 5)), hi=draw(gen.flat(-5, 5)), x=draw(gen.vec(gen.flat(-30, 30), 4)))


def slope(c, ctx):
    x0, xtp, ytp, lo, hi = (c[k] for k in ("x0", "xtp", "ytp", "lo", "hi"))
    x = np.array(c["x"])
    from . import c31

    for name, par, far, kern in (("_sig_slope", c["k"], 45.0 / c["k"], lambda v: expit(c["k"] * (v - x0))), ("_tw_sig_slope", c["h"], 3.5 * c["h"], lambda v: c31.cdf((v - x0) / c["h"]))):
        f = helper(U + name)
        if f is None:
            ctx.label("missing:" + name)
            continue
        g = lambda v: finite(C(f, v, xtp, ytp, x0, par, lo, hi), name)  # noqa: E731,B023
        if float(g(xtp)) != ytp:
            fail("{0} misses its tie point: {1!r} instead of {2!r}", name, float(g(xtp)), ytp)
        cond = 1e-13 * (1 + (abs(x0) + 30) * (c["k"] if name == "_sig_slope" else 1 / c["h"]))
        close(g(x), ytp + (lo + (hi - lo) * kern(x)) * (x - xtp), atol=cond * 200, what=name)
        for s, want in ((-1, lo), (1, hi)):
            a = x0 + s * far * np.array([1.0, 1.5])
            v = g(a)
            close(v, ytp + want * (a - xtp), atol=1e-12 * (abs(ytp) + 10 * (np.abs(a) + 10)), what=name + " limiting slope")
    ctx.nt(lo * hi < 0)


@st.composite
def wt_case(draw):
    n, L = draw(gen.pick([(a, b) for a in (1, 2, 7) for b in ((1, 3, 4), (4, 2, 3), (3, 3, 3), (2, 6, 1))] + [(40, (3, 2, 4)), (150, (2, 3, 2)), (600, (4, 2, 3)), (3000, (2, 1, 3)), (3, (40, 7, 11)), (2, (12, 9, 150)), (2, (3, 300, 2))]))
    return dict(n=n, L=list(L), seed=draw(st.integers(0, 1 << 16)), norm=draw(st.booleans()), zero=draw(gen.pick([0.0, 0.3])), perm=draw(st.permutations(list(range(n))) if n < 10 else st.integers(0, 1 << 16)), dex=draw(gen.pick([0.5, 6.0])))


def weights(c, ctx):
    n = c["n"]
    fs = []
    for i, k in enumerate(c["L"]):
        f = 10 ** gen.hashed(c["seed"] + 11 * i, (n, k), -c["dex"], 0.0)
        f = np.where(gen.hashed(c["seed"] + 11 * i + 5, (n, k), 0, 1) < c["zero"], 0.0, f)
        f[:, 0] = np.maximum(f[:, 0], 1e-3)
        if c["norm"]:
            f /= f.sum(axis=1, keepdims=True)
        fs.append(f)
    p = c["perm"] if n < 10 else list(np.argsort(gen.hashed(c["perm"], (n,), 0, 1)))
    for m, name, one in ((2, "_get_weight_matrices_2d", "_mult_2d_vmap"), (3, "_get_weight_matrices_3d", "_mult_3d_vmap")):
        a = fs[:m]
        w = finite(C(api(U + name), *a), name)
        want = np.einsum("gi,gj->gij", *a) if m == 2 else np.einsum("gi,gj,gk->gijk", *a)
        close(w, want, rtol=1e-15, what=name)
        if c["norm"]:
            close(w.reshape(n, -1).sum(axis=1), np.ones(n), atol=1e-13, what=name + " total per galaxy")
        close(C(api(U + name), *[f[p] for f in a]), w[p], what=name + " of reordered galaxies")
        close(C(api(U + name), *[f[:1] for f in a]), w[:1], what=name + " of one galaxy alone")
        close(C(api(U + one), *[f[0] for f in a]), w[0], what=one)
    ctx.label("n=%d" % n)
    ctx.nt(n > 1 and len(set(c["L"])) > 1)


FACETS = [
    Facet("sigmoid", lambda t, s: sig_case(), sigmoid, 400, 5000, qshards=3, tshards=6),
    Facet("slope", lambda t, s: slope_case(), slope, 300, 4000, qshards=2, tshards=4),
    Facet("weights", lambda t, s: wt_case(), weights, 150, 2000, qshards=3, tshards=6),
]
