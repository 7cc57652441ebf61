"""C29 trapezoidal integrals and stellar mass formed."""
import numpy as np

from .. import gen
from ..core import C, Facet, api, close, fail, finite
from ..gen import st

RULE = (
    "integral: ascending tables of 2-60 (large: to 20000) points with spacings over up to eight decades, offset and scale over many decades, integrands of both signs over twelve decades, with a second integrand, "
    "a cut point and 1-9 refinement points. mass: SFH tables of every kind with the first time at 0.01-1 Gyr. Non-trivial: spacings differing by a factor of 10 or integrand changing sign (integral), "
    "SFR varying by a factor of 2 (mass)."
)
ASSUMPTIONS = ["tolerances are 1e-13 of the integral of the absolute value", "the negligible initial rate is at most 1e-9 Msun/yr"]
TECHNIQUE = "reference model (exactly rounded sums) and metamorphic relations (linearity, refinement, splitting, shift)"
NOTE = "Random tables; agreement with exactly rounded sums."
U = "dsps.utils:"
NS = [2, 3, 5, 17, 60]


@st.composite
def table_case(draw, n_of):
    n = draw(gen.pick(n_of))
    wide = draw(gen.pick([0.0, 1.0, 4.0, 8.0]))
    dx = [10.0**x for x in draw(gen.fvec(-wide, 0.0, n - 1))]
    scale = draw(gen.pick([1.0, 1.0, 1e-6, 1e6, 13.8]))
    x0 = draw(gen.pick([0.0, 1.0, -3.0, 0.01]))
    x = [float(v) for v in scale * (x0 + np.concatenate([[0.0], np.cumsum(dx)]))]

    def y():
        k = draw(gen.pick(["mixed", "pos", "wide", "const", "spike"]))
        if k == "const":
            return [draw(gen.flat(-2, 2))] * n
        if k == "spike":
            j = draw(st.integers(0, n - 1))
            return [1.0 if i == j else 0.0 for i in range(n)]
        a = np.array(draw(gen.fvec(-1.0, 1.0, n)))
        if k == "pos":
            a = np.abs(a)
        if k == "wide":
            a = np.sign(a) * 10 ** (12 * np.abs(a) - 6)
        return [float(v) for v in a]

    return dict(x=x, y=y(), y2=y(), a=draw(gen.flat(-5, 5)), b=draw(gen.flat(-5, 5)), cut=draw(st.integers(0, n - 1)), ref=draw(gen.pick([1, 4, 9])), rseed=draw(st.integers(0, 1 << 16)), power=draw(st.integers(-12, 12)))


def exact(x, y):
    """cumulative trapezoid sums in extended precision, with the absolute sum for the tolerance"""
    x, y = np.asarray(x, np.longdouble), np.asarray(y, np.longdouble)
    s = np.diff(x) * (y[1:] + y[:-1]) / 2
    a = np.diff(np.abs(x)) * 0 + np.diff(x) * (np.abs(y[1:]) + np.abs(y[:-1])) / 2
    z = np.zeros(1, np.longdouble)
    return np.concatenate([z, np.cumsum(s)]), np.concatenate([z, np.cumsum(a)])


def integral(c, ctx):
    x, y, y2 = np.array(c["x"]), np.array(c["y"]), np.array(c["y2"])
    if np.any(np.diff(x) <= 0):
        x = x[0] + np.arange(len(x)) * max(1.0, abs(x[0]))
    n = len(x)
    e = max(1e-13, 2.3e-16 * n)  # worst case of a running sum
    cum = lambda xx, yy: C(api(U + "cumtrapz"), xx, yy)  # noqa: E731
    w, a = exact(x, y)
    w, a = w.astype(float), a.astype(float)
    r = close(cum(x, y), w, atol=e * a + 1e-300, what="cumulative integral")
    if r[0] != 0:
        fail("cumulative integral starts at {0!r}", r[0])
    t = close(C(api(U + "trapz"), x, y), w[-1], atol=2 * e * a[-1] + 1e-300, what="total integral")
    close(t, r[-1], atol=2 * e * a[-1] + 1e-300, what="total integral against the last cumulative value")
    r2 = finite(cum(x, y2))
    _, a2 = exact(x, y2)
    tol = 10 * e * (abs(c["a"]) * a + abs(c["b"]) * a2.astype(float)) + 1e-300
    close(cum(x, c["a"] * y + c["b"] * y2), c["a"] * r + c["b"] * r2, atol=tol, what="linearity of the cumulative integral")
    s = 2.0 ** c["power"]
    close(cum(x * s, y), r * s, rtol=1e-15, what="cumulative integral with scaled abscissa")
    # refinement of the piecewise-linear table
    u = np.sort(gen.hashed(c["rseed"], (c["ref"],), x[0], x[-1]))
    u = np.setdiff1d(u, x)
    if len(u) == c["ref"]:
        xx = np.sort(np.concatenate([x, u]))
        yy = np.interp(xx, x, y)
        keep = np.isin(xx, x)
        dy = np.max(np.abs(y)) * (x[-1] - x[0])
        rr = finite(cum(xx, yy))
        if rr.shape != xx.shape:
            fail("cumulative integral has shape {0} for {1} points", rr.shape, len(xx))
        close(rr[keep], r, atol=10 * e * a + e * dy, what="integral of the refined table")
    k = c["cut"]
    if 0 < k < n - 1 and n <= 5:
        close(r[k] + np.asarray(cum(x[k:], y[k:])), r[k:], atol=10 * e * a[-1] + 1e-300, what="integral of the split table")
    ctx.label("n=%d" % n)
    d = np.diff(x)
    ctx.nt((n > 2 and d.max() > 10 * d.min()) or (y.max() > 0 > y.min()))


@st.composite
def mass_case(draw, ns=(2, 3, 8, 30)):
    n = draw(gen.pick(list(ns)))
    t = draw(gen.time_table(n))
    kind, s = draw(gen.sfh(t))
    return dict(t=t, sfr=s, kind=kind)


def mass(c, ctx):
    t, s = np.array(c["t"]), np.array(c["sfr"])
    r = C(api(U + "cumulative_mstar_formed"), t, s)
    w, a = exact(np.concatenate([[0.001], t]), np.concatenate([[0.0], s]))
    w = (w * 1e9).astype(float)[1:]
    got = close(r, w, rtol=max(1e-12, 1e-15 * len(t)), atol=1e-9 * 1e9 * (t[0] - 0.001), what="stellar mass formed")
    close(C(api("dsps:cumulative_mstar_formed"), t, s), got, what="package-level mass formed")
    inc = 1e9 * np.diff(t) * (s[1:] + s[:-1]) / 2
    d = np.diff(got)
    if np.any(d < 0) or np.any(d[inc > 4e-16 * got[1:] + 1e-290] <= 0):
        i = int(np.argmin(d))
        fail("mass formed does not increase between {0} and {1} Gyr: {2!r}, {3!r}", t[i], t[i + 1], got[i], got[i + 1])
    if np.any(got < 0) or (np.all(s > 0) and not got[0] > 0):
        fail("mass formed is not positive: {0!r}", got[0])
    ctx.label("sfh:" + c["kind"], "n=%d" % len(t))
    ctx.nt(s.max() > 2 * s.min())


FACETS = [
    Facet("integral", lambda t, s: table_case(NS if t == "quick" else NS + [4, 9, 33, 100, 7][s % 5:]), integral, 250, 3000, qshards=4, tshards=8),
    Facet("integral-large", lambda t, s: table_case([[200], [1500], [129, 5000, 20000]][s % 3]), integral, 90, 900, qshards=3, tshards=6),
    Facet("mass-large", lambda t, s: mass_case([[200], [1500], [129, 5000, 20000]][s % 3]), mass, 150, 1500, qshards=3, tshards=6),
    Facet("mass", lambda t, s: mass_case(), mass, 300, 3000, qshards=3, tshards=6),
]
