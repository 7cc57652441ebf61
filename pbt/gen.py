"""Hypothesis strategies. Every case is a plain JSON-able dict of python numbers."""
import math

import numpy as np

from . import env

env.add_hypothesis_path()
from hypothesis import strategies as st  # noqa: E402

N = 1 << 20


def uni(lo, hi):
    """Reals in [lo, hi]: mostly even coverage, plus the library's favourite edge cases."""
    lo, hi = float(lo), float(hi)

    def f(i):
        return min(hi, max(lo, lo + (hi - lo) * (i / N)))

    even = st.integers(0, N).map(f)
    return st.one_of(even, even, st.floats(lo, hi, allow_nan=False, allow_infinity=False))


def flat(lo, hi):
    """Even coverage only (no denormals or other library specials)."""
    lo, hi = float(lo), float(hi)
    return st.integers(0, N).map(lambda i: min(hi, max(lo, lo + (hi - lo) * (i / N))))


def logu(lo, hi):
    a, b = math.log10(lo), math.log10(hi)
    return uni(a, b).map(lambda x: min(hi, max(lo, 10.0**x)))


def vec(elem, n):
    return st.lists(elem, min_size=n, max_size=n)


def fvec(lo, hi, n):
    """n evenly distributed numbers; long vectors are expanded from one drawn integer."""
    if n <= 10:
        return vec(flat(lo, hi), n)
    return st.integers(0, 1 << 20).map(lambda sd: [float(x) for x in hashed(sd, (n,), lo, hi)])


pick = st.sampled_from


def bulk(n, lo, hi, log=False):
    """A long vector over [lo, hi], evenly or log-evenly distributed, expanded from one drawn integer."""

    if not log:
        return fvec(lo, hi, max(n, 11))
    return fvec(math.log(lo), math.log(hi), max(n, 11)).map(lambda v: [math.exp(x) for x in v])


def longs(shard, ns=(300, 1100, 5000, 70)):
    return ns[shard % len(ns)]


# (n_t, n_age, n_met)
SHAPES = [(6, 5, 3), (2, 3, 4), (13, 8, 3), (30, 12, 5), (9, 25, 7), (60, 6, 4)]
MORE_SHAPES = [
    (3, 4, 3), (4, 3, 3), (21, 21, 3), (100, 30, 12), (7, 94, 5), (45, 10, 10),
    (16, 16, 16), (5, 40, 22), (10, 11, 6), (50, 5, 9), (8, 60, 3), (25, 7, 8),
]


# tables, age and metallicity grids as long as those of real use, and longer
LARGE = [(300, 107, 12), (1500, 12, 4), (9, 400, 22)]


def large(shard):
    return [LARGE[shard % len(LARGE)]]


def shapes(tier, shard):
    if tier == "quick":
        return SHAPES
    return SHAPES[:3] + [MORE_SHAPES[(3 * shard + k) % len(MORE_SHAPES)] for k in range(3)]


@st.composite
def time_table(draw, n):
    t0 = draw(st.one_of(pick([0.01, 0.1, 0.5]), uni(0.01, 1.0)))
    t1 = t0 + draw(uni(1.0, 18.0))
    kind = draw(pick(["lin", "log", "rand"]))
    if kind == "lin":
        t = np.linspace(t0, t1, n)
    elif kind == "log":
        t = np.logspace(np.log10(t0), np.log10(t1), n)
    else:
        w = np.array([10.0**x for x in draw(fvec(-2.0, 0.0, n - 1))])
        t = t0 + (t1 - t0) * np.concatenate([[0.0], np.cumsum(w) / w.sum()])
    t = [float(x) for x in t]
    t[0], t[-1] = t0, t1
    return t


SFH_KINDS = ["knots", "wild", "zeros", "allzero", "exp", "quench", "burst", "late", "const", "floor"]


@st.composite
def sfh(draw, t, kinds=None):
    n = len(t)
    kind = draw(pick(kinds or SFH_KINDS))
    amp = draw(st.one_of(st.just(1.0), logu(1e-4, 1e4)))
    if kind == "knots":
        s = [10.0**x for x in draw(fvec(-3.0, 1.0, n))]
    elif kind == "wild":
        s = [10.0**x for x in draw(fvec(-13.0, 4.0, n))]
    elif kind == "zeros":
        s = [max(0.0, x) for x in draw(fvec(-1.0, 1.0, n))]
    elif kind == "allzero":
        s = [0.0] * n
    elif kind == "exp":
        tau = draw(logu(0.05, 20.0)) * draw(pick([-1.0, 1.0]))
        s = [math.exp(max(-60.0, min(60.0, -(x - t[0]) / tau))) for x in t]
    elif kind == "quench":
        k = draw(st.integers(0, n - 1))
        s = [1.0 if i <= k else 0.0 for i in range(n)]
    elif kind == "burst":
        k = draw(st.integers(0, n - 1))
        s = [1.0 if i == k else 0.0 for i in range(n)]
    elif kind == "late":
        k = draw(st.integers(0, n - 1))
        s = [1.0 if i >= k else 0.0 for i in range(n)]
    elif kind == "floor":
        # rates exactly at, just around and below the default minimum rate of 1e-14
        pool = (0.0, 1e-14, 1e-14, float(np.nextafter(1e-14, 0)), float(np.nextafter(1e-14, 1)), 1e-15, 3e-14, 1.0, 1e-3)
        amp = 1.0
        s = [pool[int(x)] for x in draw(fvec(0.0, len(pool) - 1e-6, n))]
    else:
        s = [1.0] * n
    return kind, [float(amp * x) for x in s]


@st.composite
def grid(draw, n, lo, hi):
    """Ascending grid of n points from lo to hi with spacings within a factor 4."""
    if draw(st.booleans()):
        g = np.linspace(lo, hi, n)
    else:
        d = np.array([2.0**x for x in draw(fvec(-1.0, 1.0, n - 1))])
        g = lo + (hi - lo) * np.concatenate([[0.0], np.cumsum(d) / d.sum()])
    g = [float(x) for x in g]
    g[0], g[-1] = float(lo), float(hi)
    return g


@st.composite
def lgage_grid(draw, n):
    lo = draw(uni(-5.0, -1.0))
    hi = draw(uni(max(lo + 1.0, -0.5), 1.4))
    return draw(grid(n, lo, hi))


@st.composite
def lgmet_grid(draw, n):
    lo = draw(uni(-5.0, -2.0))
    hi = lo + draw(uni(0.5, 4.0))
    return draw(grid(n, lo, hi))


def t_obs_bounds(t, lgage):
    """Observation times for which some stars have formed inside the age grid."""
    young = 10 ** (lgage[0] - (lgage[1] - lgage[0]) / 2)
    d = (lgage[-1] - lgage[-3]) / 4 if len(lgage) > 2 else 0.0
    old = 10 ** (lgage[-1] - d)  # at most this is inside the oldest bin's edge
    lo = t[0] + young * 1.05 + 0.01
    hi = max(lo + 0.01, min(1.3 * t[-1], t[-1] + 0.8 * old))
    return lo, hi


@st.composite
def t_obs(draw, t, lgage):
    lo, hi = t_obs_bounds(t, lgage)
    kind = draw(pick(["inside", "inside", "knot", "end", "beyond", "early"]))
    if kind == "knot":
        v = t[draw(st.integers(0, len(t) - 1))]
    elif kind == "end":
        v = t[-1]
    elif kind == "beyond":
        v = draw(uni(min(t[-1], hi), hi))
    elif kind == "early":
        v = lo + draw(uni(0.0, 0.3))
    else:
        v = draw(uni(lo, max(lo, t[-1])))
    return kind, float(min(hi, max(lo, v)))


@st.composite
def galaxy(draw, shp, kinds=None):
    n_t, n_age, n_met = draw(pick(shp))
    t = draw(time_table(n_t))
    kind, s = draw(sfh(t, kinds))
    lgage = draw(lgage_grid(n_age))
    tk, to = draw(t_obs(t, lgage))
    return dict(t=t, sfr=s, sfh_kind=kind, lgage=lgage, t_obs=to, t_obs_kind=tk, n_met=n_met)


@st.composite
def met(draw, g):
    """Adds metallicity inputs to a galaxy case."""
    lgmet = draw(lgmet_grid(g["n_met"]))
    span = lgmet[-1] - lgmet[0]
    g = dict(g)
    g["ssp_lgmet"] = lgmet
    g["lgmet"] = draw(gal_lgmet(lgmet))
    g["scatter"] = draw(scatter(span))
    return g


@st.composite
def gal_lgmet(draw, lgmet):
    lo, hi = lgmet[0], lgmet[-1]
    k = draw(pick(["in", "in", "in", "point", "near"]))
    if k == "in":
        return draw(uni(lo, hi))
    if k == "point":
        return lgmet[draw(st.integers(0, len(lgmet) - 1))]
    return draw(uni(lo - 1.0, hi + 1.0))


def scatter(span):
    return st.one_of(logu(1e-3, 2.0), uni(0.02, 0.6))


@st.composite
def met_table(draw, t, lgmet, kinds=("rand", "const", "rise", "step")):
    lo, hi = lgmet[0], lgmet[-1]
    n = len(t)
    k = draw(pick(list(kinds)))
    if k == "rand":
        return k, draw(fvec(lo - 0.3, hi + 0.3, n))
    if k == "const":
        return k, [draw(uni(lo, hi))] * n
    a, b = draw(uni(lo, hi)), draw(uni(lo, hi))
    if k == "rise":
        return k, [float(a + (b - a) * i / (n - 1)) for i in range(n)]
    j = draw(st.integers(0, n - 1))
    return k, [a if i < j else b for i in range(n)]


# ------------------------------------------------------------------ cosmology
@st.composite
def cosmo(draw):
    if draw(st.integers(0, 5)) == 0:
        return [float(x) for x in draw(pick([(0.3075, -1.0, 0.0, 0.6774), (0.277, -1.0, 0.0, 0.702), (0.27, -1.0, 0.0, 0.72), (0.3, -0.7, 0.3, 0.7), (1.0, -1.0, 0.0, 0.7)]))]
    om = draw(uni(0.05, 1.0))
    if draw(st.integers(0, 3)) == 0:
        # exotic dark energy: strongly phantom, or scaling like matter or faster early on
        w0 = draw(flat(-3.0, 0.5))
        if draw(st.booleans()):
            wa = draw(flat(-0.3, 0.5)) - w0
            wa = max(-3.0, min(2.0, wa, 0.5 - w0))
        else:
            wa = draw(flat(-3.0, min(2.0, 0.5 - w0)))
    else:
        w0 = draw(uni(-2.0, -0.3))
        wa = draw(uni(-1.0, min(0.5, -0.05 - w0)))
    h = draw(uni(0.3, 1.5))
    return [om, w0, wa, h]


def exotic(p):
    """Dark energy for which the package's fixed quadrature is least accurate."""
    return p[1] > -0.3 or p[1] + p[2] > -0.05


# ------------------------------------------------------------------ SEDs and filters
NW = [12, 40, 150]
NF = [5, 17, 60]


@st.composite
def wave_grid(draw, n, lo, hi):
    if draw(st.booleans()):
        g = np.logspace(np.log10(lo), np.log10(hi), n)
    else:
        d = np.array([10.0**x for x in draw(fvec(-1.0, 0.0, n - 1))])
        g = lo + (hi - lo) * np.concatenate([[0.0], np.cumsum(d) / d.sum()])
    g = [float(x) for x in g]
    g[0], g[-1] = float(lo), float(hi)
    return g


@st.composite
def sed(draw, n=None, positive=True):
    n = n or draw(pick(NW))
    lo = draw(logu(90.0, 3000.0))
    hi = lo * draw(logu(3.0, 1000.0))
    w = draw(wave_grid(n, lo, hi))
    amp = draw(st.one_of(st.just(1.0), logu(1e-12, 1e12)))
    kind = draw(pick(["knots", "flat", "power", "break"]))
    if kind == "knots":
        m = min(n, 12)
        k = draw(fvec(-2.0, 2.0, m))
        f = [10.0 ** k[i % m] for i in range(n)]
    elif kind == "flat":
        f = [1.0] * n
    elif kind == "power":
        g = draw(uni(-2.0, 2.0))
        f = [(x / 5000.0) ** g for x in w]
    else:
        wb = draw(logu(lo, hi))
        f = [1.0 if x > wb else 0.01 for x in w]
    return dict(w=w, f=[float(amp * x) for x in f], kind=kind)


@st.composite
def trans(draw, n):
    kind = draw(pick(["gauss", "top", "rand", "edge"]))
    if kind == "gauss":
        x = np.linspace(-3, 3, n)
        tr = np.exp(-0.5 * x**2)
    elif kind == "top":
        tr = np.ones(n)
        tr[0] = tr[-1] = 0.0
        if n < 4:
            tr[:] = 1.0
    elif kind == "rand":
        tr = np.array(draw(fvec(0.0, 1.0, n)))
        tr[n // 2] = max(tr[n // 2], 0.1)
    else:
        tr = np.linspace(0.0, 1.0, n)
    return kind, [float(x) for x in tr * draw(st.one_of(st.just(1.0), logu(0.01, 1.0)))]


@st.composite
def filt(draw, lo, hi, n=None):
    """A filter somewhere inside [lo, hi]."""
    n = n or draw(pick(NF))
    u = draw(flat(0.0, 0.9))
    a = lo * (hi / lo) ** u
    b = min(hi, a * (1.0 + draw(logu(0.01, 1.0))))
    if b <= a * 1.005:
        a = b / 1.01
    w = draw(wave_grid(n, a, b))
    k, tr = draw(trans(n))
    return dict(w=w, t=tr, kind=k)


def hashed(seed, shape, lo, hi):
    """Deterministic pseudo-random array in [lo, hi), a pure function of the drawn seed."""
    n = int(np.prod(shape))
    with np.errstate(over="ignore"):
        z = (np.arange(1, n + 1, dtype=np.uint64) + np.uint64(seed) * np.uint64(0x9E3779B9)) * np.uint64(0x9E3779B97F4A7C15)
        z = (z ^ (z >> np.uint64(30))) * np.uint64(0xBF58476D1CE4E5B9)
        z = (z ^ (z >> np.uint64(27))) * np.uint64(0x94D049BB133111EB)
        z = z ^ (z >> np.uint64(31))
    u = (z >> np.uint64(11)).astype(float) / float(1 << 53)
    return (lo + (hi - lo) * u).reshape(shape)


flux_spec = st.fixed_dictionaries(
    dict(
        seed=st.integers(0, 1 << 16), dex=st.one_of(flat(0.3, 4.0), flat(0.3, 4.0), flat(4.0, 25.0)),
        amp=st.one_of(logu(1e-10, 1e-2), logu(1e-10, 1e-2), logu(1e-60, 1e6)), zero=pick([0.0, 0.0, 0.3]),
    )
)


def flux_cube(spec, n_met, n_age, n_wave):
    """SSP flux cube (non-negative) from a few drawn numbers."""
    f = spec["amp"] * 10 ** hashed(spec["seed"], (n_met, n_age, n_wave), -spec["dex"], 0.0)
    if spec["zero"]:
        m = hashed(spec["seed"] + 7, (n_met, n_age, n_wave), 0.0, 1.0) < spec["zero"]
        f = np.where(m, 0.0, f)
    return f
