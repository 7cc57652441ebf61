"""C21 mass-metallicity parameter bounding."""
import numpy as np
from scipy.special import expit, logit

from .. import gen
from ..core import C, Facet, api, between, close, fail, finite, must_raise
from ..gen import st

RULE = (
    "Unbounded vectors over [-60,60], +-500, +-1e6 and +-1e300; bounded vectors inside the region (fractions of each interval to 1e-9 of both ends). "
    "Non-trivial: round trips with every component unsaturated; bounds facet: a saturated component or at least two strict increases."
)
ASSUMPTIONS = ["bounds are those declared in MZR_PBDICT; round trips judged up to conditioning at the bounds"]
TECHNIQUE = "round trip, reference sigmoid, monotonicity and saturation"
NOTE = "Random search over both spaces, tolerances from the conditioning of the logit."
M = "dsps.metallicity.umzr:"
K = 0.1
NAMES = (
    "mzr_t0_ytp", "mzr_t0_x0", "mzr_t0_k", "mzr_t0_slope_lo", "mzr_t0_slope_hi",
    "c0_y_at_tlook_c", "c1_y_at_tlook_c", "c0_early_time_slope", "c1_early_time_slope",
)
N = len(NAMES)


def u_elem():
    return st.one_of(gen.flat(-60.0, 60.0), gen.flat(-60.0, 60.0), gen.flat(-500.0, 500.0), gen.logu(1e-3, 1e6), gen.logu(1e-3, 1e6).map(lambda x: -x), gen.pick([0.0, -1e300, 1e300]))


@st.composite
def uvec(draw):
    return dict(u=draw(gen.vec(u_elem(), N)), d=draw(gen.vec(gen.logu(1e-2, 100.0), N)))


@st.composite
def uvec_mild(draw):
    return dict(u=draw(gen.vec(st.one_of(gen.flat(-60.0, 60.0), gen.flat(-120.0, 120.0)), N)))


def frac():
    return st.one_of(gen.flat(1e-6, 1 - 1e-6), gen.flat(1e-3, 1 - 1e-3), gen.logu(1e-9, 0.5), gen.logu(1e-9, 0.5).map(lambda x: 1 - x))


@st.composite
def pvec(draw):
    return dict(f=draw(gen.vec(frac(), N)))


DECLARED = dict(
    mzr_t0_ytp=(-1.0, 0.25), mzr_t0_x0=(10.25, 10.75), mzr_t0_k=(0.5, 2.0), mzr_t0_slope_lo=(0.1, 1.0), mzr_t0_slope_hi=(0.0, 0.3), c0_y_at_tlook_c=(-2.0, -1.0), c1_y_at_tlook_c=(0.0, 0.5),
    c0_early_time_slope=(-1.5, -0.5), c1_early_time_slope=(0.0, 0.5),
)


def bounds(slope_lo):
    B = api(M + "MZR_PBDICT")
    out = []
    for n in NAMES:
        lo, hi = (float(x) for x in B[n])
        if (lo, hi) != DECLARED[n] or tuple(float(x) for x in getattr(api(M + "MZR_PBOUNDS"), n)) != (lo, hi):
            fail("the declared bounds of {0} are {1} and {2}", n, (lo, hi), getattr(api(M + "MZR_PBOUNDS"), n))
        out.append((lo, hi, 0.5 * (lo + hi)) if n != "mzr_t0_slope_hi" else (lo, float(slope_lo), 0.0))
    return out


def to_p(u):
    U = api(M + "MZRUParams")(**{"u_" + n: x for n, x in zip(NAMES, u)})
    r = C(api(M + "get_bounded_mzr_params"), U)
    return np.array([float(finite(getattr(r, n), n)) for n in NAMES])


def to_u(p):
    r = C(api(M + "get_unbounded_mzr_params"), api(M + "MZRParams")(**dict(zip(NAMES, p))))
    return np.array([float(np.asarray(getattr(r, "u_" + n))) for n in NAMES])


ILO, IHI = NAMES.index("mzr_t0_slope_lo"), NAMES.index("mzr_t0_slope_hi")


def inside(c, ctx):
    u = c["u"]
    p = to_p(u)
    b = bounds(p[ILO])
    for i in range(N):
        lo, hi, x0 = b[i]
        between(p[i], lo, hi, NAMES[i], tol=1e-15 * max(abs(lo), abs(hi)))
        close(p[i], lo + (hi - lo) * expit(K * (u[i] - x0)), atol=1e-12 * max(1, abs(hi)), what=NAMES[i])
    if p[IHI] > p[ILO] * (1 + 1e-15):
        fail("high-mass slope {0!r} exceeds the low-mass slope {1!r}", p[IHI], p[ILO])
    moved = 0
    for i in (int(c["d"][0] * 1e6) % N, int(c["d"][1] * 1e6) % N, IHI):
        v = list(u)
        v[i] = u[i] + c["d"][i]
        if v[i] == u[i]:
            continue
        q = to_p(v)
        lo, hi, x0 = b[i]
        if q[i] < p[i] - 1e-15 * max(1, abs(hi)):
            fail("{0} decreases when its unbounded parameter grows from {1} to {2}", NAMES[i], u[i], v[i])
        if abs(K * (u[i] - x0)) < 20:
            if not q[i] > p[i]:
                fail("{0} does not increase when its unbounded parameter grows from {1} to {2}", NAMES[i], u[i], v[i])
            moved += 1
        for j in range(N):
            if j != i and not (i == ILO and j == IHI) and abs(q[j] - p[j]) > 1e-14:
                fail("{0} changes with the unbounded parameter of {1}", NAMES[j], NAMES[i])
    sat = any(abs(K * (x - y[2])) > 30 for x, y in zip(u, b))
    ctx.label("saturated" if sat else "regular")
    ctx.nt(sat or moved >= 2)


def u_trip(c, ctx):
    u = np.array(c["u"])
    p = to_p(c["u"])
    b = bounds(p[ILO])
    back = to_u(p)
    sharp = 0
    for i in range(N):
        lo, hi, x0 = b[i]
        f = float(expit(K * (u[i] - x0)))
        if f * (1 - f) < 1e-9:
            continue
        err = 2e-15 * (1 + max(abs(lo), abs(hi)) / (hi - lo)) / (f * (1 - f)) / K
        close(back[i], u[i], atol=10 * err + 1e-11, what="round trip of u_" + NAMES[i])
        sharp += err < 1e-6
    ctx.label("sharp:%d" % sharp)
    ctx.nt(sharp == N)


def p_trip(c, ctx):
    f = c["f"]
    b0 = bounds(1.0)
    p = np.array([lo + (hi - lo) * x for x, (lo, hi, _) in zip(f, b0)])
    b = bounds(p[ILO])
    p[IHI] = b[IHI][0] + (b[IHI][1] - b[IHI][0]) * f[IHI]
    if not all(lo < v < hi for v, (lo, hi, _) in zip(p, b)):
        ctx.label("corner")
        return
    u = finite(to_u(p), "unbounded parameters")
    for i in range(N):
        lo, hi, x0 = b[i]
        g = (p[i] - lo) / (hi - lo)
        s = max(abs(lo), abs(hi)) / (hi - lo)
        close(u[i], x0 + float(logit(g)) / K, atol=4e-15 * (s / (g * (1 - g)) + 1) / K + 1e-11, what="u_" + NAMES[i])
    close(to_p(u), p, atol=1e-12, what="round trip of bounded parameters")
    ctx.nt(min(min(x, 1 - x) for x in f) > 1e-6)
    ctx.label("corner-ish" if min(min(x, 1 - x) for x in f) < 1e-5 else "inside")


@st.composite
def misc_case(draw):
    return dict(seed=draw(st.integers(0, 2**31 - 1)))


def misc(c, ctx):
    """Defaults, wrong tuples, random present-day parameters."""
    import jax

    D, U = api(M + "DEFAULT_MZR_PARAMS"), api(M + "DEFAULT_MZR_U_PARAMS")
    d = [float(getattr(D, n)) for n in NAMES]
    u = [float(getattr(U, "u_" + n)) for n in NAMES]
    close(to_u(d), np.array(u), atol=1e-6, what="unbounded default parameters")
    close(to_p(u), np.array(d), atol=1e-9, what="bounded default parameters")
    for v, (lo, hi, _), n in zip(d, bounds(d[ILO]), NAMES):
        between(v, lo, hi, "default " + n)
    r = gen.hashed(c["seed"], (N,), -50, 50)
    must_raise((AttributeError, TypeError, ValueError), api(M + "get_bounded_mzr_params"), api(M + "MZRParams")(*d))
    must_raise((AttributeError, TypeError, ValueError), api(M + "get_unbounded_mzr_params"), api(M + "MZRUParams")(*r))
    B = api(M + "MZR_T0_PBDICT")
    p = C(api(M + "get_ran_t0_params"), jax.random.PRNGKey(c["seed"]))
    if len(p) != len(B):
        fail("{0} random parameters for {1} bounds", len(p), len(B))
    for x, (n, (lo, hi)) in zip(p, B.items()):
        between(float(x), lo, hi, "random " + n, tol=1e-7)
    fr = [(float(x) - lo) / (hi - lo) for x, (lo, hi) in zip(p, B.values())]
    if len(set(round(x, 9) for x in fr)) == 1:
        fail("all random parameters sit at the same fraction {0} of their bounds", fr[0])
    p2 = C(api(M + "get_ran_t0_params"), jax.random.PRNGKey(c["seed"]))
    if [float(x) for x in p2] != [float(x) for x in p]:
        fail("random parameters are not reproducible for the same key")
    ctx.nt()


FACETS = [
    Facet("inside", lambda t, s: uvec(), inside, 700, 8000, qshards=3, tshards=8, cost=1.5),
    Facet("u_trip", lambda t, s: uvec_mild(), u_trip, 700, 8000, qshards=2, tshards=8),
    Facet("p_trip", lambda t, s: pvec(), p_trip, 700, 8000, qshards=2, tshards=8),
    Facet("misc", lambda t, s: misc_case(), misc, 150, 1000, qshards=1, tshards=2),
]
