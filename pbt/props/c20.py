"""C20 burst parameter bounding."""
import numpy as np
from scipy.special import expit, logit

from .. import gen
from ..core import C, Facet, api, between, close, fail, finite, same
from ..gen import st

RULE = (
    "Unbounded vectors over [-60,60], +-500, +-1e6 and +-1e300; bounded vectors drawn inside the region (fractions of each interval down to 1e-9 "
    "from both ends). Non-trivial: not saturated (fraction between 1e-6 and 1-1e-6 in every component) for round trips; "
    "any vector with a component saturated for the bounds facet, or at least two components changed for monotonicity."
)
ASSUMPTIONS = ["round trips judged up to conditioning at the bounds"]
TECHNIQUE = "round trip, reference sigmoid, monotonicity and saturation"
NOTE = "Random search over both spaces, tolerances from the conditioning of the logit."
M = "dsps.sfh.diffburst:"
K = 0.1


def u_elem():
    return st.one_of(gen.flat(-60.0, 60.0), gen.flat(-500.0, 500.0), gen.logu(1e-3, 1e6), gen.logu(1e-3, 1e6).map(lambda x: -x), gen.pick([0.0, -1e300, 1e300, 1e4, -1e4]))


@st.composite
def uvec(draw):
    return dict(u=draw(gen.vec(u_elem(), 3)), d=draw(gen.vec(gen.logu(1e-3, 100.0), 3)))


@st.composite
def uvec_mild(draw):
    return dict(u=draw(gen.vec(st.one_of(gen.flat(-60.0, 60.0), gen.flat(-120.0, 120.0)), 3)))


def frac():
    return st.one_of(gen.flat(1e-6, 1 - 1e-6), gen.logu(1e-9, 0.5), gen.logu(1e-9, 0.5).map(lambda x: 1 - x))


@st.composite
def pvec(draw):
    return dict(f=draw(gen.vec(frac(), 3)))


def bounds(peak):
    return [(-8.0, -1.0, -2.0), (5.0, 8.0, 6.5), (peak + 1.0, 9.0, 0.5 * (peak + 10.0))]


def forward(u):
    lgf = -8 + 7 * expit(K * (u[0] + 2))
    peak = 5 + 3 * expit(K * (u[1] - 6.5))
    mid = 0.5 * (peak + 10)
    mx = peak + 1 + (8 - peak) * expit(K * (u[2] - mid))
    return np.array([lgf, peak, mx])


def to_p(u):
    r = C(api(M + "_get_params_from_u_params"), api(M + "BurstUParams")(*u))
    return [float(finite(x, "bounded burst parameter")) for x in (r.lgfburst, r.lgyr_peak, r.lgyr_max)]


def to_u(p):
    r = C(api(M + "_get_u_params_from_params"), api(M + "BurstParams")(*p))
    return [float(np.asarray(x)) for x in (r.u_lgfburst, r.u_lgyr_peak, r.u_lgyr_max)]


def inside(c, ctx):
    u = c["u"]
    p = to_p(u)
    close(np.array(p), forward(u), atol=1e-12, what="bounded burst parameters")
    names = ("lgfburst", "lgyr_peak", "lgyr_max")
    b = bounds(p[1])
    for i in range(3):
        between(p[i], b[i][0], b[i][1], names[i], tol=1e-14 * 9)
    # each increases with its own unbounded parameter, the others fixed
    moved = 0
    for i in range(3):
        v = list(u)
        v[i] = u[i] + c["d"][i]
        if v[i] == u[i]:
            continue
        q = to_p(v)
        if q[i] < p[i] - 1e-14:
            fail("{0} decreases when its unbounded parameter grows from {1} to {2}", names[i], u[i], v[i])
        lo, hi, x0 = b[i]
        x = K * (u[i] - x0)
        if hi - lo > 1e-6 and abs(x) < 20 and c["d"][i] > 1e-2:
            if not q[i] > p[i]:
                fail("{0} does not increase when its unbounded parameter grows from {1} to {2}", names[i], u[i], v[i])
            moved += 1
        for j in range(3):
            if j != i and not (i == 1 and j == 2) and abs(q[j] - p[j]) > 1e-14:
                fail("{0} changes with the unbounded parameter of {1}", names[j], names[i])
    sat = any(abs(K * (u[i] - b[i][2])) > 30 for i in range(3))
    ctx.label("saturated" if sat else "regular")
    ctx.nt(sat or moved >= 2)


def u_trip(c, ctx):
    u = np.array(c["u"])
    p = to_p(c["u"])
    b = bounds(p[1])
    back = np.array(to_u(p))
    sharp = 0
    for i in range(3):
        lo, hi, x0 = b[i]
        f = float(expit(K * (u[i] - x0)))
        width = hi - lo
        if f * (1 - f) < 1e-9 or width < 1e-6:
            continue
        err = (4e-16 / (1 - f) + 2e-15 / (width * f)) / K + 2e-15 / (width * f * (1 - f)) / K
        close(back[i], u[i], atol=10 * err + 1e-12 * abs(u[i]) + 1e-11, what="round trip of unbounded component %d" % i)
        sharp += err < 1e-6
    ctx.label("sharp:%d" % sharp)
    ctx.nt(sharp == 3)


def p_trip(c, ctx):
    f = c["f"]
    lgf = -8 + 7 * f[0]
    peak = 5 + 3 * f[1]
    mx = (peak + 1) + (8 - peak) * f[2]
    p = np.array([lgf, peak, mx])
    if not (peak + 1 < mx < 9 and -8 < lgf < -1 and 5 < peak < 8):
        ctx.label("corner")
        return
    u = to_u(p)
    finite(u, "unbounded burst parameters")
    b = bounds(peak)
    want = [x0 + float(logit((v - lo) / (hi - lo))) / K for v, (lo, hi, x0) in zip(p, b)]
    for i in range(3):
        lo, hi, x0 = b[i]
        g = (p[i] - lo) / (hi - lo)
        err = 4e-15 * (9 / ((hi - lo) * g * (1 - g)) + 1) / K
        close(u[i], want[i], atol=err + 1e-11, what="unbounded component %d" % i)
    close(np.array(to_p(u)), p, atol=1e-12, what="round trip of bounded parameters")
    ctx.nt(min(min(x, 1 - x) for x in f) > 1e-6)
    ctx.label("corner-ish" if min(min(x, 1 - x) for x in f) < 1e-5 else "inside")


def default(c, ctx):
    P, U = api(M + "DEFAULT_BURST_PARAMS"), api(M + "DEFAULT_BURST_U_PARAMS")
    close(np.array(to_p([float(x) for x in U])), np.array([float(x) for x in P]), atol=1e-9, what="default parameters")
    same(np.array([float(P.lgfburst), float(P.lgyr_peak), float(P.lgyr_max)]), np.array([-3.0, 5.5, 7.0]), "default burst parameters")
    b = bounds(float(P.lgyr_peak))
    for v, (lo, hi, _) in zip(P, b):
        between(float(v), lo, hi, "default parameter")
    ctx.nt()


FACETS = [
    Facet("inside", lambda t, s: uvec(), inside, 1000, 12000, qshards=3, tshards=8),
    Facet("u_trip", lambda t, s: uvec_mild(), u_trip, 1000, 12000, qshards=2, tshards=8),
    Facet("p_trip", lambda t, s: pvec(), p_trip, 1000, 12000, qshards=3, tshards=8),
    Facet("default", lambda t, s: st.just({}), default, 1, 1, tshards=1, cost=0.1),
]
