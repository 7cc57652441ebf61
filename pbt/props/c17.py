"""C17 dust transmission."""
import numpy as np

from .. import gen
from ..core import C, Facet, api, between, close, fail, finite
from ..gen import st

RULE = (
    "Reddening values of either sign and any size (arrays of 1, 5 and 70-5000), Av>=0, floors in [0,1] including both ends. "
    "Non-trivial: some positive k, Av>0, floor strictly between 0 and 1 (relations: also a changed Av)."
)
ASSUMPTIONS = ["real reddening values, |k| up to 1e4"]
TECHNIQUE = "reference model and metamorphic relations (monotonicity, screens multiply)"
NOTE = "Random search against the formula of the statement, relations to rounding."
M = "dsps.dust.att_curves:"


@st.composite
def case(draw, n=None):
    big = n
    n = n or draw(gen.pick([1, 5]))
    kv = st.one_of(gen.flat(-5.0, 20.0), gen.logu(1e-6, 1e4), gen.logu(1e-6, 1e4).map(lambda x: -x), st.just(0.0))
    av = st.one_of(gen.flat(0.0, 5.0), gen.logu(1e-8, 100.0), st.just(0.0))
    fl = st.one_of(gen.flat(0.0, 1.0), gen.pick([0.0, 1.0]), gen.logu(1e-10, 1.0))
    return dict(k=draw(gen.bulk(n, -5.0, 20.0) if big else gen.vec(kv, n)), av=draw(av), av2=draw(av), floor=draw(fl), floor2=draw(fl), default=draw(st.booleans()))


def reference(c, ctx):
    f = api(M + "_frac_transmission_from_k_lambda")
    k = np.array(c["k"])
    A = np.maximum(k * c["av"] / 4.05, 0.0)
    T = 10 ** (-0.4 * A)
    got = C(f, k, c["av"], c["floor"])
    close(got, c["floor"] + (1 - c["floor"]) * T, atol=1e-14, rtol=1e-12, what="transmitted fraction")
    # small transmissions to relative precision
    g0 = C(f, k, c["av"]) if c["default"] else C(f, k, c["av"], 0.0)
    close(g0, T, rtol=1e-12 + 1e-15 * float(A.max()), atol=1e-300, what="transmitted fraction without floor")
    between(got, c["floor"], 1.0, "transmitted fraction", tol=1e-15)
    if np.any(np.asarray(C(f, k, 0.0, c["floor"])) != 1.0) and not np.allclose(np.asarray(C(f, k, 0.0, c["floor"])), 1, atol=1e-15):
        fail("transmission without dust differs from one")
    ctx.label("floor:0" if c["floor"] == 0 else "floor:1" if c["floor"] == 1 else "floor:mid", "neg-k" if k.min() < 0 else "pos-k")
    ctx.nt(k.max() > 0 and c["av"] > 0 and 0 < c["floor"] < 1)


def relations(c, ctx):
    f = api(M + "_frac_transmission_from_k_lambda")
    k = np.array(c["k"])
    a, b = sorted([c["av"], c["av2"]])
    lo, hi = sorted([c["floor"], c["floor2"]])
    T = lambda av, fl, kk=k: finite(C(f, kk, av, fl), "transmission")  # noqa: E731
    eps = 1e-15
    if np.any(T(b, lo) > T(a, lo) + eps):
        fail("transmission increases with Av")
    if np.any(T(a, hi) < T(a, lo) - eps):
        fail("transmission decreases when the floor is raised")
    o = np.sort(k)
    if np.any(np.diff(T(b, lo, o)) > eps):
        fail("transmission increases with k")
    close(T(a + b, 0.0), T(a, 0.0) * T(b, 0.0), rtol=1e-11, atol=1e-300, what="two dust screens")
    close(T(a, lo)[:1], T(a, lo, k[:1]), rtol=1e-13, what="transmission of one point alone")
    close(C(f, float(k[0]), a, lo), T(a, lo)[0], rtol=1e-13, what="transmission of a scalar")
    # a different floor for every wavelength acts elementwise
    fl = np.linspace(lo, hi, len(k))
    close(C(f, k, b, fl), [float(T(b, x, k[i : i + 1])[0]) for i, x in enumerate(fl)], rtol=1e-13, what="transmission with an array of floors")
    avs = np.linspace(a, b, len(k))
    j = np.unique([0, len(k) // 2, len(k) - 1])
    close(np.asarray(C(f, k, avs, lo))[j], [float(T(x, lo, k[i : i + 1])[0]) for i, x in zip(j, avs[j])], rtol=1e-13, what="transmission with an array of Av")
    ctx.label("n=%d" % len(k))
    ctx.nt(k.max() > 0 and 0 < a < b and lo < hi)


FACETS = [
    Facet("reference", lambda t, s: case(), reference, 1500, 15000, qshards=3, tshards=8),
    Facet("reference-large", lambda t, s: case(gen.longs(s)), reference, 60, 800, qshards=4, tshards=8),
    Facet("relations-large", lambda t, s: case(gen.longs(s, (70, 400))), relations, 20, 200, qshards=2, tshards=4),
    Facet("relations", lambda t, s: case(), relations, 700, 8000, qshards=4, tshards=8),
]
