"""C14 cosmic ages and lookback times."""
import numpy as np

from .. import gen, ref
from ..core import C, Facet, api, close, fail, finite
from ..gen import st

RULE = (
    "Cosmologies as in C13, redshifts 0, tiny and up to 100, arrays of 1-6 and of 70-5000 redshifts. Non-trivial: z>0.01 (for 'relations': "
    "at least two distinct redshifts)."
)
ASSUMPTIONS = [
    "tolerances 0.02 percent (lookback) and 0.002 Gyr*0.7/h (age) cover the package's fixed quadrature (measured: 1e-4, 0.001)",
    "tropical-year Gyr",
]
TECHNIQUE = "reference model (Gauss-Legendre quadrature in ln(1+z)) and exact metamorphic relations"
NOTE = "Random search over cosmology and redshift against an independent quadrature; exact relations to 1e-10."
M = "dsps.cosmology.flat_wcdm:"


def zs():
    return st.one_of(gen.flat(0.0, 20.0), gen.logu(1e-6, 100.0), gen.flat(0.0, 2.0), gen.flat(20.0, 100.0), gen.pick([0.0, 1.0, 20.0, 100.0]))


@st.composite
def one(draw):
    return dict(cosmo=draw(gen.cosmo()), z=draw(zs()))


@st.composite
def many(draw):
    return dict(cosmo=draw(gen.cosmo()), z=draw(gen.vec(zs(), draw(gen.pick([1, 2, 6])))), k=draw(gen.uni(0.3, 3.0)))


def scalar(x, what):
    a = finite(x, what)
    if a.shape not in ((), (1,)):
        fail("{0} has shape {1}", what, a.shape)
    return float(a.reshape(()))


def reference(c, ctx):
    p, z = c["cosmo"], c["z"]
    tl = scalar(C(api(M + "lookback_to_z"), z, *p), "lookback time")
    close(tl, ref.lookback(z, *p), rtol=2e-4, what="lookback time")
    if z == 0 and tl != 0:
        fail("lookback time at z=0 is {0!r}", tl)
    a = scalar(C(api(M + "age_at_z"), z, *p), "age")
    close(a, ref.age(z, *p), atol=2e-3 * 0.7 / p[3], what="age of the universe")
    if not a > 0:
        fail("age at z={0} is {1!r}", z, a)
    a0 = scalar(C(api(M + "age_at_z0"), *p), "present age")
    close(a0, ref.age(0.0, *p), atol=2e-3 * 0.7 / p[3], what="present age")
    close(a + tl, a0, rtol=1e-11, what="age plus lookback time")
    ctx.label("z<1" if z < 1 else "z<20" if z < 20 else "z>=20")
    ctx.nt(z > 0.01)


def relations(c, ctx):
    p, z = c["cosmo"], c["z"]
    za = np.array(z)
    tl = np.array([scalar(C(api(M + "lookback_to_z"), x, *p), "lookback") for x in z])
    close(C(api(M + "lookback_time"), za, *p), tl, rtol=1e-12, what="vectorised lookback time")
    a = close(C(api(M + "age_at_z"), za, *p), [scalar(C(api(M + "age_at_z"), x, *p), "age") for x in z], rtol=1e-12, what="age at an array of redshifts")
    a0 = scalar(C(api(M + "age_at_z0"), *p), "present age")
    close(a + tl, np.full(len(z), a0), rtol=1e-11, what="age plus lookback time")
    close(C(api(M + "age_at_z"), 0.0, *p), np.array([a0]), rtol=1e-12, what="age at z=0")
    if scalar(C(api(M + "lookback_to_z"), 0.0, *p), "lookback") != 0:
        fail("lookback time at z=0 is not zero")
    q = list(p)
    q[3] = p[3] * c["k"]
    close(C(api(M + "age_at_z"), za, *q), a / c["k"], rtol=1e-10, what="age with h scaled")
    close(C(api(M + "lookback_time"), za, *q), tl / c["k"], rtol=1e-10, what="lookback with h scaled")
    o = np.argsort(za)
    for i, j in zip(o[:-1], o[1:]):
        if za[j] > za[i] * (1 + 1e-6) + 1e-9:
            if not tl[j] > tl[i]:
                fail("lookback time is not increasing between z={0} and z={1}", za[i], za[j])
            if not a[j] < a[i]:
                fail("age is not decreasing between z={0} and z={1}", za[i], za[j])
    if not np.all(a > 0):
        fail("non-positive age {0!r}", float(a.min()))
    ctx.label("n=%d" % len(z))
    ctx.nt(len(set(z)) >= 2)


@st.composite
def many_z(draw, n):
    return dict(cosmo=draw(gen.cosmo()), z=draw(st.one_of(gen.bulk(n, 0.0, 100.0), gen.bulk(n, 1e-6, 100.0, True))), sort=draw(st.booleans()))


def large(c, ctx):
    """Arrays of any length are evaluated point by point."""
    p = c["cosmo"]
    z = np.array(sorted(c["z"]) if c["sort"] else c["z"])
    grid = np.concatenate([[0.0], np.geomspace(1e-6, 101.0, 500)])
    want = np.interp(z, grid, [ref.lookback(x, *p) for x in grid])
    tl = close(C(api(M + "lookback_time"), z, *p), want, rtol=1.5e-3, what="lookback time of many redshifts")
    a = close(C(api(M + "age_at_z"), z, *p), np.interp(z, grid, [ref.age(x, *p) for x in grid]), atol=0.01 / p[3], what="age at many redshifts")
    close(a + tl, np.full(len(z), scalar(C(api(M + "age_at_z0"), *p), "present age")), rtol=1e-11, what="age plus lookback time of many redshifts")
    i = np.linspace(0, len(z) - 1, 7).astype(int)
    close([scalar(C(api(M + "lookback_to_z"), float(z[j]), *p), "lookback") for j in i], tl[i], rtol=1e-12, what="lookback time of many redshifts against one")
    ctx.label("n=%d" % len(z))
    ctx.nt()


def today(c, ctx):
    """The packaged present age belongs to the packaged default cosmology."""
    T = api("dsps.cosmology:TODAY")
    D = api("dsps.cosmology:DEFAULT_COSMOLOGY")
    close(float(T), ref.age(0.0, *[float(x) for x in D]), atol=2e-3, what="TODAY")
    close(float(T), scalar(C(api(M + "age_at_z0"), *D), "age"), rtol=1e-6, what="TODAY")
    ctx.nt()


FACETS = [
    Facet("reference", lambda t, s: one(), reference, 2500, 30000, qshards=4, tshards=12),
    Facet("relations", lambda t, s: many(), relations, 700, 8000, qshards=4, tshards=12, cost=2),
    Facet("large", lambda t, s: many_z(gen.longs(s)), large, 60, 900, qshards=4, tshards=8),
    Facet("today", lambda t, s: st.just({}), today, 1, 1, tshards=1, cost=0.1),
]
