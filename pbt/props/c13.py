"""C13 cosmological distances."""
import numpy as np

from .. import gen, ref
from ..core import C, Facet, api, close, fail, finite
from ..gen import st

RULE = (
    "Flat w0-wa cosmologies over the stated parameter box (plus the named ones), redshifts 0, tiny, and up to 20, arrays of 1-6 and of 70-5000 redshifts. "
    "Non-trivial: z>0.01 in a cosmology that is not one of the two the unit tests use (for 'relations': at least two distinct redshifts). named: the named cosmologies against their published parameters, arguments by name in any order."
)
ASSUMPTIONS = ["c = 299792.458 km/s; 0.08 percent (0.25 for w0>-0.3 or w0+wa>-0.05) allowed for the package's fixed quadrature"]
TECHNIQUE = "reference model (Gauss-Legendre quadrature of 1/E) and exact metamorphic relations"
NOTE = "Random search over cosmology and redshift against an independent quadrature; derived distances to 1e-12."
M = "dsps.cosmology.flat_wcdm:"


def zs():
    return st.one_of(gen.flat(0.0, 20.0), gen.logu(1e-6, 20.0), gen.flat(0.0, 2.0), gen.pick([0.0, 1.0, 20.0]))


@st.composite
def one(draw):
    return dict(cosmo=draw(gen.cosmo()), z=draw(zs()))


@st.composite
def many(draw):
    z = draw(gen.vec(zs(), draw(gen.pick([1, 2, 6]))))
    return dict(cosmo=draw(gen.cosmo()), z=z, k=draw(gen.uni(0.3, 3.0)))


def reference(c, ctx):
    p, z = c["cosmo"], c["z"]
    got = C(api(M + "comoving_distance_to_z"), z, *p)
    want = ref.comoving_distance(z, *p)
    acc = 2.5e-3 if gen.exotic(p) else 8e-4
    close(got, want, rtol=acc, what="comoving distance")
    # much closer where the package's quadrature is fine: error ~ (step)^2
    if z <= 1:
        close(got, want, rtol=2e-5, what="comoving distance at z<=1")
    close(C(api(M + "luminosity_distance_to_z"), z, *p), want * (1 + z), rtol=acc, what="luminosity distance")
    close(C(api(M + "angular_diameter_distance_to_z"), z, *p), want / (1 + z), rtol=acc, what="angular-diameter distance")
    if z > 0:
        close(C(api(M + "distance_modulus_to_z"), z, *p), 5 * np.log10(want * (1 + z) * 1e5), atol=2.2 * acc, what="distance modulus")
    ctx.label("z<1" if z < 1 else "z<6" if z < 6 else "z>=6", "phantom" if p[1] + p[2] < -1 else "early" if p[1] + p[2] > 0 else "quintessence")
    ctx.nt(z > 0.01)


def relations(c, ctx):
    p, z = c["cosmo"], c["z"]
    za = np.array(z)
    d = [float(finite(C(api(M + "comoving_distance_to_z"), x, *p), "comoving distance")) for x in z]
    vec = C(api(M + "comoving_distance"), za, *p)
    close(vec, d, rtol=1e-12, what="vectorised comoving distance")
    for name, sc, fac in (
        ("luminosity_distance", "luminosity_distance_to_z", 1 + za),
        ("angular_diameter_distance", "angular_diameter_distance_to_z", 1 / (1 + za)),
    ):
        want = np.array(d) * fac
        close(C(api(M + name), za, *p), want, rtol=1e-12, what=name)
        close([float(C(api(M + sc), x, *p)) for x in z], want, rtol=1e-12, what=sc)
    mu = C(api(M + "distance_modulus"), za, *p)
    pos = za > 0
    with np.errstate(divide="ignore"):
        want = 5 * np.log10(np.array(d) * (1 + za) * 1e5)
    close(np.asarray(mu)[pos], want[pos], rtol=1e-12, what="vectorised distance modulus")
    close([float(C(api(M + "distance_modulus_to_z"), x, *p)) for x in za[pos]], want[pos], rtol=1e-12, what="distance modulus")
    if float(C(api(M + "comoving_distance_to_z"), 0.0, *p)) != 0.0:
        fail("comoving distance at z=0 is not zero")
    q = list(p)
    q[3] = p[3] * c["k"]
    close(C(api(M + "comoving_distance"), za, *q), np.array(d) / c["k"], rtol=1e-12, what="comoving distance with h scaled")
    o = np.argsort(za)
    ds, zz = np.array(d)[o], za[o]
    for i in range(len(zz) - 1):
        if zz[i + 1] > zz[i] * (1 + 1e-9) + 1e-12 and not ds[i + 1] > ds[i]:
            fail("comoving distance is not increasing: d({0})={1}, d({2})={3}", zz[i], ds[i], zz[i + 1], ds[i + 1])
    ctx.label("n=%d" % len(z))
    ctx.nt(len(set(z)) >= 2)


@st.composite
def many_z(draw, n):
    return dict(cosmo=draw(gen.cosmo()), z=draw(st.one_of(gen.bulk(n, 0.0, 20.0), gen.bulk(n, 1e-6, 20.0, True))), sort=draw(st.booleans()))


def large(c, ctx):
    """Arrays of any length are evaluated point by point."""
    p = c["cosmo"]
    z = np.array(sorted(c["z"]) if c["sort"] else c["z"])
    grid = np.concatenate([[0.0], np.geomspace(1e-6, 21.0, 400)])
    d = np.interp(z, grid, [ref.comoving_distance(x, *p) for x in grid])
    acc = 3e-3 if gen.exotic(p) else 1.5e-3
    got = close(C(api(M + "comoving_distance"), z, *p), d, rtol=acc, what="comoving distance of many redshifts")
    close(C(api(M + "luminosity_distance"), z, *p), got * (1 + z), rtol=1e-12, what="luminosity distance of many redshifts")
    close(C(api(M + "angular_diameter_distance"), z, *p), got / (1 + z), rtol=1e-12, what="angular-diameter distance of many redshifts")
    close(C(api(M + "distance_modulus"), z, *p), 5 * np.log10(got * (1 + z) * 1e5), rtol=1e-12, what="distance modulus of many redshifts")
    i = np.linspace(0, len(z) - 1, 7).astype(int)
    close([float(C(api(M + "comoving_distance_to_z"), float(z[j]), *p)) for j in i], got[i], rtol=1e-12, what="comoving distance of many redshifts against one")
    ctx.label("n=%d" % len(z))
    ctx.nt()


def fine(c, ctx):
    """Monotonic on a fine grid, and increments agree with the integrand."""
    p = c["cosmo"]
    z = np.linspace(0, c["z"], 60)
    if c["z"] < 1e-3:
        ctx.label("degenerate")
        return
    d = np.asarray(C(api(M + "comoving_distance"), z, *p))
    if not np.all(np.diff(d) > 0):
        fail("comoving distance does not increase between z={0}", z[np.argmin(np.diff(d))])
    want = np.array([ref.comoving_distance(x, *p) for x in z[::6]])
    close(d[::6], want, rtol=2.5e-3 if gen.exotic(p) else 8e-4, what="comoving distance on a grid")
    ctx.nt()


PUBLISHED = dict(PLANCK15=(0.3075, -1.0, 0.0, 0.6774), WMAP5=(0.277, -1.0, 0.0, 0.702), FSPS_COSMO=(0.27, -1.0, 0.0, 0.72), DEFAULT_COSMOLOGY=(0.3075, -1.0, 0.0, 0.6774))
FIELDS = ("Om0", "w0", "wa", "h")


def named(c, ctx):
    """The named cosmologies have their published parameters."""
    p, z = PUBLISHED[c["name"]], c["z"]
    q = api("dsps.cosmology:" + c["name"])
    for x in (q, api("dsps.cosmology.flat_wcdm:" + c["name"]) if c["name"] != "DEFAULT_COSMOLOGY" else api("dsps.cosmology.defaults:DEFAULT_COSMOLOGY")):
        close(list(x), p, atol=1e-12, what="parameters of " + c["name"])
        for k, v in zip(FIELDS, p):
            close(getattr(x, k), v, atol=1e-12, what="{0} of {1}".format(k, c["name"]))
    close(C(api(M + "comoving_distance_to_z"), z, *q), ref.comoving_distance(z, *p), rtol=8e-4, what="comoving distance in " + c["name"])
    # the fields may be named in any order
    o = c["order"]
    r = api(M + "CosmoParams")(**{FIELDS[i]: p[i] for i in o})
    close(C(api(M + "luminosity_distance_to_z"), z, *r), C(api(M + "luminosity_distance_to_z"), z, *p), rtol=1e-12, what="luminosity distance of named parameters")
    kw = {FIELDS[i]: p[i] for i in o}
    for f in ("comoving_distance_to_z", "luminosity_distance_to_z", "angular_diameter_distance_to_z", "distance_modulus_to_z"):
        close(C(api(M + f), redshift=z, **kw), C(api(M + f), z, *p), rtol=1e-12, what=f + " with named arguments")
    ctx.label(c["name"])
    ctx.nt(z > 0.01)


FACETS = [
    Facet("named", lambda t, s: st.fixed_dictionaries(dict(name=gen.pick(list(PUBLISHED)), z=gen.logu(1e-3, 20.0), order=st.permutations(range(4)))), named, 150, 2000, qshards=1, tshards=2),
    Facet("reference", lambda t, s: one(), reference, 2500, 30000, qshards=3, tshards=10),
    Facet("relations", lambda t, s: many(), relations, 700, 8000, qshards=3, tshards=10, cost=2),
    Facet("large", lambda t, s: many_z(gen.longs(s)), large, 60, 900, qshards=4, tshards=8),
    Facet("fine", lambda t, s: one(), fine, 500, 6000, qshards=2, tshards=6),
]
