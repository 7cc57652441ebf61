"""C15 critical density, matter fraction, volume, dynamical time."""
import numpy as np

from .. import gen, ref
from ..core import C, Facet, api, close, fail, finite, helper
from ..gen import st

RULE = (
    "Cosmologies as in C13, scalar redshifts and arrays of 1-6 and of 70-5000 redshifts in [0,20]. Non-trivial: z>0.01 and (for volumes) a positive volume."
)
ASSUMPTIONS = ["package constants for the critical density, year and Mpc"]
TECHNIQUE = "reference model and numerical integration of the differential volume"
NOTE = "Random search over cosmology and redshift against formulas written from the statement."
M = "dsps.cosmology.flat_wcdm:"
DH = 2997.92458
TH = 1e-16 * 3.08567758149e24 / 31556925.2  # 1/H0 for h=1, in Gyr


def zs():
    return st.one_of(gen.flat(0.0, 20.0), gen.logu(1e-6, 20.0), gen.flat(0.0, 2.0), gen.pick([0.0, 1.0, 20.0]))


@st.composite
def case(draw):
    return dict(cosmo=draw(gen.cosmo()), z=draw(gen.vec(zs(), draw(gen.pick([1, 2, 6])))))


@st.composite
def many_z(draw, n):
    return dict(cosmo=draw(gen.cosmo()), z=draw(st.one_of(gen.bulk(n, 0.0, 20.0), gen.bulk(n, 1e-6, 20.0, True))))


def om_z(z, om, w0, wa):
    return om * (1 + z) ** 3 / ref.efunc(z, om, w0, wa) ** 2


def formulas(c, ctx):
    om, w0, wa, h = p = c["cosmo"]
    z = np.array(c["z"])
    E = ref.efunc(z, om, w0, wa)
    rho = 277.536627 * h * h * E**2
    x = om_z(z, om, w0, wa) - 1
    delta = 18 * np.pi**2 + 82 * x - 39 * x * x
    tdyn = 2**1.5 * TH / h / E / np.sqrt(delta)
    for name, want, tol in (("rho_crit", rho, 1e-6), ("virial_dynamical_time", tdyn, 1e-6)):
        f = api(M + name)
        close(C(f, z, *p), want, rtol=tol, what=name)
        for i in range(len(z)):
            g = C(f, c["z"][i], *p)
            if np.asarray(g).shape != ():
                fail("{0} of a scalar redshift has shape {1}", name, np.asarray(g).shape)
            close(g, want[i], rtol=tol, what=name + " of a scalar")
    # the two agree with the package's own constants to rounding once their ratio is taken
    r = np.asarray(C(api(M + "rho_crit"), z, *p)) / float(C(api(M + "rho_crit"), 0.0, *p))
    close(r, E**2, rtol=1e-11, what="critical density relative to the present")
    t = np.asarray(C(api(M + "virial_dynamical_time"), z, *p)) / float(C(api(M + "virial_dynamical_time"), 0.0, *p))
    d0 = 18 * np.pi**2 + 82 * (om - 1) - 39 * (om - 1) ** 2
    close(t, np.sqrt(d0 / delta) / E, rtol=1e-11, what="dynamical time relative to the present")
    for nm, want in (("_Om_at_z", x + 1), ("_delta_vir", delta)):
        f = helper(M + nm)
        if f is not None:
            close(C(f, z, om, w0, wa), want, rtol=1e-10, what=nm)
    ctx.label("n=%d" % len(z))
    ctx.nt(z.max() > 0.01)


def volume(c, ctx):
    p = c["cosmo"]
    z = np.array(c["z"])
    f = api(M + "differential_comoving_volume_at_z")
    d = np.array([float(C(api(M + "comoving_distance_to_z"), x, *p)) for x in c["z"]])
    E = ref.efunc(z, *p[:3])
    want = DH / p[3] * d**2 / E
    close(C(api(M + "differential_comoving_volume"), z, *p), want, rtol=1e-11, what="differential comoving volume")
    close([float(C(f, x, *p)) for x in c["z"]], want, rtol=1e-11, what="differential comoving volume of a scalar")
    close(want, [DH / p[3] * ref.comoving_distance(x, *p) ** 2 / e for x, e in zip(c["z"], E)], rtol=5e-3 if gen.exotic(p) else 1.8e-3, what="comoving volume element")
    # integral over z: d^3/3, with quadrature nodes fine enough for 2e-3
    zm = max(c["z"])
    if zm > 1e-3:
        u, w = np.polynomial.legendre.leggauss(40)
        zz = np.expm1(np.log1p(zm) * (u + 1) / 2)
        jac = (1 + zz) * np.log1p(zm) / 2
        v = float(np.sum(w * jac * np.asarray(C(api(M + "differential_comoving_volume"), zz, *p))))
        close(v, ref.comoving_distance(zm, *p) ** 3 / 3, rtol=8e-3 if gen.exotic(p) else 3e-3, what="integrated comoving volume per steradian")
        ctx.nt()
    ctx.label("n=%d" % len(z))


def large(c, ctx):
    """Arrays of any length are evaluated point by point."""
    om, w0, wa, h = p = c["cosmo"]
    z = np.array(c["z"])
    E = ref.efunc(z, om, w0, wa)
    x = om_z(z, om, w0, wa) - 1
    delta = 18 * np.pi**2 + 82 * x - 39 * x * x
    close(C(api(M + "rho_crit"), z, *p), 277.536627 * h * h * E**2, rtol=1e-6, what="critical density at many redshifts")
    close(C(api(M + "virial_dynamical_time"), z, *p), 2**1.5 * TH / h / E / np.sqrt(delta), rtol=1e-6, what="dynamical time at many redshifts")
    d = np.asarray(C(api(M + "comoving_distance"), z, *p))
    v = close(C(api(M + "differential_comoving_volume"), z, *p), DH / h * d**2 / E, rtol=1e-11, what="differential comoving volume at many redshifts")
    i = np.linspace(0, len(z) - 1, 7).astype(int)
    close([float(C(api(M + "differential_comoving_volume_at_z"), float(z[j]), *p)) for j in i], v[i], rtol=1e-11, what="differential comoving volume of many redshifts against one")
    ctx.label("n=%d" % len(z))
    ctx.nt()


FACETS = [
    Facet("large", lambda t, s: many_z(gen.longs(s)), large, 90, 900, qshards=4, tshards=8),
    Facet("formulas", lambda t, s: case(), formulas, 700, 8000, qshards=4, tshards=12),
    Facet("volume", lambda t, s: case(), volume, 700, 8000, qshards=4, tshards=12),
]
