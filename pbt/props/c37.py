"""C37 gradients of photometry, dust, cosmology, metallicity and remnant models."""
import numpy as np

from .. import gen, grads
from ..core import Facet, api, fail
from ..gen import st
from . import c22

RULE = (
    "mags: SEDs, filters, redshifts 0.001-8 and cosmologies. dust: wavelengths, parameters and Av over their full ranges including 0. cosmo: all distance, time and volume functions for "
    "redshifts 1e-4 to 20 (values also at z=0). mzr/imf: parameters inside (for bounding: unbounded parameters within +-50). Non-trivial: at least one derivative was sharply confirmed by finite differences "
    "(tolerance below 5 percent of it)."
)
ASSUMPTIONS = ["finite differences decide only where the one-sided differences agree (the tolerance opens up at kinks)"]
TECHNIQUE = "differential: automatic derivatives against finite differences along random directions; finiteness invariant"
NOTE = "Random inputs; each parameter's derivative confirmed along a random direction."


def directed(case, keys):
    """Adds a drawn seed for the directions."""
    return st.tuples(case, st.integers(0, 1 << 16)).map(lambda p: dict(p[0], dseed=p[1]))


def dirs(c, params):
    return {k: gen.hashed(c["dseed"] + 31 * i, np.shape(v) or (1,), -1, 1).reshape(np.shape(v)) + 0.0 for i, (k, v) in enumerate(sorted(params.items()))}


# ---------------------------------------------------------------- magnitudes
@st.composite
def mag_case(draw):
    s = draw(gen.sed(n=40))
    z = draw(st.one_of(gen.flat(0.01, 3.0), gen.logu(1e-3, 8.0)))
    rest = draw(st.booleans())
    lo, hi = s["w"][0], s["w"][-1]
    f = draw(gen.filt(lo * 1.0001, hi * 0.9999, n=17))
    if not rest:
        f["w"] = [x * (1 + z) for x in f["w"]]
    return dict(sed=s, f=f, z=z, cosmo=draw(gen.cosmo()), rest=rest, dseed=draw(st.integers(0, 1 << 16)))


def b_rest():
    f = api("dsps:calc_rest_mag")
    return lambda p, a: f(a["w"], p["lum"], a["fw"], p["trans"])


def b_obs():
    f = api("dsps:calc_obs_mag")
    return lambda p, a: f(a["w"], p["lum"], a["fw"], p["trans"], p["z"], p["Om0"], p["w0"], p["wa"], p["h"])


def mags(c, ctx):
    w, lum = np.array(c["sed"]["w"]), np.array(c["sed"]["f"])
    fw, tr = np.array(c["f"]["w"]), np.array(c["f"]["t"])
    aux = dict(w=w, fw=fw)
    p = dict(lum=lum, trans=tr)
    sc = dict(lum=lum, trans=np.maximum(tr, 0.01 * tr.max()))
    name, b = "rest magnitude", b_rest
    if not c["rest"]:
        p.update(zip(("Om0", "w0", "wa", "h"), c["cosmo"]), z=c["z"])
        sc.update(Om0=0.1, w0=0.1, wa=0.1, h=0.1, z=0.1 * c["z"])
        name, b = "observed magnitude", b_obs
    n = grads.compare_fd("37" + name, b, p, aux, sc, dirs(c, p), name, ctx=ctx)
    ctx.nt(n)


# ---------------------------------------------------------------- dust
D = "dsps.dust.att_curves:"
MODELS = ["noll09", "sbl18", "calzetti00", "leitherer02"]


@st.composite
def dust_case(draw):
    w = st.one_of(gen.logu(0.02, 10.0), gen.flat(0.09, 1.0)).filter(lambda x: abs(x / 0.15 - 1) > 1e-3 and abs(x / 0.63 - 1) > 1e-3)
    return dict(
        w=draw(gen.vec(w, 6)), model=draw(gen.pick(MODELS)), slope=draw(gen.flat(-2, 2)), ampl=draw(gen.flat(-2, 8)), x0=draw(gen.flat(0.15, 0.3)), dw=draw(gen.flat(0.01, 0.1)),
        av=draw(st.one_of(gen.flat(0.0, 5.0), st.just(0.0))), floor=draw(gen.pick([None, 0.0, 0.3])), dseed=draw(st.integers(0, 1 << 16)),
    )


def b_dust(model, kind):
    def build():
        import jax.numpy as jnp

        K, A, F = api(D + model + "_k_lambda"), api(D + (model + "_k" if model in ("noll09", "sbl18") else model) + "_att_curve"), api(D + "_frac_transmission_from_k_lambda")
        two = model in ("calzetti00", "leitherer02")

        def k(p, a):
            return K(a["w"]) if two else K(a["w"], p["ampl"], p["slope"], p["x0"], p["dw"])

        def f(p, a):
            if kind == "k":
                y = k(p, a)
            elif kind == "att":
                y = A(a["w"], p["av"]) if two else A(a["w"], p["av"], p["ampl"], p["slope"], p["x0"], p["dw"])
            elif kind == "trans":
                y = F(k(p, a), p["av"])
            else:
                y = F(k(p, a), p["av"], p["floor"])
            return jnp.sum(y * a["c"])

        return f

    return build


def dust(c, ctx):
    m = c["model"]
    p = {}
    if m in ("noll09", "sbl18"):
        p = dict(ampl=c["ampl"], slope=c["slope"], x0=c["x0"], dw=c["dw"])
    aux = dict(w=np.array(c["w"]), c=gen.hashed(c["dseed"] + 5, (6,), 0.2, 1.0))
    sc = dict(ampl=1.0, slope=0.3, x0=0.02, dw=0.02, av=0.3, floor=0.1)
    n = 0
    for kind in ("k", "att", "trans", "floor"):
        q = dict(p)
        if kind != "k":
            q["av"] = c["av"]
        if kind == "floor":
            if c["floor"] is None:
                continue
            q["floor"] = c["floor"]
        if not q:
            continue
        n += grads.compare_fd("37%s%s" % (m, kind), b_dust(m, kind), q, aux, sc, dirs(c, q), "%s %s" % (m, kind), ctx=ctx)
    ctx.label("model:" + m)
    ctx.nt(n)


# ---------------------------------------------------------------- cosmology
W = "dsps.cosmology.flat_wcdm:"
COS = [
    "comoving_distance_to_z", "luminosity_distance_to_z", "angular_diameter_distance_to_z", "distance_modulus_to_z", "lookback_to_z", "age_at_z", "rho_crit", "virial_dynamical_time",
    "differential_comoving_volume_at_z",
]


@st.composite
def cos_case(draw):
    return dict(fn=draw(gen.pick(COS + ["age_at_z0"])), cosmo=draw(gen.cosmo()), z=draw(st.one_of(gen.flat(0.01, 5.0), gen.logu(1e-4, 20.0), st.just(0.0))), dseed=draw(st.integers(0, 1 << 16)))


def b_cos(name):
    def build():
        import jax.numpy as jnp

        f = api(W + name)
        if name == "age_at_z0":
            return lambda p, a: jnp.sum(f(p["Om0"], p["w0"], p["wa"], p["h"]))
        return lambda p, a: jnp.sum(f(p["z"], p["Om0"], p["w0"], p["wa"], p["h"]))

    return build


def cosmology(c, ctx):
    z = c["z"]
    if z == 0 and c["fn"] == "distance_modulus_to_z":
        z = 0.5  # infinite at z=0
    p = dict(zip(("Om0", "w0", "wa", "h"), c["cosmo"]))
    sc = dict(Om0=0.1, w0=0.1, wa=0.1, h=0.1, z=0.1 * max(z, 1e-3))
    if c["fn"] != "age_at_z0":
        p["z"] = z
    b = b_cos(c["fn"])
    if z == 0 and "z" in p:
        grads.finite_grads("37" + c["fn"], b, p, {}, c["fn"])
        ctx.label("z=0")
        q = dict(p, z=1e-9)
        _, g0 = grads.finite_grads("37" + c["fn"], b, p, {}, c["fn"])
        _, g1 = grads.finite_grads("37" + c["fn"], b, q, {}, c["fn"])
        a, d = float(g0["z"]), float(g1["z"])
        if abs(a - d) > 1e-5 * (abs(a) + abs(d)) + 1e-12 and c["fn"] != "differential_comoving_volume_at_z":
            fail("derivative of {0} with respect to redshift jumps from {1!r} at z=0 to {2!r} at z=1e-9", c["fn"], a, d)
    else:
        n = grads.compare_fd("37" + c["fn"], b, p, {}, sc, dirs(c, p), c["fn"], ctx=ctx)
        ctx.nt(n)
    ctx.label("fn:" + c["fn"])


# ---------------------------------------------------------------- metallicity
@st.composite
def mzr_case(draw):
    return dict(
        p=[draw(gen.flat(lo, hi)) for lo, hi in c22.B], m=draw(gen.vec(gen.flat(4, 13), 3)), t=draw(gen.vec(gen.flat(0.2, 14.0), 3)), u=draw(gen.vec(gen.flat(-50, 50), 9)), which=draw(gen.pick(["mzr", "bound", "unbound"])),
        frac=draw(gen.vec(gen.flat(0.02, 0.98), 9)), dseed=draw(st.integers(0, 1 << 16)),
    )


def b_mzr():
    import jax.numpy as jnp

    f = api("dsps.metallicity.umzr:mzr_model")
    return lambda p, a: jnp.sum(a["c"][:3] * f(p["m"], p["t"], *[p[n] for n in c22.NAMES]))


def b_bound():
    import jax.numpy as jnp

    f, U = api("dsps.metallicity.umzr:get_bounded_mzr_params"), api("dsps.metallicity.umzr:MZRUParams")
    return lambda p, a: jnp.sum(a["c"] * jnp.array(list(f(U(*[p["u_" + n] for n in c22.NAMES])))))


def b_unbound():
    import jax.numpy as jnp

    f, P = api("dsps.metallicity.umzr:get_unbounded_mzr_params"), api("dsps.metallicity.umzr:MZRParams")
    return lambda p, a: jnp.sum(a["c"] * jnp.array(list(f(P(*[p[n] for n in c22.NAMES])))))


def mzr(c, ctx):
    aux = dict(c=gen.hashed(c["dseed"] + 9, (9,), 0.2, 1.0))
    if c["which"] == "mzr":
        p = dict(zip(c22.NAMES, c["p"]), m=np.array(c["m"]), t=np.array(c["t"]))
        sc = {k: 0.1 for k in p}
        n = grads.compare_fd("37mzr", b_mzr, p, aux, sc, dirs(c, p), "metallicity", ctx=ctx)
    elif c["which"] == "bound":
        p = dict(zip(["u_" + k for k in c22.NAMES], c["u"]))
        n = grads.compare_fd("37bound", b_bound, p, aux, {k: 3.0 for k in p}, dirs(c, p), "bounded parameters", ctx=ctx)
    else:
        v = [lo + f * (hi - lo) for f, (lo, hi) in zip(c["frac"], c22.B)]
        v[4] = c["frac"][4] * min(v[3], 0.3)
        v[4] = min(max(v[4], 0.003), 0.297)
        if v[4] >= v[3] * 0.99:
            v[4] = 0.9 * v[3]
        p = dict(zip(c22.NAMES, v))
        n = grads.compare_fd("37unbound", b_unbound, p, aux, {k: 0.002 for k in p}, dirs(c, p), "unbounded parameters", ctx=ctx)
    ctx.label(c["which"])
    ctx.nt(n)


# ---------------------------------------------------------------- remnants
@st.composite
def imf_case(draw):
    return dict(
        x=draw(gen.vec(gen.flat(4.0, 10.3), 3)), which=draw(gen.pick(["surv", "rem"])), dseed=draw(st.integers(0, 1 << 16)),
        s=[draw(gen.flat(0.1, 0.3)), draw(gen.flat(7.5, 8.5)), draw(gen.flat(-1, 0.5)), draw(gen.flat(0.03, 0.2)), draw(gen.flat(0.03, 0.2)), draw(gen.flat(6, 7)), draw(gen.flat(0.2, 1.0)), draw(gen.flat(0.0, 0.02))],
        r=[draw(gen.flat(-2, -1)), draw(gen.flat(6.5, 7.5)), draw(gen.flat(0.0, 1.0)), draw(gen.flat(0.5, 2.0)), draw(gen.flat(0.1, 0.3))],
    )


SN, RN = ("a", "b", "lgk1", "d", "e", "f", "lgk2", "h"), ("a", "b", "lgk1", "d", "e")


def b_imf(path, names):
    def build():
        import jax.numpy as jnp

        f = api(path)
        return lambda p, a: jnp.sum(a["c"] * f(p["x"], *[p[n] for n in names]))

    return build


def imf(c, ctx):
    path, names, v = ("dsps.imf.surviving_mstar:surviving_mstar", SN, c["s"]) if c["which"] == "surv" else ("dsps.imf.remnant_mass:remnant_mass", RN, c["r"])
    p = dict(zip(names, v), x=np.array(c["x"]))
    n = grads.compare_fd("37" + c["which"], b_imf(path, names), p, dict(c=gen.hashed(c["dseed"] + 3, (3,), 0.2, 1.0)), {k: 0.05 for k in p}, dirs(c, p), c["which"], ctx=ctx)
    ctx.label(c["which"])
    ctx.nt(n)


FACETS = [
    Facet("mags", lambda t, s: mag_case(), mags, 200, 3000, qshards=2, tshards=6),
    Facet("dust", lambda t, s: dust_case(), dust, 150, 2500, qshards=2, tshards=6, cost=1.5),
    Facet("cosmo", lambda t, s: cos_case(), cosmology, 200, 2500, qshards=2, tshards=6, cost=1.5),
    Facet("mzr", lambda t, s: mzr_case(), mzr, 120, 2000, qshards=1, tshards=4),
    Facet("imf", lambda t, s: imf_case(), imf, 120, 2000, qshards=1, tshards=4),
]
