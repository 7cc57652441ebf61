"""C33 batched, compiled and plain evaluation."""
import numpy as np

from .. import gen
from ..core import C, Facet, api, close, fail
from ..gen import st
from . import pool

RULE = (
    "59 public calculations; populations of 1-5 (facet 'big': 20-600) galaxies with differing arguments, reordered, one member optionally replaced by an invalid (NaN) or all-zero one; two grid shapes; compilation disabled; "
    "elementwise functions on arrays of shapes (n,), (a,b), (a,b,c), (1,), () and of up to 12000 points ('long') against single points. Non-trivial: at least two different galaxies (vmap), every case of 'nojit', more than one point (elementwise)."
)
ASSUMPTIONS = ["agreement to 1e-11 of the largest value of each output (the arguments are well conditioned)"]
TECHNIQUE = "differential between execution modes (vmap, jit, no jit, array shapes)"
NOTE = "Random populations; every member compared with the calculation done alone."
_J = {}


@st.composite
def vm_case(draw, names):
    b = draw(gen.pick([1, 2, 2, 5]))
    return dict(
        fn=draw(gen.pick(names)), seeds=draw(st.lists(st.integers(0, 4000), min_size=b, max_size=b)), small=draw(st.booleans()), jit=draw(st.booleans()),
        poison=draw(gen.pick([None, None, "nan", "zero"])), at=draw(st.integers(0, b - 1)), perm=draw(st.permutations(list(range(b)))),
    )


def bad(a, how):
    v = np.nan if how == "nan" else 0.0
    if hasattr(a, "_fields"):
        return type(a)(*[v for _ in a])
    if np.asarray(a).dtype.kind != "f":
        return a
    return np.full(np.shape(a), v)


def batched(name, path, batch, jit, n):
    key = (name, jit)
    if key not in _J:
        import jax

        f = jax.vmap(api(path), in_axes=tuple(0 if b else None for b in batch))
        _J[key] = jax.jit(f) if jit else f
    return _J[key]


def compare(got, want, what):
    gl, wl = pool.leaves(got), pool.leaves(want)
    if len(gl) != len(wl):
        fail("{0}: {1} outputs instead of {2}", what, len(gl), len(wl))
    for g, w in zip(gl, wl):
        w = np.asarray(w)
        s = pool.scale(what, w)
        if not np.isfinite(s):
            fail("{0}: not finite on its own", what)
        close(g, w, rtol=1e-11, atol=1e-11 * s, what=what)


def vm(c, ctx):
    name, b = c["fn"], len(c["seeds"])
    E = [pool.ENTRIES[name](s, c["small"]) for s in c["seeds"]]
    path, _, batch = E[0]
    rows = [e[1] for e in E]
    if c["poison"] and b > 1:
        i = c["at"]
        rows[i] = [bad(a, c["poison"]) if m else a for a, m in zip(rows[i], batch)]
    args = [pool.stack([r[k] for r in rows]) if m else rows[0][k] for k, m in enumerate(batch)]
    f = batched(name, path, batch, c["jit"], b)
    R = C(f, *args)
    import jax

    p = c["perm"]
    R2 = C(f, *[jax.tree_util.tree_map(lambda x: x[np.array(p)], a) if m else a for a, m in zip(args, batch)])
    for i in range(b):
        if c["poison"] and b > 1 and i == c["at"]:
            continue
        one = C(api(path), *rows[i])
        pick = lambda T, i=i: jax.tree_util.tree_map(lambda x: np.asarray(x)[i], T)  # noqa: E731
        compare(pick(R), one, "%s of member %d of %d" % (path.split(":")[1], i, b))
        compare(pick(R2, p.index(i)), one, "%s of member %d of %d in another order" % (path.split(":")[1], i, b))
    ctx.label("fn:" + name, "b=%d" % b, "poison:%s" % c["poison"])
    ctx.nt(len(set(c["seeds"])) > 1)


def nj_case(names):
    return st.fixed_dictionaries(dict(fn=gen.pick(names), seed=st.integers(0, 4000), small=st.just(True)))


def nojit(c, ctx):
    import jax

    path, args, _ = pool.ENTRIES[c["fn"]](c["seed"], c["small"])
    a = C(api(path), *args)
    with jax.disable_jit():
        b = C(api(path), *args)
    compare(b, a, path.split(":")[1] + " without compilation")
    ctx.label("fn:" + c["fn"])
    ctx.nt()


D, W, U = "dsps.dust.att_curves:", "dsps.cosmology.flat_wcdm:", "dsps.utils:"
COSMO = (0.3, -0.9, 0.1, 0.7)
# name -> (path, lo, hi, extra arguments, position of the array)
ELEM = dict(
    calzetti00_k=(D + "calzetti00_k_lambda", 0.09, 3.0, ()), leitherer02_k=(D + "leitherer02_k_lambda", 0.09, 3.0, ()), noll09_k=(D + "noll09_k_lambda", 0.09, 3.0, (2.0, -0.3)),
    sbl18_k=(D + "sbl18_k_lambda", 0.09, 3.0, (2.0, -0.3)), noll09=(D + "noll09_k_att_curve", 0.09, 3.0, (1.1, 2.0, -0.3)), sbl18=(D + "sbl18_k_att_curve", 0.09, 3.0, (1.1, 2.0, -0.3)),
    calzetti00=(D + "calzetti00_att_curve", 0.09, 3.0, (0.7,)), leitherer02=(D + "leitherer02_att_curve", 0.09, 3.0, (0.7,)), plaw=(D + "power_law_vband_norm", 0.09, 3.0, (-0.7,)),
    trans=(D + "_frac_transmission_from_k_lambda", 0.0, 10.0, (0.8, 0.1)), rho=(W + "rho_crit", 0.0, 10.0, COSMO), vir=(W + "virial_dynamical_time", 0.0, 10.0, COSMO),
    twg=(U + "triweight_gaussian", -4.0, 4.0, (0.1, 1.2)), sigmoid=(U + "_sigmoid", -4.0, 4.0, (0.1, 1.2, -1.0, 3.0)), surv=("dsps.imf.surviving_mstar:surviving_mstar", 5.0, 10.2, ()),
    remn=("dsps.imf.remnant_mass:remnant_mass", 5.0, 10.2, ()), bbf=("dsps.dust.blackbody:blackbody_freq_density", 1e12, 1e15, (3000.0,)), bbw=("dsps.dust.blackbody:blackbody_wave_density", 1e3, 1e6, (3000.0,)),
    mzr=("dsps.metallicity.umzr:mzr_model", 7.0, 12.0, (6.0, 0.05, 10.5, 1.0, 0.4, 0.1, -1.455, 0.13, -0.959, 0.067242)),
)


def el_case(names):
    return st.fixed_dictionaries(dict(fn=gen.pick(names), seed=st.integers(0, 1 << 16), shape=gen.pick([[1], [4], [2, 3], [2, 1, 3], [], [3, 1]])))


def elementwise(c, ctx):
    path, lo, hi, extra = ELEM[c["fn"]]
    x = gen.hashed(c["seed"], tuple(c["shape"]) or (1,), lo, hi).reshape(tuple(c["shape"]))
    r = np.asarray(C(api(path), x, *extra))
    if r.shape != x.shape:
        fail("{0} maps shape {1} to {2}", path, x.shape, r.shape)
    s = pool.scale(path, r)
    for i in np.ndindex(*x.shape):
        v = float(x[i])
        if c["seed"] % 2:
            close(C(api(path), v, *extra), r[i], rtol=1e-12, atol=1e-13 * s, what="%s at one point" % path)
        else:
            close(np.asarray(C(api(path), np.array([v]), *extra)), [r[i]], rtol=1e-12, atol=1e-13 * s, what="%s at one point" % path)
    ctx.label("fn:" + c["fn"], "shape:%s" % c["shape"])
    ctx.nt(x.size > 1)


@st.composite
def big_case(draw, names):
    return dict(fn=draw(gen.pick(names)), b=draw(gen.pick([20, 130, 257, 600])), seed=draw(st.integers(0, 4000)), at=draw(st.lists(st.integers(0, 1 << 16), min_size=3, max_size=3)), jit=draw(st.booleans()))


def big(c, ctx):
    name, b = c["fn"], c["b"]
    import jax

    E = [pool.ENTRIES[name](c["seed"] + 7 * i, True) for i in range(b)]
    path, _, batch = E[0]
    args = [pool.stack([e[1][k] for e in E]) if m else E[0][1][k] for k, m in enumerate(batch)]
    R = C(batched(name, path, batch, c["jit"], b), *args)
    for i in c["at"] + [b - 1]:
        i = i % b
        compare(jax.tree_util.tree_map(lambda x: np.asarray(x)[i], R), C(api(path), *E[i][1]), "%s of member %d of %d" % (path.split(":")[1], i, b))
    ctx.label("fn:" + name, "b=%d" % b)
    ctx.nt()


# vectorised over redshift
REDSHIFT = ["comoving_distance", "luminosity_distance", "angular_diameter_distance", "distance_modulus", "lookback_time", "age_at_z", "rho_crit", "virial_dynamical_time", "differential_comoving_volume"]
ELEM_Z = {k: (W + k, 0.001, 20.0, COSMO) for k in REDSHIFT}
SIZES = [65, 257, 1001, 1500, 4096, 12000]


def lo_case(names):
    return st.fixed_dictionaries(dict(fn=gen.pick(names), seed=st.integers(0, 1 << 16), n=gen.pick(SIZES), order=gen.pick(["random", "ascending", "descending", "repeated"]), at=gen.vec(st.integers(0, 1 << 16), 3)))


def long(c, ctx):
    path, lo, hi, extra = ELEM_Z.get(c["fn"]) or ELEM[c["fn"]]
    n = c["n"]
    x = gen.hashed(c["seed"], (n,), lo, hi)
    if c["order"] == "ascending":
        x = np.sort(x)
    elif c["order"] == "descending":
        x = np.sort(x)[::-1]
    elif c["order"] == "repeated":
        x = x[np.arange(n) % 7]
    r = np.asarray(C(api(path), x, *extra))
    if r.shape != x.shape:
        fail("{0} maps shape {1} to {2}", path, x.shape, r.shape)
    i = np.array([0, n - 1, int(np.argmin(x)), int(np.argmax(x))] + [k % n for k in c["at"]])
    close(r[i], np.asarray(C(api(path), x[i], *extra)), rtol=1e-11, atol=1e-13 * pool.scale(path, r), what="%s inside an array of %d" % (path, n))
    ctx.label("fn:" + c["fn"], "n=%d" % n, c["order"])
    ctx.nt()


def part(names, s, n):
    names = list(names)
    return names[s % n :: n] or names


FACETS = [
    Facet("vmap", lambda t, s: vm_case(part(pool.NAMES, s, 8 if t == "quick" else 16)), vm, 60, 700, qshards=8, tshards=16, cost=2.5),
    Facet("nojit", lambda t, s: nj_case(part(pool.NAMES, s, 8 if t == "quick" else 16)), nojit, 10, 100, qshards=8, tshards=16, cost=1.5),
    Facet("big", lambda t, s: big_case(part(pool.NAMES, s, 8 if t == "quick" else 16)), big, 12, 150, qshards=8, tshards=16, cost=1.5),
    Facet("long", lambda t, s: lo_case(part(list(ELEM) + list(ELEM_Z), s, 8)), long, 15, 200, qshards=8, tshards=8),
    Facet("elementwise", lambda t, s: el_case(part(ELEM, s, 8)), elementwise, 25, 300, qshards=8, tshards=8),
]
