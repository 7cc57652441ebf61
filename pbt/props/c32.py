"""C32 purity, precision and independence of import order."""
import json
import os
import subprocess
import sys

import numpy as np

from .. import env, gen
from ..core import C, Facet, api, close, fail, same
from ..gen import st
from . import pool

RULE = (
    "imports: fresh interpreters importing 1-6 submodules in random order after a random preamble (nothing, numpy, jax used in single precision, jax in double precision), then 3 random calculations. "
    "types: every calculation with its numbers as python floats, numpy scalars, zero-dimensional numpy or jax arrays, and its arrays as numpy, jax, read-only, non-contiguous arrays. "
    "history: sequences of 3-14 calls over a part of the pool of calculations, arguments and shapes repeated in random order. Non-trivial: first import is not the package itself or a preamble was used (imports), at least "
    "one argument converted (types), values outside [0,1] or converted arrays (host: calculations done with numpy), at least one integer and a defined float result (integers: whole-valued arguments given as 64-bit or python integers), a repeated call with another one in between (history)."
)
ASSUMPTIONS = ["integers are compared with the same numbers as floats to 1e-9", "across processes and input types results agree to 1e-12 of the largest output (compilation differs); within a process repeated calls agree bitwise"]
TECHNIQUE = "stateful (call histories against memoised first results and a fresh process), differential over configurations"
NOTE = "Random call sequences, import orders and input types."
MODS = [
    "dsps", "dsps.utils", "dsps.constants", "dsps.cosmology", "dsps.cosmology.defaults", "dsps.cosmology.flat_wcdm", "dsps.sed", "dsps.sed.stellar_sed", "dsps.sed.ssp_weights", "dsps.sed.metallicity_weights",
    "dsps.sed.stellar_age_weights", "dsps.photometry", "dsps.photometry.photpop", "dsps.photometry.photometry_kernels", "dsps.dust", "dsps.dust.att_curves", "dsps.dust.blackbody", "dsps.dust.utils",
    "dsps.metallicity.umzr", "dsps.metallicity.mzr", "dsps.imf.surviving_mstar", "dsps.imf.remnant_mass", "dsps.sfh.diffburst", "dsps.em_lines.equivalent_width", "dsps.data_loaders",
    "dsps.data_loaders.retrieve_fake_fsps_data",
]
PRE = dict(
    none="", numpy="import numpy as np; np.ones(3)", jax32="import jax.numpy as jnp; import jax; _ = jax.jit(lambda x: x * 2)(jnp.ones(3))", jax64="import jax; jax.config.update('jax_enable_x64', True)",
)
CODE = """
import sys, json
job = json.loads(sys.argv[1])
sys.path.insert(0, job["verif"])
from pbt import env
env.add_repo_path()
exec(job["pre"])
import importlib
try:
    for m in job["mods"]:
        importlib.import_module(m)
    env.import_repo()
except Exception as e:
    print("IMPORT" + json.dumps("%s: %s" % (type(e).__name__, e)))
    sys.exit(0)
import numpy as np
import jax
from pbt.core import api
from pbt.props import pool
out = []
for name, seed, small in job["calls"]:
    path, args, _ = pool.ENTRIES[name](seed, small)
    f = api(path)
    try:
        r = [np.asarray(x) for x in pool.leaves(f(*args))]
    except Exception as e:
        print("IMPORT" + json.dumps("%s: %s: %s" % (path, type(e).__name__, e)))
        sys.exit(0)
    out.append([[str(x.dtype), list(x.shape), [float(v).hex() for v in x.astype(float).ravel()]] for x in r])
const = {}
for k, mod in sorted(sys.modules.items()):
    if (k == "dsps" or k.startswith("dsps.")) and mod is not None:
        for n, v in sorted(vars(mod).items()):
            if not n.startswith("_") and isinstance(v, (np.ndarray, np.generic, jax.Array)) and np.size(v) <= 50:
                a = np.asarray(v)
                if a.dtype.kind == "f":
                    const[k + "." + n] = [str(a.dtype), [float(x).hex() for x in a.astype(float).ravel()]]
print("RESULT" + json.dumps(dict(out=out, const=const)))
"""


def fresh(mods, pre, calls):
    job = dict(verif=env.VERIF, mods=mods, pre=pre, calls=calls)
    p = subprocess.run([sys.executable, "-c", CODE, json.dumps(job)], capture_output=True, text=True, timeout=300, cwd=os.environ.get("PBT_TMP") or None)
    for line in p.stdout.splitlines():
        if line.startswith("RESULT"):
            return json.loads(line[6:])
        if line.startswith("IMPORT"):
            fail("a fresh interpreter importing {0} failed: {1}", mods, json.loads(line[6:])[:300])
    raise RuntimeError("the fresh interpreter ended with %s: %s" % (p.returncode, p.stderr[-2000:]))


def evaluate(name, seed, small):
    path, args, _ = pool.ENTRIES[name](seed, small)
    return [np.asarray(x) for x in pool.leaves(C(api(path), *args))]


def double(rs, what):
    for r in rs:
        if r.dtype.kind == "f" and r.dtype != np.float64:
            fail("{0} has dtype {1}", what, r.dtype)


def near(got, want, what):
    if len(got) != len(want):
        fail("{0}: {1} outputs instead of {2}", what, len(got), len(want))
    for g, w in zip(got, want):
        close(g, w, rtol=1e-12, atol=1e-12 * pool.scale(what, w), what=what)


@st.composite
def imp_case(draw):
    return dict(
        pre=draw(gen.pick(list(PRE) + ["jax32"])), mods=draw(st.lists(gen.pick(MODS), min_size=1, max_size=6, unique=True)),
        calls=[[draw(gen.pick(pool.NAMES)), draw(st.integers(0, 500)), draw(st.booleans())] for _ in range(3)],
    )


_CONST = {}


def imports(c, ctx):
    r = fresh(c["mods"], PRE[c["pre"]], c["calls"])
    for call, out in zip(c["calls"], r["out"]):
        want = evaluate(*call)
        double(want, call[0])
        got = [np.array([float.fromhex(v) for v in x[2]]).reshape(x[1]) for x in out]
        for x in out:
            if x[0] == "float32":
                fail("{0} is single precision after importing {1} first", call[0], c["mods"][0])
        near(got, want, "%s after importing %s (%s)" % (call[0], ",".join(c["mods"]), c["pre"]))
    for k, (dt, v) in r["const"].items():
        if dt != "float64":
            fail("{0} is {1} after importing {2}", k, dt, c["mods"][0])
        v = [float.fromhex(x) for x in v]
        if _CONST.setdefault(k, v) != v:
            if not np.allclose(_CONST[k], v, rtol=1e-13, atol=0, equal_nan=True):
                fail("{0} depends on the import order ({1}): {2} or {3}", k, c["mods"], v[:3], _CONST[k][:3])
    ctx.label("pre:" + c["pre"], "first:" + c["mods"][0])
    ctx.nt(c["mods"][0] != "dsps" or c["pre"] != "none")


SCAL = ["python", "np64", "np0d", "jax0d", "keep"]
ARR = ["numpy", "jax", "readonly", "strided", "keep", "f_order"]


def convert(a, how_s, how_a):
    import jax.numpy as jnp

    if hasattr(a, "_fields"):
        return type(a)(*[convert(x, how_s, how_a) for x in a])
    if isinstance(a, float):
        return dict(python=float, np64=np.float64, np0d=lambda v: np.array(v), jax0d=lambda v: jnp.array(v), keep=float)[how_s](a)
    if not isinstance(a, np.ndarray):
        return a
    if how_a == "jax":
        return jnp.array(a)
    if how_a == "readonly":
        b = a.copy()
        b.setflags(write=False)
        return b
    if how_a == "strided":
        b = np.repeat(a, 2, axis=-1)
        return b[..., ::2]
    if how_a == "f_order":
        return np.asfortranarray(a)
    return a.copy()


def ty_case(names):
    return st.fixed_dictionaries(dict(fn=gen.pick(names), seed=st.integers(0, 4000), small=st.booleans(), s=st.lists(gen.pick(SCAL), min_size=12, max_size=12), a=st.lists(gen.pick(ARR), min_size=12, max_size=12)))


def snapshot(x):
    if hasattr(x, "_fields"):
        return [snapshot(v) for v in x]
    return np.array(np.asarray(x), copy=True)


def unchanged(x, s, what):
    if hasattr(x, "_fields"):
        for v, w in zip(x, s):
            unchanged(v, w, what)
        return
    same(np.asarray(x), s, what)


def types(c, ctx):
    path, args, _ = pool.ENTRIES[c["fn"]](c["seed"], c["small"])
    want = [np.asarray(x) for x in pool.leaves(C(api(path), *args))]
    double(want, path)
    conv = [convert(a, c["s"][i % 12], c["a"][i % 12]) for i, a in enumerate(args)]
    snap = [snapshot(a) for a in conv]
    got = [np.asarray(x) for x in pool.leaves(C(api(path), *conv))]
    double(got, path)
    near(got, want, "%s with converted arguments" % path)
    for a, s in zip(conv, snap):
        unchanged(a, s, "argument of " + path)
    ctx.label("fn:" + c["fn"])
    ctx.nt(any(k != "keep" for k in c["s"][: len(args)] + c["a"][: len(args)]))


_MEMO, _FRESH, _GLOB = {}, {}, {}
SEEDS = (3, 8)


@st.composite
def hi_case(draw, names, shard):
    n = draw(st.integers(3, 14))
    return dict(names=names, seq=[[draw(gen.pick(names)), draw(gen.pick(SEEDS)), draw(st.booleans())] for _ in range(n)])


def constants():
    """Every public constant of the package."""
    import jax

    out = {}
    for k, mod in sorted(sys.modules.items()):
        if (k == "dsps" or k.startswith("dsps.")) and mod is not None and ".tests" not in k:
            for n, v in sorted(vars(mod).items()):
                if n.startswith("_"):
                    continue
                if isinstance(v, (np.ndarray, np.generic, jax.Array)):
                    out[k + "." + n] = repr(np.asarray(v).tolist())
                elif isinstance(v, (int, float, str, tuple, list, dict)):
                    out[k + "." + n] = repr(v)
    return out


def history(c, ctx):
    key0 = tuple(c["names"])
    if key0 not in _FRESH:
        # reference: a fresh process doing every call in the opposite order
        calls = [[n, s, b] for n in reversed(c["names"]) for s in reversed(SEEDS) for b in (True, False)]
        r = fresh(["dsps"], "", calls)
        _FRESH[key0] = {tuple(k): [np.array([float.fromhex(v) for v in x[2]]).reshape(x[1]) for x in o] for k, o in zip(calls, r["out"])}
    if not _GLOB:
        _GLOB.update(constants())
    seen = []
    rep = False
    for call in c["seq"]:
        k = tuple(call)
        path, args, _ = pool.ENTRIES[call[0]](call[1], call[2])
        snap = [snapshot(a) for a in args]
        got = [np.asarray(x) for x in pool.leaves(C(api(path), *args))]
        for a, s in zip(args, snap):
            unchanged(a, s, "argument of " + path)
        if k in _MEMO:
            for i, (g, w) in enumerate(zip(got, _MEMO[k])):
                same(g, w, "repeated %s, output %d" % (path, i))
        else:
            _MEMO[k] = [g.copy() for g in got]
            near(got, _FRESH[key0][k], "%s after other calls against a fresh process" % path)
        if k in seen and seen[-1] != k:
            rep = True
        seen.append(k)
    now = constants()
    for n, v in _GLOB.items():
        if n in now and now[n] != v:
            fail("the package constant {0} changed from {1:.100} to {2:.100}", n, v, now[n])
    ctx.label("len:%d" % len(c["seq"]))
    ctx.nt(rep)


def loaders():
    """Calls returning tables that callers may well work on in place."""
    L = "dsps.data_loaders.retrieve_fake_fsps_data:"
    return dict(
        ssp=lambda: api(L + "load_fake_ssp_data")(n_line=0), filters=lambda: api(L + "load_fake_filter_transmission_curves")(),
        curve=lambda: api("dsps.data_loaders.load_filter_data:load_random_transmission_curve")(tcurve_center=4000.0), interp=lambda: api("dsps.photometry.utils:interpolate_filter_trans_curves")(*_ragged()),
    )


def _ragged():
    w = [np.linspace(1.0, 2.0, 5), np.linspace(3.0, 5.0, 9)]
    return w, [np.linspace(0.0, 1.0, 5), np.ones(9)]


def re_case(names):
    return st.fixed_dictionaries(dict(fn=gen.pick(names), seed=st.integers(0, 4000), small=st.booleans(), n=st.integers(1, 3), how=gen.pick(["scale", "nan", "zero"])))


def returned(c, ctx):
    """What a caller does to a result must not show in the next call."""
    L = loaders()
    if c["fn"] in L:
        f, args, what = L[c["fn"]], [], c["fn"]
    else:
        what, args, _ = pool.ENTRIES[c["fn"]](c["seed"], c["small"])
        f = api(what)
    first = None
    wrote = False
    for _ in range(c["n"] + 1):
        r = [x for x in pool.leaves(C(f, *args))]
        now = [np.array(np.asarray(x), copy=True) for x in r]
        if first is None:
            first = now
        else:
            if len(now) != len(first):
                fail("{0} returned {1} arrays, then {2}", what, len(first), len(now))
            for i, (a, b) in enumerate(zip(now, first)):
                same(a, b, "%s, output %d after the first result was overwritten" % (what, i))
        for x in r:
            if isinstance(x, np.ndarray) and x.dtype.kind == "f" and x.flags.writeable and x.size:
                wrote = True
                x[...] = dict(scale=x * 3 + 1, nan=np.nan, zero=0.0)[c["how"]]
    ctx.label("fn:" + c["fn"], "writable" if wrote else "immutable")
    ctx.nt(wrote)


@st.composite
def host_case(draw):
    n = draw(gen.pick([2, 5, 9, 30]))
    k = draw(st.integers(1, 3))
    lo, hi = draw(gen.pick([(0.0, 1.0), (-0.005, 1.0), (-0.5, 0.5), (0.0, 1.005), (0.0, 100.0)]))
    return dict(t=[draw(gen.fvec(lo, hi, n)) for _ in range(k)], n=draw(gen.pick([None, None, n, 5, 50])), seed=draw(st.integers(0, 1 << 16)), how=draw(gen.pick(["numpy", "readonly", "strided"])), sel=draw(st.permutations([0, 1, 2])), m=draw(st.integers(1, 3)))


def host(c, ctx):
    """Calculations done on the host, which could write to what they are given."""
    from collections import namedtuple

    from . import files

    t = [np.array(x) for x in c["t"]]
    w = [np.linspace(1000.0 * (i + 1), 2500.0 * (i + 1), len(x)) for i, x in enumerate(t)]
    want = C(api("dsps.photometry.utils:interpolate_filter_trans_curves"), [x.copy() for x in w], [x.copy() for x in t], n=c["n"])
    cw, ct = [convert(x, "keep", c["how"]) for x in w], [convert(x, "keep", c["how"]) for x in t]
    for _ in range(2):
        got = C(api("dsps.photometry.utils:interpolate_filter_trans_curves"), cw, ct, n=c["n"])
        for g, x, what in zip(got, want, ("wavelengths", "transmission")):
            same(np.asarray(g), np.asarray(x), "resampled " + what)
        double([np.asarray(g) for g in got], "resampled curves")
        for i in range(len(t)):
            same(np.asarray(ct[i]), t[i], "the caller's transmission")
            same(np.asarray(cw[i]), w[i], "the caller's wavelengths")
    d = files.ssp_arrays(c["seed"], 2, 3, 4, 3)
    lines = namedtuple("EmLineWave", ["A", "B", "C_1"])(*[float(x) for x in d.pop("ssp_emline_wave")])
    lum = convert(d["ssp_emline_luminosity"], "keep", c["how"])
    data = api("dsps.data_loaders.defaults:SSPData")(*[convert(d[k], "keep", c["how"]) for k in ("ssp_lgmet", "ssp_lg_age_gyr", "ssp_wave", "ssp_flux")], lines, lum)
    sel = [lines._fields[i] for i in c["sel"]][: c["m"]]
    for _ in range(2):
        r = C(api("dsps.data_loaders.load_emline_info:get_subset_emline_data"), data, list(sel))
        same(np.asarray(r.ssp_emline_luminosity), d["ssp_emline_luminosity"][:, :, c["sel"][: c["m"]]], "selected luminosities")
        for k in d:
            same(np.asarray(getattr(data, k)), d[k], "the caller's " + k)
    ctx.label(c["how"], "n:%s" % c["n"])
    ctx.nt(min(map(min, c["t"])) < 0 or max(map(max, c["t"])) > 1 or c["how"] != "numpy")


def part(names, s, n):
    return names[s % n :: n]


INT_SCAL = ["python", "np64", "np0d", "jax"]
INT_ARR = ["int64", "jax"]


def whole(a, pos):
    """The same argument rounded to whole numbers; ascending arrays stay ascending, with uneven steps."""
    if hasattr(a, "_fields"):
        return type(a)(*[whole(x, pos) for x in a])
    if isinstance(a, float):
        r = float(np.round(a))
        return max(r, 1.0) if a > 0 and pos else r
    if isinstance(a, np.ndarray) and a.dtype.kind == "f":
        if a.ndim == 1 and len(a) > 1 and np.all(np.diff(a) > 0):
            step = np.maximum(1.0, np.round(np.diff(a))) + (np.arange(len(a) - 1) * 7 // 3) % 2 * (np.diff(a).max() < 2)
            return np.floor(max(a[0], 1.0) if a[0] > 0 and pos else a[0]) + np.concatenate([[0.0], np.cumsum(step)])
        r = np.round(a)
        return np.maximum(r, 1.0) if pos and np.all(a > 0) else r
    return a


def as_int(a, how_s, how_a):
    import jax.numpy as jnp

    if hasattr(a, "_fields"):
        return type(a)(*[as_int(x, how_s, how_a) for x in a])
    if isinstance(a, (float, np.floating)):
        return dict(python=int, np64=np.int64, np0d=lambda v: np.array(int(v)), jax=lambda v: jnp.array(int(v)))[how_s](a)
    if isinstance(a, np.ndarray) and a.dtype.kind == "f":
        return dict(int64=lambda v: v.astype(np.int64), jax=lambda v: jnp.array(v.astype(np.int64)))[how_a](a)
    return a


def _i_burst(seed):
    u = lambda k, lo, hi: float(np.floor(gen.hashed(seed * 3 + k, (1,), lo, hi + 1)[0]))
    p = api("dsps.sfh.diffburst:BurstParams")(u(1, -4, -1), u(2, 5, 6), u(3, 8, 9))
    lg = np.array([-5.0, -3.0, -2.0, -1.0, 0.0, 1.0]) if seed % 2 else np.linspace(-3.0, 1.0, 9)
    return "dsps.sfh.diffburst:calc_bursty_age_weights", [p, np.full(len(lg), 1.0 / len(lg)), lg]


def _i_pdf(seed):
    n = 6
    g = np.array([-3.0, -2.0, -1.0, 1.0, 2.0, 3.0])[gen.hashed(seed, (n,), 0, 6).astype(int)]
    return "dsps.utils:powerlaw_pdf", [np.array([1.0, 2, 3, 4, 5, 7]), np.full(n, 1.0), np.full(n, 2.0 + seed % 7), g]


def _i_rvs(seed):
    import jax

    _, (x, a, b, g) = _i_pdf(seed)
    return "dsps.utils:powerlaw_rvs", [np.asarray(jax.random.PRNGKey(seed)), a, b, g]


def _i_ew(seed):
    w = np.arange(59000.0, 61001.0, 25.0) if seed % 2 else np.arange(4800.0, 5201.0, 2.0)
    mid, d = (60000.0, 100.0) if seed % 2 else (5000.0, 20.0)
    f = np.round(200 + 300 * np.exp(-0.5 * ((w - mid) / d) ** 2) + gen.hashed(seed, (len(w),), -20, 20))
    return "dsps.em_lines.equivalent_width:_ew_kernel", [w, f, mid - 3 * d, mid, mid + 3 * d, mid - 9 * d, mid - 5 * d, mid + 5 * d, mid + 9 * d]


def _i_met(seed):
    x = np.array([[-4.0, -3.0, -1.0], [-3.0, -2.0, -1.0, 0.0], [-6.0, -4.0, -3.0]][seed % 3])
    z, s = np.floor(gen.hashed(seed, (2,), -5, 1)), 1.0 + seed % 2
    return "dsps:calc_lgmet_weights_from_lognormal_mdf", [float(z[0]), s, x]


def _i_age(seed):
    x = np.array([[-5.0, -3.0, -2.0, -1.0, 0.0, 1.0], [-3.0, -1.0, 0.0, 1.0], [-2.0, -1.0, 0.0, 1.0]][seed % 3])
    t = np.arange(1.0, 15.0)
    return "dsps:calc_age_weights_from_sfh_table", [t, np.round(gen.hashed(seed, (14,), 0.51, 9)), x, float(5 + seed % 9)]


def _i_ssp(seed):
    _, (z, s, x) = _i_met(seed)
    _, (t, sfr, ages, to) = _i_age(seed + 1)
    flux = np.round(gen.hashed(seed, (len(x), len(ages), 5), 1.0, 90.0))
    return "dsps:calc_rest_sed_sfh_table_lognormal_mdf", [t, sfr, z, s, x, ages, flux, to]


def _i_sst(seed):
    _, (z, s, x) = _i_met(seed)
    _, (t, sfr, ages, to) = _i_age(seed + 1)
    flux = np.round(gen.hashed(seed, (len(x), len(ages), 5), 1.0, 90.0))
    return "dsps:calc_rest_sed_sfh_table_met_table", [t, sfr, np.round(gen.hashed(seed + 2, (14,), -4, -1)), s, x, ages, flux, to]


def _i_mass(name):
    def f(seed):
        u = lambda k, lo, hi: float(np.floor(gen.hashed(seed * 3 + k, (1,), lo, hi + 1)[0]))
        return name, [np.array([5.0, 6, 7, 8, 9, 10]), u(1, 0, 1), u(2, 5, 9), u(3, -2, 1), u(4, 0, 1), u(5, 0, 1), u(6, 5, 9), u(7, -2, 1), u(8, 0, 1)]

    return f


def _i_bb(name, lo, hi):
    def f(seed):
        return "dsps.dust.blackbody:" + name, [np.round(10 ** gen.hashed(seed, (5,), lo, hi)), float(20 + 37 * (seed % 150))]

    return f


def _i_mag(seed):
    w, f, fw, ft = pool._sed(seed, True)
    w, fw = np.arange(500.0, 12001.0, 250.0), np.arange(5000.0, 7001.0, 250.0)
    return "dsps:calc_obs_mag", [w, np.round(gen.hashed(seed, (len(w),), 1, 99)), fw, np.round(gen.hashed(seed + 1, (len(fw),), 0.51, 1.0)), float(seed % 2), 0.3, -1.0, 0.0, 0.7]


def _i_rest(seed):
    p, a = _i_mag(seed)
    return "dsps:calc_rest_mag", a[:4]


def _i_cosmo(name):
    def f(seed):
        return "dsps.cosmology.flat_wcdm:" + name, [float(seed % 9), 0.25 + 0.01 * (seed % 11), -1.0, 0.0, [0.7, 1.0][seed % 2]]

    return f


INTS = dict(
    burst=_i_burst, pdf=_i_pdf, rvs=_i_rvs, ew=_i_ew, met=_i_met, age=_i_age, ssp=_i_ssp, sst=_i_sst, surv=_i_mass("dsps.imf.surviving_mstar:surviving_mstar"), remn=_i_mass("dsps.imf.remnant_mass:remnant_mass"),
    bbw=_i_bb("blackbody_wave_density", 3, 6), bbf=_i_bb("blackbody_freq_density", 11, 16), mag=_i_mag, rmag=_i_rest, dl=_i_cosmo("luminosity_distance_to_z"), look=_i_cosmo("lookback_to_z"), vol=_i_cosmo("differential_comoving_volume_at_z"),
)


@st.composite
def int_case(draw, names, special):
    fn = draw(st.one_of(gen.pick(special).map(lambda n: "int:" + n), gen.pick(names))) if special else draw(gen.pick(names))
    return dict(fn=fn, seed=draw(st.integers(0, 4000)), small=draw(st.booleans()), pos=draw(st.booleans()), which=draw(st.one_of(st.just([True] * 12), st.lists(st.booleans(), min_size=12, max_size=12))),
        s=draw(gen.pick(INT_SCAL)), a=draw(gen.pick(INT_ARR)))


def integers(c, ctx):
    """Whole numbers may be given as integers."""
    if c["fn"].startswith("int:"):
        path, args = INTS[c["fn"][4:]](c["seed"])
    else:
        path, args, _ = pool.ENTRIES[c["fn"]](c["seed"], c["small"])
        args = [whole(a, c["pos"]) if c["which"][i % 12] else a for i, a in enumerate(args)]
    ints = []
    for i, a in enumerate(args):
        v = np.asarray([float(x) for x in a] if hasattr(a, "_fields") else a)
        yes = c["which"][i % 12] and v.dtype.kind == "f" and np.all(v == np.round(v)) and np.all(np.abs(v) < 2.0**53)
        ints.append(as_int(a, c["s"], c["a"]) if yes else a)
    if all(x is y for x, y in zip(ints, args)):
        return ctx.label("nothing whole")
    try:
        want = [np.asarray(x) for x in pool.leaves(api(path)(*args))]
    except Exception:
        return ctx.label("float version undefined")
    if not all(np.all(np.isfinite(w)) for w in want):
        return ctx.label("float version undefined")
    snap = [snapshot(a) for a in ints]
    got = [np.asarray(x) for x in pool.leaves(C(api(path), *ints))]
    double(got, path + " of integers")
    if len(got) != len(want):
        fail("{0}: {1} outputs instead of {2}", path, len(got), len(want))
    for g, w in zip(got, want):
        if w.dtype.kind == "f" and g.dtype != w.dtype:
            fail("{0} of integers has dtype {1}", path, g.dtype)
        close(g, w, rtol=1e-9, atol=1e-10 * pool.scale(path, w), what="%s of integers" % path)
    for a, s in zip(ints, snap):
        unchanged(a, s, "argument of " + path)
    ctx.label("fn:" + c["fn"], "s:" + c["s"], "a:" + c["a"])
    ctx.nt()


FACETS = [
    Facet("imports", lambda t, s: imp_case(), imports, 5, 60, qshards=6, tshards=8, cost=6.0),
    Facet("types", lambda t, s: ty_case(part(pool.NAMES, s, 8)), types, 60, 800, qshards=8, tshards=8, cost=3.0),
    Facet("returned", lambda t, s: re_case(part(list(loaders()) * 3 + pool.NAMES, s, 4)), returned, 40, 600, qshards=4, tshards=8, cost=1.5),
    Facet("integers", lambda t, s: int_case(part(pool.NAMES, s, 6), part(list(INTS), s, 6)), integers, 80, 1200, qshards=6, tshards=8, cost=3.0),
    Facet("host", lambda t, s: host_case(), host, 150, 2000, qshards=2, tshards=4),
    Facet("history", lambda t, s: hi_case(part(pool.NAMES, s, 4), s), history, 60, 1500, qshards=4, tshards=8, cost=4.0),
]
