"""C26 loading transmission curves."""
import fnmatch
import os

import numpy as np

from .. import gen
from ..core import C, Facet, api, close, fail, finite, must_raise, same
from ..gen import st
from . import files as F

RULE = (
    "values: arrays of 2-8 points whose extremes are inside, within the 0.01 tolerance of, or beyond [0,1] on either side (never within 1e-6 of the tolerance). "
    "location: 0-5 file names from a small alphabet (incl. brackets, dots, hidden), files in a subdirectory, patterns with *, ?, [] or literal, explicit directory, environment directory or none, absolute or relative, "
    "directory names with glob metacharacters, missing directories/files. random: keys, centres, ranges and widths. Non-trivial: extremes outside [0,1] (values); "
    "at least two files and a pattern that matches at least one (location); at least one filter loaded again later in the process (history: 2-8 steps of writing, replacing, removing, changing the environment, loading); explicit centre or a range/width other than the default (random)."
)
ASSUMPTIONS = [
    "pattern semantics are those of shell globbing (hidden files only match a literal dot)", "any exception counts as the required error",
    "random curves: width at least the grid step, so that the sampled curve is not empty",
]
TECHNIQUE = "model-based (reference globbing over generated directories, faults), round trip, invariants"
NOTE = "Random files in scratch directories."
LOAD = "dsps.data_loaders.load_filter_data:load_transmission_curve"
RAN = "dsps.data_loaders.load_filter_data:load_random_transmission_curve"


@st.composite
def val_case(draw):
    n = draw(gen.pick([2, 3, 8, 8, 3000]))
    lo = draw(gen.pick(["in", "in", "zero", "tol", "bad"]))
    hi = draw(gen.pick(["in", "in", "one", "tol", "bad"]))
    low = dict(tol=draw(gen.flat(1e-6, 0.01 - 1e-6)), bad=0.01 + draw(gen.logu(1e-6, 10.0)))
    vals = draw(gen.fvec(0.0, 1.0, n))
    i, j = draw(st.permutations(list(range(n))))[:2]
    if lo != "in":
        vals[i] = 0.0 if lo == "zero" else -low[lo]
    if hi != "in":
        vals[j] = 1.0 if hi == "one" else 1.0 + low[hi]
    return dict(t=[float(x) for x in vals], lo=lo, hi=hi, w=draw(gen.wave_grid(n, 3000.0, 9000.0)), how=draw(gen.pick(["fn", "drn", "env"])))


def values(c, ctx):
    with F.scratch("d") as top:
        drn = os.path.join(top, "filters")
        os.makedirs(drn)
        fn = os.path.join(drn, "band_x_transmission.h5")
        w, t = np.array(c["w"]), np.array(c["t"])
        F.write_h5(fn, wave=w, transmission=t)
        with F.environ(DSPS_DRN=top if c["how"] == "env" else None):
            kw = dict(fn=dict(fn=fn), drn=dict(drn=drn, bn_pat="band_x*"), env=dict(bn_pat="*x_trans*"))[c["how"]]
            bad = t.min() < -0.01 or t.max() > 1.01
            if bad:
                must_raise(Exception, api(LOAD), **kw)
            else:
                r = C(api(LOAD), **kw)
                same(np.asarray(r.wave), w, "loaded wavelengths")
                same(np.asarray(r.transmission), np.clip(t, 0, 1), "loaded transmission")
                if len(r) != 2:
                    fail("the curve has {0} fields", len(r))
    ctx.label("lo:" + c["lo"], "hi:" + c["hi"])
    ctx.nt(t.min() < 0 or t.max() > 1)


names = st.lists(
    st.one_of(
        st.from_regex(r"[ab]{1,2}(_[rg])?(\.h5)?", fullmatch=True), gen.pick(["lsst_r_transmission.h5", "lsst_g_transmission.h5", "suprimecam_b.h5", "a[1].h5", "a1.h5", ".hidden.h5", "a b.h5"]),
    ),
    min_size=0, max_size=5, unique=True,
)
pats = gen.pick(["*", "a*", "*b*", "?", "a?", "lsst_r*", "lsst_*", "*.h5", "a[[]1].h5", "a[1].h5", "suprimecam_b*", "[ab]*", ".*", "ab", "a_r*", "*_g*", "a.h5", "zzz*"])


@st.composite
def loc_case(draw):
    return dict(
        files=draw(names), envfiles=draw(names), pat=draw(pats), use_name=draw(st.booleans()), drn=draw(gen.pick(["none", "ok", "ok", "missing"])),
        env=draw(gen.pick(["unset", "ok", "ok", "nofilters", "missing"])), fn=draw(gen.pick(["none", "none", "none", "ok", "missing"])),
        dname=draw(gen.pick(["d", "d", "a b", "x[1]", "q?", "s*", "[!a]"])), form=draw(gen.pick(F.FORMS)), slash=draw(st.booleans()), stray=draw(st.booleans()), sub=draw(gen.pick([False, False, True])),
    )


HN = ["lsst_r.h5", "lsst_g.h5", "b_r.h5", "b_g.h5"]


@st.composite
def hist_case(draw):
    ops = []
    for _ in range(draw(st.integers(2, 8))):
        ops.append(
            dict(
                do=draw(gen.pick(["write", "write", "write", "delete", "none"])), d=draw(st.integers(0, 1)), f=draw(st.integers(0, 3)), v=draw(gen.pick([0.2, 0.5, 0.9, -0.005, 1.004, -0.5, 1.7])), n=draw(st.integers(2, 4)),
                keep_mtime=draw(st.booleans()), env=draw(st.integers(0, 2)), how=draw(gen.pick(["fn", "drn", "env"])), ld=draw(st.integers(0, 1)), lf=draw(st.integers(0, 3)), pat=draw(gen.pick(["*", "lsst_*", "b_*", "*_r*", "*_g*", "lsst_r*", "b_g.h5", None])),
            )
        )
    return dict(ops=ops)


def history(c, ctx):
    """Filters written, replaced and removed, and the environment changed, between loads of one process."""
    reloads = errors = 0
    with F.scratch("top") as top:
        envs = [os.path.join(top, "a"), os.path.join(top, "b")]
        dirs = [os.path.join(e, "filters") for e in envs]
        for d in dirs:
            os.makedirs(d)
        model, seen = {}, set()
        with F.environ(DSPS_DRN=None):
            for op in c["ops"]:
                p = os.path.join(dirs[op["d"]], HN[op["f"]])
                if op["do"] == "delete" and p in model:
                    os.remove(p)
                    del model[p]
                elif op["do"] == "write":
                    old = os.stat(p) if p in model else None
                    model[p] = (np.linspace(1.0, 2.0, op["n"]) * (1 + op["f"]), np.array([op["v"]] + [0.4] * (op["n"] - 1)))
                    F.write_h5(p, wave=model[p][0], transmission=model[p][1])
                    if old is not None and op["keep_mtime"]:
                        os.utime(p, ns=(old.st_atime_ns, old.st_mtime_ns))
                if op["env"] == 2:
                    os.environ.pop("DSPS_DRN", None)
                else:
                    os.environ["DSPS_DRN"] = envs[op["env"]]
                pat = op["pat"] or HN[op["lf"]]
                if op["how"] == "fn":
                    q = os.path.join(dirs[op["ld"]], HN[op["lf"]])
                    kw = dict(fn=q)
                else:
                    kw = dict(bn_pat=pat)
                    d = dirs[op["ld"]]
                    if op["how"] == "drn":
                        kw["drn"] = d
                    else:
                        d = dirs[op["env"]] if op["env"] < 2 else None
                    hits = [] if d is None else glob_ref([os.path.basename(x) for x in model if os.path.dirname(x) == d], pat)
                    q = os.path.join(d, hits[0]) if len(hits) == 1 else None
                if q in model and -0.01 <= model[q][1].min() and model[q][1].max() <= 1.01:
                    r = C(api(LOAD), **kw)
                    same(np.asarray(r.wave), model[q][0], "loaded wavelengths")
                    same(np.asarray(r.transmission), np.clip(model[q][1], 0, 1), "loaded transmission")
                    reloads += q in seen
                    seen.add(q)
                else:
                    must_raise(Exception, api(LOAD), **kw)
                    errors += 1
    ctx.label("reloads:%d" % min(reloads, 3), "errors:%d" % min(errors, 3))
    ctx.nt(reloads >= 1)


def glob_ref(files, pat):
    return sorted(f for f in files if fnmatch.fnmatchcase(f, pat) and (not f.startswith(".") or pat.startswith(".")))


def location(c, ctx):
    with F.scratch(c["dname"]) as top:
        given, env = os.path.join(top, "given"), os.path.join(top, "env")
        edir = os.path.join(env, "filters")
        if c["drn"] == "ok":
            os.makedirs(given)
        if c["env"] == "ok":
            os.makedirs(edir)
        if c["env"] == "nofilters":
            os.makedirs(env)
        content = {}

        def put(path):
            k = len(content) + 1
            content[path] = k / 64.0
            F.write_h5(path, wave=np.linspace(1.0, 2.0, 4) * k, transmission=np.full(4, k / 64.0))

        for d, fs, ok in ((given, c["files"], c["drn"] == "ok"), (edir, c["envfiles"], c["env"] == "ok")):
            if ok:
                for f in fs:
                    put(os.path.join(d, f))
        if c["env"] in ("ok", "nofilters") and c["stray"]:
            for f in c["envfiles"]:
                put(os.path.join(env, f + ".x") if os.path.isdir(os.path.join(env, f)) else os.path.join(env, f))
        if c["stray"]:
            for f in ("ab", "lsst_r_transmission.h5", "a.h5"):
                put(os.path.join(top, f))
        pat = c["pat"]
        if c["sub"] and pat != "*":  # filters of a subdirectory are not in the directory
            for d, fs in ((given, c["files"]), (edir, c["envfiles"])):
                if os.path.isdir(d):
                    os.makedirs(os.path.join(d, "QQ"))
                    for f in set(fs) | {"ab", "a.h5", "lsst_r_transmission.h5"}:
                        put(os.path.join(d, "QQ", f))
        pool = c["files"] if c["drn"] != "none" else c["envfiles"]
        if c["use_name"] and pool:
            pat = pool[len(c["pat"]) % len(pool)]
        kw = dict(bn_pat=pat)
        want = None
        if c["drn"] != "none":
            kw["drn"] = given
            cand, d = (c["files"], given) if c["drn"] == "ok" else ([], given)
        elif c["env"] == "ok":
            cand, d = c["envfiles"], edir
        else:
            cand, d = [], edir
        hits = glob_ref(cand, pat)
        if len(hits) == 1:
            want = os.path.join(d, hits[0])
        if c["fn"] != "none":
            p = os.path.join(top, "explicit.h5")
            kw["fn"] = p
            want = None
            if c["fn"] == "ok":
                put(p)
                want = p
        cwd = os.getcwd()
        os.chdir(top)
        here = os.getcwd()
        try:
            for k in ("drn", "fn"):
                if k in kw:
                    kw[k] = F.spell(kw[k], c["form"]) + ("/" if k == "drn" and c["slash"] else "")
            envd = None if c["env"] == "unset" else F.spell(env, c["form"]) + ("/" if c["slash"] else "")
            with F.environ(DSPS_DRN=envd):
                if want is None:
                    must_raise(Exception, api(LOAD), **kw)
                else:
                    r = C(api(LOAD), **kw)
                    close(r.transmission, np.full(4, content[want]), what="transmission of the selected filter")
                if os.environ.get("DSPS_DRN") != envd:
                    fail("loading changed the environment variable to {0!r}", os.environ.get("DSPS_DRN"))
                if os.getcwd() != here:
                    fail("loading changed the working directory")
        finally:
            os.chdir(cwd)
    ctx.label("hits:%d" % min(len(hits), 3), "drn:" + c["drn"], "env:" + c["env"], "fn:" + c["fn"], "dir:" + c["dname"])
    ctx.nt(len(cand) >= 2 and len(hits) >= 1)


@st.composite
def ran_case(draw):
    lo = draw(gen.pick([1000.0, 1000.0, 300.0, 5000.0]))
    hi = lo + draw(gen.pick([9000.0, 9000.0, 2000.0, 50000.0]))
    step = (hi - lo) / 199
    scale = draw(gen.flat(step, (hi - lo) / 8))
    return dict(
        key=draw(st.one_of(st.none(), st.integers(0, 2**31 - 1), st.integers(0, 2**31 - 1))), lo=lo, hi=hi, scale=scale, default=draw(gen.pick([True, False, False])),
        centre=draw(st.one_of(st.none(), gen.flat(0.001, 0.999), gen.flat(0.001, 0.999), gen.pick([-0.2, 1.3]))),
    )


def random_curve(c, ctx):
    import jax

    key = None if c["key"] is None else jax.random.PRNGKey(c["key"])
    lo, hi, scale = (1000.0, 10000.0, 300.0) if c["default"] else (c["lo"], c["hi"], c["scale"])
    kw = {} if c["default"] else dict(wave_range=(lo, hi), scale=scale)
    if key is not None:
        kw["ran_key"] = key
    mid = None
    if c["centre"] is not None:
        mid = lo + c["centre"] * (hi - lo)
        kw["tcurve_center"] = mid
        if not lo < mid < hi:
            must_raise(Exception, api(RAN), **kw)
            ctx.label("centre-outside")
            return
    r = C(api(RAN), **kw)
    w, t = finite(r.wave, "wavelengths"), finite(r.transmission, "transmission")
    if w.shape != t.shape or w.ndim != 1 or len(w) < 2 or np.any(np.diff(w) <= 0):
        fail("wavelengths of the random curve are not an ascending array matching the transmission")
    if w[0] < lo - 1e-6 or w[-1] > hi + 1e-6:
        fail("wavelengths [{0},{1}] outside [{2},{3}]", w[0], w[-1], lo, hi)
    if t.min() < 0 or t.max() > 1:
        fail("transmission outside [0,1]: {0} {1}", t.min(), t.max())
    close(t.max(), 1.0, atol=1e-6, what="peak transmission")
    step = float(np.diff(w).max())
    peak = float(w[np.argmax(t)])
    if mid is not None:
        if abs(peak - mid) > step * 0.51 + 1e-6 * hi:
            fail("curve peaks at {0}, requested centre {1}", peak, mid)
        g = np.exp(-0.5 * ((w - mid) / scale) ** 2)
        close(t, g / g.max(), atol=1e-4, what="random transmission curve")
    elif not lo + 2 * scale - step <= peak <= hi - 2 * scale + step:
        fail("random centre {0} is less than two widths from the ends of [{1},{2}]", peak, lo, hi)
    if key is not None:
        same(np.asarray(C(api(RAN), **kw).transmission), t, "random curve for the same key")
    ctx.label("centre:%s" % (mid is not None), "default" if c["default"] else "custom")
    ctx.nt(mid is not None or not c["default"])


FACETS = [
    Facet("values", lambda t, s: val_case(), values, 300, 3000, qshards=2, tshards=4),
    Facet("location", lambda t, s: loc_case(), location, 500, 5000, qshards=4, tshards=8),
    Facet("history", lambda t, s: hist_case(), history, 300, 3000, qshards=3, tshards=6),
    Facet("random", lambda t, s: ran_case(), random_curve, 250, 2500, qshards=2, tshards=4),
]
