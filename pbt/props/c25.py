"""C25 loading SSP libraries."""
import os

import numpy as np

from .. import gen
from ..core import C, Facet, api, close, fail, must_raise, same
from ..gen import st
from . import files as F

RULE = (
    "roundtrip: random arrays (float64/float32, non-square shapes 1-5 per axis), 0-6 lines with distinct identifier names in unsorted order, names stored as fixed "
    "or variable-length strings. location: every combination of file name, directory, base name and environment variable given or not, absolute or relative, each possible "
    "place holding a different library or nothing. Non-trivial: lines present with n_line != n_age (roundtrip); at least two places hold a library, or the "
    "expected one is missing while another exists (location). history: 2-7 steps of writing, replacing (also under an unchanged time stamp) and removing libraries at four places, "
    "changing the environment variable and loading; non-trivial: some place is loaded more than once."
)
ASSUMPTIONS = ["any exception counts as the required error", "line names are identifiers that do not start with an underscore (namedtuple fields)"]
TECHNIQUE = "round trip through disk and model-based check of the location rules with faults (missing directories, files, datasets, variables)"
NOTE = "Random files in scratch directories; loaded arrays compared bitwise."
LOAD = "dsps.data_loaders.load_ssp_data:load_ssp_templates"
BN = "ssp_data_fsps_v3.2_lgmet_age.h5"

name = st.from_regex(r"[A-Z][A-Za-z0-9]{0,3}(_[A-Za-z0-9]{1,4}){0,2}", fullmatch=True)
fname = st.from_regex(r"[a-z0-9._ ]{0,5}[a-z0-9]\.(h5|hdf5)", fullmatch=True)


@st.composite
def rt_case(draw):
    n_line = draw(gen.pick([0, 1, 2, 4, 6]))
    return dict(
        seed=draw(st.integers(0, 1 << 16)), shape=draw(st.one_of(st.lists(st.integers(1, 5), min_size=3, max_size=3), st.lists(st.integers(1, 5), min_size=3, max_size=3), gen.pick([[12, 107, 30], [2, 3, 6000], [60, 2, 3], [2, 300, 5]]))), f32=draw(gen.pick([False, False, True])),
        names=draw(st.lists(name, min_size=n_line, max_size=n_line, unique=True)), vlen=draw(st.booleans()), how=draw(gen.pick(["fn", "drn", "env"])),
        bn=draw(st.one_of(st.none(), fname)), dname=draw(gen.pick(["d", "a b", "x[1]", "filters"])), extra=draw(st.booleans()),
    )


def store(fn, seed, shape, names, f32=False, vlen=False, extra=False, drop=None):
    d = F.ssp_arrays(seed, *shape, len(names), f32)
    out = dict(d)
    if names:
        if vlen:
            import h5py

            out["ssp_emline_name"] = np.array(names, dtype=h5py.string_dtype("utf-8"))
        else:
            out["ssp_emline_name"] = np.array(names, dtype="S")
    if extra:
        out["comment"] = np.arange(3.0)
    if drop:
        out.pop(drop, None)
    F.write_h5(fn, **out)
    return d


def compare(got, d, names):
    for k in ("ssp_lgmet", "ssp_lg_age_gyr", "ssp_wave", "ssp_flux"):
        same(getattr(got, k), d[k], "loaded " + k)
    if not names:
        if got.ssp_emline_wave is not None or got.ssp_emline_luminosity is not None:
            fail("emission-line fields are not empty for a file without lines")
        return
    f = tuple(got.ssp_emline_wave._fields)
    if f != tuple(names):
        fail("emission-line names {0} instead of {1}", f, names)
    same(np.array([float(x) for x in got.ssp_emline_wave]), d["ssp_emline_wave"], "line wavelengths")
    for i, n in enumerate(names):
        if float(getattr(got.ssp_emline_wave, n)) != float(d["ssp_emline_wave"][i]):
            fail("wavelength of line {0}", n)
    close(got.ssp_emline_luminosity, d["ssp_emline_luminosity"] * F.LSUN, rtol=1e-13, what="line luminosities")


def roundtrip(c, ctx):
    with F.scratch(c["dname"]) as drn:
        bn = c["bn"] or BN
        fn = os.path.join(drn, bn)
        d = store(fn, c["seed"], c["shape"], c["names"], c["f32"], c["vlen"], c["extra"])
        before = open(fn, "rb").read()
        k = {} if c["bn"] is None else dict(bn=c["bn"])
        with F.environ(DSPS_DRN=drn if c["how"] == "env" else None):
            if c["how"] == "fn":
                got = C(api(LOAD), fn=fn)
            elif c["how"] == "drn":
                got = C(api(LOAD), drn=drn, **k)
            else:
                got = C(api(LOAD), **k)
        compare(got, d, c["names"])
        if open(fn, "rb").read() != before:
            fail("loading changed the file")
    ctx.label("lines:%d" % len(c["names"]), "how:" + c["how"], "f32" if c["f32"] else "f64")
    ctx.nt(c["names"] and len(c["names"]) != c["shape"][1])


PLACES = ("fn", "drn+bn", "drn+default", "env+bn", "env+default")


@st.composite
def loc_case(draw):
    return dict(
        fn=draw(st.booleans()), drn=draw(gen.pick(["none", "ok", "ok", "missing"])), bn=draw(st.booleans()),
        env=draw(gen.pick(["unset", "ok", "ok", "missing"])), present=[draw(gen.pick([True, True, False])) for _ in PLACES],
        seed=draw(st.integers(0, 1000)), positional=draw(st.booleans()), form=draw(gen.pick(F.FORMS)), slash=draw(st.booleans()), drop=draw(gen.pick([None] * 9 + ["ssp_lgmet", "ssp_wave", "ssp_flux", "ssp_lg_age_gyr"])),
    )


def location(c, ctx):
    with F.scratch("top") as top:
        default = BN
        dirs = dict(drn=os.path.join(top, "given"), env=os.path.join(top, "fromenv"))
        path = {
            "fn": os.path.join(top, "elsewhere", "explicit.h5"), "drn+bn": os.path.join(dirs["drn"], "other.h5"), "drn+default": os.path.join(dirs["drn"], default),
            "env+bn": os.path.join(dirs["env"], "other.h5"), "env+default": os.path.join(dirs["env"], default),
        }
        os.makedirs(os.path.join(top, "elsewhere"))
        for k in ("drn", "env"):
            if c[k] == "ok":
                os.makedirs(dirs[k])
        data = {}
        for i, (p, here) in enumerate(zip(PLACES, c["present"])):
            if here and os.path.isdir(os.path.dirname(path[p])):
                data[p] = store(path[p], c["seed"] + 100 * i, (2, 3, 4), ["A_%d" % i] if i % 2 else [])
        if c["fn"]:
            want = "fn"
        elif c["drn"] != "none":
            want = "drn+bn" if c["bn"] else "drn+default"
        elif c["env"] != "unset":
            want = "env+bn" if c["bn"] else "env+default"
        else:
            want = None
        if c["drop"] and want in data:
            store(path[want], c["seed"], (2, 3, 4), [], drop=c["drop"])
        kw = {}
        cwd = os.getcwd()
        os.chdir(os.path.join(top, "elsewhere"))
        here = os.getcwd()
        if c["fn"]:
            kw["fn"] = F.spell(path["fn"], c["form"])
        if c["drn"] != "none":
            kw["drn"] = F.spell(dirs["drn"], c["form"]) + ("/" if c["slash"] else "")
        if c["bn"]:
            kw["bn"] = "other.h5"
        args = ()
        if c["positional"] and c["bn"]:
            args = (kw.pop("fn", None), kw.pop("drn", None), kw.pop("bn"))
        try:
            envd = None if c["env"] == "unset" else F.spell(dirs["env"], c["form"]) + ("/" if c["slash"] else "")
            with F.environ(DSPS_DRN=envd):
                ok = want in data and not c["drop"]
                if ok:
                    i = PLACES.index(want)
                    compare(C(api(LOAD), *args, **kw), data[want], ["A_%d" % i] if i % 2 else [])
                else:
                    must_raise(Exception, api(LOAD), *args, **kw)
                if os.environ.get("DSPS_DRN") != envd:
                    fail("loading changed the environment variable to {0!r}", os.environ.get("DSPS_DRN"))
                if os.getcwd() != here:
                    fail("loading changed the working directory")
        finally:
            os.chdir(cwd)
    ctx.label("want:%s" % want, "found" if ok else "error")
    ctx.nt(len(data) >= 2 or (not ok and len(data) >= 1))


@st.composite
def hist_case(draw):
    n = draw(st.integers(2, 7))
    ops = []
    for _ in range(n):
        ops.append(
            dict(
                write=draw(gen.pick([True, True, False])), delete=draw(gen.pick([False, False, False, True])), place=draw(st.integers(0, 3)), seed=draw(st.integers(0, 1 << 16)),
                shape=[draw(gen.pick([1, 2, 3])) for _ in range(3)], names=draw(gen.pick([[], ["A"], ["B"], ["A", "B"], ["B", "A"], ["C", "A", "B"]])),
                env=draw(st.integers(0, 2)), how=draw(gen.pick(["fn", "drn", "env"])), load=draw(st.integers(0, 3)), keep_mtime=draw(st.booleans()), mutate=draw(gen.pick([False, False, True])),
            )
        )
    return dict(ops=ops)


def history(c, ctx):
    """Libraries written, replaced and removed, and the environment changed, between loads of one process."""
    reloads = errors = 0
    with F.scratch("top") as top:
        default = BN
        dirs = [os.path.join(top, "a"), os.path.join(top, "b")]
        for d in dirs:
            os.makedirs(d)
        path = [os.path.join(d, b) for d in dirs for b in (default, "other.h5")]
        model, loaded = {}, []
        with F.environ(DSPS_DRN=None):
            for op in c["ops"]:
                p = path[op["place"]]
                if op["delete"] and p in model:
                    os.remove(p)
                    del model[p]
                elif op["write"]:
                    old = os.stat(p) if p in model else None
                    model[p] = (store(p, op["seed"], op["shape"], op["names"]), op["names"])
                    if old is not None and op["keep_mtime"]:
                        os.utime(p, ns=(old.st_atime_ns, old.st_mtime_ns))
                if op["env"] == 2:
                    os.environ.pop("DSPS_DRN", None)
                else:
                    os.environ["DSPS_DRN"] = dirs[op["env"]]
                k = op["load"]
                bn = {} if k % 2 == 0 else dict(bn="other.h5")
                if op["how"] == "fn":
                    q, kw = path[k], dict(fn=path[k])
                elif op["how"] == "drn":
                    q, kw = path[k], dict(drn=dirs[k // 2], **bn)
                else:
                    q, kw = (path[2 * op["env"] + k % 2] if op["env"] < 2 else None), bn
                if q in model:
                    got = C(api(LOAD), **kw)
                    compare(got, *model[q])
                    reloads += q in loaded
                    loaded.append(q)
                    if op["mutate"]:
                        np.asarray(got.ssp_lgmet)[...] = 0.0  # the caller owns what was loaded
                else:
                    must_raise(Exception, api(LOAD), **kw)
                    errors += 1
    ctx.label("reloads:%d" % min(reloads, 3), "errors:%d" % min(errors, 3))
    ctx.nt(reloads >= 1)


FACETS = [
    Facet("roundtrip", lambda t, s: rt_case(), roundtrip, 300, 3000, qshards=4, tshards=8),
    Facet("location", lambda t, s: loc_case(), location, 400, 4000, qshards=4, tshards=8),
    Facet("history", lambda t, s: hist_case(), history, 300, 3000, qshards=3, tshards=6),
]
