"""C27 emission-line tables and subsets."""
import keyword
import os
from collections import namedtuple

import numpy as np

from .. import gen
from ..core import C, Facet, api, close, fail, must_raise, same
from ..gen import st
from . import files as F

RULE = (
    "table: files of 1-12 (also 130, 400) lines with names made of words joined by spaces, dashes, dots, with brackets. subset: SSP data with 1-9 (also 130, 400) lines and sequences of 1-3 "
    "non-empty selections in arbitrary order. packaged: the shipped table. Non-trivial: some name needs sanitising in two ways (table); a proper subset or a permutation that is "
    "not sorted (subset)."
)
ASSUMPTIONS = ["names are distinct after sanitising and begin with a letter"]
TECHNIQUE = "reference parser and model-based selection sequences"
NOTE = "Random tables and selection sequences against a list model."
READ = "dsps.data_loaders.load_emline_info:read_emlines_info_fsps"
SUB = "dsps.data_loaders.load_emline_info:get_subset_emline_data"

rawname = st.one_of(
    st.from_regex(r"(\[?[A-Z][a-z]{0,2}( [IV]{1,3})?\]?)([-. ][A-Za-z0-9]{1,4}){0,3}( [0-9]{3,4}(\.[0-9]{1,2}A?)?)?(m| micron)?", fullmatch=True),
    st.from_regex(r"\[?[A-Z][a-z]{0,2}( [IV]{1,3})?\]?([-. ]{1,2}\[?[A-Za-z0-9.]{1,6}( [IV]{1,3})?\]?){1,4}", fullmatch=True),  # blends: several bracketed ions
)
_D = {" ": "_", "-": "_", ".": "p", "[": "", "]": ""}


def sanitise(s):
    return "".join(_D.get(ch, ch) for ch in s)


@st.composite
def table_case(draw):
    n = draw(gen.pick([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 12, 130, 400]))
    nm = draw(st.lists(rawname, min_size=min(n, 12), max_size=min(n, 12), unique_by=sanitise))
    nm += ["[L %s] %d.%d" % (("I", "II", "III")[i % 3], i, i % 7) for i in range(n - len(nm))]  # long tables
    wv = draw(gen.vec(gen.logu(100.0, 1e7), n) if n <= 12 else gen.bulk(n, 100.0, 1e7, True))
    return dict(names=nm, waves=wv, fmt=draw(gen.pick(["%r", "%.3f", "%.6g"])), eol=draw(st.booleans()), test=draw(st.booleans()), again=draw(gen.pick([0, 0, 1, 2])))


def table(c, ctx):
    with F.scratch() as d:
        fn = os.path.join(d, "lines.dat")
        txt = [c["fmt"] % w for w in c["waves"]]
        with open(fn, "w") as f:
            f.write("\n".join(a + "," + b for a, b in zip(txt, c["names"])) + ("\n" if c["eol"] else ""))
        r = C(api(READ), fn)
        want = {sanitise(n): float(t) for n, t in zip(c["names"], txt)}
        if list(r) != list(want):
            fail("line names {0} instead of {1}", list(r), list(want))
        for k, v in want.items():
            if float(r[k]) != v:
                fail("wavelength of {0} is {1!r} instead of {2!r}", k, r[k], v)
            if not k.isidentifier():
                fail("{0!r} is not an identifier", k)
        if c["test"]:
            r2, arr = C(api(READ), fn, testmode=True)
            if dict(r2) != dict(r):
                fail("test mode changes the table")
            same(np.asarray(arr), np.array([float(t) for t in txt]), "wavelength array")
        if c["again"]:  # the file is replaced and read again
            old = os.stat(fn)
            rows = list(zip(txt, c["names"]))[::-1]
            rows = rows[: c["again"]] + [(t + "1", n) for t, n in rows[c["again"] :]]
            with open(fn, "w") as f:
                f.write("\n".join(a + "," + b for a, b in rows))
            if c["test"]:
                os.utime(fn, ns=(old.st_atime_ns, old.st_mtime_ns))
            r = C(api(READ), fn)
            if [(k, float(v)) for k, v in r.items()] != [(sanitise(n), float(t)) for t, n in rows]:
                fail("the replaced table is not what was read: {0}", r)
    ctx.label("n=%d" % len(c["names"]))
    ctx.nt(any(sum(ch in n for ch in " -.[") >= 2 for n in c["names"]))


def packaged(c, ctx):
    import dsps

    fn = os.path.join(os.path.dirname(dsps.__file__), "data", "emlines_info.dat")
    rows = [x.strip().split(",") for x in open(fn) if x.strip()]
    r = C(api(READ), fn)
    if list(r) != [sanitise(b) for _, b in rows]:
        fail("names of the packaged table")
    if [float(v) for v in r.values()] != [float(a) for a, _ in rows]:
        fail("wavelengths of the packaged table")
    bad = [k for k in r if not k.isidentifier() or keyword.iskeyword(k)]
    if bad or len(r) != len(rows) or len(rows) < 100:
        fail("packaged table: {0} rows, {1} names, invalid {2}", len(rows), len(r), bad)
    C(namedtuple, "T", list(r))
    ctx.nt()


lname = st.from_regex(r"[A-Z][a-z]{0,2}(_[A-Za-z0-9]{1,4}){0,2}", fullmatch=True)


@st.composite
def sub_case(draw):
    n = draw(gen.pick([1, 2, 3, 4, 5, 6, 7, 8, 9, 9, 130, 400]))
    names = draw(st.lists(lname, min_size=min(n, 9), max_size=min(n, 9), unique=True))
    names += ["Line_%d" % i for i in range(n - len(names))]  # many lines
    seq, cur = [], list(names)
    for _ in range(draw(st.integers(1, 3))):
        p = draw(st.permutations(cur)) if len(cur) < 20 else [cur[i] for i in np.argsort(gen.hashed(draw(st.integers(0, 1 << 16)), (len(cur),), 0.0, 1.0))]
        cur = p[: draw(st.integers(1, len(p)))]
        seq.append(cur)
    return dict(
        names=names, seq=seq, seed=draw(st.integers(0, 1 << 16)), shape=[draw(st.integers(1, 4)) for _ in range(3)], container=draw(gen.pick(["list", "tuple"])),
        bad=draw(gen.pick([False, False, False, True])), jax=draw(st.booleans()),
    )


def subset(c, ctx):
    d = F.ssp_arrays(c["seed"], *c["shape"], len(c["names"]))
    W = namedtuple("EmLineWave", c["names"])
    lum = d["ssp_emline_luminosity"]
    if c["jax"]:
        import jax.numpy as jnp

        lum = jnp.array(lum)
    S = api("dsps.data_loaders.defaults:SSPData")
    data = S(d["ssp_lgmet"], d["ssp_lg_age_gyr"], d["ssp_wave"], d["ssp_flux"], W(*[float(x) for x in d["ssp_emline_wave"]]), lum)
    keep = {k: np.array(np.asarray(getattr(data, k)), copy=True) for k in data._fields if k != "ssp_emline_wave"}
    waves = dict(zip(c["names"], [float(x) for x in d["ssp_emline_wave"]]))
    idx = {n: i for i, n in enumerate(c["names"])}
    cur = data
    box = list if c["container"] == "list" else tuple

    def judge(got, sel, how):
        if tuple(got.ssp_emline_wave._fields) != tuple(sel):
            fail("{0}: names {1} instead of {2}", how, got.ssp_emline_wave._fields, sel)
        for i, n in enumerate(sel):
            if float(getattr(got.ssp_emline_wave, n)) != waves[n] or float(got.ssp_emline_wave[i]) != waves[n]:
                fail("{0}: wavelength of {1}", how, n)
        L = np.asarray(got.ssp_emline_luminosity)
        same(L, keep["ssp_emline_luminosity"][:, :, [idx[n] for n in sel]], how + ": luminosities")
        for k in ("ssp_lgmet", "ssp_lg_age_gyr", "ssp_wave", "ssp_flux"):
            same(np.asarray(getattr(got, k)), keep[k], how + ": " + k)

    for sel in c["seq"]:
        arg = box(sel)
        cur = C(api(SUB), cur, arg)
        if list(arg) != list(sel):
            fail("the selection was modified")
        judge(cur, sel, "subset")
    judge(C(api(SUB), data, box(c["seq"][-1])), c["seq"][-1], "direct selection")
    judge(data, c["names"], "original data after selections")
    if c["bad"]:
        must_raise(Exception, api(SUB), cur, box(list(c["seq"][-1]) + ["NoSuchLine"]))
    ctx.label("lines:%d" % len(c["names"]), "steps:%d" % len(c["seq"]))
    ctx.nt(len(c["seq"][-1]) < len(c["names"]) or c["seq"][-1] != c["names"])


FACETS = [
    Facet("table", lambda t, s: table_case(), table, 300, 3000, qshards=3, tshards=6),
    Facet("subset", lambda t, s: sub_case(), subset, 300, 3000, qshards=4, tshards=8),
    Facet("packaged", lambda t, s: st.just({}), packaged, 1, 1, tshards=1, cost=0.1),
]
