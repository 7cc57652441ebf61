"""C28 retrieving SSP data from FSPS and writing them to disk."""
import contextlib
import io
import os
import re
import runpy
import sys
import types
import zlib

import numpy as np

from .. import env, gen
from ..core import C, Facet, api, close, fail, same
from ..gen import st
from . import files as F

RULE = (
    "A stand-in for python-fsps whose outputs are a deterministic function of everything passed to StellarPopulation: 1-6 (also 22) metallicities in any order, 1-6 (also 107) ages, 1-6 (also 5994) wavelengths, "
    "0-9 lines drawn from the packaged reference table in any order or no line support, 0-4 user options. Non-trivial: at least two metallicities, and either lines whose number differs "
    "from the number of ages or at least one user option."
)
ASSUMPTIONS = ["the stand-in offers the attributes of python-fsps 0.4 that the package documents using", "lines come from the reference table, with wavelengths equal up to 1e-8"]
TECHNIQUE = "stand-in (fake FSPS) with content-addressed outputs, round trip through the provided script and the loader"
NOTE = "Random fake FSPS installations; arrays compared bitwise, line luminosities to 1e-13."
RET = "dsps.data_loaders:retrieve_ssp_data_from_fsps"
LOAD = "dsps.data_loaders:load_ssp_templates"

CFG = {}
CALLS = []


def content(kind, shape, zmet, opts, lo, hi):
    key = repr((CFG["seed"], kind, zmet, sorted((k, v) for k, v in opts.items())))
    return 10 ** gen.hashed(zlib.crc32(key.encode()), shape, lo, hi)


def grids(o):
    """Metallicities and ages, which depend on one of the options (as on the isochrones chosen)."""
    k = o.get("tpagb_norm_type", 0)
    return [z / (1 + k) for z in CFG["zlegend"]], [x + 0.125 * k for x in CFG["log_age"]]


class StellarPopulation:
    """What the package needs of fsps.StellarPopulation."""

    def __init__(self, compute_vega_mags=False, vactoair_flag=False, zcontinuous=1, **params):
        CALLS.append(dict(params, zcontinuous=zcontinuous))
        if zcontinuous not in (0, 1, 2, 3):
            raise ValueError("zcontinuous")
        self._o = dict(params, compute_vega_mags=compute_vega_mags, vactoair_flag=vactoair_flag, zcontinuous=zcontinuous)
        self._z = self._o.pop("zmet", 1)
        if not 1 <= self._z <= len(CFG["zlegend"]):
            raise ValueError("zmet")
        self._o.setdefault("add_neb_emission", False)

    zlegend = property(lambda self: np.array(grids(self._o)[0]))
    log_age = property(lambda self: np.array(grids(self._o)[1]))
    ssp_ages = log_age
    wavelengths = property(lambda self: np.array(CFG["wave"]))

    def get_spectrum(self, zmet=None, tage=0.0, peraa=False):
        if zmet is not None:
            self._z = zmet
        n = len(CFG["log_age"])
        s = content("spec", (n, len(CFG["wave"])), self._z, self._o, -30, -5)
        if peraa:
            s = s * 3e18 / np.array(CFG["wave"]) ** 2
        if tage:
            s = s[0] * tage
        return np.array(CFG["wave"]), s

    def __getattr__(self, name):
        if name in ("emline_wavelengths", "emline_luminosity") and CFG["lines"] is not None:
            if name == "emline_wavelengths":
                return np.array(CFG["lines"])
            return content("line", (len(CFG["log_age"]), len(CFG["lines"])), self._z, self._o, -20, 1)
        raise AttributeError(name)


def PREPARE():
    m = types.ModuleType("fsps")
    m.StellarPopulation = StellarPopulation
    m.__version__ = "0.4.7"
    sys.modules["fsps"] = m


_TAB = []


def reference():
    if not _TAB:
        fn = os.path.join(env.REPO, "dsps", "data", "emlines_info.dat")
        for row in open(fn):
            if row.strip():
                a, b = row.strip().split(",")
                _TAB.append((float(a), re.sub(r"[\[\]]", "", re.sub(r"[ -]", "_", b).replace(".", "p"))))
    return _TAB


opts = st.fixed_dictionaries(
    {},
    optional=dict(
        imf_type=st.integers(0, 5), gas_logz=gen.flat(-2, 0.5), gas_logu=gen.flat(-4, -1), logzsol=gen.flat(-1, 0.3), dust_type=st.integers(0, 4), sfh=gen.pick([0]), compute_vega_mags=st.booleans(),
        vactoair_flag=st.booleans(), tpagb_norm_type=st.integers(0, 2), dust2=gen.flat(0, 1), smooth_velocity=st.booleans(),
    ),
)


@st.composite
def case(draw, script=False):
    n_met, n_age, n_wave = draw(gen.pick([(22, 94, 5), (3, 107, 40), (2, 3, 5994)])) if draw(gen.pick([False] * 11 + [True])) else [draw(st.integers(1, 6)) for _ in range(3)]
    sup = draw(gen.pick([True, True, False]))
    idx = draw(st.lists(st.integers(0, 165), min_size=1 if script else 0, max_size=9, unique=True)) if sup else None
    if idx and draw(gen.pick([False, False, False, True])):
        idx = sorted(idx)
    if sup and draw(gen.pick([False] * 9 + [True])):
        idx = list(range(166))
    c = dict(
        seed=draw(st.integers(0, 1 << 16)), zlegend=draw(gen.vec(gen.logu(1e-5, 0.08), n_met)), sort=draw(gen.pick([True, True, False])), log_age=sorted(draw(gen.fvec(4.5, 10.3, n_age))),
        n_wave=n_wave, idx=idx, jit=draw(gen.pick([0.0, 0.0, 1e-8, -1e-8])),
    )
    if c["sort"]:
        c["zlegend"] = sorted(c["zlegend"])
    if script:
        c.update(gas_logz=draw(st.one_of(st.none(), st.just(0), st.integers(-300, 100))), gas_logu=draw(st.one_of(st.none(), st.just(0), st.integers(-500, 0))), eq=draw(st.booleans()), order=draw(st.booleans()), name=draw(gen.pick(["out.h5", "a b.hdf5", "x"])), pre=draw(st.booleans()))
    else:
        c.update(opts=draw(opts), neb=draw(gen.pick([None, True, False])), pos=draw(st.booleans()))
    return c


def install(c):
    tab = reference()
    CFG.clear()
    lines = None
    if c["idx"] is not None:
        lines = [tab[i][0] * (1 + c["jit"]) for i in c["idx"] if i < len(tab)]
    CFG.update(seed=c["seed"], zlegend=c["zlegend"], log_age=c["log_age"], wave=[float(x) for x in np.sort(10 ** gen.hashed(c["seed"], (c["n_wave"],), 2, 6))], lines=lines)
    del CALLS[:]
    names = None if lines is None else [tab[i][1] for i in c["idx"] if i < len(tab)]
    return names


def expect(opt):
    o = dict(compute_vega_mags=False, vactoair_flag=False, zcontinuous=0)
    o.update(opt)
    n, na = len(CFG["zlegend"]), len(CFG["log_age"])
    flux = np.stack([content("spec", (na, len(CFG["wave"])), z, o, -30, -5) for z in range(1, n + 1)])
    lum = None
    if CFG["lines"] is not None:
        lum = np.stack([content("line", (na, len(CFG["lines"])), z, o, -20, 1) for z in range(1, n + 1)])
    return flux, lum


def judge(d, names, flux, lum, how, scale=1.0, o={}):
    zleg, lga = grids(o)
    close(d.ssp_lgmet, np.log10(zleg), rtol=1e-14, what=how + " ssp_lgmet")
    close(d.ssp_lg_age_gyr, np.array(lga) - 9.0, atol=1e-14, what=how + " ssp_lg_age_gyr")
    same(np.asarray(d.ssp_wave), np.array(CFG["wave"]), how + " ssp_wave")
    same(np.asarray(d.ssp_flux), flux, how + " ssp_flux")
    if names is None:
        if d.ssp_emline_wave is not None or d.ssp_emline_luminosity is not None:
            fail("{0}: emission-line fields without line support", how)
        return
    if tuple(d.ssp_emline_wave._fields) != tuple(names):
        fail("{0}: line names {1} instead of {2}", how, d.ssp_emline_wave._fields, names)
    if [float(x) for x in d.ssp_emline_wave] != CFG["lines"]:
        fail("{0}: line wavelengths {1} instead of {2}", how, list(d.ssp_emline_wave), CFG["lines"])
    close(d.ssp_emline_luminosity, lum * scale, rtol=1e-13, what=how + " line luminosities")


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return C(fn, *a, **k)


def retrieve(c, ctx):
    names = install(c)
    kw = dict(c["opts"])
    args = ()
    if c["neb"] is not None:
        if c["pos"]:
            args = (c["neb"],)
        else:
            kw["add_neb_emission"] = c["neb"]
    d = quiet(api(RET), *args, **kw)
    o = dict(c["opts"], add_neb_emission=True if c["neb"] is None else c["neb"])
    flux, lum = expect(o)
    judge(d, names, flux, lum, "retrieved", o=o)
    ctx.label("lines:%s" % (None if names is None else min(len(names), 5)), "opts:%d" % len(c["opts"]), "neb:%s" % c["neb"])
    ctx.nt(len(c["zlegend"]) >= 2 and ((names and len(names) != len(c["log_age"])) or c["opts"]))


def script(c, ctx):
    names = install(c)
    fn = os.path.join(env.REPO, "scripts", "write_fsps_data_to_disk.py")
    if not os.path.exists(fn):
        fail("the script {0} is gone", fn)
    o = dict(add_neb_emission=True)
    with F.scratch() as d:
        out = os.path.join(d, c["name"])
        if c["pre"]:
            F.write_h5(out, junk=np.arange(3))
        opt = []
        for k in ("gas_logz", "gas_logu"):
            if c[k] is not None:
                o[k] = c[k] / 100.0
                t = "%.2f" % o[k]
                opt += ["--%s=%s" % (k, t)] if c["eq"] else ["--" + k, t]
        argv = [fn] + (opt + [out] if c["order"] else [out] + opt)
        old = sys.argv
        sys.argv = argv
        try:
            try:
                quiet(runpy.run_path, fn, run_name="__main__")
            except SystemExit as e:
                if e.code not in (0, None):
                    fail("the script exits with {0} for {1}", e.code, argv[1:])
        finally:
            sys.argv = old
        flux, lum = expect(o)
        for p in CALLS:
            for k in ("gas_logz", "gas_logu"):
                if "zmet" in p and p.get(k) != o.get(k):
                    fail("FSPS was called with {0}={1} instead of {2}", k, p.get(k), o.get(k))
        r = C(api(LOAD), fn=out)
        judge(r, names, flux, lum, "written and loaded", F.LSUN)
    ctx.label("lines:%s" % (None if names is None else min(len(names), 5)), "gas_logz:%s" % (c["gas_logz"] is not None), "gas_logu:%s" % (c["gas_logu"] is not None))
    ctx.nt(len(c["zlegend"]) >= 2 and ((names and len(names) != len(c["log_age"])) or c["gas_logz"] is not None))


@st.composite
def foreign_case(draw):
    c = draw(case())
    c.update(idx=draw(st.lists(st.integers(0, 165), min_size=0, max_size=5, unique=True)), at=draw(st.integers(0, 165)), off=draw(st.one_of(gen.logu(1e-3, 0.3), gen.logu(1e-3, 0.3).map(lambda x: -x))), where=draw(st.integers(0, 5)))
    return c


def foreign(c, ctx):
    """A line that the reference table does not hold: refused, or at least not named after some reference line."""
    tab = reference()
    names = install(c)
    w = tab[c["at"] % len(tab)][0] * (1 + c["off"])
    near = min(abs(w / x - 1) for x, _ in tab)
    if near < 1e-4:
        return
    k = min(c["where"], len(names))
    CFG["lines"].insert(k, w)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            d = api(RET)(**c["opts"])
    except (ValueError, KeyError, IndexError, AssertionError, LookupError, TypeError):
        ctx.label("refused")
        ctx.nt()
        return
    f = d.ssp_emline_wave._fields
    if f[k] in [b for _, b in tab]:
        fail("a line at {0!r} AA is named {1}, which is the reference line at {2!r} AA", w, f[k], [a for a, b in tab if b == f[k]])
    if tuple(f[:k] + f[k + 1 :]) != tuple(names):
        fail("line names {0} around an unknown line, instead of {1}", f, names)
    ctx.label("kept")
    ctx.nt()


FACETS = [
    Facet("retrieve", lambda t, s: case(), retrieve, 250, 3000, qshards=4, tshards=8),
    Facet("foreign", lambda t, s: foreign_case(), foreign, 200, 2000, qshards=2, tshards=4),
    Facet("script", lambda t, s: case(True), script, 150, 2000, qshards=4, tshards=8),
]
