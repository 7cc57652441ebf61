"""C23 surviving and remnant mass fractions."""
import json
import os

import numpy as np
from scipy.special import expit

from .. import gen
from ..core import C, Facet, api, close, fail, finite
from ..gen import st

RULE = (
    "Log ages in [3,10.3] (arrays of 1, 12 or 70-5000, scalars, tabulated values, points between them), four IMF calibrations and the default; for 'forms' also "
    "perturbed parameters. Non-trivial: at least two distinct ages (calibrated) or parameters differing from every calibration (forms)."
)
ASSUMPTIONS = ["tables are linearly interpolated between their ages (0.05 dex)", "default form parameters are the Chabrier ones"]
TECHNIQUE = "reference model, comparison with FSPS tables kept in /verif, invariants"
NOTE = "Random search over ages and parameters; the FSPS tables are a copy, so changing the repository's data does not move the oracle."
S, R = "dsps.imf.surviving_mstar:", "dsps.imf.remnant_mass:"
IMFS = ("default", "salpeter", "chabrier", "kroupa", "van_dokkum")
SURV = dict(salpeter=(0.13, 0.055), chabrier=(0.225, 0.145), default=(0.225, 0.145), kroupa=(0.211, 0.13), van_dokkum=(0.238, 0.156))
REM = dict(salpeter=-1.67, chabrier=-1.42, default=-1.42, kroupa=-1.45, van_dokkum=-1.4)
_T = {}


def table():
    if not _T:
        fn = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "imf_fsps.json")
        _T.update(json.load(open(fn)))
    return _T


@st.composite
def ages(draw, n=None):
    if n:
        return draw(gen.bulk(n, 3.0, 10.3))
    n = draw(gen.pick([1, 12]))
    a = st.one_of(gen.flat(3.0, 10.3), gen.flat(6.0, 10.15), st.integers(0, 93).map(lambda i: 5.5 + 0.05 * i))
    return draw(gen.vec(a, n))


@st.composite
def case(draw, n=None):
    return dict(imf=draw(gen.pick(list(IMFS))), x=sorted(draw(ages(n))), perm=draw(st.integers(0, 99)))


def sig_slope(x, xtp, ytp, x0, k, lo, hi):
    return ytp + (lo + (hi - lo) * expit(k * (x - x0))) * (x - xtp)


def surv_ref(x, a, b, lgk1, d, e, f, lgk2, h):
    z = sig_slope(x, b, a, b, 10**lgk1, d, e)
    return 1 - (h + (z - h) * expit(10**lgk2 * (x - f)))


def rem_ref(x, a, b, lgk1, d, e):
    return 10 ** sig_slope(x, b, a, b, 10**lgk1, d, e)


def surv(imf, x):
    f = api(S + "surviving_mstar")
    return C(f, x) if imf == "default" else C(f, x, **api(S + imf.upper() + "_PARAMS"))


def rem(imf, x):
    f = api(R + "remnant_mass")
    return C(f, x) if imf == "default" else C(f, x, **api(R + imf.upper() + "_PARAMS"))


def calibrated(c, ctx):
    imf, x = c["imf"], np.array(c["x"])
    s = finite(surv(imf, x), "surviving fraction")
    r = finite(rem(imf, x), "remnant fraction")
    a, d = SURV[imf]
    close(s, surv_ref(x, a, 8.0, -0.5, d, 0.08, 6.5, 0.7, 0.005), atol=1e-12, what="surviving fraction (%s)" % imf)
    close(r, rem_ref(x, REM[imf], 7.0, 1.0, 1.3, 0.2), rtol=1e-11, what="remnant fraction (%s)" % imf)
    if np.any(s <= 0) or np.any(s > 1):
        fail("surviving fraction outside (0,1]: {0!r}", s)
    if np.any(r <= 0) or np.any(r >= 1):
        fail("remnant fraction outside (0,1): {0!r}", r)
    if np.any(r > s):
        fail("remnant fraction exceeds the surviving fraction")
    if np.any(np.diff(r) < -1e-14):
        fail("remnant fraction decreases with age")
    old = x >= 6.0
    if np.any(np.diff(s[old]) > 1e-14):
        fail("surviving fraction increases with age")
    if np.any(s[~old] < 0.99):
        fail("population younger than 10^6 yr has lost {0!r} of its mass", 1 - float(s[~old].min()))
    T = table()
    la = np.array(T["lg_age"])
    row = T["chabrier" if imf == "default" else imf]
    m = (x >= la[0]) & (x <= la[-1])
    fs, fr = np.array(row["surv"]), np.array(row["surv"]) - np.array(row["norem"])
    close(s[m], np.interp(x[m], la, fs), atol=0.02, what="surviving fraction (%s) against FSPS" % imf)
    close(r[m], np.interp(x[m], la, fr), atol=0.05, what="remnant fraction (%s) against FSPS" % imf)
    o = np.argsort(gen.hashed(c["perm"], (len(x),), 0.0, 1.0))
    for f, y, nm in ((surv, s, "surviving"), (rem, r, "remnant")):
        close(f(imf, x[o]), y[o], rtol=1e-13, what=nm + " fraction of ages in another order")
        close(f(imf, float(x[0])), y[0], rtol=1e-13, what=nm + " fraction of a scalar age")
        g = np.asarray(f(imf, x[:, None] + np.zeros((1, 2))))
        close(g, np.stack([y, y], axis=1), rtol=1e-13, what=nm + " fraction of a 2d array of ages")
    ctx.label("imf:" + imf)
    ctx.nt(len(set(c["x"])) >= 2)


@st.composite
def free(draw, n=None):
    u = lambda lo, hi: draw(gen.flat(lo, hi))  # noqa: E731
    return dict(
        x=draw(ages(n)), s=[u(0.05, 0.5), u(7.0, 9.0), u(-1.5, 1.0), u(-0.2, 0.3), u(-0.2, 0.3), u(5.5, 7.5), u(-1.0, 1.5), u(0.0, 0.05)],
        r=[u(-2.5, -1.0), u(6.0, 8.0), u(-1.0, 1.5), u(0.5, 2.0), u(0.0, 0.5)], kw=draw(st.booleans()),
    )


def forms(c, ctx):
    x = np.array(c["x"])
    sn, rn = ("a", "b", "lgk1", "d", "e", "f", "lgk2", "h"), ("a", "b", "lgk1", "d", "e")
    if c["kw"]:
        s = C(api(S + "surviving_mstar"), x, **dict(zip(sn, c["s"])))
        r = C(api(R + "remnant_mass"), x, **dict(zip(rn, c["r"])))
    else:
        s = C(api(S + "surviving_mstar"), x, *c["s"])
        r = C(api(R + "remnant_mass"), x, *c["r"])
    want = surv_ref(x, *c["s"])
    close(s, want, atol=1e-11, what="surviving fraction")
    close(C(api(S + "_returned_mass"), x, *c["s"]), 1 - want, atol=1e-11, what="returned fraction")
    close(r, rem_ref(x, *c["r"]), rtol=1e-10, what="remnant fraction")
    ctx.label("kw" if c["kw"] else "positional")
    ctx.nt()


def partial(c, ctx):
    """Parameters left out take the Chabrier values, one by one."""
    x = np.array(c["x"])
    sn, rn = ("a", "b", "lgk1", "d", "e", "f", "lgk2", "h"), ("a", "b", "lgk1", "d", "e")
    ds, dr = [0.225, 8.0, -0.5, 0.145, 0.08, 6.5, 0.7, 0.005], [-1.42, 7.0, 1.0, 1.3, 0.2]
    for i in range(8):
        v = list(ds)
        v[i] = c["s"][i]
        close(C(api(S + "surviving_mstar"), x, **{sn[i]: c["s"][i]}), surv_ref(x, *v), atol=1e-11, what="surviving fraction with only %s given" % sn[i])
    for i in range(5):
        v = list(dr)
        v[i] = c["r"][i]
        close(C(api(R + "remnant_mass"), x, **{rn[i]: c["r"][i]}), rem_ref(x, *v), rtol=1e-10, what="remnant fraction with only %s given" % rn[i])
    ctx.nt()


FACETS = [
    Facet("calibrated", lambda t, s: case(), calibrated, 800, 8000, qshards=3, tshards=8),
    Facet("forms", lambda t, s: free(), forms, 800, 8000, qshards=3, tshards=8),
    Facet("calibrated-large", lambda t, s: case(gen.longs(s)), calibrated, 60, 800, qshards=4, tshards=8),
    Facet("forms-large", lambda t, s: free(gen.longs(s)), forms, 60, 800, qshards=4, tshards=8),
    Facet("partial", lambda t, s: free(), partial, 150, 1000, qshards=1, tshards=3),
]
