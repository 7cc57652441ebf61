"""C35 simulated SSP data."""
import os
import random
import signal

import numpy as np

from .. import env, gen
from ..core import C, Facet, Violation, api, between, close, fail, finite, same
from ..gen import st

RULE = "Line counts 0-4000 and around 26^3 = 17576 (including 0, 1 and the default), random states; galaxies and filters for feeding the calculations. Non-trivial: at least one line (data); every case of 'feed'."
ASSUMPTIONS = ["spectra are compared with the packaged power-law coefficients read independently"]
TECHNIQUE = "invariants over configurations and random states; differential against the packaged coefficients"
NOTE = "Random line counts and random states."
FAKE = "dsps.data_loaders.retrieve_fake_fsps_data:load_fake_ssp_data"
FILT = "dsps.data_loaders.retrieve_fake_fsps_data:load_fake_filter_transmission_curves"
_REF = {}


def coeffs():
    if not _REF:
        d = os.path.join(env.REPO, "dsps", "data_loaders", "tests", "testing_data")
        for k in ("c0", "c1"):
            _REF[k] = np.array([[float(x) for x in r.split()] for r in open(os.path.join(d, "ssp_plaw_data_%s.txt" % k)) if r.strip() and r[0] != "#"])
    return _REF["c0"], _REF["c1"]


# three-letter names run out at 26**3
MANY = [1000, 17570, 17577, 20000]


@st.composite
def data_case(draw):
    return dict(n=draw(st.one_of(gen.pick([0, 1, 2, 3, 166, None]), st.integers(0, 12), st.integers(0, 400), st.integers(400, 4000), gen.pick(MANY))), via=draw(gen.pick(["direct", "loader", "loader-args"])), state=draw(st.integers(0, 2**32 - 1)))


def load(n, state, via="direct"):
    random.seed(state)
    np.random.seed(state)

    def late(*_):
        raise Violation("no simulated data with %s lines after 90 s" % n)

    old = signal.signal(signal.SIGALRM, late)
    signal.alarm(90)
    try:
        if n is None and via != "direct":  # the loader's dummy option, whatever else is passed
            kw = {} if via == "loader" else dict(fn="/nonexistent/ssp.h5", drn="/nonexistent", bn="x.h5")
            return C(api("dsps.data_loaders:load_ssp_templates"), dummy=True, **kw)
        return C(api(FAKE)) if n is None else C(api(FAKE), n_line=n)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def data(c, ctx):
    d = load(c["n"], c["state"], c["via"])
    n = 166 if c["n"] is None else c["n"]
    Z, T, W, S = (finite(getattr(d, k), k) for k in ("ssp_lgmet", "ssp_lg_age_gyr", "ssp_wave", "ssp_flux"))
    for a, k in ((Z, "metallicity"), (T, "age"), (W, "wavelength")):
        if a.ndim != 1 or len(a) < 2 or np.any(np.diff(a) <= 0):
            fail("the {0} grid is not ascending", k)
        if a.dtype != np.float64:
            fail("the {0} grid has dtype {1}", k, a.dtype)
    if S.shape != (len(Z), len(T), len(W)):
        fail("spectra have shape {0} for grids of {1}", S.shape, (len(Z), len(T), len(W)))
    between(Z, -5.0, 0.0, "log10 metallicity")
    between(T, -5.0, 1.5, "log10 age in Gyr")
    if W[0] <= 0:
        fail("wavelength {0}", W[0])
    if np.any(S <= 0):
        fail("spectra are not positive")
    c0, c1 = coeffs()
    close(S, 10 ** (c0[:, :, None] + c1[:, :, None] * np.log10(W)), rtol=1e-10, what="simulated spectra")
    if n == 0:
        if d.ssp_emline_wave is not None or d.ssp_emline_luminosity is not None:
            fail("lines were made although none were requested")
    else:
        f = d.ssp_emline_wave._fields
        if len(f) != n or len(set(f)) != n or not all(x.isidentifier() for x in f):
            fail("{0} line names for {1} lines, {2} distinct", len(f), n, len(set(f)))
        w = np.array([float(x) for x in d.ssp_emline_wave])
        if not np.all(np.isfinite(w)) or np.any(w <= 0) or np.any(np.diff(w) <= 0):
            fail("line wavelengths do not ascend")
        L = finite(d.ssp_emline_luminosity, "line luminosities")
        if L.shape != (len(Z), len(T), n):
            fail("line luminosities have shape {0}", L.shape)
        if np.any(L <= 0):
            fail("line luminosities are not positive")
    ctx.label("default:" + c["via"] if c["n"] is None else "n=0" if n == 0 else "n<10" if n < 10 else "n>=10")
    ctx.nt(n > 0)


@st.composite
def feed_case(draw):
    t = draw(gen.time_table(20))
    kind, s = draw(gen.sfh(t, ["knots", "const", "exp"]))
    return dict(t=t, sfr=s, lgmet=draw(gen.flat(-4, -1.5)), scatter=draw(gen.flat(0.05, 0.5)), t_obs=draw(gen.flat(3.0, 13.0)), z=draw(gen.flat(0.05, 1.0)), n=draw(gen.pick([0, 3, 10])), state=draw(st.integers(0, 1 << 30)))


def feed(c, ctx):
    d = load(c["n"], c["state"])
    t_obs = max(c["t_obs"], c["t"][0] + 0.5)
    k = C(api("dsps.sed:calc_rest_sed_sfh_table_lognormal_mdf"), np.array(c["t"]), np.array(c["sfr"]), c["lgmet"], c["scatter"], d.ssp_lgmet, d.ssp_lg_age_gyr, d.ssp_flux, t_obs)
    sed = finite(k.rest_sed, "SED from simulated data")
    if sed.shape != np.shape(d.ssp_wave) or np.any(sed <= 0):
        fail("SED from simulated data is not a positive spectrum")
    F = C(api(FILT))
    w = finite(F[0], "filter wavelengths")
    if np.any(np.diff(w) <= 0):
        fail("filter wavelengths do not ascend")
    cen = []
    for tr, b in zip(F[1:], "ugrizy"):
        tr = finite(tr, "filter " + b)
        if tr.shape != w.shape or tr.min() < 0 or tr.max() > 1 or tr.max() < 0.01:
            fail("filter {0} is not a transmission curve: range {1} to {2}", b, tr.min(), tr.max())
        cen.append(float(np.sum(w * tr) / np.sum(tr)))
        finite(C(api("dsps:calc_rest_mag"), d.ssp_wave, sed, w, tr), "magnitude in " + b)
        finite(C(api("dsps:calc_obs_mag"), d.ssp_wave, sed, w, tr, c["z"], 0.3, -1.0, 0.0, 0.7), "observed magnitude in " + b)
    if len(F) != 7 or np.any(np.diff(cen) <= 0):
        fail("filter centres are not ordered: {0}", cen)
    ctx.nt()


FACETS = [
    Facet("data", lambda t, s: data_case(), data, 40, 800, qshards=4, tshards=8),
    Facet("feed", lambda t, s: feed_case(), feed, 10, 200, qshards=4, tshards=8),
]
