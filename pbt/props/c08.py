"""C08 gradients of the stellar population model."""
import numpy as np

from .. import gen, grads, ref
from ..core import Facet, api
from ..gen import st
from . import common as K

RULE = (
    "Galaxies as in C05/C06. Each case differentiates a random positive projection of age weights, metallicity weights, "
    "composite SED or burst-mixed weights with respect to SFR table, metallicity (table), scatter, observation time "
    "and burst parameters. Finite-everywhere facets use every SFH kind (large: to 1500 times and 400 ages); finite-difference facets use smooth histories. Non-trivial: "
    "for 'finite' the history has zeros or a bin is older than the universe; for 'fd' at least two parameters had a sharp comparison "
    "(tolerance below 5% of a non-zero derivative)."
)
ASSUMPTIONS = [
    "a resolvable fraction of the mass lies inside the age grid",
    "finite differences are compared within a tolerance that includes the mismatch of one-sided differences (kinks are not judged)",
]
TECHNIQUE = "finiteness invariant and differential check against finite differences"
NOTE = "Random search; derivative of random projections of all outputs, so that a wrong derivative of any output shows."


def coef(seed, n):
    return gen.hashed(seed, (n,), 0.2, 1.8)


def build_age():
    f = api(K.AGE)

    def L(p, a):
        return (a["c"] * f(a["t"], p["sfr"], a["lgage"], p["t_obs"])).sum()

    return L


def build_metl():
    f = api(K.METL)

    def L(p, a):
        return (a["c"] * f(p["lgmet"], p["scatter"], a["ssp_lgmet"])).sum()

    return L


def build_mett():
    f = api(K.METT)

    def L(p, a):
        return (a["c"] * f(a["t"], p["met_table"], p["scatter"], a["ssp_lgmet"], a["lgage"], p["t_obs"])).sum()

    return L


def build_sed(mod):
    def build():
        f = api(K.SEDL if mod == "mdf" else K.SEDT)
        z = "lgmet" if mod == "mdf" else "met_table"

        def L(p, a):
            r = f(a["t"], p["sfr"], p[z], p["scatter"], a["ssp_lgmet"], a["lgage"], a["flux"], p["t_obs"])
            return (a["c"] * r.rest_sed).sum()

        return L

    return build


def build_burst():
    f = api("dsps.sfh.diffburst:calc_bursty_age_weights")

    def L(p, a):
        return (a["c"] * f((p["lgfburst"], p["lgyr_peak"], p["lgyr_max"]), p["smooth"], a["lgage"])).sum()

    return L


def build_uburst():
    f = api("dsps.sfh.diffburst:calc_bursty_age_weights_from_u_params")
    T = api("dsps.sfh.diffburst:BurstUParams")

    def L(p, a):
        return (a["c"] * f(T(p["u0"], p["u1"], p["u2"]), p["smooth"], a["lgage"])).sum()

    return L


@st.composite
def case(draw, shp, kinds):
    g = draw(K.full_galaxy(shp, kinds, flux=True))
    g["n_wave"] = 5
    g["cs"] = draw(st.integers(0, 1 << 16))
    g["which"] = draw(gen.pick(["age", "metl", "mett", "sed-mdf", "sed-table", "sed-mdf", "sed-table"]))
    return g


def setup(g):
    """name, builder, params, aux, scales"""
    n_age, n_met = len(g["lgage"]), len(g["ssp_lgmet"])
    t, sfr, lgage, ssp_lgmet = (K.arr(g[k]) for k in ("t", "sfr", "lgage", "ssp_lgmet"))
    w = g["which"]
    sc_sfr = np.maximum(sfr, 0.0)
    if w == "age":
        return "age", build_age, dict(sfr=sfr, t_obs=g["t_obs"]), dict(c=coef(g["cs"], n_age), t=t, lgage=lgage), dict(
            sfr=sc_sfr, t_obs=g["t_obs"])
    if w == "metl":
        return "metl", build_metl, dict(lgmet=g["lgmet"], scatter=g["scatter"]), dict(c=coef(g["cs"], n_met), ssp_lgmet=ssp_lgmet), dict(
            lgmet=g["scatter"], scatter=g["scatter"])
    mt = K.arr(g["met_table"])
    if w == "mett":
        return "mett", build_mett, dict(met_table=mt, scatter=g["scatter"], t_obs=g["t_obs"]), dict(
            c=coef(g["cs"], n_met * n_age).reshape(n_met, n_age), t=t, ssp_lgmet=ssp_lgmet, lgage=lgage), dict(
            met_table=g["scatter"], scatter=g["scatter"], t_obs=g["t_obs"])
    mod = w[4:]
    p = dict(sfr=sfr, scatter=g["scatter"], t_obs=g["t_obs"])
    s = dict(sfr=sc_sfr, scatter=g["scatter"], t_obs=g["t_obs"])
    if mod == "mdf":
        p["lgmet"], s["lgmet"] = g["lgmet"], g["scatter"]
    else:
        p["met_table"], s["met_table"] = mt, g["scatter"]
    return w, build_sed(mod), p, dict(c=coef(g["cs"], g["n_wave"]), t=t, ssp_lgmet=ssp_lgmet, lgage=lgage, flux=K.cube(g)), s


def finite(g, ctx):
    if K.conditioned(g, ctx) is None:
        return
    name, build, p, aux, _ = setup(g)
    grads.finite_grads(name, build, p, aux, name)
    old = 10 ** g["lgage"][-1] > g["t_obs"]
    zero = any(x <= 1e-14 for x in g["sfr"])
    ctx.label(name, "sfh:" + g["sfh_kind"], *(["zeros"] if zero else []), *(["young-universe"] if old else []))
    ctx.nt(old or zero)


def fd(g, ctx):
    c = K.conditioned(g, ctx, limit=1e4)
    if c is None or min(g["sfr"]) < 1e-8:
        return
    if np.min(np.abs(K.arr(g["t"]) - g["t_obs"])) < 1e-4 * g["t_obs"]:
        # on a knot of the tables several kinks coincide: the derivative is any mixture of the one-sided ones
        g = dict(g, t_obs=g["t_obs"] * 1.0013)
        c = K.conditioned(g, ctx, limit=1e4)
        if c is None:
            return
    name, build, p, aux, sc = setup(g)
    dirs = {}
    for i, k in enumerate(sorted(p)):
        n = int(np.size(p[k]))
        d = gen.hashed(g["cs"] + 31 * i + 5, (n,), 0.3, 1.0) * np.sign(gen.hashed(g["cs"] + 77 * i, (n,), -1, 1))
        dirs[k] = d if np.ndim(p[k]) else float(d[0])
    # some derivatives are exact cancellations (weights sum to one): the projection is not constant
    n = grads.compare_fd(name, build, p, aux, sc, dirs, name, noise=2e-12 * c[2], ctx=ctx)
    ctx.label(name)
    ctx.nt(n >= 2 or (n >= 1 and name == "metl"))


@st.composite
def burst_case(draw):
    n = draw(gen.pick([6, 30]))
    lo = draw(gen.uni(-5.5, -3.0))
    lgage = draw(gen.grid(n, lo, draw(gen.uni(0.0, 1.3))))
    peak = draw(gen.uni(5.0, 8.0))
    return dict(
        lgage=lgage, lgfburst=draw(gen.uni(-8.0, -0.1)), lgyr_peak=peak, lgyr_max=draw(gen.uni(peak + 0.3, 9.5)),
        u=draw(gen.vec(st.one_of(gen.flat(-25.0, 40.0), gen.flat(-10.0, 20.0), gen.uni(-500.0, 500.0)), 3)), cs=draw(st.integers(0, 1 << 16)),
        mode=draw(gen.pick(["p", "u"])), amp=draw(gen.pick([0.0, 1e-9, 1.0])),
    )


def burst(c, ctx):
    n = len(c["lgage"])
    smooth = gen.hashed(c["cs"] + 3, (n,), 0.0, 1.0)
    smooth = c["amp"] * smooth / smooth.sum()
    aux = dict(c=coef(c["cs"], n), lgage=K.arr(c["lgage"]))
    if c["mode"] == "p":
        p = dict(lgfburst=c["lgfburst"], lgyr_peak=c["lgyr_peak"], lgyr_max=c["lgyr_max"], smooth=smooth)
        b, sc = build_burst, dict(lgfburst=1.0, lgyr_peak=0.3, lgyr_max=0.3, smooth=smooth + 0.01)
    else:
        p = dict(u0=c["u"][0], u1=c["u"][1], u2=c["u"][2], smooth=smooth)
        b, sc = build_uburst, dict(u0=5.0, u1=5.0, u2=5.0, smooth=smooth + 0.01)
    dirs = {k: (1.0 if k != "smooth" else gen.hashed(c["cs"] + 9, (n,), -1, 1)) for k in p}
    k = grads.compare_fd("burst-" + c["mode"], b, p, aux, sc, dirs, "burst-mixed weights", ctx=ctx)
    ctx.label("mode:" + c["mode"])
    ctx.nt(k >= 2)


SH = [(6, 5, 3), (13, 8, 4)]
FACETS = [
    Facet("finite", lambda t, s: case([SH[s % 2]] if t == "quick" else gen.shapes(t, s)[::2], None), finite, 450, 4000, qshards=3, tshards=10, cost=2),
    Facet("large", lambda t, s: case(gen.large(s), None), finite, 60, 600, qshards=3, tshards=6, cost=2),
    Facet("fd", lambda t, s: case([SH[s % 2]] if t == "quick" else gen.shapes(t, s)[::2], ["knots", "exp", "const"]), fd, 350, 3000, qshards=4, tshards=12, cost=2),
    Facet("burst", lambda t, s: burst_case(), burst, 400, 5000, qshards=1, tshards=4),
]
