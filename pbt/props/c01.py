"""C01 age weights."""
import numpy as np

from .. import gen, ref
from ..core import A, C, Facet, api, between, close, fail, finite
from ..gen import st

RULE = (
    "Galaxies are drawn as (time table of 2-100 points: linear, log or random spacing; SFH of one of "
    "nine kinds including zeros, bursts, quenching and 17 decades of dynamic range; ascending log-age "
    "grid of 3-94 points (large: tables to 1500 and age grids to 400 points); observation time inside, at a knot of, at the end of or beyond the table). "
    "Non-trivial: at least three age bins get more than 1e-6 of the weight, or the observation is "
    "beyond/at a knot of the table and at least two bins do; for the scaling facet a factor other than 1."
)
ASSUMPTIONS = [
    "age bins are the library's documented ones: bounded at x_i-(x_{i+1}-x_{i-1})/4, half a spacing below the first and above the last point",
    "age grids have neighbouring spacings within a factor 4 (bin edges ascend; see known findings)",
]

FN = "dsps.sed:calc_age_weights_from_sfh_table"


def J(*a):
    return [np.asarray(x, dtype=float) if isinstance(x, (list, np.ndarray)) else x for x in a]


def call(g, sfr=None, **k):
    f = api(FN)
    return C(f, *J(g["t"], g["sfr"] if sfr is None else sfr, g["lgage"], g["t_obs"]), **k)


def reference(case, ctx):
    g = case
    got = call(g)
    n = len(g["lgage"])
    want, tol, amp = ref.age_weights_tol(g["t"], g["sfr"], g["lgage"], g["t_obs"])
    ctx.label("sfh:" + g["sfh_kind"], "tobs:" + g["t_obs_kind"], "n_t:%d" % len(g["t"]))
    if not np.isfinite(amp) or amp > 1e10:
        # no resolvable stellar mass inside the age grid: weights are undefined
        ctx.label("no-mass-in-grid")
        return
    finite(got, "age weights")
    got = close(got, want, atol=tol, what="age weights", shape=(n,))
    if np.any(got < -tol):
        fail("negative age weight {0!r}", float(got.min()))
    s = float(got.sum())
    if abs(s - 1) > 1e-12:
        fail("age weights sum to {0!r}", s)
    # bins entirely older than the universe hold nothing
    edges = ref.age_edges(g["lgage"])
    old = 10 ** edges[:-1] > g["t_obs"]
    if np.any(got[old] != 0):
        fail("weight {0!r} in a bin older than the universe", float(np.max(np.abs(got[old]))))
    if np.any(old):
        ctx.label("bins-older-than-universe")
    k = int((want > 1e-6).sum())
    ctx.label("bins>=3" if k >= 3 else "bins<3")
    ctx.nt(k >= 3 or (k >= 2 and g["t_obs_kind"] in ("beyond", "knot")))


@st.composite
def scaled(draw, shp):
    g = draw(gen.galaxy(shp, ["knots", "exp", "const"]))
    g["k"] = draw(gen.logu(1e-3, 1e6))
    return g


def scaling(case, ctx):
    g = case
    if min(g["sfr"]) * min(1.0, g["k"]) < 1e-12:
        ctx.label("near-floor")
        return
    a = finite(call(g), "age weights")
    b = call(g, [x * g["k"] for x in g["sfr"]])
    _, tol, amp = ref.age_weights_tol(g["t"], g["sfr"], g["lgage"], g["t_obs"])
    # the tiny constant rate before the first table time does not scale
    m0 = ref.mstar_formed(g["t"], ref.floor_sfr(g["sfr"]))
    pre = 1e9 * g["t"][0] * 1e-14 * max(1.0, 1 / g["k"]) / m0[0]
    close(b, a, atol=2 * tol + 4 * amp * pre, what="age weights of the scaled history")
    ctx.label("sfh:" + g["sfh_kind"])
    ctx.nt(abs(np.log10(g["k"])) > 0.01 and (a > 1e-6).sum() >= 2)


@st.composite
def const_case(draw):
    n = draw(gen.pick([6, 12, 25]))
    lo = draw(gen.uni(-3.0, -1.0))
    hi = draw(gen.uni(0.2, 1.4))
    return dict(
        n=n, lo=lo, hi=hi, t0=draw(gen.uni(0.01, 0.1)), t_end=draw(gen.uni(3.0, 15.0)),
        u=draw(gen.uni(0.3, 1.0)), amp=draw(gen.logu(1e-3, 1e3)), g=draw(gen.pick([0.0, 0.0, 1.0, 2.0])),
    )


def analytic(case, ctx):
    """Power-law histories SFR ~ t^g: mass formed by t is amp t^(g+1)/(g+1) exactly."""
    c = case
    t = np.linspace(c["t0"], c["t_end"], 400)
    sfr = c["amp"] * t ** c["g"]
    lgage = np.linspace(c["lo"], c["hi"], c["n"])
    t_obs = c["u"] * c["t_end"]
    got = finite(C(api(FN), t, sfr, lgage, t_obs), "age weights")
    d = lgage[1] - lgage[0]
    edges = np.concatenate([lgage - d / 2, [lgage[-1] + d / 2]])
    tb = np.clip(t_obs - 10**edges, c["t0"], None)
    m = tb ** (c["g"] + 1)
    w = -np.diff(m)
    w = w / w.sum()
    close(got, w, atol=3e-3, rtol=0.02, what="age weights of a power-law history")
    ctx.label("g=%g" % c["g"])
    ctx.nt((w > 1e-3).sum() >= 3)


FACETS = [
    Facet("reference", lambda tier, sh: gen.galaxy(gen.shapes(tier, sh)), reference, 1500, 12000, qshards=5, tshards=20),
    Facet("large", lambda tier, sh: gen.galaxy(gen.large(sh)), reference, 120, 1500, qshards=3, tshards=6),
    Facet("scaling", lambda tier, sh: scaled(gen.shapes(tier, sh)), scaling, 600, 6000, qshards=2, tshards=6),
    Facet("analytic", lambda tier, sh: const_case(), analytic, 800, 10000, qshards=1, tshards=4),
]
TECHNIQUE = "reference model, scaling relation and closed-form solutions"
NOTE = (
    "Random search: every generated galaxy is compared with an independent float64 reference (tolerance from the "
    "problem's own conditioning), with closed-form power-law histories and with rescaled copies. Assumes numpy and "
    "the documented bin convention."
)
