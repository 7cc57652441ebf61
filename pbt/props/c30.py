"""C30 power-law densities and draws."""
import numpy as np

from .. import gen
from ..core import C, Facet, api, between, close, fail, finite, same
from ..gen import st

RULE = (
    "Bounds a from 1e-4 to 1e4, b/a from 1.01 to 1e4, indices |g| from 0.01 to 6 of either sign (so that a**g and b**g are representable and distinct to 1e-4), arrays of 64 elements for the density and 4096 "
    "for the draws (20011 to 2.5 million in the large facet: tails, gaps, repeated values), either with equal or with differing parameters per element, any key. Non-trivial: g<0 or parameters differing per element."
)
ASSUMPTIONS = ["bounds hold to 1e-12 relative or the conditioning of the inverse cumulative distribution", "Kolmogorov-Smirnov thresholds with false-alarm probability below 1e-9 per case"]
TECHNIQUE = "reference density in a cancellation-free form, statistical oracle (Kolmogorov-Smirnov, serial correlation), invariants"
NOTE = "Random parameters and keys; density compared pointwise, draws by their probability-integral transform."
U = "dsps.utils:"


def pars():
    return st.fixed_dictionaries(dict(a=gen.logu(1e-4, 1e4), r=gen.logu(1.01, 1e4), g=gen.logu(0.01, 6.0), neg=st.booleans()))


@st.composite
def case(draw):
    m = draw(gen.pick([1, 1, 3]))
    return dict(p=draw(gen.vec(pars(), m)), key=draw(st.integers(0, 2**32 - 1)), key2=draw(st.integers(0, 2**32 - 1)))


def expand(c, n):
    def one(p):
        g = -p["g"] if p["neg"] else p["g"]
        lim = 12.0 * np.log(10)  # keep a**g and b**g within 24 decades of one another and of one
        L = max(abs(np.log(p["a"])), abs(np.log(p["a"] * p["r"])), np.log(p["r"]))
        g = float(np.clip(g, -lim / L, lim / L))
        if abs(g) * np.log(p["r"]) < 1e-4:
            g = float(np.sign(g) * 1e-4 / np.log(p["r"]))
        return p["a"], p["a"] * p["r"], g

    q = [one(p) for p in c["p"]]
    return tuple(np.array([q[i % len(q)][k] for i in range(n)]) for k in range(3))


def ref_pdf(x, a, b, g):
    return g / x * np.exp(g * np.log(x / a)) / np.expm1(g * np.log(b / a))


def ref_cdf(x, a, b, g):
    return np.expm1(g * np.log(x / a)) / np.expm1(g * np.log(b / a))


def cond(a, b, g):
    """relative error of b**g-a**g for correctly rounded powers (4 ulp each)"""
    la, lb = g * np.log(a), g * np.log(b)
    return 1e-15 * (1 + np.abs(la) + np.abs(lb)) * np.maximum(np.exp(la), np.exp(lb)) / np.abs(np.exp(lb) - np.exp(la))


def density(c, ctx):
    n = 64
    a, b, g = expand(c, n)
    m = len(c["p"])
    u = gen.hashed(c["key"] & 0xFFFF, (n,), 0.0, 1.0)
    u[:m], u[m : 2 * m] = 0.0, 1.0
    x = np.clip(a * (b / a) ** u, a, b)
    f = close(C(api(U + "powerlaw_pdf"), x, a, b, g), ref_pdf(x, a, b, g), rtol=1e-12 + 20 * cond(a, b, g), what="power-law density")
    if np.any(f <= 0):
        fail("power-law density {0!r} is not positive", float(f.min()))
    # unit integral, by quadrature in ln(x) of the density itself
    k = 1001
    a1, b1, g1 = a[0], b[0], g[0]
    L = np.linspace(np.log(a1), np.log(b1), k)
    xx = np.clip(np.exp(L), a1, b1)
    o = np.ones(k)
    ff = finite(C(api(U + "powerlaw_pdf"), xx, a1 * o, b1 * o, g1 * o), "power-law density")
    w = np.full(k, 2.0)
    w[1::2] = 4.0
    w[0] = w[-1] = 1.0
    tot = float(np.sum(w * ff * xx) * (L[1] - L[0]) / 3)
    if abs(tot - 1) > 1e-6 + 20 * float(cond(a1, b1, g1)):
        fail("power-law density for a={0} b={1} g={2} integrates to {3!r}", a1, b1, g1, tot)
    ctx.label("g<0" if g[0] < 0 else "g>0")
    ctx.nt(g[0] < 0 or m > 1)


def draws(c, ctx):
    import jax

    n = 4096
    a, b, g = expand(c, n)
    key = jax.random.PRNGKey(c["key"])
    y = finite(C(api(U + "powerlaw_rvs"), key, a, b, g), "draws")
    if y.shape != (n,):
        fail("draws have shape {0}", y.shape)
    la, lb = g * np.log(a), g * np.log(b)
    tol = 1e-12 + 1e-14 * (1 + np.abs(la) + np.abs(lb)) * np.exp(np.abs(lb - la)) / np.abs(g)
    lo, hi = a * (1 - tol), b * (1 + tol)
    bad = (y < lo) | (y > hi)
    if np.any(bad):
        i = int(np.argmax(bad))
        fail("draw {0!r} outside [{1!r},{2!r}] for g={3!r}", float(y[i]), a[i], b[i], g[i])
    same(np.asarray(C(api(U + "powerlaw_rvs"), key, a, b, g)), y, "draws with the same key")
    u = np.clip(ref_cdf(np.clip(y, a, b), a, b, g), 0, 1)
    s = np.sort(u)
    i = np.arange(1, n + 1)
    D = max(np.max(i / n - s), np.max(s - (i - 1) / n))
    if D > 3.3 / np.sqrt(n):
        fail("draws do not follow the density: Kolmogorov-Smirnov distance {0:.4f} for {1} draws (a={2} b={3} g={4})", D, n, a[0], b[0], g[0])
    m = len(c["p"])
    for j in range(m if m > 1 else 0):  # every element has its own parameters
        s = np.sort(u[j::m])
        k = len(s)
        i = np.arange(1, k + 1)
        D = max(np.max(i / k - s), np.max(s - (i - 1) / k))
        if D > 3.4 / np.sqrt(k):
            fail("draws of parameter set {0} do not follow their density: distance {1:.4f} (a={2} b={3} g={4})", j, D, a[j], b[j], g[j])
    v = u - 0.5
    for lag in (1, 2, n // 2):
        r = float(np.mean(v[lag:] * v[:-lag]) * 12)
        if abs(r) > 6.5 / np.sqrt(n - lag):
            fail("draws at lag {0} are correlated: {1:.3f}", lag, r)
    if c["key2"] != c["key"]:
        y2 = finite(C(api(U + "powerlaw_rvs"), jax.random.PRNGKey(c["key2"]), a, b, g), "draws")
        u2 = np.clip(ref_cdf(np.clip(y2, a, b), a, b, g), 0, 1)
        r = float(np.mean(v * (u2 - 0.5)) * 12)
        if abs(r) > 6.5 / np.sqrt(n):
            fail("draws for two keys are correlated: {0:.3f}", r)
    ctx.label("g<0" if g[0] < 0 else "g>0", "sets:%d" % m)
    ctx.nt(g[0] < 0 or m > 1)


def large(c, ctx):
    """Enough draws to see the tails, the resolution and any period of the generator."""
    import jax

    n = c["n"]
    a, b, g = (float(x[0]) for x in expand(c, 1))
    o = np.ones(n)
    y = finite(C(api(U + "powerlaw_rvs"), jax.random.PRNGKey(c["key"]), a * o, b * o, g * o), "draws")
    if y.shape != (n,):
        fail("draws have shape {0}", y.shape)
    u = np.clip(ref_cdf(np.clip(y, a, b), a, b, g), 0, 1)
    s = np.sort(u)
    i = np.arange(1, n + 1)
    D = max(np.max(i / n - s), np.max(s - (i - 1) / n))
    if D > 3.4 / np.sqrt(n):
        fail("Kolmogorov-Smirnov distance {0:.3g} for {1} draws (a={2} b={3} g={4})", D, n, a, b, g)
    if s[0] > 25.0 / n or s[-1] < 1 - 25.0 / n:
        fail("{0} draws only span the quantiles [{1!r},{2!r}] (a={3} b={4} g={5})", n, s[0], s[-1], a, b, g)
    if np.max(np.diff(s)) > 50.0 / n:
        k = int(np.argmax(np.diff(s)))
        fail("{0} draws leave the quantiles from {1!r} to {2!r} empty (a={3} b={4} g={5})", n, s[k], s[k + 1], a, b, g)
    # resolution: doubles do not repeat (a tiny |g| limits the resolution of the quantiles to ~1e-12)
    d = len(np.unique(y))
    if d < 0.999 * n:
        fail("only {0} of {1} draws are distinct (a={2} b={3} g={4})", d, n, a, b, g)
    ctx.label("n:%d" % n, "g<0" if g < 0 else "g>0")
    ctx.nt(g < 0 or n > 100000)


large_case = st.fixed_dictionaries(dict(p=gen.vec(pars(), 1), key=st.integers(0, 2**32 - 1), n=gen.pick([20011, 65537, 300000, 1048577, 2500000])))

FACETS = [
    Facet("density", lambda t, s: case(), density, 300, 3000, qshards=3, tshards=6),
    Facet("draws", lambda t, s: case(), draws, 250, 3000, qshards=4, tshards=8),
    Facet("large", lambda t, s: large_case, large, 20, 120, qshards=3, tshards=4),
]
