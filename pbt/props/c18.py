"""C18 blackbody densities."""
import numpy as np

from .. import gen
from ..core import C, Facet, api, close, fail, finite
from ..gen import st

RULE = (
    "Temperatures 1-1e7 K and wavelengths 1 AA - 1 m, drawn log-uniformly and also through x=h nu/kT in [1e-12, 1e5], arrays of 1-5 and of 70-5000 points. "
    "Non-trivial: density representable (>1e-290) at some point; label says Wien (x>30), Rayleigh-Jeans (x<1e-3) or middle."
)
ASSUMPTIONS = ["CODATA 2019 constants, Lsun = 3.828e26 W", "values below 1e-290 (smallest normal numbers) are only required to be non-negative and below that; derivatives of densities below 1e-250 are only required to be finite"]
TECHNIQUE = "reference model (Planck function through expm1), quadrature, finiteness and finite differences of derivatives"
NOTE = "Random search across the Wien tail and Rayleigh-Jeans regime with relative tolerances 1e-10 (scaled by x in the Wien tail)."
M = "dsps.dust.blackbody:"
H, K, CC, L = 6.62607015e-34, 1.380649e-23, 299792458.0, 3.828e26
HC_K_AA = H * CC / K * 1e10  # AA K


@st.composite
def case(draw, n=None):
    T = draw(gen.logu(1.0, 1e7))
    big = n
    n = n or draw(gen.pick([1, 5]))
    x = gen.logu(1e-12, 1e5).map(lambda x: min(1e10, max(1.0, HC_K_AA / T / x)))
    mid = gen.logu(0.05, 30.0).map(lambda x: min(1e10, max(1.0, HC_K_AA / T / x)))
    w = st.one_of(gen.logu(1.0, 1e10), x, mid)
    return dict(T=T, w=draw(gen.bulk(n, max(1.0, HC_K_AA / T / 1e3), min(1e10, HC_K_AA / T * 1e6), True) if big else gen.vec(w, n)), k=draw(gen.logu(1.0001, 10.0)), mode=draw(gen.pick(["wave", "freq"])))


def planck(w, T):
    """(per AA, per Hz, x) in Lsun units."""
    lam = w * 1e-10
    x = H * CC / (lam * K * T)
    with np.errstate(all="ignore"):
        em = np.expm1(np.minimum(x, 700.0))
        dec = np.where(x > 700, np.exp(700 - x), 1.0)
        bl = 2 * H * CC**2 / lam**5 / em * dec * 1e-10 / L
        bn = 2 * H / CC**2 * (CC / lam) ** 3 / em * dec / L
    return bl, bn, x


TINY, DTINY = 1e-290, 1e-250


def cmp(got, want, x, what, rel=1e-11):
    g = finite(got, what)
    if np.any(g < 0):
        fail("{0} is negative: {1!r}", what, float(g.min()))
    big = want > TINY
    tol = rel + 5e-15 * x
    close(np.where(big, g, 0.0), np.where(big, want, 0.0), atol=tol * want, what=what)
    if np.any(g[~big] > 1.1 * TINY):
        fail("{0} is {1!r} deep in the Wien tail", what, float(g[~big].max()))
    return big


def values(c, ctx):
    w, T = np.array(c["w"]), c["T"]
    bl, bn, x = planck(w, T)
    nu = CC / (w * 1e-10)
    gl = C(api(M + "blackbody_wave_density"), w, T)
    gn = C(api(M + "blackbody_freq_density"), nu, T)
    b1 = cmp(gl, bl, x, "wavelength density")
    b2 = cmp(gn, bn, x, "frequency density")
    gl, gn = np.asarray(gl), np.asarray(gn)
    m = b1 & b2
    close((w * gl)[m], (nu * gn)[m], rtol=1e-11, what="lambda B_lambda against nu B_nu")
    close(C(api(M + "blackbody_wave_density"), float(w[0]), T), gl[0], rtol=1e-12 + 5e-15 * float(x[0]), atol=TINY, what="scalar wavelength")
    # each point with a temperature of its own
    TT = T * c["k"] ** np.linspace(0.0, 1.0, len(w))
    tl, tn, tx = planck(w, TT)
    cmp(C(api(M + "blackbody_wave_density"), w, TT), tl, tx, "wavelength density with an array of temperatures")
    cmp(C(api(M + "blackbody_freq_density"), nu, TT), tn, tx, "frequency density with an array of temperatures")
    # increases with temperature
    hot = np.asarray(C(api(M + "blackbody_wave_density"), w, T * c["k"]))
    if np.any(hot[m] <= gl[m]):
        fail("wavelength density does not increase from T={0} to T={1}", T, T * c["k"])
    hot = np.asarray(C(api(M + "blackbody_freq_density"), nu, T * c["k"]))
    if np.any(hot[m] <= gn[m]):
        fail("frequency density does not increase from T={0} to T={1}", T, T * c["k"])
    for v in x:
        ctx.label("Wien" if v > 30 else "Rayleigh-Jeans" if v < 1e-3 else "middle")
    ctx.nt(m.any())


def derivs(c, ctx):
    import jax

    w, T = np.array(c["w"]), c["T"]
    bl, bn, x = planck(w, T)
    if c["mode"] == "wave":
        f, a, B = api(M + "blackbody_wave_density"), w, bl
        sign, p = -1.0, -5.0
    else:
        f, a, B = api(M + "blackbody_freq_density"), CC / (w * 1e-10), bn
        sign, p = 1.0, 3.0
    da, dT = _grad(c["mode"], f)(a, np.full(len(a), T))
    # d ln B/d ln T = x/(1-e^-x); d ln B_lam/d ln lam = -5 + that; d ln B_nu/d ln nu = 3 - that
    q = x / -np.expm1(-x)
    want_T, want_a = B * q / T, B * (p - sign * q) / a
    tol = 1e-9 + 1e-14 * x
    for got, want, nm in ((dT, want_T, "temperature"), (da, want_a, "wavelength" if p < 0 else "frequency")):
        finite(got, "derivative with respect to " + nm)
        big = (np.abs(want) > DTINY) & (B > DTINY)
        close(np.where(big, np.asarray(got), 0.0), np.where(big, want, 0.0), atol=tol * (B * (q + 5) / (T if nm == "temperature" else a)), what="derivative of the %s density with respect to %s" % (c["mode"], nm))
    for v in x:
        ctx.label("Wien" if v > 30 else "Rayleigh-Jeans" if v < 1e-3 else "middle")
    ctx.nt(True)


_G = {}


def _grad(mode, f):
    if mode not in _G:
        import jax

        _G[mode] = jax.jit(jax.vmap(jax.grad(f, argnums=(0, 1))))
    return _G[mode]


def integral(c, ctx):
    T = c["T"]
    if not 10 < T < 9e6:
        T = min(9e6, max(10.0, T))
    u, wt = np.polynomial.legendre.leggauss(200)
    s = np.log(1e-7) + (np.log(200.0) - np.log(1e-7)) * (u + 1) / 2
    x = np.exp(s)
    jac = (np.log(200.0) - np.log(1e-7)) / 2
    nu = x * K * T / H
    v = float(np.sum(wt * jac * nu * np.asarray(C(api(M + "blackbody_freq_density"), nu, T))))
    lam = HC_K_AA / T / x
    v2 = float(np.sum(wt * jac * lam * np.asarray(C(api(M + "blackbody_wave_density"), lam, T))))
    sb = 2 * np.pi**5 * K**4 / (15 * H**3 * CC**2)
    want = sb * T**4 / np.pi / L
    close(v, want, rtol=1e-7, what="integral of the frequency density")
    close(v2, want, rtol=1e-7, what="integral of the wavelength density")
    ctx.nt()


FACETS = [
    Facet("values", lambda t, s: case(), values, 1500, 15000, qshards=3, tshards=10),
    Facet("values-large", lambda t, s: case(gen.longs(s)), values, 60, 800, qshards=4, tshards=8),
    Facet("derivs-large", lambda t, s: case(gen.longs(s)), derivs, 40, 400, qshards=4, tshards=8),
    Facet("derivs", lambda t, s: case(), derivs, 900, 10000, qshards=3, tshards=10),
    Facet("integral", lambda t, s: case(), integral, 300, 3000, qshards=1, tshards=2),
]
