"""C24 equivalent widths."""
import numpy as np

from .. import gen, ref
from ..core import C, Facet, api, close, fail, finite
from ..gen import st

RULE = (
    "Wavelength grids of 24/60/200 (large: to 6000) points (even, log or irregular) between lambda and lambda(1+w), w in 0.01-2; windows placed between grid points with at "
    "least 3 points in the line window and 2+2 or more in the continuum windows; positive quadratic continua; line shapes of both signs vanishing at the ends of the "
    "line window; arbitrary flux (up to 1e3 times the continuum) outside all windows. anyflux: arbitrary (noisy, power-law, exponential) spectra and lines that do not vanish at the window edges, windows whose "
    "edges coincide with grid points, continuum windows that touch, overlap, exchange sides or cover the line. Non-trivial: a non-zero line and non-zero curvature (anyflux: at least one sample exactly on a window edge)."
)
ASSUMPTIONS = ["at least four continuum points", "window edges belong to the windows (closed intervals)", "spectra facet: lines vanish at the first and last grid point of the line window, no grid point on an edge"]
TECHNIQUE = "reference model (constructed spectra with known answer) and metamorphic relations"
NOTE = "Random search over constructed spectra; tolerances follow the conditioning of a quadratic fit in absolute wavelength."
M = "dsps.em_lines.equivalent_width:"


@st.composite
def case(draw, ns):
    n = draw(gen.pick(ns))
    lam = draw(gen.logu(1.0, 1e5))
    w = draw(gen.logu(0.01, 2.0))
    grid = draw(gen.grid(n, lam, lam * (1 + w))) if draw(gen.pick([0, 1, 1])) else [float(x) for x in np.linspace(lam, lam * (1 + w), n)]
    # six cut positions (fractional indices) -> cont_lo, line, cont_hi
    u = sorted(draw(gen.vec(gen.flat(0.0, 1.0), 6)))
    # minimum numbers of points: 2, 3, 2 in the windows, gaps >= 0
    free = n - 1 - 7 - 6
    base = [0, 2, 2, 5, 5, 7]
    cuts = [b + u_ * free + i + 0.5 for i, (b, u_) in enumerate(zip(base, u))]
    cuts = [float(min(n - 1.5, x)) for x in cuts]
    return dict(
        wave=grid, cuts=cuts, mid=draw(gen.flat(0.1, 0.9)), amp=draw(st.one_of(st.just(1.0), gen.logu(1e-8, 1e8))), b=draw(gen.flat(-0.4, 0.4)), c=draw(gen.flat(-0.4, 0.4)),
        line=draw(gen.pick(["none", "emis", "emis", "abs", "mixed"])), lamp=draw(gen.logu(1e-3, 10.0)), seed=draw(st.integers(0, 1 << 16)),
        k=draw(gen.logu(1e-3, 1e3)), ku=draw(gen.pick([1e-4, 1e-1, 10.0, 0.7])), junk=draw(gen.logu(1e-3, 1e3)), edge=draw(gen.flat(0.05, 0.95)),
    )


def build(c):
    w = np.array(c["wave"])
    n = len(w)
    # window edges strictly between grid points
    e = []
    for x in c["cuts"]:
        i = int(np.floor(x))
        e.append(float(w[i] + (w[i + 1] - w[i]) * c["edge"]))
    cl0, cl1, l0, l1, ch0, ch1 = e
    inl = (w > l0) & (w < l1)
    inc = ((w > cl0) & (w < cl1)) | ((w > ch0) & (w < ch1))
    mid = l0 + c["mid"] * (l1 - l0)
    D = max(ch1 - mid, mid - cl0)
    cont = lambda x: c["amp"] * (1 + c["b"] * (x - mid) / D + c["c"] * ((x - mid) / D) ** 2)  # noqa: E731
    line = np.zeros(n)
    idx = np.where(inl)[0]
    if c["line"] != "none" and len(idx) > 2:
        v = gen.hashed(c["seed"], (len(idx) - 2,), 0.1 if c["line"] != "mixed" else -1.0, 1.0) * c["lamp"]
        if c["line"] == "abs":
            v = -np.minimum(v, 0.9)
        line[idx[1:-1]] = v * c["amp"]
    flux = cont(w) + line
    out = ~(inl | inc)
    junk = gen.hashed(c["seed"] + 1, (n,), -1.0, 1.0) * c["junk"] * c["amp"]
    win = (l0, mid, l1, cl0, cl1, ch0, ch1)
    return w, flux, line, cont, mid, D, inl, inc, out, junk, win


def run_fit(w, f, win):
    ew, lf = C(api(M + "_ew_kernel"), w, f, *win)
    r = C(api(M + "_continuum_line_decomp_kern"), w, f, *win)
    return float(finite(ew, "equivalent width")), float(finite(lf, "line flux")), r


def check(c, ctx):
    w, flux, line, cont, mid, D, inl, inc, out, junk, win = build(c)
    if inc.sum() < 4 or inl.sum() < 3:
        ctx.label("too-few-points")
        return
    cond = (w[-1] / D) ** 2 * (D / max(np.ptp(w[inc]), 1e-300)) ** 2 * 30
    tol = c["amp"] * (1e-12 + 3e-15 * cond)
    if tol > 1e-3 * c["amp"]:
        ctx.label("ill-conditioned")
        return
    f = np.where(out, junk, flux)
    ew, lf, r = run_fit(w, f, win)
    ew2, lf2, strength, coeffs = r
    width = win[2] - win[0]
    lscale = float(np.abs(line).max())
    ltol = width * tol * 10 + 1e-13 * lscale * width
    want = ref.trapz(w, line)
    close(strength, c["amp"], atol=tol, what="continuum at the line centre")
    c2, c1, c0 = (float(x) for x in np.asarray(coeffs))
    x = w[inc | inl]
    close(c0 + c1 * x + c2 * x * x, cont(x), atol=10 * tol, what="fitted continuum")
    q2 = c["amp"] * c["c"] / D**2
    q1 = c["amp"] * c["b"] / D - 2 * q2 * mid
    q0 = c["amp"] * (1 - c["b"] * mid / D + c["c"] * (mid / D) ** 2)
    big = 30 * tol * (w[-1] / D) ** 2
    close(c2, q2, atol=big / mid**2, what="quadratic coefficient")
    close(c1, q1, atol=big / mid, what="linear coefficient")
    close(c0, q0, atol=big, what="constant coefficient")
    close(lf, want, atol=ltol, what="line flux")
    close(ew, want / c["amp"], atol=ltol / c["amp"] * 3 + 3 * tol / c["amp"] * abs(want) / c["amp"], what="equivalent width")
    close(float(np.asarray(ew2)), ew, rtol=1e-12, atol=ltol / c["amp"], what="equivalent width of the decomposition")
    close(float(np.asarray(lf2)), lf, rtol=1e-12, atol=ltol, what="line flux of the decomposition")
    # flux outside every window has no influence
    g = np.where(out, -7.5 * junk + c["amp"], flux)
    e2, l2, _ = run_fit(w, g, win)
    close(l2, lf, atol=ltol, what="line flux with other flux outside the windows")
    close(e2, ew, atol=ltol / c["amp"] * 3, what="equivalent width with other flux outside the windows")
    # flux scale and wavelength unit
    e3, l3, r3 = run_fit(w, f * c["k"], win)
    close(l3, lf * c["k"], atol=ltol * c["k"], rtol=1e-12, what="line flux of the scaled spectrum")
    close(e3, ew, atol=ltol / c["amp"] * 3, rtol=1e-12, what="equivalent width of the scaled spectrum")
    u = c["ku"]
    e4, l4, r4 = run_fit(w * u, f, tuple(v * u for v in win))
    close(l4, lf * u, atol=ltol * u, rtol=1e-11, what="line flux in another wavelength unit")
    close(e4, ew * u, atol=ltol * u / c["amp"] * 3, rtol=1e-11, what="equivalent width in another wavelength unit")
    close(float(np.asarray(r4[2])), c["amp"], atol=tol, what="continuum in another wavelength unit")
    if c["line"] == "abs" and lscale > 1e3 * tol and not ew < 0:
        fail("absorption line has equivalent width {0!r}", ew)
    ctx.label("line:" + c["line"], "n=%d" % len(w))
    ctx.nt(lscale > 1e3 * tol and abs(c["c"]) > 1e-3)


@st.composite
def any_case(draw, ns):
    """Arbitrary flux, windows whose edges may coincide with sampled wavelengths."""
    c = draw(case(ns))
    c["on"] = draw(st.lists(gen.pick([0, 1, 1, 2]), min_size=6, max_size=6))
    c["noise"] = draw(st.one_of(st.just(0.0), gen.logu(1e-4, 3.0)))
    c["shape"] = draw(gen.pick(["power", "exp", "quad", "none"]))
    c["order"] = draw(st.one_of(st.just([0, 1, 2, 3, 4, 5]), st.just([0, 3, 1, 4, 2, 5]), st.permutations(range(6))))
    c["touch"] = draw(gen.pick([False, False, True]))
    return c


def anyflux(c, ctx):
    """For arbitrary spectra: least-squares quadratic over the closed continuum windows,
    trapezoid of flux minus continuum over the samples in the closed line window."""
    w = np.array(c["wave"])
    n = len(w)
    e = []
    for x, on in zip(c["cuts"], c["on"]):
        i = int(np.floor(x))
        e.append(float(w[i] if on == 1 else w[i + 1] if on == 2 else w[i] + (w[i + 1] - w[i]) * c["edge"]))
    for k in range(1, 6):
        e[k] = max(e[k], e[k - 1])
    o = [e[k] for k in c["order"]]
    (cl0, cl1), (l0, l1), (ch0, ch1) = [sorted(o[k : k + 2]) for k in (0, 2, 4)]
    if c["touch"] and cl1 < ch1:
        ch0 = cl1
    inl = (w >= l0) & (w <= l1)
    inc = ((w >= cl0) & (w <= cl1)) | ((w >= ch0) & (w <= ch1))
    if inc.sum() < 4 or inl.sum() < 2 or not l1 > l0:
        ctx.label("too-few-points")
        return
    mid = l0 + c["mid"] * (l1 - l0)
    D = max(abs(x - mid) for x in (cl0, cl1, ch0, ch1, l0, l1))
    u = (w - mid) / D
    f = dict(power=(w / mid) ** (5 * c["b"]), exp=np.exp(np.clip(3 * c["b"] * u, -20, 20)), quad=1 + c["b"] * u + c["c"] * u * u, none=np.zeros(n))[c["shape"]]
    f = c["amp"] * (f + c["noise"] * gen.hashed(c["seed"], (n,), -1.0, 1.0) + np.where(inl, c["lamp"] * gen.hashed(c["seed"] + 7, (n,), -0.3, 1.0), 0.0))
    cond = (w[-1] / D) ** 2 * (D / max(np.ptp(w[inc]), 1e-300)) ** 2 * 30
    rel = 1e-12 + 3e-15 * cond
    V = np.vander(u[inc], 3)
    scale = float(np.abs(f[inc | inl]).max())
    if rel > 1e-4 or scale == 0 or np.linalg.cond(V) > 1e4:
        ctx.label("ill-conditioned")
        return
    rel *= np.linalg.cond(V)
    a, b, k0 = np.linalg.lstsq(V, f[inc], rcond=None)[0]
    cont = k0 + b * u + a * u * u
    tol = rel * max(scale, float(np.abs(cont[inl]).max()), abs(k0))
    win = (l0, mid, l1, cl0, cl1, ch0, ch1)
    ew, lf = C(api(M + "_ew_kernel"), w, f, *win)
    ew2, lf2, s2, co = C(api(M + "_continuum_line_decomp_kern"), w, f, *win)
    want = ref.trapz(w, np.where(inl, f - cont, 0.0))
    width = float(np.ptp(w[np.convolve(inl, [1, 1, 1], "same") > 0]))
    close(s2, k0, atol=10 * tol, what="continuum at the line centre (arbitrary flux)")
    close(lf, want, atol=10 * tol * width, what="line flux (arbitrary flux)")
    close(lf2, want, atol=10 * tol * width, what="line flux of the decomposition (arbitrary flux)")
    if abs(k0) > 100 * tol:
        t = 30 * tol * width / abs(k0) + 30 * tol / abs(k0) * abs(want / k0)
        close(ew, want / k0, atol=t, what="equivalent width (arbitrary flux)")
        close(ew2, want / k0, atol=t, what="equivalent width of the decomposition (arbitrary flux)")
    both = int(((w >= cl0) & (w <= cl1) & (w >= ch0) & (w <= ch1)).sum())
    ctx.label("on-edge:%d" % (np.isin(w, e).sum()), "shape:" + c["shape"], "overlapping" if both else "apart", "continuum-on-line" if (inl & inc).any() else "line-apart")
    ctx.nt(np.isin(w, e).sum() >= 1 and (c["noise"] > 0 or c["lamp"] > 0))


FACETS = [
    Facet("anyflux", lambda t, s: any_case([24, 60] if t == "quick" else [24, 60, 200, 30 + 7 * s]), anyflux, 500, 5000, qshards=4, tshards=8),
    Facet("anyflux-large", lambda t, s: any_case([(300, 2000, 6000)[s % 3]]), anyflux, 90, 900, qshards=3, tshards=6),
    Facet("spectra-large", lambda t, s: case([(300, 2000, 6000)[s % 3]]), check, 90, 900, qshards=3, tshards=6),
    Facet("spectra", lambda t, s: case([24, 60] if t == "quick" else [24, 60, 200, 30 + 7 * s]), check, 500, 5000, qshards=8, tshards=16),
]
