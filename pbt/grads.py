"""Checking automatic derivatives against finite differences of the same function."""
import numpy as np

from .core import C, fail, margin

_CACHE = {}
_FWD = {}


def value_and_grad(name, build):
    """Cached jitted value-and-gradient of build()(params: dict, aux: dict) -> scalar."""
    if name not in _CACHE:
        import jax

        f = build()
        _CACHE[name] = (jax.jit(f), jax.jit(jax.value_and_grad(f)))
        _FWD[name] = jax.jit(lambda p, a, t: jax.jvp(lambda q: f(q, a), (p,), (t,))[1])
    return _CACHE[name]


def tree(p):
    return {k: np.asarray(v, dtype=float) for k, v in p.items()}


def finite_grads(name, build, params, aux, what, sharp=False):
    """Value and gradients; all of them must be finite."""
    f, vg = value_and_grad(name, build)
    params = tree(params)
    v, g = C(vg, params, aux)
    if not np.isfinite(float(v)):
        fail("{0} is not finite", what)
    for k in sorted(g):
        a = np.asarray(g[k])
        if not np.all(np.isfinite(a)):
            i = np.argwhere(~np.isfinite(a))[0].tolist() if a.ndim else []
            fail("derivative of {0} with respect to {1}{2} is {3}", what, k, i, float(a[tuple(i)]))
    forward(name, params, aux, g, what, abs(float(v)) if sharp else None)
    return float(v), {k: np.asarray(g[k]) for k in g}


def forward(name, params, aux, g, what, v):
    """Forward-mode differentiation along one direction is finite; for smooth cases it agrees with the reverse-mode gradient."""
    t = {k: 0.3 + np.abs(params[k]) * np.linspace(1.0, 0.5, params[k].size).reshape(params[k].shape) for k in params}
    got = float(C(_FWD[name], params, aux, t))
    terms = np.concatenate([np.ravel(np.asarray(g[k]) * t[k]) for k in sorted(g)])
    if not np.isfinite(got):
        fail("forward-mode derivative of {0} is {1!r}", what, got)
    if v is None:
        return
    want, tol = float(terms.sum()), 1e-6 * float(np.abs(terms).sum()) + 1e-9 * v + 1e-290
    margin("forward against reverse " + what, abs(got - want) / tol)
    if not abs(got - want) <= tol:
        fail("forward-mode derivative of {0} is {1!r} but the reverse-mode gradient gives {2!r}", what, got, want)


def compare_fd(name, build, params, aux, scales, dirs, what, eps=1e-5, rel=2e-4, noise=1e-11, ctx=None):
    """Directional derivative along dirs[k] (per parameter) against central differences.

    The tolerance contains the difference of the one-sided differences, so that it
    opens up by itself wherever the function has a kink or strong curvature.
    Returns the number of parameters for which the comparison was sharp.
    """
    f, _ = value_and_grad(name, build)
    v, g = finite_grads(name, build, params, aux, what, True)
    params = tree(params)
    sharp = 0
    for k in sorted(params):
        d = np.asarray(dirs[k], float) * np.asarray(scales[k], float)
        d = np.broadcast_to(d, params[k].shape)
        if not np.any(d):
            continue
        vals = []
        for s in (eps, -eps, eps / 2, -eps / 2):
            p = dict(params)
            p[k] = params[k] + s * d
            vals.append(float(C(f, p, aux)))
        if not np.all(np.isfinite(vals)):
            continue
        hi, lo, hi2, lo2 = vals
        D1, D2 = (hi - lo) / (2 * eps), (hi2 - lo2) / eps
        F, B = (hi2 - v) / (eps / 2), (v - lo2) / (eps / 2)
        auto = float(np.sum(g[k] * d))
        m = max(abs(hi), abs(lo), abs(v))
        tol = 2 * abs(F - B) + 4 * abs(D1 - D2) + rel * abs(D2) + noise * m / eps
        margin("fd " + what + " " + k, abs(auto - D2) / max(tol, 1e-300))
        if not abs(auto - D2) <= tol:
            fail(
                "derivative of {0} with respect to {1}: automatic {2!r}, finite difference {3!r} (tolerance {4:.2g})",
                what, k, auto, D2, tol,
            )
        if tol < 0.05 * abs(D2):
            sharp += 1
            if ctx is not None:
                ctx.label("sharp:" + k)
    return sharp
