"""C34 mass-metallicity comparison figure."""
import itertools
import os

import numpy as np

from .. import env, gen
from ..core import C, Facet, api, close, fail
from ..gen import st
from . import c22
from . import files as F

RULE = "Two parameter vectors (second one sometimes the default), labels of plain words, file names with png/pdf/svg endings or none. Non-trivial: the two vectors differ, so that solid and dashed curves are distinguishable."
ASSUMPTIONS = ["epochs are 2, 5, 8, 11 and 14 Gyr, red for the earliest as the figure's own legend says", "solid/dashed curves are the figure's lines with at least 20 points"]
TECHNIQUE = "inspection of the produced figure against a reference model"
NOTE = "Random parameter vectors; curves compared with the relation written from the statement."
PLOT = "dsps.metallicity.diagnostics.plot_mzr:make_mzr_comparison_plot"
word = st.from_regex(r"[A-Za-z][A-Za-z0-9 ]{0,8}[a-z]", fullmatch=True)


def pv(draw):
    return [draw(gen.flat(lo, hi)) for lo, hi in c22.B]


@st.composite
def case(draw):
    p = pv(draw)
    lab = draw(st.lists(word, min_size=2, max_size=2, unique=True))
    return dict(p=p, p2=draw(gen.pick([0, 1, 1])) and pv(draw), same=draw(gen.pick([False] * 5 + [True])), labels=draw(gen.pick([None, "kw", "kw", "pos"])), lab=lab, file=draw(gen.pick([None, "fig.png", "a b.pdf", "fig.svg", "mzr.png"])), one=draw(gen.pick([False, False, True])), pre=draw(gen.pick([False, True])))


def hexc(c):
    from matplotlib import colors

    return colors.to_hex(c, keep_alpha=False)


def figure(c, ctx):
    import matplotlib

    matplotlib.use("Agg")
    from matplotlib import pyplot as plt
    from matplotlib.figure import Figure

    P = api("dsps.metallicity.umzr:MZRParams")
    p1 = c["p"]
    p2 = list(c22.DEF) if not c["p2"] else c["p2"]
    if c["same"]:
        p2 = p1
    args = [P(*p1)]
    kw = {}
    if c["p2"] or c["same"]:
        if c["labels"] == "pos":
            args.append(P(*p2))
        else:
            kw["params2"] = P(*p2)
    lab = c["lab"]
    if c["labels"] is None:
        lab = None
    elif c["one"]:
        kw["label1"] = lab[0]
    else:
        kw["label1"], kw["label2"] = lab
    with F.scratch() as d:
        before = sorted(os.listdir(os.getcwd()))
        if c["file"]:
            kw["fname"] = os.path.join(d, c["file"])
            if c.get("pre"):
                with open(kw["fname"], "wb") as f:  # an older file of that name
                    f.write(b"old" * 100000)
        try:
            fig = C(api(PLOT), *args, **kw)
            if not isinstance(fig, Figure):
                fail("the call returned {0!r} instead of the figure", type(fig))
            judge(fig, c, p1, p2, lab)
            if c["file"]:
                if not os.path.isfile(kw["fname"]):
                    fail("no file {0}", c["file"])
                head = open(kw["fname"], "rb").read(5)
                if not head.startswith({"png": b"\x89PNG", "pdf": b"%PDF", "svg": b"<?xml"}[c["file"][-3:]]):
                    fail("{0} is not a {1} file", c["file"], c["file"][-3:])
                if b"oldold" in open(kw["fname"], "rb").read():
                    fail("{0} still holds what was there before", c["file"])
            if sorted(os.listdir(d)) != ([c["file"]] if c["file"] else []) or sorted(os.listdir(os.getcwd())) != before:
                fail("files other than the requested one were written")
        finally:
            plt.close("all")
    ctx.label("file:%s" % (c["file"] and c["file"][-3:]), "labels:%s" % c["labels"], "second:%s" % ("same" if c["same"] else "random" if c["p2"] else "default"))
    ctx.nt(not c["same"])


def observations(ax):
    """Points drawn without a line are packaged measurements, in units of the figure."""
    drn = os.path.join(env.REPO, "dsps", "metallicity", "tests", "testing_data")
    tabs = [np.loadtxt(os.path.join(drn, f), delimiter=",")[:, :2] for f in ("maiolino_etal18_mzr.dat", "kirby_etal13_mzr.dat", "galazzi_etal05_mzr.dat")]
    seen = set()
    for x in ax.get_lines():
        if x.get_linestyle() not in ("None", "none", "", " ") or len(x.get_xdata()) < 2:
            continue
        xy = np.stack([np.asarray(x.get_xdata(), float), np.asarray(x.get_ydata(), float) - np.log10(0.012)], axis=1)
        ok = [i for i, t in enumerate(tabs) if all(np.any(np.max(np.abs(t - q), axis=1) < 1e-9) for q in xy)]
        if not ok:
            fail("the figure shows points that are no packaged measurements, the first at {0}", xy[0].tolist())
        seen |= set(ok)
    if len(seen) != len(tabs):
        fail("the figure shows {0} of {1} packaged data sets", len(seen), len(tabs))


def judge(fig, c, p1, p2, lab):
    ax = fig.axes[0]
    observations(ax)
    lines = [x for x in ax.get_lines() if x.get_linestyle() not in ("None", "none", "", " ") and len(x.get_xdata()) >= 20]
    sol = [x for x in lines if x.get_linestyle() == "-"]
    das = [x for x in lines if x.get_linestyle() == "--"]
    epochs = np.linspace(2, 14, 5)
    if len(sol) != len(epochs) or len(das) != len(epochs):
        fail("{0} solid and {1} dashed curves for {2} epochs", len(sol), len(das), len(epochs))
    options = []  # possible colours of the epochs for each style (curves of two epochs may coincide)
    for how, L, p in (("solid", sol, p1), ("dashed", das, p2)):
        fits = []
        for t in epochs:
            hit = set()
            for i, x in enumerate(L):
                m = np.asarray(x.get_xdata(), float)
                want = c22.t0_ref(m, p, 10.5) + c22.evol_ref(m, t, p, 8.44)
                if np.shape(x.get_ydata()) == want.shape and np.max(np.abs(np.asarray(x.get_ydata(), float) - want)) < 1e-9:
                    hit.add(i)
                if m.min() > 5 or m.max() < 12:
                    fail("the curve only covers log masses {0} to {1}", m.min(), m.max())
            if not hit:
                fail("no {0} curve shows the relation of the {1} model at {2} Gyr", how, "first" if how == "solid" else "second", t)
            fits.append(hit)
        ways = [q for q in itertools.permutations(range(len(L))) if all(i in f for i, f in zip(q, fits))]
        if not ways:
            fail("the {0} curves do not show all epochs", how)
        options.append({tuple(hexc(L[i].get_color()) for i in q) for q in ways})
    both = options[0] & options[1]
    if not both:
        fail("solid and dashed curves of the same epoch have different colours: {0} and {1}", sorted(options[0])[:2], sorted(options[1])[:2])
    if all(len(set(k)) != len(epochs) for k in both):
        fail("epochs share colours")
    ent = {}
    legs = [a for a in list(ax.artists) + [ax.get_legend()] + list(ax.get_children()) if type(a).__name__ == "Legend"]
    for g in legs:
        hs = g.legend_handles if hasattr(g, "legend_handles") else g.legendHandles
        for h, t in zip(hs, g.get_texts()):
            ent[t.get_text()] = (h.get_linestyle(), hexc(h.get_color()))
    want = {}
    if lab is not None:
        want[lab[0]] = "-"
        if not c["one"]:
            want[lab[1]] = "--"
    for k, v in want.items():
        if k not in ent:
            fail("label {0!r} is missing from the legend", k)
        if ent[k][0] != v:
            fail("label {0!r} is attached to style {1!r}", k, ent[k][0])
    if lab is None:
        for k, v in (("new", "-"), ("default", "--")):
            e = [s for t, s in ent.items() if k in t]
            if len(e) != 1 or e[0][0] != v:
                fail("default label {0!r} has style {1}", k, e)
    for k, t in (("z=3", epochs[0]), ("z=0}", epochs[-1])):
        e = [s for x, s in ent.items() if k in x and "+" not in x]
        if len(e) == 1 and e[0][1] not in {q[list(epochs).index(t)] for q in both}:
            fail("the legend colour of {0} is not that of the curves", k)


FACETS = [Facet("figure", lambda t, s: case(), figure, 25, 400, qshards=8, tshards=16)]
