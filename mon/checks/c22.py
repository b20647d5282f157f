"""C22: plots show their data. Monitor: a movie writer that records the artists of every frame that is
drawn, recording axes methods, and the points the meshed function is asked for."""
import copy
import gc
import multiprocessing
import os
import tempfile

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
from matplotlib import animation, cm
from matplotlib.collections import PathCollection
from matplotlib.figure import Figure
from mpl_toolkits.mplot3d.art3d import Path3DCollection
from mpl_toolkits.mplot3d import Axes3D

from pyswarms.utils.plotters import plot_contour, plot_cost_history, plot_surface
from pyswarms.utils.plotters.formatters import Animator, Designer, Mesher

from .. import sessions as S
from .. import work as W
from .c13 import gone
from .c03 import read_log


FN = ["sphere", "linear", "weird", "rastrigin", "infregion", "mixregion", "nanregion", "huge", "tiny", "const", "offset", "negsphere"]


def cases(tier, seed):
    rng = S.rng_for("C22", seed, tier)
    q = 1 if tier == "quick" else 12
    for k in range(160 * q):
        yield {"kind": "cost", "n": int(W.pick(rng, [1, 2, 3, 10, 50, 400, 1000, 7001])), "given": bool(k % 2), "designer": bool(rng.random() < 0.6), "as": W.pick(rng, ["list", "array", "tuple"])}
    for k in range(130 * q):
        yield {"kind": ["contour", "surface"][k % 2], "T": int(W.pick(rng, [1, 2, 3, 5, 12])), "n": int(W.pick(rng, [1, 2, 3, 7, 20])),
               "canvas": W.pick(rng, ["none", "given", "given", "given2d"]), "designer": bool(rng.random() < 0.6), "animator": bool(rng.random() < 0.6), "mark": bool(rng.random() < 0.5),
               "mesh": bool(rng.random() < 0.35), "as": W.pick(rng, ["list", "array"]), "kw": bool(rng.random() < 0.3)}
    for k, T in enumerate([60, 60, 101, 101, 250, 128] if tier == "quick" else [40, 60, 80, 101, 101, 128, 150, 200, 256, 257, 300, 500, 500, 1001, 1001]):
        yield {"kind": ["contour", "surface"][k % 2], "T": T, "n": int(W.pick(rng, [1, 2, 5])), "canvas": W.pick(rng, ["none", "given"]), "designer": bool(k % 3), "animator": bool(k % 3 == 1),
               "mark": bool(k % 4 == 1), "mesh": False, "as": W.pick(rng, ["list", "array"]), "kw": False}
    for k, n in enumerate([60, 150, 400, 1000]):
        yield {"kind": ["contour", "surface"][k % 2], "T": 3, "n": n, "canvas": "given", "designer": False, "animator": False, "mark": bool(k % 3), "mesh": False, "as": "array", "kw": False}
    for k in range(50 * q):
        yield {"kind": "mesh", "which": ["contour", "surface"][k % 2], "procs": W.pick(rng, [None, None, 1, 2, 3, 5]), "fn": W.pick(rng, FN),
               "lim": [round(float(v), 2) for v in rng.uniform(-6, 4, 2)], "size": [round(float(v), 2) for v in rng.uniform(1.2, 5, 2)], "delta": W.pick(rng, [0.1, 0.25, 0.3, 0.5, 0.07, 1.0])}
    for k in range(60 * q):
        yield {"kind": "history3d", "procs": W.pick(rng, [None, 1, 2, 3, 5, 8]), "T": int(W.pick(rng, [1, 2, 4, 9])), "n": int(W.pick(rng, [1, 2, 3, 7, 20])),
               "fn": W.pick(rng, FN), "as": W.pick(rng, ["list", "array"])}
    for k, (T, n) in enumerate([(1, 1500), (300, 5), (40, 60), (1001, 1), (64, 64), (3, 400)]):
        yield {"kind": "history3d", "procs": [None, 2, 3][k % 3], "T": T, "n": n, "fn": FN[k % len(FN)], "as": ["list", "array"][k % 2]}
    for k in range(16 * q):
        yield {"kind": "pipeline", "opt": S.ALL_KINDS[k % len(S.ALL_KINDS)], "procs": W.pick(rng, [None, 2])}
    yield {"kind": "types"}


def run(spec, mon):
    plt.close("all")
    try:
        return globals()["k_" + spec["kind"]](spec, mon)
    finally:
        plt.close("all")


# --------------------------------------------------------------- instruments
class Frames(animation.AbstractMovieWriter):
    """Is handed every frame of the animation after it was drawn."""

    def __init__(self, ax, n):
        super().__init__(fps=5)
        self.ax, self.n, self.frames = ax, n, []

    def setup(self, fig, outfile, dpi=None):
        super().setup(fig, outfile, dpi=dpi)
        self.fig = fig

    def grab_frame(self, **kw):
        self.frames.append([offsets(c) for c in scatters(self.ax)])

    def finish(self):
        pass


def scatters(ax):
    return [c for c in ax.collections if isinstance(c, PathCollection)]


def offsets(c):
    if isinstance(c, Path3DCollection):
        return np.array([np.ma.filled(np.asarray(v, float), np.nan) for v in c._offsets3d]).T.copy()
    return np.array(np.ma.filled(c.get_offsets(), np.nan), copy=True)


def movie(anim, ax, n, mon):
    w = Frames(ax, n)
    with tempfile.NamedTemporaryFile(suffix=".x") as f:
        try:
            anim.save(f.name, writer=w)
        except (TypeError, ValueError, AttributeError, IndexError, KeyError) as e:
            mon.fail("the returned animation cannot be drawn: %s: %s" % (type(e).__name__, str(e)[:200]))
    return w


def designer(g, dims):
    lim = [(round(float(a), 2), round(float(a + w), 2)) for a, w in zip(g.uniform(-5, 0, dims), g.uniform(1, 9, dims))]
    return Designer(figsize=(float(g.integers(2, 4)), float(g.integers(2, 5))), title_fontsize=[7, 15, "small", 11.5][int(g.integers(4))],
                    text_fontsize=[6, 9, 13.5][int(g.integers(3))], legend="leg%d" % g.integers(99), label=["lx%d" % g.integers(99), "ly%d" % g.integers(99), "lz%d" % g.integers(99)][: max(2, dims)],
                    limits=lim if g.random() < 0.5 else tuple(lim), colormap=[cm.plasma, cm.gray, cm.viridis][int(g.integers(3))])


def points(size):
    return matplotlib.font_manager.FontProperties(size=size).get_size_in_points()


def styled(ax, d, title, mon, dims):
    mon.check(ax.get_title() == title, "the plot has another title", got=ax.get_title(), want=title)
    mon.check(ax.title.get_fontsize() == points(d.title_fontsize), "the title has another size than the designer's", got=ax.title.get_fontsize(), want=d.title_fontsize)
    got = [ax.get_xlabel(), ax.get_ylabel()] + ([ax.get_zlabel()] if dims == 3 else [])
    mon.check(got == list(d.label)[: len(got)], "the axes have other labels than the designer's", got=got, want=d.label)
    axes = [ax.xaxis, ax.yaxis] + ([ax.zaxis] if dims == 3 else [])
    mon.check(all(a.label.get_fontsize() == points(d.text_fontsize) for a in axes), "the labels have another size than the designer's",
              got=[a.label.get_fontsize() for a in axes], want=d.text_fontsize)


def same(a, b):
    """Equal by value; colormaps by name, formatters by their fields."""
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return np.array_equal(a, b)
    if isinstance(a, (Designer, Animator)):
        return same(list(vars(a).items()), list(vars(b).items()))
    if isinstance(a, matplotlib.colors.Colormap):
        return a.name == b.name
    return a == b


# --------------------------------------------------------------- cost history
def k_cost(spec, mon):
    g = np.random.default_rng(spec["seed"])
    h = [float(v) for v in np.minimum.accumulate(g.normal(size=spec["n"]) * 10.0 ** g.integers(-5, 6))]
    if g.random() < 0.2:
        h[0] = float("inf")
    data = {"list": h, "array": np.array(h), "tuple": tuple(h)}[spec["as"]]
    d = designer(g, 2) if spec["designer"] else None
    keep = copy.deepcopy((data, d))
    kw = {}
    title = "Cost History"
    if g.random() < 0.5:
        title = kw["title"] = "T%d" % g.integers(999)
    ax = None
    if spec["given"]:
        fig, axes = plt.subplots(1, 2, figsize=(3, 2))
        ax = axes[int(g.integers(2))]
        if g.random() < 0.5:
            ax.plot([0, 1], [5, 5], label="before")
    before = set(plt.get_fignums())
    n0 = len(ax.lines) if ax is not None else 0
    got = plot_cost_history(data, ax=ax, designer=d, **kw) if ax is not None or d is not None or kw else plot_cost_history(data)
    new = set(plt.get_fignums()) - before
    if ax is not None:
        mon.check(got is ax and not new, "a given axes is not used")
    else:
        mon.check(len(new) == 1 and got.figure.number in new, "not drawn into one new figure")
        mon.check(tuple(got.figure.get_size_inches()) == tuple((d or Designer()).figsize), "the new figure has another size than the designer's", got=got.figure.get_size_inches())
    mon.check(len(got.lines) == n0 + 1, "the plot does not add exactly one line", lines=len(got.lines))
    line = got.lines[-1]
    mon.check(np.array_equal(line.get_xdata(), np.arange(spec["n"])), "the costs are not drawn at their iterations", x=line.get_xdata()[:5])
    mon.check(np.array_equal(np.asarray(line.get_ydata(), float), np.array(h)), "the line does not show the cost history", y=line.get_ydata()[:5], want=h[:5])
    mon.check(line.get_visible() and line.get_linewidth() > 0, "the line is invisible")
    dd = d or Designer(legend="Cost", label=["Iterations", "Cost"])
    styled(got, dd, title, mon, 2)
    leg = got.get_legend()
    mon.check(leg is not None and dd.legend in [t.get_text() for t in leg.get_texts()], "the legend does not name the line")
    mon.check(all(t.get_fontsize() == points(dd.text_fontsize) for t in leg.get_texts()), "the legend has another size than the designer's")
    got.figure.canvas.draw()
    mon.check(all(t.get_fontsize() == points(dd.text_fontsize) for t in got.get_xticklabels()), "tick labels have another size than the designer's")
    mon.check(same((data, d), keep), "the inputs were modified")
    mon.count("cost_plots")
    mon.count("points", spec["n"])


# --------------------------------------------------------------- animations
def k_contour(spec, mon, dims=2):
    g = np.random.default_rng(spec["seed"])
    T, n = spec["T"], spec["n"]
    H = g.normal(size=(T, n, dims)) * g.choice([2.0, 2.0, 1e-6, 1e5])
    if g.random() < 0.2:
        H = np.round(H)
    if g.random() < 0.2:
        H[T // 2:] = H[0]
    if g.random() < 0.1:
        H[:, n // 2:] = H[:, :1]
    data = [h.copy() for h in H] if spec["as"] == "list" else H.copy()
    d = designer(g, dims) if spec["designer"] else None
    a = Animator(interval=int(g.integers(5, 500)), repeat=bool(g.integers(2)), repeat_delay=[None, 7, 300][int(g.integers(3))]) if spec["animator"] else None
    m = Mesher(func=W.RowObj("sphere"), delta=0.5, limits=[(-2, 2), (-1, 3)], levels=W.pick(g, [[0.5, 1.0, 2.0, 4.0], 3, 9, (1.0, 2.5), np.array([0.25, 0.5, 6.0])]), alpha=float(g.choice([0.1, 0.7]))) if spec["mesh"] else None
    mark = tuple(round(float(v), 3) for v in g.normal(size=dims)) if spec["mark"] else None
    kw = {"marker": "^", "label": "swarm%d" % spec["seed"]} if spec["kw"] else {}
    title = "Trajectory"
    if g.random() < 0.5:
        title = kw["title"] = "T%d" % g.integers(999)
    keep = copy.deepcopy((H, d, a, mark, [h.copy() for h in H] if spec["as"] == "list" else H))
    canvas = None
    if spec["canvas"] != "none":
        fig = plt.figure(figsize=(2, 2))
        two_d = dims == 2 or spec["canvas"] == "given2d"
        ax0 = fig.add_subplot(1, 2, 1, projection=None if two_d else "3d")
        fig.add_subplot(1, 2, 2)
        canvas = (fig, ax0)
    before = set(plt.get_fignums())
    fn = plot_contour if dims == 2 else plot_surface
    anim = fn(data, canvas=canvas, mark=mark, designer=d, animator=a, mesher=m, **kw)
    new = set(plt.get_fignums()) - before
    if canvas is None:
        if not mon.check(len(new) == 1, "not drawn into one new figure", new=sorted(new)):
            return
        fig = plt.figure(new.pop())
        mon.check(tuple(fig.get_size_inches()) == tuple((d or Designer()).figsize), "the new figure has another size than the designer's", got=fig.get_size_inches())
    else:
        mon.check(not new, "a new figure is made although a canvas is given")
        fig = canvas[0]
    mon.check(isinstance(anim, animation.FuncAnimation), "no animation is returned", got=type(anim))
    axes = [x for x in fig.axes if scatters(x)]
    if not mon.check(len(axes) == 1, "the swarm is not drawn on an axes of the figure", axes=len(axes), all=len(fig.axes)):
        anim._draw_was_started = True
        return
    ax = axes[0]
    if canvas is not None and (dims == 2 or isinstance(canvas[1], Axes3D)):
        mon.check(ax is canvas[1], "not drawn on the given axes")
    mon.check(isinstance(ax, Axes3D) == (dims == 3), "drawn on an axes of the wrong kind")
    mov = movie(anim, ax, n, mon)
    if not mon.check(len(mov.frames) == T, "number of frames differs from the number of recorded iterations", got=len(mov.frames), want=T):
        return
    ns = {len(f) for f in mov.frames}
    mon.check(ns == {1 + (mark is not None)}, "wrong number of marker sets", got=ns)
    for t, f in enumerate(mov.frames):
        hits = [k for k, o in enumerate(f) if o.shape == (n, dims) and np.array_equal(o, H[t])]
        mon.check(len(hits) >= 1, "frame %d does not show the positions of iteration %d" % (t, t), shown=[o[:3] for o in f], want=H[t][:3])
        if mark is not None:
            rest = [o for k, o in enumerate(f) if not hits or k != hits[-1]]
            mon.check(any(o.shape == (1, dims) and np.array_equal(o[0], np.array(mark)) for o in rest), "the mark is not shown", shown=rest, want=mark)
        mon.count("frames")
    if mark is not None:
        red = [any(len(rgb) and tuple(rgb[0][:3]) == (1.0, 0.0, 0.0) for rgb in (c.get_facecolor(), c.get_edgecolor())) for c in scatters(ax)]
        mon.check(any(red), "the mark is not red", got=[c.get_edgecolor() for c in scatters(ax)])
        mon.count("marks")
    swarm = scatters(ax)[-1]
    mon.check(swarm.get_visible() and swarm.get_alpha() != 0, "the swarm is invisible")
    if spec["kw"]:
        mon.check(swarm.get_label() == kw["label"], "keyword arguments do not reach the plot", got=swarm.get_label())
    # drawn a second time, as a repeating animation does
    if T > 1 and g.random() < 0.3:
        again = movie(anim, ax, n, mon)
        mon.check(len(again.frames) == T and all(any(np.array_equal(o, H[t]) for o in f) for t, f in enumerate(again.frames)), "the repeated animation shows something else")
        mon.count("repeated")
    dd = d or Designer(limits=[(-1, 1)] * dims, label=["x-axis", "y-axis", "z-axis"][:dims])
    styled(ax, dd, title, mon, dims)
    lims = [ax.get_xlim(), ax.get_ylim()] + ([ax.get_zlim()] if dims == 3 else [])
    if True:
        mon.check(np.allclose(lims, dd.limits[:dims]), "the axes have other limits than the designer's", got=lims, want=dd.limits)
    aa = a or Animator()
    mon.check(anim.event_source is None or anim.event_source.interval == aa.interval, "another interval than the animator's", got=getattr(anim.event_source, "interval", None), want=aa.interval)
    for name, want in (("_interval", aa.interval), ("_repeat", aa.repeat), ("_repeat_delay", aa.repeat_delay or 0)):
        if hasattr(anim, name):
            mon.check((getattr(anim, name) or 0) == want or getattr(anim, name) == want, "another %s than the animator's" % name[1:], got=getattr(anim, name), want=want)
    if m is not None:
        if dims == 2:
            cs = [c for c in ax.collections if hasattr(c, "levels")]
            want = m.levels
            if np.ndim(want) == 0:  # a number of levels, their positions are chosen by matplotlib
                xx, yy = np.meshgrid(np.arange(-2, 2, 0.5), np.arange(-1, 3, 0.5))
                want = Figure().subplots().contour(xx, yy, xx ** 2 + yy ** 2, levels=want).levels
            mon.check(len(cs) == 1 and np.shape(cs[0].levels) == np.shape(want) and np.allclose(cs[0].levels, want), "the contours are not at the mesher's levels", got=[getattr(c, "levels", None) for c in cs])
        else:
            ps = [c for c in ax.collections if not isinstance(c, PathCollection)]
            mon.check(len(ps) == 1 and ps[0].get_alpha() == m.alpha, "the surface does not have the mesher's alpha", got=[c.get_alpha() for c in ps], want=m.alpha)
            mon.check(len(ps) == 1 and ps[0].get_cmap().name == dd.colormap.name, "the surface does not have the designer's colormap", got=[c.get_cmap().name for c in ps], want=dd.colormap.name)
    mon.check(same((H, d, a, mark, data), keep), "the inputs were modified")
    mon.count("animations")
    mon.seen("layouts", "%s/%s/%s/%s/%s" % (dims, spec["canvas"], bool(d), bool(m), bool(mark)))


def k_surface(spec, mon):
    k_contour(spec, mon, dims=3)


# --------------------------------------------------------------- meshes
def grid_ok(v, lo, hi, delta):
    k = (hi - lo) / delta
    n = len(v)
    whole = abs(k - round(k)) < 1e-6
    good = n in ((round(k), round(k) + 1) if whole else (int(np.ceil(k)),))
    return good and np.allclose(v, lo + delta * np.arange(n), rtol=0, atol=1e-9 * (1 + abs(lo) + abs(hi)))


def k_mesh(spec, mon):
    lim = [(spec["lim"][k], round(spec["lim"][k] + spec["size"][k], 2)) for k in range(2)]
    fd, log = tempfile.mkstemp(prefix="mesh")
    os.close(fd)
    ref = W.RowObj(spec["fn"], {"loop": 1})
    seen = []
    res = {}
    for procs in (None, spec["procs"]):
        f = W.RowObj(spec["fn"], {"loop": 1}, log=log if procs else None)
        m = Mesher(func=f, delta=spec["delta"], limits=lim, levels=5)
        keep = repr((m.delta, m.limits, m.levels, m.alpha))
        fig = plt.figure(figsize=(2, 2))
        ax = fig.add_subplot(projection="3d" if spec["which"] == "surface" else None)
        got = []
        name = "plot_surface" if spec["which"] == "surface" else "contour"
        orig = getattr(ax, name)

        def rec(x, y, z, *a, orig=orig, got=got, **k):
            got.append((np.array(x), np.array(y), np.array(z)))
            return orig(x, y, z, *a, **k)

        setattr(ax, name, rec)
        H = np.zeros((1, 2, 2 if name == "contour" else 3))
        anim = (plot_contour if name == "contour" else plot_surface)(H, canvas=(fig, ax), mesher=m, n_processes=procs)
        anim._draw_was_started = True
        if not mon.check(len(got) == 1, "the mesh is not drawn exactly once", times=len(got)):
            return
        xx, yy, zz = got[0]
        if not mon.check(xx.ndim == 2 and xx.shape == yy.shape == zz.shape, "the mesh is not a matrix", shapes=(xx.shape, yy.shape, zz.shape)):
            return
        mon.check(grid_ok(xx[0], *lim[0], spec["delta"]) and grid_ok(yy[:, 0], *lim[1], spec["delta"]), "the mesh does not cover the limits with the given step",
                  x=xx[0][[0, -1]], y=yy[:, 0][[0, -1]], limits=lim, delta=spec["delta"], shape=xx.shape)
        mon.check(np.array_equal(xx, np.tile(xx[0], (len(xx), 1))) and np.array_equal(yy, np.tile(yy[:, :1], (1, xx.shape[1]))), "the mesh is not a rectangular grid")
        want = ref.value(np.stack([xx.ravel(), yy.ravel()], axis=1)).reshape(xx.shape)
        mon.check(np.array_equal(zz, want, equal_nan=True), "the mesh does not hold the function's value at every grid point", procs=procs, worst=float(np.abs(zz - want).max()))
        mon.check(repr((m.delta, m.limits, m.levels, m.alpha)) == keep, "the mesher was modified")
        mon.count("mesh_points", zz.size)
        res[procs] = got[0]
    if spec["procs"]:
        a, b = res[None], res[spec["procs"]]
        mon.check(all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b)), "the mesh depends on the number of processes", procs=spec["procs"])
        workers(log, mon)
    os.unlink(log)
    mon.count("meshes")


def workers(log, mon):
    rows = read_log(log)
    pids = {r["pid"] for r in rows}
    mon.check(rows and all(r["shape"][0] >= 1 and r["shape"][1] == 2 for r in rows), "the function got an empty or misshaped batch", shapes=[r["shape"] for r in rows[:4]])
    mon.check(os.getpid() not in pids, "the function does not run in worker processes")
    gc.collect()
    gone(pids, mon, "worker processes survive")
    mon.count("parallel_meshes")


def k_history3d(spec, mon):
    g = np.random.default_rng(spec["seed"])
    H = g.normal(size=(spec["T"], spec["n"], 2)) * g.choice([3.0, 3.0, 1e-7, 1e6])
    if g.random() < 0.2:
        H = np.round(H)
    if g.random() < 0.2:
        H[:, :, 1] = H[0, 0, 1]
    data = [h.copy() for h in H] if spec["as"] == "list" else H.copy()
    fd, log = tempfile.mkstemp(prefix="mesh")
    os.close(fd)
    ref = W.RowObj(spec["fn"], {"loop": 1})
    m = Mesher(func=W.RowObj(spec["fn"], {"loop": 1}, log=log))
    out = m.compute_history_3d(data) if spec["procs"] is None else m.compute_history_3d(data, n_processes=spec["procs"])
    if mon.check(np.shape(out) == (spec["T"], spec["n"], 3), "the 3D history has shape %s" % (np.shape(out),)):
        mon.check(np.array_equal(out[:, :, :2], H), "the 3D history changes the positions")
        want = np.array([ref.value(h) for h in H])
        mon.check(np.array_equal(out[:, :, 2], want, equal_nan=True), "the 3D history does not append the function's values", got=out[0, :3, 2], want=want[0, :3], procs=spec["procs"])
    mon.check(all(np.array_equal(a, b) for a, b in zip(data, H)) and len(data) == spec["T"], "the position history was modified")
    rows = read_log(log)
    mon.check(sum(r["shape"][0] for r in rows) == spec["T"] * spec["n"], "a position is not evaluated exactly once", rows=[r["shape"] for r in rows[:5]])
    if spec["procs"]:
        workers(log, mon)
    os.unlink(log)
    mon.count("histories_3d")


def k_pipeline(spec, mon):
    """From an optimizer's own histories to pictures."""
    opt, topo = spec["opt"]
    np.random.seed(spec["seed"] % 2**32)
    b = W.build(S.base_conf(opt, n=5, d=2, topo=topo), spec["seed"], record_topo=False)
    f = W.RowObj("sphere")
    b.opt.optimize(f, 5, verbose=False)
    h = copy.deepcopy(b.opt.pos_history)
    m = Mesher(func=f)
    h3 = m.compute_history_3d(b.opt.pos_history, n_processes=spec["procs"])
    for dims, fn, data in ((2, plot_contour, b.opt.pos_history), (3, plot_surface, h3)):
        fig = plt.figure(figsize=(2, 2))
        ax = fig.add_subplot(projection="3d" if dims == 3 else None)
        anim = fn(data, canvas=(fig, ax))
        mov = movie(anim, ax, 5, mon)
        mon.check(len(mov.frames) == 5, "number of frames differs from the number of iterations", got=len(mov.frames))
        for t, fr in enumerate(mov.frames):
            want = np.asarray(h[t], float) if dims == 2 else np.c_[h[t], f.value(np.asarray(h[t], float))]
            mon.check(len(fr) == 1 and fr[0].shape == want.shape and np.allclose(fr[0], want, rtol=1e-12), "frame does not show the recorded iteration", t=t)
            mon.count("frames")
    ax = plot_cost_history(b.opt.cost_history)
    mon.check(np.array_equal(np.asarray(ax.lines[0].get_ydata(), float), np.array(b.opt.cost_history, float)), "the cost plot does not show the cost history")
    mon.check(all(np.array_equal(x, y) for x, y in zip(h, b.opt.pos_history)), "plotting modifies the optimizer's histories")
    mon.count("pipelines")


def k_types(spec, mon):
    for bad in (3, 4.5, None):
        for fn in (plot_cost_history, plot_contour, plot_surface):
            try:
                fn(bad)
                mon.fail("%s accepts %r" % (fn.__name__, bad))
            except TypeError:
                mon.check(True, "")
    for cls, kw in ((Designer, {"figsize": [3, 4]}), (Designer, {"legend": 4}), (Designer, {"limits": 3}), (Designer, {"colormap": "viridis"}), (Designer, {"title_fontsize": [1]}),
                    (Designer, {"text_fontsize": None}), (Designer, {"label": 3}), (Animator, {"interval": "3"}), (Animator, {"repeat": 1}), (Mesher, {"func": abs, "limits": 3}),
                    (Mesher, {"func": abs, "alpha": "x"})):
        try:
            cls(**kw)
            mon.fail("%s accepts %r" % (cls.__name__, kw))
        except TypeError:
            mon.check(True, "")
    d, a, m = Designer(), Animator(), Mesher(func=abs)
    mon.check(d.figsize == (10, 8) and d.title_fontsize == "large" and d.text_fontsize == "medium" and d.legend == "Cost" and list(d.label) == ["x-axis", "y-axis", "z-axis"]
              and list(d.limits) == [(-1, 1)] * 3 and d.colormap is cm.viridis, "a Designer default differs from the documentation", got=d)
    mon.check(a.interval == 80 and a.repeat is True and a.repeat_delay is None, "an Animator default differs from the documentation", got=a)
    mon.check(m.delta == 0.001 and list(m.limits) == [(-1, 1)] * 2 and np.shape(m.levels) == (58,) and np.allclose(m.levels, np.arange(-2.0, 2.0, 0.07)) and m.alpha == 0.3, "a Mesher default differs from the documentation", got=m)
