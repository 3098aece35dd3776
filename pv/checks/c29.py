"""C29: training curves are consistent and can be plotted."""
import os
import shutil
import sys
import tempfile
import time

import numpy as np
from hypothesis import strategies as st

from .. import gen, zoo
from ..core import Leg, note
from ..zoo import check
from .c28 import Calls, build, draw_options, train, weights
from .learn import Program, TRAIN_KINDS, draw_train, learners, quiet

ASSUMPTIONS = [
    "figures are drawn with matplotlib's Agg backend and read back through "
    "the lines of their axes",
    "how curves are aligned on the time axis is only judged where the docs "
    "promise it (no warm start, no interruption)"]


@st.composite
def case(draw):
    c = draw_train(draw, TRAIN_KINDS)
    c["name"] = draw(st.sampled_from(["nslack", "oneslack", "subgradient",
                                      "frankwolfe", "perceptron"]))
    if c["name"] == "perceptron":
        for d in c["D"]:
            d.pop("rescale_C", None)
    c["opts"] = draw_options(draw, c["name"])
    c["opts"].pop("n_jobs", None)
    c["iters"] = draw(st.sampled_from([1, 2, 3, 4, 20]))
    c["seed"] = draw(st.integers(0, 100))
    c["steps"] = [draw(st.sampled_from(["fit", "warm", "stop"]))
                  for _ in range(draw(st.integers(1, 3)))]
    c["at"] = draw(st.integers(1, 12))
    c["time"] = draw(st.booleans())
    c["file"] = draw(st.integers(0, 3)) == 0
    c["wrap"] = draw(st.integers(0, 3)) == 0
    return c


def floats(lr, name):
    return [float(v) for v in getattr(lr, name)] if hasattr(lr, name) else None


def consistent(c, lr, began, steps):
    """Lengths and times."""
    name = c["name"]
    now = time.time()
    loss = floats(lr, "loss_curve_")
    if loss is not None:
        check(all(-1e-9 <= v for v in loss) and np.isfinite(loss).all(),
              "%s: training losses %s", name, loss)
    if name == "perceptron":
        check(loss is not None and 1 <= len(loss) <= c["iters"] or
              "stop" in steps, "perceptron: %s losses", loss)
        return
    obj = floats(lr, "objective_curve_")
    check(len(obj) >= 1 and np.isfinite(obj).all(), "%s: objectives %s", name,
          obj)
    pri = floats(lr, "primal_objective_curve_")
    if name != "subgradient":
        check(pri is not None and len(pri) == len(obj) and
              np.isfinite(pri).all(), "%s: %d objectives, primal %s", name,
              len(obj), pri)
    if name == "oneslack":
        check(len(lr.cached_constraint_) == len(obj), "one-slack: %d "
              "objectives, %d cache marks", len(obj),
              len(lr.cached_constraint_))
    ts = floats(lr, "timestamps_")
    check(ts is not None and len(ts) >= 2, "%s: timestamps %s", name, ts)
    check(began - .5 <= ts[0] + ts[-1] <= now + .5, "%s: timestamps %s "
          "don't count from the start of training (%r to %r)", name, ts,
          began, now)
    el = ts[1:]
    check(el[0] >= -1e-6 and el[-1] <= now - c["t0"] + .5 and
          all(b >= a - 1e-2 for a, b in zip(el, el[1:])), "%s: training times "
          "%s within %r seconds", name, el, now - c["t0"])
    last = max([i for i, s in enumerate(steps) if s in ("fit", "stop")] + [0])
    plain = steps[last:] == ["fit"]
    if plain:
        check(len(ts) == len(obj) + 1, "%s: %d timestamps, %d objectives",
              name, len(ts), len(obj))
        every = c["opts"]["show_loss_every"]
        if every == 0:
            check(loss is None, "%s: losses nobody asked for: %s", name, loss)
        elif name != "frankwolfe":
            # one per that many iterations; the last entry is after the loop,
            # and the iteration that stops may be left out
            n = len(obj) - 1
            a, b = int(np.ceil(n / every)), int(np.ceil((n + 1) / every))
            check((loss is None and a == 0) or
                  (loss is not None and a <= len(loss) <= b), "%s: %s losses "
                  "of %d iterations, every %d", name, loss, n, every)


def figure(target, as_time, path=None):
    """Lines of the figure plot_learning draws."""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import warnings
    from pystruct import plot_learning as module
    plt.close("all")
    argv = sys.argv
    try:
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if path:
                sys.argv = ["plot_learning", path]
                module.main()
            else:
                module.plot_learning(target, time=as_time)
        fig = plt.gcf()
        return [[(l.get_label(), np.array(l.get_xdata(), dtype=float),
                  np.array(l.get_ydata(), dtype=float))
                 for l in ax.get_lines()] for ax in fig.axes]
    finally:
        sys.argv = argv
        plt.close("all")


def agree(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.array_equal(a, b)


def drawn(c, lr, axes, as_time, plain):
    name = c["name"]
    loss = floats(lr, "loss_curve_")
    for ax in axes:
        for lab, x, y in ax:
            check(x.shape == y.shape, "line %s: %s points on x, %s on y", lab,
                  x.shape, y.shape)
    if name == "perceptron":
        ys = [y for ax in axes for _, _, y in ax]
        check(len(ys) == 1 and agree(ys[0], loss), "perceptron: drawn %s, "
              "losses %s", [y.tolist() for y in ys], loss)
        return
    check(len(axes) == (1 if loss is None else 2), "%d axes", len(axes))
    obj = floats(lr, "objective_curve_")
    pri = floats(lr, "primal_objective_curve_")
    lines = {l: (x, y) for l, x, y in axes[0]}
    check("dual" in lines and agree(lines["dual"][1], obj), "%s: objective "
          "%s, drawn %s", name, obj, lines)
    if pri is not None:
        key = "cached primal" if name == "oneslack" else "primal"
        check(key in lines and agree(lines[key][1], pri), "%s: primal "
              "objective %s, drawn %s", name, pri, lines)
    if name == "oneslack":
        want = [p for p, k in zip(pri, lr.cached_constraint_) if not k]
        check("primal" in lines and agree(lines["primal"][1], want),
              "one-slack: primal objectives of inference runs %s, drawn %s",
              want, lines)
        x = [p for p, k in zip(lines["dual"][0], lr.cached_constraint_)
             if not k]
        check(agree(lines["primal"][0], x), "one-slack: inference runs are "
              "drawn at %s, not %s", lines["primal"][0], x)
    x = lines["dual"][0]
    if not as_time:
        check(agree(x, np.arange(len(obj))), "iterations drawn at %s", x)
    elif plain:
        ts = floats(lr, "timestamps_")
        check(np.isclose(x[-1], ts[-1] / 60., rtol=1e-9, atol=1e-12) and
              (np.diff(x) >= -1e-3).all() and (x >= -1e-3).all(), "times in "
              "minutes drawn at %s, timestamps %s", x, ts)
    if loss is not None:
        ys = [y for _, _, y in axes[1]]
        check(len(ys) == 1 and agree(ys[0], loss), "%s: drawn %s, losses %s",
              name, [y.tolist() for y in ys], loss)


class Box(object):
    """Like LatentSSVM: a learner with a base learner."""

    def __init__(self, lr):
        self.base_ssvm = lr


def fn(c):
    P = Program(c)
    name = c["name"]
    lr = build(c, P)
    done = []
    c["t0"] = time.time()
    began = c["t0"]
    for s in c["steps"]:
        kw, calls = dict(initialize=False), None
        if s == "warm" and done and name in ("oneslack", "subgradient"):
            kw["warm_start"] = True
        elif s == "warm" and done and name == "nslack":
            kw["constraints"] = lr.constraints_
        elif s == "stop":
            calls = lr.logger = Calls(P.model, lambda: None, c["at"],
                                      KeyboardInterrupt)
        if s == "warm" and len(kw) == 1:
            s = "fit"
        if s != "warm":
            began = time.time()
        try:
            r = train(lr, P.X, P.Y, c["seed"], **kw)
        finally:
            lr.logger = None
            if calls is not None:
                calls.remove()
        if isinstance(r, KeyboardInterrupt):
            # in the final evaluation, which isn't protected
            check(s == "stop", "KeyboardInterrupt out of fit")
            note(False, "stopped too late")
            return
        if r is not None:
            check(r == "gave up", "fit raised %r", r)
            note(False, "QP solver gave up")
            return
        done.append(s)
        consistent(c, lr, began, done)
    if name == "perceptron" and not lr.loss_curve_:
        note(False, "nothing to draw")
        return
    last = max(i for i, s in enumerate(done) if s in ("fit", "stop"))
    plain = done[last:] == ["fit"]
    if c["file"]:
        from pystruct.utils import SaveLogger
        d = tempfile.mkdtemp(prefix="pv_plot_")
        try:
            path = os.path.join(d, "learner.pickle")
            with quiet():
                SaveLogger(path)(lr, "final")
            axes = figure(None, True, path)
        finally:
            shutil.rmtree(d)
        as_time = True
    else:
        as_time = c["time"]
        axes = figure(Box(lr) if c["wrap"] else lr, as_time)
    drawn(c, lr, axes, as_time, plain)
    note(name == "perceptron" or len(lr.objective_curve_) > 2, name=name,
         steps=len(done), time=as_time)


# ------------------------------------------------------------------ plot_grid
@st.composite
def grid_case(draw):
    h, w = draw(st.integers(1, 7)), draw(st.integers(1, 7))
    return dict(x=gen.arr(draw, (h, w), draw(gen.profiles())),
                axes=draw(st.booleans()),
                color=draw(st.sampled_from([None, "red"])),
                width=draw(st.sampled_from([1, 2.5])))


def f_grid(c):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.colors import to_rgba
    from pystruct.utils import plot_grid
    x = np.array(c["x"])
    x0 = x.copy()
    plt.close("all")
    try:
        given = plt.subplots()[1] if c["axes"] else None
        ax = plot_grid(x, axes=given, border_color=c["color"],
                       linewidth=c["width"])
        check(given is None or ax is given, "returns other axes")
        plt.gcf().canvas.draw()
        im = ax.get_images()
        check(len(im) == 1 and np.array_equal(np.asarray(
            im[0].get_array(), dtype=float), x0), "image isn't the array")
        h, w = x0.shape
        check(np.allclose(ax.get_xticks(), np.arange(w - 1) + .5) and
              np.allclose(ax.get_yticks(), np.arange(h - 1) + .5), "cell "
              "borders of a %dx%d grid at %s, %s", h, w, ax.get_xticks(),
              ax.get_yticks())
        for t in ax.get_xticklabels() + ax.get_yticklabels():
            check(t.get_text() == "", "tick label %r", t.get_text())
        for l in ax.get_xgridlines() + ax.get_ygridlines():
            check(l.get_visible() and l.get_linewidth() == c["width"] and
                  to_rgba(l.get_color()) == to_rgba(c["color"] or "black"),
                  "border lines: visible %s, width %r, colour %r",
                  l.get_visible(), l.get_linewidth(), l.get_color())
    finally:
        plt.close("all")
    check(np.array_equal(x, x0), "plot_grid changes its input")
    note(x0.size > 1 and x0.shape[0] != x0.shape[1])


LEGS = [
    Leg("curves", case(), fn, quick=1000, shards=4,
        rule="more than two entries (perceptron: any)"),
    Leg("grid", grid_case(), f_grid, quick=40, rule="not square")]
RULE = "see each leg"
