import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, zoo
from ..core import Leg, note
from ..zoo import check, close

RULE = ("cases: model, class weights, two (latent) labellings and a third "
        "one; non-trivial: the labellings differ in an observable label")
ASSUMPTIONS = ["positive class weights", "float64, 1e-9"]


@st.composite
def case(draw, kind):
    c = zoo.draw_case(draw, kind, cap=10 ** 9, max_nodes=8)
    sizes = [len(u) for u in zoo.problem(c)[0]]

    def lab():
        v = gen.ints(draw, len(sizes), 256)
        return np.array([a % b for a, b in zip(v, sizes)], dtype=int)
    c["y"], c["y2"], c["y3"] = lab(), lab(), lab()
    return c


def wrong(c, y):
    """A labelling with every observable label wrong, or None."""
    labs = zoo.labels_of_states(c)
    out = []
    for i, lab in enumerate(labs):
        if lab is None:
            out.append(y[i])
            continue
        o = np.where(lab != lab[y[i]])[0]
        if len(o) == 0:
            return None
        out.append(o[-1])
    return np.array(out, dtype=int)


def same_label(c, y, seed):
    """Another latent labelling with the same observable labels."""
    labs = zoo.labels_of_states(c)
    out = []
    for i, lab in enumerate(labs):
        o = (np.arange(len(zoo.allowed(c)[i])) if lab is None
             else np.where(lab == lab[y[i]])[0])
        out.append(o[int(seed[i]) % len(o)])
    return np.array(out, dtype=int)


def fn(c):
    m = zoo.make_model(c)
    t = {k: zoo.to_model(c, c[k]) for k in ("y", "y2", "y3")}
    mx = zoo.max_loss_ref(c, c["y"])

    def loss(a, b):
        v = m.loss(a, b)
        check(np.ndim(v) == 0, "loss is not a scalar: %r", v)
        return float(v)
    for k in ("y2", "y3"):
        want = zoo.loss_ref(c, c["y"], c[k])
        got = loss(t["y"], t[k])
        check(close(got, want, mx), "loss(%s, %s) = %r, expected %r",
              c["y"].tolist(), c[k].tolist(), got, want)
        check(-1e-12 <= got <= mx + 1e-9 * mx, "loss %r outside [0, %r]",
              got, mx)
    check(loss(t["y"], t["y"]) == 0, "loss of equal labels")
    if c["kind"] not in ("binary", "multiclass"):
        got = float(m.max_loss(t["y"]))
        check(close(got, mx, mx), "max_loss %r, expected %r", got, mx)
    yw = wrong(c, c["y"])
    if yw is not None:
        got = loss(t["y"], zoo.to_model(c, yw))
        check(close(got, mx, mx), "loss with every label wrong is %r, the "
              "maximum %r", got, mx)
    if c["kind"] in zoo.LATENT:
        z = zoo.to_model(c, same_label(c, c["y"], c["y3"]))
        check(loss(t["y"], z) == 0, "loss between latent labellings of the "
              "same labels")
        z = zoo.to_model(c, same_label(c, c["y2"], c["y3"]))
        check(close(loss(t["y"], z), loss(t["y"], t["y2"]), mx), "the loss "
              "depends on latent states")
        ly, ly2 = zoo.label_y(c, c["y"]), zoo.label_y(c, c["y2"])
        b = float(m.base_loss(ly, ly2))
        check(close(b, zoo.loss_ref(c, c["y"], c["y2"]), mx), "base_loss %r, "
              "expected %r", b, zoo.loss_ref(c, c["y"], c["y2"]))
        got = float(m.max_loss(ly))
        check(close(got, mx, mx), "max_loss of the labels %r, expected %r",
              got, mx)
    bl = np.asarray(m.batch_loss([t["y"], t["y2"]], [t["y2"], t["y3"]])
                    if c["kind"] not in zoo.FLAT else
                    m.batch_loss(np.array([t["y"], t["y2"]]),
                                 np.array([t["y2"], t["y3"]])), dtype=float)
    want = [zoo.loss_ref(c, c["y"], c["y2"]),
            zoo.loss_ref(c, c["y2"], c["y3"])]
    check(bl.shape == (2,) and np.allclose(bl, want, rtol=1e-9),
          "batch_loss %s, expected %s", bl.tolist(), want)
    note(zoo.loss_ref(c, c["y"], c["y2"]) > 0, kind=c["kind"],
         cw=type(c.get("cw")).__name__)


LEGS = [Leg("loss_" + k, case(k), fn, quick=500,
            rule="the labellings differ in an observable label")
        for k in zoo.CRF_KINDS + zoo.FLAT]
