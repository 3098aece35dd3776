"""C31: results do not depend on how the numbers are stored."""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import gen, zoo
from ..core import Leg, note
from ..zoo import check
from .c13 import LATENT_METHODS, METHODS, call, opts, same, show, skip
from .c28 import draw_options
from .learn import TRAIN_PROFILES, learners, qp_gave_up, quiet

ASSUMPTIONS = [
    "a number is stored in another type only if that type holds it exactly; "
    "the generated values leave products and sums exact in float32 too",
    "native byte order; edges in any integer type but uint64 (NumPy turns "
    "uint64 mixed with int64 into floats)",
    "the same call on the same numbers stored as contiguous int64 / float64 "
    "is the reference: other checks judge its value"]

INT = ["int64", "int32", "int16", "int8", "uint8", "uint16", "uint32",
       "uint64"]
LAYOUTS = ["C", "C", "F", "reversed", "strided", "wide", "readonly",
           "memmap-like"]


def layout(a, name):
    """The same array, laid out differently in memory."""
    if a.ndim == 0 or name == "C":
        return a
    if name == "F":
        return np.array(a, order="F")
    if name == "reversed":
        return np.array(a[::-1])[::-1]
    if name == "strided":
        b = np.full((2 * len(a),) + a.shape[1:], 7, a.dtype)
        b[::2] = a
        return b[::2]
    if name == "wide":
        b = np.full(a.shape[:-1] + (a.shape[-1] + 2,), 9, a.dtype)
        b[..., 1:-1] = a
        return b[..., 1:-1]
    a = np.array(a)
    if name == "memmap-like":
        a = a.view(Sub)
    a.flags.writeable = False
    return a


class Sub(np.ndarray):
    """A subclass that behaves as np.memmap does (what joblib hands to worker
    processes)."""

    def __array_wrap__(self, arr, context=None):
        arr = super().__array_wrap__(arr, context)
        if self is arr or type(self) is not Sub:
            return arr
        if arr.shape == ():
            return arr[()]
        return arr.view(np.ndarray)

    def __getitem__(self, index):
        res = super().__getitem__(index)
        return res.view(np.ndarray) if type(res) is Sub and not \
            np.shares_memory(res, self) else res


def cast(a, dtype):
    b = a.astype(dtype)
    return b if np.array_equal(b.astype(float), a.astype(float)) else a


class Storage(object):
    """Restores datasets in the storage drawn for each role."""

    def __init__(self, how):
        self.how, self.changed = how, set()

    def __call__(self, a, role):
        if a is None or not isinstance(a, np.ndarray):
            return a
        dtype, lay = self.how[role]
        b = layout(cast(a, dtype) if dtype else a, lay)
        if b.dtype != a.dtype or b.strides != a.strides or \
                not b.flags.writeable:
            self.changed.add(role)
        return b

    def x(self, kind, x):
        if kind == "typed":
            f, e, g = x
            return ([self(v, "features") for v in f],
                    [self(v, "edges") for v in e],
                    [self(v, "edge_features") for v in g])
        if isinstance(x, tuple):
            return tuple([self(x[0], "features")] +
                         [self(v, "edges") for v in x[1:2]] +
                         [self(v, "edge_features") for v in x[2:]])
        return self(x, "features")

    def data(self, kind, X, Y, H, hat):
        if kind in zoo.FLAT:
            return (self(np.asarray(X), "features"),
                    self(np.asarray(Y), "labels"), H,
                    self(np.asarray(hat), "labels"))
        return ([self.x(kind, x) for x in X],
                [self(y, "labels") for y in Y],
                None if H is None else [self(h, "labels") for h in H],
                [self(y, "labels") for y in hat])


def draw_how(draw, float32=True):
    lay = st.sampled_from(LAYOUTS)
    ints = st.sampled_from([None] + INT)
    feat = st.sampled_from([None, None, "float32"] + INT if float32 else
                           [None, None] + INT)
    return dict(labels=(draw(ints), draw(lay)),
                features=(draw(feat), draw(lay)),
                edge_features=(draw(feat), draw(lay)),
                edges=(draw(st.sampled_from([None] + INT[:-1])), draw(lay)),
                w=(draw(st.sampled_from([None, "float32", "int64"])),
                   draw(lay)))


# -------------------------------------------------------------- model methods
@st.composite
def case(draw, kinds):
    kind = draw(st.sampled_from(kinds))
    solver = draw(st.sampled_from(["max-product", "ad3", "lp", "bnb", "unary"]
                                  if kind != "typed" else
                                  ["ad3", "bnb", "plus"]))
    if kind in ("edge", "dgrid", "multilabel") and draw(st.integers(0, 5)) == 0:
        solver = "plus"
    grid = kind in zoo.GRIDS
    D = zoo.draw_dataset(draw, kind, 1, 2, cap=5000 if grid else 150,
                         max_nodes=6 if grid else 4, project=True,
                         profs=["tie", "int", "small"])
    how = draw_how(draw)
    if grid and draw(st.booleans()):
        how["labels"] = (how["labels"][0], "F")
    return dict(D=D, solver=solver, how=how,
                pick=draw(st.integers(0, 10 ** 6)))


def dataset(c):
    D = [dict(d, ydtype="int64") for d in c["D"]]
    for d in D:
        d["x"] = [np.asarray(v, dtype=float) for v in d["x"]] \
            if isinstance(d["x"], list) else np.asarray(d["x"], dtype=float)
    kind = D[0]["kind"]
    X, Y = zoo.get_XY(D)
    H = [zoo.label_y(d, d["y"]) for d in D] if kind in zoo.LATENT else None
    rng = np.random.RandomState(c.get("pick", 0))
    hat = [zoo.to_model(d, [rng.randint(len(a)) for a in zoo.allowed(d)])
           for d in D]
    return kind, X, Y, H, np.array(hat) if kind in zoo.FLAT else hat


def f_methods(c):
    D = c["D"]
    kind, X, Y, H, hat = dataset(c)
    w = np.array(D[0]["w"], dtype=float)
    s = Storage(c["how"])
    X2, Y2, H2, hat2 = s.data(kind, *copy.deepcopy([X, Y, H, hat]))
    w2 = s(w.copy(), "w")
    method = None if kind in zoo.FLAT else opts(c["solver"])
    model = zoo.make_model(D[0], copy.deepcopy(method))
    other = zoo.make_model(D[0], copy.deepcopy(method))
    ms = [m for m in METHODS if not (kind in zoo.FLAT and "relaxed" in m)]
    if kind in zoo.LATENT:
        ms = ms + [m for m in LATENT_METHODS if m != "init_latent"]
    for op in ms:
        if skip(kind, c["solver"], op):
            continue
        i = c["pick"] % len(D)
        a = call(model, X, Y, H, D, op, i, w, hat)
        b = call(other, X2, Y2, H2, D, op, i, w2, hat2)
        check(same(_plain(a), _plain(b)), "%s (%s): %s for contiguous int64 "
              "and float64, %s for %r", op, c["solver"], show(a), show(b),
              c["how"])
    note(bool(s.changed) and (kind in zoo.FLAT or
                              any(len(zoo.edges_of(d)) for d in D)),
         *["%s=%s" % (r, "+".join(str(v) for v in c["how"][r]))
           for r in sorted(s.changed)], kind=kind)


def _plain(o):
    if isinstance(o, tuple):
        return tuple(_plain(v) for v in o)
    if isinstance(o, list):
        return [_plain(v) for v in o]
    if isinstance(o, np.ndarray):
        o = np.asarray(o)
        return o.astype(float) if o.dtype.kind in "iuf" else o
    if isinstance(o, (int, float, np.integer, np.floating)):
        return float(o)
    return o


# ---------------------------------------------------- many states, small types
@st.composite
def states_case(draw):
    kind = draw(st.sampled_from(["graph", "edge", "chain", "typed", "latgraph",
                                 "latnode", "eflatnode", "multiclass"]))
    S = draw(st.integers(9, 40 if kind != "multiclass" else 260))
    n = draw(st.integers(2, 5))
    E = gen.graph(draw, n, draw(st.sampled_from(gen.GRAPH_KINDS)))
    F = draw(st.integers(1, 2))
    nef = draw(st.integers(1, 2))
    return dict(kind=kind, S=S, n=n, E=E, F=F, nef=nef,
                x=gen.arr(draw, (n, F), "int"),
                ef=gen.arr(draw, (len(E), nef), "int"),
                y=gen.ints(draw, n, S), hat=gen.ints(draw, n, S),
                latent=draw(st.integers(1, 3)), dtype=draw(st.sampled_from(INT)),
                lay=draw(st.sampled_from(LAYOUTS)),
                seed=draw(st.integers(0, 10 ** 6)))


def big_model(c):
    from pystruct import models as M
    k, S, F = c["kind"], c["S"], c["F"]
    x, E, ef, n = c["x"], c["E"], c["ef"], c["n"]
    m = "unary"
    if k == "graph":
        return M.GraphCRF(S, F, m), (x, E), n
    if k == "edge":
        return M.EdgeFeatureGraphCRF(S, F, c["nef"], m), (x, E, ef), n
    if k == "chain":
        return M.ChainCRF(S, F, m), x, n
    if k == "latgraph":
        return (M.LatentGraphCRF(S // 2, F, n_states_per_label=2,
                                 inference_method=m), (x, E), n)
    if k == "latnode":
        return (M.LatentNodeCRF(S, F, n_hidden_states=c["latent"],
                                inference_method=m),
                (x, E, 0), n)
    if k == "eflatnode":
        return (M.EdgeFeatureLatentNodeCRF(S, F, c["nef"],
                                           n_hidden_states=c["latent"],
                                           inference_method=m),
                (x, E, ef, 0), n)
    if k == "typed":
        a = max(1, n - 1)
        sub = [e for e in E.tolist() if e[0] < a and e[1] < a]
        cross = [[e[0], e[1] - a] for e in E.tolist()
                 if e[0] < a <= e[1]]
        ee = [sub, cross, [], []]
        r = np.random.RandomState(c["seed"])
        return (M.NodeTypeEdgeFeatureGraphCRF(
            2, [S, 3], [F, F], [[1, 2], [2, 1]]),
            ([x[:a], x[a:]],
             [np.array(v, dtype=int).reshape(-1, 2) for v in ee],
             [r.randint(-2, 3, (len(v), q)).astype(float)
              for v, q in zip(ee, [1, 2, 2, 1])]), n)
    return M.MultiClassClf(F, S), x[0], 1


def f_states(c):
    model, x, n = big_model(c)
    k, S = c["kind"], c["S"]
    if k == "latgraph":
        S = 2 * (S // 2)
    y, hat = (np.asarray(v, dtype=np.int64) % S for v in (c["y"], c["hat"]))
    if k == "typed":
        a = len(x[0][0])
        y[a:] = S + y[a:] % 3
        hat[a:] = S + hat[a:] % 3
    if k == "multiclass":
        y, hat = y[0], hat[0]
        st1 = lambda v: cast(np.asarray(v), c["dtype"])[()]
    else:
        st1 = lambda v: layout(cast(v, c["dtype"]), c["lay"])
    f = model.joint_feature
    for v in (y, hat):
        a, b = f(x, v), f(x, st1(v))
        check(same(_plain(a), _plain(b)), "joint feature of labels %s stored "
              "as %s %s differs from int64", np.asarray(v).tolist(),
              c["dtype"], c["lay"])
        check(a.shape == (model.size_joint_feature,), "joint feature of shape "
              "%r", a.shape)
    l1, l2 = model.loss(y, hat), model.loss(st1(y), st1(hat))
    check(float(l1) == float(l2), "loss %r of int64 labels, %r of %s", l1, l2,
          c["dtype"])
    if k not in ("typed", "latnode", "eflatnode"):
        w = np.random.RandomState(c["seed"]).randint(
            -3, 4, model.size_joint_feature).astype(float)
        a = model.loss_augmented_inference(x, y, w)
        b = model.loss_augmented_inference(x, st1(y), w)
        check(same(_plain(a), _plain(b)), "loss-augmented inference: %s for "
              "int64, %s for %s", show(a), show(b), c["dtype"])
    note(c["dtype"] != "int64" and len(c["E"]) > 0 and S > 11, kind=k,
         dtype=c["dtype"])


# ------------------------------------------------------------------- training
@st.composite
def train_case(draw):
    name = draw(st.sampled_from(["nslack", "oneslack", "subgradient",
                                 "frankwolfe", "perceptron", "latent",
                                 "sublatent"]))
    kind = draw(st.sampled_from(
        ["latgraph", "latgrid", "latnode"] if name in ("latent", "sublatent")
        else ["graph", "chain", "grid", "edge", "multilabel", "multiclass",
              "binary"]))
    D = zoo.draw_dataset(draw, kind, 2, 4, cap=60, max_nodes=4, project=True,
                         profs=["tie", "int", "small"], min_states=2,
                         graph_kinds=gen.FOREST_KINDS)
    o = draw_options(draw, name) if name != "latent" else {}
    if name == "perceptron":
        o.pop("rescale_C", None)
    return dict(D=D, name=name, opts=o, how=draw_how(draw, False),
                C=draw(st.sampled_from([0.1, 1.0, 10.0])),
                iters=draw(st.sampled_from([1, 3, 10])),
                seed=draw(st.integers(0, 100)), pick=0)


def _train(c, X, Y, H):
    import joblib
    L = learners()
    kind = c["D"][0]["kind"]
    model = zoo.make_model(c["D"][0], None if kind in zoo.FLAT
                           else "max-product")
    o = dict(c["opts"], max_iter=c["iters"])
    if c["name"] == "latent":
        lr = L["latent"](L["oneslack"](model, C=c["C"], max_iter=c["iters"]),
                         latent_iter=2)
    elif c["name"] == "perceptron":
        lr = L["perceptron"](model, **o)
    else:
        lr = L[c["name"]](model, C=c["C"], **o)
    kw = {} if c["name"] == "latent" else dict(initialize=False)
    if c["name"] in ("latent", "sublatent"):
        kw["H_init"] = H
    np.random.seed(c["seed"])
    try:
        with quiet(), joblib.parallel_backend("threading"):
            lr.fit(X, Y, **kw)
    except ValueError as e:
        if qp_gave_up(e):
            return None, None
        raise
    return lr, model


def f_train(c):
    D = c["D"]
    kind, X, Y, H, hat = dataset(c)
    if c["name"] == "latent" and set(
            int(v) for y in H for v in np.ravel(y)) != set(
            range(D[0]["n_labels"])):
        note(False, "a label is missing")
        return
    s = Storage(c["how"])
    X2, Y2, H2, hat2 = s.data(kind, *copy.deepcopy([X, Y, H, hat]))
    if c["name"] in ("latent", "sublatent"):
        # labels are given, hidden states are the completion
        lr, _ = _train(c, X, H, Y)
        l2, _ = _train(c, X2, H2, Y2)
        Y, Y2 = H, H2
    else:
        lr, _ = _train(c, X, Y, None)
        l2, _ = _train(c, X2, Y2, None)
    if lr is None or l2 is None:
        note(False, "QP solver gave up")
        return
    check(same(_plain(np.asarray(lr.w)), _plain(np.asarray(l2.w))),
          "%s learns %s from contiguous int64 and float64, %s from %r",
          c["name"], show(lr.w), show(l2.w), c["how"])
    a, b = lr.predict(X), l2.predict(X2)
    check(same(_plain(a), _plain(b)), "%s predicts %s, %s from %r", c["name"],
          show(a), show(b), c["how"])
    a, b = lr.score(X, Y), l2.score(X2, Y2)
    check(same(_plain(a), _plain(b)), "%s scores %r, %r from %r", c["name"],
          a, b, c["how"])
    note(bool(s.changed) and float(np.abs(lr.w).max(initial=0)) > 0,
         *["%s=%s" % (r, "+".join(str(v) for v in c["how"][r]))
           for r in sorted(s.changed)], kind=kind, learner=c["name"])


# ------------------------------------------------------- inference functions
@st.composite
def dispatch_case(draw):
    S = draw(st.integers(1, 4))
    n = draw(st.integers(1, 6))
    method = draw(st.sampled_from(["max-product", "max-product", "ad3", "lp",
                                   "unary", "bnb", "ad3+"]))
    E = gen.graph(draw, n, draw(st.sampled_from(gen.GRAPH_KINDS
                                                + ["orderedchain"] * 3)))
    per_edge = draw(st.booleans()) or method == "ad3+"
    p = draw(st.sampled_from(["tie", "int", "small"]))
    h = draw_how(draw)
    pot = st.sampled_from([None, "float32", "int64", "int32", "int8"])
    h["unary"] = (draw(pot), draw(st.sampled_from(LAYOUTS)))
    h["pairwise"] = (draw(pot), draw(st.sampled_from(LAYOUTS)))
    return dict(U=gen.arr(draw, (n, S), p), E=E, method=method,
                P=gen.arr(draw, (len(E), S, S) if per_edge else (S, S), p),
                y=gen.ints(draw, n, S), how=h,
                relaxed=draw(st.booleans()), en=draw(st.booleans()))


def f_dispatch(c):
    from pystruct.inference import compute_energy, inference_dispatch
    s = Storage(c["how"])
    U, P, E, y = (np.array(c[k], dtype=t) for k, t in zip(
        "UPEy", (float, float, np.int64, np.int64)))
    E = E.reshape(-1, 2)
    U2, P2, E2, y2 = (s(a.copy(), r) for a, r in (
        (U, "unary"), (P, "pairwise"), (E, "edges"), (y, "labels")))
    a, b = compute_energy(U, P, E, y), compute_energy(U2, P2, E2, y2)
    check(same(_plain(a), _plain(b)), "compute_energy: %r for contiguous "
          "int64 and float64, %r for %r", a, b, c["how"])
    kw = dict(relaxed=c["relaxed"], return_energy=c["en"])
    a = inference_dispatch(U, P, E, opts(c["method"]), **kw)
    b = inference_dispatch(U2, P2, E2, opts(c["method"]), **kw)
    check(same(_plain(a), _plain(b)), "inference_dispatch(%s): %s for "
          "contiguous int64 and float64, %s for %r", c["method"], show(a),
          show(b), c["how"])
    note(bool(s.changed) and len(E) > 0,
         *["%s=%s" % (r, "+".join(str(v) for v in c["how"][r]))
           for r in sorted(s.changed)], method=c["method"])


R1 = ("the storage of some argument changed and the model is flat or a sample "
      "has an edge")
LEGS = [
    Leg("graphs", case(["graph", "chain", "edge", "multilabel"]), f_methods,
        350, shards=2, rule=R1),
    Leg("grids", case(["grid", "dgrid", "latgrid", "latdgrid"]), f_methods,
        250, shards=2, rule=R1),
    Leg("typed", case(["typed"]), f_methods, 200, rule=R1),
    Leg("hidden", case(["latgraph", "latnode", "eflatnode"]), f_methods,
        250, shards=2, rule=R1),
    Leg("flat", case(zoo.FLAT), f_methods, 150, rule=R1),
    Leg("dispatch", dispatch_case(), f_dispatch, 900, shards=2,
        rule="the storage of some argument changed and there is an edge"),
    Leg("states", states_case(), f_states, 600,
        rule="narrow type, an edge and more than 11 states"),
    Leg("train", train_case(), f_train, 350, shards=2,
        rule="the storage of some argument changed and weights are not zero"),
]
RULE = "see each leg"
