"""C25: sizes are inferred from data; malformed inputs are rejected; correct
ones never are."""
import copy
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import gen, zoo
from ..core import Leg, Violation, note
from ..zoo import check
from .learn import learners, quiet

ASSUMPTIONS = [
    "rejecting means raising any exception; which one isn't fixed",
    "every corrupted input differs in one field from an input that is first "
    "shown to be accepted"]


def rejects(what, fn):
    """fn must raise."""
    try:
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = fn()
    except Violation:
        raise
    except Exception:
        return
    raise Violation("%s accepted, result %.300r" % (what, r))


def accepts(what, fn):
    try:
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fn()
    except Exception as e:
        raise Violation("%s rejected: %s: %s" % (what, type(e).__name__, e))


# ------------------------------------------------------------- initialisation
INIT = ["graph", "chain", "grid", "dgrid", "edge", "multilabel", "multiclass",
        "binary", "latgraph", "latgrid", "latdgrid", "latnode", "eflatnode"]


@st.composite
def init_case(draw):
    kind = draw(st.sampled_from(INIT))
    D = zoo.draw_dataset(draw, kind, 1, 4, cap=4000, max_nodes=6)
    # every label occurs
    if kind not in ("binary", "multilabel"):
        cover_labels(D)
    sp = st.sampled_from(["none", "none", "right", "right", "wrong"])
    c = dict(D=D, feat=draw(sp), state=draw(sp), ef=draw(sp),
             cwlen=draw(st.sampled_from(["ok", "ok", "ok", "long", "short"])),
             delta=draw(st.sampled_from([1, -1, 2, 5])),
             arr=draw(st.booleans()), again=draw(st.booleans()),
             sym=draw(st.sampled_from(["ok", "ok", "ok", "range", "both"])))
    return c


def cover_labels(D):
    """Assign the first nodes such that every label occurs, if there are
    enough of them."""
    d0 = D[0]
    k = d0.get("n_labels", d0["S"])
    want = list(range(k))
    lab0 = None
    for d in D:
        labs = zoo.labels_of_states(d)
        y = np.array(d["y"])
        for i, lab in enumerate(labs):
            if lab is None or not want:
                continue
            y[i] = int(np.where(lab == want.pop(0))[0][0])
        d["y"] = y
    return lab0


def observed(D):
    if D[0]["kind"] in zoo.LATENT:
        return [zoo.label_y(d, d["y"]) for d in D]
    return [zoo.to_model(d, d["y"]) for d in D]


def value(mode, v, delta):
    if mode == "none":
        return None
    return v if mode == "right" else max(1, v + delta)


def construct(c):
    from pystruct import models as M
    d = c["D"][0]
    k = d["kind"]
    nl = n_labels(d)
    f = value(c["feat"], d["F"], c["delta"])
    s = value(c["state"], nl, c["delta"])
    cw = weights(c)
    ip = "max-product"
    if k == "binary":
        return M.BinaryClf(f)
    if k == "multiclass":
        return M.MultiClassClf(f, s, class_weight=cw)
    if k in ("graph", "chain"):
        cls = M.GraphCRF if k == "graph" else M.ChainCRF
        return cls(s, f, ip, class_weight=cw, directed=d["directed"])
    if k in ("grid", "dgrid"):
        cls = M.GridCRF if k == "grid" else M.DirectionalGridCRF
        return cls(s, f, ip, d["nbh"])
    if k == "edge":
        sym, anti = list(d["sym"]), list(d["anti"])
        if c["sym"] == "range":
            sym = sym + [d["nef"]]
        elif c["sym"] == "both" and (sym or anti):
            i = (sym + anti)[0]
            sym, anti = sorted(set(sym + [i])), sorted(set(anti + [i]))
        return M.EdgeFeatureGraphCRF(
            s, f, value(c["ef"], d["nef"], c["delta"]), ip, class_weight=cw,
            symmetric_edge_features=sym, antisymmetric_edge_features=anti)
    if k == "multilabel":
        e = d["edges"]
        if f is not None and s is None:
            s = nl                      # the constructor needs it then
        return M.MultiLabelClf(s, f, None if e is None else e.copy(), ip)
    if k == "latgraph":
        return M.LatentGraphCRF(s, f, copy.copy(d["spl"]), ip)
    if k in ("latgrid", "latdgrid"):
        cls = M.LatentGridCRF if k == "latgrid" else \
            M.LatentDirectionalGridCRF
        return cls(s, f, copy.copy(d["spl"]), ip, neighborhood=d["nbh"])
    if k == "latnode":
        return M.LatentNodeCRF(s, f, d["n_hidden_states"], ip,
                               class_weight=cw,
                               latent_node_features=d["lnf"])
    if k == "eflatnode":
        # this one infers nothing
        return M.EdgeFeatureLatentNodeCRF(
            nl if s is None else s, d["F"] if f is None else f, d["nef"],
            d["n_hidden_states"], ip, class_weight=cw,
            latent_node_features=d["lnf"],
            symmetric_edge_features=list(d["sym"]),
            antisymmetric_edge_features=list(d["anti"]))
    raise KeyError(k)


def n_labels(d):
    return d.get("n_labels", d["n"] if d["kind"] == "multilabel"
                 else d.get("S"))


def weights(c):
    """The class weights given, possibly of a wrong length."""
    cw = c["D"][0].get("cw")
    if cw is None:
        return None
    cw = [float(v) for v in cw]
    if c["cwlen"] == "long":
        return cw + [1.]
    if c["cwlen"] == "short" and len(cw) > 1:
        return cw[:-1]
    return cw


def contradictory(c):
    """Whether some parameter given contradicts the data."""
    d = c["D"][0]
    k = d["kind"]
    f = value(c["feat"], d["F"], c["delta"])
    s = value(c["state"], n_labels(d), c["delta"])
    bf = f is not None and f != d["F"]
    bs = s is not None and s != n_labels(d)
    if k == "binary":
        return bf
    cw = weights(c)
    bc = cw is not None and len(cw) != n_labels(d)
    be = False
    if k == "edge":
        ne = value(c["ef"], d["nef"], c["delta"])
        be = (ne is not None and ne != d["nef"]) or c["sym"] == "range" or (
            c["sym"] == "both" and bool(d["sym"] or d["anti"]))
    return bf or bs or bc or be


def f_init(c):
    D = c["D"]
    d = D[0]
    k = d["kind"]
    Y = observed(D)
    X = [zoo.get_x(e) for e in D]
    nl = n_labels(d)
    if k not in ("binary", "multilabel"):
        seen = np.unique(np.hstack([np.ravel(y) for y in Y]))
        if len(seen) != nl:
            note(False, "labels missing")
            return
    if k in zoo.FLAT or k == "multilabel" or (
            k in zoo.GRIDS and c["arr"] and
            len(set(np.shape(x) for x in X)) == 1):
        X, Y = np.array(X), np.array(Y)

    def go():
        m = construct(c)
        m.initialize(X, Y)
        return m
    bad = contradictory(c)
    what = "%s with features=%s states=%s edge features=%s class weights=%s " \
        "symmetric=%s" % (k, c["feat"], c["state"], c["ef"], c["cwlen"],
                          c["sym"])
    if bad:
        rejects(what, go)
        note(True, kind=k, bad=True)
        return
    m = accepts(what, go)
    check(getattr(m, "n_features", d["F"]) == d["F"], "%s: n_features is %r, "
          "data has %d", what, getattr(m, "n_features", None), d["F"])
    if k not in ("binary", "multilabel"):
        check(m.n_states == d["S"], "%s: n_states is %r, expected %d", what,
              m.n_states, d["S"])
    if hasattr(m, "n_labels"):
        check(m.n_labels == nl, "%s: n_labels is %r, expected %d", what,
              m.n_labels, nl)
    if k == "edge":
        check(m.n_edge_features == d["nef"], "%s: n_edge_features is %r",
              what, m.n_edge_features)
    want = zoo.wsize(d)
    check(m.size_joint_feature == want, "%s: size_joint_feature %r, expected "
          "%d", what, m.size_joint_feature, want)
    for e in D:
        x, y = zoo.get_x(e), zoo.to_model(e, e["y"])
        f = np.asarray(accepts("joint_feature", lambda: m.joint_feature(x,
                                                                       y)))
        check(f.shape == (want,), "%s: joint feature of shape %s, announced "
              "%d", what, f.shape, want)
        r = accepts("inference", lambda: m.inference(x, np.zeros(want)))
        zoo.from_model(e, r, "inference")
    if c["again"]:
        # once more with the same data, then with other feature numbers
        accepts("second initialize", lambda: m.initialize(X, Y))
        check(m.size_joint_feature == want, "second initialize: "
              "size_joint_feature %r, before %d", m.size_joint_feature, want)
        X2 = [more_features(k, x) for x in X]
        if k in zoo.FLAT or k == "multilabel":
            X2 = np.array(X2)
        rejects("%s: initialize with %d features after %d" % (
            k, d["F"] + 1, d["F"]), lambda: m.initialize(X2, Y))
    note("none" in (c["feat"], c["state"]), kind=k, bad=False)


def more_features(k, x, by=1):
    """x with one more feature per node (or fewer)."""
    def wide(a):
        a = np.asarray(a)
        if by > 0:
            return np.concatenate([a, a[..., :1] * 0 + 1], axis=-1)
        return a[..., :by]
    if isinstance(x, tuple):
        return (wide(x[0]),) + tuple(x[1:])
    return wide(x)


# ----------------------------------------------------------- corrupted inputs
@st.composite
def bad_case(draw):
    kind = draw(st.sampled_from(
        [k for k in zoo.CRF_KINDS if k != "typed"] + zoo.FLAT))
    c = zoo.draw_case(draw, kind, cap=400, max_nodes=5,
                      profs=["int", "quarter", "unit"])
    return dict(c=c, what=draw(st.sampled_from(BAD)),
                k=draw(st.integers(0, 50)),
                op=draw(st.sampled_from(["inference", "lai", "jf"])))


BAD = ["w", "features", "efcols", "efrows", "method", "method", "nbh", "ysize",
       "cw", "ybin", "y_true"]


def call(c, m, op, x, y, w):
    if op == "inference":
        return m.inference(x, w)
    if op == "lai":
        return m.loss_augmented_inference(x, y, w)
    if c.get("rescale_C"):
        return m.joint_feature(x, y, y)
    return m.joint_feature(x, y)


def f_bad(b):
    c, k, op, what = b["c"], b["k"], b["op"], b["what"]
    kind = c["kind"]
    method = None if kind in zoo.FLAT else "max-product"
    x, y, w = zoo.get_x(c), zoo.to_model(c, c["y"]), np.array(c["w"],
                                                              dtype=float)
    m = zoo.make_model(c, method)
    accepts("%s %s" % (kind, op), lambda: call(c, m, op, x, y, w))
    # latent node models may read the truth only through its labels
    tag = "%s: %s on" % (kind, op)
    flat = kind in zoo.FLAT
    if what == "w":
        if op == "jf":
            op = "inference"
        cand = [np.append(w, 1.), w[:-1], np.append(w, w),
                np.append(w, np.ones(len(w) + 1))]
        if not flat:
            cand += [w[np.newaxis], w[:, np.newaxis]]
        v = cand[k % len(cand)]
        rejects("%s weights of shape %s (size_joint_feature %d)" % (
            tag, v.shape, len(w)), lambda: call(c, m, op, x, y, v))
    elif what == "features":
        if kind in ("binary", "multiclass", "multilabel") and op == "jf":
            op = "inference"
        by = 1 if c["F"] == 1 or k % 2 else -1
        x2 = more_features(kind, x, by)
        rejects("%s %d features instead of %d" % (tag, c["F"] + by, c["F"]),
                lambda: call(c, m, op, x2, y, w))
    elif what in ("efcols", "efrows") and kind in ("edge", "eflatnode"):
        ef = np.asarray(x[2])
        if what == "efcols":
            ef2 = np.hstack([ef, ef[:, :1]]) if k % 2 or c["nef"] == 1 \
                else ef[:, :-1]
        else:
            ef2 = np.vstack([ef, np.ones((1, ef.shape[1]))]) \
                if k % 2 or len(ef) == 0 else ef[:-1]
        x2 = (x[0], x[1], ef2) + tuple(x[3:])
        rejects("%s edge features of shape %s, expected %s" % (
            tag, ef2.shape, ef.shape), lambda: call(c, m, op, x2, y, w))
    elif what == "method" and not flat:
        if op == "jf":
            op = "lai"
        name = ["foo", "Max-Product", "", "max product", "ad4", "exact"][k % 6]
        v = (name, {}) if k % 5 == 0 else name

        def go():
            m2 = zoo.make_model(c, v)
            return call(c, m2, op, x, y, w)
        rejects("%s inference method %r" % (tag, v), go)
    elif what == "nbh" and kind in zoo.GRIDS:
        c2 = dict(c, nbh=[0, 1, 2, 3, 5, 6, 7, 9, 16][k % 9])

        def go():
            m2 = zoo.make_model(c2, method)
            return call(c, m2, op, x, y, w)
        rejects("%s neighborhood %d" % (tag, c2["nbh"]), go)
    elif what == "ysize" and kind in ("graph", "chain", "edge", "grid",
                                      "dgrid", "latgraph", "latgrid",
                                      "latdgrid"):
        v = np.ravel(y)
        y2 = np.append(v, v[:1]) if k % 2 or len(v) == 1 else v[:-1]
        rejects("%s a labelling of %d nodes for %d" % (
            tag, len(y2), len(v)),
            lambda: m.loss_augmented_inference(x, y2, w)
            if op == "lai" and kind not in zoo.LATENT
            else m.joint_feature(x, y2))
    elif what == "cw" and kind in ("graph", "chain", "edge", "multiclass",
                                   "latnode", "eflatnode"):
        n = c.get("n_labels", c["S"])
        cand = [n + 1, n - 1, 2 * n, 0, 1]
        size = cand[k % len(cand)]
        if size != n:
            c2 = dict(c, cw=[1.5] * size)
            rejects("%s: %d class weights for %d labels" % (kind, size, n),
                    lambda: zoo.make_model(c2, method))
    elif what == "ybin" and kind == "binary":
        v = [0, 2, -2, 3, .5][k % 5]
        rejects("binary joint_feature of y=%r" % v,
                lambda: m.joint_feature(x, v))
    elif what == "y_true" and kind == "multiclass":
        c2 = dict(c, rescale_C=True, cw=[2.] * c["S"])
        m2 = zoo.make_model(c2)
        accepts("joint_feature with rescale_C",
                lambda: m2.joint_feature(x, y, y))
        rejects("joint_feature without y_true under rescale_C",
                lambda: m2.joint_feature(x, y))
        rejects("batch_joint_feature without Y_true under rescale_C",
                lambda: m2.batch_joint_feature(np.array([x]), np.array([y])))
    else:
        note(False, "not applicable")
        return
    # the well-formed call still works afterwards
    accepts("%s %s after a rejected call" % (kind, b["op"]),
            lambda: call(c, m, b["op"], x, y, w))
    note(True, kind=kind, what=what)


# -------------------------------------------------------------------- typed
@st.composite
def typed_case(draw):
    c = zoo.draw_case(draw, "typed", cap=400, profs=["int", "quarter"])
    return dict(c=c, what=draw(st.sampled_from(TBAD)), k=draw(
        st.integers(0, 255)), j=draw(st.integers(0, 255)),
        single=draw(st.booleans()))


TBAD = ["label_high", "label_high", "label_low", "label_neg", "label_count",
        "label_swap", "feat_cols", "feat_types", "edge_high", "edge_high",
        "edge_neg", "edge_cols", "edge_dim", "edge_arrays", "ef_arrays",
        "ef_rows", "ef_cols", "ef_none", "e_none", "n_states", "n_feats",
        "cw_types", "cw_len", "a_asym", "a_shape", "method", "w"]


def f_typed(b):
    from pystruct.models import NodeTypeEdgeFeatureGraphCRF as N
    c, what, k, j = b["c"], b["what"], b["k"], b["j"]
    T, ns, Ss = c["T"], c["ns"], c["Ss"]
    start = np.concatenate([[0], np.cumsum(Ss)]).astype(int)
    off = np.concatenate([[0], np.cumsum(ns)]).astype(int)

    def build(**kw):
        a = dict(n_types=T, l_n_states=list(Ss), l_n_features=list(c["Fs"]),
                 a_n_edge_features=c["nef"].copy(), inference_method="ad3",
                 l_class_weight=c["cw"])
        a.update(kw)
        return N(**a)

    def init(x, y):
        m = build()
        if b["single"]:
            m.initialize(x, y)
        else:
            m.initialize([good, x, good], [yt, y, yt])
        return True
    x = good = zoo.get_x(c)
    y = yt = zoo.to_model(c, c["y"])
    accepts("well-formed typed sample", lambda: init(x, y))
    nf, E, EF = [list(v) for v in x]
    types = [t for t in range(T) if ns[t] > 0]
    t = types[k % len(types)]
    node = int(off[t] + j % ns[t])
    full = [p for p in range(T * T) if len(c["E"][p])]
    p = full[k % len(full)] if full else None
    a_, d_ = (p // T, p % T) if p is not None else (0, 0)
    y2 = np.array(y)
    x_bad = y_bad = None
    if what == "label_high":
        y2[node] = start[t + 1] + [0, 0, 1, 5][j % 4]
        y_bad = y2
    elif what == "label_low":
        y2[node] = start[t] - 1
        y_bad = y2
    elif what == "label_neg":
        y2[node] = -1 - j % 3
        y_bad = y2
    elif what == "label_count":
        y_bad = np.append(y2, y2[-1:]) if j % 2 or len(y2) == 1 else y2[:-1]
    elif what == "label_swap" and len(types) > 1:
        u = types[(k + 1) % len(types)]
        y2[node] = start[u] + j % Ss[u]
        y_bad = y2
    elif what == "feat_cols":
        a = np.asarray(c["x"][t])
        nf[t] = np.hstack([a, a[:, :1]]) if j % 2 or c["Fs"][t] == 1 \
            else a[:, :-1]
        x_bad = (nf, E, EF)
    elif what == "feat_types":
        x_bad = (nf + [np.ones((1, 1))], E, EF)
        if T > 1 and j % 2:
            x_bad = (nf[:-1], E, EF)
    elif what == "edge_high" and p is not None:
        e = np.array(c["E"][p])
        col = j % 2
        e[k % len(e), col] = ns[(a_, d_)[col]] + (j // 2) % 3
        E[p] = e
        x_bad = (nf, E, EF)
    elif what == "edge_neg" and p is not None:
        e = np.array(c["E"][p])
        e[k % len(e), j % 2] = -1
        E[p] = e
        x_bad = (nf, E, EF)
    elif what == "edge_cols" and p is not None:
        e = np.array(c["E"][p])
        E[p] = np.hstack([e, e[:, :1]]) if j % 2 else e[:, :1]
        x_bad = (nf, E, EF)
    elif what == "edge_dim" and p is not None:
        E[p] = np.array(c["E"][p]).ravel()
        x_bad = (nf, E, EF)
    elif what == "edge_arrays":
        x_bad = (nf, E + [np.zeros((0, 2), dtype=int)], EF) if j % 2 else \
            (nf, E[:-1], EF)
    elif what == "ef_arrays":
        x_bad = (nf, E, EF + [np.zeros((0, 1))]) if j % 2 else \
            (nf, E, EF[:-1])
    elif what == "ef_rows" and p is not None:
        f = np.array(c["EF"][p])
        EF[p] = np.vstack([f, f[:1]]) if j % 2 else f[:-1]
        x_bad = (nf, E, EF)
    elif what == "ef_cols" and p is not None:
        f = np.array(c["EF"][p])
        EF[p] = np.hstack([f, f[:, :1]]) if j % 2 or f.shape[1] == 1 \
            else f[:, :-1]
        x_bad = (nf, E, EF)
    elif what == "ef_none" and p is not None:
        EF[p] = None
        x_bad = (nf, E, EF)
    elif what == "e_none" and p is not None:
        E[p] = None
        x_bad = (nf, E, EF)
    elif what == "n_states":
        v = list(Ss) + [2] if j % 2 or T == 1 else list(Ss)[:-1]
        rejects("l_n_states=%s for %d types" % (v, T),
                lambda: build(l_n_states=v, l_class_weight=None))
    elif what == "n_feats":
        v = list(c["Fs"]) + [2] if j % 2 or T == 1 else list(c["Fs"])[:-1]
        rejects("l_n_features=%s for %d types" % (v, T),
                lambda: build(l_n_features=v))
    elif what == "cw_types":
        v = [[1.] * s for s in Ss]
        v = v + [[1.]] if j % 2 or T == 1 else v[:-1]
        rejects("%d class weight lists for %d types" % (len(v), T),
                lambda: build(l_class_weight=v))
    elif what == "cw_len":
        v = [[1.] * s for s in Ss]
        u = k % T
        v[u] = v[u] + [1.] if j % 2 or len(v[u]) == 1 else v[u][:-1]
        rejects("class weights %s for %s states" % (v, Ss),
                lambda: build(l_class_weight=v))
    elif what == "a_asym" and T > 1:
        a = c["nef"].copy()
        u, v = k % T, (k + 1 + j % (T - 1)) % T
        a[u, v] += 1
        rejects("asymmetric edge feature numbers %s" % a.tolist(),
                lambda: build(a_n_edge_features=a))
    elif what == "a_shape":
        a = np.ones([(T + 1, T + 1), (T, T + 1), (T * T,)][j % 3], dtype=int)
        if a.shape != (T, T):
            rejects("edge feature numbers of shape %s for %d types" % (
                a.shape, T), lambda: build(a_n_edge_features=a))
    elif what == "method":
        v = ["lp", "max-product", "foo", "qpbo", "unary"][j % 5]
        rejects("typed model with inference method %r" % v,
                lambda: build(inference_method=v))
    elif what == "w":
        m = build()
        w = np.array(c["w"], dtype=float)
        v = [np.append(w, 1.), w[:-1], np.append(w, w)][j % 3]
        rejects("typed inference with %d weights instead of %d" % (
            len(v), len(w)), lambda: m.inference(x, v))
        rejects("typed loss-augmented inference with %d weights instead of "
                "%d" % (len(v), len(w)),
                lambda: m.loss_augmented_inference(x, y, v))
    else:
        note(False, "not applicable")
        return
    if y_bad is not None:
        rejects("labels %s (types %s nodes, states from %s): %s" % (
            y_bad.tolist(), ns, start.tolist(), what),
            lambda: init(x, y_bad))
    if x_bad is not None:
        rejects("typed sample: %s" % what, lambda: init(x_bad, y))
        if b["single"]:
            m = build()
            rejects("typed joint_feature: %s" % what,
                    lambda: m.joint_feature(x_bad, y))
    note(True, what=what, types=T)


# ------------------------------------------------------------ the dispatcher
@st.composite
def pot_case(draw):
    n, S = draw(st.integers(1, 4)), draw(st.integers(1, 3))
    E = gen.graph(draw, n, draw(st.sampled_from(gen.GRAPH_KINDS)))
    one = draw(st.booleans())
    p = draw(gen.profiles(["tie", "int", "quarter"]))
    return dict(n=n, S=S, E=E, one=one, U=gen.arr(draw, (n, S), p),
                P=gen.arr(draw, (S, S) if one else (len(E), S, S), p),
                method=draw(st.sampled_from(["max-product", "ad3", "lp",
                                             "dispatch"])),
                k=draw(st.integers(0, 20)))


def f_pot(c):
    from pystruct import inference as I
    from pystruct.inference.maxprod import inference_max_product
    U, E, S = c["U"], np.array(c["E"], dtype=int).reshape(-1, 2), c["S"]
    m = len(E)
    direct = {"max-product": inference_max_product, "ad3": I.inference_ad3,
              "lp": I.inference_lp}
    if c["method"] == "dispatch":
        def go(P, e=E):
            return I.inference_dispatch(U, P, e, ["max-product", "ad3", "lp"][
                c["k"] % 3])
    else:
        def go(P, e=E):
            return direct[c["method"]](U, P, e)
    accepts("potentials %s, edges %s" % (c["P"].shape, E.shape),
            lambda: go(np.array(c["P"])))
    shapes = [(S, S + 1), (S + 1, S), (S + 1, S + 1), (m + 1, S, S),
              (m, S, S + 1), (m, S + 1, S), (m, S + 1, S + 1), (S,),
              (m, S * S + 1)]
    if m > 1:
        shapes.append((m - 1, S, S))
    if S > 1:
        shapes += [(S - 1, S - 1), (m, S - 1, S - 1)]
    sh = shapes[c["k"] % len(shapes)]
    rejects("%s: pairwise potentials of shape %s for %d edges, %d states" % (
        c["method"], sh, m, S), lambda: go(np.zeros(sh)))
    note(m > 0, method=c["method"])


# --------------------------------------------------------------- the learners
@st.composite
def opt_case(draw):
    return dict(what=draw(st.sampled_from(["fw", "nslack", "subgradient",
                                           "perceptron"])),
                k=draw(st.integers(0, 20)), batch=draw(st.booleans()),
                w=gen.arr(draw, (4, 2), "int"), y=gen.ints_cover(draw, 4, 3))


def f_opt(c):
    from pystruct.models import MultiClassClf
    L = learners()
    X, Y = c["w"], c["y"]
    mk = lambda: MultiClassClf(n_features=2, n_classes=3)
    k = c["k"]
    if c["what"] == "fw":
        for v in ("perm", "rnd", "seq"):
            accepts("sample_method=%r" % v, lambda: L["frankwolfe"](
                mk(), sample_method=v, max_iter=2, batch_mode=c["batch"],
                random_state=0).fit(X, Y))
        v = ["foo", None, "random", "", "Perm", "sequential"][k % 6]
        rejects("sample_method=%r" % v, lambda: L["frankwolfe"](
            mk(), sample_method=v, max_iter=2, batch_mode=c["batch"]).fit(
                X, Y))
    elif c["what"] == "nslack":
        for v in (1, 2, 3, 4, 5, 100, -1):
            accepts("batch_size=%r" % v, lambda: L["nslack"](
                mk(), batch_size=v, max_iter=2).fit(X, Y))
        v = [0, -2, -3, -100][k % 4]
        rejects("batch_size=%r" % v, lambda: L["nslack"](
            mk(), batch_size=v, max_iter=2).fit(X, Y))
    elif c["what"] == "subgradient":
        for v in (None, 1, 2, 3, 4, 5, 100, -1):
            accepts("batch_size=%r" % v, lambda: L["subgradient"](
                mk(), batch_size=v, max_iter=2).fit(X, Y))
        v = [1, 2, 3, 100, -1][k % 5]
        rejects("n_jobs=2, batch_size=%r" % v, lambda: L["subgradient"](
            mk(), batch_size=v, n_jobs=2, max_iter=2).fit(X, Y))
    else:
        for v in (True, False, -1, 0, 1, 2):
            accepts("average=%r" % v, lambda: L["perceptron"](
                mk(), average=v, max_iter=3, batch=c["batch"]).fit(X, Y))
        v = [-2, -3, -10][k % 3]
        rejects("average=%r" % v, lambda: L["perceptron"](
            mk(), average=v, max_iter=3, batch=c["batch"]).fit(X, Y))
    note(True, what=c["what"])


# ------------------------------------------------------- who sizes the model
@st.composite
def fit_case(draw):
    name = draw(st.sampled_from(["nslack", "oneslack", "subgradient",
                                 "frankwolfe", "perceptron", "latent",
                                 "sublatent"]))
    kind = draw(st.sampled_from(
        ["latgraph", "latgrid", "latnode"] if name in ("latent", "sublatent")
        else ["graph", "chain", "grid", "edge", "multilabel", "multiclass",
              "binary"]))
    D = zoo.draw_dataset(draw, kind, 1, 4, cap=60, max_nodes=4, project=True,
                         profs=["tie", "small"], min_states=2,
                         graph_kinds=gen.FOREST_KINDS)
    return dict(D=D, name=name, init=draw(st.booleans()),
                base=draw(st.sampled_from(["nslack", "oneslack"])),
                iters=draw(st.integers(1, 3)))


def f_fit(c):
    """fit has the model sized by the training data, unless told not to: then
    any data that fit the model's sizes are accepted, all labels present or
    not."""
    D, name = c["D"], c["name"]
    kind = D[0]["kind"]
    latent = name in ("latent", "sublatent")
    X, Y = zoo.get_XY(D)
    if kind == "multilabel":
        X, Y = np.array(X), np.array(Y)
    kw = {}
    if latent:
        kw["H_init"] = Y
        Y = [zoo.label_y(d, d["y"]) for d in D]
    model = zoo.make_model(D[0], None if kind in zoo.FLAT else "max-product")
    size = model.size_joint_feature
    calls = []
    own = model.initialize

    def initialize(A, B):
        calls.append((len(A), len(B)))
        if c["init"]:
            return own(A, B)
    model.initialize = initialize
    L = learners()
    if name == "latent":
        lr = L["latent"](L[c["base"]](model, max_iter=c["iters"]),
                         latent_iter=2)
    else:
        lr = L[name](model, max_iter=c["iters"])
    if not c["init"]:
        accepts("%s.fit(initialize=False)" % name, lambda: lr.fit(
            X, Y, initialize=False, **kw))
        check(not calls, "%s.fit(initialize=False) initialises the model",
              name)
    else:
        try:
            with quiet(), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                lr.fit(X, Y, **kw)
        except ValueError:      # the data don't show every label
            pass
        check(calls and calls[0] == (len(X), len(Y)), "%s.fit initialises "
              "the model %r", name, calls)
    check(model.size_joint_feature == size, "%s.fit resized the model", name)
    note(not c["init"] or latent, name=name, init=c["init"])


LEGS = [
    Leg("fit", fit_case(), f_fit, quick=250, shards=1,
        rule="fit told not to initialise, or a latent model"),
    Leg("initialize", init_case(), f_init, quick=2500, shards=3,
        rule="a contradiction, or a size left to be inferred"),
    Leg("corrupt", bad_case(), f_bad, quick=4000, shards=4,
        rule="a corruption applicable to the model"),
    Leg("typed", typed_case(), f_typed, quick=3000, shards=3,
        rule="a corruption applicable to the sample"),
    Leg("potentials", pot_case(), f_pot, quick=1000, shards=1,
        rule="at least one edge"),
    Leg("options", opt_case(), f_opt, quick=80, shards=1, rule="every case")]
RULE = "see each leg"
