"""Instances of realistic size.  The other checks enumerate labellings, which
keeps their instances small; here the oracle is one that scales (the
documented energy, dynamic programming on forests, separable problems,
closed forms), and the instances have hundreds of nodes, states, samples or
weights.  Sizes are drawn by Hypothesis, the bulk data from a drawn seed."""
import numpy as np
from hypothesis import strategies as st

from .. import ref, zoo
from ..core import Leg, note
from ..zoo import check, close
from .learn import learners, quiet

RULE = ("cases: model kind, size and data seed; non-trivial: more than 127 "
        "nodes, states, edges or samples")
ASSUMPTIONS = ["optima of large instances are only compared where a scalable "
               "oracle exists: forests (dynamic programming) and problems "
               "with silent edges"]

SIZED = ["graph", "chain", "grid", "dgrid", "edge", "multilabel", "latgraph",
         "latgrid", "latdgrid", "latnode", "eflatnode", "typed"]


def vals(rng, shape, prof):
    if prof == "tie":
        return rng.randint(-1, 2, size=shape).astype(float)
    if prof == "quarter":
        return rng.randint(-64, 65, size=shape) / 4.
    return rng.uniform(-2, 2, size=shape)


def forest_edges(rng, n, shape):
    """Random forest on n nodes, random orientation, order and numbering."""
    i = np.arange(1, n)
    if shape == "chain":
        par = i - 1
    elif shape == "star":
        par = np.zeros_like(i)
    elif shape == "deep":
        par = np.maximum(0, i - rng.randint(1, 4, size=n - 1))
    else:
        par = (rng.uniform(size=n - 1) * i).astype(int)
    E = np.c_[par, i].reshape(-1, 2)
    if shape == "forest":
        E = E[rng.uniform(size=len(E)) < 0.8]
    flip = rng.uniform(size=len(E)) < 0.5
    E[flip] = E[flip][:, ::-1]
    E = rng.permutation(n)[E]
    return E[rng.permutation(len(E))]


def loopy_edges(rng, n, m):
    """m different random pairs."""
    if n < 2:
        return np.zeros((0, 2), dtype=int)
    P = rng.randint(0, n, size=(3 * m, 2))
    P = P[P[:, 0] != P[:, 1]]
    _, first = np.unique(np.sort(P, axis=1), axis=0, return_index=True)
    return P[np.sort(first)][:m]


def build(spec):
    """The zoo case of a spec."""
    k, n, S = spec["kind"], spec["n"], spec["S"]
    rng = np.random.RandomState(spec["seed"])
    prof = spec["prof"]
    F = spec["F"]
    c = dict(kind=k, F=F, S=S)
    forest = spec.get("graph")
    if k == "typed":
        T = c["T"] = 2 + spec["seed"] % 2
        c["ns"] = [int(v) for v in rng.multinomial(n, [1. / T] * T)]
        c["Ss"] = [int(v) for v in rng.randint(2, max(3, S), size=T)]
        c["Fs"] = [F] * T
        nef = rng.randint(1, 3, size=(T, T))
        c["nef"] = np.triu(nef) + np.triu(nef, 1).T
        c["x"] = [vals(rng, (c["ns"][t], F), prof) for t in range(T)]
        c["x_none"] = [False] * T
        c["E"], c["EF"], c["e_none"] = [], [], []
        for p in range(T * T):
            a, b = p // T, p % T
            m = n if min(c["ns"][a], c["ns"][b]) > 1 else 0
            P = np.c_[rng.randint(0, max(1, c["ns"][a]), size=m),
                      rng.randint(0, max(1, c["ns"][b]), size=m)]
            P = P.reshape(-1, 2)
            if a == b:
                P = P[P[:, 0] < P[:, 1]]
            P = np.unique(P, axis=0).astype(int).reshape(-1, 2)
            P = P[rng.permutation(len(P))]
            c["E"].append(P)
            c["EF"].append(vals(rng, (len(P), c["nef"][a, b]), prof))
            c["e_none"].append(False)
        c["cw"] = None if spec["seed"] % 3 else \
            [rng.randint(1, 5, size=s) / 2. for s in c["Ss"]]
        c["w"] = vals(rng, zoo.wsize(c), prof)
        c["y"] = np.concatenate([rng.randint(0, s, size=m) for s, m in
                                 zip(c["Ss"], c["ns"])])
        return c
    if k == "multilabel":
        S = c["S"] = 2
        c["x"] = vals(rng, F, prof)
    elif k in ("latnode", "eflatnode"):
        nl = c["n_labels"] = max(2, S // 2)
        nh = c["n_hidden_states"] = max(1, S - nl)
        S = c["S"] = nl + nh
        nhid = c["n_hidden"] = n // 3
        c["n_visible"] = n - nhid
        c["lnf"] = bool(spec["seed"] % 2)
        c["x"] = vals(rng, (n if c["lnf"] else n - nhid, F), prof)
    elif k in zoo.GRIDS:
        H = c["H"] = max(1, min(n, spec["H"]))
        c["shape"] = [H, max(1, n // H)]
        n = H * c["shape"][1]
        c["nbh"] = 8 if spec["seed"] % 2 else 4
        c["x"] = vals(rng, tuple(c["shape"]) + (F,), prof)
    else:
        c["x"] = vals(rng, (n, F), prof)
    if k in ("latgraph", "latgrid", "latdgrid"):
        nl = c["n_labels"] = S if S > 60 else max(2, S // 3)
        spl = c["spl_list"] = [int(v) for v in rng.randint(
            1, 3 if nl > 60 else 6, size=nl)]
        c["spl"] = list(spl)
        S = c["S"] = sum(spl)
    c["n"] = n
    if k in ("graph", "chain"):
        c["directed"] = bool(rng.randint(2))
    if k not in zoo.GRIDS and k != "chain":
        c["edges"] = (forest_edges(rng, n, forest) if forest else
                      loopy_edges(rng, n, 2 * n)).astype(int)
    if k in ("edge", "eflatnode"):
        nef = c["nef"] = 1 + int(rng.randint(3))
        c["ef"] = vals(rng, (len(c["edges"]), nef), prof)
        role = rng.randint(0, 3, size=nef)
        c["sym"] = [int(i) for i in np.where(role == 1)[0]]
        c["anti"] = [int(i) for i in np.where(role == 2)[0]]
    if k in ("graph", "chain", "edge", "latnode", "eflatnode"):
        m = c.get("n_labels", S)
        c["cw"] = None if rng.randint(2) else rng.randint(1, 9, size=m) / 4.
    c["w"] = vals(rng, zoo.wsize(c), prof)
    if spec.get("project"):
        c["w"] = zoo.project_w(c, c["w"])
    if k in ("latnode", "eflatnode"):
        y = rng.randint(0, nl, size=n)
        y[c["n_visible"]:] = rng.randint(0, nh, size=c["n_hidden"])
        c["y"] = y
    else:
        c["y"] = rng.randint(0, S, size=n)
    return c


@st.composite
def specs(draw, kinds, n=(2, 400), S=(2, 12), weight=3e6, **kw):
    k = draw(st.sampled_from(kinds))
    hi = n[1]
    s = draw(st.one_of(st.integers(S[0], S[1]), st.integers(S[0], 4)))
    # keep the number of pairwise scores of the instance in bounds
    hi = max(n[0], min(hi, int(weight / (s * s * 4))))
    nn = draw(st.one_of(st.integers(n[0], hi), st.integers(
        min(hi, 120), hi)))
    d = dict(kind=k, n=nn, S=s, F=draw(st.integers(1, 3)),
             seed=draw(st.integers(0, 10 ** 6)),
             prof=draw(st.sampled_from(["quarter", "tie", "real"])))
    if k in zoo.GRIDS:
        d["H"] = draw(st.sampled_from([1, 2, 7, 12, 20, 3]))
    d.update(kw)
    return d


def labels_ok(c, model, y):
    if c["kind"] in ("latgraph", "latgrid", "latdgrid", "latnode",
                     "eflatnode"):
        got = np.asarray(model.label_from_latent(zoo.to_model(c, y)))
        check(np.array_equal(got, zoo.label_y(c, y)), "labels of the states "
              "%s are %s", zoo.to_model(c, y).tolist(), got.tolist())


# ------------------------------------------------------------ energy identity
def f_identity(spec):
    c = build(spec)
    model = zoo.make_model(c)
    x = zoo.get_x(c)
    rng = np.random.RandomState(spec["seed"] + 1)
    y = np.asarray(c["y"])
    prob = zoo.problem(c)
    k = zoo.wsize(c)
    ym = zoo.to_model(c, y)
    jf = np.asarray(model.joint_feature(x, ym), dtype=float)
    check(jf.shape == (k,) and model.size_joint_feature == k, "joint feature "
          "of shape %r, size_joint_feature %r, documented %d", jf.shape,
          model.size_joint_feature, k)
    s = ref.score(prob, y)
    sc = ref.magnitude(prob)
    labels_ok(c, model, y)
    got = float(np.dot(c["w"], jf))
    check(close(got, s, sc), "w.joint_feature = %r but the documented score "
          "is %r", got, s)
    for w in (rng.randint(-3, 4, size=k), np.eye(1, k, rng.randint(k))[0],
              np.eye(1, k, k - 1 - rng.randint(min(k, 9)))[0]):
        p = zoo.problem(c, w)
        check(close(float(jf @ w), ref.score(p, y), ref.magnitude(p)),
              "w.joint_feature = %r for other weights, documented %r",
              float(jf @ w), ref.score(p, y))
    # a near labelling: losses and differences are local
    y2 = y.copy()
    sizes = [len(a) for a in zoo.allowed(c)]
    some = rng.choice(len(y), size=max(1, len(y) // 3), replace=False)
    for i in some:
        y2[i] = (y2[i] + 1) % sizes[i]
    ym2 = zoo.to_model(c, y2)
    s2 = ref.score(prob, y2)
    got = float(np.dot(c["w"], model.joint_feature(x, ym2)))
    check(close(got, s2, sc), "w.joint_feature = %r but the documented score "
          "is %r", got, s2)
    m = zoo.max_loss_ref(c, y)
    for a, b, am, bm in ((y, y2, ym, ym2), (y2, y, ym2, ym), (y, y, ym, ym)):
        want = zoo.loss_ref(c, a, b)
        got = float(model.loss(am, bm))
        check(close(got, want, 1 + m), "loss %r, documented %r", got, want)
    if c["kind"] not in ("latgraph", "latgrid", "latdgrid", "latnode",
                         "eflatnode"):
        check(close(float(model.max_loss(ym)), m, 1 + m), "max_loss %r, "
              "documented %r", model.max_loss(ym), m)
    bj = np.asarray(model.batch_joint_feature([x, x, x], [ym, ym2, ym]))
    want = 2 * jf + np.asarray(model.joint_feature(x, ym2))
    check(np.allclose(bj, want, rtol=1e-9, atol=1e-9 *
                      (1 + np.abs(want).max())), "batch joint feature isn't "
          "the sum of the joint features")
    note(len(y) > 127 or max(sizes) > 127, kind=c["kind"])


# ------------------------------------------------------------ exact inference
FOREST = ["graph", "chain", "edge", "multilabel", "latnode", "eflatnode",
          "latgraph"]


@st.composite
def forest_spec(draw):
    d = draw(specs(FOREST, weight=2e6))
    d["graph"] = draw(st.sampled_from(["forest", "chain", "star", "deep",
                                       "tree"]))
    d["project"] = True     # antisymmetric features only act on projections
    d["aug"] = draw(st.booleans())
    return d


def f_forest(spec):
    c = build(spec)
    model = zoo.make_model(c, "max-product")
    x, w = zoo.get_x(c), np.array(c["w"])
    prob = zoo.problem(c)
    ym = zoo.to_model(c, c["y"])
    sc = ref.magnitude(prob)
    if spec["aug"]:
        prob = zoo.augmented(c, prob, c["y"])
        sc += zoo.max_loss_ref(c, c["y"])
        yh = model.loss_augmented_inference(x, ym, w)
    else:
        yh = model.inference(x, w)
    v = zoo.from_model(c, yh, "inference")
    best = ref.forest_max(prob)
    got = ref.score(prob, v)
    check(close(got, best, sc, 1e-8), "score %r, the optimum is %r", got,
          best)
    if spec["aug"]:
        a = float(np.dot(w, model.joint_feature(x, yh))) + \
            float(model.loss(ym, yh))
        check(close(a, best, sc, 1e-8), "score plus loss %r, the optimum is "
              "%r", a, best)
    note(len(v) > 127, kind=c["kind"], graph=spec["graph"])


# ------------------------------------- separable problems, any graph, any method
@st.composite
def silent_spec(draw):
    d = draw(specs(SIZED, n=(2, 200), S=(2, 6), weight=1e5))
    d["method"] = draw(st.sampled_from(["max-product", "ad3", "lp", "ad3+",
                                        "unary"]))
    if d["method"] in ("lp", "ad3+"):
        d["n"] = min(d["n"], 60)
    if d["kind"] == "typed":
        d["method"] = "ad3"
    if d["method"] == "ad3+" and d["kind"] not in ("edge", "dgrid",
                                                   "multilabel", "latdgrid"):
        d["method"] = "ad3"
    if d["kind"] in ("latnode", "eflatnode") and d["method"] == "lp":
        d["method"] = "max-product"
    d["aug"] = draw(st.booleans())
    return d


def f_silent(spec):
    """With silent edges every node takes its own best state."""
    c = build(spec)
    w = np.array(c["w"])
    _, _, P = zoo.full_potentials(c)
    nu = {"multilabel": lambda: c["n"] * c["F"],
          "typed": lambda: sum(s * f for s, f in zip(c["Ss"], c["Fs"]))}.get(
        c["kind"], lambda: c["F"] * (c["n_labels"] if c["kind"] in (
            "latnode", "eflatnode") and not c["lnf"] else c["S"]))()
    w[nu:] = 0
    c["w"] = w
    model = zoo.make_model(c, spec["method"])
    x = zoo.get_x(c)
    prob = zoo.problem(c)
    sc = ref.magnitude(prob)
    ym = zoo.to_model(c, c["y"])
    if spec["aug"] and spec["method"] != "unary":
        prob = zoo.augmented(c, prob, c["y"])
        sc += zoo.max_loss_ref(c, c["y"])
        yh = model.loss_augmented_inference(x, ym, w)
    else:
        yh = model.inference(x, w)
    if c["kind"] in zoo.GRIDS and np.ndim(yh) == 1:
        yh = yh.reshape(c["shape"])
    v = zoo.from_model(c, yh, "inference")
    tol = 1e-9 if spec["method"] in ("max-product", "unary") else 1e-4
    for i, u in enumerate(prob[0]):
        if u[v[i]] < u.max() - tol * (1 + np.abs(u).max()):
            check(False, "%s: all edges are silent; node %d of %d takes a "
                  "state of score %r, its best is %r", spec["method"], i,
                  len(v), float(u[v[i]]), float(u.max()))
    note(len(v) > 127, kind=c["kind"], method=spec["method"])


# ------------------------------------------------------------ graphs and grids
@st.composite
def shape_spec(draw):
    big = draw(st.integers(0, 3))
    H = draw(st.integers(1, 40))
    W = draw(st.integers(1, 40))
    if big == 3:
        H, W = draw(st.integers(150, 320)), draw(st.integers(150, 320))
    return dict(H=H, W=W, nbh=draw(st.sampled_from([4, 8])),
                n=draw(st.integers(1, 1500)), S=draw(st.integers(1, 320)),
                seed=draw(st.integers(0, 10 ** 6)),
                graph=draw(st.sampled_from(["forest", "chain", "star", "deep",
                                            "tree"])))


def f_shapes(c):
    from pystruct.utils import (make_grid_edges, edge_list_to_features,
                                expand_sym, compress_sym)
    from pystruct.utils.graph_functions import is_forest
    from pystruct.models.chain_crf import make_chain_edges
    H, W = c["H"], c["W"]
    x = np.zeros((H, W, 1))
    at = np.arange(H * W, dtype=np.int64).reshape(H, W)
    want = [np.c_[at[:, :-1].ravel(), at[:, 1:].ravel()],
            np.c_[at[:-1].ravel(), at[1:].ravel()]]
    if c["nbh"] == 8:
        want += [np.c_[at[1:, :-1].ravel(), at[:-1, 1:].ravel()],
                 np.c_[at[:-1, :-1].ravel(), at[1:, 1:].ravel()]]

    def pairs(E):
        E = np.asarray(E).astype(np.int64).reshape(-1, 2)
        E = E[:, 0] * (H * W) + E[:, 1]
        return np.sort(E)
    got = make_grid_edges(x, neighborhood=c["nbh"], return_lists=True)
    check(len(got) == len(want), "%d directions", len(got))
    for g, t in zip(got, want):
        check(np.array_equal(pairs(g), pairs(t)), "edges of a %dx%d grid",
              H, W)
    E = make_grid_edges(x, neighborhood=c["nbh"])
    check(np.array_equal(E, np.vstack(got)), "list and array of edges differ")
    ef = np.asarray(edge_list_to_features(got))
    check(ef.shape == (len(E), len(got)) and np.array_equal(
        ef, np.repeat(np.eye(len(got)), [len(g) for g in got], axis=0)),
        "edge features of a grid aren't its directions")
    # chains, forests, compressed matrices
    n = c["n"]
    e = np.asarray(make_chain_edges(np.zeros((n, 1))))
    i = np.arange(n - 1)
    check(e.shape == (n - 1, 2) and np.array_equal(e[:, 0], i) and
          np.array_equal(e[:, 1], i + 1), "edges of a chain of %d nodes", n)
    rng = np.random.RandomState(c["seed"])
    E = forest_edges(rng, n, c["graph"])
    check(bool(is_forest(E, n)), "a forest of %d nodes isn't one", n)
    if len(E) > 1:
        # any further edge inside a tree of the forest closes a cycle
        comp = ref.components(n, E)
        a, b = rng.randint(0, n, size=2)
        if a != b and comp[a] == comp[b]:
            E2 = np.vstack([E, [[a, b]]])
            E2 = E2[rng.permutation(len(E2))]
            check(not is_forest(E2, n), "%d edges with a cycle on %d nodes "
                  "pass as a forest", len(E2), n)
    S = c["S"]
    M = rng.randint(-50, 51, size=(S, S)).astype(float)
    M = M + M.T
    v = compress_sym(M, make_symmetric=False)
    check(v.shape == (S * (S + 1) // 2,), "compressed size %r of %d", v.shape,
          S)
    check(np.array_equal(v, M[np.tril_indices(S)]), "compressed matrix")
    check(np.array_equal(expand_sym(v), M), "expand(compress(M)) != M for "
          "%dx%d", S, S)
    note(n > 127 or H * W > 127)


# ---------------------------------------------------------------- many states
@st.composite
def states_spec(draw):
    return dict(kind=draw(st.sampled_from(["multiclass", "graph", "edge",
                                           "latgraph", "chain", "typed"])),
                n=draw(st.integers(1, 6)), S=draw(st.one_of(
                    st.integers(100, 140), st.integers(2, 300))), F=1,
                seed=draw(st.integers(0, 10 ** 6)),
                prof=draw(st.sampled_from(["quarter", "tie", "real"])),
                graph=draw(st.sampled_from(["tree", "chain", "forest"])),
                project=True)


def multiclass(spec):
    rng = np.random.RandomState(spec["seed"])
    S, F = spec["S"], spec["F"] + 1
    return dict(kind="multiclass", S=S, F=F, n=1,
                x=vals(rng, F, spec["prof"]), y=[int(rng.randint(S))],
                w=vals(rng, F * S, spec["prof"]),
                cw=None if rng.randint(2) else rng.randint(1, 9, size=S) / 4.)


def f_states(spec):
    if spec["kind"] == "multiclass":
        c = multiclass(spec)
    else:
        c = build(spec)
    tree = spec["kind"] != "typed"
    single = spec["kind"] == "multiclass"
    model = zoo.make_model(c, None if single else
                           ("max-product" if tree else "ad3"))
    x, w, y = zoo.get_x(c), np.array(c["w"]), np.asarray(c["y"])
    ym = zoo.to_model(c, y)
    prob = zoo.problem(c)
    sc = ref.magnitude(prob)
    jf = np.asarray(model.joint_feature(x, ym), dtype=float)
    check(close(float(jf @ w), ref.score(prob, y), sc), "w.joint_feature = "
          "%r, documented %r", float(jf @ w), ref.score(prob, y))
    m = zoo.max_loss_ref(c, y)
    labels_ok(c, model, y)
    if single or tree:
        aug = zoo.augmented(c, prob, y)
        for p, yh in ((prob, model.inference(x, w)),
                      (aug, model.loss_augmented_inference(x, ym, w))):
            v = zoo.from_model(c, yh, "inference")
            best = ref.forest_max(p)
            check(close(ref.score(p, v), best, sc + m, 1e-8), "score %r, "
                  "the optimum is %r", ref.score(p, v), best)
            want = zoo.loss_ref(c, y, v)
            check(close(float(model.loss(ym, yh)), want, 1 + m), "loss %r, "
                  "documented %r", float(model.loss(ym, yh)), want)
            back = np.asarray(model.joint_feature(x, yh), dtype=float)
            check(close(float(back @ w), ref.score(prob, v), sc), "score of "
                  "the result %r, documented %r", float(back @ w),
                  ref.score(prob, v))
    note(max(len(a) for a in zoo.allowed(c)) > 127, kind=spec["kind"])


# --------------------------------------------------------------- many samples
@st.composite
def many_spec(draw):
    return dict(n=draw(st.one_of(st.integers(1, 400), st.integers(100, 400))),
                S=draw(st.integers(2, 6)), F=draw(st.integers(1, 3)),
                seed=draw(st.integers(0, 10 ** 6)),
                prof=draw(st.sampled_from(["quarter", "tie", "real"])),
                kind=draw(st.sampled_from(["multiclass", "binary", "chain"])),
                jobs=draw(st.sampled_from([1, 1, 2])),
                learner=draw(st.sampled_from(["subgradient", "perceptron",
                                              "oneslack", "nslack"])))


def many(c):
    rng = np.random.RandomState(c["seed"])
    from pystruct import models as M
    n, S, F = c["n"], c["S"], c["F"]
    if c["kind"] == "chain":
        X = [vals(rng, (1 + i % 4, F), c["prof"]) for i in range(n)]
        Y = [rng.randint(0, S, size=len(x)) for x in X]
        model = M.ChainCRF(S, F)
    else:
        X = vals(rng, (n, F), c["prof"])
        if c["kind"] == "binary":
            Y = rng.choice([-1, 1], size=n)
            model = M.BinaryClf(F)
        else:
            Y = rng.randint(0, S, size=n)
            model = M.MultiClassClf(F, S)
    w = vals(rng, model.size_joint_feature, c["prof"])
    return model, X, Y, w


def f_many(c):
    """Prediction, score, objective and batch functions of hundreds of
    samples are those of the samples."""
    from pystruct.utils import objective_primal
    import joblib
    model, X, Y, w = many(c)
    n = c["n"]
    each = [model.inference(x, w) for x in X]
    lr = learners()[c["learner"]](model, n_jobs=c["jobs"])
    lr.w = w
    with joblib.parallel_backend("threading"), quiet():
        got = lr.predict(X)
        acc = lr.score(X, Y)
    check(len(got) == n and all(np.array_equal(a, b) for a, b in
                                zip(got, each)), "predict of %d samples "
          "differs from the samples' inference", n)
    losses = np.array([float(model.loss(y, h)) for y, h in zip(Y, each)])
    top = np.array([float(model.max_loss(y)) for y in Y])
    want = 1. - losses.sum() / top.sum()
    check(close(float(acc), want), "score %r, expected %r", float(acc), want)
    bl = np.asarray(model.batch_loss(Y, each if c["kind"] == "chain" else
                                     np.asarray(each)), dtype=float)
    check(np.allclose(bl, losses), "batch loss differs from the losses")
    jf = np.sum([model.joint_feature(x, y) for x, y in zip(X, Y)], axis=0)
    bj = np.asarray(model.batch_joint_feature(X, Y))
    sc = 1 + float(np.abs(jf).max())
    check(np.allclose(bj, jf, rtol=0, atol=1e-9 * sc * n), "batch joint "
          "feature differs from the sum")
    ba = model.batch_loss_augmented_inference(X, Y, w)
    hinge = 0.
    for x, y, h in zip(X, Y, ba):
        a = model.loss_augmented_inference(x, y, w)
        va, vh = [float(np.dot(w, model.joint_feature(x, v)) +
                        model.loss(y, v)) for v in (a, h)]
        check(close(va, vh, 1 + abs(va)), "batch loss-augmented inference "
              "reaches %r, the single one %r", vh, va)
        hinge += max(0., va - float(np.dot(w, model.joint_feature(x, y))))
    with joblib.parallel_backend("threading"), quiet():
        obj = objective_primal(model, w, X, Y, 0.5, n_jobs=c["jobs"])
    want = 0.5 * hinge + 0.5 * float(w @ w)
    check(close(float(obj), want, 1 + abs(want), 1e-8), "objective %r, "
          "expected %r", float(obj), want)
    note(n > 127, kind=c["kind"])


@st.composite
def train_spec(draw):
    d = draw(many_spec())
    d["n"] = draw(st.one_of(st.integers(101, 230), st.integers(2, 230)))
    d["prof"] = draw(st.sampled_from(["tie", "unit"]))
    d["C"] = draw(st.sampled_from([0.01, 0.1]))
    d["kind"] = draw(st.sampled_from(["multiclass", "binary"]))
    d["learner"] = draw(st.sampled_from(["oneslack", "nslack", "frankwolfe",
                                         "fwbatch", "nslack"]))
    d["batch"] = draw(st.sampled_from([100, 50, 1000]))
    return d


def f_train(c):
    """Training on hundreds of samples reaches the optimum: the duality gap
    is measured by the weights' risk against a subgradient lower bound."""
    if c["prof"] == "unit":
        c = dict(c, prof="quarter")
        scale = 1 / 16.
    else:
        scale = 1.
    model, X, Y, _ = many(c)
    X = X * scale
    n, C = c["n"], c["C"]
    S = 2 if c["kind"] == "binary" else c["S"]
    lab = [-1, 1] if c["kind"] == "binary" else list(range(S))
    Fs = np.array([[np.asarray(model.joint_feature(x, y), dtype=float) -
                    model.joint_feature(x, l) for l in lab]
                   for x, y in zip(X, Y)])
    Ls = np.array([[float(model.loss(y, l)) for l in lab] for y in Y])

    def risk(w):
        return 0.5 * float(w @ w) + C * float(
            np.maximum(0, (Ls - Fs @ w).max(axis=1)).sum())

    # lower bound: a dual point from Frank-Wolfe with exact line search
    def bound(w0):
        wm = np.zeros((n, Fs.shape[2]))
        lm = np.zeros(n)
        w, best = np.zeros(Fs.shape[2]), 0.
        for it in range(60):
            for i in range(n):
                j = int(np.argmax(Ls[i] - Fs[i] @ w))
                ws, ls = C * Fs[i, j], C * Ls[i, j]
                d = wm[i] - ws
                g = (d @ w - (lm[i] - ls)) / (d @ d + 1e-15)
                g = min(1., max(0., g))
                w = w - g * d
                wm[i] = wm[i] - g * d
                lm[i] = lm[i] - g * (lm[i] - ls)
            best = max(best, lm.sum() - 0.5 * float(w @ w))
            if min(risk(w), risk(w0)) - best < 1e-3 * (1 + best):
                break
        return best
    from pystruct import learners as L
    kw = dict(C=C, n_jobs=1)
    tol = 1e-3
    if c["learner"] == "nslack":
        lr = L.NSlackSSVM(model, tol=tol, batch_size=c["batch"],
                          max_iter=2000, **kw)
    elif c["learner"] == "oneslack":
        lr = L.OneSlackSSVM(model, tol=tol, max_iter=5000, **kw)
    else:
        lr = L.FrankWolfeSSVM(model, C=C, tol=tol, max_iter=2000,
                              batch_mode=c["learner"] == "fwbatch",
                              check_dual_every=5, random_state=0,
                              do_averaging=bool(c["seed"] % 2))
    from .learn import fit
    if not fit(lr, X, Y, initialize=False):
        return
    w = np.asarray(lr.w, dtype=float)
    lo = bound(w)
    r = risk(w)
    got = float(lr.primal_objective_curve_[-1])
    done = len(lr.objective_curve_)
    check(close(got, r, 1 + r, 1e-6) or c["learner"] in (
        "nslack", "oneslack"), "final primal value %r, the risk is %r", got,
        r)
    # every learner promises an optimum up to tol per sample
    slack = 2 * tol * C * n + 2 * tol + 5e-3 * (1 + lo)
    if c["learner"] in ("frankwolfe", "fwbatch"):
        slack += float("inf") if done > 390 else 0.
    check(r <= lo + slack, "%s on %d samples: risk %r, the optimum is at "
          "most %r away from %r", c["learner"], n, r, slack, lo)
    note(n > 100, c["learner"], kind=c["kind"])


LEGS = [
    Leg("identity", specs(SIZED), f_identity, quick=240, shards=3,
        rule="more than 127 nodes"),
    Leg("forest", forest_spec(), f_forest, quick=400, shards=3,
        rule="more than 127 nodes"),
    Leg("silent", silent_spec(), f_silent, quick=60, shards=2,
        rule="more than 127 nodes"),
    Leg("shapes", shape_spec(), f_shapes, quick=300,
        rule="more than 127 nodes or cells"),
    Leg("states", states_spec(), f_states, quick=400, shards=2,
        rule="more than 127 states"),
    Leg("samples", many_spec(), f_many, quick=120, shards=2,
        rule="more than 127 samples"),
    Leg("training", train_spec(), f_train, quick=200, shards=3,
        rule="more than 100 samples"),
]
