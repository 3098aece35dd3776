"""C24: graph and matrix helpers, exhaustive search, the constraint finder."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, zoo
from ..core import Leg, note
from ..zoo import check, close
from .learn import quiet

ASSUMPTIONS = [
    "searched constraints use exact inference (max-product on forests)",
    "ties between optima are compared by score"]


# ----------------------------------------------------------- symmetric helper
@st.composite
def sym_case(draw):
    n = draw(st.one_of(st.integers(1, 8), st.integers(9, 60)))
    p = draw(gen.profiles())
    if n > 8:
        p = draw(st.sampled_from(["tie", "int"]))
    k = n * (n + 1) // 2
    # larger ones from a short cycle of drawn numbers
    m = min(k, 40)
    v = np.resize(gen.arr(draw, m, p), k) + (np.arange(k) % 7 if n > 8 else 0)
    M = np.resize(gen.arr(draw, min(n * n, 40), p), (n, n)) + \
        (np.arange(n * n).reshape(n, n) % 11 if n > 8 else 0)
    return dict(v=v, M=M, ints=draw(st.booleans()) and p in ("tie", "int"))


def f_sym(c):
    from pystruct.utils import compress_sym, expand_sym
    v, M = np.array(c["v"]), np.array(c["M"])
    if c["ints"]:
        v, M = v.astype(int), M.astype(int)
    v0, M0 = v.copy(), M.copy()
    n = M.shape[0]
    E = np.asarray(expand_sym(v))
    check(E.shape == (n, n), "expand_sym of %d numbers has shape %s", v.size,
          E.shape)
    check(np.array_equal(E, E.T), "expand_sym isn't symmetric: %s", E)
    check(np.array_equal(E[np.tril_indices(n)], v0), "expand_sym's lower "
          "triangle is %s, given %s", E[np.tril_indices(n)], v0)
    back = np.asarray(compress_sym(E, make_symmetric=False))
    check(back.shape == v0.shape and np.array_equal(back, v0),
          "compress_sym(expand_sym(v)) is %s, v = %s", back, v0)
    S = M + M.T
    E2 = np.asarray(expand_sym(np.asarray(compress_sym(
        S, make_symmetric=False))))
    check(np.array_equal(E2, S), "expand_sym(compress_sym(S)) is %s, S = %s",
          E2, S)
    cm = np.asarray(compress_sym(M))
    check(cm.shape == v0.shape, "compress_sym has shape %s", cm.shape)
    a, b = float((E * M0).sum()), float(np.dot(v0, cm))
    sc = float(np.abs(E * M0).sum())
    check(close(a, b, sc), "<expand_sym(v), M> = %r, <v, compress_sym(M)> = "
          "%r", a, b)
    want = np.array([M0[i, j] + (M0[j, i] if i != j else 0)
                     for i in range(n) for j in range(i + 1)])
    check(np.allclose(cm, want, rtol=1e-12, atol=1e-12), "compress_sym(M) is "
          "%s, entry sums are %s", cm, want)
    # the triangle without symmetrising
    raw = np.asarray(compress_sym(M, make_symmetric=False))
    check(np.array_equal(raw, M0[np.tril_indices(n)]), "compress_sym(M, "
          "make_symmetric=False) is %s", raw)
    check(np.array_equal(v, v0) and np.array_equal(M, M0),
          "an argument was changed")
    note(n > 1 and not np.array_equal(M0, M0.T), n=min(n, 9))


# ------------------------------------------------------------------ the grids
@st.composite
def grid_case(draw):
    H = draw(st.one_of(st.integers(1, 5), st.integers(1, 40)))
    W = draw(st.one_of(st.integers(1, 5), st.integers(1, 40)))
    return dict(H=H, W=W, nbh=draw(st.sampled_from([4, 8])),
                tail=draw(st.sampled_from([[], [1], [3], [0]])),
                bad=draw(st.sampled_from([0, 1, 2, 3, 5, 6, 7, 9, 16, -4,
                                          "8"])),
                dtype=draw(st.sampled_from(["int64", "float64", "uint8"])))


def f_grid(c):
    from pystruct.utils import edge_list_to_features, make_grid_edges
    H, W = c["H"], c["W"]
    x = np.zeros([H, W] + list(c["tail"]), dtype=c["dtype"])
    dirs = zoo.grid_edges(H, W, c["nbh"])
    got = make_grid_edges(x, neighborhood=c["nbh"], return_lists=True)
    flat = np.asarray(make_grid_edges(x, neighborhood=c["nbh"]))
    if c["nbh"] == 4:
        check(np.array_equal(flat, np.asarray(make_grid_edges(x))),
              "the default neighborhood isn't 4")
    check(flat.ndim == 2 and flat.shape[1] == 2 and flat.dtype.kind in "iu",
          "edges of shape %s, dtype %s", flat.shape, flat.dtype)
    check(len(got) == len(dirs), "%d directions, expected %d", len(got),
          len(dirs))
    for k, (g, d) in enumerate(zip(got, dirs)):
        g = np.asarray(g)
        check(g.shape == (len(d), 2), "direction %d has %s edges, expected %d"
              " (%dx%d)", k, g.shape, len(d), H, W)
        a = sorted(map(tuple, g.tolist()))
        check(a == sorted(d), "direction %d of a %dx%d grid: %s", k, H, W,
              a[:20])
    want = [p for g in got for p in map(tuple, np.asarray(g).tolist())]
    check(want == list(map(tuple, flat.tolist())), "the edge list isn't the "
          "directions one after the other")
    pairs = set(frozenset(p) for p in want)
    check(len(pairs) == len(want), "an edge is listed twice")
    f = np.asarray(edge_list_to_features(got))
    check(f.shape == (len(flat), len(dirs)), "edge features of shape %s for "
          "%d edges", f.shape, len(flat))
    k = 0
    for i, d in enumerate(dirs):
        e = np.zeros((len(d), len(dirs)))
        e[:, i] = 1
        check(np.array_equal(f[k:k + len(d)], e), "edge features don't mark "
              "direction %d", i)
        k += len(d)
    try:
        make_grid_edges(x, neighborhood=c["bad"])
    except ValueError:
        pass
    else:
        check(False, "neighborhood=%r accepted", c["bad"])
    note(H > 1 and W > 1, nbh=c["nbh"], square=H == W)


@st.composite
def list_case(draw):
    n = draw(st.integers(1, 5))
    return dict(E=[gen.ints(draw, (draw(st.integers(0, 6)), 2), 50)
                   for _ in range(n)], aslist=draw(st.booleans()))


def f_list(c):
    from pystruct.utils import edge_list_to_features
    E = [np.asarray(e).reshape(-1, 2) for e in c["E"]]
    if c["aslist"] and all(len(e) for e in E):
        f = edge_list_to_features([e.tolist() for e in E])
    else:
        f = edge_list_to_features(E)
    want = np.concatenate([np.eye(len(E))[[i] * len(e)].reshape(-1, len(E))
                           for i, e in enumerate(E)])
    f = np.asarray(f)
    check(f.shape == want.shape and np.array_equal(f, want),
          "edge features %s, expected %s", f.tolist(), want.tolist())
    note(len(set(len(e) for e in E)) > 1)


# ---------------------------------------------------------------- forest test
@st.composite
def forest_case(draw):
    n = draw(st.integers(1, 9))
    kind = draw(st.sampled_from(gen.GRAPH_KINDS + ["tree", "forest"]))
    E = gen.graph(draw, n, kind)
    extra = draw(st.integers(0, 5))
    if extra == 1 and n > 1:
        a, b = int(gen.ints(draw, 1, n)[0]), int(gen.ints(draw, 1, n)[0])
        if a != b:
            E = np.vstack([E, [[a, b]]])
    elif extra == 2 and len(E):
        k = int(gen.ints(draw, 1, len(E))[0])
        E = np.vstack([E, E[k:k + 1, ::(1 if draw(st.booleans()) else -1)]])
    return dict(n=n, E=E, pad=draw(st.integers(0, 3)),
                mode=draw(st.sampled_from(["none", "n", "list"])))


def f_forest(c):
    from pystruct.utils.graph_functions import is_forest
    n = c["n"] + c["pad"]
    E = np.asarray(c["E"], dtype=int).reshape(-1, 2)
    par = list(range(n))

    def find(a):
        while par[a] != a:
            a = par[a]
        return a
    want = True
    for a, b in E.tolist():
        ra, rb = find(a), find(b)
        if ra == rb:
            want = False
        par[ra] = rb
    if c["mode"] == "list":
        got = is_forest([tuple(e) for e in E.tolist()])
    elif c["mode"] == "n":
        got = is_forest(E, n)
    else:
        got = is_forest(E)
    check(bool(got) == want, "is_forest is %r for %s on %d nodes", got,
          E.tolist(), n)
    note(len(E) > 1, forest=want, mode=c["mode"])


# ---------------------------------------------------------- exhaustive search
EXH = ["graph", "chain", "grid", "dgrid", "edge", "latgraph", "latgrid"]


def exh_case():
    return zoo.case_strategy(EXH, cap=100, max_nodes=5, project=True)


def f_exh(c):
    from pystruct.utils import (exhaustive_inference,
                                exhaustive_loss_augmented_inference)
    m = zoo.make_model(c, "max-product")
    x, y, w = zoo.get_x(c), zoo.to_model(c, c["y"]), np.array(c["w"])
    prob = zoo.problem(c)
    aug = zoo.augmented(c, prob, c["y"])
    mag = ref.magnitude(aug)
    for what, p, r in (
            ("exhaustive_inference", prob, exhaustive_inference(m, x, w)),
            ("exhaustive_loss_augmented_inference", aug,
             exhaustive_loss_augmented_inference(m, x, y, w))):
        yh = zoo.from_model(c, r, what)
        best = ref.brute_max(p)
        s = ref.score(p, yh)
        check(close(s, best, mag), "%s found a labelling of score %r, the "
              "best has %r", what, s, best)
    note(len(ref.all_labelings([len(u) for u in prob[0]])) > 2 and
         mag > 0, kind=c["kind"])


# ------------------------------------------------------------ constraint finder
FIND = [k for k in zoo.PAIR + zoo.FLAT if k != "typed"]


@st.composite
def find_case(draw):
    kind = draw(st.sampled_from(FIND))
    c = zoo.draw_case(draw, kind, cap=150, max_nodes=5, project=True,
                      graph_kinds=gen.FOREST_KINDS)
    if kind in zoo.GRIDS and min(c["shape"]) > 1:
        n = max(c["shape"])
        c["shape"] = [1, n]
        c["n"] = n
        c["x"] = gen.arr(draw, (1, n, c["F"]), c["profiles"][0])
        c["y"] = gen.ints(draw, n, c["S"])
    if kind == "multiclass":
        c["rescale_C"] = draw(st.booleans()) and c["cw"] is not None
    A = zoo.allowed(c)
    return dict(c=c, other=[int(v) for v in gen.ints(draw, len(A), 12)],
                given=draw(st.sampled_from(["search", "given", "truth",
                                            "marginal"])),
                diff=draw(st.sampled_from([True, True, False])),
                relaxed=draw(st.booleans()))


def jf_ref(c, m, x, v, y):
    if c.get("rescale_C"):
        return np.asarray(m.joint_feature(x, v, y), dtype=float)
    return np.asarray(m.joint_feature(x, v), dtype=float)


def f_find(k):
    from pystruct.utils import find_constraint
    c = k["c"]
    m = zoo.make_model(c, None if c["kind"] in zoo.FLAT else "max-product")
    x, y, w = zoo.get_x(c), zoo.to_model(c, c["y"]), np.array(c["w"],
                                                              dtype=float)
    A = zoo.allowed(c)
    other = [v % len(a) for v, a in zip(k["other"], A)]
    if k["given"] == "truth":
        other = list(c["y"])
    kw = dict(compute_difference=k["diff"])
    yh = marg = None
    if k["given"] in ("given", "truth"):
        kw["y_hat"] = zoo.to_model(c, other)
    elif k["given"] == "marginal" and c["kind"] in ("graph", "chain", "edge"):
        # indicator marginals stand for the labelling
        S, E = c["S"], zoo.edges_of(c)
        un = np.zeros((c["n"], S))
        un[np.arange(c["n"]), other] = 1
        pw = np.zeros((len(E), S * S))
        for i, (a, b) in enumerate(E):
            pw[i, other[a] * S + other[b]] = 1
        kw["y_hat"] = (un, pw)
        marg = True
    else:
        kw["relaxed"] = k["relaxed"]
        other = None
    r = find_constraint(m, x, y, w, **kw)
    check(isinstance(r, tuple) and len(r) == 4, "find_constraint returns %r",
          r)
    y_hat, d, slack, loss = r
    if marg:
        check(y_hat is kw["y_hat"] or (
            np.array_equal(y_hat[0], kw["y_hat"][0]) and
            np.array_equal(y_hat[1], kw["y_hat"][1])),
            "another labelling than the one given")
    else:
        loc = zoo.from_model(c, y_hat, "y_hat")
        if other is not None:
            check(list(loc) == list(other), "another labelling than the one "
                  "given")
        other = loc
    jh = jf_ref(c, m, x, zoo.to_model(c, other), y)
    jt = jf_ref(c, m, x, y, y)
    want = (jt - jh) if k["diff"] else -jh
    sc = float(np.abs(jt).max(initial=0) + np.abs(jh).max(initial=0))
    check(np.asarray(d).shape == want.shape and
          bool((np.abs(d - want) <= 1e-9 * (1 + sc)).all()),
          "joint-feature difference %s, expected %s", np.asarray(d).tolist(),
          want.tolist())
    L = zoo.loss_ref(c, c["y"], other)
    check(close(float(loss), L), "loss %r, expected %r", loss, L)
    big = float(np.abs(w) @ np.abs(want)) + L
    check(close(float(slack), max(0., L - float(w @ want)), big),
          "slack %r, expected %r", slack, max(0., L - float(w @ want)))
    searched = "y_hat" not in kw
    if searched and k["diff"]:
        labs = ref.all_labelings([len(a) for a in A])
        vals = []
        for v in labs:
            j = jf_ref(c, m, x, zoo.to_model(c, v), y)
            vals.append(zoo.loss_ref(c, c["y"], v) - float(w @ (jt - j)))
        best = max(0., max(vals))
        big = max(big, max(abs(v) for v in vals))
        check(close(float(slack), best, big), "slack %r, the most violated "
              "constraint has %r", slack, best)
    note(L > 0 and bool(np.abs(want).max(initial=0) > 0), kind=c["kind"],
         how=k["given"], rescale=bool(c.get("rescale_C")))


# --------------------------------------------------------- the latent finder
LATF = ["latgraph", "latnode", "eflatnode"]


@st.composite
def lat_case(draw):
    kind = draw(st.sampled_from(LATF))
    return zoo.draw_case(draw, kind, cap=150, max_nodes=5, project=True,
                         profs=["tie", "int", "quarter", "unit"],
                         graph_kinds=gen.FOREST_KINDS)


def f_lat(c):
    from pystruct.utils import find_constraint_latent
    m = zoo.make_model(c, "max-product")
    x, y, w = zoo.get_x(c), zoo.to_model(c, c["y"]), np.array(c["w"],
                                                              dtype=float)
    if c["kind"] != "latgraph":
        # the observed part; latent node models take it without hidden nodes
        y = y[:c["n_visible"]]
    else:
        y = zoo.label_y(c, c["y"])
    h_hat, d, slack, loss = find_constraint_latent(m, x, y, w)
    loc = zoo.from_model(c, h_hat, "h_hat")
    prob = zoo.problem(c)
    lab = zoo.labels_of_states(c)
    labs = ref.all_labelings([len(u) for u in prob[0]])
    aug = zoo.augmented(c, prob, c["y"])
    L = zoo.loss_ref(c, c["y"], loc)
    check(close(float(loss), L), "loss %r, expected %r", loss, L)
    comp = [v for v in labs if all(
        l is None or l[a] == l[b] for l, a, b in zip(lab, v, c["y"]))]
    bc = max(ref.score(prob, v) for v in comp)
    ba = max(ref.score(aug, v) for v in labs)
    mag = ref.magnitude(aug)
    s = ref.score(aug, loc)
    check(close(s, ba, mag), "h_hat has augmented score %r, the best is %r",
          s, ba)
    check(close(float(slack), max(0., ba - bc), mag), "slack %r, expected %r",
          slack, max(0., ba - bc))
    check(close(L - float(w @ np.asarray(d)), ba - bc, mag),
          "loss - <w, difference> = %r, expected %r",
          L - float(w @ np.asarray(d)), ba - bc)
    note(len(comp) > 1 and ba > bc, kind=c["kind"])


# ---------------------------------------------------------- primal objective
@st.composite
def obj_case(draw):
    kind = draw(st.sampled_from(FIND))
    D = zoo.draw_dataset(draw, kind, 1, 4, cap=80, max_nodes=4, project=True,
                         graph_kinds=gen.FOREST_KINDS)
    return dict(D=D, C=draw(st.sampled_from([1.0, 0.1, 17.0])),
                variant=draw(st.sampled_from([None, "n_slack", "one_slack"])),
                jobs=draw(st.sampled_from([1, 1, 2])))


def f_obj(k):
    from pystruct.utils import objective_primal
    D = k["D"]
    m = zoo.make_model(D[0], None if D[0]["kind"] in zoo.FLAT
                       else "max-product")
    X, Y = zoo.get_XY(D)
    w = np.array(D[0]["w"], dtype=float)
    kw = {} if k["variant"] is None else dict(variant=k["variant"])
    with quiet():
        got = objective_primal(m, w, X, Y, k["C"], n_jobs=k["jobs"], **kw)
    tot, mag = 0., 0.
    for d in D:
        p = zoo.problem(d)
        a = zoo.augmented(d, p, d["y"])
        tot += max(0., ref.brute_max(a) - ref.score(p, d["y"]))
        mag += ref.magnitude(a)
    want = k["C"] * tot + .5 * float(w @ w)
    check(close(float(got), want, k["C"] * mag), "objective_primal is %r, "
          "expected %r", got, want)
    note(tot > 0, kind=D[0]["kind"])


LEGS = [
    Leg("symmetric", sym_case(), f_sym, quick=600, shards=1,
        rule="matrix larger than 1x1 and not symmetric"),
    Leg("grids", grid_case(), f_grid, quick=400, shards=1,
        rule="more than one row and column"),
    Leg("edgelists", list_case(), f_list, quick=300, shards=1,
        rule="lists of different lengths"),
    Leg("forest", forest_case(), f_forest, quick=1500, shards=1,
        rule="more than one edge"),
    Leg("exhaustive", exh_case(), f_exh, quick=600, shards=4,
        rule="more than two labellings, some non-zero score"),
    Leg("find", find_case(), f_find, quick=2000, shards=3,
        rule="positive loss and a non-zero joint-feature difference"),
    Leg("findlatent", lat_case(), f_lat, quick=900, shards=2,
        rule="several completions and a violated constraint"),
    Leg("objective", obj_case(), f_obj, quick=500, shards=2,
        rule="positive slack")]
RULE = "see each leg"
