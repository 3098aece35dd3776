"""C26: equivalent encodings and relabelled problems."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, zoo
from ..core import Leg, note
from ..zoo import check, close
from .infer import BNB, judge, solver_fails
from .learn import quiet

ASSUMPTIONS = [
    "predictions are compared by score; max-product on forests, AD3 with "
    "branch and bound elsewhere (problems AD3 itself gives up on are excused)",
    "relaxed optima are compared by the value lp reports"]
PROF = ["tie", "int", "quarter", "unit", "float", "sparse"]


# ------------------------------------------------------- encodings of a case
def base(c, **kw):
    d = dict(c)
    for k in ("sym", "anti", "ef", "nef", "directed", "nbh", "shape"):
        if k not in kw:
            d.pop(k, None)
    d.update(kw)
    return d


def ident(y):
    return y


def full_w(c, wp):
    """Pairwise weights of the undirected layout as a square matrix."""
    return zoo._sym_from_lower(wp, c["S"])


def split_w(c):
    k = c["S"] * c["F"]
    w = np.asarray(c["w"], dtype=float)
    return w[:k], w[k:]


def to_directed(c):
    """Undirected -> directed with the symmetric matrix."""
    u, p = split_w(c)
    return base(c, directed=True, w=np.hstack([u, full_w(c, p).ravel()]),
                edges=np.array(zoo.edges_of(c), dtype=int).reshape(-1, 2),
                kind="graph", cw=c.get("cw"),
                x=np.asarray(c["x"]).reshape(-1, c["F"])), ident


def chain_to_graph(c):
    return base(c, kind="graph", directed=c["directed"],
                edges=np.array(zoo.edges_of(c), dtype=int).reshape(-1, 2)), ident


def to_edge(c):
    """graph/chain (directed) -> one constant edge feature."""
    g = c if c["directed"] else to_directed(c)[0]
    E = np.array(zoo.edges_of(c), dtype=int).reshape(-1, 2)
    return base(g, kind="edge", nef=1, ef=np.ones((len(E), 1)), sym=[],
                anti=[], edges=E), ident


def to_edge_sym(c):
    """graph undirected -> a symmetric edge feature."""
    u, p = split_w(c)
    E = np.array(zoo.edges_of(c), dtype=int).reshape(-1, 2)
    return base(c, kind="edge", nef=1, ef=np.ones((len(E), 1)), sym=[0],
                anti=[], edges=E, cw=c.get("cw"),
                x=np.asarray(c["x"]).reshape(-1, c["F"]),
                w=np.hstack([u, full_w(c, p).ravel()])), ident


def grid_to_graph(c):
    return base(c, kind="graph", directed=False, cw=None,
                edges=np.array(zoo.edges_of(c), dtype=int).reshape(-1, 2),
                x=np.asarray(c["x"]).reshape(-1, c["F"])), ident


def dgrid_to_edge(c):
    dirs = zoo.grid_edges(c["shape"][0], c["shape"][1], c["nbh"])
    ef = np.concatenate([np.eye(len(dirs))[[i] * len(d)].reshape(
        -1, len(dirs)) for i, d in enumerate(dirs)])
    return base(c, kind="edge", nef=len(dirs), ef=ef, sym=[], anti=[],
                cw=None, edges=np.array(zoo.edges_of(c), dtype=int).reshape(-1, 2),
                x=np.asarray(c["x"]).reshape(-1, c["F"])), ident


def grid_to_dgrid(c):
    u, p = split_w(c)
    k = 2 if c["nbh"] == 4 else 4
    return base(c, kind="dgrid", shape=c["shape"], nbh=c["nbh"],
                w=np.hstack([u] + [full_w(c, p).ravel()] * k)), ident


def edge_to_typed(c):
    cw = c.get("cw")
    return dict(kind="typed", T=1, Ss=[c["S"]], Fs=[c["F"]], ns=[c["n"]],
                nef=np.array([[c["nef"]]]), x=[np.asarray(c["x"])],
                x_none=[False], E=[np.asarray(c["edges"])], EF=[c["ef"]],
                e_none=[False], cw=None if cw is None else [list(cw)],
                w=c["w"], y=c["y"], profiles=c["profiles"]), ident


def to_latent(c):
    """One state per label."""
    if c["kind"] == "graph":
        return base(c, kind="latgraph", n_labels=c["S"], spl=1,
                    spl_list=[1] * c["S"], cw=None), ident
    return base(c, kind="latgrid" if c["kind"] == "grid" else "latdgrid",
                n_labels=c["S"], spl=1, spl_list=[1] * c["S"],
                shape=c["shape"], nbh=c["nbh"]), ident


def to_latnode(c):
    """No hidden node; hidden states only add unused weights."""
    u, p = split_w(c)
    S, nh = c["S"], 2
    P = np.zeros((S + nh, S + nh)) + .5
    P[:S, :S] = full_w(c, p)
    wp = P[np.tril_indices(S + nh)]
    return base(c, kind="latnode", n_labels=S, n_hidden_states=nh, S=S + nh,
                n_visible=c["n"], n_hidden=0, lnf=False,
                w=np.hstack([u, wp])), ident


def multiclass_to_graph(c):
    S, F = c["S"], c["F"]
    return dict(kind="graph", S=S, F=F, n=1, directed=False, cw=c["cw"],
                x=np.asarray(c["x"]).reshape(1, F),
                edges=np.zeros((0, 2), dtype=int), profiles=c["profiles"],
                w=np.hstack([c["w"], np.zeros(S * (S + 1) // 2)]),
                y=np.array(c["y"])), ident


def binary_to_multiclass(c):
    w = np.asarray(c["w"], dtype=float)
    return dict(kind="multiclass", S=2, F=c["F"], cw=None, x=c["x"],
                w=np.hstack([-w / 2, w / 2]), y=c["y"],
                profiles=c["profiles"]), ident


def multilabel_to_edge(c):
    n, F = c["n"], c["F"]
    E = zoo.edges_of(c)
    m = len(E)
    x = np.kron(np.eye(n), np.asarray(c["x"], dtype=float).reshape(1, F))
    w = np.asarray(c["w"], dtype=float)
    u, p = w[:n * F], w[n * F:].reshape(m, 4)
    nef = max(m, 1)
    pw = np.zeros((nef, 4))
    pw[:m] = p
    return dict(kind="edge", S=2, F=n * F, n=n, nef=nef, x=x,
                edges=np.array(E, dtype=int).reshape(-1, 2),
                ef=np.eye(m).reshape(m, nef) if m else np.zeros((0, 1)),
                sym=[], anti=[], cw=None, w=np.hstack([-u, u, pw.ravel()]),
                y=c["y"], profiles=c["profiles"]), ident


def types_merged(c):
    """Several node types with equal state numbers -> one edge-feature
    graph."""
    T = c["T"]
    S = max(c["Ss"])
    # states beyond a type's own are made unreachable by restricting y; only
    # scores of corresponding labellings are compared
    off = np.concatenate([[0], np.cumsum(c["ns"])])
    Foff = np.concatenate([[0], np.cumsum(c["Fs"])])
    n, F = int(off[-1]), int(Foff[-1])
    x = np.zeros((n, F))
    w = np.asarray(c["w"], dtype=float)
    W = np.zeros((S, F))
    o = 0
    for t in range(T):
        s, f = c["Ss"][t], c["Fs"][t]
        W[:s, Foff[t]:Foff[t + 1]] = w[o:o + s * f].reshape(s, f)
        o += s * f
        x[off[t]:off[t + 1], Foff[t]:Foff[t + 1]] = c["x"][t]
    nf = np.asarray(c["nef"]).ravel()
    eoff = np.concatenate([[0], np.cumsum(nf)])
    P = np.zeros((int(eoff[-1]), S, S))
    EF = []
    for p in range(T * T):
        a, b = p // T, p % T
        k = int(nf[p]) * c["Ss"][a] * c["Ss"][b]
        P[eoff[p]:eoff[p + 1], :c["Ss"][a], :c["Ss"][b]] = \
            w[o:o + k].reshape(int(nf[p]), c["Ss"][a], c["Ss"][b])
        o += k
        f = np.zeros((len(c["E"][p]), int(eoff[-1])))
        f[:, eoff[p]:eoff[p + 1]] = c["EF"][p]
        EF.append(f)
    E = np.array(zoo.edges_of(c), dtype=int).reshape(-1, 2)
    return dict(kind="edge", S=S, F=F, n=n, nef=int(eoff[-1]), x=x, edges=E,
                ef=np.vstack(EF), sym=[], anti=[], cw=None,
                w=np.hstack([W.ravel(), P.ravel()]), y=c["y"],
                profiles=c["profiles"], partial=len(set(c["Ss"])) > 1), ident


ENC = {"chain>graph": ("chain", chain_to_graph),
       "graph>directed": ("graph", to_directed),
       "graph>edge": ("graph", to_edge),
       "graph>symmetric edge": ("graph", to_edge_sym),
       "chain>edge": ("chain", to_edge),
       "grid>graph": ("grid", grid_to_graph),
       "grid>dgrid": ("grid", grid_to_dgrid),
       "dgrid>edge": ("dgrid", dgrid_to_edge),
       "edge>typed": ("edge", edge_to_typed),
       "typed>edge": ("typed", types_merged),
       "graph>latent": ("graph", to_latent),
       "grid>latent": ("grid", to_latent),
       "dgrid>latent": ("dgrid", to_latent),
       "graph>latent node": ("graph", to_latnode),
       "multiclass>graph": ("multiclass", multiclass_to_graph),
       "binary>multiclass": ("binary", binary_to_multiclass),
       "multilabel>edge": ("multilabel", multilabel_to_edge)}


# ------------------------------------------------------------------ relations
def renumber(c, perm, inv):
    """Node i becomes perm[i]."""
    p = perm
    n = zoo.n_nodes(c)
    d = dict(c)
    x = np.asarray(c["x"])
    X = np.zeros_like(x)
    X[p] = x
    d["x"] = X
    d["edges"] = p[np.asarray(c["edges"], dtype=int)].reshape(-1, 2)
    y = np.zeros(n, dtype=int)
    y[p] = c["y"]
    d["y"] = y

    def m(v):
        o = np.zeros(n, dtype=int)
        o[p] = v
        return o
    return d, m


def reorder_edges(c, q, flip):
    """Edges in another order; undirected ones turned round."""
    d = dict(c)
    E = np.asarray(c["edges"], dtype=int).reshape(-1, 2)
    q = np.argsort(q[:len(E)], kind="stable")
    E2 = E[q].copy()
    if c["kind"] in ("latgraph", "latnode") or (
            c["kind"] == "graph" and not c["directed"]):
        f = np.asarray(flip[:len(E)], dtype=bool)
        E2[f] = E2[f][:, ::-1]
    if "ef" in c:
        ef = np.asarray(c["ef"])[q]
        if c.get("sym") is not None and len(c["sym"]) == c["nef"]:
            f = np.asarray(flip[:len(E)], dtype=bool)
            E2[f] = E2[f][:, ::-1]
        elif c.get("anti") is not None and len(c["anti"]) == c["nef"]:
            f = np.asarray(flip[:len(E)], dtype=bool)
            E2[f] = E2[f][:, ::-1]
            ef = np.where(f[:, None], -ef, ef)
        d["ef"] = ef
    d["edges"] = E2
    return d, ident


def permute_states(c, s):
    """State a becomes s[a]."""
    S, F = c["S"], c["F"]
    u, p = split_w(c)
    W = np.zeros((S, F))
    W[s] = u.reshape(S, F)
    if c["kind"] == "multiclass":
        rest = []
    elif c["kind"] in ("dgrid", "edge") or c.get("directed"):
        B = p.reshape(-1, S, S)
        N = np.zeros_like(B)
        N[:, s[:, None], s[None, :]] = B
        rest = N.ravel()
    else:
        P = full_w(c, p)
        N = np.zeros_like(P)
        N[np.ix_(s, s)] = P
        rest = N[np.tril_indices(S)]
    d = dict(c, w=np.hstack([W.ravel(), rest]))
    if c.get("cw") is not None:
        v = np.zeros(S)
        v[s] = np.asarray(c["cw"], dtype=float)
        d["cw"] = list(v)
    d["y"] = s[np.asarray(c["y"], dtype=int)]
    if c["kind"] == "multiclass":
        d["y"] = [int(d["y"][0])]
    return d, lambda y: s[np.asarray(y, dtype=int)]


def permute_features(c, f):
    S, F = c["S"], c["F"]
    u, p = split_w(c)
    d = dict(c, x=np.asarray(c["x"])[..., f],
             w=np.hstack([u.reshape(S, F)[:, f].ravel(), p]))
    return d, ident


def permute_edge_features(c, f):
    S = c["S"]
    k = c["nef"] * S * S
    w = np.asarray(c["w"], dtype=float)
    rest, p = w[:-k], w[-k:].reshape(c["nef"], S * S)
    inv = np.argsort(f)
    d = dict(c, ef=np.asarray(c["ef"])[:, f],
             w=np.hstack([rest, p[f].ravel()]),
             sym=[int(inv[i]) for i in c["sym"]],
             anti=[int(inv[i]) for i in c["anti"]])
    return d, ident


def shift(c, v):
    """All states of every node score v.x more: returns the constant too."""
    S, F = c["S"], c["F"]
    u, p = split_w(c)
    d = dict(c, w=np.hstack([(u.reshape(S, F) + v[:F]).ravel(), p]))
    x = np.asarray(c["x"], dtype=float).reshape(-1, F)
    return d, ident, float((x @ v[:F]).sum())


def scale(c, a):
    """Weights a times as large: scores a times as large."""
    return dict(c, w=np.asarray(c["w"], dtype=float) * a), ident


REL = ["renumber", "edges", "states", "features", "edgefeatures", "shift",
       "scale"]
REL_KINDS = dict(renumber=["graph", "edge", "latgraph"],
                 edges=["graph", "edge", "latgraph", "latnode", "eflatnode"],
                 states=["graph", "chain", "grid", "dgrid", "edge",
                         "multiclass"],
                 features=["graph", "chain", "grid", "dgrid", "edge",
                           "multiclass", "latgraph", "latgrid"],
                 edgefeatures=["edge"],
                 shift=["graph", "chain", "grid", "dgrid", "edge",
                        "multiclass", "latgraph", "latgrid", "latdgrid"],
                 scale=[k for k in zoo.CRF_KINDS if k != "typed"]
                 + ["typed", "multiclass"])


# ------------------------------------------------------------------ judgement
def ylists(c, draws):
    A = zoo.allowed(c)
    out = [np.asarray(c["y"], dtype=int)]
    for r in draws:
        out.append(np.array([int(v) % len(a) for v, a in zip(r, A)]))
    return out


def forest(c):
    return ref.is_forest(zoo.n_nodes(c), zoo.edges_of(c))


def method_for(c, mp):
    if c["kind"] in zoo.FLAT:
        return None
    if c["kind"] == "typed":
        return BNB
    return "max-product" if mp else BNB


def jf(c, m, v):
    return np.asarray(m.joint_feature(zoo.get_x(c), zoo.to_model(c, v)),
                      dtype=float)


def compare(c1, c2, ymap, ys, const=0., factor=1., same_jf=False,
            infer=True, what=""):
    mp = forest(c1)
    m1 = zoo.make_model(c1, method_for(c1, mp))
    m2 = zoo.make_model(c2, method_for(c2, mp))
    w1, w2 = np.asarray(c1["w"], float), np.asarray(c2["w"], float)
    for v in ys:
        f1, f2 = jf(c1, m1, v), jf(c2, m2, ymap(v))
        s1, s2 = float(w1 @ f1), float(w2 @ f2)
        mag = float(np.abs(w1) @ np.abs(f1)) + abs(const)
        check(close(s2, factor * s1 + const, (1 + factor) * mag),
              "%s: score of %s is %r, in the other form %r (expected %r)",
              what, v.tolist(), s1, s2, factor * s1 + const)
        if same_jf:
            check(f1.shape == f2.shape and np.allclose(
                f1, f2, rtol=1e-9, atol=1e-9 * (1 + np.abs(f1).max())),
                "%s: joint feature of %s is %s, in the other form %s", what,
                v.tolist(), f1.tolist(), f2.tolist())
    t1, t2 = zoo.to_model(c1, ys[0]), zoo.to_model(c2, ymap(ys[0]))
    for v in ys:
        l1 = float(m1.loss(t1, zoo.to_model(c1, v)))
        l2 = float(m2.loss(t2, zoo.to_model(c2, ymap(v))))
        if not (c1.get("cw") is not None and c2.get("cw") is None):
            check(close(l1, l2), "%s: loss of %s is %r, in the other form %r",
                  what, v.tolist(), l1, l2)
    if not infer:
        return
    prob = zoo.problem(c1)
    for aug in (False, True):
        if aug and c1.get("cw") is not None and c2.get("cw") is None:
            continue
        if aug and factor != 1.:
            continue
        p = zoo.augmented(c1, prob, c1["y"]) if aug else prob
        res = []
        for c, m, y in ((c1, m1, t1), (c2, m2, t2)):
            with quiet():
                r = m.loss_augmented_inference(
                    zoo.get_x(c), y, np.asarray(c["w"], float)) if aug else \
                    m.inference(zoo.get_x(c), np.asarray(c["w"], float))
            res.append(zoo.from_model(c, r, what + " result"))
        # read both back in the first form
        back = unmap(c1, ymap, res[1])
        check(back is not None, "%s: prediction %s has no counterpart", what,
              res[1].tolist())
        a, b = ref.score(p, res[0]), ref.score(p, back)
        tol = 1e-6 * (ref.magnitude(p) + 1)
        if abs(a - b) > tol:
            solver = not mp and any(
                method_for(c, mp) == BNB for c in (c1, c2))
            solver = solver or "typed" in (c1["kind"], c2["kind"])
            if solver and solver_fails(p, False):
                note(False, "AD3 gave up")
                return
            check(False, "%s: %spredictions %s and %s, scores %r and %r",
                  what, "loss-augmented " if aug else "", res[0].tolist(),
                  back.tolist(), a, b)


def unmap(c, ymap, y):
    """The labelling of c that ymap sends to y."""
    labs = ref.all_labelings([len(a) for a in zoo.allowed(c)])
    for v in labs:
        if np.array_equal(np.asarray(ymap(v)), y):
            return v
    return None


# ------------------------------------------------------------------------ legs
@st.composite
def enc_case(draw):
    e = draw(st.sampled_from(sorted(ENC)))
    kind = ENC[e][0]
    c = zoo.draw_case(draw, kind, cap=120, max_nodes=5, project=True,
                      profs=PROF, ints_ok=True,
                      min_states=2 if "latent" in e else 1)
    if e in ("graph>directed", "graph>symmetric edge", "graph>latent",
             "graph>latent node") and c["directed"]:
        c["directed"] = False
        c["w"] = gen.arr(draw, zoo.wsize(c), c["profiles"][1])
    if e == "edge>typed":
        c["sym"], c["anti"] = [], []
    return dict(c=c, enc=e, ys=[gen.ints(draw, 12, 12) for _ in range(3)])


def f_enc(k):
    c, e = k["c"], k["enc"]
    d, ymap = ENC[e][1](c)
    ys = ylists(c, k["ys"])
    compare(c, d, ymap, ys, what=e, infer=not d.get("partial"))
    note(len(set(tuple(v.tolist()) for v in ys)) > 1 and
         float(np.abs(c["w"]).max(initial=0)) > 0, enc=e)


@st.composite
def rel_case(draw):
    r = draw(st.sampled_from(REL))
    kind = draw(st.sampled_from(REL_KINDS[r]))
    kw = dict(profs=PROF)
    c = zoo.draw_case(draw, kind, cap=120, max_nodes=5, project=True, **kw)
    n = zoo.n_nodes(c)
    k = dict(c=c, rel=r, ys=[gen.ints(draw, 12, 12) for _ in range(3)])
    if r == "renumber":
        k["p"] = gen.perm(draw, n)
    elif r == "edges":
        k["p"] = gen.perm(draw, 30)
        k["flip"] = gen.ints(draw, 30, 2)
    elif r == "states":
        k["p"] = gen.perm(draw, c["S"])
    elif r == "features":
        k["p"] = gen.perm(draw, c["F"])
    elif r == "edgefeatures":
        k["p"] = gen.perm(draw, c["nef"])
    elif r == "shift":
        k["v"] = gen.arr(draw, c["F"], "quarter")
    elif r == "scale":
        k["a"] = draw(st.sampled_from([.5, 2., 8., .125, 3.]))
    return k


def f_rel(k):
    c, r = k["c"], k["rel"]
    const, factor, same = 0., 1., False
    if r == "renumber":
        d, ymap = renumber(c, np.asarray(k["p"]), None)
        same = True
    elif r == "edges":
        d, ymap = reorder_edges(c, np.asarray(k["p"]), np.asarray(k["flip"]))
        same = True
    elif r == "states":
        d, ymap = permute_states(c, np.asarray(k["p"]))
    elif r == "features":
        d, ymap = permute_features(c, np.asarray(k["p"]))
    elif r == "edgefeatures":
        d, ymap = permute_edge_features(c, np.asarray(k["p"]))
    elif r == "shift":
        d, ymap, const = shift(c, np.asarray(k["v"]))
    else:
        d, ymap = scale(c, k["a"])
        factor = k["a"]
    ys = ylists(c, k["ys"])
    compare(c, d, ymap, ys, const, factor, same, what=r)
    moved = r in ("shift", "scale") or any(
        int(v) != i for i, v in enumerate(np.asarray(k["p"])))
    note(moved and float(np.abs(c["w"]).max(initial=0)) > 0, rel=r,
         kind=c["kind"])


# ------------------------------------------------------------------ components
UNION = ["graph", "edge", "latgraph", "latnode", "eflatnode"]


@st.composite
def union_case(draw):
    kind = draw(st.sampled_from(UNION))
    D = zoo.draw_dataset(draw, kind, 2, 2, cap=16, max_nodes=3, project=True,
                         profs=PROF)
    return dict(D=D, ys=[gen.ints(draw, 12, 12) for _ in range(3)])


def f_union(k):
    a, b = k["D"]
    d = dict(a)
    if a["kind"] in ("latnode", "eflatnode"):
        # visible nodes of both first, then the hidden ones
        va, vb, ha = a["n_visible"], b["n_visible"], a["n_hidden"]
        ma = np.array(list(range(va)) + [va + vb + i for i in range(ha)])
        mb = np.array([va + i for i in range(vb)] +
                      [va + vb + ha + i for i in range(b["n_hidden"])])
        d["n_visible"], d["n_hidden"] = va + vb, ha + b["n_hidden"]
    else:
        ma = np.arange(a["n"])
        mb = a["n"] + np.arange(b["n"])
    n = d["n"] = a["n"] + b["n"]
    xa, xb = np.asarray(a["x"]), np.asarray(b["x"])
    x = np.zeros((len(xa) + len(xb), a["F"]))
    x[ma[:len(xa)]] = xa
    x[mb[:len(xb)]] = xb
    d["x"] = x
    Ea = np.asarray(a["edges"], dtype=int).reshape(-1, 2)
    Eb = np.asarray(b["edges"], dtype=int).reshape(-1, 2)
    d["edges"] = np.vstack([ma[Ea], mb[Eb]]).astype(int)
    if "ef" in a:
        d["ef"] = np.vstack([a["ef"], b["ef"]])

    def join(u, v):
        o = np.zeros(n, dtype=int)
        o[ma], o[mb] = u, v
        return o
    d["y"] = join(a["y"], b["y"])
    mp = forest(d)
    m = zoo.make_model(d, method_for(d, mp))
    w = np.asarray(a["w"], float)
    for r in k["ys"]:
        u = np.array([int(v) % len(s) for v, s in zip(r, zoo.allowed(a))])
        v = np.array([int(t) % len(s) for t, s in zip(r[::-1],
                                                      zoo.allowed(b))])
        f = jf(d, m, join(u, v))
        g = jf(a, m, u) + jf(b, m, v)
        check(f.shape == g.shape and np.allclose(f, g, rtol=1e-9, atol=1e-9),
              "joint feature of two components %s, sum of both %s",
              f.tolist(), g.tolist())
        l = float(m.loss(zoo.to_model(d, d["y"]),
                         zoo.to_model(d, join(u, v))))
        s = sum(float(m.loss(zoo.to_model(e, e["y"]), zoo.to_model(e, t)))
                for e, t in ((a, u), (b, v)))
        check(close(l, s), "loss of two components %r, sum of both %r", l, s)
    for aug in (False, True):
        tot, probs = 0., []
        for e in (a, b, d):
            p = zoo.problem(e)
            if aug:
                p = zoo.augmented(e, p, e["y"])
            with quiet():
                r = m.loss_augmented_inference(
                    zoo.get_x(e), zoo.to_model(e, e["y"]), w) if aug else \
                    m.inference(zoo.get_x(e), w)
            probs.append((p, ref.score(p, zoo.from_model(e, r, "result"))))
        (pa, sa), (pb, sb), (pd, sd) = probs
        mag = ref.magnitude(pd) + 1
        if abs(sa + sb - sd) > 1e-6 * mag:
            if not mp and any(solver_fails(p, False) for p, _ in probs):
                note(False, "AD3 gave up")
                return
            check(False, "%spredictions of two components score %r and %r, of "
                  "the union %r", "loss-augmented " if aug else "", sa, sb, sd)
    note(len(Ea) + len(Eb) > 0 and float(np.abs(w).max(initial=0)) > 0,
         kind=a["kind"])


# --------------------------------------------------------- relaxed optimum
LP_KINDS = ["graph", "edge", "graph", "edge", "dgrid", "latgraph"]


@st.composite
def lp_case(draw):
    kind = draw(st.sampled_from(LP_KINDS))
    c = zoo.draw_case(draw, kind, cap=260, max_nodes=6, project=True,
                      profs=["tie", "int", "quarter", "unit"], max_states=3,
                      min_states=2,
                      graph_kinds=["general", "cycle", "complete"])
    rels = [r for r in ("renumber", "edges", "states", "shift")
            if kind in REL_KINDS[r]]
    r = draw(st.sampled_from(rels))
    k = dict(c=c, rel=r, p=gen.perm(draw, 30), flip=gen.ints(draw, 30, 2),
             v=gen.arr(draw, c["F"], "quarter"))
    if r == "renumber":
        k["p"] = gen.perm(draw, zoo.n_nodes(c))
    elif r == "states":
        k["p"] = gen.perm(draw, c["S"])
    return k


def f_lp(k):
    c, r = k["c"], k["rel"]
    const = 0.
    if r == "renumber":
        d, ymap = renumber(c, np.asarray(k["p"]), None)
    elif r == "edges":
        d, ymap = reorder_edges(c, np.asarray(k["p"]), np.asarray(k["flip"]))
    elif r == "states":
        d, ymap = permute_states(c, np.asarray(k["p"]))
    else:
        d, ymap, const = shift(c, np.asarray(k["v"]))
    prob = zoo.problem(c)
    vals = []
    for e in (c, d):
        m = zoo.make_model(e, "lp")
        with quiet():
            y, en = m.inference(zoo.get_x(e), np.asarray(e["w"], float),
                                relaxed=True, return_energy=True)
        vals.append(-float(en))
    mag = ref.magnitude(prob) + abs(const) + 1
    check(abs(vals[1] - vals[0] - const) <= 1e-5 * mag, "%s: relaxed optimum "
          "%r, in the other form %r (expected %r)", r, vals[0], vals[1],
          vals[0] + const)
    best = ref.brute_max(prob)
    check(vals[0] >= best - 1e-5 * mag, "relaxed optimum %r below the "
          "integral one %r", vals[0], best)
    note(not forest(c), rel=r, kind=c["kind"])


LEGS = [
    Leg("encodings", enc_case(), f_enc, quick=4000, shards=4,
        rule="several labellings, weights not all zero"),
    Leg("relations", rel_case(), f_rel, quick=4000, shards=4,
        rule="a permutation that moves something, a shift or a scale"),
    Leg("components", union_case(), f_union, quick=2000, shards=2,
        rule="at least one edge, weights not all zero"),
    Leg("relaxed", lp_case(), f_lp, quick=1600, shards=3,
        rule="the graph has a cycle")]
RULE = "see each leg"
