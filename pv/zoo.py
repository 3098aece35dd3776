"""The model zoo: generated instances of every model class together with an
independent reading of its documentation (parameter layout, edges, labels,
losses).  A case is plain data:

    kind, model parameters, x (feats/edges/...), y (local states), w
"""
import numpy as np
from hypothesis import strategies as st

from . import gen, ref
from .core import Violation

PAIR = ["graph", "chain", "grid", "edge", "dgrid", "multilabel", "typed"]
LATENT = ["latgraph", "latgrid", "latdgrid", "latnode", "eflatnode"]
CRF_KINDS = PAIR + LATENT
GRIDS = ["grid", "dgrid", "latgrid", "latdgrid"]
FLAT = ["binary", "multiclass"]
# "own": a model a user wrote, listing its few labels (not in any of these
# lists; C33 draws it)
SINGLE = FLAT + ["own", "ownlat"]


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def close(a, b, scale=1.0, rtol=1e-9):
    return abs(a - b) <= rtol * (1.0 + abs(scale) + abs(a) + abs(b))


# ------------------------------------------------------------------ drawing
def _cap_nodes(S, cap, hi):
    n = 1
    while n < hi and S ** (n + 1) <= cap:
        n += 1
    return n


def draw_case(draw, kind, cap=700, max_nodes=6, project=False, profs=None,
              wprofs=None, graph_kinds=None, cw=True, min_states=1,
              max_states=4, ints_ok=True):
    """Draw one instance of a model kind.  `cap` bounds the number of joint
    labellings."""
    c = dict(kind=kind)
    px = draw(gen.profiles(profs))
    pw = draw(gen.profiles(wprofs or profs))
    c["profiles"] = [px, pw]
    F = c["F"] = draw(st.integers(1, 3))
    if kind == "binary":
        c["S"] = 2
        c["x"] = gen.arr(draw, F, px)
        c["w"] = gen.arr(draw, F, pw)
        c["y"] = [draw(st.integers(0, 1))]
        return c
    if kind == "multiclass":
        S = c["S"] = draw(st.integers(min_states, max_states + 1))
        c["cw"] = gen.class_weight(draw, S) if cw else None
        c["x"] = gen.arr(draw, F, px)
        c["w"] = gen.arr(draw, F * S, pw)
        c["y"] = [draw(st.integers(0, S - 1))]
        return c
    if kind == "own":
        return _draw_own(draw, c, px, pw)
    if kind == "ownlat":
        nl = c["n_labels"] = draw(st.integers(2, 3))
        c["spl_list"] = [int(v) + 1 for v in gen.ints(draw, nl, 3)]
        S = c["S"] = sum(c["spl_list"])
        c["x"] = gen.arr(draw, (S, F), px)
        c["w"] = gen.arr(draw, F, pw)
        c["y"] = [draw(st.integers(0, S - 1))]
        cost = np.abs(gen.arr(draw, (nl, nl), draw(st.sampled_from(
            ["tie", "unit"])))) + 0.25
        np.fill_diagonal(cost, 0)
        c["cost"] = cost
        return c
    if kind == "typed":
        return _draw_typed(draw, c, cap, px, pw, cw, min_states, max_states)
    if kind == "multilabel":
        S = 2
        n = draw(st.integers(1, min(max_nodes, _cap_nodes(2, cap, 9))))
        c["n"] = n
        c["S"] = 2
        c["x"] = gen.arr(draw, F, px)
        gk = draw(st.sampled_from(["none"] + (graph_kinds or
                                              gen.GRAPH_KINDS)))
        c["edges"] = (None if gk == "none"
                      else gen.graph(draw, n, gk))
        m = 0 if c["edges"] is None else len(c["edges"])
        c["w"] = gen.arr(draw, n * F + 4 * m, pw)
        c["y"] = gen.ints(draw, n, 2)
        return _intify(draw, c, px, ints_ok)

    if kind in ("latnode", "eflatnode"):
        return _draw_latnode(draw, c, cap, px, pw, cw, graph_kinds, max_nodes,
                             project)

    # number of states
    if kind in LATENT:
        nl = c["n_labels"] = draw(st.integers(2, 3))
        if draw(st.booleans()):
            k = draw(st.integers(1, 2))
            c["spl"] = k
            spl = [k] * nl
        else:
            spl = [int(v) + 1 for v in gen.ints(draw, nl, 3)]
            c["spl"] = spl
        S = sum(spl)
        c["spl_list"] = spl
    else:
        S = draw(st.integers(min_states, max_states))
    c["S"] = S
    hi = min(max_nodes, _cap_nodes(max(S, 2), cap, 12))
    if kind in GRIDS:
        shapes = [(h, w) for h in range(1, 5) for w in range(1, 5)
                  if h * w <= hi]
        shapes += [s for s in shapes if min(s) > 1] * 3
        H, W = draw(st.sampled_from(shapes))
        c["shape"] = [H, W]
        c["nbh"] = draw(st.sampled_from([4, 8]))
        c["x"] = gen.arr(draw, (H, W, F), px)
        n = H * W
    else:
        n = draw(st.integers(1, hi))
        c["x"] = gen.arr(draw, (n, F), px)
        if kind != "chain":
            c["edges"] = gen.graph(draw, n, draw(st.sampled_from(
                graph_kinds or gen.GRAPH_KINDS)))
    c["n"] = n
    if kind in ("graph", "chain"):
        c["directed"] = draw(st.booleans())
    if kind == "edge":
        nef = c["nef"] = draw(st.integers(1, 3))
        c["ef"] = gen.arr(draw, (len(c["edges"]), nef), px)
        role = gen.ints(draw, nef, 3)
        c["sym"] = [i for i in range(nef) if role[i] == 1]
        c["anti"] = [i for i in range(nef) if role[i] == 2]
    if kind in ("graph", "chain", "edge"):
        c["cw"] = gen.class_weight(draw, S) if cw else None
    c["w"] = gen.arr(draw, wsize(c), pw)
    if project:
        c["w"] = project_w(c, c["w"])
    c["y"] = gen.ints(draw, n, S)
    return _intify(draw, c, px, ints_ok)


def _draw_own(draw, c, px, pw):
    S = c["S"] = draw(st.integers(2, 6))
    F = c["F"]
    c["x"] = gen.arr(draw, (S, F), px)
    c["w"] = gen.arr(draw, F, pw)
    c["y"] = [draw(st.integers(0, S - 1))]
    c["form"] = draw(st.sampled_from(["int", "bits", "hamming", "str",
                                      "set"]))
    c["augments"] = True
    if c["form"] == "hamming":
        b = own_bits(c)
        cost = (b[:, None, :] != b[None, :, :]).sum(2).astype(float)
    else:
        cost = np.abs(gen.arr(draw, (S, S), draw(st.sampled_from(
            ["tie", "unit"])))) + 0.25
        np.fill_diagonal(cost, 0)
    c["cost"] = cost
    return c


def own_bits(c):
    n = max(1, int(np.ceil(np.log2(c["S"]))))
    return (np.arange(c["S"])[:, None] >> np.arange(n)) & 1


def own_label(c, k):
    f = c["form"]
    if f == "int":
        return int(k)
    if f in ("bits", "hamming"):
        return own_bits(c)[k].copy()
    if f == "str":
        return "abcdef"[k] * (k + 1)
    return frozenset(range(k))


def own_index(c, y, what):
    if c["form"] in ("bits", "hamming"):
        b = own_bits(c)
        check(isinstance(y, np.ndarray) and y.shape == (b.shape[1],),
              "%s is %r", what, y)
        k = np.where((b == y).all(1))[0]
    else:
        k = [i for i in range(c["S"]) if own_label(c, i) == y]
    check(len(k) == 1, "%s is %r", what, y)
    return int(k[0])


def own_model(c):
    """A model as the documentation of StructuredModel asks for: joint
    features and inference (and the loss, unless it is Hamming's)."""
    from pystruct.models import StructuredModel
    labels = [own_label(c, k) for k in range(c["S"])]
    cost = np.array(c["cost"])
    F, c0 = c["F"], dict(c)

    def index(y):
        return own_index(c0, y, "label")

    class Own(StructuredModel):
        def __init__(self):
            self.size_joint_feature = F

        def __reduce__(self):
            return own_model, (c0,)

        def joint_feature(self, x, y):
            return x[index(y)].copy()

        def inference(self, x, w, relaxed=None, constraints=None):
            return labels[int(np.argmax(np.dot(x, w)))]

    if c["augments"]:
        def loss_augmented_inference(self, x, y, w, relaxed=None):
            return labels[int(np.argmax(np.dot(x, w) + cost[index(y)]))]
        Own.loss_augmented_inference = loss_augmented_inference
    if c["form"] != "hamming":
        Own.loss = lambda self, y, yh: cost[index(y), index(yh)]
        Own.max_loss = lambda self, y: cost[index(y)].max()
    return Own()


def own_latent_model(c):
    """The same with hidden states: what LatentSSVM's models provide."""
    from pystruct.models import StructuredModel
    cost = np.array(c["cost"])
    lab = np.repeat(np.arange(c["n_labels"]), c["spl_list"])
    first = np.concatenate([[0], np.cumsum(c["spl_list"])[:-1]])
    F, c0 = c["F"], dict(c)

    class OwnLatent(StructuredModel):
        def __init__(self):
            self.size_joint_feature = F

        def __reduce__(self):
            return own_latent_model, (c0,)

        def joint_feature(self, x, h):
            return x[h].copy()

        def inference(self, x, w, relaxed=None, constraints=None):
            return int(np.argmax(np.dot(x, w)))

        def loss_augmented_inference(self, x, h, w, relaxed=None):
            return int(np.argmax(np.dot(x, w) + cost[lab[h], lab]))

        def latent(self, x, y, w):
            s = np.dot(x, w)
            s[lab != y] = -np.inf
            return int(np.argmax(s))

        def init_latent(self, X, Y):
            return [int(first[y]) for y in Y]

        def label_from_latent(self, h):
            return int(lab[h])

        def loss(self, h, h_hat):
            return cost[lab[h], lab[h_hat]]

        def base_loss(self, y, y_hat):
            return cost[y, y_hat]

        def max_loss(self, y):
            # asked for labels and for hidden states
            return cost.max()

    return OwnLatent()


def _intify(draw, c, px, ok=True):
    if ok and px in ("tie", "int") and draw(st.booleans()):
        c["x"] = c["x"].astype(int)
    if ok and draw(st.booleans()):
        c["ydtype"] = "int32"
    return c


def _draw_latnode(draw, c, cap, px, pw, cw, graph_kinds, max_nodes, project):
    F = c["F"]
    nl = c["n_labels"] = draw(st.integers(2, 3))
    nh = c["n_hidden_states"] = draw(st.integers(1, 3))
    S = c["S"] = nl + nh
    hi = min(max_nodes, _cap_nodes(3, cap, 7))
    nv = c["n_visible"] = draw(st.integers(1, max(1, hi - 1)))
    nhid = c["n_hidden"] = draw(st.integers(0, max(0, min(3, hi - nv))))
    n = c["n"] = nv + nhid
    c["lnf"] = draw(st.booleans())
    c["x"] = gen.arr(draw, ((n if c["lnf"] else nv), F), px)
    c["edges"] = gen.graph(draw, n, draw(st.sampled_from(
        graph_kinds or gen.GRAPH_KINDS)))
    if c["kind"] == "eflatnode":
        nef = c["nef"] = draw(st.integers(1, 2))
        c["ef"] = gen.arr(draw, (len(c["edges"]), nef), px)
        role = gen.ints(draw, nef, 3)
        c["sym"] = [i for i in range(nef) if role[i] == 1]
        c["anti"] = [i for i in range(nef) if role[i] == 2]
    c["cw"] = gen.class_weight(draw, nl) if cw else None
    c["w"] = gen.arr(draw, wsize(c), pw)
    if project:
        c["w"] = project_w(c, c["w"])
    y = np.zeros(n, dtype=int)
    y[:nv] = gen.ints(draw, nv, nl)
    y[nv:] = gen.ints(draw, nhid, nh)
    c["y"] = y
    return c


def _draw_typed(draw, c, cap, px, pw, cw, min_states, max_states):
    T = c["T"] = draw(st.integers(1, 3))
    Ss, Fs, ns = [], [], []
    left = cap
    for t in range(T):
        S = draw(st.integers(max(1, min_states), min(3, max_states)))
        hi = 0
        while hi < 3 and S ** (hi + 1) <= left:
            hi += 1
        n = draw(st.integers(0, hi))
        left = max(1, left // (S ** n))
        Ss.append(S)
        Fs.append(draw(st.integers(1, 2)))
        ns.append(n)
    if sum(ns) == 0:
        ns[0] = 1
    c["Ss"], c["Fs"], c["ns"] = Ss, Fs, ns
    nef = np.zeros((T, T), dtype=int)
    for a in range(T):
        for b in range(a, T):
            nef[a, b] = nef[b, a] = draw(st.integers(1, 2))
    c["nef"] = nef
    c["x"] = [gen.arr(draw, (ns[t], Fs[t]), px) for t in range(T)]
    c["x_none"] = [bool(ns[t] == 0 and draw(st.booleans()))
                   for t in range(T)]
    E, EF, none = [], [], []
    b = iter(gen.ints(draw, 300, 256))
    for a in range(T):
        for d in range(T):
            es = []
            for i in range(ns[a]):
                for j in range(ns[d]):
                    if a == d and i == j:
                        continue
                    if a == d and (j, i) in es:
                        continue
                    v = int(next(b, 0))
                    if v % 3 == 1:
                        es.append((i, j))
            es = np.array(es, dtype=int).reshape(-1, 2)
            E.append(es)
            EF.append(gen.arr(draw, (len(es), nef[a, d]), px))
            none.append(bool(len(es) == 0 and draw(st.booleans())))
    c["E"], c["EF"], c["e_none"] = E, EF, none
    c["cw"] = ([gen.class_weight(draw, S) or [1.] * S for S in Ss]
               if False else _typed_cw(draw, Ss, cw))
    c["w"] = gen.arr(draw, wsize(c), pw)
    c["y"] = np.concatenate([gen.ints(draw, ns[t], Ss[t]) for t in range(T)])
    return c


def _typed_cw(draw, Ss, cw):
    if not cw or draw(st.booleans()):
        return None
    out = []
    for S in Ss:
        v = gen.class_weight(draw, S)
        out.append([1.0] * S if v is None else v)
    return out


def case_strategy(kinds, **kw):
    @st.composite
    def s(draw):
        return draw_case(draw, draw(st.sampled_from(kinds)), **kw)
    return s()


# ------------------------------------------------------- documented geometry
def grid_edges(H, W, nbh):
    """[(direction, [(a, b)...])...] from the documentation of the grids."""
    at = lambda r, q: r * W + q
    right = [(at(r, q), at(r, q + 1)) for r in range(H) for q in range(W - 1)]
    down = [(at(r, q), at(r + 1, q)) for r in range(H - 1) for q in range(W)]
    out = [right, down]
    if nbh == 8:
        out.append([(at(r + 1, q), at(r, q + 1))
                    for r in range(H - 1) for q in range(W - 1)])
        out.append([(at(r, q), at(r + 1, q + 1))
                    for r in range(H - 1) for q in range(W - 1)])
    return out


def edges_of(c):
    k = c["kind"]
    if k in GRIDS:
        return [e for l in grid_edges(c["shape"][0], c["shape"][1], c["nbh"])
                for e in l]
    if k == "chain":
        return [(i, i + 1) for i in range(c["n"] - 1)]
    if k == "typed":
        off = np.concatenate([[0], np.cumsum(c["ns"])])
        T = c["T"]
        return [(int(off[p // T] + a), int(off[p % T] + b))
                for p, es in enumerate(c["E"]) for a, b in es]
    if k in SINGLE:
        return []
    e = c["edges"]
    return [] if e is None else [(int(a), int(b)) for a, b in e]


def n_nodes(c):
    if c["kind"] in SINGLE:
        return 1
    if c["kind"] == "typed":
        return int(sum(c["ns"]))
    return c["n"]


def wsize(c):
    k, F = c["kind"], c.get("F")
    if k == "typed":
        T = c["T"]
        return int(sum(s * f for s, f in zip(c["Ss"], c["Fs"]))
                   + sum(c["nef"][a, b] * c["Ss"][a] * c["Ss"][b]
                         for a in range(T) for b in range(T)))
    if k == "multilabel":
        e = c["edges"]
        return c["n"] * F + 4 * (0 if e is None else len(e))
    if k in ("binary", "own", "ownlat"):
        return F
    S = c["S"]
    if k == "multiclass":
        return S * F
    sym = S * (S + 1) // 2
    if k in ("graph", "chain"):
        return S * F + (S * S if c["directed"] else sym)
    if k in ("grid", "latgraph", "latgrid"):
        return S * F + sym
    if k in ("dgrid", "latdgrid"):
        return S * F + (2 if c["nbh"] == 4 else 4) * S * S
    if k == "edge":
        return S * F + c["nef"] * S * S
    nin = S if c.get("lnf") else c.get("n_labels")
    if k == "latnode":
        return nin * F + sym
    if k == "eflatnode":
        return nin * F + c["nef"] * S * S
    raise KeyError(k)


def _sym_from_lower(v, S):
    """Lower triangle, row by row, as documented: [1, 4, 5, 7, 8, 9]."""
    P = np.zeros((S, S))
    it = iter(v)
    for r in range(S):
        for q in range(r + 1):
            P[r, q] = P[q, r] = next(it)
    return P


def _ef_blocks(c, wp, S):
    B = np.array(wp, dtype=float).reshape(-1, S, S)
    for f in c.get("sym", []):
        B[f] = (B[f] + B[f].T) / 2
    for f in c.get("anti", []):
        B[f] = (B[f] - B[f].T) / 2
    return B


def project_w(c, w):
    """Weights that respect the declared (anti)symmetries (every joint
    feature, hence every learned w, does)."""
    if not (c.get("sym") or c.get("anti")):
        return w
    S = c["S"]
    k = c["nef"] * S * S
    w = np.array(w)
    w[len(w) - k:] = _ef_blocks(c, w[len(w) - k:], S).ravel()
    return w


# --------------------------------------------------------- reference problem
def full_potentials(c, w=None):
    """(U, E, P) over all states of the model (latent node models: forbidden
    states are -inf)."""
    w = np.asarray(c["w"] if w is None else w, dtype=float)
    k = c["kind"]
    E = edges_of(c)
    if k == "binary":
        s = float(np.dot(c["x"], w)) / 2.
        return [np.array([-s, s])], [], []
    if k == "multiclass":
        return [w.reshape(c["S"], c["F"]) @ c["x"]], [], []
    if k in ("own", "ownlat"):
        return [np.asarray(c["x"], dtype=float) @ w], [], []
    if k == "multilabel":
        F = c["F"]
        U = []
        for i in range(c["n"]):
            s = float(np.dot(w[i * F:(i + 1) * F], c["x"]))
            U.append(np.array([-s, s]))
        wp = w[c["n"] * F:].reshape(-1, 2, 2)
        return U, E, [wp[i] for i in range(len(E))]
    if k == "typed":
        U, P, o = [], [], 0
        T = c["T"]
        for t in range(T):
            W = w[o:o + c["Ss"][t] * c["Fs"][t]].reshape(c["Ss"][t],
                                                        c["Fs"][t])
            o += W.size
            for i in range(c["ns"][t]):
                U.append(W @ c["x"][t][i])
        for p in range(T * T):
            a, b = p // T, p % T
            nf = int(c["nef"][a, b])
            B = w[o:o + nf * c["Ss"][a] * c["Ss"][b]].reshape(
                nf, c["Ss"][a], c["Ss"][b])
            o += B.size
            for e in range(len(c["E"][p])):
                P.append(sum((c["EF"][p][e, f] * B[f] for f in range(nf)),
                             np.zeros((c["Ss"][a], c["Ss"][b]))))
        return U, E, P
    S, F = c["S"], c["F"]
    if k in ("latnode", "eflatnode"):
        nl, nv = c["n_labels"], c["n_visible"]
        nin = S if c["lnf"] else nl
        W = w[:nin * F].reshape(nin, F)
        U = []
        for i in range(c["n"]):
            u = np.zeros(S)
            if i < len(c["x"]):
                u[:nin] = W @ c["x"][i]
            if i < nv:
                u[nl:] = -np.inf
            else:
                u[:nl] = -np.inf
            U.append(u)
        rest = w[nin * F:]
    else:
        W = w[:S * F].reshape(S, F)
        X = np.asarray(c["x"], dtype=float).reshape(-1, F)
        U = [W @ X[i] for i in range(c["n"])]
        rest = w[S * F:]
    if k in ("graph", "chain") and c["directed"]:
        P = [rest.reshape(S, S)] * len(E)
    elif k in ("graph", "chain", "grid", "latgraph", "latgrid", "latnode"):
        P = [_sym_from_lower(rest, S)] * len(E)
    elif k in ("dgrid", "latdgrid"):
        B = rest.reshape(-1, S, S)
        P = []
        for d, es in enumerate(grid_edges(c["shape"][0], c["shape"][1],
                                          c["nbh"])):
            P.extend([B[d]] * len(es))
    elif k in ("edge", "eflatnode"):
        B = _ef_blocks(c, rest, S)
        P = [sum(c["ef"][e, f] * B[f] for f in range(c["nef"]))
             for e in range(len(E))]
    else:
        raise KeyError(k)
    return U, E, P


def allowed(c):
    """Per node, the state codes (in the model's labelling) it may take."""
    k = c["kind"]
    if k == "binary":
        return [np.array([-1, 1])]
    if k == "typed":
        out, o = [], 0
        for t in range(c["T"]):
            out += [np.arange(o, o + c["Ss"][t])] * c["ns"][t]
            o += c["Ss"][t]
        return out
    if k in ("latnode", "eflatnode"):
        nl, S = c["n_labels"], c["S"]
        return [np.arange(nl)] * c["n_visible"] + \
            [np.arange(nl, S)] * c["n_hidden"]
    return [np.arange(c["S"])] * n_nodes(c)


def problem(c, w=None):
    """The reference problem over allowed states (local indices)."""
    U, E, P = full_potentials(c, w)
    if c["kind"] in ("latnode", "eflatnode"):
        A = allowed(c)
        U = [u[a] for u, a in zip(U, A)]
        P = [p[np.ix_(A[a], A[b])] for (a, b), p in zip(E, P)]
    return U, E, P


def labels_of_states(c):
    """Per node, label of each local state, or None for unobserved nodes."""
    k = c["kind"]
    if k in ("latgraph", "latgrid", "latdgrid", "ownlat"):
        lab = np.repeat(np.arange(c["n_labels"]), c["spl_list"])
        return [lab] * n_nodes(c)
    if k in ("latnode", "eflatnode"):
        return [np.arange(c["n_labels"])] * c["n_visible"] \
            + [None] * c["n_hidden"]
    return [np.arange(len(a)) for a in allowed(c)]


def label_weights(c):
    """Per node, the class weight of each label."""
    k = c["kind"]
    cw = c.get("cw")
    if k == "typed":
        out = []
        for t in range(c["T"]):
            v = np.ones(c["Ss"][t]) if cw is None else \
                np.asarray(cw[t], dtype=float)
            out += [v] * c["ns"][t]
        return out
    if k in LATENT:
        v = np.ones(c["n_labels"])
    else:
        v = np.ones(c["S"])
    if cw is not None:
        v = np.asarray(cw, dtype=float)
    return [v] * n_nodes(c)


def loss_ref(c, y, yh):
    if c["kind"] == "own":
        return float(c["cost"][y[0], yh[0]])
    if c["kind"] == "ownlat":
        lab = labels_of_states(c)[0]
        return float(c["cost"][lab[y[0]], lab[yh[0]]])
    s = 0.0
    for i, (lab, cw) in enumerate(zip(labels_of_states(c), label_weights(c))):
        if lab is None:
            continue
        if lab[y[i]] != lab[yh[i]]:
            s += cw[lab[y[i]]]
    return float(s)


def max_loss_ref(c, y):
    if c["kind"] == "own":
        return float(own_bits(c).shape[1] if c["form"] == "hamming"
                     else c["cost"][y[0]].max())
    if c["kind"] == "ownlat":
        return float(np.max(c["cost"]))
    s = 0.0
    for i, (lab, cw) in enumerate(zip(labels_of_states(c), label_weights(c))):
        if lab is not None:
            s += cw[lab[y[i]]]
    return float(s)


def augmented(c, prob, y):
    """Add the loss with respect to local labelling y to the unaries."""
    U, E, P = prob
    if c["kind"] == "own":
        return [U[0] + c["cost"][y[0]]], E, P
    U2 = []
    for i, (u, lab, cw) in enumerate(zip(U, labels_of_states(c),
                                         label_weights(c))):
        u = np.array(u, dtype=float)
        if lab is not None:
            u[lab != lab[y[i]]] += cw[lab[y[i]]]
        U2.append(u)
    return U2, E, P


# ---------------------------------------------------------------- real model
def make_model(c, method=None, explicit=True):
    from pystruct import models as M
    k = c["kind"]
    kw = {}
    if method is not None:
        kw["inference_method"] = method
    if k == "binary":
        return M.BinaryClf(n_features=c["F"] if explicit else None)
    if k == "multiclass":
        return M.MultiClassClf(c["F"] if explicit else None,
                               c["S"] if explicit else None,
                               class_weight=c.get("cw"),
                               rescale_C=c.get("rescale_C", False))
    if k == "own":
        return own_model(c)
    if k == "ownlat":
        return own_latent_model(c)
    S, F = (c.get("S"), c.get("F")) if explicit else (None, None)
    if k == "graph":
        return M.GraphCRF(S, F, class_weight=c["cw"], directed=c["directed"],
                          **kw)
    if k == "chain":
        return M.ChainCRF(S, F, class_weight=c["cw"], directed=c["directed"],
                          **kw)
    if k == "grid":
        return M.GridCRF(S, F, neighborhood=c["nbh"], **kw)
    if k == "dgrid":
        return M.DirectionalGridCRF(S, F, neighborhood=c["nbh"], **kw)
    if k == "edge":
        return M.EdgeFeatureGraphCRF(
            S, F, c["nef"] if explicit else None, class_weight=c["cw"],
            symmetric_edge_features=list(c["sym"]),
            antisymmetric_edge_features=list(c["anti"]), **kw)
    if k == "multilabel":
        e = c["edges"]
        return M.MultiLabelClf(c["n"] if explicit else None, F,
                               edges=None if e is None else e.copy(), **kw)
    if k == "typed":
        if method is None or not isinstance(method, str):
            kw["inference_method"] = "ad3"
        m = M.NodeTypeEdgeFeatureGraphCRF(
            c["T"], list(c["Ss"]), list(c["Fs"]), c["nef"].copy(),
            l_class_weight=c["cw"], **kw)
        if method is not None and not isinstance(method, str):
            m.inference_method = method
        return m
    nl = c["n_labels"] if explicit else None
    if k == "latgraph":
        return M.LatentGraphCRF(nl, F, c["spl"], **kw)
    if k == "latgrid":
        return M.LatentGridCRF(nl, F, c["spl"], neighborhood=c["nbh"], **kw)
    if k == "latdgrid":
        return M.LatentDirectionalGridCRF(nl, F, c["spl"],
                                          neighborhood=c["nbh"], **kw)
    if k == "latnode":
        return M.LatentNodeCRF(nl, F, c["n_hidden_states"],
                               class_weight=c["cw"],
                               latent_node_features=c["lnf"], **kw)
    if k == "eflatnode":
        return M.EdgeFeatureLatentNodeCRF(
            c["n_labels"], c["F"], c["nef"], c["n_hidden_states"],
            class_weight=c["cw"], latent_node_features=c["lnf"],
            symmetric_edge_features=list(c["sym"]),
            antisymmetric_edge_features=list(c["anti"]), **kw)
    raise KeyError(k)


def get_x(c):
    k = c["kind"]
    if k in SINGLE or k == "multilabel" or k == "chain" or k in GRIDS:
        return np.array(c["x"])
    if k in ("graph", "latgraph"):
        return (np.array(c["x"]), np.array(c["edges"]))
    if k == "edge":
        return (np.array(c["x"]), np.array(c["edges"]), np.array(c["ef"]))
    if k == "typed":
        return ([None if z else np.array(f) for f, z in zip(c["x"],
                                                            c["x_none"])],
                [None if z else np.array(e) for e, z in zip(c["E"],
                                                            c["e_none"])],
                [None if z else np.array(e) for e, z in zip(c["EF"],
                                                            c["e_none"])])
    if k == "latnode":
        return (np.array(c["x"]), np.array(c["edges"]), c["n_hidden"])
    if k == "eflatnode":
        return (np.array(c["x"]), np.array(c["edges"]), np.array(c["ef"]),
                c["n_hidden"])
    raise KeyError(k)


def to_model(c, y):
    """Local states -> the model's labelling."""
    if c["kind"] == "own":
        return own_label(c, int(y[0]))
    A = allowed(c)
    v = np.array([A[i][int(y[i])] for i in range(len(A))],
                 dtype=c.get("ydtype", "int64"))
    if c["kind"] in SINGLE:
        return int(v[0])
    if c["kind"] in GRIDS:
        return v.reshape(c["shape"])
    return v


def from_model(c, y, what="result"):
    """The model's labelling -> local states; Violation if it is not one."""
    if c["kind"] == "own":
        return np.array([own_index(c, y, what)])
    A = allowed(c)
    y = np.asarray(y)
    want = tuple(c["shape"]) if c["kind"] in GRIDS else \
        (() if c["kind"] in SINGLE else (len(A),))
    check(y.shape == want, "%s has shape %r, expected %r", what, y.shape,
          want)
    v = y.ravel()
    out = np.zeros(len(A), dtype=int)
    for i in range(len(A)):
        j = np.where(A[i] == v[i])[0]
        check(len(j) == 1, "%s gives node %d the state %r, allowed are %s",
              what, i, v[i], A[i])
        out[i] = j[0]
    return out


def label_y(c, y):
    """Observable labels of a local latent labelling, in the model's form."""
    lab = labels_of_states(c)
    v = np.array([lab[i][y[i]] for i in range(len(lab)) if lab[i] is not None])
    if c["kind"] in GRIDS:
        return v.reshape(c["shape"])
    if c["kind"] == "ownlat":
        return int(v[0])
    return v


def eq_scale(c, prob):
    return ref.magnitude(prob)


# ------------------------------------------------------------------- datasets
def more_sample(draw, c, cap=300, max_nodes=5, graph_kinds=None, cover=None):
    """Another sample (x, geometry, y) for the model parameters of c."""
    k, F, S = c["kind"], c.get("F"), c.get("S")
    d = dict(c)
    px = c["profiles"][0]
    isint = np.asarray(c["x"]).dtype.kind == "i" if k != "typed" else False
    if k in FLAT:
        d["x"] = gen.arr(draw, F, px)
        d["y"] = [draw(st.integers(0, S - 1))]
        return d
    if k in ("own", "ownlat"):
        d["x"] = gen.arr(draw, (S, F), px)
        d["y"] = [draw(st.integers(0, S - 1))]
        return d
    if k == "typed":
        ns, left = [], cap
        for t in range(c["T"]):
            s = c["Ss"][t]
            hi = 0
            while hi < 3 and s ** (hi + 1) <= left:
                hi += 1
            n = draw(st.integers(0, hi))
            left = max(1, left // (s ** n))
            ns.append(n)
        if sum(ns) == 0:
            ns[0] = 1
        d["ns"] = ns
        d["x"] = [gen.arr(draw, (ns[t], c["Fs"][t]), px)
                  for t in range(c["T"])]
        d["x_none"] = [False] * c["T"]
        E, EF = [], []
        b = iter(gen.ints(draw, 200, 256))
        for a in range(c["T"]):
            for e in range(c["T"]):
                es = []
                for i in range(ns[a]):
                    for j in range(ns[e]):
                        if (a == e and i == j) or (a == e and (j, i) in es):
                            continue
                        if int(next(b, 0)) % 3 == 1:
                            es.append((i, j))
                es = np.array(es, dtype=int).reshape(-1, 2)
                E.append(es)
                EF.append(gen.arr(draw, (len(es), c["nef"][a, e]), px))
        d["E"], d["EF"], d["e_none"] = E, EF, [False] * len(E)
        d["y"] = np.concatenate([gen.ints(draw, ns[t], c["Ss"][t])
                                 for t in range(c["T"])])
        return d
    if k == "multilabel":
        d["x"] = gen.arr(draw, F, px)
        d["y"] = gen.ints(draw, c["n"], 2)
    elif k in ("latnode", "eflatnode"):
        nl, nh = c["n_labels"], c["n_hidden_states"]
        hi = min(max_nodes, _cap_nodes(3, cap, 7))
        nv = d["n_visible"] = draw(st.integers(1, max(1, hi - 1)))
        nhid = d["n_hidden"] = draw(st.integers(0, max(0, min(3, hi - nv))))
        n = d["n"] = nv + nhid
        d["x"] = gen.arr(draw, ((n if c["lnf"] else nv), F), px)
        d["edges"] = gen.graph(draw, n, draw(st.sampled_from(
            graph_kinds or gen.GRAPH_KINDS)))
        if k == "eflatnode":
            d["ef"] = gen.arr(draw, (len(d["edges"]), c["nef"]), px)
        y = np.zeros(n, dtype=int)
        y[:nv] = gen.ints(draw, nv, nl)
        y[nv:] = gen.ints(draw, nhid, nh)
        d["y"] = y
    else:
        hi = min(max_nodes, _cap_nodes(max(S, 2), cap, 12))
        if k in GRIDS:
            shapes = [(h, w) for h in range(1, 4) for w in range(1, 4)
                      if h * w <= hi]
            if graph_kinds is gen.FOREST_KINDS:
                shapes = [s for s in shapes if min(s) == 1]
            H, W = draw(st.sampled_from(shapes))
            if draw(st.integers(0, 2)) == 0:    # as many cells, other grid
                W, H = c["shape"]
            d["shape"] = [H, W]
            d["x"] = gen.arr(draw, (H, W, F), px)
            n = H * W
        else:
            # sometimes as many nodes and edges, another graph
            twin = draw(st.integers(0, 3)) == 0
            n = c["n"] if twin else draw(st.integers(1, hi))
            d["x"] = gen.arr(draw, (n, F), px)
            if k != "chain" and twin:
                p = np.array(gen.perm(draw, n), dtype=int)
                d["edges"] = p[np.asarray(c["edges"], dtype=int)].reshape(
                    -1, 2)
            elif k != "chain":
                d["edges"] = gen.graph(draw, n, draw(st.sampled_from(
                    graph_kinds or gen.GRAPH_KINDS)))
        d["n"] = n
        if k == "edge":
            d["ef"] = gen.arr(draw, (len(d["edges"]), c["nef"]), px)
        d["y"] = gen.ints(draw, n, S)
    if isint:
        d["x"] = d["x"].astype(int)
    return d


def draw_dataset(draw, kind, n_min=1, n_max=4, cap=300, max_nodes=5,
                 graph_kinds=None, **kw):
    """A list of cases sharing model parameters and weights."""
    first = draw_case(draw, kind, cap=cap, max_nodes=max_nodes,
                      graph_kinds=graph_kinds, **kw)
    if graph_kinds is gen.FOREST_KINDS and kind in GRIDS:
        n = max(first["shape"])
        first["shape"] = [n, 1] if draw(st.booleans()) else [1, n]
        first["n"] = n
        first["x"] = gen.arr(draw, tuple(first["shape"]) + (first["F"],),
                             first["profiles"][0])
        first["y"] = gen.ints(draw, n, first["S"])
    n = draw(st.integers(n_min, n_max))
    return [first] + [more_sample(draw, first, cap=cap, max_nodes=max_nodes,
                                  graph_kinds=graph_kinds)
                      for _ in range(n - 1)]


def slim(D):
    """A dataset for a case: shared entries are stored once."""
    return D


def get_XY(D, lists=True):
    X = [get_x(c) for c in D]
    Y = [to_model(c, c["y"]) for c in D]
    if D[0]["kind"] in FLAT:
        return np.array(X), np.array(Y)
    return X, Y
