"""Hypothesis strategies.  All randomness is drawn through Hypothesis; arrays
are decoded from drawn byte strings, which keeps generation fast and shrinks
towards zeros, identity permutations and first states."""
import numpy as np
from hypothesis import strategies as st

# value profiles: exact ties, small integers, quarter grid, generic reals,
# mostly zeros, large magnitudes, one-sided values
PROFILES = ["tie", "int", "quarter", "float", "sparse", "big", "neg", "pos"]
PLAIN = ["tie", "int", "quarter", "float", "sparse"]


def profiles(names=None):
    return st.sampled_from(names or PROFILES)


def _bytes(draw, n):
    return np.frombuffer(draw(st.binary(min_size=n, max_size=n)),
                         dtype=np.uint8)


def _int8(b):
    return b.astype(np.uint8).view(np.int8).astype(float)


def arr(draw, shape, profile):
    """A float array of the given shape and value profile."""
    if np.isscalar(shape):
        shape = (int(shape),)
    n = int(np.prod(shape)) if len(shape) else 1
    if n == 0:
        return np.zeros(shape)
    b = _bytes(draw, n)
    if profile == "tie":
        v = np.array([0., 1., -1.])[b % 3]
    elif profile == "int":
        v = np.array([0., 1., -1., 2., -2., 3., -3.])[b % 7]
    elif profile == "quarter":
        v = _int8(b) / 4.
    elif profile == "small":
        v = _int8(b) / 64.
    elif profile == "unit":
        v = np.array([0., 1., -1., 0.5, -0.5, 0.25, 2.])[b % 7]
    elif profile == "sparse":
        v = np.where(b < 160, 0., _int8(b) / 8.)
    else:
        b2 = _bytes(draw, n)
        f = (_int8(b) * 256 + b2) / 32768.   # in [-1, 1)
        f = f * 0.97310
        if profile == "float":
            v = f * 4
        elif profile == "big":
            v = f * 5000
        elif profile == "neg":
            v = -np.abs(f) * 300 - 3 * (b % 2)
        elif profile == "pos":
            v = np.abs(f) * 6
        else:
            raise ValueError(profile)
    return (v + 0.).reshape(shape)


def ints(draw, shape, k):
    """An int array with values in range(k)."""
    if np.isscalar(shape):
        shape = (int(shape),)
    n = int(np.prod(shape))
    if n == 0:
        return np.zeros(shape, dtype=int)
    return (_bytes(draw, n).astype(int) % k).reshape(shape)


def ints_cover(draw, n, k):
    """n >= k ints in range(k) with every value occurring (identity when
    shrunk)."""
    v = ints(draw, n, k)
    p = perm(draw, n)
    v[p[:k]] = np.arange(k)
    return v


def perm(draw, n):
    if n <= 1:
        return np.arange(n)
    return np.argsort(_bytes(draw, n), kind="stable")


GRAPH_KINDS = ["chain", "tree", "forest", "general", "cycle", "complete",
               "empty", "star"]
FOREST_KINDS = ["chain", "tree", "forest", "empty", "star", "orderedchain"]


def graph(draw, n, kind=None, shuffle=True):
    """Edges (m, 2) of a simple graph on n nodes, random orientation, order
    and node numbering."""
    if kind is None:
        kind = draw(st.sampled_from(GRAPH_KINDS))
    E = []
    if n > 1:
        if kind in ("chain", "orderedchain"):
            E = [(i, i + 1) for i in range(n - 1)]
        elif kind == "star":
            E = [(0, i) for i in range(1, n)]
        elif kind == "tree":
            b = _bytes(draw, n)
            E = [(int(b[i]) % i, i) for i in range(1, n)]
        elif kind == "forest":
            b = _bytes(draw, 2 * n)
            E = [(int(b[i]) % i, i) for i in range(1, n) if b[n + i] % 3]
        elif kind == "general":
            k = n * (n - 1) // 2
            b = _bytes(draw, k)
            dens = draw(st.integers(1, 3))
            pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
            E = [p for p, v in zip(pairs, b) if v % 4 < dens]
        elif kind == "cycle":
            E = [(i, (i + 1) % n) for i in range(n)] if n > 2 else [(0, 1)]
        elif kind == "complete":
            E = [(i, j) for i in range(n) for j in range(i + 1, n)]
    E = np.array(E, dtype=int).reshape(-1, 2)
    if kind == "orderedchain" or not shuffle or len(E) == 0:
        return E
    flip = _bytes(draw, len(E)) % 2 == 1
    E[flip] = E[flip][:, ::-1]
    if draw(st.booleans()):
        E = perm(draw, n)[E]
        E = E[perm(draw, len(E))]
    return E


def class_weight(draw, k):
    """None, or positive class weights as int/float list/array."""
    mode = draw(st.sampled_from(["none", "ones", "int", "float", "nparr",
                                 "npint"]))
    if mode == "none":
        return None
    if mode == "ones":
        return [1.] * k
    b = _bytes(draw, k)
    if mode == "int":
        return [int(v) % 4 + 1 for v in b]
    if mode == "npint":
        return np.array([int(v) % 4 + 1 for v in b])
    v = (b.astype(float) + 1) / 32.
    return v if mode == "nparr" else [float(t) for t in v]
