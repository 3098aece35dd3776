"""C27: the bundled data generators and loaders."""
import importlib.util
import itertools
import os
import pickle
import shutil
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import env, gen
from ..core import Leg, note
from ..zoo import check
from .learn import quiet

ASSUMPTIONS = [
    "sizes for which the generators cannot place their objects (too small "
    "grids) are outside the domain",
    "the Gaussian noise is compared with its moments at seven standard "
    "deviations; letters and scene are loaded from generated stand-in files, "
    "as the data itself is not part of the tree"]


# every generator: arguments, then a reading of what it draws
def corners(lo, hi):
    return list(itertools.product(range(lo, hi), repeat=2))


def patch(size, cells, t, l):
    y = np.zeros((size, size), dtype=int)
    for a, b, v in cells:
        if 0 <= t + a < size and 0 <= l + b < size:
            y[t + a, l + b] = v
    return y


def square(k):
    return [(a, b, 1) for a in range(k) for b in range(k)]


CROSS = [(1, 0, 1), (1, 1, 1), (1, 2, 1), (0, 1, 1), (2, 1, 1)]
CROSS_E = CROSS[:1] + CROSS[2:] + [(1, 1, 2)]
XS = [(1, 1, 1), (2, 2, 1), (3, 3, 1), (1, 3, 1), (3, 1, 1)]
HOLE = [(a, b, int((a, b) != (1, 1))) for a in range(3) for b in range(3)]
EXPL = [(a, b, 1 + (a == 1 or b == 1) + (a == 1 and b == 1))
        for a in range(3) for b in range(3)]


def one_of(shapes, size, lo, hi):
    """All labellings with one object."""
    return [patch(size, s, t, l) for s in shapes for t, l in corners(lo, hi)]


def two_of(shapes, size, lo, hi, gap):
    """One object, or two whose corners are more than gap apart."""
    single = [(t, l, patch(size, s, t, l)) for s in shapes
              for t, l in corners(lo, hi)]
    out = [y for _, _, y in single]
    for (t, l, y), (u, v, z) in itertools.product(single, repeat=2):
        if abs(t - u) > gap or abs(l - v) > gap:
            out.append(np.where(z > 0, z, y))
    return out


def member(y, options):
    o = np.asarray(options)
    return bool((o == y[None]).all(axis=(1, 2)).any())


GAUSS = ["generate_blocks", "generate_checker", "generate_big_checker",
         "generate_blocks_multinomial", "generate_checker_multinomial",
         "generate_big_checker_extended"]
FLIP = ["generate_easy", "generate_bars", "generate_square_with_hole",
        "generate_crosses", "generate_xs", "generate_easy_explicit",
        "generate_crosses_explicit", "generate_crosses_latent"]
SEED = dict(generate_blocks="seed", generate_easy="seed",
            generate_bars="random_seed", generate_crosses="seed",
            generate_blocks_multinomial="seed", make_simple_2x2="seed")
GLOBAL = ["generate_checker_multinomial", "generate_big_checker_extended"]


def call(name, kw, before=0):
    from pystruct.datasets import synthetic_grids
    # where the generator takes no seed and sets none, numpy's state is used
    np.random.seed(before)
    return getattr(synthetic_grids, name)(**kw)


def same(a, b):
    return len(a[0]) == len(b[0]) and len(a[1]) == len(b[1]) and all(
        np.array_equal(p, q) for p, q in zip(a[0], b[0])) and all(
        np.array_equal(p, q) for p, q in zip(a[1], b[1]))


def reproducible(name, kw, first, other):
    state = 0 if name in GLOBAL else other
    check(same(first, call(name, kw, state)), "%s(%s) twice gives different "
          "data", name, kw)


def usable(X, Y, n_states):
    from pystruct.models import GridCRF, DirectionalGridCRF
    for cls in (GridCRF, DirectionalGridCRF):
        nf = np.asarray(X[0]).shape[-1]
        m = cls(n_states=n_states, n_features=nf,
                inference_method="max-product")
        with quiet():
            if len(np.unique(np.asarray(Y))) == n_states:
                m.initialize(X, Y)
            check(m.n_features == np.asarray(X[0]).shape[-1],
                  "%s infers %s features from %s", cls.__name__, m.n_features,
                  np.asarray(X[0]).shape)
            f = np.asarray(m.joint_feature(X[0], Y[0]))
        check(f.shape == (m.size_joint_feature,) and
              np.isfinite(f).all(), "%s's joint feature of a sample has shape "
              "%s", cls.__name__, f.shape)
        # total of the unary part: the inputs added up
        u = f[:n_states * m.n_features].sum()
        check(np.isclose(u, np.asarray(X[0], float).sum(), rtol=1e-9,
                         atol=1e-6), "%s: unary part adds up to %r, inputs to "
              "%r", cls.__name__, u, np.asarray(X[0], float).sum())


def labels_ok(Y, k):
    for y in Y:
        y = np.asarray(y)
        check(y.dtype.kind in "iu", "labels of dtype %s", y.dtype)
        check(y.min() >= 0 and y.max() < k, "labels %s outside 0..%d",
              np.unique(y), k - 1)


# ------------------------------------------------------------ Gaussian inputs
@st.composite
def gauss_case(draw):
    name = draw(st.sampled_from(GAUSS))
    kw = dict(n_samples=draw(st.integers(1, 6)),
              noise=draw(st.sampled_from([0, .1, .25, .5, 1., 1.5, 2, 4.])))
    if name in ("generate_blocks", "generate_blocks_multinomial"):
        kw["seed"] = draw(st.integers(0, 2 ** 31))
    if name == "generate_blocks_multinomial":
        kw["size_x"] = draw(st.integers(3, 16))
    if name == "generate_checker_multinomial":
        kw["size_x"] = draw(st.integers(3, 16))
    if name == "generate_big_checker":
        kw.update(n_fields=draw(st.integers(1, 5)),
                  field_size=draw(st.integers(1, 4)))
    if name == "generate_big_checker_extended":
        kw.update(n_fields=draw(st.integers(1, 6)),
                  field_size=draw(st.integers(1, 4)))
    return dict(name=name, kw=kw, state=draw(st.integers(0, 1000)))


def pattern(name, kw):
    """Documented pattern: labels, and the noise-free input."""
    if name == "generate_blocks":
        y = np.array([[int(j >= 6) for j in range(12)] for i in range(10)])
        s = 2 * y - 1.
        return y, np.stack([-s, s], axis=-1), 2
    if name == "generate_checker":
        y = np.array([[int((i - j) % 2) if True else 0 for j in range(13)]
                      for i in range(11)])
        s = 2 * y - 1.
        return y, np.stack([-s, 0 * s], axis=-1), 2
    if name == "generate_big_checker":
        n, f = kw["n_fields"], kw["field_size"]
        y = np.array([[int((i // f - j // f) % 2 == 0) for j in range(n * f)]
                      for i in range(n * f)])
        s = 1. - 2 * y
        return y, np.stack([s, -s], axis=-1), 2
    if name == "generate_blocks_multinomial":
        n = kw["size_x"]
        k = n // 3
        row = [0 if j < k else 2 if j >= n - k else 1 for j in range(n)]
        y = np.array([row] * (n - 2))
        return y, np.eye(3)[y], 3
    if name == "generate_checker_multinomial":
        n = kw["size_x"]
        y = np.zeros((n - 2, n), dtype=int)
        x = np.zeros((n - 2, n, 3))
        for i in range(n - 2):
            for j in range(n):
                y[i, j] = 2 if (i + j) % 2 else i % 2
                x[i, j] = [1 if y[i, j] == c else -1 for c in range(2)] + [0]
        return y, x, 3
    n, f = kw["n_fields"], kw["field_size"]
    y = np.array([[2 * int((i // f - j // f) % 2 == 0) for j in range(n * f)]
                  for i in range(n * f)])
    for i in range(n * f):
        for j in range(n * f):
            if i % 3 == 1 and j % 3 == 1:
                y[i, j] = 3 if (i - j) % 6 == 0 else 1
    return y, 100. * np.eye(4)[y], 4


def f_gauss(c):
    name, kw = c["name"], c["kw"]
    first = call(name, kw)
    X, Y = first
    n, noise = kw["n_samples"], kw["noise"]
    check(len(X) == n and len(Y) == n, "%s(%s): %d inputs, %d labellings",
          name, kw, len(X), len(Y))
    y, s, k = pattern(name, kw)
    X, Y = np.asarray(X), np.asarray(Y)
    check(Y.shape == (n,) + y.shape and X.shape == (n,) + s.shape,
          "%s(%s): shapes %s and %s", name, kw, X.shape, Y.shape)
    labels_ok(Y, k)
    check((Y == y[None]).all(), "%s(%s): labels\n%s\ndocumented pattern\n%s",
          name, kw, Y[0], y)
    g = X - s[None]
    if noise == 0:
        check(np.allclose(g, 0, atol=1e-9), "%s(%s): without noise the inputs "
              "aren't the pattern", name, kw)
    else:
        scale = 100. if name == "generate_big_checker_extended" else 1.
        if name in ("generate_blocks", "generate_big_checker"):
            check(np.allclose(X[..., 0], -X[..., 1]), "%s: the two features "
                  "aren't opposite", name)
            g = g[..., 1]
        elif name == "generate_checker":
            check((X[..., 1] == 0).all(), "%s: second feature isn't zero",
                  name)
            g = g[..., 0]
        z = g.ravel() / (noise * scale)
        check(abs(z.mean()) * np.sqrt(z.size) < 7 and
              abs((z ** 2).mean() - 1) * np.sqrt(z.size / 2.) <
              7 * (1 + 10 / np.sqrt(z.size)), "%s(%s): noise has "
              "mean %r and mean square %r of the level asked for", name, kw,
              z.mean(), (z ** 2).mean())
        if z.size > 1:
            check(len(np.unique(z)) > z.size / 2, "%s(%s): noise repeats",
                  name, kw)
    reproducible(name, kw, first, c["state"])
    usable(first[0], first[1], k)
    note(noise > 0 and n > 1, gen=name)


# ------------------------------------------------------------------ flipped
@st.composite
def flip_case(draw):
    name = draw(st.sampled_from(FLIP))
    kw = dict(n_samples=draw(st.integers(1, 6)),
              noise=draw(st.sampled_from([0, 1, 2, 5, 10, 30])))
    if name in SEED:
        kw[SEED[name]] = draw(st.integers(0, 2 ** 31))
    if name in ("generate_easy", "generate_bars"):
        k = draw(st.integers(1, 4))
        kw["box_size" if name == "generate_easy" else "bars_size"] = k
        kw["total_size"] = draw(st.integers(k + 2, 9))
        if name == "generate_bars":
            kw["separate_labels"] = draw(st.booleans())
    elif name == "generate_square_with_hole":
        kw["total_size"] = draw(st.integers(5, 10))
    elif name == "generate_crosses":
        kw["n_crosses"] = draw(st.integers(1, 2))
        kw["total_size"] = draw(st.integers(
            5 if kw["n_crosses"] == 1 else 10, 11))
    elif name == "generate_crosses_explicit":
        kw["n_crosses"] = draw(st.integers(1, 2))
        kw["size"] = draw(st.integers(4 if kw["n_crosses"] == 1 else 8, 10))
    return dict(name=name, kw=kw, state=draw(st.integers(0, 1000)))


_cache = {}


def options(name, kw):
    """All labellings the generator may return, number of labels, map of
    labels to what the inputs show, number of features."""
    key = (name,) + tuple(sorted((a, b) for a, b in kw.items() if a not in (
        "n_samples", "noise", "seed", "random_seed")))
    if key in _cache:
        return _cache[key]
    if name == "generate_easy":
        k, n = kw["box_size"], kw["total_size"]
        r = two_of([square(k)], n, 1, n - k, 3), 2, [0, 1], n, 2
    elif name == "generate_bars":
        k, n = kw["bars_size"], kw["total_size"]
        v = 2 if kw["separate_labels"] else 1
        r = two_of([[(a, 0, v) for a in range(k)],
                    [(0, a, 1) for a in range(k)]], n, 1, n - k, 3), \
            v + 1, list(range(v + 1)), n, v + 1
    elif name == "generate_square_with_hole":
        n = kw["total_size"]
        r = one_of([HOLE], n, 1, n - 3), 2, [0, 1], n, 2
    elif name == "generate_crosses":
        n = kw["total_size"]
        o = one_of([CROSS], n, 1, n - 3) if kw["n_crosses"] == 1 else \
            two_of([CROSS], n, 1, n - 3, 2)[(n - 4) ** 2:]
        r = o, 2, [0, 1], n, 2
    elif name == "generate_xs":
        r = one_of([XS], 8, 1, 5), 2, [0, 1], 8, 2
    elif name == "generate_easy_explicit":
        r = one_of([EXPL], 9, 1, 6), 4, [0, 1, 1, 1], 9, 4
    elif name == "generate_crosses_explicit":
        n = kw["size"]
        o = one_of([CROSS_E], n, 1, n - 1) if kw["n_crosses"] == 1 else \
            two_of([CROSS_E], n, 1, n - 1, 2)[(n - 2) ** 2:]
        r = o, 3, [0, 1, 1], n, 3
    else:
        E = [(a, b, 3 if v == 2 else 2) for a, b, v in CROSS_E]
        P = [patch(8, E, t, l) for t, l in corners(0, 6)]
        o = []
        for p, q in itertools.product(P, repeat=2):
            o.append(np.where(q > 0, q, p))
        r = o, 4, [0, 1, 1, 1], 8, 2
    r = (np.asarray(r[0]),) + r[1:]
    _cache[key] = r
    return r


def f_flip(c):
    name, kw = c["name"], c["kw"]
    first = call(name, kw)
    X, Y = first
    n, noise = kw["n_samples"], kw["noise"]
    check(len(X) == n and len(Y) == n, "%s(%s): %d inputs, %d labellings",
          name, kw, len(X), len(Y))
    opts, k, seen, size, nf = options(name, kw)
    labels_ok(Y, k)
    seen = np.asarray(seen)
    shown = []
    for x, y in zip(np.asarray(X), np.asarray(Y)):
        check(y.shape == (size, size) and x.shape == (size, size, nf),
              "%s(%s): shapes %s and %s", name, kw, x.shape, y.shape)
        check(member(y, opts), "%s(%s): labelling isn't one of the documented "
              "objects:\n%s", name, kw, y)
        v = seen[y]
        codes = np.eye(nf)[: max(seen) + 1] if nf <= max(seen) + 1 else \
            np.vstack([np.eye(nf)[0], 1 - np.eye(nf)[0]])
        # what the input shows at every cell
        at = (x[:, :, None, :] == codes[None, None]).all(axis=-1)
        check((at.sum(axis=-1) == 1).all(), "%s(%s): input cell isn't an "
              "indicator: %s", name, kw, x[at.sum(axis=-1) != 1][:1].tolist())
        got = at.argmax(axis=-1)
        shown.append(got)
        d = int((got != v).sum())
        check(d <= noise, "%s(%s): %d inputs differ from the labels, noise is "
              "%d", name, kw, d, noise)
    reproducible(name, kw, first, c["state"])
    usable(X, Y, k)
    note(noise > 0 and any((s != seen[y]).any() for s, y in zip(shown, Y)),
         gen=name)


# ---------------------------------------------------------------------- 2x2
@st.composite
def two_case(draw):
    return dict(kw=dict(seed=draw(st.integers(0, 2 ** 31)),
                        n_flips=draw(st.integers(0, 12)),
                        n_samples=draw(st.integers(1, 8))),
                state=draw(st.integers(0, 1000)))


def f_two(c):
    kw = c["kw"]
    first = call("make_simple_2x2", kw)
    X, Y = first
    check(len(X) == kw["n_samples"] and len(Y) == kw["n_samples"],
          "make_simple_2x2(%s): %d inputs, %d labellings", kw, len(X), len(Y))
    opts = [patch(4, square(2), t, l) for t in (0, 2) for l in (0, 2)]
    labels_ok(Y, 2)
    moved = 0
    for x, y in zip(X, Y):
        x, y = np.asarray(x), np.asarray(y)
        check(y.shape == (4, 4) and member(y, opts), "make_simple_2x2: "
              "labelling isn't one of the four corners:\n%s", y)
        check(x.shape == (4, 4) and set(np.unique(x)) <= {-1, 1},
              "make_simple_2x2: input values %s", np.unique(x))
        d = int(((x > 0) != (y > 0)).sum())
        moved += d
        check(d <= kw["n_flips"], "make_simple_2x2: %d inputs differ, %d "
              "flips", d, kw["n_flips"])
    reproducible("make_simple_2x2", kw, first, c["state"])
    note(moved > 0)


# ------------------------------------------------------------------ coverage
@st.composite
def spread_case(draw):
    name = draw(st.sampled_from(["generate_easy", "generate_bars",
                                 "generate_crosses", "make_simple_2x2",
                                 "generate_blocks",
                                 "generate_blocks_multinomial"]))
    return dict(name=name, seed=draw(st.integers(0, 10 ** 6)))


def f_spread(c):
    """Different seeds and samples give different data; the flips hit the
    whole range of labels."""
    name = c["name"]
    key = SEED[name]
    n = 12
    a = call(name, {key: c["seed"], "n_samples": n})
    b = call(name, {key: c["seed"] + 1, "n_samples": n})
    check(not same(a, b), "%s gives the same data for two seeds", name)
    X = [np.asarray(x).tobytes() for x in a[0]]
    check(len(set(X)) > 1, "%s: all %d inputs are equal", name, n)
    if name in ("generate_easy", "generate_bars", "generate_crosses",
                "make_simple_2x2"):
        ys = set(np.asarray(y).tobytes() for y in a[1])
        check(len(ys) > 1, "%s: all %d labellings are equal", name, n)
    note(True, gen=name)


# ------------------------------------------------------------------- loaders
@st.composite
def load_case(draw):
    n = draw(st.integers(1, 4))
    return dict(lens=[draw(st.integers(1, 6)) for _ in range(n)],
                seed=draw(st.integers(0, 10 ** 6)),
                protocol=draw(st.integers(0, 4)),
                which=draw(st.sampled_from(["letters", "letters", "scene",
                                            "snakes"])))


def f_load(c):
    src = os.path.join(env.REPO, "pystruct", "datasets")
    rng = np.random.RandomState(c["seed"])
    d = tempfile.mkdtemp(prefix="pv_data_")
    name = "pv_datasets_copy"
    try:
        pk = os.path.join(d, name)
        shutil.copytree(src, pk, ignore=shutil.ignore_patterns(
            "*.pickle", "__pycache__"))
        if c["which"] == "letters":
            data = dict(data=[rng.randint(0, 2, size=(k, 128)).astype(float)
                              for k in c["lens"]],
                        labels=[rng.randint(0, 26, size=k)
                                for k in c["lens"]],
                        folds=rng.randint(0, 10, size=len(c["lens"])))
        else:
            data = dict(X_train=rng.normal(size=(5, 3)),
                        y_train=rng.randint(0, 2, size=(5, 6)),
                        X_test=rng.normal(size=(2, 3)),
                        y_test=rng.randint(0, 2, size=(2, 6)))
        with open(os.path.join(pk, c["which"] + ".pickle"), "wb") as f:
            pickle.dump(data, f, protocol=c["protocol"])
        for k in [k for k in sys.modules if k.split(".")[0] == name]:
            del sys.modules[k]
        spec = importlib.util.spec_from_file_location(
            name, os.path.join(pk, "__init__.py"),
            submodule_search_locations=[pk])
        m = importlib.util.module_from_spec(spec)
        sys.modules[name] = m
        spec.loader.exec_module(m)
        load = getattr(m, "load_" + c["which"])
        got = load()
        again = load()
    finally:
        for k in [k for k in sys.modules if k.split(".")[0] == name]:
            del sys.modules[k]
        shutil.rmtree(d)
    for k, v in data.items():
        for g in (got, again):
            check(k in g, "load_%s has no %r", c["which"], k)
            check(len(g[k]) == len(v) and all(
                np.array_equal(a, b) for a, b in zip(g[k], v)),
                "load_%s: %r isn't what the file holds", c["which"], k)
    if c["which"] == "letters":
        im = got["images"]
        check(len(im) == len(data["data"]), "%d images of %d words", len(im),
              len(data["data"]))
        for w, i in zip(data["data"], im):
            i = np.asarray(i)
            check(i.shape == (16, 8 * len(w)), "image of a word of %d letters "
                  "has shape %s", len(w), i.shape)
            for p in range(len(w)):
                for r in range(16):
                    for q in range(8):
                        check(i[r, 8 * p + q] == w[p][8 * r + q],
                              "pixel (%d, %d) of letter %d", r, q, p)
    note(c["which"] == "letters" and len(c["lens"]) > 1, which=c["which"])


# -------------------------------------------------------------------- snakes
@st.composite
def snake_case(draw):
    return dict(part=draw(st.sampled_from(["train", "test"])),
                i=draw(st.integers(0, 10 ** 6)))


def f_snake(c):
    from pystruct.datasets import load_snakes
    d = load_snakes()
    X, Y = d["X_" + c["part"]], d["Y_" + c["part"]]
    check(len(X) == len(Y) == (200 if c["part"] == "train" else 100),
          "%d inputs, %d labellings", len(X), len(Y))
    i = c["i"] % len(X)
    x, y = np.asarray(X[i]), np.asarray(Y[i])
    check(x.shape[:2] == y.shape and x.shape[2] == 3, "sample %d has shapes %s"
          " and %s", i, x.shape, y.shape)
    check(y.dtype.kind in "iu" and y.max() <= 10, "labels %s", np.unique(y))
    # every snake has ten cells, labelled from head to tail along the grid
    # (a cell of label k touches one of label k + 1)
    pos = [np.argwhere(y == k) for k in range(1, 11)]
    check(all(len(p) == 1 for p in pos), "sample %d: labels %s", i, y)
    for a, b in zip(pos, pos[1:]):
        check(np.abs(a[0] - b[0]).sum() == 1, "sample %d: snake is broken", i)
    keep_x, keep_y = x.copy(), y.copy()
    X[i][...] = 77
    Y[i][...] = 5
    e = load_snakes()
    check(np.array_equal(e["X_" + c["part"]][i], keep_x) and
          np.array_equal(e["Y_" + c["part"]][i], keep_y),
          "changing loaded data changes what is loaded next")
    note(True, part=c["part"])


LEGS = [
    Leg("gauss", gauss_case(), f_gauss, quick=400, shards=2,
        rule="noise, more than one sample"),
    Leg("flips", flip_case(), f_flip, quick=600, shards=2,
        rule="at least one input differs from its label"),
    Leg("simple", two_case(), f_two, quick=200,
        rule="at least one input differs from its label"),
    Leg("spread", spread_case(), f_spread, quick=120, rule="every case"),
    Leg("loaders", load_case(), f_load, quick=80,
        rule="letters, more than one word"),
    Leg("snakes", snake_case(), f_snake, quick=40, rule="every case")]
RULE = "see each leg"
