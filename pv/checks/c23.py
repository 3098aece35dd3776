"""C23: learners written by SaveLogger load back; saving has no side effect."""
import copy
import os
import pickle
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import gen, zoo
from ..core import Leg, note
from ..zoo import check
from .learn import TRAIN_KINDS, TRAIN_PROFILES, fit, learners, quiet

RULE = ("cases: a learner, data, a save interval, a file name pattern and a "
        "history of fits, direct calls and write faults; non-trivial: a save "
        "happened in the middle of training with non-zero weights, or a "
        "write fault hit a trained learner")
ASSUMPTIONS = [
    "all files live in a scratch directory the case creates and removes",
    "the name of the file of the final save under a %d pattern is not fixed, "
    "only that there is exactly one and that it loads"]

NAMES = ["nslack", "oneslack", "subgradient", "frankwolfe", "perceptron",
         "sublatent", "latent"]


# ------------------------------------------------------------ deep comparison
def diff(a, b, path="learner", skip=(), depth=0, tol=0):
    """None, or where two object trees differ."""
    if depth > 12 or a is b:
        return None
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a2, b2 = np.asarray(a), np.asarray(b)
        if a2.shape != b2.shape:
            return "%s: shape %s, %s" % (path, a2.shape, b2.shape)
        if a2.dtype == object:
            return diff(a2.ravel().tolist(), b2.ravel().tolist(), path, skip,
                        depth + 1, tol)
        if a2.dtype != b2.dtype and not tol:
            return "%s: dtype %s, %s" % (path, a2.dtype, b2.dtype)
        if tol and a2.dtype.kind == "f":
            ok = bool(np.allclose(a2, b2, rtol=tol, atol=tol, equal_nan=True))
        else:
            ok = np.array_equal(a2, b2) or (
                a2.dtype.kind == "f" and np.array_equal(a2, b2, True))
        return None if ok else "%s: %s, %s" % (path, a2.tolist(), b2.tolist())
    if isinstance(a, dict) and isinstance(b, dict):
        ka = set(a) - set(skip)
        kb = set(b) - set(skip)
        if ka != kb:
            return "%s: keys %s only in one" % (path, sorted(
                map(str, ka ^ kb)))
        for k in ka:
            d = diff(a[k], b[k], "%s.%s" % (path, k), skip, depth + 1, tol)
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: length %d, %d" % (path, len(a), len(b))
        for i, (u, v) in enumerate(zip(a, b)):
            d = diff(u, v, "%s[%d]" % (path, i), skip, depth + 1, tol)
            if d:
                return d
        return None
    if isinstance(a, (bool, int, float, str, bytes, type(None), np.generic)) \
            or isinstance(b, (bool, int, float, str, bytes, type(None),
                              np.generic)):
        try:
            if a == b or (a != a and b != b):
                return None
            if tol and abs(a - b) <= tol * (1 + abs(a)):
                return None
        except Exception:
            pass
        return "%s: %r, %r" % (path, a, b)
    if type(a) is not type(b):
        return "%s: %s, %s" % (path, type(a), type(b))
    if callable(a) and not hasattr(a, "__dict__"):
        return None
    va, vb = getattr(a, "__dict__", None), getattr(b, "__dict__", None)
    if va is not None and vb is not None:
        return diff(va, vb, path, skip, depth + 1, tol)
    return None


class Spy(object):
    """Forwards to a SaveLogger and looks at the directory before and after
    every call.  Pickled without what it has seen."""

    def __init__(self, inner, where, state):
        self.inner, self.where, self.state = inner, where, state
        self.calls, self.problem, self.mid = [], None, 0

    def __getstate__(self):
        return dict(inner=self.inner, calls=None, problem=None)

    def __call__(self, learner, iteration=0):
        before = listing(self.where)
        snap = copy.deepcopy(without_logger(learner))
        cache = getattr(learner, "inference_cache_", None)
        self.inner(learner, iteration)
        after = listing(self.where)
        self.calls.append(iteration)
        if self.problem is None:
            self.problem = self.judge(learner, iteration, before, after, snap,
                                      cache)

    def judge(self, learner, it, before, after, snap, cache):
        d = diff(snap, without_logger(learner))
        if d:
            return "saving at %r changed the learner: %s" % (it, d)
        if getattr(learner, "inference_cache_", None) is not cache:
            return "saving at %r replaced the inference cache" % (it,)
        d = written(self.state, it, before, after)
        if d or not due(self.state, it):
            return d
        name = [n for n in after if after[n] != before.get(n)]
        path = os.path.join(self.where, name[0])
        if np.abs(learner.w).max(initial=0) > 0 and it != "final":
            self.mid += 1
        return loads_as(learner, path, self.state)


def without_logger(lr):
    return {k: v for k, v in vars(lr).items() if k != "logger"}


def due(s, it):
    return it == "final" or it % s["every"] == 0


def listing(where):
    out = {}
    for n in sorted(os.listdir(where)):
        p = os.path.join(where, n)
        with open(p, "rb") as f:
            out[n] = (os.stat(p).st_mtime_ns, os.stat(p).st_ino, f.read())
    return out


def written(s, it, before, after):
    gone = set(before) - set(after)
    if gone:
        return "file %s disappeared at %r" % (sorted(gone), it)
    ch = [n for n in after if after[n] != before.get(n)]
    if not due(s, it):
        return "%s written at %r with save_every=%d" % (ch, it, s["every"]) \
            if ch else None
    if len(ch) != 1:
        return "%s written at %r with save_every=%d" % (ch, it, s["every"])
    if "%d" not in s["name"]:
        want = s["name"]
    elif it == "final":
        if ch[0] in before and not s["seen_final"]:
            return "the final save overwrote %s" % ch[0]
        s["seen_final"] = True
        return None
    else:
        want = s["name"].replace("%d", str(it))
    if ch[0] != want:
        return "wrote %s at %r, expected %s" % (ch[0], it, want)
    return None


def loads_as(learner, path, s):
    from pystruct.utils import SaveLogger
    try:
        two = SaveLogger(path).load()
    except Exception as e:
        return "%s doesn't load: %r" % (path, e)
    if type(two) is not type(learner):
        return "%s holds a %s" % (path, type(two))
    a, b = dict(vars(learner)), dict(vars(two))
    if b.get("inference_cache_"):
        return "the inference cache was written to the file"
    skip = ("inference_cache_", "logger")
    d = diff(a, b, skip=skip)
    if d:
        return "%s differs from the learner saved: %s" % (
            os.path.basename(path), d)
    if type(getattr(two, "logger", None)) is not type(learner.logger):
        return "loaded logger is %r" % (two.logger,)
    if s.get("X") is not None:
        with quiet():
            p, q = learner.predict(s["X"]), two.predict(s["X"])
        d = diff(list(p), list(q), "predictions")
        if d:
            return "the loaded learner predicts otherwise: %s" % d
    return None


# -------------------------------------------------------------------- history
@st.composite
def case(draw):
    name = draw(st.sampled_from(NAMES))
    kind = draw(st.sampled_from(["latgraph", "latnode", "latgrid"]
                                if name in ("latent", "sublatent")
                                else TRAIN_KINDS))
    D = zoo.draw_dataset(draw, kind, 2, 5, cap=60, max_nodes=4, project=True,
                         profs=TRAIN_PROFILES, min_states=2,
                         graph_kinds=gen.FOREST_KINDS)
    c = dict(name=name, D=D, every=draw(st.sampled_from([1, 2, 3, 5, 10, 100])),
             pattern=draw(st.sampled_from(
                 ["m.pickle", "m_%d.pickle", "%d", "a%db", "m"])),
             iters=draw(st.sampled_from([1, 2, 4, 7, 25])),
             C=draw(st.sampled_from([1.0, 0.1, 10.0])),
             sub=draw(st.booleans()))
    o = {}
    if name == "oneslack":
        o.update(inference_cache=draw(st.sampled_from([0, 1, 10])),
                 tol=1e-3)
    elif name == "nslack":
        o.update(tol=draw(st.sampled_from([-10, 1e-3])),
                 batch_size=draw(st.sampled_from([100, 1])))
    elif name == "frankwolfe":
        o.update(batch_mode=draw(st.booleans()), random_state=1,
                 check_dual_every=draw(st.sampled_from([1, 10, 0])))
    elif name == "perceptron":
        o.update(batch=draw(st.booleans()),
                 average=draw(st.sampled_from([False, 0, 1, -1])))
    elif name == "latent":
        o.update(latent_iter=draw(st.sampled_from([1, 2, 4])))
        c["base"] = draw(st.sampled_from(["nslack", "oneslack",
                                          "subgradient"]))
    c["opts"] = o
    c["steps"] = draw(st.lists(st.sampled_from(
        ["fit", "call", "call", "default", "final", "fault", "refit",
         "renamed"]), min_size=1, max_size=5))
    c["its"] = [int(v) for v in gen.ints(draw, 8, 31)]
    c["fault"] = draw(st.sampled_from(["full", "missing", "bomb", "bomb",
                                       "interrupt", "directory"]))
    c["fuse"] = draw(st.integers(0, 3))
    return c


def build(c, logger):
    m = zoo.make_model(c["D"][0], None if c["D"][0]["kind"] in zoo.FLAT
                       else "max-product")
    L, o = learners(), dict(c["opts"])
    if c["name"] == "latent":
        return L["latent"](L[c["base"]](m, C=c["C"], max_iter=c["iters"]),
                           logger=logger, **o)
    if c["name"] == "perceptron":
        return L["perceptron"](m, max_iter=c["iters"], logger=logger, **o)
    return L[c["name"]](m, C=c["C"], max_iter=c["iters"], logger=logger, **o)


def train(c, lr):
    np.random.seed(5)           # the latent subgradient learner starts there
    X, Y = zoo.get_XY(c["D"])
    if c["name"] in ("latent", "sublatent"):
        D = c["D"]
        seen = set()
        for d in D:
            seen |= set(np.ravel(zoo.label_y(d, d["y"])).tolist())
        if len(seen) != D[0]["n_labels"]:
            return None
        H = Y
        Y = [zoo.label_y(d, d["y"]) for d in D]
        ok = fit(lr, X, Y, H_init=H, initialize=False)
    else:
        ok = fit(lr, X, Y, initialize=False)
    return X if ok else None


class Bomb(object):
    """Cannot be written; everything before it can."""

    def __init__(self, kind):
        self.kind = kind

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        if self.kind == "interrupt":
            raise KeyboardInterrupt()
        raise pickle.PicklingError("bomb")


def fault(c, lr, where):
    """A failing save leaves the learner as it was."""
    from pystruct.utils import SaveLogger
    path = os.path.join(where, "fault")
    k = c["fault"]
    if k == "full":
        if not os.path.exists("/dev/full"):
            return
        os.symlink("/dev/full", path)
    elif k == "missing":
        path = os.path.join(where, "no", "such", "fault")
    elif k == "directory":
        os.mkdir(path)
    bomb = k in ("bomb", "interrupt")
    if bomb:
        # somewhere the writer reaches late or early
        v = vars(lr)
        keys = sorted(v)
        if c["fuse"] == 0:
            lr.bomb = Bomb(k)
        elif c["fuse"] == 1:
            lr.model.bomb = Bomb(k)
        else:
            rest = {n: v[n] for n in keys[len(keys) // 2:]}
            for n in rest:
                del v[n]
            lr.bomb = Bomb(k)
            v.update(rest)
    snap = copy.deepcopy(without_logger(lr))
    cache = getattr(lr, "inference_cache_", None)
    lg, keep = SaveLogger(path, save_every=1), lr.logger
    lr.logger = None
    try:
        with quiet():
            lg(lr, "final")
    except (Exception, KeyboardInterrupt):
        note(True, fault=k)
    finally:
        lr.logger = keep
    d = diff(snap, without_logger(lr))
    check(d is None, "a save failing (%s) changed the learner: %s", k, d)
    check(getattr(lr, "inference_cache_", None) is cache, "a save failing "
          "(%s) replaced the inference cache", k)
    if bomb:
        (lr.model if c["fuse"] == 1 else lr).__dict__.pop("bomb")
    if k == "directory":
        os.rmdir(path)
    elif os.path.lexists(path):
        os.unlink(path)


def fn(c):
    from pystruct.utils import SaveLogger
    where = tempfile.mkdtemp(prefix="pvsave")
    try:
        name = c["pattern"]
        s = dict(every=c["every"], name=name, seen_final=False, X=None)
        inner = SaveLogger(os.path.join(where, name), save_every=c["every"])
        spy = Spy(inner, where, s)
        lr = build(c, spy)
        plain = build(c, None)
        X = train(c, lr)
        Z = train(c, plain)
        check((X is None) == (Z is None), "training %s with a logger only",
              "fails" if X is None else "succeeds")
        if X is None:
            return
        check(spy.problem is None, "%s", spy.problem)
        no_t = ("logger", "timestamps_", "inference_cache_", "base_ssvm")
        d = diff(vars(plain), vars(lr), skip=no_t)
        check(d is None, "training with a logger ends elsewhere: %s", d)
        its = [i for i in spy.calls if i != "final"]
        check(its == sorted(set(its)), "logger called with %s", spy.calls)
        if c["name"] != "latent":
            check(spy.calls and spy.calls[-1] == "final" and
                  spy.calls.count("final") == 1, "logger called with %s",
                  spy.calls)
            if "%d" not in name:
                back = inner.load()
                d = diff(np.asarray(lr.w), np.asarray(back.w), "w")
                check(d is None, "the last file isn't the learner fit "
                      "returned: %s", d)
        else:
            check(len(its) >= 1, "logger never called")
        s["X"] = X
        note(spy.mid > 0, name=c["name"], pattern=name,
             kind=c["D"][0]["kind"])
        its = iter(c["its"])
        for step in c["steps"]:
            it = int(next(its))
            if step == "call":
                spy(lr, it)
            elif step == "default":
                before = listing(where)
                inner(lr)
                d = written(s, 0, before, listing(where))
                check(d is None, "default call: %s", d)
            elif step == "final":
                spy(lr, "final")
            elif step == "fault":
                fault(c, lr, where)
            elif step == "renamed":
                # as a user who keeps a model under another name
                p = os.path.join(where, "other%d" % it)
                lg = SaveLogger("unused")
                lg.save(lr, p)
                d = loads_as(lr, p, s)
                check(d is None, "%s", d)
                lg.file_name = p
                d = diff(np.asarray(lr.w), np.asarray(lg.load().w), "w")
                check(d is None, "load after renaming: %s", d)
            else:
                if step == "refit":
                    lr.C = 3.0 if c["name"] not in ("perceptron", "latent") \
                        else getattr(lr, "C", None) or 1
                s["X"] = None
                spy.calls = []
                if train(c, lr) is None:
                    return
                s["X"] = X
            check(spy.problem is None, "%s (step %s)", spy.problem, step)
    finally:
        shutil.rmtree(where)


LEGS = [Leg("history", case(), fn, quick=1400, shards=8, rule=RULE)]
