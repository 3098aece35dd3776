"""C32: watching a training run does not change it."""
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import gen, zoo
from ..core import Leg, note
from ..zoo import check
from .c13 import same, show
from .c28 import draw_options
from .c31 import _plain
from .learn import TRAIN_KINDS, learners, qp_gave_up, quiet

ASSUMPTIONS = [
    "training is deterministic given NumPy's global random state, which is "
    "set before each run",
    "output is sent to /dev/null; what is printed is not judged",
    "n_jobs is not judged here (it changes the subgradient recursion by "
    "design; the learners' own checks vary it)"]

CURVES = ["objective_curve_", "primal_objective_curve_", "cached_constraint_"]
NAMES = ["nslack", "oneslack", "subgradient", "frankwolfe", "perceptron",
         "latent", "sublatent"]


@st.composite
def case(draw, kinds=TRAIN_KINDS,
         latent_kinds=("latgraph", "latgrid", "latnode")):
    name = draw(st.sampled_from(NAMES))
    kind = draw(st.sampled_from(
        latent_kinds if name in ("latent", "sublatent") else kinds))
    D = zoo.draw_dataset(draw, kind, 1, 4, cap=60, max_nodes=4, project=True,
                         profs=["tie", "unit", "small"], min_states=2,
                         graph_kinds=None if draw(st.booleans())
                         else gen.FOREST_KINDS)
    o = draw_options(draw, name) if name != "latent" else {}
    o.pop("n_jobs", None)
    o.pop("show_loss_every", None)
    if name in ("nslack", "oneslack"):
        o["negativity"] = draw(st.booleans()) and draw(st.booleans())
        o["switch"] = draw(st.booleans()) and kind not in zoo.SINGLE
        o["bad"] = draw(st.booleans()) and draw(st.booleans())
    return dict(D=D, name=name, opts=o,
                method=draw(st.sampled_from(["max-product", "max-product",
                                             "unary", "lp", "ad3"])),
                C=draw(st.sampled_from([0.1, 1.0, 10.0])),
                iters=draw(st.sampled_from([1, 2, 3, 10, 40])),
                seed=draw(st.integers(0, 100)),
                verbose=draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 11, 0])),
                every=draw(st.sampled_from([0, 1, 2, 3])),
                logger=draw(st.sampled_from([None, "list", "save", "load"])),
                steps=[draw(st.sampled_from(["fit", "warm"]))
                       for _ in range(draw(st.integers(1, 2)))])


class Log(list):
    def __call__(self, learner, iteration=0):
        self.append((iteration, np.array(learner.w).tolist()))


def run(c, watched, folder):
    import joblib
    from pystruct.utils import SaveLogger
    L = learners()
    d0 = c["D"][0]
    kind = d0["kind"]
    latent = c["name"] in ("latent", "sublatent")
    model = zoo.make_model(d0, None if kind in zoo.SINGLE else c["method"])
    if kind == "typed":
        model = zoo.make_model(d0, "ad3")
    X, Y = zoo.get_XY(c["D"])
    kw = {}
    o = dict(c["opts"])
    if o.pop("negativity", False):
        o["negativity_constraint"] = [0]
    if o.pop("switch", False):
        o["switch_to"] = "max-product"
    if o.pop("bad", False):
        o["break_on_bad"] = True
    o["max_iter"] = c["iters"]
    if watched:
        o["verbose"] = c["verbose"]
        if c["name"] != "perceptron":
            o["show_loss_every"] = c["every"]
        if c["logger"] == "list":
            o["logger"] = Log()
        elif c["logger"]:
            o["logger"] = SaveLogger(os.path.join(folder, "m_%d.pkl"
                                                  if c["logger"] == "load"
                                                  else "m.pkl"),
                                     save_every=1 + c["every"])
        if c["name"] == "perceptron":
            o.pop("show_loss_every", None)
    if c["name"] != "perceptron":
        o["C"] = c["C"]
    if c["name"] == "latent":
        base = L["oneslack"](model, **o)
        lr = L["latent"](base, latent_iter=2)
    else:
        lr = L[c["name"]](model, **o)
        kw["initialize"] = False
    if latent:
        kw["H_init"] = Y
        Y = [zoo.label_y(d, d["y"]) for d in c["D"]]
    np.random.seed(c["seed"])
    out = []
    for step in c["steps"]:
        k = dict(kw)
        if step == "warm" and c["name"] in ("nslack", "oneslack",
                                            "subgradient", "sublatent"):
            if not out:
                continue
            k["warm_start"] = True
        try:
            with quiet(), joblib.parallel_backend("threading"):
                lr.fit(X, Y, **k)
        except ValueError as e:
            if qp_gave_up(e):
                return None
            if "ad inference" in str(e):
                out.append(("stopped", str(e)[:20]))
                continue
            raise
        r = dict(w=_plain(np.array(lr.w)))
        for n in CURVES:
            if hasattr(lr, n):
                r[n] = [float(v) for v in getattr(lr, n)]
        if hasattr(lr, "constraints_") and c["name"] == "nslack":
            r["constraints"] = [len(s) for s in lr.constraints_]
        elif hasattr(lr, "constraints_"):
            r["constraints"] = len(lr.constraints_)
        with quiet():
            r["predict"] = _plain(lr.predict(X))
            r["score"] = float(lr.score(X, Y))
        out.append(r)
    return out


def fn(c):
    kind = c["D"][0]["kind"]
    if c["name"] == "latent" and set(
            int(v) for d in c["D"] for v in np.ravel(
                zoo.label_y(d, d["y"]))) != set(range(c["D"][0]["n_labels"])):
        note(False, "a label is missing")
        return
    folder = tempfile.mkdtemp(prefix="pvc32")
    try:
        a = run(c, False, folder)
        b = run(c, True, folder)
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    if a is None or b is None:
        check(a is None and b is None, "the QP solver fails only with "
              "verbose=%r, logger %r or only without", c["verbose"],
              c["logger"])
        note(False, "QP solver gave up")
        return
    for i, (x, y) in enumerate(zip(a, b)):
        if isinstance(x, dict) and isinstance(y, dict):
            for k in sorted(set(x) | set(y)):
                check(k in x and k in y and same(x[k], y[k]), "%s, step %d: "
                      "%s is %s, with verbose=%d, logger %s, show_loss_every="
                      "%d it is %s", c["name"], i, k, show(x.get(k)),
                      c["verbose"], c["logger"], c["every"], show(y.get(k)))
        else:
            check(x == y, "%s: step %d: %s, watched %s", c["name"], i,
                  show(x), show(y))
    note(bool(a) and isinstance(a[-1], dict) and
         float(np.abs(a[-1]["w"]).max(initial=0)) > 0 and
         (c["verbose"] > 0 or c["every"] > 0 or c["logger"] is not None),
         learner=c["name"], kind=kind, verbose=c["verbose"],
         logger=c["logger"], every=c["every"])


LEGS = [Leg("watch", case(), fn, quick=700, shards=4,
            rule="non-zero weights, something watched the run")]
RULE = "see each leg"
