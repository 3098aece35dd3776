"""C01/C02/C03 share the energy identity; see energy.py"""
from .energy import identity_legs, grid_leg
from .. import zoo

RULE = ("cases: generated (model, features, edges, labelling, weights); "
        "non-trivial: at least one edge, a non-zero pairwise score and at "
        "least two distinct states in the labelling (or >= 1 edge for S=1)")
ASSUMPTIONS = ["float64 arithmetic, relative tolerance 1e-9",
               "simple graphs (no self loops)"]
LEGS = identity_legs(["graph", "chain", "grid", "multilabel"], quick=1500) \
    + [grid_leg("grid_cells", ["grid"], quick=300)]
