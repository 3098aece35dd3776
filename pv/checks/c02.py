from .energy import identity_legs, grid_leg
RULE = ("cases: generated (model, node and edge features, edges, labelling, "
        "weights); non-trivial: an edge with non-zero score and two distinct "
        "states in the labelling")
ASSUMPTIONS = ["float64 arithmetic, relative tolerance 1e-9",
               "simple graphs (no self loops)"]
LEGS = identity_legs(["edge", "dgrid"], quick=2500) \
    + [grid_leg("grid_cells", ["dgrid"], quick=400)]
