"""Mutation campaign: random small changes to a scratch copy of /repo, each
judged by the registered checks.  Survivors are listed for reading.

    mutate.py OUT.jsonl SEED N [file-substring]"""
import ast, copy, json, os, random, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/mut_scratch"
PY = "/opt/venv/bin/python"
M, L, I, U = ("pystruct/models/", "pystruct/learners/", "pystruct/inference/",
              "pystruct/utils/")
ORDER = {
    M + "base.py": "C12 C09 C13 C25 C10 C01 C33 C34",
    M + "crf.py": "C01 C02 C09 C12 C25 C06 C08 C07 C05 C26 C31",
    M + "graph_crf.py": "C01 C25 C09 C05 C12 C26 C06",
    M + "chain_crf.py": "C01 C25 C26 C09",
    M + "grid_crf.py": "C01 C02 C05 C25 C27 C09 C26 C12",
    M + "edge_feature_graph_crf.py": "C02 C05 C25 C26 C09 C12",
    M + "latent_graph_crf.py": "C15 C03 C10 C25 C21 C09 C05 C12",
    M + "latent_grid_crf.py": "C15 C10 C25 C21 C09 C05 C12",
    M + "latent_node_crf.py": "C15 C10 C25 C21 C09 C05 C12 C02",
    M + "multilabel_svm.py": "C01 C25 C09 C26 C12",
    M + "typed_crf.py": "C03 C25 C09 C14 C10 C12 C06",
    M + "node_type_edge_feature_graph_crf.py": "C03 C14 C25 C09 C05 C12 C26",
    M + "unstructured_svm.py": "C04 C12 C25 C09 C10 C31",
    I + "maxprod.py": "C06 C26 C13",
    I + "common.py": "C25 C06 C08 C07",
    I + "inference_methods.py": "C08 C06 C07 C14 C25 C05 C35 C31",
    I + "linear_programming.py": "C07 C08 C26",
    L + "ssvm.py": "C11 C22 C29 C16 C28 C33 C34 C32",
    L + "n_slack_ssvm.py": "C16 C22 C28 C29 C21 C32 C33",
    L + "one_slack_ssvm.py": "C17 C22 C28 C29 C21 C32 C33",
    L + "frankwolfe_ssvm.py": "C18 C22 C28 C29 C32 C33",
    L + "subgradient_ssvm.py": "C19 C28 C29 C21 C32",
    L + "subgradient_latent_ssvm.py": "C21 C28 C29 C11",
    L + "downhill_simplex_ssvm.py": "C30",
    L + "structured_perceptron.py": "C20 C28 C22 C29 C32",
    L + "latent_structured_svm.py": "C21 C11 C22 C28 C32 C33",
    U + "inference.py": "C24 C16 C05 C26 C17",
    U + "graph.py": "C24 C01 C02",
    U + "graph_functions.py": "C24 C06",
    U + "logging.py": "C23",
    U + "plotting.py": "C29",
    "pystruct/plot_learning.py": "C29",
    "pystruct/datasets/synthetic_grids.py": "C27",
    "pystruct/datasets/dataset_loaders.py": "C27",
}
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
        ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
        ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In,
        ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
        ast.Div: ast.Mult, ast.And: ast.Or, ast.Or: ast.And}


def noisy(node):
    s = ast.unparse(node)
    return "verbose" in s or "print(" in s


def sites(tree):
    """(description, function that changes a deep copy's node) by index."""
    out = []
    nodes = list(ast.walk(tree))
    skip = set()
    for n in nodes:
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom)):
            skip |= {id(m) for m in ast.walk(n)}
        if isinstance(n, ast.If) and noisy(n.test):
            skip |= {id(m) for m in ast.walk(n)}
        if isinstance(n, ast.If) and "__name__" in ast.unparse(n.test):
            skip |= {id(m) for m in ast.walk(n)}
        if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or
                                        noisy(n)):
            skip |= {id(m) for m in ast.walk(n)}
        if isinstance(n, ast.arguments):
            # defaults: checked as constants
            pass
    for k, n in enumerate(nodes):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and type(n.ops[0]) in SWAP:
            out.append((k, "cmp"))
        if isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in SWAP:
            out.append((k, "bin"))
        if isinstance(n, ast.BoolOp):
            out.append((k, "bool"))
            out.append((k, "drop"))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not,
                                                            ast.USub)):
            out.append((k, "unary"))
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                out.append((k, "flag"))
            elif isinstance(n.value, (int, float)):
                out.append((k, "num"))
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            out.append((k, "neg"))
        if isinstance(n, (ast.AugAssign, ast.Continue, ast.Break)) or \
                (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)) \
                or (isinstance(n, ast.Assign) and not isinstance(
                    n.targets[0], ast.Name)):
            out.append((k, "del"))
        if isinstance(n, ast.Attribute) and n.attr == "copy":
            out.append((k, "nocopy"))
        if isinstance(n, ast.Call) and n.keywords:
            out.append((k, "kw"))
    return out


def mutate(src, k, kind, rng):
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    n = nodes[k]
    before = ast.unparse(n)[:100]
    if kind == "cmp":
        n.ops[0] = SWAP[type(n.ops[0])]()
    elif kind == "bin":
        n.op = SWAP[type(n.op)]()
    elif kind == "bool":
        n.op = SWAP[type(n.op)]()
    elif kind == "drop":
        n.values.pop(rng.randrange(len(n.values)))
        if len(n.values) == 1:
            n.values.append(copy.deepcopy(n.values[0]))
    elif kind == "unary":
        n.op = ast.UAdd() if isinstance(n.op, ast.USub) else ast.Not()
        if isinstance(n.op, ast.Not):
            n.operand = ast.UnaryOp(ast.Not(), n.operand)
    elif kind == "flag":
        n.value = not n.value
    elif kind == "num":
        n.value = n.value + rng.choice([1, -1]) if isinstance(n.value, int) \
            else (n.value * 2 if n.value else 1.)
    elif kind == "neg":
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif kind == "del":
        for p in nodes:
            for f in ("body", "orelse", "finalbody"):
                b = getattr(p, f, None)
                if isinstance(b, list) and n in b:
                    b[b.index(n)] = ast.copy_location(ast.Pass(), n)
    elif kind == "nocopy":
        for p in nodes:
            if isinstance(p, ast.Call) and p.func is n:
                p.func = ast.Name("_ident", ast.Load())
                p.args = [n.value]
                p.keywords = []
        tree.body.append(ast.parse("def _ident(x):\n    return x").body[0])
    elif kind == "kw":
        n.keywords.pop(rng.randrange(len(n.keywords)))
    ast.fix_missing_locations(tree)
    return ast.unparse(tree), getattr(n, "lineno", 0), before, \
        ast.unparse(n)[:100]


def main():
    out, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    sub = sys.argv[4] if len(sys.argv) > 4 else ""
    rng = random.Random(seed)
    shutil.rmtree(SC, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", SC], check=True)
    pool = []
    for f in sorted(ORDER):
        if sub in f:
            src = open(os.path.join("/repo", f)).read()
            pool += [(f, k, t) for k, t in sites(ast.parse(src))]
    rng.shuffle(pool)
    print(len(pool), "sites")
    every = ["C%02d" % i for i in range(1, 38)]
    for f, k, t in pool[:count]:
        src = open(os.path.join("/repo", f)).read()
        p = os.path.join(SC, f)
        try:
            new, line, a, b = mutate(src, k, t, rng)
        except Exception as e:
            print("skip", f, t, e)
            continue
        if ast.unparse(ast.parse(src)) == new:
            continue
        open(p, "w").write(new)
        t0 = time.time()
        killed = None
        first = ORDER[f].split()
        for i in first + ([c for c in every if c not in first]
                          if os.environ.get("ALL") else []):
            try:
                r = subprocess.run(
                    ["timeout", "600", PY, "pv/run.py", i, "--tier", "quick"],
                    cwd=ROOT, env=dict(os.environ, PV_REPO=SC, VERIF_SEED="1",
                                       PV_STALL="200"),
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                    text=True)
            finally:
                pass
            if r.returncode:
                killed = (i, r.returncode,
                          [l for l in r.stdout.splitlines()
                           if l.startswith("  leg")][:1])
                break
        open(p, "w").write(src)
        d = dict(file=f, line=line, kind=t, before=a, after=b, killed=killed,
                 secs=round(time.time() - t0))
        with open(out, "a") as o:
            o.write(json.dumps(d) + "\n")
        print(f, line, t, "|", a, "->", b, "|",
              killed[0] if killed else "SURVIVED", d["secs"], flush=True)
    shutil.rmtree(SC, ignore_errors=True)


main()
