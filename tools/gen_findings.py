"""known_findings.jsonl: repaired defects (status fixed; they suppress
nothing).  Written by hand, hashes looked up from /repo's log."""
import json, os, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = [
 ("C06", "is_chain accepts graphs", "inference_dispatch(max-product) on two nodes without edges or with parallel edges takes the chain code"),
 ("C06", "is_forest on graphs without", "max-product on an edgeless graph of several nodes / parallel edges: is_forest wrong"),
 ("C06", "max-product on trees decodes", "max-product on a tree with several optima returns a labelling that is not optimal"),
 ("C06", "inference_max_product ignores its tol", "tol of inference_max_product has no effect"),
 ("C06", "loopy max-product normalizes", "loopy max-product on symmetric agreement problems diverges from the evident optimum"),
 ("C08", "inference_dispatch ignores return_energy", "inference_dispatch(return_energy=True) returns only labels for max-product, unary, qpbo"),
 ("C04", "BinaryClf loss-augmented inference returns label 0", "x.w exactly +-1: loss_augmented_inference gives 0, which is no label"),
 ("C12", "BinaryClf.batch_joint_feature doesn't accept", "batch_joint_feature(X, Y, Y_true) raises TypeError for BinaryClf"),
 ("C18", "FrankWolfeSSVM fails on models with rescale_C", "fit with MultiClassClf(rescale_C=True) raises"),
 ("C22", "FrankWolfeSSVM refit starts", "second fit starts from the old w but zero dual variables; dual values above the optimum"),
 ("C18", "FrankWolfeSSVM fails with check_dual_every=0", "ZeroDivisionError"),
 ("C17", "OneSlackSSVM inference cache fails", "inference_cache>0 with rescale_C raises"),
 ("C17", "OneSlackSSVM.constraint_equal fails", "two relaxed labellings are compared with list == of arrays"),
 ("C17", "OneSlackSSVM.fit fails if no constraint", "warm start at the optimum: UnboundLocalError"),
 ("C19", "SubgradientSSVM mini-batches fail", "n_jobs>1 / batches with rescale_C raise"),
 ("C09", "loss-augmented inference fails with integer", "class_weight=[1, 2] raises in loss_augment_unaries"),
 ("C25", "TypedCRF.initialize checks nothing", "inconsistent typed samples are accepted (lazy map)"),
 ("C03", "TypedCRF.unflattenY fails", "x[0][type] None raises"),
 ("C14", "setInferenceException has no effect", "setInferenceException(True) never raises"),
 ("C02", "directional grids with 8-neighborhood", "8-neighbourhood directional grids have 2 instead of 4 kinds of edges"),
 ("C02", "LatentDirectionalGridCRF ignores neighborhood", "neighborhood=8 treated as 4"),
 ("C09", "LatentDirectionalGridCRF.loss_augmented_inference lacks", "return_energy raises TypeError"),
 ("C15", "latent models choose forbidden states", "large potentials: latent()/inference() return states outside the allowed ones"),
 ("C02", "EdgeFeatureLatentNodeCRF.joint_feature without edges", "joint_feature raises without edges / with integer edge features"),
 ("C15", "LatentNodeCRF.init_latent for samples", "init_latent raises for samples without hidden nodes"),
 ("C22", "setting LatentSSVM.C overwrites", "set_params(C=...) on LatentSSVM sets the weights"),
 ("C22", "LatentSSVM.fit doesn't return self", "fit returns None"),
 ("C21", "SubgradientLatentSSVM fails with n_jobs", "NameError"),
 ("C21", "SubgradientLatentSSVM.score compares", "labels compared with latent states"),
 ("C21", "find_constraint_latent computes the loss", "labels compared with latent states"),
 ("C10", "LatentGraphCRF.max_loss fails", "max_loss(latent labelling) raises / too small"),
 ("C10", "MultiLabelClf.loss fails for a single label", "TypeError"),
 ("C05", "MultiLabelClf.joint_feature of relaxed", "integer x with relaxed y raises"),
 ("C05", "relaxed ad3+ inference returns pairwise", "edge marginals of shape (edges, S, S) mixed up"),
 ("C12", "MultiClassClf.batch_joint_feature fails", "integer X raises"),
 ("C23", "SaveLogger fails on the final save", "file_name with %d: TypeError at the end of fit"),
 ("C23", "SaveLogger loses the inference cache", "a failing save deletes the learner's inference cache"),
 ("C20", "StructuredPerceptron raises a TypeError", "batch with a model without support: wrong exception"),
 ("C22", "training loss curves of several fits", "loss_curve_ of a second fit contains the first one's"),
 ("C11", "FrankWolfeSSVM ignores show_loss_every", "no loss_curve_ recorded"),
]
extra = os.path.join(R, "tools", "extra_findings.json")
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"],
                     capture_output=True, text=True).stdout.splitlines()
out, used = [], set()
if os.path.exists(extra):
    T += [tuple(t) for t in json.load(open(extra))]
for prop, key, what in T:
    m = [l for l in log if ("fix: " + key) in l]
    assert len(m) == 1, (key, m)
    h = m[0].split()[0]
    used.add(h)
    out.append(dict(property=prop, status="fixed", commit=h, what=what,
                    entry="fixed: property=%s %s %s" % (prop, h, what)))
left = [l for l in log if l.split()[0] not in used and " fix: " in " " + l[7:]]
assert not left, left
with open(os.path.join(R, "known_findings.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
print(len(out))
