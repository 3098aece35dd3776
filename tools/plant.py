"""Plant a bug in a scratch copy of /repo, confirm it and keep it under
/verif/seeded/<id>.

    plant.py SPEC.py [--keep-only]

SPEC.py defines: ID, PROP, EDITS = [(file, old, new), ...], NEEDS, BREAKS and
DEMO (python source: exits 0 on the unchanged tree)."""
import json, os, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "ca7dade"
SC = "/tmp/plant_scratch"
PY = "/opt/venv/bin/python"
KNOWN = ["test_dataset_loading", "test_multinomial_blocks_frankwolfe",
         "doc/user_guide", "test_pyqpbo"]
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
           OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MPLBACKEND="Agg")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def original_lines(f):
    """Line numbers of f in HEAD that are the original repository's."""
    out = sh(["git", "-C", "/repo", "blame", "-s", "-l", BASE + "..HEAD",
              "--", f]).stdout.splitlines()
    return {i + 1 for i, l in enumerate(out) if l.startswith("^")}


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    sid = spec["ID"]
    shutil.rmtree(SC, ignore_errors=True)
    sh(["cp", "-a", "/repo", SC])
    for f, old, new in spec["EDITS"]:
        p = os.path.join(SC, f)
        s = open(p).read()
        if s.count(old) != 1:
            print("EDIT matches %d times in %s" % (s.count(old), f))
            return 1
        open(p, "w").write(s.replace(old, new))
    diff = sh(["git", "-C", SC, "diff"]).stdout
    diff0 = sh(["git", "-C", SC, "diff", "-U0"]).stdout
    cur = None
    for l in diff0.splitlines():
        if l.startswith("+++ b/"):
            cur = l[6:]
            ok = original_lines(cur)
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
        if m:
            a, k = int(m.group(1)), int(m.group(2) or 1)
            bad = [i for i in range(a, a + k) if i not in ok]
            if bad:
                print("NOT ORIGINAL: %s lines %s" % (cur, bad))
    d = os.path.join(ROOT, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(spec["DEMO"].lstrip())
    open(os.path.join(d, "demo.sh"), "w").write(
        '#!/bin/bash\n# run with cwd /repo\nhere="$(cd "$(dirname "$0")" && '
        'pwd)"\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec '
        '/opt/venv/bin/python -W ignore "$here/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=spec["PROP"], needs=spec["NEEDS"],
                   what_it_breaks=spec["BREAKS"]),
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    demo = ["bash", os.path.join(d, "demo.sh")]
    a = sh(demo, cwd="/repo", env=ENV)
    b = sh(demo, cwd=SC, env=ENV)
    print("demo unchanged: %d   with patch: %d   %s" % (
        a.returncode, b.returncode,
        (a.stdout if a.returncode else b.stdout).strip()[-300:]))
    good = a.returncode == 0 and b.returncode != 0
    if "--no-tests" not in sys.argv:
        base = json.load(open("/opt/vp/BASELINE.json"))
        r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8",
                "--timeout=600", "--disable-warnings", "--tb=line",
                "--doctest-glob=*.rst", "pystruct", "doc"], cwd=SC,
               env=dict(ENV, PYTHONPATH=SC))
        tail = r.stdout.strip().splitlines()
        new = [l[:90] for l in tail if l.startswith(("FAILED", "ERROR")) and
               not any(k in l for k in KNOWN)]
        if new:
            # one stable test trains on unseeded data and fails now and then
            ids = [l.split()[1].split(" - ")[0] for l in tail
                   if l.startswith(("FAILED", "ERROR")) and
                   not any(k in l for k in KNOWN)]
            q = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider",
                    "--disable-warnings", "--tb=line"] + ids, cwd=SC,
                   env=dict(ENV, PYTHONPATH=SC))
            if q.returncode == 0:
                print("passed when repeated:", ids)
                new = []
        print("\n".join(new), (tail[-1] if tail else "")[-60:])
        if new:
            good = False
    if "--no-check" not in sys.argv:
        for prop in [spec["PROP"]] + spec.get("ALSO", []):
            r = sh([PY, "pv/run.py", prop], cwd=ROOT,
                   env=dict(ENV, PV_REPO=SC, VERIF_SEED="1"))
            print("check %s exit %d: %s" % (
                prop, r.returncode, " / ".join(
                    r.stdout.strip().splitlines()[-3:])[-400:]))
        sh("rm -f %s/replays/*.json" % ROOT, shell=True)
    shutil.rmtree(SC, ignore_errors=True)
    if not good:
        shutil.rmtree(d)
        print("DROPPED")
    return 0 if good else 1


sys.exit(main())
