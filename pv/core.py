"""Legs, case encoding, the parallel driver, evidence and replay files.

A *leg* is one executable statement of (part of) a property: a Hypothesis
strategy that draws a plain-data case and a function that runs the real code
on the case and judges it against an independent oracle.  A case is JSON
encodable, so a shrunk counterexample becomes a replay file that needs neither
Hypothesis nor the generator.
"""
import hashlib
import json
import multiprocessing
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback

import numpy as np

from . import env


class Violation(AssertionError):
    """The oracle found the property broken."""


class Leg(object):
    def __init__(self, name, strategy, fn, quick=200, thorough=None, shards=1,
                 rule=""):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.shards = shards
        self.rule = rule


# ---------------------------------------------------------------- encoding
def enc(o):
    if isinstance(o, np.ndarray):
        return {"__nd__": str(o.dtype), "shape": list(o.shape),
                "data": [enc(v) for v in o.ravel().tolist()]}
    if isinstance(o, tuple):
        return {"__tuple__": [enc(v) for v in o]}
    if isinstance(o, (list,)):
        return [enc(v) for v in o]
    if isinstance(o, dict):
        return {str(k): enc(v) for k, v in o.items()}
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, bytes):
        return {"__bytes__": o.hex()}
    return o


def dec(o):
    if isinstance(o, dict):
        if "__nd__" in o:
            return np.array([dec(v) for v in o["data"]],
                            dtype=o["__nd__"]).reshape(o["shape"])
        if "__tuple__" in o:
            return tuple(dec(v) for v in o["__tuple__"])
        if "__bytes__" in o:
            return bytes.fromhex(o["__bytes__"])
        return {k: dec(v) for k, v in o.items()}
    if isinstance(o, list):
        return [dec(v) for v in o]
    return o


def digest(case):
    h = hashlib.blake2b(digest_size=10)

    def go(o):
        if isinstance(o, np.ndarray):
            h.update(b"a" + str(o.dtype).encode() + str(o.shape).encode()
                     + o.tobytes())
        elif isinstance(o, (list, tuple)):
            h.update(b"l%d" % len(o))
            for v in o:
                go(v)
        elif isinstance(o, dict):
            h.update(b"d%d" % len(o))
            for k in sorted(o):
                h.update(str(k).encode())
                go(o[k])
        else:
            h.update(repr(o).encode())
    go(case)
    return h.digest()


# ---------------------------------------------------------------- recording
class Recorder(object):
    """What one worker saw.  `note` is called by leg functions."""

    def __init__(self):
        self.evaluations = 0
        self.seen = set()
        self.nontrivial = 0
        self.labels = {}
        self.samples = []
        self.frozen = False
        self.cur = None

    def begin(self, case):
        self.cur = dict(nontrivial=False, labels=[])

    def end(self, case):
        if self.frozen:
            return
        self.evaluations += 1
        for l in self.cur["labels"]:
            self.labels[l] = self.labels.get(l, 0) + 1
        if self.cur["nontrivial"]:
            d = digest(case)
            if d not in self.seen:
                self.seen.add(d)
                self.nontrivial += 1
                if len(self.samples) < 2 and self.nontrivial in (3, 40):
                    self.samples.append(enc(case))


REC = Recorder()


def note(nontrivial=None, *labels, **kw):
    if REC.cur is None:
        return
    if nontrivial:
        REC.cur["nontrivial"] = True
    REC.cur["labels"].extend(labels)
    REC.cur["labels"].extend("%s=%s" % kv for kv in sorted(kw.items()))


# ---------------------------------------------------------------- judging
HARNESS_ERRORS = (ImportError, MemoryError, OSError)


def is_violation(exc):
    """A Violation, or an exception out of (or provoked by) the code under
    test on an input of the property's domain.  Import/memory/OS errors that
    do not pass through /repo are errors of the check."""
    if isinstance(exc, AssertionError):
        return True
    tb = exc.__traceback__
    in_repo = False
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(env.REPO + os.sep):
            in_repo = True
        tb = tb.tb_next
    if isinstance(exc, MemoryError):
        return False
    if in_repo:
        return True
    return isinstance(exc, (TypeError, ValueError, IndexError, KeyError,
                            ArithmeticError, AttributeError, RuntimeError)) \
        and not isinstance(exc, HARNESS_ERRORS)


def run_leg(prop, leg, n, seed, tier, shard, tracefile=None):
    """Executed in a worker process; returns a plain dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as _eng
    if hasattr(_eng, "MAX_SHRINKING_SECONDS"):
        _eng.MAX_SHRINKING_SECONDS = 45
    global REC
    REC.__init__()
    state = dict(case=None, exc=None)
    hseed = int.from_bytes(hashlib.sha256(
        ("%s/%s/%s/%d" % (seed, prop, leg.name, shard)).encode()
    ).digest()[:7], "big")

    @hypothesis.seed(hseed)
    @settings(max_examples=n, database=None, deadline=None,
              phases=(Phase.generate, Phase.shrink),
              report_multiple_bugs=False, print_blob=False,
              verbosity=hypothesis.Verbosity.quiet,
              suppress_health_check=[HealthCheck.too_slow,
                                     HealthCheck.data_too_large,
                                     HealthCheck.large_base_example])
    @given(leg.strategy)
    def test(case):
        frozen = dec(enc(case)) if tracefile else None
        if tracefile:
            with open(tracefile, "wb") as f:
                pickle.dump(frozen, f)
        REC.begin(case)
        # the leg may not see an array the generator (or an earlier run of
        # the same example) owns
        mine = pickle.loads(pickle.dumps(case))
        try:
            leg.fn(mine)
        except BaseException as e:
            if is_violation(e):
                REC.frozen = True
                state["case"], state["exc"] = case, e
            raise
        REC.end(case)

    t0 = time.time()
    out = dict(leg=leg.name, shard=shard, status="ok", requested=n)
    try:
        with open(os.devnull, "w") as dn:
            so, se = sys.stdout, sys.stderr
            sys.stdout = dn
            try:
                test()
            finally:
                sys.stdout, sys.stderr = so, se
    except BaseException as e:
        if state["exc"] is not None:
            ex = state["exc"]
            out["status"] = "violation"
            out["case"] = enc(state["case"])
            out["message"] = "".join(traceback.format_exception_only(
                type(ex), ex)).strip()[:1500]
            out["trace"] = "".join(traceback.format_exception(
                type(ex), ex, ex.__traceback__))[-3000:]
        else:
            out["status"] = "error"
            out["message"] = "".join(traceback.format_exception(
                type(e), e, e.__traceback__))[-3000:]
    out.update(evaluations=REC.evaluations, nontrivial=REC.nontrivial,
               labels=REC.labels, samples=REC.samples,
               seen=[d.hex() for d in REC.seen] if leg.shards > 1 else [],
               wall=time.time() - t0)
    return out


def _child(conn, prop, leg, n, seed, tier, shard, tracefile):
    import faulthandler
    import joblib
    # a group of its own, so that whatever the code under test starts can be
    # ended with the task, and no output stream that it could keep open
    os.setpgid(0, 0)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    if not os.environ.get("PV_DEBUG"):
        os.dup2(dn, 2)
    faulthandler.dump_traceback_later(_limit(tier) - 5)
    joblib.parallel_backend("threading")
    try:
        res = run_leg(prop, leg, n, seed, tier, shard, tracefile)
    except BaseException:
        res = dict(leg=leg.name, shard=shard, status="error",
                   message=traceback.format_exc()[-3000:], evaluations=0,
                   nontrivial=0, labels={}, samples=[], seen=[], wall=0,
                   requested=n)
    try:
        conn.send(res)
        conn.close()
    finally:
        os._exit(0)


QUICK = 2.5             # the quick tier, in multiples of a leg's base count
CASE_LIMIT = 120        # seconds one case may take when tasks are repeated


def _limit(tier):
    """Seconds a task may take before it is repeated case by case."""
    return float(os.environ.get("PV_STALL") or
                 (300 if tier == "quick" else 3600))


def _stalled(item, tier):
    p, r, leg, n, s, trace, t0 = item
    if trace is None:
        return time.time() - t0 > _limit(tier)
    try:
        return time.time() - os.path.getmtime(trace) > CASE_LIMIT
    except OSError:
        return time.time() - t0 > CASE_LIMIT


def _end_group(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (OSError, ProcessLookupError):
        pass


def drive(prop, legs, tier, seed, workers=8, only=None, scale=1.0):
    """Run all (leg, shard) tasks in forked workers; return results."""
    ctx = multiprocessing.get_context("fork")
    tasks = []
    for leg in legs:
        if only and leg.name not in only:
            continue
        n = leg.quick * QUICK if tier == "quick" else leg.thorough
        n = max(1, int(n * scale))
        shards = 2 * leg.shards if tier == "quick" else max(leg.shards, 8)
        shards = max(1, min(shards, n))
        leg.shards = shards
        for s in range(shards):
            tasks.append((leg, n // shards + (1 if s < n % shards else 0), s,
                          None))
    results, running = [], []
    tmp = tempfile.mkdtemp(prefix="pvrun")
    try:
        while tasks or running:
            while tasks and len(running) < workers:
                leg, n, s, trace = tasks.pop(0)
                r, w = ctx.Pipe(False)
                p = ctx.Process(target=_child, args=(w, prop, leg, n, seed,
                                                     tier, s, trace))
                p.start()
                w.close()
                running.append((p, r, leg, n, s, trace, time.time()))
            multiprocessing.connection.wait(
                [item[1] for item in running], timeout=1.0)
            still = []
            for item in running:
                p, r, leg, n, s, trace, t0 = item
                got = None
                stalled = False
                if r.poll():
                    try:
                        got = r.recv()
                    except EOFError:
                        got = None
                        p.join()
                elif p.is_alive():
                    if not _stalled(item, tier):
                        still.append(item)
                        continue
                    stalled = True
                    p.kill()
                p.join()
                _end_group(p)
                r.close()
                if got is not None:
                    results.append(got)
                elif trace is None and (stalled or (
                        p.exitcode is not None and p.exitcode < 0
                        and p.exitcode != -signal.SIGKILL)):
                    # the code under test brought the process down or doesn't
                    # return: run the same task again, recording each case
                    tasks.append((leg, n, s,
                                  os.path.join(tmp, "%s-%d" % (leg.name, s))))
                elif trace is not None and os.path.exists(trace):
                    with open(trace, "rb") as f:
                        case = pickle.load(f)
                    results.append(dict(
                        leg=leg.name, shard=s, status="violation",
                        case=enc(case), evaluations=0, nontrivial=0,
                        labels={}, samples=[], seen=[], wall=0, requested=n,
                        message="no result after %d seconds" % CASE_LIMIT
                                if stalled else "process died with signal %s"
                                % (-(p.exitcode or 0)), trace=""))
                else:
                    results.append(dict(
                        leg=leg.name, shard=s, status="error", evaluations=0,
                        nontrivial=0, labels={}, samples=[], seen=[], wall=0,
                        requested=n, message="worker ended with exit code %s"
                        % p.exitcode))
            running = still
    finally:
        import shutil
        for p, r, *_ in running:
            p.terminate()
            _end_group(p)
        shutil.rmtree(tmp, ignore_errors=True)
    return results


def known_findings(prop):
    """Committed list of genuine, unrepaired defects (and of repaired ones)."""
    path = os.path.join(env.VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("#") and line.startswith("{"):
                e = json.loads(line)
                if e.get("property") == prop:
                    out.append(e)
    return out


def main(prop, legs, rule, assumptions, tier, seed, only=None, scale=1.0,
         level="exploration", workers=8):
    t0 = time.time()
    results = drive(prop, legs, tier, seed, workers=workers, only=only,
                    scale=scale)
    by = {l.name: l for l in legs}
    viol = [r for r in results if r["status"] == "violation"]
    errs = [r for r in results if r["status"] == "error"]
    per_leg, samples = {}, []
    ev = nt = 0
    for name in by:
        rs = [r for r in results if r["leg"] == name]
        if not rs:
            continue
        e = sum(r["evaluations"] for r in rs)
        if by[name].shards > 1:
            seen = set()
            for r in rs:
                seen.update(r["seen"])
            k = len(seen)
        else:
            k = sum(r["nontrivial"] for r in rs)
        labels = {}
        for r in rs:
            for a, b in r["labels"].items():
                labels[a] = labels.get(a, 0) + b
        per_leg[name] = dict(evaluations=e, distinct_nontrivial=k,
                             nontrivial_rule=by[name].rule,
                             classes=dict(sorted(labels.items())),
                             cpu_s=round(sum(r["wall"] for r in rs), 2))
        ev += e
        nt += k
        for r in rs:
            if r["samples"] and len(samples) < 6:
                s = r["samples"][0]
                if len(json.dumps(s)) < 6000:
                    samples.append(dict(leg=name, case=s))
                    break
    evidence = dict(
        property=prop, tier=tier, seed=int(seed), level=level,
        coverage=dict(evaluations=ev, distinct_nontrivial=nt, rule=rule,
                      samples=samples, legs=per_leg),
        assumptions=assumptions, wall_s=round(time.time() - t0, 2),
        violations=len(viol))
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    if not only:
        path = os.path.join(env.VERIF, "evidence", prop + ".json")
        with open(path + ".part", "w") as f:
            json.dump(evidence, f, indent=1)
        os.replace(path + ".part", path)
    for name, d in per_leg.items():
        print("%s %-28s evaluations=%d nontrivial=%d cpu=%.1fs"
              % (prop, name, d["evaluations"], d["distinct_nontrivial"],
                 d["cpu_s"]))
    code = 0
    listed = []
    for k in known_findings(prop):
        if k.get("status") != "known":
            continue
        listed.append(k)
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for r in errs:
        print("ERROR in %s/%s: %s" % (prop, r["leg"], r["message"]))
        code = 2
    shown = set()
    for r in viol:
        if r["leg"] in shown:
            continue
        shown.add(r["leg"])
        rd = os.path.join(env.VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        body = json.dumps(dict(property=prop, leg=r["leg"], case=r["case"],
                               message=r["message"], trace=r["trace"],
                               seed=int(seed), tier=tier), indent=1)
        path = os.path.join(rd, "%s-%s-%s.json" % (
            prop, r["leg"], hashlib.sha1(body.encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            f.write(body)
        print("  leg %s: %s" % (r["leg"], r["message"].replace("\n", " ")[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    if not errs and not viol and ev == 0:
        print("ERROR: nothing was evaluated")
        code = 2
    print("%s %s seed=%s: %d cases, %d distinct non-trivial, %.1fs -> exit %d"
          % (prop, tier, seed, ev, nt, time.time() - t0, code))
    return code
