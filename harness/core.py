"""
Runner for the property checks.

A property is a list of *targets*.  A target has a Hypothesis strategy that
produces plain JSON data (a *spec*) and a function check(spec, ctx) that builds
the objects of the code under test from the spec, runs them and compares with
an oracle.  The spec of a failing case, shrunk by Hypothesis, is the replay
file; replaying bypasses Hypothesis.

Outcomes: exit 0 (held), exit 1 + VIOLATION line, exit 2 (harness error).
"""
import contextlib
import hashlib
import json
import mmap
import os
import resource
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


class Violation(Exception):
    """the code under test breaks the property on this case"""


class Skip(Exception):
    """the case lies outside the domain of the property (counted)"""


class _Hang(BaseException):
    """CPU budget of a single case exhausted"""


class _Stop(BaseException):
    """shrinking budget exhausted"""


CASE_CPU_S = 60         # a case takes milliseconds; see DESIGN.md
SHRINK_CPU_S = 25


class Ctx(object):
    """what a check may report about one case"""

    def __init__(self):
        self.labels = []
        self.nontrivial = False

    def label(self, *names):
        self.labels.extend(names)

    def skip(self, why):
        raise Skip(why)

    def fail(self, msg):
        raise Violation(msg)

    def require(self, cond, msg, *args):
        if not cond:
            raise Violation(msg % args if args else msg)

    @contextlib.contextmanager
    def lib(self, what):
        """runs code under test: any exception on an in-domain case breaks
        the property"""
        try:
            yield
        except (Violation, Skip):
            raise
        except Exception as e:
            raise Violation("%s raised %s: %s%s" % (
                what, type(e).__name__, str(e)[:200], _where(e)))

    def call(self, what, fn, *args, **kwargs):
        with self.lib(what):
            return fn(*args, **kwargs)

    def expect_raise(self, what, exc, fn, *args, **kwargs):
        try:
            r = fn(*args, **kwargs)
        except exc:
            return
        except Exception as e:
            raise Violation("%s raised %s(%s) instead of %s%s" % (
                what, type(e).__name__, str(e)[:100], _names(exc), _where(e)))
        raise Violation("%s returned %r instead of raising %s" % (
            what, r, _names(exc)))

    def close(self, what, got, want, rtol=1e-8, atol=None, bcast=False):
        """got is from the code under test, want from the oracle; tolerance
        relative to the scale of the oracle's array"""
        import numpy as np
        want = np.asarray(want, dtype=float)
        with self.lib(what):
            got = np.asarray(got)
            if got.dtype == object:
                got = got.astype(float)
            if bcast:
                got = np.broadcast_to(got, want.shape)
        if got.shape != want.shape:
            raise Violation("%s: shape %s instead of %s" % (
                what, got.shape, want.shape))
        if want.size == 0:
            return
        if atol is None:
            atol = rtol * (1 + np.abs(want).max())
        err = np.abs(got - want)
        if not np.all(err <= atol):
            k = np.unravel_index(np.argmax(np.where(
                np.isnan(err), np.inf, err)), err.shape)
            raise Violation("%s: at %s got %r instead of %r (tolerance %.1e)"
                            % (what, tuple(int(i) for i in k),
                               float(got[k]), float(want[k]), atol))


def _names(exc):
    return "/".join(e.__name__ for e in exc) if isinstance(exc, tuple) \
        else exc.__name__


def _where(e):
    fr = [t for t in traceback.extract_tb(e.__traceback__)
          if t.filename.startswith(REPO + "/")]
    return " (%s:%d)" % (fr[-1].filename[len(REPO) + 1:], fr[-1].lineno) \
        if fr else ""


class Target(object):
    """
    strategy: tier -> hypothesis strategy of JSON-able specs
    check(spec, ctx): raises Violation / Skip
    n: number of generated cases in the quick tier (all shards together);
       thorough multiplies it
    """
    def __init__(self, name, strategy, check, n, rule="", thorough=12):
        self.name, self.strategy, self.check = name, strategy, check
        self.n, self.rule, self.thorough = n, rule, thorough


class Prop(object):
    def __init__(self, pid, targets, rule, assumptions=()):
        self.pid, self.targets, self.rule = pid, targets, rule
        self.assumptions = list(assumptions)

    def target(self, name):
        return [t for t in self.targets if t.name == name][0]


# --------------------------------------------------------------------------
def run_case(target, spec):
    """-> (outcome, message, ctx) with outcome ok | skip | violation | hang"""
    ctx = Ctx()
    _alarm(CASE_CPU_S)
    try:
        target.check(spec, ctx)
        return "ok", "", ctx
    except Skip as e:
        return "skip", str(e), ctx
    except Violation as e:
        return "violation", str(e), ctx
    except Exception as e:
        # results that the check can't even compare
        return "violation", "comparing the results failed with %s: %s%s" % (
            type(e).__name__, str(e)[:200], _where(e)), ctx
    except _Hang:
        return "hang", "no result after %d s of CPU time" % CASE_CPU_S, ctx
    finally:
        _alarm(0)


def _alarm(s):
    signal.setitimer(signal.ITIMER_PROF, s)


def _on_alarm(signum, frame):
    raise _Hang()


def seed_of(*parts):
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


def dumps(spec):
    return json.dumps(spec, sort_keys=True, separators=(",", ":"))


NOTE_SIZE = 1 << 20


class Note(object):
    """memory shared with a shard: the case it is working on"""

    def __init__(self):
        self.map = mmap.mmap(-1, NOTE_SIZE)

    def __call__(self, target, text):
        b = (target + "\n" + text).encode()
        if len(b) + 4 <= NOTE_SIZE:
            self.map[4:4 + len(b)] = b
            self.map[:4] = len(b).to_bytes(4, "big")

    def read(self):
        n = int.from_bytes(self.map[:4], "big")
        if not n:
            return None
        target, text = self.map[4:4 + n].decode().split("\n", 1)
        return {"target": target, "spec": json.loads(text)}


def crashed(status):
    """the signal of a crash, or None"""
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) not in (
            signal.SIGKILL, signal.SIGTERM, signal.SIGINT):
        return os.WTERMSIG(status)
    return None


def run_shard(prop, tier, seed, shard, shards, only=None,
              note=lambda target, text: None):
    """explore all targets of prop; returns a JSON-able result"""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    signal.signal(signal.SIGPROF, _on_alarm)
    res = {"targets": {}, "violation": None}
    for target in prop.targets:
        if only and target.name not in only:
            continue
        total = target.n * (target.thorough if tier == "thorough" else 1)
        n = total // shards + (1 if shard < total % shards else 0)
        if n == 0:
            continue
        st = {"evaluations": 0, "skipped": {}, "labels": {}, "hashes": set(),
              "samples": [], "wall": 0.0}
        t0 = time.time()
        best = {"spec": None, "msg": None, "len": None, "cpu": None}

        def one(spec):
            if best["cpu"] is None:
                st["evaluations"] += 1
            elif time.process_time() - best["cpu"] > SHRINK_CPU_S:
                raise _Stop()
            # work on a copy: the check can't disturb the generator's data
            text = dumps(spec)
            note(target.name, text)
            out, msg, ctx = run_case(target, json.loads(text))
            if out == "violation" or out == "hang":
                if best["cpu"] is None:
                    best["cpu"] = time.process_time()
                if best["len"] is None or len(text) <= best["len"]:
                    best.update(spec=json.loads(text), msg=msg, len=len(text))
                if out == "hang":
                    raise _Stop()
                raise Violation("found")    # one origin: one bug at a time
            if best["cpu"] is not None:
                return
            if out == "skip":
                st["skipped"][msg] = st["skipped"].get(msg, 0) + 1
                return
            for l in ctx.labels:
                st["labels"][l] = st["labels"].get(l, 0) + 1
            if ctx.nontrivial:
                h = hashlib.sha256(text.encode()).hexdigest()[:16]
                if h not in st["hashes"]:
                    st["hashes"].add(h)
                    if len(st["samples"]) < 2 and len(st["hashes"]) > 3:
                        st["samples"].append(text[:1500])

        test = given(target.strategy(tier))(one)
        test = settings(
            max_examples=n, database=None, deadline=None,
            phases=[Phase.generate, Phase.shrink], derandomize=False,
            report_multiple_bugs=False, print_blob=False,
            suppress_health_check=list(HealthCheck))(test)
        test = hypothesis.seed(
            seed_of(seed, prop.pid, target.name, shard))(test)
        try:
            test()
        except BaseException as e:
            if best["spec"] is None or isinstance(e, KeyboardInterrupt):
                raise
        st["wall"] = time.time() - t0
        st["hashes"] = sorted(st["hashes"])
        res["targets"][target.name] = st
        if best["spec"] is not None:
            res["violation"] = {"target": target.name, "spec": best["spec"],
                                "msg": best["msg"]}
            break
    return res


def _worker(prop, tier, seed, shard, shards, only, path, note):
    # a session of its own: signals and limits stay inside
    try:
        lim = 6 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        # endless recursions end with Python's error
        hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
        if hard == resource.RLIM_INFINITY or hard >= 100 << 20:
            resource.setrlimit(resource.RLIMIT_STACK, (100 << 20, hard))
        sys.stdin.close()
        r = run_shard(prop, tier, seed, shard, shards, only, note)
        tmp = path + ".tmp"
        with open(tmp, "w") as f:
            json.dump(r, f)
        os.rename(tmp, path)
        code = 0
    except BaseException:
        with open(path + ".err", "w") as f:
            traceback.print_exc(file=f)
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


def explore(prop, tier, seed, only=None, shards=None):
    """fork the shards, stop at the first violation; -> list of results"""
    import shutil
    import tempfile
    shards = shards or min(8, os.cpu_count() or 1)
    d = tempfile.mkdtemp(prefix="verif_")
    pids, results, error, hit = {}, {}, False, None
    try:
        sys.stdout.flush()
        for k in range(shards):
            path = os.path.join(d, "%d.json" % k)
            note = Note()
            pid = os.fork()
            if pid == 0:
                _worker(prop, tier, seed, k, shards, only, path, note)
            pids[pid] = (k, path, note)
        while pids:
            pid, status = os.waitpid(-1, 0)
            if pid not in pids:
                continue
            k, path, note = pids.pop(pid)
            if os.path.exists(path):
                with open(path) as f:
                    results[k] = json.load(f)
                if results[k]["violation"] and hit is None:
                    hit = k
                    for p in pids:
                        os.kill(p, signal.SIGKILL)
            elif hit is None:
                sig = crashed(status)
                case = note.read()
                if sig is not None and case:
                    hit = k
                    results[k] = {"targets": {}, "violation": dict(
                        case, msg="the process crashed (signal %d)" % sig)}
                    for p in pids:
                        os.kill(p, signal.SIGKILL)
                    continue
                if not error and os.path.exists(path + ".err"):
                    with open(path + ".err") as f:
                        sys.stderr.write(f.read()[-4000:])
                error = True
    finally:
        for p in pids:
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(d, ignore_errors=True)
    return results, (results[hit]["violation"] if hit is not None else None), \
        error


# --------------------------------------------------------------------------
def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    with open(p) as f:
        return json.load(f)


def load_corpus(pid):
    p = os.path.join(ROOT, "corpus", pid + ".jsonl")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [json.loads(l) for l in f if l.strip()]


def report(pid, target, spec, msg, tier, seed):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(dumps(spec).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s.json" % (pid, h))
    with open(path, "w") as f:
        json.dump({"property": pid, "target": target, "spec": spec,
                   "message": msg, "tier": tier, "seed": seed}, f, indent=1)
        f.write("\n")
    print("  target=%s: %s" % (target, msg))
    print("VIOLATION property=%s replay=%s" % (
        pid, os.path.relpath(path, ROOT)))


def main(prop, tier, seed, replay=None, only=None, shards=None):
    t0 = time.time()
    signal.signal(signal.SIGPROF, _on_alarm)
    pid = prop.pid
    if replay:
        with open(replay) as f:
            r = json.load(f)
        out, msg, ctx = run_case(prop.target(r["target"]), r["spec"])
        print("%s %s" % (out, msg))
        if out in ("violation", "hang"):
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            return 1
        return 0

    violations = 0
    # findings already known: they must fail on exactly the recorded input
    known = [k for k in load_known()["findings"] if k["property"] == pid]
    kn = 0
    for k in known:
        out, msg, _ = run_case(prop.target(k["target"]), k["spec"])
        if out in ("violation", "hang"):
            kn += 1
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    # regression inputs
    corpus = load_corpus(pid)
    if only:
        corpus = [c for c in corpus if c["target"] in only]
    first = None
    for c in corpus:
        out, msg, _ = run_case(prop.target(c["target"]), c["spec"])
        if out in ("violation", "hang"):
            first = {"target": c["target"], "spec": c["spec"], "msg": msg}
            break
    results, hit, error = {}, None, False
    if first is None:
        results, hit, error = explore(prop, tier, seed, only, shards)
    v = first or hit
    if v:
        violations = 1
        report(pid, v["target"], v["spec"], v["msg"], tier, seed)

    # evidence, measured on this run
    per, hashes, samples, evals = {}, set(), [], 0
    for k in sorted(results):
        for name, st in results[k]["targets"].items():
            q = per.setdefault(name, {"evaluations": 0, "nontrivial": set(),
                                      "skipped": {}, "labels": {},
                                      "cpu_s": 0.0})
            q["evaluations"] += st["evaluations"]
            q["cpu_s"] = round(q["cpu_s"] + st["wall"], 1)
            q["nontrivial"].update(st["hashes"])
            for f in ("skipped", "labels"):
                for a, b in st[f].items():
                    q[f][a] = q[f].get(a, 0) + b
            evals += st["evaluations"]
            hashes.update(name + h for h in st["hashes"])
            if k < 2 and st["samples"]:
                samples.append({"target": name, "spec": st["samples"][0]})
    for q in per.values():
        q["distinct_nontrivial"] = len(q.pop("nontrivial"))
        q["labels"] = dict(sorted(q["labels"].items()))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": evals + len(corpus),
              "distinct_nontrivial": len(hashes),
              "rule": prop.rule,
              "samples": samples[:12] or [{"note": "stopped early"}],
              "regression_inputs": len(corpus),
              "known_findings_reproduced": kn,
              "targets": per},
          "assumptions": prop.assumptions,
          "violations": violations,
          "wall_s": round(time.time() - t0, 2)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if violations:
        return 1
    if error:
        print("harness error in a shard: no result", file=sys.stderr)
        return 2
    sk = sum(sum(q["skipped"].values()) for q in per.values())
    print("%s held: %d cases (%d distinct non-trivial, %d outside the domain)"
          ", %.1f s" % (pid, evals + len(corpus), len(hashes), sk,
                        time.time() - t0))
    return 0
