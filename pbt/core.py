"""Runner: shards a check over processes, drives Hypothesis, keeps counts, writes
evidence and replay files.  See DESIGN.md, "How a check runs"."""
import argparse
import collections
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import time
import traceback

from . import env
from .env import VERIF, Violation, HarnessError, Discard

SCALE = float(os.environ.get("VERIF_SCALE", "1"))     # for tools/mutate.py: a fraction of the cases
NSHARDS = int(os.environ.get("VERIF_SHARDS", "8"))
BUDGET = {"quick": 300.0, "thorough": 700.0}   # generation, per shard; hitting it is "inconclusive"
SHRINK = {"quick": 45.0, "thorough": 90.0}
HANG = 150                                      # one case normally takes milliseconds


class Check:
    """One property.  A case is JSON-able; run() raises Violation, or returns
    (nontrivial: bool, labels: iterable of str)."""
    id = None
    rule = ""
    assumptions = ()
    quick = 800
    thorough = 12000
    level = "exploration"

    def strategy(self, tier):
        return None

    def enumerate(self, tier):
        """cases that are always run (exhaustive parts, hand-written shapes)"""
        return []

    def run(self, case):
        raise NotImplementedError

    def sample(self, case):
        return case

    def finish(self):
        """called once per process after its last case"""


class _Stop(KeyboardInterrupt):
    pass


class _Hang(BaseException):
    pass


def load_check(pid):
    return importlib.import_module("pbt.checks.%s" % pid.lower()).CHECK


def known_findings(pid):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == pid]


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def _alarm(signum, frame):
    raise _Hang()


def evaluate(check, case):
    """run one case: returns (nontrivial, labels); raises Violation / HarnessError / Discard"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(HANG)
    try:
        return check.run(case)
    except (Violation, HarnessError, Discard):
        raise
    except _Hang:
        raise Violation("no result after %d s (a case takes milliseconds)" % HANG)
    except Exception as e:  # the code under test handed back something unusable
        raise Violation("unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1800:]))
    finally:
        signal.alarm(0)


class Worker:
    def __init__(self, check, tier, seed, shard, out, stopfile):
        self.check, self.tier, self.seed, self.shard = check, tier, seed, shard
        self.out, self.stopfile = out, stopfile
        self.evals = self.enumerated = self.discards = self.skipped = 0
        self.keys, self.samples = set(), []
        self.labels = collections.Counter()
        self.failure = self.error = None
        self.known, self.fixed_ok = [], 0
        self.t0 = time.time()
        self.slowest = 0
        self.fail_t = None

    def dump(self, error=None):
        with open(self.out + ".tmp", "w") as f:
            json.dump(dict(evals=self.evals, enumerated=self.enumerated, discards=self.discards,
                           skipped=self.skipped, keys=sorted(self.keys), samples=self.samples,
                           labels=self.labels, failure=self.failure, known=self.known,
                           fixed_ok=self.fixed_ok, error=error), f)
        os.rename(self.out + ".tmp", self.out)

    def one(self, case, kind="generated"):
        with open(self.out + ".cur", "w") as f:
            json.dump(case, f)
        start = time.time()
        try:
            nontrivial, labels = evaluate(self.check, case)
        except Discard as e:
            self.discards += 1
            self.labels["discarded:" + str(e)] += 1
            return
        finally:
            self.slowest = max(self.slowest, time.time() - start)
            if os.environ.get("PBT_SLOW") and time.time() - start > float(os.environ["PBT_SLOW"]):
                with open("/tmp/pbt-slow.jsonl", "a") as f:
                    f.write(json.dumps([self.check.id, time.time() - start, case]) + "\n")
        if self.fail_t is None:
            self.evals += 1
            if kind != "generated":
                self.enumerated += 1
            for l in labels:
                self.labels[l] += 1
            if nontrivial:
                k = case_key(case)
                if k not in self.keys:
                    self.keys.add(k)
                    if len(self.samples) < 2 or (len(self.samples) < 4 and len(self.keys) % 37 == 0):
                        self.samples.append(self.check.sample(case))

    def fail(self, case, msg):
        size = len(json.dumps(case))
        if self.failure is None or size <= self.failure["size"]:
            self.failure = dict(case=case, message=str(msg), size=size)
        if self.fail_t is None:
            self.fail_t = time.time()
            self.dump()

    def run(self):
        check = self.check
        for e in known_findings(check.id):
            if self.shard != 0:
                break
            if e["status"] == "fixed":
                if "case" not in e:
                    continue
                try:
                    self.one(e["case"], "regression")
                    self.fixed_ok += 1
                except Violation as v:
                    self.fail(e["case"], "fixed finding %s is back: %s" % (e["id"], v))
                    return
            else:
                try:
                    evaluate(check, e["case"])
                    self.known.append([e["id"], e["what"], False])
                except Violation:
                    self.known.append([e["id"], e["what"], True])
        for i, case in enumerate(check.enumerate(self.tier)):
            if i % NSHARDS != self.shard or i // NSHARDS % max(1, round(1 / SCALE)):
                continue
            try:
                self.one(case, "enumerated")
            except Violation as v:
                self.fail(case, v)
                return
            if time.time() - self.t0 > BUDGET[self.tier] or os.path.exists(self.stopfile):
                self.skipped += 1
                break
        total = int((check.quick if self.tier == "quick" else check.thorough) * SCALE)
        n = total // NSHARDS + (1 if self.shard < total % NSHARDS else 0)
        if n <= 0 or os.path.exists(self.stopfile):
            return
        strategy = check.strategy(self.tier)
        if strategy is None:
            return
        import hypothesis
        from hypothesis import HealthCheck, Phase, Verbosity, given, settings

        def body(case):
            now = time.time()
            if self.fail_t is not None and now - self.fail_t > SHRINK[self.tier]:
                raise _Stop()
            if self.fail_t is None:
                if now - self.t0 > BUDGET[self.tier]:
                    self.skipped += 1
                    raise _Stop()
                if os.path.exists(self.stopfile):
                    raise _Stop()
            try:
                self.one(case)
            except Violation as v:
                self.fail(case, v)
                raise
            except HarnessError as e:
                self.error = "HarnessError: %s\ncase: %s" % (e, json.dumps(case)[:1500])
                raise _Stop()

        test = hypothesis.seed(self.seed * 1000 + self.shard)(
            settings(max_examples=n, database=None, deadline=None, derandomize=False,
                     suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                     print_blob=False, verbosity=Verbosity.quiet,
                     phases=[Phase.generate, Phase.shrink])(given(strategy)(body)))
        try:
            test()
        except (_Stop, Violation):
            pass
        except HarnessError:
            raise
        except BaseException as e:
            # Hypothesis wraps a failure it cannot reproduce; the failure itself is recorded
            if self.failure is None:
                raise
            self.labels["unstable:" + type(e).__name__] += 1


def worker_main(a):
    check = load_check(a.property)
    w = Worker(check, a.tier, a.seed, a.worker, a.out, a.stop)
    err = None
    try:
        w.run()
    except BaseException as e:
        err = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:])
    try:
        check.finish()
    finally:
        env.cleanup()
    w.dump(err or w.error)
    return 0


def child_env():
    e = dict(os.environ)
    e["PYTHONHASHSEED"] = "0"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["LC_ALL"] = e["LANG"] = "C.UTF-8"
    return e


def write_replay(pid, tag, case, message, seed, note=""):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (pid, tag))
    with open(path, "w") as f:
        json.dump(dict(property=pid, seed=seed, message=message, note=note, case=case,
                       how="python run.py %s --replay %s" % (pid, path)), f, indent=1)
    return path


def replay_main(a):
    check = load_check(a.property)
    with open(a.replay) as f:
        case = json.load(f)["case"]
    try:
        print(evaluate(check, case))
    except Discard as e:
        print("discarded: %s" % e)
        return 3
    except Violation as e:
        print(str(e))
        print("VIOLATION property=%s replay=%s" % (a.property, a.replay))
        return 1
    finally:
        check.finish()
        env.cleanup()
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--worker", type=int)
    ap.add_argument("--out")
    ap.add_argument("--stop")
    a = ap.parse_args(argv)
    if a.worker is not None:
        return worker_main(a)
    if a.replay:
        return replay_main(a)
    t0 = time.time()
    check = load_check(a.property)
    top = env.scratch()
    stop = os.path.join(top, "stop")
    runpy = os.path.join(VERIF, "run.py")
    procs = []
    for s in range(NSHARDS):
        out = os.path.join(top, "w%d.json" % s)
        log = open(os.path.join(top, "w%d.log" % s), "wb")
        p = subprocess.Popen([sys.executable, runpy, a.property, "--tier", a.tier, "--seed", str(a.seed),
                              "--worker", str(s), "--out", out, "--stop", stop],
                             env=child_env(), cwd=VERIF, stdout=log, stderr=log, start_new_session=True)
        procs.append((s, p, out, log))
    try:
        pending = list(procs)
        limit = t0 + BUDGET[a.tier] + SHRINK[a.tier] + 2 * HANG + 60
        while pending and time.time() < limit:
            for it in list(pending):
                if it[1].poll() is not None:
                    pending.remove(it)
                if not os.path.exists(stop) and os.path.exists(it[2]):
                    with open(it[2]) as f:
                        if json.load(f)["failure"] is not None:
                            open(stop, "w").close()
            time.sleep(0.05)
    finally:
        for _, p, _, _ in procs:
            if p.poll() is None:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
    errors, failures, known = [], [], []
    keys, labels, samples = set(), collections.Counter(), []
    tot = collections.Counter()
    for s, p, out, log in procs:
        log.close()
        res = None
        if os.path.exists(out):
            with open(out) as f:
                res = json.load(f)
        if res is not None:
            for k in ("evals", "enumerated", "discards", "skipped", "fixed_ok"):
                tot[k] += res[k]
            keys.update(res["keys"])
            labels.update(res["labels"])
            samples += res["samples"]
            known += res["known"]
            if res["failure"]:
                failures.append((s, res["failure"]))
            if res["error"]:
                errors.append("shard %d: %s" % (s, res["error"]))
        if p.returncode != 0:
            with open(os.path.join(top, "w%d.log" % s), errors="replace") as f:
                tail = f.read()[-2000:]
            if p.returncode < 0 and not (res and res["failure"]) and os.path.exists(out + ".cur"):
                # the process died in a case: decide by running that case alone
                with open(out + ".cur") as f:
                    case = json.load(f)
                path = write_replay(a.property, "s%d-crash" % s, case, "process died", a.seed)
                q = subprocess.run([sys.executable, runpy, a.property, "--replay", path], env=child_env(),
                                   cwd=VERIF, capture_output=True, timeout=2 * HANG)
                if q.returncode == 1 or q.returncode == p.returncode:
                    failures.append((s, dict(case=case, size=0, message="the process died with signal %d: %s"
                                             % (-p.returncode, tail))))
                    continue
            errors.append("shard %d: exit %r %s" % (s, p.returncode, tail))
    env.cleanup()
    per = sorted(samples, key=lambda x: len(json.dumps(x)))
    ev = dict(property=a.property, tier=a.tier, seed=a.seed, level=check.level,
              coverage=dict(evaluations=tot["evals"], distinct_nontrivial=len(keys), rule=check.rule,
                            enumerated=tot["enumerated"], discarded=tot["discards"],
                            stopped_by_time_budget=tot["skipped"],
                            regressions_of_fixed_findings=tot["fixed_ok"],
                            known_findings=len([k for k in known if k[2]]),
                            labels=dict(sorted(labels.items())),
                            samples=per[len(per) // 3:][:4] or per[:4]),
              assumptions=list(check.assumptions), wall_s=round(time.time() - t0, 2),
              violations=len(failures))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.property + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for kid, what, still in known:
        if still:
            print("KNOWN-FINDING: property=%s %s: %s" % (a.property, kid, what))
        else:
            print("note: listed finding %s no longer fails" % kid)
    print("%s: %d cases (%d enumerated), %d distinct non-trivial, %d discarded, %.1f s" % (
        a.property, tot["evals"], tot["enumerated"], len(keys), tot["discards"], time.time() - t0))
    if failures:
        failures.sort(key=lambda x: x[1]["size"])
        s, f = failures[0]
        path = write_replay(a.property, "s%d" % s, f["case"], f["message"], a.seed)
        q = subprocess.run([sys.executable, runpy, a.property, "--replay", path], env=child_env(), cwd=VERIF,
                           capture_output=True, timeout=4 * HANG)
        if q.returncode == 0:
            path = write_replay(a.property, "s%d" % s, f["case"], f["message"], a.seed,
                                "fails only after the earlier cases of its shard; rerun the check with this seed")
        print(f["message"][:3000])
        print("VIOLATION property=%s replay=%s" % (a.property, path))
        return 1
    if errors:
        for e in errors:
            print("ERROR: " + e[:3000])
        return 2
    if tot["evals"] == 0:
        print("ERROR: nothing was evaluated")
        return 2
    return 0
