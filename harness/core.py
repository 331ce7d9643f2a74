"""Running generated-input checks: every property is a set of sub-checks, each a
strategy producing plain json-serialisable cases and an oracle function."""
import hashlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import signal
import sys
import time
import traceback
from collections import Counter
from dataclasses import dataclass, field

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N_PROC = min(8, os.cpu_count() or 1)
#: factor for the number of cases of all checks
EFFORT = 3

# errors of the sandbox or of the harness, never a verdict on the code under test
HARNESS_ERRORS = (MemoryError, ImportError, RecursionError)


@dataclass
class Sub:
    name: str
    strategy: object
    fn: object
    quick: int
    thorough: int
    shards: int = 1
    #: cases which are always run first (former defects, corner cases)
    fixed: list = field(default_factory=list)


class Skip(Exception):
    """A case outside of the domain of the property (counted as trivial)"""


class Endless(Exception):
    """A single case used more than CPU_LIMIT (usually less than a second)"""


#: seconds of cpu time, so that other load of the machine does not matter
CPU_LIMIT = 60


def _on_alarm(signum, frame):
    raise Endless(f"no result after {CPU_LIMIT} s of cpu time")


class Stop(BaseException):
    """End the search, there is no time to shrink"""


def canonical(case):
    return json.dumps(case, sort_keys=True)


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = ""
    for frame in tb:
        if "/pyirf/" in frame.filename and "/verif/" not in frame.filename:
            where = f" (in {os.path.basename(frame.filename)}:{frame.name})"
    msg = str(exc)
    if len(msg) > 1500:
        msg = msg[:1500] + "..."
    return f"{type(exc).__name__}: {msg}{where}"


def is_violation(exc):
    if isinstance(exc, HARNESS_ERRORS):
        return False
    if isinstance(exc, OSError):
        # only when raised by the code under test
        return any(
            "/pyirf/" in f.filename and "/verif/" not in f.filename
            for f in traceback.extract_tb(exc.__traceback__)
        ) and exc.errno is None
    return isinstance(exc, Exception)


def evaluate(sub, case):
    """Returns labels, nontrivial"""
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        # the oracle function gets its own copy, so that no case can be changed by it
        result = sub.fn(json.loads(canonical(case)))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    if result is None:
        return [], True
    labels, nontrivial = result
    return list(labels), bool(nontrivial)


class Recorder:
    def __init__(self, sub):
        self.sub = sub
        self.evaluations = 0
        self.labels = Counter()
        self.hashes = set()
        self.samples = []
        self.history = []
        self.failing = None
        self.first_failure = None
        self.error = None

    def run(self, case):
        key = canonical(case)
        if self.failing is None:
            self.history.append(key)
        self.evaluations += 1
        try:
            labels, nontrivial = evaluate(self.sub, case)
        except Skip:
            self.labels["(outside of the domain)"] += 1
            return
        except Exception as e:
            if not is_violation(e):
                self.error = f"{describe(e)}\n{traceback.format_exc()}\ncase: {key}"
                raise
            if self.first_failure is None:
                self.first_failure = len(self.history)
            self.failing = (json.loads(key), describe(e), traceback.format_exc())
            if isinstance(e, Endless):
                raise Stop from e
            raise
        self.labels.update(labels)
        if nontrivial:
            h = hashlib.md5(key.encode()).digest()[:10]
            if h not in self.hashes:
                self.hashes.add(h)
                n = len(self.hashes)
                if n in (1, 7, 40) and len(key) < 4000:
                    self.samples.append(json.loads(key))


def run_shard(sub, seed, n, fixed):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine

    # bound the time spent on shrinking, this only affects the size of the replay
    engine.MAX_SHRINKING_SECONDS = 25

    rec = Recorder(sub)
    start = time.monotonic()
    try:
        for case in fixed:
            rec.run(case)
        if n > 0:
            @hypothesis.seed(seed)
            @settings(
                max_examples=n,
                database=None,
                deadline=None,
                derandomize=False,
                phases=(Phase.generate, Phase.shrink),
                suppress_health_check=list(HealthCheck),
                report_multiple_bugs=False,
                print_blob=False,
            )
            @given(sub.strategy)
            def test(case):
                rec.run(case)

            test()
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        if rec.error is None and rec.failing is None:
            rec.error = f"{describe(e)}\n{traceback.format_exc()}"
    out = dict(
        sub=sub.name,
        evaluations=rec.evaluations,
        labels=dict(rec.labels),
        hashes=rec.hashes,
        samples=rec.samples,
        error=rec.error,
        wall=time.monotonic() - start,
    )
    if rec.failing is not None and rec.error is None:
        case, msg, tb = rec.failing
        out["failing"] = dict(
            case=case, message=msg, traceback=tb,
            history=[json.loads(h) for h in rec.history[: rec.first_failure]],
        )
    return out


def replay_cases(sub, cases):
    """Returns the message of the first violation or None"""
    for case in cases:
        try:
            evaluate(sub, case)
        except Skip:
            pass
        except Exception as e:
            if not is_violation(e):
                raise
            return describe(e) + "\n" + traceback.format_exc()
    return None


def _child(conn, func, args):
    try:
        conn.send(("ok", func(*args)))
    except BaseException as e:  # noqa
        conn.send(("error", f"{describe(e)}\n{traceback.format_exc()}"))
    conn.close()


def parallel(jobs, n_proc=N_PROC):
    """Run (func, args) each in its own forked process, in order"""
    ctx = mp.get_context("fork")
    results = [None] * len(jobs)
    pending = list(enumerate(jobs))
    running = {}
    while pending or running:
        while pending and len(running) < n_proc:
            i, (func, args) = pending.pop(0)
            recv, send = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_child, args=(send, func, args))
            p.start()
            send.close()
            running[recv] = (i, p)
        for recv in mp.connection.wait(list(running), timeout=5):
            i, p = running.pop(recv)
            try:
                results[i] = recv.recv()
            except EOFError:
                p.join()
                results[i] = ("error", f"worker died, exit code {p.exitcode}")
            p.join()
            recv.close()
    return results


def run_property(pid, module, tier, seed):
    start = time.monotonic()
    subs = {s.name: s for s in module.SUBS}
    jobs, meta = [], []
    for k, sub in enumerate(module.SUBS):
        n = EFFORT * (sub.quick if tier == "quick" else sub.thorough)
        shards = sub.shards if tier == "quick" else max(sub.shards, N_PROC)
        shards = min(shards, max(1, n))
        for shard in range(shards):
            n_shard = n // shards + (1 if shard < n % shards else 0)
            s = seed * 1_000_003 + k * 1009 + shard
            jobs.append((run_shard, (sub, s, n_shard, sub.fixed if shard == 0 else [])))
            meta.append(sub.name)
    # longest first would not be deterministic in output order, results are ordered
    results = parallel(jobs)

    total = Counter()
    hashes = {name: set() for name in subs}
    labels = {name: Counter() for name in subs}
    samples = {name: [] for name in subs}
    walls = Counter()
    errors, failures = [], []
    for name, (status, res) in zip(meta, results):
        if status != "ok":
            errors.append(f"[{name}] {res}")
            continue
        total[name] += res["evaluations"]
        hashes[name] |= res["hashes"]
        labels[name].update(res["labels"])
        samples[name] += res["samples"]
        walls[name] += res["wall"]
        if res["error"]:
            errors.append(f"[{name}] {res['error']}")
        if "failing" in res:
            failures.append((name, res["failing"]))

    known = load_known_findings(pid)
    violations = []
    seen = set()
    for name, fail in failures:
        if name in seen:
            continue
        entry = match_known(known, name, fail)
        if entry is not None:
            print(f"KNOWN-FINDING: property={pid} {entry['what']}")
            continue
        seen.add(name)
        violations.append(write_replay(pid, subs[name], fail))

    for k in known:
        pass

    coverage = dict(
        evaluations=sum(total.values()),
        distinct_nontrivial=sum(len(h) for h in hashes.values()),
        rule=module.RULE,
        samples=[
            dict(check=name, case=c) for name in subs for c in samples[name][:2]
        ],
        per_check={
            name: dict(
                evaluations=total[name],
                distinct_nontrivial=len(hashes[name]),
                labels=dict(sorted(labels[name].items())),
                cpu_s=round(walls[name], 2),
            )
            for name in subs
        },
    )
    evidence = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=coverage,
        assumptions=getattr(module, "ASSUMPTIONS", []),
        wall_s=round(time.monotonic() - start, 3),
        violations=len(violations),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", f"{pid}.json")
    with open(path, "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=False)
        f.write("\n")

    for name in subs:
        print(
            f"{pid} {name}: {total[name]} cases, {len(hashes[name])} distinct"
            f" non-trivial, {walls[name]:.1f} s"
        )
    for path, name, fail in violations:
        print(f"--- {name}: {fail['message']}")
        print(f"VIOLATION property={pid} replay={path}")
    sys.stdout.flush()
    if violations:
        return 1
    if errors:
        for e in errors:
            print("ERROR " + e, file=sys.stderr)
        return 2
    return 0


def write_replay(pid, sub, fail):
    """Write the replay file, with the shortest sequence of cases that fails
    in a fresh process"""
    alone = parallel([(replay_cases, (sub, [fail["case"]]))])[0]
    if alone[0] == "ok" and alone[1] is not None:
        cases = [fail["case"]]
    else:
        # depends on what was called before: replay the history
        cases = fail["history"] + [fail["case"]]
        for n in (2, 5, 20):
            if n < len(cases):
                r = parallel([(replay_cases, (sub, cases[-n:]))])[0]
                if r[0] == "ok" and r[1] is not None:
                    cases = cases[-n:]
                    break
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{sub.name}.json")
    with open(path, "w") as f:
        json.dump(
            dict(property=pid, check=sub.name, message=fail["message"],
                 traceback=fail["traceback"], cases=cases),
            f, indent=1,
        )
        f.write("\n")
    return path, sub.name, fail


def run_replay(pid, module, path):
    with open(path) as f:
        data = json.load(f)
    sub = {s.name: s for s in module.SUBS}[data["check"]]
    msg = replay_cases(sub, data["cases"])
    if msg is None:
        print("replay: no violation")
        return 0
    print(msg)
    print(f"VIOLATION property={pid} replay={path}")
    return 1


def load_known_findings(pid):
    """Open findings are lines of json starting with KNOWN-FINDING:, see the file"""
    path = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("KNOWN-FINDING: "):
                    entry = json.loads(line[len("KNOWN-FINDING: "):])
                    if entry["property"] == pid:
                        out.append(entry)
    return out


def match_known(known, name, fail):
    for entry in known:
        if entry["check"] == name and entry["case"] == fail["case"]:
            return entry
    return None
