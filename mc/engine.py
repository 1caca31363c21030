"""Stateless explicit exploration engine.

A *scenario* is a generator function ``gen(c)`` that builds one closed case (an input file, a configuration, an
operation history, a fault position ...) by resolving every nondeterministic choice through the controller ``c``:

    c.pick(label, options)   free choice: every option is always explored
    c.dev(label, options)    deviation: option 0 is the default, every other option costs one deviation

The explorer enumerates *all* choice sequences whose deviation cost is at most the scenario's bound (no sampling, no
randomness), runs the real code on every resulting case and compares it with the reference model.  Cases are handed to
the scenario's ``check`` in batches, in enumeration order.
"""
import collections
import hashlib
import json
import multiprocessing
import multiprocessing.connection
import os
import resource
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Skip(Exception):
    """Raised by a generator: this choice sequence denotes no case (redundant with another one)."""


class Violation(Exception):
    pass


class Hang(BaseException):
    """The code under test did not terminate within the horizon (BaseException: no handler may swallow it)."""


class Ctl(object):
    __slots__ = ("prefix", "points", "labels")

    def __init__(self, prefix):
        self.prefix = prefix
        self.points = []  # (number of options, chosen index, is deviation)
        self.labels = []

    def _choose(self, label, options, dev):
        n = len(options)
        if n == 0:
            raise RuntimeError("empty choice %s" % label)
        i = len(self.points)
        idx = self.prefix[i] if i < len(self.prefix) else 0
        if idx >= n:
            raise RuntimeError("replay divergence at %s: option %d of %d" % (label, idx, n))
        self.points.append((n, idx, dev))
        self.labels.append(label)
        return options[idx]

    def pick(self, label, options):
        return self._choose(label, options, 0)

    def dev(self, label, options):
        return self._choose(label, options, 1)

    def choices(self):
        return [p[1] for p in self.points]

    def trace(self):
        return ["%s=#%d" % (l, p[1]) for l, p in zip(self.labels, self.points) if p[1] or not p[2]]


class Scenario(object):
    """gen(c) -> case ; check(list of (choices, case), stats) -> iterable of (case position, message)."""

    def __init__(self, name, gen, check, bound=None, batch=128, horizon=45, describe=None, note="", enough=None):
        self.name, self.gen, self.check, self.bound = name, gen, check, bound
        self.batch, self.horizon, self.describe, self.note = batch, horizon, describe or repr, note
        self.enough = enough or MAX_VIOL  # so many violations settle the verdict


class Stats(object):
    """Counted during the run; merged over worker processes."""

    def __init__(self):
        self.n = collections.Counter()
        self.inputs = set()
        self.outcomes = set()
        self.samples = []

    def seen_input(self, key):
        self.inputs.add(h64(key))

    def outcome(self, key):
        self.outcomes.add(h64(key))

    def merge(self, o):
        self.n.update(o.n)
        self.inputs |= o.inputs
        self.outcomes |= o.outcomes
        self.samples = (self.samples + o.samples)[:6]


def h64(key):
    if not isinstance(key, bytes):
        key = repr(key).encode("utf-8", "surrogatepass")
    return int.from_bytes(hashlib.blake2b(key, digest_size=8).digest(), "little")


def expand(sc, prefix):
    """Run one execution; return (case or None, points, children prefixes)."""
    c = Ctl(prefix)
    try:
        case = sc.gen(c)
    except Skip:
        case = None
    if len(c.points) < len(prefix):
        raise RuntimeError("replay divergence: %s consumed %d of %d choices" % (sc.name, len(c.points), len(prefix)))
    cost = sum(1 for n, i, d in c.points[:len(prefix)] if d and i)
    kids = []
    ch = [p[1] for p in c.points]
    for i in range(len(prefix), len(c.points)):
        n, _, dev = c.points[i]
        if n == 1 or (dev and sc.bound is not None and cost + 1 > sc.bound):
            continue
        base = tuple(ch[:i])
        for alt in range(1, n):
            kids.append(base + (alt,))
    return case, c, kids


MAX_VIOL_PER_TASK = 6
MAX_VIOL = int(os.environ.get("VERIF_MAX_VIOLATIONS", "48"))  # the verdict is settled: stop exploring
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))


class _Runner(object):
    def __init__(self, sc, st):
        self.sc, self.st, self.buf, self.viol = sc, st, [], []

    def add(self, c, case, prefix):
        st = self.st
        st.n["tree_nodes"] += len(c.points) - len(prefix) + 1
        if case is None:
            st.n["skipped"] += 1
            return
        st.n["executions"] += 1
        self.buf.append((tuple(c.choices()), case))
        if len(self.buf) >= self.sc.batch:
            self.flush()

    def flush(self):
        if not self.buf:
            return
        buf, self.buf = self.buf, []
        for pos, msg in _guarded(self.sc, buf, self.st):
            v = {"scenario": self.sc.name, "choices": list(buf[pos][0]), "message": msg}
            if len(self.viol) < min(MAX_VIOL_PER_TASK, self.sc.enough):
                # replay alone, from the recorded choices: the same schedule must fail again
                case, _, _ = expand(self.sc, buf[pos][0])
                v["alone"] = bool(_guarded(self.sc, [(buf[pos][0], case)], Stats()))
                if not v["alone"]:
                    v["batch"] = [list(ch) for ch, _ in buf]
            self.viol.append(v)

    def full(self):
        return len(self.viol) >= min(MAX_VIOL_PER_TASK, self.sc.enough)


def _guarded(sc, buf, st):
    def on_alarm(sig, frm):
        raise Hang("no termination within %ds" % sc.horizon)
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, sc.horizon)
    failed = None
    try:
        return list(sc.check(buf, st))
    except Hang as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        if len(buf) == 1:
            return [(0, "hang: %s" % e)]
    except MemoryError:
        raise
    except Exception as e:
        if isinstance(e, OSError) and e.errno in (12, 23, 24, 28):  # the sandbox, not the library
            raise
        failed = e
        # the library made a step fail that never fails on a correct library: find the case that does it
        if len(buf) == 1:
            at = traceback.extract_tb(e.__traceback__)[-1]
            return [(0, "the step raised %s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(at.filename), at.lineno))]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    # bisect the batch so that the hanging or failing case is identified
    mid = len(buf) // 2
    sub = Scenario(sc.name, sc.gen, sc.check, sc.bound, sc.batch, max(5, sc.horizon // 2))
    out = _guarded(sub, buf[:mid], st)
    if out:
        return out
    out = [(p + mid, m) for p, m in _guarded(sub, buf[mid:], st)]
    if failed is not None and not out:
        out = [(len(buf) - 1, "only after the cases before it: the step raised %r" % failed)]
    return out  # empty after a timeout: slow, but every part terminates


_SCENARIOS = []


class _Worker(object):
    """A forked process that does one task at a time; it shares no lock with anything, so it can be killed at any time."""

    def __init__(self):
        self.conn, theirs = multiprocessing.Pipe()
        self.busy = False
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                self._work(theirs)
            finally:
                os._exit(0)
        theirs.close()
        _LIVE.append(self)

    def _work(self, conn):
        self.conn.close()
        for w in _LIVE:  # copies of the other workers' pipes
            w.conn.close()
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        lim = 6 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        while True:
            try:
                task = conn.recv()
            except EOFError:
                return
            conn.send(_task(task))

    def give(self, task):
        self.conn.send(task)
        self.busy = True

    def take(self):
        r = self.conn.recv()
        self.busy = False
        return r

    def kill(self):
        os.kill(self.pid, signal.SIGKILL)
        os.waitpid(self.pid, 0)
        self.conn.close()
        _LIVE.remove(self)


_LIVE = []
TASK_NODES = 3000  # a task hands the rest of its subtree back after that many executions


def _task(arg):
    si, todo, leaf_only = arg
    sc = _SCENARIOS[si]
    st = Stats()
    stack = list(todo)
    try:
        run = _Runner(sc, st)
        n = 0
        while stack and not run.full() and n < TASK_NODES:
            p = stack.pop()
            n += 1
            case, c, kids = expand(sc, p)
            run.add(c, case, p)
            if not leaf_only:
                stack.extend(reversed(kids))
        run.flush()
        return si, st, run.viol, None, [] if run.full() else stack
    except BaseException:
        return si, st, [], "scenario %s near %r\n%s" % (sc.name, stack[-1:], traceback.format_exc()), []


def explore(scenarios, workers=None):
    """Explore every scenario completely. Returns (per-scenario Stats, violations, harness errors)."""
    global _SCENARIOS
    _SCENARIOS = scenarios
    workers = workers or int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    tasks = []
    for si, sc in enumerate(scenarios):
        frontier = collections.deque([()])
        leaves = []
        want = workers * 6
        while frontier and len(frontier) < want and len(leaves) < want * 2:
            p = frontier.popleft()
            _, _, kids = expand(sc, p)
            leaves.append(p)
            frontier.extend(kids)
        tasks.append((si, leaves, True))
        tasks.extend((si, [p], False) for p in frontier)
    stats = [Stats() for _ in scenarios]
    enough = min(s.enough for s in scenarios)
    viol, errs = [], []
    todo = collections.deque(tasks)
    pool = [_Worker() for _ in range(workers)]
    try:
        while (todo or any(w.busy for w in pool)) and len(viol) < enough:
            for w in pool:
                if todo and not w.busy:
                    w.give(todo.popleft())
            ready = multiprocessing.connection.wait([w.conn for w in pool if w.busy], timeout=600)
            if not ready:
                errs.append("no worker answered for 600 s")
                break
            for k, w in enumerate(pool):
                if w.conn not in ready:
                    continue
                try:
                    si, st, v, e, rest = w.take()
                except (EOFError, OSError) as x:
                    errs.append("a worker died (%r)" % x)
                    w.kill()
                    pool[k] = _Worker()
                    continue
                stats[si].merge(st)
                viol.extend(v)
                if e:
                    errs.append(e)
                if rest:  # split what is left of a large subtree among the workers
                    n = max(1, min(workers, len(rest)))
                    for j in range(n):
                        part = rest[j::n]
                        if part:
                            todo.append((si, part, False))
    finally:
        for w in pool:
            w.kill()
    names = [s.name for s in scenarios]
    viol.sort(key=lambda v: (names.index(v["scenario"]), len([x for x in v["choices"] if x]), v["choices"]))
    return stats, viol, errs


def load_known(prop):
    """KNOWN lines of /verif/known_findings.txt: 'known: property=<id> key=<scenario>:<digest> <what fails>'."""
    out = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 3)
                key = rest[2][len("key="):]
                out[key] = rest[3] if len(rest) > 3 else ""
    return out


def viol_key(v):
    return "%s:%016x" % (v["scenario"], h64(",".join(map(str, v["choices"]))))


def finish(prop, tier, scenarios, stats, viol, errs, t0, assumptions, bounds, extra=None):
    """Write the evidence and the replay artefacts, print the verdict, return the exit code."""
    known = load_known(prop)
    fresh, hit = [], {}
    for v in viol:
        k = viol_key(v)
        if k in known:
            hit[k] = known[k]
        else:
            fresh.append(v)
    tot = Stats()
    per = {}
    for sc, st in zip(scenarios, stats):
        tot.merge(st)
        per[sc.name] = {"executions": st.n["executions"], "distinct_inputs": len(st.inputs),
                        "distinct_outcomes": len(st.outcomes), "comparisons": st.n["comparisons"],
                        "choice_tree_nodes": st.n["tree_nodes"], "deviation_bound": sc.bound}
        if sc.note:
            per[sc.name]["note"] = sc.note
    samples = []
    for sc in scenarios:
        case, c, _ = expand(sc, ())
        samples.append({"scenario": sc.name, "choices": c.choices(), "trace": c.trace()[:40],
                        "case": sc.describe(case)[:600] if case is not None else None})
    cov = {
        "states": tot.n["states"] or len(tot.inputs),
        "transitions": tot.n["transitions"] or max(0, tot.n["tree_nodes"] - len(scenarios)),
        "traces_validated_against_impl": tot.n["executions"] + tot.n["fixture_traces"],
        "executions": tot.n["executions"], "fixture_traces": tot.n["fixture_traces"],
        "comparisons": tot.n["comparisons"], "distinct_inputs": len(tot.inputs),
        "distinct_outcomes": len(tot.outcomes), "exhaustive": not errs and not viol,
        "bounds": bounds, "scenarios": per, "samples": samples,
    }
    if extra:
        cov.update(extra)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": "model_checking", "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s: executions=%d distinct_inputs=%d outcomes=%d comparisons=%d tree_nodes=%d fixture_traces=%d "
          "violations=%d wall=%.1fs" % (prop, tier, tot.n["executions"], len(tot.inputs), len(tot.outcomes),
                                        tot.n["comparisons"], tot.n["tree_nodes"], tot.n["fixture_traces"],
                                        len(fresh), time.time() - t0))
    for k, what in sorted(hit.items()):
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, what, k))
    if fresh:
        rdir = os.path.join(EVIDENCE, "replays")
        os.makedirs(rdir, exist_ok=True)
        shown = {}
        for v in fresh:  # one line per scenario and kind of message first
            shown.setdefault((v["scenario"], v["message"][:40]), v)
        for i, v in enumerate(list(shown.values())[:6]):
            sc = [s for s in scenarios if s.name == v["scenario"]][0]
            alone = v.get("alone", True)
            rec = {"property": prop, "reproduces_alone": alone, "batch": None if alone else v["batch"], "tier": tier, "scenario": v["scenario"], "choices": v["choices"],
                   "message": v["message"], "key": viol_key(v)}
            try:
                case, c, _ = expand(sc, tuple(v["choices"]))
                rec["trace"] = c.trace()
                rec["case"] = sc.describe(case)
            except Exception as e:  # pragma: no cover
                rec["case"] = "unavailable: %r" % e
            path = os.path.join(rdir, "%s-%d.json" % (prop, i))
            with open(path, "w") as f:
                json.dump(rec, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("   %s %s: %s" % (v["scenario"], "/".join(map(str, v["choices"]))[:200], v["message"][:600]))
        return 1
    if errs:
        print("HARNESS ERROR:\n" + errs[0], file=sys.stderr)
        return 2
    return 0


def replay(scenarios, rec):
    """Re-run one recorded execution (with its batch when it needs the history of the batch)."""
    sc = [s for s in scenarios if s.name == rec["scenario"]][0]
    todo = rec.get("batch") or [rec["choices"]]
    cases = [(tuple(ch), expand(sc, tuple(ch))[0]) for ch in todo]
    out = [m for p, m in _guarded(sc, cases, Stats()) if list(cases[p][0]) == rec["choices"]]
    for m in out:
        print("REPRODUCED property=%s %s: %s" % (rec["property"], rec["scenario"], m))
    if not out:
        print("not reproduced: the property holds on this execution")
    return 1 if out else 0
