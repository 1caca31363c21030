"""Interrupted calls: an exception injected before every line the library executes, in fresh and in used processes."""
import ast
import copy
import functools
import io
import os
import pickle
import sys

import pmcref as M
from engine import Scenario
from impl import ProcmonLogsReader, dump_configuration, load_configuration, lib_config, norm_config, why, event_key, \
    diff_key, proc_key, short, diff_items
import props_l as L
import props_t as T

PROPS = {}


def prop(pid):
    def deco(f):
        PROPS[pid] = f
        return f
    return deco


class Interrupt(KeyboardInterrupt):
    pass


EXCEPTIONS = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


@functools.lru_cache(None)
def protected(filename):
    """The lines an exception is not raised at: clean-up code, and the lines between taking something and the try that gives it back."""
    out = set()
    try:
        with open(filename, "rb") as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError):
        return out
    for node in ast.walk(tree):
        parts = []
        if isinstance(node, ast.Try):
            out.add(node.lineno)
            parts = node.finalbody + node.handlers
        elif isinstance(node, (ast.With, ast.AsyncWith)):
            out.update(range(node.lineno, node.body[0].lineno if node.body[0].lineno > node.lineno else node.lineno + 1))
        elif isinstance(node, ast.FunctionDef) and node.name in ("__exit__", "__del__", "close", "release"):
            parts = node.body
        for p in parts:
            out.update(range(p.lineno, (p.end_lineno or p.lineno) + 1))
    return out


for _name in os.listdir(T.PACKAGE):
    if _name.endswith(".py"):
        protected(os.path.join(T.PACKAGE, _name))  # now, not in every child


class Tracer(object):
    """Raises the exception before the n-th line of the package that is executed (None: only counts)."""

    def __init__(self, at, exc):
        self.at, self.exc, self.n, self.raised, self.seen = at, exc, 0, None, {}

    def call(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(T.PACKAGE):
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == "line" and frame.f_lineno not in protected(frame.f_code.co_filename):
            self.n += 1
            if self.at is None:
                self.seen.setdefault((frame.f_code.co_filename, frame.f_lineno), []).append(self.n)
            if self.n == self.at:
                self.raised = "%s:%d" % (frame.f_code.co_filename[len(T.PACKAGE):], frame.f_lineno)
                raise self.exc("injected")
        return self.line


def attempt(run, at=None, exc=None):
    """(how the call ended, its result or exception, lines executed, where it was interrupted)"""
    t = Tracer(at, exc)
    sys.settrace(t.call)
    try:
        r = run()
        return "ok", r, t.n, t.raised
    except BaseException as e:
        if not isinstance(e, (Exception, KeyboardInterrupt)):  # the explorer's own alarm
            raise
        return "exc", e, t.n, t.raised
    finally:
        sys.settrace(None)


class Sink(io.BytesIO):
    pass


class Iteration(object):
    """Advancing an iteration: after an interrupted step it goes on with that event, the next one, or not at all."""

    def __init__(self, data, keys, k):
        self.keys, self.k = keys, k
        self.rd = ProcmonLogsReader(io.BytesIO(data))
        self.it = iter(self.rd)
        for _ in range(k):
            next(self.it)
        self.allowed = {k}

    def run(self):
        try:
            e = next(self.it)
        except StopIteration:
            return None
        return event_key(e)

    def interrupted(self):
        self.allowed |= {k + 1 for k in self.allowed} | {len(self.keys)}

    def wrong(self, g):
        for k in sorted(self.allowed):
            if g == (self.keys[k] if k < len(self.keys) else None):
                self.allowed = {k + 1}
                return None
        return "the iteration gives another event than one of %s: %s" % (
            sorted(self.allowed), diff_key(self.keys[min(self.k, len(self.keys) - 1)], g) if g else "it ended")


class Plain(object):
    def __init__(self, run, wrong):
        self.run, self.wrong = run, wrong

    def interrupted(self):
        pass


def first_wrong(want, got):
    if len(want) != len(got):
        return "%d events instead of %d" % (len(got), len(want))
    return next((d for d in (diff_key(a, b) for a, b in zip(want, got)) if d), None)


def make(op, other=0):
    kind, is64, k = op
    if kind in ("dump to", "load from"):
        items = T.CONFIGS[(k + other) % len(T.CONFIGS)]
        raw = M.build(items)
        if kind == "load from":
            return Plain(lambda: load_configuration(io.BytesIO(raw)), lambda g: diff_items(items, norm_config(g)))
        cfg = lib_config(items)

        def run():
            s = Sink()
            dump_configuration(cfg, s)
            return s.getvalue()
        return Plain(run, lambda g: diff_items(items, norm_config(cfg)) or (None if g == raw else "dumped other bytes"))
    if kind in ("iterate", "slice", "processes", "copy"):
        data, keys, csvs, procs, sysd = T.log_of(is64 ^ other, other)
        if kind == "iterate":
            return Iteration(data, keys, k)
        rd = ProcmonLogsReader(io.BytesIO(data))
        if kind == "slice":
            return Plain(lambda: [event_key(e) for e in rd[k:k + 4]], lambda g: first_wrong(keys[k:k + 4], g))
        if kind == "processes":
            return Plain(lambda: ([proc_key(p) for p in rd.processes()], rd.system_details(), len(rd)),
                         lambda g: None if g == (procs, sysd, len(keys)) else "processes are %s" % short(g, 300))
        e = rd[k]

        def copies():
            es = [copy.copy(e), copy.deepcopy(e), pickle.loads(pickle.dumps(e, 2))]
            return [event_key(x) for x in es], [dict(x.get_compatible_csv_info()) == csvs[k] for x in es], \
                [x == e for x in es], len(set([hash(x) for x in es] + [hash(e)]))
        return Plain(copies, lambda g: first_wrong([keys[k]] * 3, g[0]) or (
            None if g[1:] == ([True] * 3, [True] * 3, 1) else "the copies are not equal to the event: %s" % (g[1:],)))
    return Plain(*T.make(op, other))


MORE = [("dump to", 0, k) for k in range(4)] + [("load from", 0, k) for k in range(4)] + \
    [(kind, w, k) for w in (1, 0) for kind, k in (("iterate", 0), ("iterate", 3), ("iterate", T.KINDS - 1), ("slice", 1), ("slice", 5),
                                                ("processes", 0), ("copy", 1), ("copy", 3), ("copy", 8))]


def lines(op):
    """How many lines the operation executes alone, in a fresh process; and the first and the last time of each line."""
    key = ("lines", op)
    if key not in L._memo:
        def count():
            t, x = Tracer(None, None), make(op)
            sys.settrace(t.call)
            try:
                x.run()
            except Exception:
                pass
            finally:
                sys.settrace(None)
            return t.n, sorted({n for ns in t.seen.values() for n in ns[:1] + ns[-1:]})
        n = T.in_child(count)
        L._memo[key] = n if isinstance(n[0], int) and n[0] else (1, [1])
    return L._memo[key]


def told(x, how, r):
    if r[0] != "ok":
        return "%s raised %s" % (how, why(r))
    g = x.wrong(r[1])
    return "%s is wrong: %s" % (how, g) if g else None


def run_case(op, ats, exc, after):
    """The operation interrupted once or several times, on the same objects; then it has to work, and so have the others."""
    x = make(op)
    where = []
    for at in ats:
        r = attempt(x.run, at, EXCEPTIONS[exc])
        where.append(r[3])
        if r[3] is not None:
            x.interrupted()
        if r[0] == "ok":
            m = told(x, "the result of the interrupted call", r)
            if m:
                return m, where
        elif r[3] is None and not isinstance(r[1], EXCEPTIONS[exc]):
            return "a call that was not interrupted raised %s" % why(r), where
        del r
    for how in ("the same call afterwards", "the same call once more"):
        m = told(x, how, attempt_plain(x.run))
        if m:
            return m, where
    for name, y in others(op, after):
        m = told(y, name, attempt_plain(y.run))
        if m:
            return m, where
    return None, where


def attempt_plain(run):
    try:
        return "ok", run()
    except Exception as e:
        return "exc", e


def others(op, after):
    yield "the same call on other objects", make(op, 0)
    if after == "twin":
        yield "the same call on other data", make(op, 1)
    elif after == "everything":
        yield "the rest of the library", Plain(*T.everything(0))
        yield "the rest of the library on other data", Plain(*T.everything(1))


def single(op_list, after, excs, stride=1, most=100000):
    def gen(c):
        op = c.pick("call", op_list)
        n, distinct = lines(op)
        step = max(stride, -(-n // most))
        at = c.pick("line", sorted(set(range(1, n + 1, step)) | set(distinct if stride == 1 else range(1, min(n, 10) + 1)) | {n}))
        return op, (at,), c.pick("exception", excs), after
    return gen


def double(op_list, after, excs, most):
    def gen(c):
        op = c.pick("call", op_list)
        n = lines(op)[0]
        at = sorted(set(range(1, n + 1, max(1, -(-n // most)))) | {n})
        return op, (c.pick("first line", at), c.pick("second line", at)), c.pick("exception", excs), after
    return gen


def chk(batch, st):
    cases = [case for _, case in batch]
    out = T.in_child(lambda: ([run_case(*case) for case in cases], 0))
    if isinstance(out[0], str):
        if len(cases) > 1:
            raise RuntimeError(out[0])  # the engine bisects the batch
        results = [(out[0], [])]
    else:
        results = out[0]
    for i, (ch, case) in enumerate(batch):
        st.seen_input(case)
        m, where = results[i]
        st.n["comparisons"] += 4
        st.n["states"] += 1
        st.outcome((case[0], tuple(where)))
        if m:
            yield i, "%s interrupted by %s at %s: %s" % (case[0], case[2], ", ".join(map(str, where)), m)


@prop("R07")
def r07(tier):
    d = tier == "thorough"
    every = T.ops(range(T.KINDS)) + MORE + [("whole", w, 0) for w in (1, 0)]
    both = sorted(EXCEPTIONS)
    return [
        Scenario("fresh process, every line", single(every, "twin", both if d else both[:1], 1, 30000 if d else 500), chk, batch=1),
        Scenario("fresh process, then everything", single(every, "everything", both, 1 if d else 17, 3000 if d else 40), chk, batch=1),
        Scenario("used process, every line", single(every, "twin", both if d else both[1:], 1, 100000 if d else 600), chk, batch=60),
        Scenario("two interruptions", double(every, "twin", both if d else both[1:], 60 if d else 10), chk, batch=60),
    ], ["a KeyboardInterrupt or MemoryError is raised before a line of the package that is not part of clean-up code (finally, except, "
        "with, __exit__); one or two interruptions of the same call"], \
        "%d calls (reading, iterating, formatting, copying, opening, loading, dumping, rules) x an exception before every line executed, " \
        "in a fresh process (long calls: the first and the last time of each line of code and 500 or 600 / 30000 places) and in a used one; afterwards the same call, its twin on other objects and data, " \
        "or the whole library; all pairs of 10 / 60 places of two interruptions" % len(every)
