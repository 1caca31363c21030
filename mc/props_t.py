"""Threads: every schedule of two threads with few preemptions, on the real code, in fresh processes."""
import io
import os
import pickle
import select
import signal
import struct
import sys
import threading

import pmcref as M
import pmlref as P
from engine import Scenario
from impl import ProcmonLogsReader, read_all_events_from_pml, loads_configuration, dumps_configuration, Rule, Column, \
    RuleRelation, RuleAction, call, why, event_key, ref_key, diff_key, proc_key, ref_proc_key, short, lib_config, \
    norm_config, diff_items, pp
from pmlcases import sane_event
import props_c as C
import props_d as D
import props_l as L
from props_l import stack

PROPS = {}
PACKAGE = os.path.dirname(os.path.abspath(pp.__file__)) + os.sep


def prop(pid):
    def deco(f):
        PROPS[pid] = f
        return f
    return deco


# ---- two logs with the same kinds of events and contents that differ in every byte that can differ
def altered(is64, e):
    """The event with every byte of its contents changed that can be changed while it stays decodable as the same kind."""
    def decode(detail, extra):
        f = P.Ev(e.cls, e.op, bytes(detail), bytes(extra) if extra is not None else None, proc=e.proc, date=e.date)
        log = P.RefLog(P.Pml(is64=is64, events=[f], procs=L.RICHPROCS[is64], strings=L.STRS, hosts=D.HOSTS, ports=D.PORTS).build())
        x = log.event(0)
        P.csv_record(log, x)
        return x
    base = decode(e.detail, e.extra)
    d, x = bytearray(e.detail), bytearray(e.extra) if e.extra is not None else None
    for part in (d, x):
        for k in range(len(part or ())):
            for bit in (1, 2, 16):
                part[k] ^= bit
                try:
                    got = decode(d, x)
                    if got.operation == base.operation and [n for n, _ in got.details] == [n for n, _ in base.details] and \
                            [type(v) for _, v in got.details] == [type(v) for _, v in base.details] and \
                            [len(v) if isinstance(v, list) else 0 for _, v in got.details] == \
                            [len(v) if isinstance(v, list) else 0 for _, v in base.details]:
                        break
                except Exception:
                    pass
                part[k] ^= bit
    return bytes(d), bytes(x) if x is not None else None


MORE = [(1, P.PROCOP["Process_Create"]), (1, P.PROCOP["Process_Exit"]), (2, P.REGOP["RegEnumValue"]), (2, P.REGOP["RegSetInfoKey"]),
        (3, P.FSOP["ReadFile"]), (3, P.FSOP["DeviceIoControl"]), (3, P.FSOP["CreateFileMapping"])]


def more_events(is64):
    out = L.kinds_events(is64)
    for cls, op in MORE:
        d, x = sane_event(cls, op, is64)
        out.append(P.Ev(cls, op, d, x, proc=(7, 1)[len(out) % 2], tid=300 + len(out), date=P.D0 + 999 * len(out), dur=len(out),
                        stack=stack(is64, 2, len(out))))
    return out


def log_of(is64, other):
    """(bytes, model keys, CSV records, processes, system details)"""
    key = ("threads", is64, other)
    if key not in L._memo:
        evs = more_events(is64)
        procs, strs = L.RICHPROCS[is64], L.STRS
        if other:
            evs = list(reversed(evs))
            for k, e in enumerate(evs):
                e.detail, e.extra = altered(is64, e)
                e.tid, e.date, e.dur, e.result = 7000 + k, e.date + 12345678901 * (k + 1), 999 + k, 0xc0000034
                e.stack = [a ^ 0x5a5a for a in e.stack] + [0x1234] * (k % 3)
            strs = tuple(s + "." for s in L.STRS)
            procs = [P.Proc(index=p.index, pid=p.pid + 7, ppid=p.ppid + 1, auth=p.auth ^ 0xff, session=p.session + 3,
                            start=p.start + 5, end=p.end + 6, virt=1 - p.virt if p.virt in (0, 1) else p.virt, is64=p.is64,
                            strs=p.strs[::-1], modules=[(m[0] + 16, m[1] + 1) + tuple(m[2:]) for m in p.modules] + [(5, 6, 1, 2, 3, 4, 7)])
                     for p in procs]
        pml = P.Pml(is64=is64, events=evs, procs=procs, strings=strs, hosts=[(a, n + "." * other) for a, n in D.HOSTS],
                    ports=[(a, t, n + "." * other) for a, t, n in D.PORTS])
        if other:
            pml.computer = "OTHER"
        data = pml.build()
        log = P.RefLog(data)
        xs = [log.event(k) for k in range(log.count)]
        L._memo[key] = (data, [ref_key(log, x) for x in xs], [P.csv_record(log, x) for x in xs],
                        [ref_proc_key(log.procs[k]) for k in log.proc_list], log.system_details())
    return L._memo[key]


for _w in (1, 0):  # the model's work is done before any process is forked
    for _o in (0, 1):
        log_of(_w, _o)
KINDS = len(more_events(1))
CONFIGS = [C.HIST_CFGS[1], C.HIST_CFGS[2], C.HIST_CFGS[5], C.full_cfg()]


def rule_text():
    r = [Rule("process_name", "IS_not", "x", "exclude"), Rule(Column.PID, 0, "1338"), Rule()]
    return [repr(r), [str(x) for x in r], dumps_configuration({"FilterRules": r}), r == [Rule(int(x.column), x.relation, x.value, x.action.name) for x in r]]


RULES_WANT = ['[Rule(Column.PROCESS_NAME, RuleRelation.IS_NOT, "x", RuleAction.EXCLUDE), Rule(Column.PID, RuleRelation.IS, "1338", '
              'RuleAction.INCLUDE), Rule(Column.ARCHITECTURE, RuleRelation.IS, "64-bit", RuleAction.INCLUDE)]']


def twice(e):
    """What the event says at once, and the event itself, to be looked at again when both threads have ended."""
    return event_key(e), e


def diff_twice(want, g):
    return diff_key(want, g[0]) or diff_key(want, event_key(g[1]))


def prepare(op, other):
    """(a function to run in a thread, a function that says what is wrong with its result)"""
    kind, is64, k = op
    if kind in ("loads", "dumps"):
        items = CONFIGS[(k + other) % len(CONFIGS)]
        if kind == "loads":
            raw = M.build(items)
            return lambda: loads_configuration(raw), lambda g: diff_items(items, norm_config(g))
        cfg = lib_config(items)
        return lambda: dumps_configuration(cfg), lambda g: None if g == M.build(items) else "dumped other bytes"
    if kind == "rule":
        want = M.build([("FilterRules", [(int(c), r, a, v) for c, r, a, v in ((Column["PROCESS_NAME"], 1, 0, "x"), (Column["PID"], 0, 1, "1338"),
                                                                              (40088, 0, 1, "64-bit"))])])
        return rule_text, lambda g: None if g[0] == RULES_WANT[0] and g[2] == want and g[3] else "rules are %s" % short(g, 300)
    data, keys, csvs, procs, sysd = log_of(is64 ^ other if kind != "csv same" else is64, other if kind != "csv same" else 0)
    n = len(keys)
    k = n - 1 - k if other else k
    if kind == "open":
        def run():
            rd = ProcmonLogsReader(io.BytesIO(data))
            ps = rd.processes()
            return len(rd), [proc_key(p) for p in ps], rd.system_details(), ps
        return run, lambda g: None if g[:3] == (n, procs, sysd) and [proc_key(p) for p in g[3]] == procs else \
            "opening gives %s" % short(g, 300)
    if kind == "whole":
        def wrong(g):
            if len(g) != n:
                return "%d events instead of %d" % (len(g), n)
            return next((d for d in (diff_key(w, event_key(e)) for w, e in zip(keys, g)) if d), None)
        return lambda: read_all_events_from_pml(io.BytesIO(data)), wrong
    rd = ProcmonLogsReader(io.BytesIO(data))
    if kind == "read":
        return lambda: twice(rd[k]), lambda g: diff_twice(keys[k], g)
    if kind == "details off":
        rd = ProcmonLogsReader(io.BytesIO(data), bool(other), True)
        want = keys[k] if other else keys[k][:7] + ([],) + keys[k][8:]
        return lambda: twice(rd[k]), lambda g: diff_twice(want, g)
    if kind == "csv":
        e = rd[k]

        def fmt():
            return e.get_compatible_csv_info(), str(e), repr(e), e.date(), hash(e)
        want = dict(csvs[k])
        return fmt, lambda g: None if dict(g[0]) == want else next(
            "column %r: expected %s, got %s" % (c, short(want[c]), short(g[0].get(c))) for c in want if want[c] != g[0].get(c))
    raise ValueError(kind)


EVERYTHING = ("everything", 0, 0)


def everything(other):
    """One thread that goes through all of the library, with other data than the first thread."""
    data, keys, csvs, procs, sysd = log_of(0, other)
    data2, keys2, csvs2 = log_of(1, other)[:3]
    items = CONFIGS[3]

    def run():
        out = []
        for d in (data, data2):
            rd = ProcmonLogsReader(io.BytesIO(d))
            out.append([proc_key(p) for p in rd.processes()])
            es = list(rd)
            out.append([event_key(e) for e in es])
            out.append([dict(e.get_compatible_csv_info()) for e in es])
        out.append(dumps_configuration(loads_configuration(M.build(items))))
        out.append(rule_text()[0])
        return out

    def wrong(g):
        want = [procs, keys, csvs, log_of(1, other)[3], keys2, csvs2, M.build(items), RULES_WANT[0]]
        for n, (a, b) in enumerate(zip(want, g)):
            if a != (list(map(dict, b)) if n in (2, 5) else b):
                return "part %d differs" % n
        return None
    return run, wrong


class Blocked(Exception):
    pass


class Stepper(object):
    """Runs a function in a thread of its own that stops before its n-th step inside the package until it is released."""

    def __init__(self, run, stop, grain, at_stop=None):
        self.run_, self.stop, self.grain, self.at_stop = run, stop, grain, at_stop
        self.n, self.result = 0, None
        self.stopped, self.go, self.done = threading.Event(), threading.Event(), threading.Event()
        self.t = threading.Thread(target=self._main, daemon=True)

    def _main(self):
        if self.grain == "opcode":
            sys._getframe().f_trace_opcodes = True  # CPython 3.12 looks at it when tracing starts
        if self.grain:
            sys.settrace(self._call)
        try:
            self.result = call(self.run_)
        finally:
            sys.settrace(None)
            self.done.set()
            self.stopped.set()

    def _call(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PACKAGE):
            return None
        if self.grain == "opcode":
            frame.f_trace_opcodes = True
        if self.grain == "call":
            self._step()
            return None
        return self._line

    def _line(self, frame, event, arg):
        if event == self.grain or event == "return":
            self._step()
        return self._line

    def _step(self):
        self.n += 1
        if self.n == self.stop:
            self.stopped.set()
            self.go.wait(30)


PATIENCE = 1.0


def schedule(a, b, i, j, grain):
    """Thread A runs to its i-th step, then B to its j-th (None: to its end), then A to its end, then B to its end."""
    A, B = Stepper(a[0], i, grain), Stepper(b[0], j, grain if j else None)
    A.t.start()
    A.stopped.wait(30)
    B.t.start()
    B.stopped.wait(PATIENCE)  # B may legitimately wait for A (a lock): then A goes on
    A.go.set()
    A.done.wait(30)
    B.go.set()
    B.done.wait(30)
    out = []
    for name, s, x in (("first", A, a), ("second", B, b)):
        if s.result is None:
            return "the %s thread does not end" % name, (A.n, B.n)
        if s.result[0] != "ok":
            return "the %s thread raised %s" % (name, why(s.result)), (A.n, B.n)
        g = call(x[1], s.result[1])
        if g[0] != "ok" or g[1]:
            return "the %s thread got a wrong result: %s" % (name, why(g) if g[0] != "ok" else g[1]), (A.n, B.n)
    return None, (A.n, B.n)


def make(op, other):
    return everything(other) if op == EVERYTHING else prepare(op, other)


def run_schedule(opa, opb, i, j, grain):
    a = make(opa, 0)
    if opb == "same event":
        b = a
    else:
        b = make(opb, 1)
    return schedule(a, b, i, j, grain)


def in_child(f, *args):
    """Runs f in a fresh copy of this process, in which the package has not been used yet."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = f(*args)
            except BaseException as e:
                out = "raised %s: %s" % (type(e).__name__, e), (0, 0)
            with os.fdopen(w, "wb") as p:
                p.write(pickle.dumps(out))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as p:
            raw = p.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    status = os.waitpid(pid, 0)[1]
    return pickle.loads(raw) if raw else ("the process died (%d)" % status, None)


def steps(op, other, grain):
    """How many steps the operation takes alone, in a fresh process."""
    def count():
        x = make(op, other)
        s = Stepper(x[0], None, grain)
        s.t.start()
        s.done.wait(60)
        return s.n
    key = ("steps", op, other, grain)
    if key not in L._memo:
        n = in_child(count)
        L._memo[key] = n if isinstance(n, int) else 1
    return L._memo[key]


def ops(kinds):
    out = []
    for is64 in (1, 0):
        out += [("read", is64, k) for k in kinds] + [("csv", is64, k) for k in kinds]
    return out + [("open", 1, 0), ("open", 0, 0), ("details off", 1, 1), ("loads", 0, 0), ("loads", 0, 2), ("loads", 0, 3), ("dumps", 0, 0),
                  ("dumps", 0, 2), ("dumps", 0, 3), ("rule", 0, 0)]


def positions(op, other, grain, stride, most):
    """Every step (or every stride-th); of a long operation, that many of its steps, evenly spread and its first and last."""
    n = steps(op, other, grain)
    step = max(stride, -(-n // most))
    return sorted(set(range(1, n + 1, step)) | set(range(1, min(n, 40) + 1, stride)) | {n})


def one_preemption(op_list, partners, grain, stride=1, most=5000):
    def gen(c):
        a = c.pick("first", op_list)
        b = c.pick("second", partners)
        b = EVERYTHING if b == "everything" else a if b == "its twin" else b
        if b == "same event" and a[0] not in ("csv", "dumps"):
            b = EVERYTHING
        return a, b, c.pick("at step", positions(a, 0, grain, stride, most)), None, grain
    return gen


def two_preemptions(op_list, grain, stride=1, most=400):
    def gen(c):
        a = c.pick("first", op_list)
        return a, a, c.pick("first stops", positions(a, 0, grain, stride, most)), \
            c.pick("second stops", positions(a, 1, grain, stride, most)), grain
    return gen


def alone(case, first, st):
    """The schedule once more, in a process of its own. CPython 3.12 itself may crash while threads switch tracing of instructions
    on (its instrumentation of code that another thread is running): a process that was ended by a signal is started again."""
    for _ in range(4):
        out = in_child(run_schedule, *case)
        if out[1] is not None:
            return out
        st.n["interpreter_crashes"] += 1
    return (None, (0, 0)) if case[4] == "opcode" else (out[0], (0, 0))


def chk_schedules(batch, st):
    """Schedules in one process, one after the other."""
    cases = [case for _, case in batch]
    out = in_child(lambda: ([run_schedule(*case) for case in cases], 0))
    results = out[0] if not isinstance(out[0], str) else [alone(case, out, st) if len(cases) > 1 or out[1] is None else out for case in cases]
    for i, (ch, case) in enumerate(batch):
        st.seen_input(case)
        st.n["comparisons"] += 2
        m, n = results[i]
        st.n["states"] += 1
        st.outcome((case[0], case[1], n))
        if m:
            yield i, "%s, second %s, switched at %s %d%s: %s" % (
                case[0], "is " + str(case[1]), case[4], case[2], "" if case[3] is None else " and %d" % case[3], m)


KEY_KINDS = [1, 3, 4, 6, 8]


@prop("L08")
def l08(tier):
    d = tier == "thorough"
    every = ops(range(KINDS))
    some = [("read", w, k) for w in (1, 0) for k in range(KINDS)] + [("csv", 1, k) for k in KEY_KINDS] + \
        [("open", 1, 0), ("loads", 0, 3), ("dumps", 0, 3), ("rule", 0, 0)]
    return [
        Scenario("fresh process, twin operations", one_preemption(every, ["its twin"], "line", 1, 30000 if d else 900), chk_schedules,
                 batch=1),
        Scenario("fresh process, everything", one_preemption(every, ["everything"], "line", 1 if d else 3, 5000 if d else 300),
                 chk_schedules, batch=1),
        Scenario("used process, the same objects", one_preemption(every, ["same event"], "line", 1, 2000), chk_schedules, batch=40),
        Scenario("used process, every instruction", one_preemption(every, ["its twin"], "opcode", 1 if d else 4,
                                                                   50000 if d else 800), chk_schedules, batch=40),
        Scenario("two preemptions", two_preemptions(every if d else some, "call", 1 if d else 2, 400 if d else 40),
                 chk_schedules, batch=40),
    ], ["a thread is preempted before a line, an instruction, or a call inside the package; at most two preemptions; each thread "
        "has its own readers, streams and configurations, events may be formatted by both"], \
        "%d operations (read, format, open, load, dump, rules) of one thread x its twin on other data or a run through the whole " \
        "library in the other: a switch before every line in a fresh process (long operations: 900 / 30000 places; whole library: " \
        "every third / every line), before every 4th / every bytecode instruction in a used one, and before every second / every " \
        "pair of calls with two switches" % len(every)
