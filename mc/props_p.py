"""Proportion: the work and the memory that a call takes grow with what it has to read, not with anything else.

Measured deterministically: the bytecode instructions executed, the bytes taken from the stream, the peak of the traced memory.
Only what happens inside builtins is measured by the CPU time, with a wide margin."""
import gc
import io
import signal
import sys
import time
import tracemalloc

import pmcref as M
import pmlref as P
from engine import Scenario
from impl import ProcmonLogsReader, read_all_events_from_pml, loads_configuration, dumps_configuration, lib_config
from pmlcases import u32
import props_s as S
import props_t as T
import props_l as L
import props_d as D

PROPS = {}


def prop(pid):
    def deco(f):
        PROPS[pid] = f
        return f
    return deco


class TooMuch(BaseException):
    """The call takes more instructions than it may."""


def instructions(f, most=None):
    """(instructions executed by f, its result); stops f when there are more than ``most``."""
    mon = sys.monitoring
    n = [0]

    def on(code, offset):
        n[0] += 1
        if most is not None and n[0] > most:
            mon.set_events(3, 0)
            raise TooMuch()
    mon.use_tool_id(3, "verif")
    try:
        mon.register_callback(3, mon.events.INSTRUCTION, on)
        mon.set_events(3, mon.events.INSTRUCTION)
        try:
            out = f()
        except TooMuch:
            out = None
    finally:
        mon.set_events(3, 0)
        mon.register_callback(3, mon.events.INSTRUCTION, None)
        mon.free_tool_id(3)
    return n[0], out


class Counting(io.BytesIO):
    def __init__(self, data):
        super(Counting, self).__init__(data)
        self.taken = 0

    def _t(self, got):
        self.taken += got if isinstance(got, int) else len(got)
        return got

    def read(self, *a):
        return self._t(super(Counting, self).read(*a))

    def read1(self, *a):
        return self._t(super(Counting, self).read1(*a))

    def readinto(self, b):
        return self._t(super(Counting, self).readinto(b))

    def readline(self, *a):
        return self._t(super(Counting, self).readline(*a))

    def getvalue(self):
        self.taken += len(super(Counting, self).getvalue())
        return super(Counting, self).getvalue()

    def getbuffer(self):
        self.taken += len(super(Counting, self).getvalue())
        return super(Counting, self).getbuffer()


def peak(f):
    gc.collect()
    started = not tracemalloc.is_tracing()
    if started:
        tracemalloc.start()
    base = tracemalloc.get_traced_memory()[0]
    tracemalloc.reset_peak()
    f()
    out = tracemalloc.get_traced_memory()[1] - base
    if started:
        tracemalloc.stop()
    return out


def cpu(f):
    best = None
    for _ in range(3):
        gc.collect()
        gc.disable()  # its time depends on what else is in memory
        t = time.process_time()
        f()
        t = time.process_time() - t
        gc.enable()
        best = t if best is None else min(best, t)
    return best


# ---- growth of every count and length
def use_log(data):
    rd = ProcmonLogsReader(io.BytesIO(data))
    rd.processes(), rd.system_details()
    evs = rd[:]
    for k in sorted({0, 1, 2, len(evs) // 2, len(evs) - 1} & set(range(len(evs)))):
        evs[k].get_compatible_csv_info()
    for k in range(0, len(evs), 3):
        rd[k]
    for e in rd:
        pass


def log_phases(data):
    def formatting():
        for k in sorted({0, 1, 2, len(held) // 2, len(held) - 1} & set(range(len(held)))):
            held[k].get_compatible_csv_info(), str(held[k]), repr(held[k]), hash(held[k]), held[k] == held[k]
    rd = ProcmonLogsReader(io.BytesIO(data))
    held = rd[:]
    return [("opening", lambda: ProcmonLogsReader(io.BytesIO(data))), ("processes()", rd.processes),
            ("reading by index", lambda: [rd[k] for k in range(len(rd))]), ("a slice", lambda: rd[:]), ("iterating", lambda: [e for e in rd]),
            ("read_all_events_from_pml", lambda: read_all_events_from_pml(io.BytesIO(data))), ("formatting", formatting),
            ("describing the processes", lambda: [(str(p), repr(p), hash(p), repr(p.modules), p == p) for p in rd.processes()])]


def cfg_phases(items):
    raw = M.build(items)
    cfg = lib_config(items)
    return [("loading", lambda: loads_configuration(raw)), ("dumping", lambda: dumps_configuration(cfg)),
            ("describing", lambda: (str(cfg), repr(cfg)))]


def phases(kind, name, n, w):
    return log_phases(S.case_log(name, n, w)) if kind == "log" else cfg_phases(S.CFG[name](n))


SPAN = 4  # each size is so many times the one before it


def growing(kind, name, top, w):
    """None, or how a phase grows faster than the count."""
    sizes = [top // SPAN // SPAN, top // SPAN, top]
    for _, f in phases(kind, name, sizes[0], w):
        f()  # what is built once is not counted
    cost = {}
    for i, n in enumerate(sizes):
        for ph, f in phases(kind, name, n, w):
            c = cost.setdefault(ph, [])
            most = None
            if i == 2:
                m1 = max(0.0, (c[1] - c[0]) / float(sizes[1] - sizes[0]))
                allowed = c[1] + (m1 * 1.6 + 2) * (sizes[2] - sizes[1]) + 500
                most = int(allowed)
            elif i == 1:
                most = (c[0] + 500) * SPAN * 10
            got, _ = instructions(f, most)
            c.append(got)
            if most is not None and got > most:
                return "%s with %s executes %s instructions" % (ph, ", ".join(map(str, sizes[:i + 1])), ", ".join(map(str, c[:-1])) + " and more than %d" % most)
    return None


WIDER = 32


def slow(kind, name, top, w):
    """The same for the time spent in builtins."""
    def timed(n):
        return [(ph, cpu(f)) for ph, f in phases(kind, name, n, w)]
    def late(sig, frm):
        raise TooMuch()
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, 60)
    small = None
    try:
        small = timed(top // WIDER)
        large = timed(top)
    except TooMuch:
        return "more than 60 s for %d" % top + (", %.2f s for %d" % (sum(t for _, t in small), top // WIDER) if small else "")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    for (ph, a), (_, b) in zip(small, large):
        if b > WIDER * 3 * a + 0.03:
            return "%s takes %.4f s for %d and %.4f s for %d" % (ph, a, top // WIDER, b, top)
    return None


def gen_growth(kind, names, tops, bits):
    def gen(c):
        return kind, c.pick("what", names), c.pick("up to", tops), c.pick("is64", bits)
    return gen


def chk_with(f, why):
    def chk(batch, st):
        for i, (ch, case) in enumerate(batch):
            st.seen_input(case)
            st.n["comparisons"] += 1
            kind, name, top, w = case
            limits = dict((x[0], x[2] if f is slow else x[1]) for x in (S.LOGS if kind == "log" else S.CFGS))
            m = T.in_child(lambda: (f(kind, name, min(top, limits[name]), w), 0))[0]
            st.outcome((case, m))
            if m:
                yield i, "%s, %s: %s" % (name, why, m)
    return chk


# ---- one event costs the same in every log
def tiny(k):
    return P.Ev(1, 3, u32(k), tid=k, date=P.D0 + k)


def huge(k):
    return P.Ev(1, 3, u32(k) + b"\xA5" * 300000, tid=k)


def events(is64):
    """Every kind of event, and network events with names, without names, and with IPv6 addresses."""
    def ip(flags, a, b, ports):
        return P.Ev(5, P.NETOP["Send"], P.struct.pack("<HHI", flags, 0, 10) + a + b + P.struct.pack("<HH", *ports) + S.msz([]))
    v4, v6 = S.host_key(900000), bytes(range(16))
    return T.more_events(is64) + [ip(7, v4, v4, (9, 9)), ip(0, v6, v6, (9, 9)), ip(5, v4, v6, (10000, 12999)), ip(3, S.host_key(5), S.host_key(2999), (1, 1))]


def log_with(is64, kind, what, n):
    """A log with an event of the kind, and n of something else; the event's index."""
    ev = events(is64)[kind]
    kw = dict(procs=list(L.RICHPROCS[is64]), strings=list(L.STRS), hosts=list(D.HOSTS), ports=list(D.PORTS))
    before, after = [tiny(1)], [tiny(2)]
    if what == "events before it":
        before = [tiny(k) for k in range(n + 1)]
    elif what == "events after it":
        after = [tiny(k) for k in range(n + 1)]
    elif what == "large events before it":
        before += [huge(k) for k in range(n // 200)]
    elif what == "large events after it":
        after += [huge(k) for k in range(n // 200)]
    elif what == "deep stacks before it":
        before += [P.Ev(1, 3, u32(1), stack=range(1, n + 1))]
    elif what == "processes":
        kw["procs"] = [P.Proc(index=1000 + k, pid=k, is64=is64) for k in range(n)] + kw["procs"] + [
            P.Proc(index=9000 + k, pid=k, is64=is64) for k in range(n)]
    elif what == "modules":
        kw["procs"] += [P.Proc(index=1000, is64=is64, modules=[(k, 1, 1, 1, 1, 1, 1) for k in range(n)])]
    elif what == "strings":
        kw["strings"] += ["s%d" % k for k in range(n)]
    elif what == "hosts":
        kw["hosts"] = [(S.host_key(k), "h%d" % k) for k in range(n)] + kw["hosts"] + [(S.host_key(n + k), "h%d" % k) for k in range(n)]
    elif what == "ports":
        kw["ports"] = [(k, k & 1, "p%d" % k) for k in range(10000, 10000 + n)] + kw["ports"] + [
            (k, k & 1, "p%d" % k) for k in range(30000, 30000 + n)]
    return P.Pml(is64=is64, events=before + [ev] + after, **kw).build(), len(before)


WHAT = ["events before it", "events after it", "large events before it", "large events after it", "deep stacks before it", "processes", "modules",
        "strings", "hosts", "ports"]
HISTORY = ["nothing", "every event, by index", "the same event, a hundred times", "an iteration", "a slice of all", "processes and details"]


def histories(rd, name, k):
    if name == "every event, by index":
        for j in range(len(rd)):
            rd[j]
    elif name == "the same event, a hundred times":
        for _ in range(100):
            rd[k]
    elif name == "an iteration":
        for e in rd:
            pass
    elif name == "a slice of all":
        rd[:]
    elif name == "processes and details":
        rd.processes(), rd.system_details()


def one_event(is64, kind, what, n, hist, options):
    """Cost of reading and formatting the event: instructions, bytes, memory."""
    data, k = log_with(is64, kind, what, n)
    stream = Counting(data)
    kw = {"should_get_details": False, "should_get_stacktrace": False} if options else {}
    rd = ProcmonLogsReader(stream, **kw)
    rd[k].get_compatible_csv_info()
    histories(rd, hist, k)
    stream.taken = 0
    ways = [lambda: rd[k], lambda: rd[k - len(rd)], lambda: rd[k:k + 1]]
    out = []
    for get in ways:
        a, _ = instructions(get, 2000000)
        stream.taken = 0
        e = get()
        b = stream.taken
        out.append((a, b, peak(get)))
    e = e[0]
    out.append((instructions(e.get_compatible_csv_info, 2000000)[0], 0, peak(e.get_compatible_csv_info)))
    return out


STEPS = ["reading by index", "reading by a negative index", "reading by a slice", "formatting"]
LARGE = 3000


def gen_one(tier):
    def gen(c):
        return c.pick("is64", [1, 0] if tier else [1]), c.pick("kind", list(range(T.KINDS + 4))), c.pick("what", WHAT), \
            c.pick("before", HISTORY if tier else HISTORY[:2]), c.pick("options off", [0, 1] if tier else [0])
    return gen


def within(a, b, exact=False):
    """What the cost b may be if it is a in a small log."""
    return [x for x, bad in (("%d instructions instead of %d" % (b[0], a[0]), b[0] > 1.5 * a[0] + 300),
                             ("%d bytes read instead of %d" % (b[1], a[1]), b[1] > a[1] + 65536),
                             ("%d bytes of memory instead of %d" % (b[2], a[2]), b[2] > 2 * a[2] + (1 << 18))) if bad]


def chk_one(batch, st):
    def run():
        base, out = {}, []
        for is64, kind, what, hist, opt in cases:
            key = is64, kind, opt
            if key not in base:
                one_event(is64, kind, "nothing", 0, "nothing", opt)
                base[key] = one_event(is64, kind, "nothing", 0, "nothing", opt)
            got = one_event(is64, kind, what, LARGE, hist, opt)
            out.append(next(("%s: %s" % (s, x[0]) for s, x in ((s, within(a, b)) for s, a, b in zip(STEPS, base[key], got)) if x), None))
        return out, 0
    cases = [case for _, case in batch]
    out = T.in_child(run)[0]
    if isinstance(out, str):
        raise RuntimeError(out)
    for i, (ch, case) in enumerate(batch):
        st.seen_input(case)
        st.n["comparisons"] += 12
        st.outcome((case, out[i]))
        if out[i]:
            yield i, "event kind %d in a log with many %s, after %s: %s" % (case[1], case[2], case[3], out[i])


# ---- opening and iterating take no more than they need
def contents(n, size):
    return P.Pml(is64=1, events=[S.set_value(3, b"%4d" % k + b"\xA5" * size) for k in range(n)], procs=[P.Proc()], strings=("s",)).build()


def lean(case):
    what, opt = case
    kw = {"should_get_details": False, "should_get_stacktrace": False} if opt else {}

    def opened(data):
        s = Counting(data)
        a, _ = instructions(lambda: ProcmonLogsReader(s, **kw), 10000000)
        t = s.taken
        keep = []
        return a, t, peak(lambda: keep.append(ProcmonLogsReader(s if s.seek(0) else s, **kw)))

    def through(data, way):
        rd = ProcmonLogsReader(io.BytesIO(data), **kw)

        def iteration():
            for e in rd:
                pass

        def indexes():
            for k in range(len(rd)):
                rd[k]

        def first():
            next(rd)

        def last():
            rd[-1]
        return 0, 0, peak({"iterating": iteration, "every index": indexes, "the first": first, "the last": last}[way])
    if what == "opening":
        pairs = [(opened, contents(20, 10), contents(20, 200000))]
    else:
        pairs = [(lambda d: through(d, what), contents(4, 200000), contents(40, 200000))]
    for f, small, large in pairs:
        f(small)
        a, b = f(small), f(large)
        bad = within(a, b)
        if b[2] > a[2] + 400000:
            bad.append("%d bytes of memory instead of %d" % (b[2], a[2]))
        if bad:
            return bad[0]
    return None


def gen_lean(c):
    return c.pick("what", ["opening", "iterating", "every index", "the first", "the last"]), c.pick("options off", [0, 1])


def chk_lean(batch, st):
    for i, (ch, case) in enumerate(batch):
        st.seen_input(case)
        st.n["comparisons"] += 1
        m = T.in_child(lambda: (lean(case), 0))[0]
        st.outcome((case, m))
        if m:
            yield i, "%s in a log with more and larger contents: %s" % (case[0], m)


LOG_NAMES = [x[0] for x in S.LOGS if x[1] >= 1000]
CFG_NAMES = [x[0] for x in S.CFGS if x[1] >= 1000]


@prop("R09")
def r09(tier):
    d = tier == "thorough"
    k = dict(batch=1, horizon=400, enough=3)
    tops = [512, 2048, 8192] if d else [2048]
    return [
        Scenario("log instructions", gen_growth("log", LOG_NAMES, tops, [1, 0] if d else [1]), chk_with(growing, "grows too fast"), **k),
        Scenario("configuration instructions", gen_growth("cfg", CFG_NAMES, tops, [1]), chk_with(growing, "grows too fast"), **k),
        Scenario("log time", gen_growth("log", LOG_NAMES, [65536], [1, 0] if d else [1]), chk_with(slow, "is too slow"), **k),
        Scenario("configuration time", gen_growth("cfg", CFG_NAMES, [20000], [1]), chk_with(slow, "is too slow"), **k),
        Scenario("one event", gen_one(d), chk_one, batch=10, horizon=400, enough=3),
        Scenario("lean", gen_lean, chk_lean, **k),
    ], ["a marginal cost up to 1.6 times (2 instructions more) at four times the size is taken for linear; time inside builtins is only judged "
        "at %d times the size, with a factor of three" % WIDER, "reading ahead up to 64 KB is not counted"], \
        "%d counts of logs and %d of configurations at n, 4n and 16n = %s; %d kinds of events in logs with many of %d other things, " \
        "after %d kinds of uses (all; 6)" % (len(LOG_NAMES), len(CFG_NAMES), "/".join(map(str, tops)), T.KINDS + 4, len(WHAT), 2)
