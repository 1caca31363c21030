"""Log container properties: header, common fields, tables, access paths, options, layout, purity."""
import io
import itertools
import os
import pathlib
import struct
import tempfile

import pmlref as P
from engine import Scenario, Skip
from impl import ProcmonLogsReader, read_all_events_from_pml, call, why, event_key, ref_key, diff_key, proc_key, \
    ref_proc_key, short, Process, Module, Event, PROC_ATTRS
from pmlcases import *  # noqa: F401,F403
from pmlcases import field, nums, few, case, check_events, ev_scenario, sane_event, fixture, fixture_scenario, describe, \
    ALL_OPS, FIXTURES, RES, CHUNK, PROCS, pattern, astr, ustr, u32, u64, fs_detail
import props_d as D

PROPS = {}


def prop(pid):
    def deco(f):
        PROPS[pid] = f
        return f
    return deco


def deep(tier):
    return tier == "thorough"


def logs_equal(data, rd, deep_=True, log=None):
    """Compare everything a reader gives with the model; None or the difference."""
    log = log or P.RefLog(data)
    if len(rd) != log.count:
        return "%d events instead of %d" % (len(rd), log.count)
    want = [ref_proc_key(log.procs[i]) for i in log.proc_list]
    got = [proc_key(p) for p in rd.processes()]
    if want != got:
        return "processes: expected %s, got %s" % (short(want, 300), short(got, 300))
    for i in range(log.count):
        r = call(lambda: event_key(rd[i], deep_))
        if r[0] != "ok":
            return "event %d raised %s" % (i, why(r))
        d = diff_key(ref_key(log, log.event(i), deep_), r[1])
        if d:
            return "event %d: %s" % (i, d)
    return None


# ------------------------------------------------------------------------------------------------ L01 header
COMPUTERS = ["PC", "", "A", "DESKTOP-0123456", "ABCDEFGHIJKLMNOP", "Ā" * 16, "é", "\U0001d11e" * 8, "aĀ", "x y", " PC", "PC ", "pc",
             "e\u0301", "\ufb01", "\ufeffPC", "\t", "{}%s", "a\ud800b", "\udc00"]
ROOTS = ["C:\\Windows", "", "D:", "x" * 259, "y" * 260, "Ā" * 260, "C:\\Wĭndows", "\U0001d11e", "C:\\", "C:\\Windows\\", " C:\\W ", "c:/windows/",
         "\ufeffC:", "e\u0301", "{}%s", "C:\\a\ud800b", "\\\\srv\\share", "\r\n"]
SPS = ["", "Service Pack 1", "S" * 24, "S" * 25, "Ā" * 25, "aĀ", " Service Pack 1", "SP 1 ", " ", "{}", ", ", "a\ud800", "\ufeff", "0"]
VERS = [(10, 0), (6, 0), (6, 1), (6, 2), (6, 3)]


def header(c, rich):
    is64 = c.pick("is64", [1, 0])
    a, b = c.pick("windows", VERS)
    v = (a, b, field(c, "build", 32, 16299, rich), field(c, "build fraction", 32, 2, rich))
    return dict(is64=is64, version=v, computer=c.dev("computer", COMPUTERS), root=c.dev("root", ROOTS),
                sp=c.dev("service pack", SPS), ncpu=field(c, "processors", 32, 4, rich),
                ram=c.dev("ram", (nums(64) if rich else few(64)) + [2 << 30, 0x1ffbe1000, 16 << 30, 3758096384]),
                junk=c.dev("unused bytes", [0xA5, 0, 0xff]))


def ram_steps(limit):
    def gen(c):
        k = c.pick("hundredths of a gigabyte", range(limit))
        base = -(-k * (1 << 30) // 100)  # the first byte count that rounds down to k hundredths
        return dict(ram=max(0, base + c.pick("offset", [0, -1, 1])))
    return gen


def chk_header(batch, st):
    for i, (ch, kw) in enumerate(batch):
        data = P.Pml(**kw).build()
        st.seen_input(data)
        want = P.RefLog(data).system_details()
        st.outcome(sorted(want.items()))
        st.n["comparisons"] += 1
        r = call(lambda: ProcmonLogsReader(io.BytesIO(data)).system_details())
        if r[0] != "ok":
            yield i, "system_details raised " + why(r)
        elif r[1] != want or {k: type(v) for k, v in want.items()} != {k: type(v) for k, v in r[1].items()}:
            yield i, "expected %r, got %r" % (sorted(want.items()), sorted(r[1].items()))


def chk_fixture_header(batch, st):
    for i, (ch, n) in enumerate(batch):
        raw, log, rd, cls = fixture(n)
        st.n["fixture_traces"] += 1
        st.n["comparisons"] += 1 + len(log.proc_list)
        if rd.system_details() != log.system_details():
            yield i, "%s: expected %r, got %r" % (n, log.system_details(), rd.system_details())
        want = [ref_proc_key(log.procs[k]) for k in log.proc_list]
        got = [proc_key(p) for p in rd.processes()]
        if want != got:
            yield i, "%s: process table differs" % n
        if len(rd) != log.count:
            yield i, "%s: %d events instead of %d" % (n, len(rd), log.count)


def fixture_header():
    return Scenario("recorded logs", lambda c: c.pick("log", [n for n in FIXTURES if os.path.exists(os.path.join(RES, n))]),
                    chk_fixture_header, batch=1)


@prop("L01")
def l01(tier):
    d = deep(tier)
    return [Scenario("fields", lambda c: header(c, True), chk_header, bound=2 if d else 1),
            Scenario("combinations", lambda c: header(c, False), chk_header, bound=3 if d else 2),
            Scenario("memory sizes", ram_steps(102400 if d else 6500), chk_header, bound=None),
            fixture_header()], \
        ["the Windows version is one of the five the library knows"], \
        "5 versions x bitness x 1 rich / 2 short deviations (quick), 2/3 (thorough) of every field at full width; every " \
        "hundredth of a gigabyte up to 65 GB (quick) / 1 TB (thorough), at both sides of its boundary"


# ------------------------------------------------------------------------------------------------ L02 common fields
RICHPROCS = {w: [P.Proc(index=7, pid=1000, is64=w, strs=(1, 2, 3, 4, 5, 6, 7, 8),
                        modules=[(0x10000, 0x2000, 4, 7, 6, 8, 1), (0x20000, 1, 3, 2, 1, 0, 2)]),
                 P.Proc(index=0, pid=0, is64=w), P.Proc(index=0xffffffff, pid=77, is64=w),
                 P.Proc(index=1, pid=4, is64=w, strs=(8, 7, 6, 5, 4, 3, 2, 1), end=P.D0 + 99, modules=[(0, 0, 0, 0, 0, 0, 0)] * 2),
                 P.Proc(index=0x80000000, pid=78, is64=w)]
             for w in (0, 1)}
STRS = ("", "Medium", "user", "a.exe", "C:\\a.exe", "a.exe /x", "Co", "1.0", "desc")
DEPTHS = [0, 1, 2, 3, 16, 127, 128, 255, 256, 257, 300]


def stack(is64, n, salt=0):
    m = (1 << (64 if is64 else 32)) - 1
    return [(0x8123456789abcdef * (i + 1 + salt) ^ i) & m for i in range(n)]


def common(c, rich):
    is64 = c.pick("is64", [1, 0])
    cls, op = c.pick("op", ALL_OPS)
    d, x = sane_event(cls, op, is64)
    if c.pick("extra", [0, 1]):
        x = b"\1\0\0\0\0\0\0\0" * 16
        if P.OPS[cls][op] == "DirectoryControl":
            raise Skip()
    elif x is not None:
        pass
    return case(P.Ev(cls, op, d, x, proc=c.dev("process", [7, 0, 0xffffffff, 1, 0x80000000]),
                     tid=field(c, "tid", 32, 5, rich), dur=field(c, "duration", 64, 0, rich),
                     date=field(c, "date", 64, P.D0, rich), result=field(c, "result", 32, 0, rich),
                     stack=stack(is64, c.dev("depth", DEPTHS if rich else DEPTHS[:4]))),
                is64, procs=RICHPROCS[is64], strings=STRS)


def stacks(c):
    """Stack traces: depths and address values."""
    is64 = c.pick("is64", [1, 0])
    cls, op = c.pick("op", [(1, 3), (2, 0), (3, 20), (4, 0), (5, 3)])
    d, x = sane_event(cls, op, is64)
    w = 64 if is64 else 32
    n = c.pick("depth", [1, 2, 3, 5])
    return case(P.Ev(cls, op, d, c.pick("extra", [None, b"\1\0\0\0\0\0\0\0" * 16]), proc=7,
                     stack=[field(c, "a%d" % i, w, 0x1000 + i) for i in range(n)]), is64, procs=RICHPROCS[is64],
                strings=STRS)


def depths(limit):
    def gen(c):
        is64 = c.pick("is64", [1, 0])
        d, x = sane_event(3, 20, is64)
        return case(P.Ev(3, 20, d, c.pick("extra", [None, u32(1)]), proc=7,
                         stack=stack(is64, c.pick("depth", list(range(limit)) + [4095, 65535]))), is64,
                    procs=RICHPROCS[is64], strings=STRS)
    return gen


def chk_deep(batch, st):
    """Like check_events, with the whole process (modules included)."""
    for k, (ch, cs) in enumerate(batch):
        data = P.Pml(is64=cs["is64"], events=[cs["ev"]], **cs["kw"]).build()
        st.seen_input(data)
        st.n["comparisons"] += 1
        r = call(ProcmonLogsReader, io.BytesIO(data))
        m = "opening raised " + why(r) if r[0] != "ok" else logs_equal(data, r[1])
        st.outcome(len(data))
        if m:
            yield k, m


@prop("L02")
def l02(tier):
    d = deep(tier)
    return [ev_scenario("fields", lambda c: common(c, True), 2 if d else 1),
            ev_scenario("combinations", lambda c: common(c, False), 3 if d else 2),
            ev_scenario("addresses", stacks, 2 if d else 1),
            Scenario("depths", depths(1025 if d else 300), chk_deep, batch=20, describe=describe),
            fixture_scenario(None, None, 1 if d else 3)], \
        ["event classes and operations are defined ones"], \
        "all 89 operations of the 5 classes x bitness x extra data present/absent x 1 rich / 2 short deviations (quick), " \
        "2/3 (thorough) of process, thread, duration, date, result, stack; every depth below 300 / 1025, 4095 and 65535"


# ------------------------------------------------------------------------------------------------ L03 access paths
def kinds_events(is64):
    """A small log with one event of every kind of detail structure."""
    out = []
    for cls, op in [(1, 5), (2, P.REGOP["RegSetValue"]), (3, 20), (5, 3), (1, P.PROCOP["Process_Start"]), (4, 0),
                    (2, P.REGOP["RegQueryKey"]), (1, 3)]:
        d, x = sane_event(cls, op, is64)
        k = len(out)
        out.append(P.Ev(cls, op, d, u32(1) if cls == 3 else x, proc=(7, 1)[k % 2], tid=100 + k, date=P.D0 + 10000000 * k,
                        dur=k, stack=stack(is64, k % 4, k)))
    dirs = fs_detail(is64, D.DIRSUB["QueryDirectory"], astr("C:\\dir"), [(0x14 + 2 * D.pad(is64), u32(12))],
                     struct.pack("<H", astr("*.x")[0]) + b"*.x")
    out.append(P.Ev(3, P.FSOP["DirectoryControl"], dirs, D.entry(12, "f1", 4) + D.entry(12, "f2", None), proc=7, tid=200,
                    stack=stack(is64, 2, 9)))
    return out


def small_log(is64, n, **kw):
    evs = kinds_events(is64)[:n]
    return P.Pml(is64=is64, events=evs, procs=RICHPROCS[is64], strings=STRS, hosts=D.HOSTS, ports=D.PORTS, **kw).build()


_memo = {}


def prepared(is64, n):
    """(bytes, model keys of every event, process keys, system details) of a small log."""
    if (is64, n) not in _memo:
        data = small_log(is64, n)
        log = P.RefLog(data)
        _memo[is64, n] = (data, [ref_key(log, log.event(i)) for i in range(n)],
                          [ref_proc_key(log.procs[i]) for i in log.proc_list], log.system_details())
    return _memo[is64, n]


class Minimal(object):
    """A stream with read, seek and tell only."""

    def __init__(self, data):
        self._f = io.BytesIO(data)

    def read(self, n=-1):
        return self._f.read(n)

    def seek(self, off, whence=0):
        return self._f.seek(off, whence)

    def tell(self):
        return self._f.tell()


def sk(e):
    """Key of a decoded event; reported problems instead of exceptions."""
    return event_key(e)


OPS_FULL = ["next", "r[0]", "r[-1]", "r[n]", "r[-n-1]", "r[:]", "r[::-1]", "r[1:3]", "len", "iter", "rest", "processes",
            "system", "seek 0", "seek end", "read 5", "second next", "second all", "r['x']", "r[1.0]", "format", "take 2",
            "in order"]
OPS_FEW = ["next", "r[-1]", "r[::-1]", "second next", "rest", "seek 0", "r[n]", "format"]


def histories(ops, depth, opts):
    def gen(c):
        o = c.pick("environment", opts)
        return o, [c.pick("op", ops) for _ in range(c.pick("length", range(1, depth + 1)))]
    return gen


def open_stream(kind, data):
    if kind == "memory":
        return io.BytesIO(data)
    if kind == "minimal":
        return Minimal(data)
    f = tempfile.TemporaryFile(buffering=0 if kind == "raw file" else -1)
    f.write(data)
    f.flush()
    f.seek(0)
    return f


def expect(got, want, what):
    if got[0] != "ok":
        return "%s raised %s" % (what, why(got))
    try:
        keys = [sk(e) for e in got[1]] if isinstance(want, list) else sk(got[1])
    except Exception as e:
        return "%s gave %s (%s)" % (what, short(got[1]), e)
    if isinstance(want, list):
        if not isinstance(got[1], list):
            return "%s gave a %s" % (what, type(got[1]).__name__)
        if len(keys) != len(want):
            return "%s gave %d events instead of %d" % (what, len(keys), len(want))
        pairs = zip(want, keys)
    else:
        pairs = [(want, keys)]
    for a, b in pairs:
        d = diff_key(a, b)
        if d:
            return "%s: %s" % (what, d)
    return None


def expect_exc(got, types, what):
    if got[0] == "ok":
        return "%s gave %s instead of raising" % (what, short(got[1]))
    if not isinstance(got[1], types):
        return "%s raised %s" % (what, why(got))
    return None


def run_history(env, ops, st):
    kind, is64, n = env
    data, evs, procs, sysd = prepared(is64, n)
    f = open_stream(kind, data)
    try:
        r = ProcmonLogsReader(f)
        second, cur, cur2 = None, 0, 0
        for k, op in enumerate(ops):
            st.n["transitions"] += 1
            st.n["comparisons"] += 1
            m = None
            if op == "next":
                g = call(next, r)
                if cur < n:
                    m = expect(g, evs[cur], "next")
                    cur += 1
                else:
                    m = expect_exc(g, StopIteration, "next at the end")
            elif op in ("r[0]", "r[-1]"):
                i = 0 if op == "r[0]" else -1
                g = call(lambda: r[i])
                m = expect(g, evs[i], op) if n else expect_exc(g, IndexError, op)
            elif op in ("r[n]", "r[-n-1]"):
                m = expect_exc(call(lambda: r[n if op == "r[n]" else -n - 1]), IndexError, op)
            elif op in ("r['x']", "r[1.0]"):
                m = expect_exc(call(lambda: r["x" if op == "r['x']" else 1.0]), TypeError, op)
            elif op in ("r[:]", "r[::-1]", "r[1:3]"):
                s = {"r[:]": slice(None), "r[::-1]": slice(None, None, -1), "r[1:3]": slice(1, 3)}[op]
                m = expect(call(lambda: r[s]), evs[s], op)
            elif op == "len":
                m = None if len(r) == n else "len is %r" % len(r)
            elif op == "iter":
                i = iter(r)
                g = call(next, i)
                if cur < n:
                    m = expect(g, evs[cur], "next(iter)")
                    cur += 1
                else:
                    m = expect_exc(g, StopIteration, "next(iter) at the end")
            elif op == "rest":
                m = expect(call(list, r), evs[cur:], "list of the rest")
                cur = n
            elif op == "take 2":
                m = expect(call(lambda: list(itertools.islice(r, 2))), evs[cur:cur + 2], "take 2")
                cur = min(n, cur + 2)
            elif op == "in order":
                m = expect(call(lambda: [r[i] for i in range(len(r))]), evs, "by index")
            elif op == "processes":
                g = call(lambda: [proc_key(p) for p in r.processes()])
                m = None if g == ("ok", procs) else "processes differ: %s" % short(g)
            elif op == "system":
                g = call(r.system_details)
                m = None if g == ("ok", sysd) else "system details differ: %s" % short(g)
            elif op == "seek 0":
                f.seek(0)
            elif op == "seek end":
                f.seek(0, 2)
            elif op == "read 5":
                f.read(5)
            elif op in ("second next", "second all"):
                if second is None:
                    f.seek(0)
                    second = ProcmonLogsReader(f)
                if op == "second all":
                    m = expect(call(lambda: second[:]), evs, "second reader[:]")
                else:
                    g = call(next, second)
                    if cur2 < n:
                        m = expect(g, evs[cur2], "next of the second reader")
                        cur2 += 1
                    else:
                        m = expect_exc(g, StopIteration, "next of the second reader at the end")
            elif op == "format" and n:
                e = r[n // 2]
                str(e), repr(e), hash(e), e.get_compatible_csv_info(P.D0)
                m = None if sk(e) == evs[n // 2] else "formatting changed the event"
            if m:
                return "step %d %s: %s" % (k + 1, op, m)
        if getattr(f, "closed", False):
            return "the caller's file was closed"
    finally:
        if not isinstance(f, Minimal):
            f.close()
    return None


def chk_histories(batch, st):
    for i, (ch, (env, ops)) in enumerate(batch):
        st.seen_input((env, ops))
        r = call(run_history, env, ops, st)
        m = r[1] if r[0] == "ok" else "raised " + why(r)
        st.outcome((env, ops[-1], ops.count("next")))
        if m:
            yield i, "%r: %s" % (ops, m)


def slices(c):
    n = c.pick("events", [0, 1, 2, 3, 4])
    v = [None] + list(range(-6, 7))
    return n, c.pick("start", v), c.pick("stop", v), c.pick("step", [None, 1, 2, 3, -1, -2, -5, 7])


def chk_slices(batch, st):
    rds = {}
    for i, (ch, (n, a, b, s)) in enumerate(batch):
        data, evs, _, _ = prepared(1, n)
        if n not in rds:
            rds[n] = ProcmonLogsReader(io.BytesIO(data))
        st.seen_input((n, a, b, s))
        st.n["comparisons"] += 1
        want = evs[a:b:s]
        st.outcome((n, [w[1] for w in want]))
        m = expect(call(lambda: rds[n][a:b:s]), want, "r[%s:%s:%s]" % (a, b, s))
        if m:
            yield i, m
        if a is not None and s is None and b is None:
            g = call(lambda: rds[n][a])
            m = expect(g, evs[a], "r[%d]" % a) if -n <= a < n else expect_exc(g, IndexError, "r[%d]" % a)
            if m:
                yield i, m


def whole(c):
    return dict(n=c.pick("events", [0, 1, 2, 3, 5, 9]), is64=c.pick("is64", [1, 0]),
                src=c.pick("source", ["str", "path", "memory", "file", "raw file", "minimal", "bytes path"]))


def chk_whole(batch, st):
    for i, (ch, w) in enumerate(batch):
        data, evs, _, _ = prepared(w["is64"], w["n"])
        st.seen_input(sorted(w.items()))
        st.n["comparisons"] += 1
        m = None
        if w["src"] in ("str", "path", "bytes path"):
            fd, name = tempfile.mkstemp(prefix="mc_pml_")
            try:
                os.write(fd, data)
                os.close(fd)
                before = sorted(os.listdir("/proc/self/fd"))
                arg = {"str": name, "path": pathlib.Path(name), "bytes path": os.fsencode(name)}[w["src"]]
                m = expect(call(read_all_events_from_pml, arg), evs, "read_all_events_from_pml")
                if sorted(os.listdir("/proc/self/fd")) != before:
                    m = m or "a file was left open"
            finally:
                os.unlink(name)
        else:
            f = open_stream(w["src"], data)
            m = expect(call(read_all_events_from_pml, f), evs, "read_all_events_from_pml")
            if getattr(f, "closed", False):
                m = m or "the caller's file was closed"
            elif call(f.seek, 0)[0] != "ok" or f.read(4) != b"PML_":
                m = m or "the caller's file is unusable"
            if hasattr(f, "close"):
                f.close()
        st.outcome((w["n"], m))
        if m:
            yield i, m


HUGE = [2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64, 2 ** 70]


def huge(c):
    n = c.pick("events", [0, 1, 4])
    if c.pick("index or slice", [0, 1]) == 0:
        return n, c.pick("index", HUGE + [-v for v in HUGE] + [-v - 1 for v in HUGE])
    v = [None, 0, 2, -1] + HUGE + [-v for v in HUGE]
    return n, slice(c.pick("start", v), c.pick("stop", v), c.pick("step", [None, 1, -1, 2 ** 31, -2 ** 63, 2 ** 64]))


def chk_huge(batch, st):
    for i, (ch, (n, x)) in enumerate(batch):
        data, evs, _, _ = prepared(1, n)
        rd = ProcmonLogsReader(io.BytesIO(data))
        st.seen_input((n, repr(x)))
        st.n["comparisons"] += 1
        g = call(lambda: rd[x])
        m = expect(g, evs[x], "r[%r]" % x) if isinstance(x, slice) else expect_exc(g, IndexError, "r[%d]" % x)
        st.outcome(m)
        if m:
            yield i, m


BAD_INDEXES = ["", "0", "x", b"0", 0.0, 1.5, None, (), (0,), (0, 1), [], [0], {}, 1j, object(), Ellipsis, range(2)]


def bad_index(c):
    return c.pick("events", [0, 1, 4]), c.pick("index", range(len(BAD_INDEXES))), c.pick("after", ["", "next", "bad next"])


def chk_bad_index(batch, st):
    for i, (ch, (n, k, how)) in enumerate(batch):
        data, evs, _, _ = prepared(1, n)
        rd = ProcmonLogsReader(io.BytesIO(data))
        st.seen_input((n, k, how))
        st.n["comparisons"] += 2
        cur = 0
        if how and n:
            next(rd)
            cur = 1
        m = expect_exc(call(lambda: rd[BAD_INDEXES[k]]), TypeError, "r[%r]" % (BAD_INDEXES[k],))
        m = m or expect(call(list, rd), evs[cur:], "the rest after it")
        st.outcome(m)
        if m:
            yield i, m


LONG = {}
ORDERS = ["forward", "backward", "by 7", "twice each", "halves", "next and index", "slices of 10", "slices of 256", "one slice",
          "reversed slice", "list()", "for with break", "last first"]


def long_log(n, is64):
    if (n, is64) not in LONG:
        evs = []
        for k in range(n):
            cls, op = ((1, 3), (2, 0), (3, 20), (5, 3), (4, 0))[k % 5]
            d, x = sane_event(cls, op, is64, 0, astr("C:\\path\\%d" % k))
            evs.append(P.Ev(cls, op, d, u32(k % 3) if cls == 3 else x, proc=(7, 1)[k % 2], tid=k, date=P.D0 + k, dur=k * 3,
                            stack=stack(is64, k % 3, k)))
        data = P.Pml(is64=is64, events=evs, procs=RICHPROCS[is64], strings=STRS, hosts=D.HOSTS, ports=D.PORTS).build()
        log = P.RefLog(data)
        LONG[n, is64] = data, [ref_key(log, log.event(i), False) for i in range(n)]
    return LONG[n, is64]


def long_gen(sizes):
    return lambda c: (c.pick("events", sizes), c.pick("is64", [1, 0]), c.pick("order", ORDERS))


def positions(how, n, rd):
    """(position, event) pairs in the order in which `how` reads them."""
    if how in ("forward", "backward", "by 7", "twice each", "halves", "last first"):
        idx = {"forward": list(range(n)), "backward": list(range(n))[::-1], "by 7": [k * 7 % n for k in range(n)],
               "twice each": [k // 2 for k in range(2 * n)], "last first": [-1 - k for k in range(n)],
               "halves": [k // 2 if k % 2 else n // 2 + k // 2 for k in range(n - 1)]}[how]
        return [(k % n, rd[k]) for k in idx]
    if how == "next and index":
        out = []
        for k in range(n):
            out += [(k, next(rd)), (n - 1 - k, rd[n - 1 - k])]
        return out
    if how.startswith("slices"):
        w = 10 if "10" in how else 256
        return [(k + j, e) for k in range(0, n, w) for j, e in enumerate(rd[k:k + w])]
    if how == "one slice":
        return list(enumerate(rd[:]))
    if how == "reversed slice":
        return [(n - 1 - k, e) for k, e in enumerate(rd[::-1])]
    if how == "list()":
        return list(enumerate(list(rd)))
    out = []
    while len(out) < n:
        for e in rd:
            out.append((len(out), e))
            if len(out) % 3 == 0:
                break
    return out


def chk_long(batch, st):
    for i, (ch, (n, is64, how)) in enumerate(batch):
        data, want = long_log(n, is64)
        st.seen_input((n, is64, how))
        r = call(lambda: positions(how, n, ProcmonLogsReader(io.BytesIO(data))))
        if r[0] != "ok":
            yield i, "%s raised %s" % (how, why(r))
            continue
        st.n["comparisons"] += len(r[1])
        st.outcome((n, len(r[1])))
        exp = n - 1 if how == "halves" else 2 * n if how in ("twice each", "next and index") else n
        if len(r[1]) != exp:
            yield i, "%s of %d events gave %d" % (how, n, len(r[1]))
            continue
        for k, e in r[1]:
            m = diff_key(want[k], event_key(e, False))
            if m:
                yield i, "%s: event %d of %d: %s" % (how, k, n, m)
                break


@prop("L03")
def l03(tier):
    d = deep(tier)
    env = [("memory", 1, 3)]
    envs = [(k, w, n) for k in ("file", "raw file", "minimal", "memory") for w in (1, 0) for n in (0, 1, 2, 4)]
    return [Scenario("histories", histories(OPS_FULL, 4 if d else 3, env), chk_histories),
            Scenario("deep histories", histories(OPS_FEW, 6 if d else 5, [("memory", 1, 4)]), chk_histories),
            Scenario("environments", histories(OPS_FULL, 2, envs), chk_histories),
            Scenario("huge indexes", huge, chk_huge), Scenario("wrong indexes", bad_index, chk_bad_index),
            Scenario("long logs", long_gen([64, 255, 256, 257, 1000] + ([5000, 66000] if d else [2100])), chk_long, batch=2,
                     horizon=240),
            Scenario("slices", slices, chk_slices), Scenario("read everything", whole, chk_whole, batch=8)], \
        ["one thread; the stream's content does not change"], \
        "all histories of 3 (quick) / 4 (thorough) of 23 operations, of 5 / 6 of 8 operations, of 2 of 23 in 32 " \
        "environments (4 stream types x bitness x 0-4 events); all slices with bounds -6..6 and 8 steps on 0-4 events; " \
        "indexes and slices beyond 2^31, 2^32, 2^63 and 2^64; 13 orders of reading logs of 64-2100 (quick) / 66000 (thorough) events"


# ------------------------------------------------------------------------------------------------ L04 tables
TXT = ["", "a", "Medium", "Ā", "aĀ", "\U0001d11e", "\ufeffx", "x" * 255, "x" * 256, "é" * 3000, "a\r\nb", "{}%s", "\\",
       "a\ud800", "\uffff", "\u0100\u0001", " lead", "trail "]


def proc_fields(c, rich):
    is64 = c.pick("is64", [1, 0])
    n = c.pick("modules", [0, 1, 2, 3])
    a = dict(index=c.dev("index", [1, 0, 5, 0x100, 0xffffffff, 0x80000000]), pid=field(c, "pid", 32, 4, rich),
             ppid=field(c, "ppid", 32, 0, rich), auth=field(c, "authentication id", 64, 0x3e7, rich),
             session=field(c, "session", 32, 0, rich), start=field(c, "start", 64, P.D0, rich),
             end=field(c, "end", 64, 0, rich), virt=field(c, "virtualized", 32, 0, rich),
             is64=c.dev("process bitness", [1, 0, 2, 0x100, 0xffffffff]),
             strs=tuple(c.dev("string %d" % k, [k + 1, 0, 8, 1, 9]) for k in range(8)),
             icons=(c.dev("icon", [0, 0xffffffff]), 7), parent_index=c.dev("parent", [0, 3, 0xffffffff]))
    mods = []
    for k in range(n):
        mods.append((field(c, "base", 64 if is64 else 32, 0x400000 + k, rich), field(c, "size", 32, 0x1000 + k, rich)) +
                    tuple(c.dev("module string %d" % j, [(k + j) % 10, 0, 9]) for j in range(4)) +
                    (field(c, "timestamp", 32, 99 + k, rich),))
    strings = ["zero", "one", "two", "three", "four", "five", "six", "seven", "eight", "nine"]
    return dict(is64=is64, procs=[P.Proc(modules=mods, **a)], strings=strings)


def proc_lists(c):
    """Process tables: how many processes, with how many modules each, in which order of indexes."""
    is64 = c.pick("is64", [1, 0])
    n = c.pick("processes", [0, 1, 2, 3, 5])
    counts = [c.pick("modules", [0, 1, 3]) for _ in range(min(n, 3))] + [2, 1]
    idx = c.pick("indexes", [(1, 2, 3, 4, 5), (5, 4, 3, 2, 1), (0, 7, 0xffffffff, 3, 0x100)])
    return dict(is64=is64, strings=STRS, junk=c.pick("unused", [0xA5, 0]),
                procs=[P.Proc(index=idx[k], pid=10 + k, is64=k % 2, strs=tuple((k + j) % 9 for j in range(8)),
                              modules=[(0x1000 * (k + 1) + m, 5 + m, (m + k) % 9, m % 9, 3, 4, m) for m in range(counts[k])])
                       for k in range(n)],
                proc_order=c.pick("order", [None, "reversed"]) and list(range(n))[::-1])


def many_modules(c):
    is64 = c.pick("is64", [1, 0])
    n = c.pick("modules", [4, 10, 100, 255, 256, 257, 1000, 65537])
    return dict(is64=is64, strings=STRS, procs=[P.Proc(index=1, modules=[(m, m + 1, m % 9, (m + 1) % 9, (m + 2) % 9,
                                                                         (m + 3) % 9, m) for m in range(n)]),
                                                P.Proc(index=2, pid=5, strs=(1,) * 8)])


def many_processes(c):
    is64 = c.pick("is64", [1, 0])
    n = c.pick("processes", [6, 10, 64, 127, 128, 255, 256, 257, 1000, 4097])
    step = c.pick("index step", [1, 3, 0x10001])
    return dict(is64=is64, strings=["s%d" % k for k in range(300)],
                procs=[P.Proc(index=(k * step + 5) & 0xffffffff, pid=k ^ 0x55, ppid=k // 2, is64=k % 2,
                              strs=tuple((k * 3 + j) % 300 for j in range(8)),
                              modules=[(k, 1, k % 300, 1, 2, 3, k)] if k % 3 == 0 else []) for k in range(n)])


def chk_many(batch, st):
    for i, (ch, kw) in enumerate(batch):
        procs = kw["procs"]
        evs = [P.Ev(1, 3, u32(1), proc=p.index, tid=k) for k, p in enumerate(procs[::97])]
        data = P.Pml(events=evs, **kw).build()
        st.seen_input(data)
        log = P.RefLog(data)
        st.n["comparisons"] += len(procs)
        st.outcome(len(procs))
        r = call(ProcmonLogsReader, io.BytesIO(data))
        m = "opening raised " + why(r) if r[0] != "ok" else logs_equal(data, r[1], log=log)
        if m:
            yield i, m


def texts(c):
    """String tables: contents, terminators, sizes, sharing."""
    n = c.pick("strings", [1, 2, 3])
    ss = tuple(c.pick("text", TXT if n == 1 else TXT[:7] if n == 2 else TXT[:4]) for _ in range(n))
    form = c.pick("form", ["nul", "no nul", "after nul", "two nuls"])
    raw = [x if form == "nul" else P.w(x) + {"no nul": b"", "after nul": b"\0\0Z\0Z\0", "two nuls": b"\0\0\0\0"}[form]
           for x in ss]
    k = c.pick("used", range(n))
    return dict(is64=c.pick("is64", [1, 0]), strings=raw, procs=[P.Proc(strs=(k,) * 8,
                                                                       modules=[(1, 2, k, n - 1, 0, k, 3)])],
                share_strings=c.pick("shared", [False, True]))


def string_lengths(limit):
    def gen(c):
        s = c.pick("wide", ["a", "Ā"]) * c.pick("length", list(range(limit)) + [4095, 4096, 32767, 32768, 65535, 65536])
        return dict(strings=["before", s, "after"], procs=[P.Proc(strs=(1, 0, 2, 1, 1, 2, 0, 1))])
    return gen


def string_counts(c):
    n = c.pick("strings", list(range(1, 40)) + [255, 256, 257, 1000, 5000, 65537])
    k = c.pick("index", [0, n // 2, n - 1])
    return dict(strings=["s%d" % i for i in range(n)], procs=[P.Proc(strs=(k, 0, n - 1, k, k, k, k, k))])


def chk_tables(batch, st):
    for i, (ch, kw) in enumerate(batch):
        procs = kw["procs"]
        evs = [P.Ev(1, 3, u32(1), proc=p.index, tid=k) for k, p in enumerate(procs)]
        data = P.Pml(events=evs, **kw).build()
        st.seen_input(data)
        log = P.RefLog(data)
        st.n["comparisons"] += 1
        st.outcome([ref_proc_key(log.procs[k]) for k in log.proc_list])
        r = call(ProcmonLogsReader, io.BytesIO(data))
        m = "opening raised " + why(r) if r[0] != "ok" else logs_equal(data, r[1], log=log)
        if not m:
            r = call(lambda: [type(p).__name__ + "".join(type(x).__name__ for x in p.modules) for p in r[1].processes()])
            want = ["Process" + "Module" * len(p.modules) for p in procs]
            m = None if r == ("ok", want) else "types %r" % (r,)
        if m:
            yield i, m


@prop("L04")
def l04(tier):
    d = deep(tier)
    return [Scenario("fields", lambda c: proc_fields(c, True), chk_tables, bound=2 if d else 1),
            Scenario("combinations", lambda c: proc_fields(c, False), chk_tables, bound=2),
            Scenario("process lists", proc_lists, chk_tables), Scenario("many modules", many_modules, chk_tables, batch=1, horizon=240),
            Scenario("many processes", many_processes, chk_many, batch=1, horizon=240),
            Scenario("texts", texts, chk_tables), Scenario("string lengths", string_lengths(1100 if d else 300), chk_tables,
                                                           batch=16),
            Scenario("string counts", string_counts, chk_tables, batch=1, horizon=240), fixture_header()], \
        ["process indexes are unique; a stored string ends at its first NUL character or at its stored size"], \
        "every process and module field at full width x bitness x 0-3 modules (1 rich / 2 short deviations quick, 2 rich " \
        "thorough); all tables of 0-5 processes with 0-3 modules; all string tables of 3 entries over 4-18 texts x 4 " \
        "terminations; string lengths to 300 / 1100 and extremes up to 65536; " \
        "tables of up to 65537 strings, 65537 modules and 4097 processes"


# ------------------------------------------------------------------------------------------------ L05 options
COMBOS = [(True, True), (False, True), (True, False), (False, False)]


def check_options(batch, st):
    groups = {}
    for pos, (ch, c) in enumerate(batch):
        groups.setdefault((c["is64"], repr(sorted(c["kw"].items()))), []).append(pos)
    for (is64, _), poss in groups.items():
        data = build_events([batch[p][1]["ev"] for p in poss], is64, batch[poss[0]][1]["kw"])
        log = P.RefLog(data)
        rds = [call(ProcmonLogsReader, io.BytesIO(data), *o) for o in COMBOS]
        for k, p in enumerate(poss):
            ev = batch[p][1]["ev"]
            st.seen_input((is64, ev.cls, ev.op, ev.detail, ev.extra, ev.stack))
            want = ref_key(log, log.event(k), False)
            for o, r in zip(COMBOS, rds):
                m = "opening raised " + why(r) if r[0] != "ok" else option_diff(want, r[1], k, o)
                st.n["comparisons"] += 1
                if m:
                    yield p, "options stack=%s details=%s: %s: %s" % (o + (log.event(k).operation, m))
                    break
            st.outcome(want[2:5])


def option_diff(want, rd, k, o):
    got = call(lambda: event_key(rd[k], False))
    if got[0] != "ok":
        return "raised " + why(got)
    got = list(got[1])
    want = list(want)
    if not o[0]:
        want[7] = []
    if not o[1]:
        if got[8] not in ("", want[8]):
            return "category %r instead of %r or none" % (got[8], want[8])
        full = dict(want[10])
        if any(q not in full or full[q] != v for q, v in got[10]):
            return "details %s are not part of %s" % (short(got[10]), short(want[10]))
        if got[2] in (2, 3) and (got[8] or got[10]):
            return "details %s, category %r although they are switched off" % (short(got[10]), got[8])
        got[8], got[10] = want[8], want[10]
    return diff_key(tuple(want), tuple(got))


def opt_scenario(name, gen, bound, note=""):
    return Scenario(name, gen, check_options, bound=bound, batch=200, describe=describe, note=note)


class Truth(object):
    def __init__(self, v):
        self.v = v

    def __bool__(self):
        return self.v

    def __repr__(self):
        return "Truth(%r)" % self.v


TRUTH = [True, 1, 2, -1, 0.5, "no", "0", b"\0", (0,), [None], {0}, object(), Truth(True),
         False, 0, 0.0, None, "", b"", (), [], frozenset(), {}, Truth(False)]


def opt_keywords(c):
    how = c.pick("how", ["positional", "keywords", "mixed", "no details", "no stacks", "defaults", "first only"])
    both = how in ("positional", "keywords", "mixed")
    o = (c.pick("stacks", list(range(len(TRUTH)))) if both or how in ("no details", "first only") else 0,
         c.pick("details", list(range(len(TRUTH)))) if both or how == "no stacks" else 0)
    return o, how, c.pick("is64", [1, 0])


def chk_keywords(batch, st):
    for i, (ch, (o, how, is64)) in enumerate(batch):
        data, evs, procs, sysd = prepared(is64, 9)
        f = io.BytesIO(data)
        st.seen_input((o, how, is64))
        cls = ProcmonLogsReader
        s, d = TRUTH[o[0]], TRUTH[o[1]]
        r = call(lambda: {"positional": lambda: cls(f, s, d),
                          "keywords": lambda: cls(should_get_details=d, f=f, should_get_stacktrace=s),
                          "mixed": lambda: cls(f, s, should_get_details=d),
                          "first only": lambda: cls(f, s),
                          "no details": lambda: cls(f, should_get_stacktrace=s),
                          "no stacks": lambda: cls(f, should_get_details=d),
                          "defaults": lambda: cls(f)}[how]())
        if r[0] != "ok":
            yield i, "stacks %r, details %r (%s): opening raised %s" % (s, d, how, why(r))
            continue
        r, o = r[1], (bool(s), bool(d))
        if [proc_key(p) for p in r.processes()] != procs or r.system_details() != sysd or len(r) != 9:
            yield i, "processes or system details depend on the options"
        shallow = [(e[0][0],) + tuple(e[1:]) for e in evs]
        for k in range(9):
            m = option_diff(shallow[k], r, k, o)
            st.n["comparisons"] += 1
            if not m and any(bool(e.stacktrace) != bool(o[0] and x[7]) for e, x in zip(r[k:k + 1], evs[k:])):
                m = "stack %s asked for" % ("not read though" if o[0] else "read though not")
            if m:
                yield i, "stacks %r, details %r (%s): event %d: %s" % (s, d, how, k, m)
                break
        if o[1] and any(e.details != dict(x[10]) for e, x in zip(r, evs)):
            yield i, "details differ while iterating"


def opt_fixture(stride):
    base = fixture_scenario(None, None, stride)

    def check(batch, st):
        for i, (ch, (n, lo)) in enumerate(batch):
            raw, log, rd, cls = fixture(n)
            rds = [ProcmonLogsReader(io.BytesIO(raw), *o) for o in COMBOS[1:]]
            for k in range(lo, min(lo + CHUNK, log.count), stride):
                try:
                    want = ref_key(log, log.event(k), False)
                except P.Undecodable:
                    continue
                st.n["fixture_traces"] += 1
                bad = None
                for o, r in zip(COMBOS[1:], rds):
                    st.n["comparisons"] += 1
                    bad = bad or option_diff(want, r, k, o)
                if bad:
                    yield i, "%s event %d: %s" % (n, k, bad)
                    break
    return Scenario("recorded logs", base.gen, check, batch=1, horizon=300, note=base.note)


@prop("L05")
def l05(tier):
    d = 1 if deep(tier) else 0
    return [opt_scenario("operation codes", D.op_names, None), opt_scenario("sub operation codes", D.sub_names, None),
            opt_scenario("common fields", lambda c: common(c, False), 1 + d),
            opt_scenario("network", lambda c: D.net(c, False), d), opt_scenario("process", lambda c: D.proc_ev(c, False), 1 + d),
            opt_scenario("keys", lambda c: D.reg_key(c, False), d), opt_scenario("open key", lambda c: D.reg_open(c, False), d),
            opt_scenario("other keys", lambda c: D.reg_rest(c, False), 1),
            opt_scenario("values", lambda c: D.reg_value(c, False), d), opt_scenario("set", lambda c: D.reg_set(c, False), 1),
            opt_scenario("create", lambda c: D.create(c, False), 1), opt_scenario("read", lambda c: D.rw(c, False), 1),
            opt_scenario("directory", D.dir_class, None), opt_scenario("listing", lambda c: D.listing(c, False), 1),
            opt_scenario("filters", D.dir_strings, 1 + d), opt_scenario("control", lambda c: D.ioctl(c, False), d),
            opt_scenario("strings", D.str_pairs, None),
            Scenario("passing the options", opt_keywords, chk_keywords), opt_fixture(1 if d else 4)], \
        ["with details off, the details and category of process and network events may be there or not"], \
        "4 option combinations x all operations, sub operations, information classes, encodings of two strings; every " \
        "event kind with 0-1 (quick) / 1-2 (thorough) deviations; every 4th (quick) / every (thorough) recorded event; 24 values of each option x 7 ways of passing it"


# ------------------------------------------------------------------------------------------------ L06 layout
SECTIONS = [s for s in itertools.permutations(P.DEFAULT_SECTIONS)
            if s.index("offsets") < s.index("processes")]


def layout_events(is64):
    e = kinds_events(is64)
    q, k = e[8], e[6]
    mid = D.J2 + u32(16, 3)
    k = P.Ev(2, P.REGOP["RegQueryKey"], D.reg_detail(astr("HKLM\\K"), mid), u32(6) + P.w("Nam"), proc=1, tid=9,
             stack=stack(is64, 3, 5))
    return [q, e[2], k, e[3]]


def layout(c):
    is64 = c.pick("is64", [1, 0])
    sec = c.pick("section order", SECTIONS)
    return dict(is64=is64, sections=sec,
                event_order=c.dev("event order", [list(o) for o in itertools.permutations(range(4))]),
                extra_place=c.dev("extra data", ["after", "gap", "end", "end_reversed"]),
                gap=c.dev("gap", [0, 1, 7, 64]), junk=c.dev("unused bytes", [0xA5, 0, 0xff]),
                string_order=c.dev("string order", [None, list(range(9))[::-1], [4, 0, 8, 2, 6, 1, 5, 3, 7]]),
                proc_order=c.dev("process order", [None, [4, 3, 2, 1, 0], [2, 0, 4, 1, 3]]),
                share_strings=c.dev("shared strings", [False, True]))


def layout_combos(c):
    return dict(is64=c.pick("is64", [1, 0]),
                sections=c.pick("section order", [P.DEFAULT_SECTIONS, ("hosts", "offsets", "strings", "processes", "icons",
                                                                      "events")]),
                event_order=c.pick("event order", [list(o) for o in itertools.permutations(range(4))]),
                extra_place=c.pick("extra data", ["after", "gap", "end", "end_reversed"]),
                gap=c.pick("gap", [0, 3]), junk=c.pick("unused bytes", [0xA5, 0]),
                string_order=c.pick("string order", [None, [4, 0, 8, 2, 6, 1, 5, 3, 7]]),
                proc_order=c.pick("process order", [None, [2, 0, 4, 1, 3]]),
                share_strings=c.pick("shared strings", [False, True]))


_lay = {}


def chk_layout(batch, st):
    for i, (ch, kw) in enumerate(batch):
        is64 = kw["is64"]
        args = dict(events=layout_events(is64), procs=RICHPROCS[is64], strings=STRS + ("", "Medium"), hosts=D.HOSTS[:2],
                    ports=D.PORTS[:2])
        if is64 not in _lay:
            base = P.Pml(is64=is64, **args).build()
            log = P.RefLog(base)
            _lay[is64] = ([ref_key(log, log.event(k)) for k in range(log.count)],
                          [ref_proc_key(log.procs[k]) for k in log.proc_list], log.system_details())
        if kw["string_order"]:
            kw = dict(kw, string_order=kw["string_order"] + [10, 9])
        data = P.Pml(**dict(args, **kw)).build()
        st.seen_input(data)
        st.n["comparisons"] += 1
        evs, procs, sysd = _lay[is64]
        r = call(ProcmonLogsReader, io.BytesIO(data))
        if r[0] != "ok":
            yield i, "opening raised " + why(r)
            continue
        m = expect(call(lambda: r[1][:]), evs, "events")
        g = call(lambda: [proc_key(p) for p in r[1].processes()])
        if g != ("ok", procs):
            m = m or "processes differ: %s" % short(g, 300)
        if call(r[1].system_details) != ("ok", sysd):
            m = m or "system details differ"
        st.outcome(m)
        if m:
            yield i, m


class Sparse(object):
    """A huge stream made of a few pieces; everything else is filler."""

    def __init__(self, pieces):
        self.p = sorted((o, bytes(b)) for o, b in pieces)
        self.end = max(o + len(b) for o, b in self.p)
        self.pos = 0

    def tell(self):
        return self.pos

    def seek(self, off, whence=0):
        self.pos = off + (0, self.pos, self.end)[whence]
        return self.pos

    def read(self, n=-1):
        n = max(0, self.end - self.pos) if n is None or n < 0 else max(0, min(n, self.end - self.pos))
        if n > 1 << 24:
            raise MemoryError("read of %d bytes at %#x" % (n, self.pos))
        out = bytearray(b"\xA5" * n)
        for o, b in self.p:
            lo, hi = max(o, self.pos), min(o + len(b), self.pos + n)
            if lo < hi:
                out[lo - self.pos:hi - self.pos] = b[lo - o:hi - o]
        self.pos += n
        return bytes(out)


FAR = [0x7ffff000, 0x80000000, 0x80000001, 0xfffe0000]
FAR64 = [0x7fffffff, 0x80000000, 0xfffffff0, 0x100000000, 0x123456789a, 1 << 40, (1 << 62) + 1]


def sparse(c):
    return dict(is64=c.pick("is64", [1, 0]), events=c.dev("events", [0x3a8] + FAR), spread=c.dev("spread", [0, 1]),
                offsets=c.dev("offsets and processes", [0x100000] + FAR64), strings=c.dev("strings", [0x200000] + FAR64),
                far_string=c.dev("far string", [0, 0x7fffffff, 0x80000000, 0xffffff00]),
                far_proc=c.dev("far process", [0, 0x7fffffff, 0x80000000, 0xffffff00]),
                far_extra=c.dev("far extra data", [0, 0x7fffff00, 0x80000000, 0xfffff000]),
                icons=c.dev("icons", [0x300000] + FAR64[3:]))


def sparse_pieces(kw):
    is64 = kw["is64"]
    p = P.Pml(is64=is64, events=layout_events(is64), procs=RICHPROCS[is64], strings=STRS, hosts=D.HOSTS[:2], ports=D.PORTS[:2])
    base = bytearray(p.build())
    pieces, offs, at = [], [], kw["events"]
    extras = []
    for k, e in enumerate(p.events):
        one = P.Pml(is64=is64, events=[e])
        blob, _ = one._events(0)
        blob = bytearray(blob)
        x = struct.unpack_from("<I", blob, 0x30)[0]
        if x and kw["far_extra"] and not extras:
            extras.append((at + kw["far_extra"], bytes(blob[x:])))
            blob = blob[:x]
            struct.pack_into("<I", blob, 0x30, kw["far_extra"])
        pieces.append((at, blob))
        offs.append(at)
        at += len(blob) + (0x1234 if kw["spread"] else 0)
    procs, strs = bytearray(p._processes()), bytearray(p._strings())
    arr = b"".join(struct.pack("<IB", o, 0xA5) for o in offs)
    a, s = kw["offsets"], kw["strings"]
    if s == a:
        s += 0x10000
    n = len(p.procs)
    if kw["far_proc"]:  # the last process record goes far away
        o = struct.unpack_from("<I", procs, 4 + 4 * n + 4 * (n - 1))[0]
        extras.append((a + len(arr) + kw["far_proc"], bytes(procs[o:])))
        struct.pack_into("<I", procs, 4 + 4 * n + 4 * (n - 1), kw["far_proc"])
        del procs[o:]
    if kw["far_string"]:
        n = len(p.strings)
        o = struct.unpack_from("<I", strs, 4 + 4 * (n - 1))[0]
        extras.append((s + kw["far_string"], bytes(strs[o:])))
        struct.pack_into("<I", strs, 4 + 4 * (n - 1), kw["far_string"])
        del strs[o:]
    pieces += [(a, arr), (a + len(arr), procs), (s, strs), (kw["icons"], struct.pack("<I", 0))] + extras
    h = max(o + len(b) for o, b in pieces) + 0x1000
    pieces.append((h, p._hosts()))
    struct.pack_into("<QQQQQ", base, 0x240, kw["events"], a, a + len(arr), s, kw["icons"])
    struct.pack_into("<Q", base, 0x3a0, h)
    pieces.append((0, bytes(base[:0x3a8])))
    spans = sorted((o, o + len(b)) for o, b in pieces)
    if any(x[1] > y[0] for x, y in zip(spans, spans[1:])):
        raise Skip()
    return pieces


def gen_sparse(c):
    kw = sparse(c)
    sparse_pieces(kw)
    return kw


def chk_sparse(batch, st):
    for i, (ch, kw) in enumerate(batch):
        is64 = kw["is64"]
        if ("sparse", is64) not in _lay:
            log = P.RefLog(P.Pml(is64=is64, events=layout_events(is64), procs=RICHPROCS[is64], strings=STRS, hosts=D.HOSTS[:2],
                                 ports=D.PORTS[:2]).build())
            _lay["sparse", is64] = ([ref_key(log, log.event(k)) for k in range(log.count)],
                                    [ref_proc_key(log.procs[k]) for k in log.proc_list], log.system_details())
        evs, procs, sysd = _lay["sparse", is64]
        st.seen_input(sorted(kw.items()))
        st.n["comparisons"] += 1
        r = call(ProcmonLogsReader, Sparse(sparse_pieces(kw)))
        if r[0] != "ok":
            yield i, "opening raised " + why(r)
            continue
        m = expect(call(lambda: r[1][:]), evs, "events")
        g = call(lambda: [proc_key(p) for p in r[1].processes()])
        if g != ("ok", procs):
            m = m or "processes differ: %s" % short(g, 300)
        if call(r[1].system_details) != ("ok", sysd):
            m = m or "system details differ"
        st.outcome((kw["events"], m))
        if m:
            yield i, m


@prop("L06")
def l06(tier):
    d = deep(tier)
    return [Scenario("section orders", layout, chk_layout, bound=2 if d else 1),
            Scenario("placement combinations", layout_combos, chk_layout),
            Scenario("far places", gen_sparse, chk_sparse, bound=3 if d else 2)], \
        ["the event offsets array precedes the process table, as Procmon writes it; extra data follow their event"], \
        "all 360 section orders x bitness x 1 (quick) / 2 (thorough) deviations, and all 12288 combinations of event order, " \
        "extra data placement, gaps, unused bytes, string and process order and sharing; " \
        "events, records, strings, extra data and tables on both sides of 2^31, 2^32, 2^40 and 2^62 (2 / 3 deviations)"


# ------------------------------------------------------------------------------------------------ L07 purity
def mutate(e):
    """What a caller may do to an event it was given."""
    for v in e.details.values():
        if isinstance(v, list):
            v.append("changed")
            v.reverse()
    e.details["Changed"] = 1
    for k in list(e.details)[:2]:
        e.details[k] = None
    e.stacktrace.append(1)
    e.stacktrace.reverse()
    e.path = e.path + "x"
    e.category = "changed"
    e.tid = -1


def formats(e):
    str(e), repr(e), hash(e), str(e.process), repr(e.process), hash(e.process), e.date(), e.date(False)
    e.get_compatible_csv_info(), e.get_compatible_csv_info(e.date_filetime - 5)
    return e == e, e != e


def sane_date(e):
    return P.FT_EPOCH <= e.date_filetime < 0x7ffffffff00000000 and e.date_filetime + e.duration < 2500000000000000000


def safe_formats(e):
    """Formatting must not change the event; a time outside the calendar may raise."""
    try:
        formats(e)
    except (ValueError, OverflowError):
        if sane_date(e) and all(not (k == "LastWriteTime" and not P.FT_EPOCH <= v < 2 ** 61) for k, v in e.details.items()):
            raise


def check_purity(batch, st):
    groups = {}
    for pos, (ch, c) in enumerate(batch):
        groups.setdefault((c["is64"], repr(sorted(c["kw"].items()))), []).append(pos)
    for (is64, _), poss in groups.items():
        data = build_events([batch[p][1]["ev"] for p in poss], is64, batch[poss[0]][1]["kw"])
        log = P.RefLog(data)
        rd = ProcmonLogsReader(io.BytesIO(data))
        for k, p in enumerate(poss):
            ev = batch[p][1]["ev"]
            st.seen_input((is64, ev.cls, ev.op, ev.detail, ev.extra, ev.stack))
            want = ref_key(log, log.event(k), False)
            r = call(purity_one, rd, k, want)
            st.n["comparisons"] += 4
            st.outcome(want[2:5])
            m = r[1] if r[0] == "ok" else "raised " + why(r)
            if m:
                yield p, "%s: %s" % (want[3], m)


def purity_one(rd, k, want):
    a = rd[k]
    d = diff_key(want, event_key(a, False))
    if d:
        return d
    safe_formats(a)
    d = diff_key(want, event_key(a, False))
    if d:
        return "formatting changed it: " + d
    b = rd[k]
    if a != b or not (a == b) or hash(a) != hash(b):
        return "two readings of one event are not equal"
    mutate(a)
    d = diff_key(want, event_key(b, False))
    if d:
        return "changing one reading changed the other: " + d
    d = diff_key(want, event_key(rd[k], False))
    if d:
        return "changing a returned event changed the reader: " + d
    return None


TWO_OPS = ["a.next", "b.next", "a.last", "b.last", "a.all", "b.all", "a.procs", "b.procs", "a.sys", "b.sys", "a.spoil", "b.spoil",
           "reopen a", "reopen b"]


def two_readers(depth):
    def gen(c):
        kind = c.pick("logs", ["other bitness", "other content", "same content", "other hosts", "other ports"])
        return kind, [c.pick("op", TWO_OPS) for _ in range(c.pick("length", range(1, depth + 1)))]
    return gen


def net_events():
    """Events that use every host and port of the tables."""
    addr = [ip for ip, _ in D.HOSTS]
    out = []
    for k, ip in enumerate(addr):
        p = D.PORTS[k % len(D.PORTS)]
        four = ip[4:] == bytes(12)
        out.append(P.Ev(5, 3, struct.pack("<HHI", (3 if four else 0) | (4 if p[1] else 0), 0, 1) + ip + addr[0] +
                        struct.pack("<HH", p[0], D.PORTS[-1][0]) + b"\0\0"))
    return out


def two_logs(kind):
    if ("two", kind) not in _memo:
        a = small_log(1, 5)
        if kind == "other bitness":
            b = P.Pml(is64=0, events=kinds_events(0)[:4], procs=RICHPROCS[0], strings=STRS, hosts=D.HOSTS[1:],
                      ports=D.PORTS[1:]).build()
        elif kind == "other content":
            evs = kinds_events(1)[::-1][:6]
            b = P.Pml(is64=1, events=evs, procs=[P.Proc(index=q.index, pid=q.pid + 1, strs=q.strs[::-1]) for q in RICHPROCS[1]],
                      strings=STRS[::-1], hosts=(), ports=((80, 1, "other"), (443, 1, "s")), computer="OTHER", ncpu=9).build()
        elif kind in ("other hosts", "other ports"):
            a = P.Pml(is64=1, events=net_events(), hosts=D.HOSTS, ports=D.PORTS).build()
            hosts = [(ip, "other-" + name if name and k % 2 else "") for k, (ip, name) in enumerate(D.HOSTS)]
            ports = [(p, t, "other-" + name) for p, t, name in D.PORTS][1:]
            b = P.Pml(is64=1, events=net_events(), hosts=hosts if kind == "other hosts" else D.HOSTS,
                      ports=ports if kind == "other ports" else D.PORTS).build()
        else:
            b = a
        out = []
        for d in (a, b):
            log = P.RefLog(d)
            out.append((d, [ref_key(log, log.event(i)) for i in range(log.count)],
                        [ref_proc_key(log.procs[i]) for i in log.proc_list], log.system_details()))
        _memo["two", kind] = out
    return _memo["two", kind]


def run_two(kind, ops, st):
    logs = two_logs(kind)
    rd = [ProcmonLogsReader(io.BytesIO(l[0])) for l in logs]
    cur = [0, 0]
    for k, op in enumerate(ops):
        st.n["transitions"] += 1
        st.n["comparisons"] += 1
        which, what = (op.split(".") + [""])[:2] if "." in op else (op[-1], "reopen")
        i = 0 if which == "a" else 1
        data, evs, procs, sysd = logs[i]
        r, m = rd[i], None
        if what == "next":
            g = call(next, r)
            if cur[i] < len(evs):
                m = expect(g, evs[cur[i]], op)
                cur[i] += 1
            else:
                m = expect_exc(g, StopIteration, op)
        elif what == "last":
            m = expect(call(lambda: r[-1]), evs[-1], op)
        elif what == "all":
            m = expect(call(lambda: r[:]), evs, op)
        elif what == "procs":
            g = call(lambda: [proc_key(p) for p in r.processes()])
            m = None if g == ("ok", procs) else "processes differ: %s" % short(g)
            r.processes().clear()
        elif what == "sys":
            s = r.system_details()
            m = None if s == sysd else "system details differ: %r" % s
            s.clear()
        elif what == "spoil":
            for e in r[:]:
                mutate(e)
        else:
            rd[i], cur[i] = ProcmonLogsReader(io.BytesIO(data)), 0
        if m:
            return "step %d %s: %s" % (k + 1, op, m)
    return None


def chk_two(batch, st):
    for i, (ch, (kind, ops)) in enumerate(batch):
        st.seen_input((kind, ops))
        r = call(run_two, kind, ops, st)
        m = r[1] if r[0] == "ok" else "raised " + why(r)
        st.outcome((kind, ops[-1], m))
        if m:
            yield i, "%r: %s" % (ops, m)


def pure_scenario(name, gen, bound):
    return Scenario(name, gen, check_purity, bound=bound, batch=200, describe=describe)


@prop("L07")
def l07(tier):
    d = 1 if deep(tier) else 0
    return [pure_scenario("operation codes", D.op_names, None), pure_scenario("sub operation codes", D.sub_names, None),
            pure_scenario("network", lambda c: D.net(c, False), d), pure_scenario("process", lambda c: D.proc_ev(c, False), 1),
            pure_scenario("keys", lambda c: D.reg_key(c, False), d), pure_scenario("values", lambda c: D.reg_value(c, False), d),
            pure_scenario("set value", lambda c: D.reg_set(c, False), 1),
            pure_scenario("set info", lambda c: D.reg_setinfo(c, False), 1),
            pure_scenario("create", lambda c: D.create(c, False), d), pure_scenario("listing", lambda c: D.listing(c, False), 0),
            pure_scenario("mapping", lambda c: D.mapping(c, False), 1),
            pure_scenario("common fields", lambda c: common(c, False), d),
            Scenario("two readers", two_readers(5 if d else 4), chk_two)], \
        ["one thread; process objects are shared by the events of one reader, so callers do not modify them"], \
        "read, format, read again, modify, read again for every event kind (0-1 deviations); all histories of 4 (quick) / 5 " \
        "(thorough) of 14 operations on two readers of logs with different bitness, content, or the same content"
