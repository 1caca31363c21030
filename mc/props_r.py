"""Robustness of the log reader: damaged headers, truncation, I/O faults, undecodable events."""
import copy
import io
import itertools
import os
import pathlib
import shutil
import struct
import tempfile
import warnings
import zlib

import pmlref as P
from engine import Scenario, Skip
from impl import ProcmonLogsReader, read_all_events_from_pml, PMLError, call, why, event_key, ref_key, diff_key, proc_key, \
    ref_proc_key, short
from pmlcases import *  # noqa: F401,F403
from pmlcases import u32, u64, sane_event, astr, fs_detail, fixture, FIXTURES, RES, build_events
import props_d as D
import props_l as L

PROPS = {}


def prop(pid):
    def deco(f):
        PROPS[pid] = f
        return f
    return deco


def deep(tier):
    return tier == "thorough"


# ------------------------------------------------------------------------------------------------ R01 headers
OFFSETS = ["events", "offsets", "processes", "strings", "icons", "hosts"]


def open_all(data):
    """Both ways of opening a log."""
    return [("ProcmonLogsReader", call(ProcmonLogsReader, io.BytesIO(data))),
            ("read_all_events_from_pml", call(read_all_events_from_pml, io.BytesIO(data)))]


def signatures(c):
    k = c.pick("byte", range(4))
    v = c.pick("value", range(256))
    sig = bytearray(b"PML_")
    if sig[k] == v:
        raise Skip()
    sig[k] = v
    return {"sig": bytes(sig)}, PMLError, c.pick("is64", [1, 0])


def versions(c):
    v = c.pick("version", [k for k in list(range(0, 300)) + [1 << b for b in range(9, 32)] + [0x90000, 0x09000000, 9 << 8,
                                                                                          0xffffffff, 0xfffffff7] if k != 9])
    return {"version": v}, NotImplementedError, c.pick("is64", [1, 0])


def zeros(c):
    h = {k: 0 for k in OFFSETS if c.pick(k, [0, 1])}
    hs = c.pick("header size", [None] + [0, 1, 0x3a7, 0x3a9, 0x394, 0x3a8 << 8, 0x3a8 << 32, 0x3a8 + (1 << 32), 0x1000003a8,
                                         (1 << 64) - 1, 0x3a800000000] + [0x3a8 ^ (1 << b) for b in range(64)])
    if hs is not None:
        h["header_size"] = hs
    if not h:
        raise Skip()
    return h, PMLError, c.pick("is64", [1, 0])


def combined(c):
    """Several things wrong at once: some error of the documented kinds."""
    h = {}
    if c.pick("signature", [0, 1]):
        h["sig"] = c.pick("which", [b"PML\0", b"\0\0\0\0", b"REGF", b"pml_"])
    if c.pick("version", [0, 1]):
        h["version"] = c.pick("which", [0, 8, 10])
    for k in OFFSETS:
        if c.pick(k, [0, 1]):
            h[k] = 0
    if not h:
        raise Skip()
    return h, PMLError if "sig" in h else (PMLError, NotImplementedError), c.pick("is64", [1, 0])


def foreign(c):
    return c.pick("file", [b"", b"P", b"PML", b"pml_" * 400, b"\0" * 4000, b"MZ" + b"\0" * 3000, b"<?xml version" * 100,
                           b"\xff" * 0x3a8, b"PMM_" + b"\0" * 4000]), PMLError, None


def chk_headers(batch, st):
    for i, (ch, (h, exc, is64)) in enumerate(batch):
        if is64 is None:
            data = h
        else:
            pml = P.Pml(is64=is64, events=L.kinds_events(is64)[:2], procs=L.RICHPROCS[is64], strings=L.STRS)
            pml.hdr = h
            data = pml.build()
        st.seen_input(data)
        for what, r in open_all(data):
            st.n["comparisons"] += 1
            st.outcome((what, type(r[1]).__name__))
            if r[0] == "ok":
                yield i, "%s accepted a file with %s" % (what, short(h))
            elif not isinstance(r[1], exc):
                yield i, "%s raised %s for %s" % (what, why(r), short(h))


@prop("R01")
def r01(tier):
    return [Scenario("signatures", signatures, chk_headers), Scenario("versions", versions, chk_headers),
            Scenario("unclean logs", zeros, chk_headers), Scenario("combined", combined, chk_headers),
            Scenario("other files", foreign, chk_headers)], \
        [], "every wrong value of every signature byte; 325 versions; all 64 subsets of the zeroed table offsets x 76 header " \
        "sizes x bitness; all combinations of signature, version and offset damage; 9 foreign files; two entry points"


# ------------------------------------------------------------------------------------------------ R02 truncation
LAYOUTS = {
    "as Procmon writes it": {},
    "events last": dict(sections=("offsets", "processes", "strings", "icons", "hosts", "events")),
    "strings last": dict(sections=("events", "offsets", "processes", "icons", "hosts", "strings")),
    "processes last": dict(sections=("events", "offsets", "strings", "icons", "hosts", "processes")),
    "hosts first, extra data at the end": dict(sections=("hosts", "offsets", "processes", "icons", "strings", "events"),
                                               extra_place="end"),
    "one event, padded": dict(padding=1, gap=5),
}


def trunc_events(is64, which):
    ev = L.kinds_events(is64)
    q = L.layout_events(is64)
    return {"mixed": ev, "listing": q[:1], "key": q[2:3], "file": ev[2:3], "value": ev[1:2], "network": ev[3:4],
            "start": ev[4:5], "none": []}[which]


def trunc_log(is64, which, lay):
    key = ("trunc", is64, which, lay)
    if key not in L._memo:
        kw = dict(LAYOUTS[lay])
        kw.pop("padding", None)
        full = which == "mixed"
        data = P.Pml(is64=is64, events=trunc_events(is64, which), procs=L.RICHPROCS[is64][::1 if full else 3],
                     strings=L.STRS + ("the last string",), hosts=((D.IPS[0], "first"), (D.IPS[1], "last host")),
                     ports=((80, 1, "http"), (443, 1, "https"), (80, 0, "the last port")), **kw).build()
        log = P.RefLog(data)
        L._memo[key] = (data, [ref_key(log, log.event(k)) for k in range(log.count)],
                        [ref_proc_key(log.procs[k]) for k in log.proc_list], log.system_details())
    return L._memo[key]


def trunc_ends(is64, which, lay):
    key = ("ends", is64, which, lay)
    if key not in L._memo:
        L._memo[key] = event_ends(trunc_log(is64, which, lay)[0])
    return L._memo[key]


def truncations(whichs, lays):
    def gen(c):
        is64, which, lay = c.pick("is64", [1, 0]), c.pick("events", whichs), c.pick("layout", lays)
        return is64, which, lay, c.pick("bytes kept", range(len(trunc_log(is64, which, lay)[0]) + 1))
    return gen


def event_ends(data):
    """Where the last byte of each event (its extra data included) lies in the complete log."""
    out = []
    for o in P.RefLog(data).offsets:
        depth, = struct.unpack_from("<H", data, o + 40)
        size, extra = struct.unpack_from("<II", data, o + 44)
        end = o + 52 + depth * (8 if data[8] else 4) + size
        out.append(max(end, o + extra + 2 + struct.unpack_from("<H", data, o + extra)[0]) if extra else end)
    return out


def observe(data, full, ends=None):
    """What a caller can see of a damaged log; a difference that no exception announces is returned."""
    evs, procs, sysd = full
    r = call(ProcmonLogsReader, io.BytesIO(data))
    if r[0] != "ok":
        return None, "refused"
    rd = r[1]
    if len(rd) != len(evs):
        return "%d events instead of %d" % (len(rd), len(evs)), ""
    g = call(lambda: [proc_key(p) for p in rd.processes()])
    if g[0] == "ok" and g[1] != procs:
        return "processes silently differ: %s" % short(g[1], 300), ""
    g = call(rd.system_details)
    if g[0] == "ok" and g[1] != sysd:
        return "system details silently differ: %s" % short(g[1], 300), ""
    bad = 0
    for k in range(len(evs)):
        g = call(lambda: event_key(rd[k]))
        if g[0] != "ok":
            bad += 1
            if ends and ends[k] <= len(data):
                return "event %d is complete but reading it raised %s" % (k, why(g)), ""
            continue
        d = diff_key(evs[k], g[1])
        if d:
            return "event %d silently differs: %s" % (k, d), ""
    for what, f in (("read_all_events_from_pml", lambda: read_all_events_from_pml(io.BytesIO(data))),
                    ("list", lambda: list(ProcmonLogsReader(io.BytesIO(data)))), ("reader[:]", lambda: rd[:])):
        g = call(lambda: [event_key(e) for e in f()])
        if g[0] == "ok":
            if bad:
                return "%s returned %d events although %d are unreadable" % (what, len(g[1]), bad), ""
            if len(g[1]) != len(evs) or any(diff_key(a, b) for a, b in zip(evs, g[1])):
                return "%s silently differs (%d events)" % (what, len(g[1])), ""
        elif not bad:
            return "%s raised %s although every event is readable" % (what, why(g)), ""
    return None, "%d unreadable" % bad


def chk_trunc(batch, st):
    for i, (ch, (is64, which, lay, n)) in enumerate(batch):
        data, evs, procs, sysd = trunc_log(is64, which, lay)
        st.seen_input((is64, which, lay, n))
        st.n["comparisons"] += 1 + len(evs)
        m, o = observe(data[:n], (evs, procs, sysd), trunc_ends(is64, which, lay))
        if n == len(data) and o != "0 unreadable":
            m = m or "the complete file: %s" % o
        st.outcome((is64, which, lay, o))
        if m:
            yield i, "%s, %s, first %d of %d bytes: %s" % (which, lay, n, len(data), m)


def appended(c):
    return c.pick("is64", [1, 0]), "mixed", c.pick("layout", sorted(LAYOUTS)), \
        c.pick("after the end", [b"\0", b"\xA5", b"\0" * 100, b"\xff" * 1000, b"PML_" * 300])


def chk_appended(batch, st):
    for i, (ch, (is64, which, lay, tail)) in enumerate(batch):
        data, evs, procs, sysd = trunc_log(is64, which, lay)
        st.seen_input((is64, which, lay, tail))
        st.n["comparisons"] += 1 + len(evs)
        m, o = observe(data + tail, (evs, procs, sysd))
        if o != "0 unreadable":
            m = m or "bytes after the end: %s" % o
        st.outcome(o)
        if m:
            yield i, m


def fixture_cuts(c):
    n = c.pick("log", [f for f in FIXTURES if "Process" in f])
    return n, c.pick("cut", range(0, 64))


def chk_fixture_cuts(batch, st):
    for i, (ch, (n, k)) in enumerate(batch):
        raw, log, rd, cls = fixture(n)
        st.n["fixture_traces"] += 1
        st.n["comparisons"] += 1
        keep = len(raw) - 1 - k * (len(raw) // 64)
        r = call(ProcmonLogsReader, io.BytesIO(raw[:keep]))
        if r[0] == "ok":
            yield i, "%s cut to %d of %d bytes was opened" % (n, keep, len(raw))


@prop("R02")
def r02(tier):
    d = deep(tier)
    few_ = ["mixed", "listing", "none"]
    return [Scenario("every length", truncations(["mixed", "listing", "key", "file", "value", "network", "start", "none"]
                                                 if d else few_, ["as Procmon writes it"]), chk_trunc),
            Scenario("every length, other layouts", truncations(["mixed", "listing", "key", "file", "value", "network",
                                                                 "start"] if d else ["mixed", "listing"],
                                                                sorted(LAYOUTS)[1:]), chk_trunc),
            Scenario("bytes after the end", appended, chk_appended, batch=4),
            Scenario("recorded logs", fixture_cuts, chk_fixture_cuts, batch=4)], \
        ["truncation removes a suffix; the stream returns all the bytes it has"], \
        "every length of 3 (quick) / 8 (thorough) logs x bitness in Procmon's layout and 2 / 7 logs in 5 other layouts; 64 " \
        "cuts of a recorded log"


# ------------------------------------------------------------------------------------------------ R03 I/O faults
class Boom(Exception):
    pass


class Faulty(object):
    """A stream some of whose calls (the k-th; or those in the set k) fail, or return less than asked for."""

    def __init__(self, data, k, fault):
        self._f, self.n, self.k, self.fault, self.hit = io.BytesIO(data), 0, k, fault, False

    def _mine(self):
        return self.n == self.k if isinstance(self.k, int) else self.n in self.k

    def _fail(self):
        self.n += 1
        if self._mine() and not isinstance(self.fault, str):
            self.hit = True
            raise self.fault
        return self._mine()

    def read(self, n=-1):
        mine = self._fail()
        if mine and isinstance(self.fault, str) and (n is None or n != 0):
            at = self._f.tell()
            b = self._f.read(n)
            keep = {"none": 0, "half": len(b) // 2, "all but one": max(0, len(b) - 1), "one": min(1, len(b))}[self.fault]
            if keep < len(b):
                self.hit = True
                self._f.seek(at + keep)
                b = b[:keep]
            return b
        return self._f.read(n)

    def seek(self, off, whence=0):
        if self._fail() and isinstance(self.fault, str):
            pass
        return self._f.seek(off, whence)

    def tell(self):
        if self._fail() and isinstance(self.fault, str):
            pass
        return self._f.tell()


# what streams raise; not IndexError or StopIteration, which end an iteration, nor other errors of the language itself
ERRORS = [OSError("disk"), EOFError("eof"), ValueError("I/O operation on closed file"), Boom("boom"), MemoryError(),
          zlib.error("bad data"), RuntimeError("device gone")]
SHORT = ["none", "half", "all but one", "one"]
USES = ["by index", "next", "list", "slice", "read all"]


def calls(is64, which, use):
    key = ("calls", is64, which, use)
    if key not in L._memo:
        f = Faulty(trunc_log(is64, which, "as Procmon writes it")[0], -1, "none")
        drive(f, use)
        L._memo[key] = f.n
    return L._memo[key]


def drive(f, use):
    """Open and read everything; returns (reader, events)."""
    if use == "read all":
        return None, read_all_events_from_pml(f)
    rd = ProcmonLogsReader(f)
    if use == "by index":
        return rd, [rd[k] for k in range(len(rd))]
    if use == "list":
        return rd, list(rd)
    if use == "slice":
        return rd, rd[:]
    out = []
    while True:
        try:
            out.append(next(rd))
        except StopIteration:
            return rd, out


def faults(kinds, whichs):
    def gen(c):
        is64, which, use = c.pick("is64", [1, 0]), c.pick("events", whichs), c.pick("use", USES)
        fault = c.pick("fault", kinds)
        n = calls(is64, which, use)
        return is64, which, use, fault, c.pick("call", range(1, n + 1))
    return gen


def chain(e):
    seen = []
    while e is not None and e not in seen:
        seen.append(e)
        e = e.__cause__ or e.__context__
    return seen


def chk_faults(batch, st):
    for i, (ch, (is64, which, use, fault, k)) in enumerate(batch):
        data, evs, procs, sysd = trunc_log(is64, which, "as Procmon writes it")
        f = Faulty(data, k, fault)
        st.seen_input((is64, which, use, repr(fault), k))
        st.n["comparisons"] += 1
        r = call(drive, f, use)
        m = None
        name = "%s at call %d (%s)" % (fault if isinstance(fault, str) else type(fault).__name__, k, use)
        if r[0] == "ok":
            g = call(lambda: [event_key(e) for e in r[1][1]])
            if g[0] != "ok" or len(g[1]) != len(evs) or any(diff_key(a, b) for a, b in zip(evs, g[1])):
                m = "%s: silently returned %s events that differ" % (name, len(r[1][1]))
            elif f.hit and not isinstance(fault, str):
                m = "%s: the error was swallowed" % name
        elif not isinstance(fault, str) and fault not in chain(r[1]):
            m = "%s: raised %s instead" % (name, why(r))
        st.outcome((use, isinstance(fault, str), type(r[1]).__name__))
        if m:
            yield i, m


def recover(c):
    """A fault after opening, then the same access again on the same reader."""
    is64 = c.pick("is64", [1, 0])
    fault = c.pick("fault", [ERRORS[0], "none", "half"])
    n = calls(is64, "mixed", "by index")
    opened = calls_open(is64)
    return is64, fault, c.pick("call", range(opened + 1, n + 1)), c.pick("how", ["index", "next", "slice"])


def calls_open(is64, which="mixed"):
    f = Faulty(trunc_log(is64, which, "as Procmon writes it")[0], -1, "none")
    ProcmonLogsReader(f)
    return f.n


def chk_recover(batch, st):
    for i, (ch, (is64, fault, k, how)) in enumerate(batch):
        data, evs, procs, sysd = trunc_log(is64, "mixed", "as Procmon writes it")
        f = Faulty(data, k, fault)
        st.seen_input((is64, repr(fault), k, how))
        r = call(ProcmonLogsReader, f)
        if r[0] != "ok":
            yield i, "opening raised %s without a fault" % why(r)
            continue
        rd = r[1]
        m, failed = None, 0
        for j in range(len(evs)):
            g = call(lambda: event_key(rd[j] if how == "index" else next(rd) if how == "next" else rd[j:j + 1][0]))
            st.n["comparisons"] += 1
            if g[0] != "ok":
                failed += 1
                g = call(lambda: event_key(rd[j]))
                if g[0] != "ok":
                    m = "event %d is unreadable after a fault that has passed: %s" % (j, why(g))
                    break
                if how == "next":
                    d = diff_key(evs[j], g[1])
                    m = "event %d after the fault: %s" % (j, d) if d else None
                    break
            d = diff_key(evs[j], g[1])
            if d:
                m = "event %d after a fault at call %d: %s" % (j, k, d)
                break
        if not m and how != "next":
            m = L.expect(call(lambda: rd[:]), evs, "everything after the fault")
        if not m and call(lambda: [proc_key(p) for p in rd.processes()]) != ("ok", procs):
            m = "processes differ after the fault"
        st.outcome((how, failed))
        if m:
            yield i, m


RETRIES = ["index", "next", "slice", "all", "processes first"]


def windows(widths):
    """The stream is out of order for some consecutive calls; every access is tried again until it succeeds."""
    def gen(c):
        is64, which = c.pick("is64", [1, 0]), "mixed"
        fault = c.pick("fault", [ERRORS[0], "none", "half"])
        opened, n = calls_open(is64), calls(is64, which, "by index")
        k, w = c.pick("from", range(opened + 1, n + 1)), c.pick("width", widths)
        return is64, which, fault, tuple(range(k, k + w)), c.pick("how", RETRIES)
    return gen


def two_faults(step):
    """Two separate faults, anywhere after opening a log."""
    def gen(c):
        is64, which = c.pick("is64", [1, 0]), c.pick("events", ["key"])
        fault = c.pick("fault", [ERRORS[0], "none", "all but one"])
        opened, n = calls_open(is64, which), calls(is64, which, "by index")
        a = c.pick("first", range(opened + 1, n + 1))
        return is64, which, fault, (a, a + c.pick("distance", range(2, n - opened + 40, step))), c.pick("how", RETRIES)
    return gen


def chk_retries(batch, st):
    for i, (ch, (is64, which, fault, calls_, how)) in enumerate(batch):
        data, evs, procs, sysd = trunc_log(is64, which, "as Procmon writes it")
        f = Faulty(data, frozenset(calls_), fault)
        st.seen_input((is64, which, repr(fault), calls_, how))
        r = call(ProcmonLogsReader, f)
        if r[0] != "ok":
            yield i, "opening raised %s without a fault" % why(r)
            continue
        m, failed = retry_all(r[1], how, len(calls_) + 1, evs, procs, sysd, fault, st)
        st.outcome((how, failed))
        if m:
            yield i, "%s at calls %s..%s (%s): %s" % (fault if isinstance(fault, str) else type(fault).__name__, calls_[0],
                                                     calls_[-1], how, m)


def retry_all(rd, how, limit, evs, procs, sysd, fault, st):
    failed = 0

    def attempt(what, f, want, differs):
        """Try until it works; every failure must be the fault's, every success exact."""
        nonlocal failed
        for _ in range(limit):
            st.n["comparisons"] += 1
            g = call(f)
            if g[0] == "ok":
                d = differs(want, g[1])
                return "%s: %s" % (what, d) if d else None
            failed += 1
            if not isinstance(fault, str) and fault not in chain(g[1]):
                return "%s raised %s" % (what, why(g))
        return "%s keeps failing although the stream works again: %s" % (what, why(g))

    def all_differ(want, got):
        if len(want) != len(got):
            return "%d events instead of %d" % (len(got), len(want))
        return next((d for d in map(diff_key, want, got) if d), None)

    def same(want, got):
        return None if want == got else short(got, 300)
    if how == "processes first":
        m = attempt("processes", lambda: [proc_key(p) for p in rd.processes()], procs, same) or \
            attempt("system details", rd.system_details, sysd, same)
        if m:
            return m, failed
    if how == "all":
        return attempt("everything", lambda: [event_key(e) for e in rd[:]], evs, all_differ), failed
    for j in range(len(evs)):
        if how == "next":
            g = call(lambda: event_key(next(rd)))
            st.n["comparisons"] += 1
            m = None
            if g[0] == "ok":
                m = "next gives event %d wrong: %s" % (j, diff_key(evs[j], g[1])) if diff_key(evs[j], g[1]) else None
            elif isinstance(g[1], StopIteration) or not isinstance(fault, str) and fault not in chain(g[1]):
                m = "next at event %d raised %s" % (j, why(g))
            else:
                failed += 1
                m = attempt("event %d" % j, lambda: event_key(rd[j]), evs[j], diff_key)
                if not m:
                    # the iteration may go on with the failed event or with the one after it
                    rest = call(lambda: [event_key(e) for e in rd])
                    if rest[0] == "ok":
                        if all_differ(evs[j:], rest[1]) and all_differ(evs[j + 1:], rest[1]):
                            m = "continuing after the failure of event %d gives %d other events" % (j, len(rest[1]))
                        return m, failed
                    return None, failed
        elif how == "slice":
            m = attempt("slice %d" % j, lambda: [event_key(e) for e in rd[j:j + 2]], evs[j:j + 2], all_differ)
        else:
            m = attempt("event %d" % j, lambda: event_key(rd[j]), evs[j], diff_key)
        if m:
            return m, failed
    return attempt("processes", lambda: [proc_key(p) for p in rd.processes()], procs, same), failed


@prop("R03")
def r03(tier):
    d = deep(tier)
    return [Scenario("errors", faults(ERRORS, ["mixed"] + (["listing", "none"] if d else [])) if d else
                     faults(ERRORS[:3], ["mixed"]), chk_faults),
            Scenario("other errors", faults(ERRORS[3:], ["listing"]), chk_faults),
            Scenario("short reads", faults(SHORT, ["mixed"] + (["listing", "none"] if d else [])), chk_faults),
            Scenario("recovery", recover, chk_recover),
            Scenario("fault windows", windows([1, 2, 3, 5, 8, 13, 21, 34] if d else [1, 2, 3, 7]), chk_retries),
            Scenario("two faults", two_faults(1 if d else 3), chk_retries)], \
        ["IndexError and StopIteration from the stream are not injected: they end an iteration"], \
        "every read/seek/tell call of opening and reading a 9-event log x 7 error types and 4 short reads x 5 ways of " \
        "reading x bitness; every call after opening x 3 faults x 3 ways, then the same access again; every window of 1-3, 7 (1-34) " \
        "failing calls x 3 faults x 5 ways of retrying; every pair of failing calls (quick: every third distance) of reading " \
        "a log of one event"


# ------------------------------------------------------------------------------------------------ R04 bad events
def good(is64, k):
    e = L.kinds_events(is64)[[1, 2, 3, 4, 8][k % 5]]
    e.tid = 500 + k
    return e


def bad(is64, kind):
    e = P.Ev(2, P.REGOP["RegQueryKey"], D.reg_detail(astr("HKLM\\K"), D.J2 + u32(16, 3)), u32(6) + P.w("Nam"), proc=1)
    if kind == "unknown class":
        e.cls = 9
    elif kind == "class 0":
        e.cls = 0
    elif kind == "unknown operation":
        e.op = 250
    elif kind == "unknown process":
        e.proc = 12345
    elif kind == "short path info":
        e.detail = b"\5"
    elif kind == "empty details":
        e.detail = b""
    elif kind == "not ascii":
        e.detail = D.reg_detail((0x8002, b"\xff\xfe"), D.J2 + u32(16, 3))
    elif kind == "short extra":
        e.extra = b"\6\0"
    elif kind == "network cut":
        e = P.Ev(5, 3, struct.pack("<HHI", 7, 0, 10) + b"\x0a\0\0\1", None, proc=1)
    elif kind == "short process details":
        e = P.Ev(1, P.PROCOP["Process_Exit"], u32(1), None, proc=1)
    elif kind == "file cut":
        e = P.Ev(3, P.FSOP["ReadFile"], b"\0\0\0\0" + b"\0" * 20, None, proc=1)
    elif kind == "short value":
        e = P.Ev(2, P.REGOP["RegQueryValue"], D.reg_detail(astr("HKLM\\K"), D.J2 + u32(16, 2)), b"\0\0\0", proc=1)
    elif kind == "listing cut":
        x = D.entry(3, "first", 8) + D.entry(3, "second", None)[:10]
        c = D.dirq(is64, astr("C:\\d"), astr(""), 3, x)
        e = c["ev"]
        e.proc = 1
    return e


BAD = ["unknown class", "class 0", "unknown operation", "unknown process", "short path info", "empty details", "not ascii",
       "short extra", "network cut", "short process details", "file cut", "short value"]


def bad_logs(limit):
    def gen(c):
        is64 = c.pick("is64", [1, 0])
        n = c.pick("events", range(1, limit + 1))
        kind = c.pick("kind", BAD)
        marks = [c.pick("bad", [0, 1]) for _ in range(n)]
        return is64, kind, marks, c.pick("details", [True, False])
    return gen


def chk_bad(batch, st):
    for i, (ch, (is64, kind, marks, det)) in enumerate(batch):
        evs = [bad(is64, kind) if m else good(is64, k) for k, m in enumerate(marks)]
        data = P.Pml(is64=is64, events=evs, procs=L.RICHPROCS[is64], strings=L.STRS).build()
        log = P.RefLog(data)
        want = [None if m else ref_key(log, log.event(k)) for k, m in enumerate(marks)]
        st.seen_input((is64, kind, marks, det))
        r = call(ProcmonLogsReader, io.BytesIO(data), True, det)
        if r[0] != "ok":
            yield i, "%s: the log could not be opened: %s" % (kind, why(r))
            continue
        m = bad_one(r[1], want, st, det)
        if det and not m and sum(marks):
            for what, f in (("read_all_events_from_pml", lambda: read_all_events_from_pml(io.BytesIO(data))),
                            ("list", lambda: list(ProcmonLogsReader(io.BytesIO(data)))), ("[:]", lambda: r[1][:])):
                g = call(f)
                if g[0] == "ok":
                    m = m or "%s returned %d of %d events without an error" % (what, len(g[1]), len(marks))
        st.outcome((kind, marks, det))
        if m:
            yield i, "%s %r: %s" % (kind, marks, m)


def bad_one(rd, want, st, det):
    for how in ("index", "next", "index again"):
        for k in range(len(want)):
            st.n["comparisons"] += 1
            g = call(lambda: event_key(next(rd) if how == "next" else rd[k]))
            if g[0] == "ok" and want[k] is None:
                if det:
                    return "the undecodable event %d was returned by %s" % (k, how)
                continue
            if want[k] is None:
                if isinstance(g[1], StopIteration):
                    return "the iteration stopped at the undecodable event %d" % k
                continue
            if g[0] != "ok":
                return "event %d (fine) by %s raised %s" % (k, how, why(g))
            if det:
                d = diff_key(want[k], g[1])
                if d:
                    return "event %d (fine) by %s: %s" % (k, how, d)
        if how == "next":
            g = call(next, rd)
            if g[0] == "ok" or not isinstance(g[1], StopIteration):
                return "the iteration did not stop after the last event"
    return None


def two_kinds(c):
    """Events that cannot be decoded for different reasons in one log, which are read one after the other."""
    is64 = c.pick("is64", [1, 0])
    kinds = [c.pick("kind", BAD + [None]) for _ in range(3)]
    return is64, [kinds[0], None, kinds[1], kinds[2], None]


def chk_two_kinds(batch, st):
    for i, (ch, (is64, kinds)) in enumerate(batch):
        evs = [bad(is64, kind) if kind else good(is64, k) for k, kind in enumerate(kinds)]
        data = P.Pml(is64=is64, events=evs, procs=L.RICHPROCS[is64], strings=L.STRS).build()
        log = P.RefLog(data)
        want = [None if m else ref_key(log, log.event(k)) for k, m in enumerate(kinds)]
        st.seen_input((is64, kinds))
        r = call(ProcmonLogsReader, io.BytesIO(data))
        m = "the log could not be opened: %s" % why(r) if r[0] != "ok" else bad_one(r[1], want, st, True)
        st.outcome((kinds, m))
        if m:
            yield i, "%r: %s" % (kinds, m)


CUTS = {"network": D.net, "process": D.proc_ev, "open key": D.reg_open, "key": D.reg_key, "other keys": D.reg_rest,
        "key information": D.reg_setinfo, "value": D.reg_value, "set value": D.reg_set, "create": D.create, "read": D.rw,
        "mapping": D.mapping, "disposition": D.disposition, "listing": D.listing, "control": D.ioctl, "notify": D.notify}
PLAIN = {"operations": D.op_names, "filters": D.dir_strings, "directory classes": D.dir_class}


class Plain:
    """A controller whose free choices are settled, so that only deviations from one plain event are explored."""

    def __init__(self, c, n):
        self.c, self.n, self.dev = c, n, c.dev

    def pick(self, name, options):
        return options[min(self.n, len(options) - 1)]


def cut_contents(kinds, plain=False):
    """One event of every kind whose details or extra data end after every number of bytes, or whose extra data are
    said to be at every place inside the event or beyond the file."""
    def gen(c):
        name = c.pick("kind", sorted(kinds))
        f = kinds[name]
        k = Plain(c, c.pick("plain event", [0, 1, 2])) if plain else c
        cs = f(k, plain) if name in CUTS else f(k)
        ev = copy.copy(cs["ev"])
        what = c.pick("what", ["details", "extra", "place"])
        if what == "details":
            if not ev.detail:
                raise Skip()
            ev.detail = ev.detail[:c.pick("bytes", range(len(ev.detail)))]
        elif what == "extra":
            if not ev.extra:
                raise Skip()
            ev.extra = ev.extra[:c.pick("bytes", range(len(ev.extra)))]
        else:
            size = 52 + len(ev.detail) + (8 if cs["is64"] else 4) * len(ev.stack)
            ev.extra_off = c.pick("offset", [1, 2, 3, 4, 50, 51, 52, 53, size // 2, size - 2, size - 1, 1 << 20, 1 << 31,
                                             0xffffffff])
        return dict(cs, ev=ev)
    return gen


def chk_cut_contents(batch, st):
    groups = {}
    for pos, (ch, c) in enumerate(batch):
        groups.setdefault((c["is64"], repr(sorted(c["kw"].items()))), []).append(pos)
    for (is64, _), poss in groups.items():
        evs = [batch[p][1]["ev"] for p in poss]
        data = build_events(evs, is64, batch[poss[0]][1]["kw"])
        log = P.RefLog(data)
        r = call(ProcmonLogsReader, io.BytesIO(data))
        for k, p in enumerate(poss):
            e = evs[k]
            st.seen_input((is64, e.cls, e.op, e.detail, e.extra, e.extra_off))
            st.n["comparisons"] += 1
            try:
                want = ref_key(log, log.event(k))
            except P.Unspecified:
                want = "either"
            except P.Undecodable as x:
                want = None
                why_bad = x
            g = r if r[0] != "ok" else call(lambda: event_key(r[1][k]))
            if want is None:
                if g[0] == "ok":
                    yield p, "an event that cannot be decoded (%s) was returned: %s" % (why_bad, short(g[1], 300))
            elif want != "either":
                d = "raised " + why(g) if g[0] != "ok" else diff_key(want, g[1])
                if d:
                    yield p, "%s: %s" % (want[2], d)
            st.outcome((e.cls, e.op, g[0], want is None))


@prop("R04")
def r04(tier):
    return [Scenario("bad events", bad_logs(6 if deep(tier) else 4), chk_bad),
            Scenario("different kinds", two_kinds, chk_two_kinds),
            Scenario("contents that end too early", cut_contents(dict(CUTS, **PLAIN)), chk_cut_contents, batch=200,
                     bound=1 if deep(tier) else 0),
            Scenario("unusual contents that end too early", cut_contents(CUTS, True), chk_cut_contents, batch=200, bound=1)], \
        ["event records themselves are complete; only their content cannot be decoded"], \
        "12 kinds of undecodable events at every subset of the positions of logs of up to 4 (quick) / 6 (thorough) events " \
        "x bitness x details on/off, by index, by iteration, by slice, and as a whole; all pairs of 2 kinds and a whole event; "\
        "the details and the extra data of every event kind (its free fields combined, 0 (quick) / 1 (thorough) deviations; 3 "\
        "plain events with 1 deviation over rich values) cut at every byte, and extra data at 14 places inside the event or "\
        "beyond the file"


# ------------------------------------------------------------------------------------------------ R05 files and streams
class Spy(io.BytesIO):
    """A stream that records what its owner has to know about."""

    def __init__(self, data):
        super().__init__(data)
        self.did = []

    def close(self):
        self.did.append("close")

    def really_close(self):
        super().close()

    def write(self, b):
        self.did.append("write")
        return super().write(b)

    def truncate(self, n=None):
        self.did.append("truncate")
        return super().truncate(n)

    def detach(self):
        self.did.append("detach")
        return super().detach()

    def __exit__(self, *a):
        self.did.append("exit")

    def __del__(self):
        pass


PLACES = ["str path", "bytes path", "Path", "open file", "unbuffered file", "stream", "reader on file", "reader on stream"]
CONF_PLACES = ["load file", "load stream", "dump file", "dump stream"]
LOGS = ["mixed", "none", "key", "bad event", "bad signature", "bad version", "not closed", "bad header size", "empty", "text"]


def r05_log(is64, kind):
    if kind in ("mixed", "none", "key"):
        return trunc_log(is64, kind, "as Procmon writes it")[0]
    if kind in ("empty", "text"):
        return {"empty": b"", "text": b"not a log\n" * 200}[kind]
    pml = P.Pml(is64=is64, events=[bad(is64, "unknown process")] if kind == "bad event" else L.kinds_events(is64)[:2],
                procs=L.RICHPROCS[is64], strings=L.STRS)
    pml.hdr = {"bad signature": {"sig": b"XML_"}, "bad version": {"version": 8}, "not closed": {"offsets": 0},
               "bad header size": {"header_size": 5}}.get(kind, {})
    return pml.build()


def r05_logs(c):
    is64, kind = c.pick("is64", [1, 0]), c.pick("log", LOGS)
    return is64, kind, c.pick("place", PLACES), None


def r05_cuts(step):
    def gen(c):
        is64 = c.pick("is64", [1, 0])
        n = len(trunc_log(is64, "mixed", "as Procmon writes it")[0])
        return is64, "mixed", c.pick("place", PLACES), c.pick("bytes kept", range(0, n, step))
    return gen


def r05_missing(c):
    return 1, c.pick("what", ["missing", "directory", "unreadable name"]), c.pick("place", PLACES[:3]), None


def open_fds():
    return sorted(os.listdir("/proc/self/fd"))


class watch_fds(object):
    """Nothing that was opened inside stays open (or is left to the garbage collector)."""

    def __enter__(self):
        self.before = open_fds()
        self.w = warnings.catch_warnings(record=True)
        self.log = self.w.__enter__()
        warnings.simplefilter("always")
        return self

    def __exit__(self, *a):
        self.after = open_fds()
        self.w.__exit__(None, None, None)

    def leak(self):
        extra = [f for f in self.after if f not in self.before]
        if len(extra) and self.after != self.before:
            return "%d files stay open" % len(extra)
        late = [str(x.message) for x in self.log if issubclass(x.category, ResourceWarning)]
        return "a file was left to the garbage collector: %s" % late[0] if late else None


def events_usable(events, want):
    got = [event_key(e) for e in events]
    if len(got) != len(want):
        return "%d events instead of %d" % (len(got), len(want))
    return next((d for d in map(diff_key, want, got) if d), None)


def chk_files(batch, st):
    for i, (ch, (is64, kind, place, keep)) in enumerate(batch):
        st.seen_input((is64, kind, place, keep))
        st.n["comparisons"] += 1
        tmp = tempfile.mkdtemp(prefix="verif-r05-")
        try:
            m = files_case(is64, kind, place, keep, tmp, st)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        if m:
            yield i, "%s log%s by %s: %s" % (kind, "" if keep is None else " cut to %d bytes" % keep, place, m)


def files_case(is64, kind, place, keep, tmp, st):
    path = os.path.join(tmp, "Logfile é.PML")
    if kind == "directory":
        os.mkdir(path)
    elif kind == "unreadable name":
        path += "\0x"
    elif kind != "missing":
        data = r05_log(is64, kind)[:keep]
        with open(path, "wb") as f:
            f.write(data)
        os.utime(path, (1000000000, 1000000000))
    want = trunc_log(is64, kind, "as Procmon writes it")[1] if kind in ("mixed", "none", "key") and keep is None else None
    src = None
    if place in ("open file", "reader on file"):
        src = open(path, "rb")
    elif place == "unbuffered file":
        src = open(path, "rb", buffering=0)
    elif place in ("stream", "reader on stream"):
        src = Spy(data)
    arg = src if src else {"str path": lambda: path, "bytes path": lambda: os.fsencode(path),
                           "Path": lambda: pathlib.Path(path)}[place]()

    def use():
        if not place.startswith("reader"):
            return read_all_events_from_pml(arg)
        rd = ProcmonLogsReader(arg)
        rd.processes(), rd.system_details(), len(rd)
        first = next(rd, None)
        return ([first] if first else []) + [rd[k] for k in range(1, len(rd))]
    with watch_fds() as fds:
        r = call(use)
    st.outcome((kind, place, type(r[1]).__name__))
    m = fds.leak()
    if not m and want is not None and r[0] != "ok":
        m = "raised " + why(r)
    if not m and kind not in ("mixed", "none", "key") and r[0] == "ok":
        m = "was read without an error"
    if not m and src is not None:
        if isinstance(src, Spy):
            m = "the caller's stream was used for %s" % src.did if src.did else None
            same = not m and src.getvalue() == data
            src.really_close()
        else:
            m = "the caller's file was closed" if src.closed else None
            same = True
            src.close()
        m = m or (None if same else "the caller's stream was changed")
    if not m and kind not in ("missing", "directory", "unreadable name"):
        with open(path, "rb") as f:
            if f.read() != data or os.stat(path).st_mtime != 1000000000 or os.listdir(tmp) != [os.path.basename(path)]:
                m = "the log file or its directory was changed"
        os.unlink(path)
    if not m and r[0] == "ok" and want is not None:
        g = call(events_usable, r[1], want)
        m = why(g) if g[0] != "ok" else g[1]
        if m:
            return "after the log is gone: " + m
        for e in r[1]:
            g = call(lambda: (str(e), repr(e), hash(e), e.get_compatible_csv_info()))
            if g[0] != "ok":
                return "formatting an event after the log is gone raised " + why(g)
    return m


R05_CONF = [[], [("Autoscroll", 1)], [("FilterRules", [(40054, 1, 1, "1338")]), ("zz", b"\1\2")],
            [("Logfile", "C:\\x"), ("FilterRules", "bad")], [("Autoscroll", -1)]]


def r05_conf(c):
    return c.pick("place", CONF_PLACES), c.pick("config", range(len(R05_CONF))), c.pick("cut", [None, 1, 7])


def chk_conf_files(batch, st):
    import pmcref as M
    from impl import load_configuration, dump_configuration, lib_config, norm_config, diff_items
    for i, (ch, (place, k, cut)) in enumerate(batch):
        st.seen_input((place, k, cut))
        st.n["comparisons"] += 1
        bad_ = k > 2
        items = R05_CONF[0 if bad_ else k]
        raw = M.build(items)
        raw = raw[:len(raw) - cut] if cut else raw
        tmp = tempfile.mkdtemp(prefix="verif-r05-")
        m = None
        try:
            path = os.path.join(tmp, "x.pmc")
            with open(path, "wb") as f:
                f.write(raw)
            if place.startswith("load"):
                src = open(path, "rb") if place == "load file" else Spy(raw)
                with watch_fds() as fds:
                    r = call(load_configuration, src)
                m = fds.leak() or ("the source was closed" if src.closed else None) or \
                    (isinstance(src, Spy) and src.did and "the source was used for %s" % src.did) or None
                if raw and cut and r[0] == "ok":
                    m = m or "a cut configuration was loaded"
                (src.really_close if isinstance(src, Spy) else src.close)()
                with open(path, "rb") as f:
                    m = m or (None if f.read() == raw else "the file was changed")
                os.unlink(path)
                if not m and r[0] == "ok":
                    d = diff_items(items, norm_config(r[1]))
                    m = "after the source is gone: %s" % d if d and not (cut and not raw) else None
            else:
                cfg = lib_config(items) if not bad_ else dict(R05_CONF[k])
                if place == "dump file":
                    dst = open(path, "r+b")
                    dst.seek(0, 2)
                else:
                    dst = Spy(raw)
                    dst.seek(0, 2)
                with watch_fds() as fds:
                    r = call(dump_configuration, cfg, dst)
                m = fds.leak() or ("the sink was closed" if dst.closed else None)
                if isinstance(dst, Spy):
                    if set(dst.did) - {"write"}:
                        m = m or "the sink was used for %s" % dst.did
                    got = dst.getvalue()
                    dst.really_close()
                else:
                    dst.close()
                    with open(path, "rb") as f:
                        got = f.read()
                if not m and got != raw + (b"" if bad_ else M.build(items)):
                    m = "the sink holds %s" % short(got)
                if not m and (r[0] == "ok") == bad_:
                    m = "dumping %s" % ("succeeded" if bad_ else "raised " + why(r))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        st.outcome((place, type(r[1]).__name__))
        if m:
            yield i, "%s %d: %s" % (place, k, m)


@prop("R05")
def r05(tier):
    d = deep(tier)
    return [Scenario("logs", r05_logs, chk_files, batch=8), Scenario("cut logs", r05_cuts(1 if d else 16), chk_files, batch=64),
            Scenario("no such file", r05_missing, chk_files, batch=4), Scenario("configurations", r05_conf, chk_conf_files)], \
        ["file descriptors are compared before and after each call while its result or exception is still held"], \
        "10 kinds of logs x bitness x 8 ways of giving the file; every 16th (each) length of a log with 9 events x 8 ways; " \
        "missing files; 5 configurations x 3 cuts x 4 ways of loading and dumping"
