"""Damaged logs compared with the model, objects made by callers, and the interpreter's environment."""
import copy
import enum
import atexit
import io
import json
import os
import pickle
import resource
import shutil
import struct
import subprocess
import sys
import tempfile
from collections import OrderedDict

import pmlref as P
from engine import Scenario, Skip
from impl import ProcmonLogsReader, read_all_events_from_pml, call, why, event_key, ref_key, diff_key, proc_key, \
    ref_proc_key, mod_key, short, Module, Process, Event, PROC_ATTRS, MOD_ATTRS, Rule, Font, Column, RuleRelation, RuleAction, FONT_ATTRS, \
    dump_configuration, loads_configuration, lib_config
from pmlcases import sane_event, ALL_OPS
import props_c as C
import props_d as D
import props_l as L

PROPS = {}


def prop(pid):
    def deco(f):
        PROPS[pid] = f
        return f
    return deco


def deep(tier):
    return tier == "thorough"


# ------------------------------------------------------------------------------------------------ R06 damaged bytes
LOGS = {"all kinds": lambda w: L.kinds_events(w), "other kinds": lambda w: L.layout_events(w)[:3] + other_events(w),
        "one event": lambda w: L.kinds_events(w)[:1]}


def other_events(w):
    sid = bytes.fromhex("010500000000000515000000010000000200000003000000f4010000")
    create = P.Ev(3, P.FSOP["CreateFile"], D.fs_detail(w, 0, D.astr("C:\\x"), [(0x14 if w else 0x10, D.u32(2 << 24 | 0x60))],
                                                       D.u32(0x120089) + bytes([len(sid)]) + b"\0\0\0" + sid), D.u32(2), proc=7)
    out = [create]
    for op in ("RegOpenKey", "RegEnumValue", "RegSetInfoKey", "RegRenameKey"):
        d, x = D.sane_event(2, P.REGOP[op], w)
        if op == "RegEnumValue":
            d = D.reg_detail(D.PATH0, D.J2 + D.u32(40, 3, 1))
            x = D.u32(0, 1, 28, 6, 8) + P.w("name") + P.w("abc")
        out.append(P.Ev(2, P.REGOP[op], d, x, proc=1))
    out.append(P.Ev(1, P.PROCOP["Process_Create"], D.sane_event(1, P.PROCOP["Process_Create"], w)[0], proc=7))
    out.append(P.Ev(3, P.FSOP["ReadFile"], D.sane_event(3, P.FSOP["ReadFile"], w)[0], proc=7, stack=L.stack(w, 2)))
    return out


_logs = {}


def log_bytes(which, is64):
    if (which, is64) not in _logs:
        data = P.Pml(is64=is64, events=LOGS[which](is64), procs=L.RICHPROCS[is64][::3], strings=L.STRS,
                     hosts=((D.IPS[0], "ten"), (D.IPS[1], "h\u0101")), ports=((80, 1, "http"), (443, 1, "https"))).build()
        _logs[which, is64] = data, expected(data)
    return _logs[which, is64]


OTHER = (struct.error, IndexError, OverflowError, P.Undecodable)


def expected(data):
    """The model's reading of any bytes: (how it ends, processes, system details, [event or None or "?"])."""
    try:
        if data[:4] != b"PML_" or len(data) < 0x3a8:
            return "not a log", None, None, None
        ver, = struct.unpack_from("<I", data, 4)
        offs = struct.unpack_from("<QQQQQ", data, 0x240)
        size, hosts = struct.unpack_from("<QQ", data, 0x398)
        if ver != 9 or 0 in offs or size != 0x3a8 or not hosts:
            return "not a log", None, None, None
        log = P.RefLog(data)
        if log.off_offsets > len(data):
            raise P.Unspecified("the array of no events is beyond the file")
        procs = [ref_proc_key(log.procs[k]) for k in log.proc_list]
    except P.Unspecified:
        return "?", None, None, None
    except OTHER as x:
        return "refused", None, None, None
    try:
        sysd = log.system_details()
    except KeyError:
        sysd = "?"
    evs = []
    for k in range(log.count):
        try:
            evs.append(ref_key(log, log.event(k)))
        except P.Unspecified:
            evs.append("?")
        except OTHER:
            evs.append(None)
    return "opened", procs, sysd, evs


def judge(data, want, whole=None):
    """The difference between what the library makes of the bytes and what they say."""
    how, procs, sysd, evs = want
    r = call(ProcmonLogsReader, io.BytesIO(data))
    if r[0] != "ok":
        if isinstance(r[1], MemoryError):
            return "opening the log (%d bytes) took more than 3 GB of memory" % len(data)
        return "the log was refused: %s" % why(r) if how == "opened" else None
    if how == "?":
        return None
    if how == "not a log":
        return "a file that is not a supported, closed log was opened"
    rd = r[1]
    if how == "refused":
        # a reader may look at the damaged part only when it is needed, but must not make something else of it
        how, procs, sysd, evs = whole
        got = [call(lambda: [proc_key(p) for p in rd.processes()]), call(lambda: [event_key(e) for e in rd[:]])]
        if all(g[0] == "ok" for g in got) and (got[0][1] != procs or len(got[1][1]) != len(evs) or
                                               any(diff_key(a, b) for a, b in zip(evs, got[1][1]))):
            return "a log that contradicts itself was read as something else: %s" % short(got[1][1], 400)
        return None
    if len(rd) != len(evs):
        return "%d events instead of %d" % (len(rd), len(evs))
    g = call(lambda: [proc_key(p) for p in rd.processes()])
    if g != ("ok", procs):
        return "processes: expected %s, got %s" % (short(procs, 300), short(g[1], 300))
    g = call(rd.system_details)
    if sysd != "?" and g != ("ok", sysd):
        return "system details: expected %s, got %s" % (sysd, short(g[1], 300))
    bad = False
    for k, e in enumerate(evs):
        g = call(lambda: event_key(rd[k]))
        if g[0] != "ok" and isinstance(g[1], MemoryError):
            return "event %d took more than 3 GB of memory" % k
        if e == "?":
            bad = None
        elif e is None:
            bad = True if bad is False else bad
            if g[0] == "ok":
                return "event %d cannot be decoded, but was returned as %s" % (k, short(g[1][1:], 300))
        elif g[0] != "ok":
            return "event %d: raised %s" % (k, why(g))
        elif diff_key(e, g[1]):
            return "event %d: %s" % (k, diff_key(e, g[1]))
    if bad is not None:
        g = call(lambda: [event_key(e) for e in read_all_events_from_pml(io.BytesIO(data))])
        if (g[0] == "ok") == bad or not bad and (len(g[1]) != len(evs) or any(diff_key(a, b) for a, b in zip(evs, g[1]))):
            return "read_all_events_from_pml: %s" % short(g[1], 300)
    return None


BYTES = {"quick": [("xor", 1), ("xor", 0x80), ("set", b"\0"), ("set", b"\xff\xff"), ("set", b"\xff" * 4), ("set", b"\xff" * 3 + b"\x7f")],
         "thorough": [("xor", 1 << k) for k in range(8)] + [("set", bytes([v])) for v in (0, 1, 2, 0x7f, 0xff)] +
         [("add", 1), ("add", 255)] + [("set", v) for v in (
             b"\0\0", b"\xff\xff", b"\xff\x7f", b"\0\x80", b"\0" * 4, b"\xff" * 4, b"\xff" * 3 + b"\x7f", b"\0\0\0\x80", b"\1\0\0\0",
             b"\0" * 8, b"\xff" * 8, b"\xff" * 7 + b"\x7f", b"\0" * 4 + b"\1\0\0\0")]}


def damages(whichs, menu):
    def gen(c):
        which, is64 = c.pick("log", whichs), c.pick("is64", [1, 0])
        pos = c.pick("position", range(len(log_bytes(which, is64)[0])))
        return which, is64, pos, c.pick("damage", menu)
    return gen


def apply(data, pos, dmg):
    b = bytearray(data)
    kind, v = dmg
    if kind == "set":
        v = v[:len(b) - pos]
        b[pos:pos + len(v)] = v
    elif kind == "xor":
        b[pos] ^= v
    elif kind == "add":
        b[pos] = (b[pos] + v) & 0xff
    elif kind == "cut":
        del b[pos:pos + v]
    elif kind == "insert":
        b[pos:pos] = v
    return bytes(b)


def limit_memory():
    """A damaged count must not make the reader ask for memory the log cannot fill."""
    used = int(open("/proc/self/statm").read().split()[0]) * resource.getpagesize()
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    want = used + (3 << 30)
    if soft == resource.RLIM_INFINITY or soft > want:
        resource.setrlimit(resource.RLIMIT_AS, (want, hard))


def chk_damage(batch, st):
    limit_memory()
    for i, (ch, (which, is64, pos, dmg)) in enumerate(batch):
        whole, want0 = log_bytes(which, is64)
        data = apply(whole, pos, dmg)
        want = want0 if data == whole else expected(data)
        st.seen_input(data)
        st.n["comparisons"] += 1
        st.outcome((want[0], want[3] and tuple(e if e is None or e == "?" else 1 for e in want[3])))
        m = judge(data, want, want0)
        if m:
            yield i, "%s, is64=%d, byte %d: %s %r: %s" % (which, is64, pos, dmg[0], dmg[1], m)


def moved(whichs):
    """Bytes that got lost, or were inserted, in the middle of the file."""
    def gen(c):
        which, is64 = c.pick("log", whichs), c.pick("is64", [1, 0])
        pos = c.pick("position", range(len(log_bytes(which, is64)[0])))
        return which, is64, pos, c.pick("damage", [("cut", 1), ("cut", 2), ("cut", 4), ("insert", b"\0"), ("insert", b"\0\0"),
                                                   ("insert", b"\1\0\0\0"), ("cut", 16)])
    return gen


HEADER_WORDS = [("count", 0x234, 4), ("events", 0x240, 8), ("offsets", 0x248, 8), ("processes", 0x250, 8), ("strings", 0x258, 8),
                ("icons", 0x260, 8), ("hosts", 0x3a0, 8), ("is64", 8, 4)]


def pairs_of_words(c):
    """Two words of the header are wrong at once."""
    is64 = c.pick("is64", [1, 0])
    data = bytearray(log_bytes("one event", is64)[0])
    n = len(data)
    for name, at, size in HEADER_WORDS:
        old = int.from_bytes(data[at:at + size], "little")
        v = c.dev(name, [None, 1, old + 1, old - 1, old + 4, n - 1, n, n + 1, 0x3a8, 1 << 31, (1 << 32) - 1] +
                  ([1 << 32, 1 << 40, (1 << 63) - 1, 1 << 63, (1 << 64) - 1] if size == 8 else []))
        if v is not None:
            data[at:at + size] = (v % (1 << 8 * size)).to_bytes(size, "little")
    return is64, bytes(data)


def chk_words(batch, st):
    limit_memory()
    for i, (ch, (is64, data)) in enumerate(batch):
        st.seen_input(data)
        st.n["comparisons"] += 1
        want = expected(data)
        st.outcome((want[0], len(want[3] or ())))
        m = judge(data, want, log_bytes("one event", is64)[1])
        if m:
            yield i, "is64=%d: %s" % (is64, m)


@prop("R06")
def r06(tier):
    d = deep(tier)
    return [Scenario("damaged bytes", damages(["all kinds", "other kinds"], BYTES["thorough" if d else "quick"]), chk_damage, batch=100),
            Scenario("bytes lost and inserted", moved(["one event", "all kinds", "other kinds"] if d else ["one event"]), chk_damage, batch=100),
            Scenario("damaged header", pairs_of_words, chk_words, bound=3 if d else 2, batch=100)], \
        ["a part of a log that nothing asks for may be damaged unnoticed; where half a character is left over, or an offset beyond the "
         "file is not used, both an error and a value are right"], \
        "every position of 2 logs (all event kinds) x bitness x 6 (quick) / 28 (thorough) kinds of damage of 1 to 8 bytes; 1 to 16 bytes " \
        "lost or inserted at every position of 1 (quick) / 3 (thorough) logs; all combinations of 2 (quick) / 3 (thorough) wrong words of " \
        "the header out of 11-16 values each; no more than 3 GB of address space"


# ------------------------------------------------------------------------------------------------ V02 objects
def copies():
    out = [("copy.copy", copy.copy), ("copy.deepcopy", copy.deepcopy)]
    for p in range(pickle.HIGHEST_PROTOCOL + 1):
        out.append(("pickle protocol %d" % p, lambda x, p=p: pickle.loads(pickle.dumps(x, p))))
    return out


COPIES = copies()
NAMES = {1: "Process", 2: "Registry", 3: "File_System", 4: "Profiling", 5: "Network"}


def rebuilt_process(p, how):
    mods = [Module(*[getattr(m, a) for a in MOD_ATTRS]) if how else Module(**{a: getattr(m, a) for a in MOD_ATTRS}) for m in p.modules]
    if how:
        return Process(*[getattr(p, a) for a in PROC_ATTRS], mods)
    return Process(modules=mods, **{a: getattr(p, a) for a in PROC_ATTRS})


EV_ATTRS = ("process", "tid", "event_class", "operation", "duration", "date_filetime", "result", "stacktrace", "category", "path",
            "details")


def rebuilt(e, how, cls, op):
    kw = {a: getattr(e, a) for a in EV_ATTRS}
    kw["process"] = rebuilt_process(e.process, how)
    kw["event_class"] = {"member": e.event_class, "number": int(e.event_class), "name": NAMES[int(e.event_class)]}[cls]
    if op:
        kw["operation"] = enum.IntEnum("Operation", {e.operation: 7})[e.operation]
    kw["stacktrace"], kw["details"] = list(e.stacktrace), OrderedDict(e.details)
    return Event(*[kw[a] for a in EV_ATTRS]) if how else Event(**kw)


WAYS = [("the constructor (how=%d, class as %s, operation as %s)" % (h, k, ("text", "member")[o]),
         lambda e, h=h, k=k, o=o: rebuilt(e, h, k, o)) for h in (0, 1) for k in ("member", "number", "name") for o in (0, 1)]


def shown(e):
    """Everything an event tells about itself."""
    return event_key(e), str(e), repr(e), sorted(e.get_compatible_csv_info().items()), \
        sorted(e.get_compatible_csv_info(e.date_filetime - 1).items()), e.date(), str(e.process), repr(e.process), \
        [(str(m), repr(m)) for m in e.process.modules]


def event_copies(c):
    cls, op, sub = c.pick("operation", [(k, o, s) for k, o in ALL_OPS for s in D.SUBS.get(P.OPS[k][o], [0])])
    is64 = c.pick("is64", [1, 0])
    d, x = sane_event(cls, op, is64, sub)
    ev = P.Ev(cls, op, d, x, proc=c.pick("process", [7, 1]), tid=77, stack=L.stack(is64, 3), dur=12345678)
    return is64, ev, c.pick("way", range(len(COPIES) + len(WAYS)))


def chk_copies(batch, st):
    for i, (ch, (is64, ev, way)) in enumerate(batch):
        name, f = (COPIES + WAYS)[way]
        data = P.Pml(is64=is64, events=[ev], procs=L.RICHPROCS[is64], strings=L.STRS).build()
        e = ProcmonLogsReader(io.BytesIO(data))[0]
        st.seen_input((is64, ev.cls, ev.op, ev.detail, ev.proc, way))
        st.n["comparisons"] += 1
        before = shown(e)
        r = call(f, e)
        m = None
        if r[0] != "ok":
            m = "raised " + why(r)
        elif type(r[1]) is not type(e) or r[1] is e:
            m = "gave %r" % (r[1],)
        else:
            g = call(lambda: (shown(r[1]), r[1] == e, e == r[1], r[1] != e, hash(r[1]) == hash(e), len({e, r[1]}),
                              r[1].process == e.process, hash(r[1].process) == hash(e.process), r[1].process.modules == e.process.modules))
            if g[0] != "ok":
                m = "the result cannot be used: " + why(g)
            elif g[1] != (before, True, True, False, True, 1, True, True, True):
                m = "gave something else: %s" % short([(a, b) for a, b in zip(before, g[1][0]) if a != b] or g[1][1:], 400)
            elif way and r[1].details is not e.details:
                # only copy.copy may share anything
                r[1].details["new"] = 1
                r[1].stacktrace.append(5)
                r[1].path = "changed"
                if way < len(COPIES):
                    r[1].process.pid = 99
                    for mod in r[1].process.modules:
                        mod.path = "changed"
                    r[1].process.modules.append(None)
                if shown(e) != before:
                    m = "changing the result changed the event"
            elif way:
                m = "the result shares its details with the event"
        st.outcome((ev.cls, ev.op, way, m is None))
        if m:
            yield i, "%s of a %s event: %s" % (name, e.operation, m)


DEFAULTS = {Module: dict(base_address=0, size=0, path="", version="", company="", description="", timestamp=0),
            Process: dict(pid=0, parent_pid=0, authentication_id=0, session=0, virtualized=0, is_process_64bit=False, integrity="", user="",
                          process_name="", image_path="", command_line="", company="", version="", description="", start_time=None,
                          end_time=None, modules=[]),
            Event: dict(process=None, tid=0, event_class="?", operation=None, duration=0, date_filetime=None, result=0, stacktrace=None,
                        category=None, path=None, details=None)}
GIVEN = {Module: dict(base_address=1 << 63, size=5, path="p", version="v", company="c", description="d", timestamp=9),
         Process: dict(pid=3, parent_pid=4, authentication_id=5, session=6, virtualized=7, is_process_64bit=1, integrity="i", user="u",
                       process_name="n", image_path="ip", command_line="cl", company="c", version="v", description="d", start_time=8,
                       end_time=9, modules=[Module(size=4)]),
         Event: dict(process=Process(pid=8), tid=2, event_class=2, operation="RegOpenKey", duration=3, date_filetime=P.D0, result=5,
                     stacktrace=[1, 2], category="Read", path="\\", details=OrderedDict([("a", 1)]))}


def constructions(c):
    cls = c.pick("class", [Module, Process, Event])
    attrs = list(GIVEN[cls])
    base = c.pick("base", ["none", "all"])
    given = []
    for a in attrs:
        flip = c.dev(a, [0, 1])
        if (base == "all") != bool(flip):
            given.append(a)
    return cls, given, c.pick("order", [0, 1])


def chk_constructions(batch, st):
    for i, (ch, (cls, given, rev)) in enumerate(batch):
        if cls is Event and "event_class" not in given:
            given = given + ["event_class"]
        kw = {a: GIVEN[cls][a] for a in (given[::-1] if rev else given)}
        st.seen_input((cls.__name__, tuple(kw)))
        st.n["comparisons"] += 1
        r = call(lambda: (cls(**kw), cls(**kw)))
        if r[0] != "ok":
            yield i, "%s(%s) raised %s" % (cls.__name__, short(kw, 300), why(r))
            continue
        a, b = r[1]
        m = None
        for name, d in DEFAULTS[cls].items():
            want = kw.get(name, d)
            if name == "is_process_64bit":
                want = bool(want)
            g = call(getattr, a, name)
            if g[0] != "ok" or g[1] != want or (not isinstance(g[1], int) and type(g[1]) is not type(want)) or \
                    isinstance(g[1], bool) != isinstance(want, bool):
                m = "%s is %r instead of %r" % (name, g[1], want)
        h = call(lambda: (a == b, a != b, hash(a) == hash(b) if cls is not Event or a.process else True, len(repr(a)) > 0))
        if not m and h != ("ok", (True, False, True, True)):
            m = "two of them compare %s" % (h[1],)
        if not m and cls is Process and "modules" not in kw:
            a.modules.append(Module(size=1))
            if b.modules or cls().modules:
                m = "its module list is shared with other processes"
        st.outcome((cls.__name__, len(kw), m is None))
        if m:
            yield i, "%s(%s): %s" % (cls.__name__, short(kw, 300), m)


def positional(c):
    cls = c.pick("class", [Module, Process, Event])
    n = c.pick("positional", range(len(GIVEN[cls]) + 1))
    return cls, n, c.pick("rest", [0, 1])


def chk_positional(batch, st):
    for i, (ch, (cls, n, rest)) in enumerate(batch):
        names = list(GIVEN[cls])
        args = [GIVEN[cls][a] for a in names[:n]]
        kw = {a: GIVEN[cls][a] for a in names[n:] if rest or a == "event_class"}
        st.seen_input((cls.__name__, n, rest))
        st.n["comparisons"] += 1
        r = call(lambda: cls(*args, **kw))
        want = dict(DEFAULTS[cls], **kw)
        want.update(zip(names, args))
        if cls is Process:
            want["is_process_64bit"] = bool(want["is_process_64bit"])
        got = r[0] == "ok" and {a: getattr(r[1], a, "missing") for a in names}
        st.outcome((cls.__name__, n, rest, got == want))
        if got != want:
            yield i, "%s(*%s): %s" % (cls.__name__, short(args, 200), why(r) if r[0] != "ok" else
                                      [(a, want[a], got[a]) for a in names if want[a] != got[a]])


NUMBERS = [0, 1, -1, (1 << 32) - 1, 1 << 63, (1 << 64) - 1]
TEXTS = ["", " ", "x", "\0", "\u0100", "\U0001f600", "\ud800", "a\"b{0}%s\n"]
MODULE0 = dict(base_address=1 << 40, size=77, path="C:\\m.dll", version="1.0", company="Co", description="de", timestamp=5)


def varied(c, base, pre=""):
    kw = dict(base)
    for a, v in base.items():
        if a == "modules":
            continue
        if a in ("start_time", "end_time"):
            menu = [v, None, 0, 1]
        elif a == "is_process_64bit":
            menu = [v, False]
        else:
            menu = [v] + (NUMBERS if isinstance(v, int) else TEXTS)
        kw[a] = c.dev(pre + a, menu)
    return kw


def values(c):
    """Processes and modules with one or two unusual values."""
    kind = c.pick("kind", ["module", "process"])
    way = c.pick("way", range(len(COPIES)))
    use = c.pick("before", ["", "hash", "print", "compare"])
    if kind == "module":
        return kind, way, use, varied(c, MODULE0), None
    kw = varied(c, dict(GIVEN[Process], is_process_64bit=True))
    n = c.dev("modules", [1, 0, 2])
    return kind, way, use, kw, [varied(c, MODULE0, "m")] * n


def chk_values(batch, st):
    for i, (ch, (kind, way, use, kw, mods)) in enumerate(batch):
        name, f = COPIES[way]

        def fresh():
            if kind == "module":
                return Module(**kw)
            return Process(**dict(kw, modules=[Module(**m) for m in mods]))
        key = mod_key if kind == "module" else proc_key
        st.seen_input((kind, way, use, sorted(kw.items(), key=str), mods))
        st.n["comparisons"] += 1

        def run():
            a, b = fresh(), fresh()
            want = key(b)
            if use == "hash":
                {a}
            elif use == "print":
                str(a), repr(a)
            elif use == "compare":
                a == Module() or a == Process()
            x = f(a)
            if key(a) != want or key(x) != want:
                return "the %s has other values: %s" % ("copy" if key(a) == want else "original", short(key(x), 300))
            if not (x == a and a == x and x == b and b == x and a == b and b == a) or x != a or x != b or a != b or b != a:
                return "it does not compare equal to the copied object and a third one"
            if len({hash(o) for o in (a, b, x)}) != 1 or len({a, b, x}) != 1:
                return "equal objects have different hashes"
            if len({(str(o), repr(o)) for o in (a, b, x)}) != 1:
                return "equal objects print differently"
            if kind == "process" and way and (x.modules is a.modules or any(m is n for m, n in zip(x.modules, a.modules))):
                return "it shares its modules with the original"
            # a hash or a comparison belongs to the values of the moment
            attr, was, v = ("size", kw["size"], -5) if kind == "module" else ("pid", kw["pid"], -5)
            setattr(x, attr, v)
            if x == b or getattr(b, attr) != was or getattr(a, attr) != was:
                return "changing it changes the other objects or nothing"
            y = fresh()
            setattr(y, attr, v)
            if x != y or hash(x) != hash(y) or str(x) != str(y):
                return "after a change it is not equal to an object with the new value"
            return None
        g = call(run)
        m = why(g) if g[0] != "ok" else g[1]
        st.outcome((kind, way, use, m is None))
        if m:
            yield i, "%s of %s(%s) %s: %s" % (name, kind, short(kw, 200), use, m)


def wrong_classes(c):
    return c.pick("event class", [-1, 0, 6, 7, 100, 1 << 32, "", "process", "PROCESS", "File System", "FileSystem", "Unknown", "1", None, 1.5,
                                  "Process ", " Process", b"Process", (), "Profilin"])


def chk_wrong(batch, st):
    for i, (ch, v) in enumerate(batch):
        st.seen_input(repr(v))
        st.n["comparisons"] += 1
        r = call(lambda: Event(process=Process(), event_class=v))
        st.outcome((repr(v), r[0]))
        # Unknown is the name of class 0, which no event has
        if r[0] == "ok" and v not in (0, "Unknown"):
            yield i, "Event(event_class=%r) gave %r" % (v, r[1].event_class)


def config_copies(c):
    kind = c.pick("object", ["rule", "font", "configuration", "dict in list"])
    way = c.pick("way", range(len(COPIES)))
    if kind == "rule":
        return kind, way, (c.pick("column", pmlref_columns()), c.pick("relation", range(8)), c.pick("action", [0, 1]),
                           c.pick("value", ["", "x", "\u0100\U0001d11e", "32-bit"]))
    if kind == "font":
        return kind, way, [c.dev(a, [C.FONT0[k]] + (C.S32 if k < 5 else [1, 255] if k < 13 else C.FACES)) for k, a in enumerate(FONT_ATTRS)]
    return kind, way, c.pick("rotate", range(len(C.NAMES)))


def pmlref_columns():
    return C.COLUMN_CODES


def dumped(cfg):
    f = io.BytesIO()
    dump_configuration(cfg, f)
    return f.getvalue()


def chk_config_copies(batch, st):
    for i, (ch, (kind, way, x)) in enumerate(batch):
        name, f = COPIES[way]
        st.seen_input((kind, way, repr(x)))
        st.n["comparisons"] += 1
        m = None
        if kind == "rule":
            a = Rule(Column(x[0]), RuleRelation(x[1]), x[3], RuleAction(x[2]))
            r = call(lambda: f(a))
            ok = r[0] == "ok" and call(lambda: (r[1] == a, a == r[1], a != r[1], hash(a) == hash(r[1]), str(a) == str(r[1]), repr(a) == repr(r[1]),
                                                r[1].column is a.column, r[1].relation is a.relation, r[1].action is a.action,
                                                dumped({"FilterRules": [r[1]]}) == dumped({"FilterRules": [a]})))
            if r[0] != "ok" or ok != ("ok", (True, True, False) + (True,) * 7):
                m = "%s of %r: %s" % (name, a, why(r) if r[0] != "ok" else ok)
        elif kind == "font":
            a = Font(**dict(zip(FONT_ATTRS, x)))
            r = call(lambda: f(a))
            ok = r[0] == "ok" and call(lambda: ([getattr(r[1], k) for k in FONT_ATTRS], dumped({"LogFont": r[1]}) == dumped({"LogFont": a})))
            if r[0] != "ok" or ok != ("ok", (list(x), True)):
                m = "%s of a font %r: %s" % (name, x, why(r) if r[0] != "ok" else ok)
        else:
            items = C.gen_all(Fixed(x))
            a = loads_configuration(dumped(lib_config(items)))
            raw = dumped(a)
            r = call(lambda: f([a])[0] if kind == "dict in list" else f(a))
            ok = r[0] == "ok" and call(lambda: (list(r[1]), dumped(r[1]) == raw))
            if r[0] != "ok" or ok != ("ok", ([n for n, _ in items], True)):
                m = "%s of a configuration: %s" % (name, why(r) if r[0] != "ok" else ok)
            elif way:
                for v in r[1].values():
                    if isinstance(v, list):
                        v.clear()
                if dumped(a) != raw and not (kind == "dict in list" and way == 0):
                    m = "changing a %s of a configuration changed the configuration" % name
        st.outcome((kind, way, m is None))
        if m:
            yield i, m


class Fixed(object):
    """A controller for one fixed rotation."""

    def __init__(self, x):
        self.x = x

    def pick(self, name, options):
        return options[self.x] if name == "rotate" else options[0]


@prop("V02")
def v02(tier):
    return [Scenario("events", event_copies, chk_copies, batch=50), Scenario("constructors", constructions, chk_constructions,
                                                                  bound=4 if deep(tier) else 2, batch=50),
            Scenario("positional arguments", positional, chk_positional),
            Scenario("values", values, chk_values, bound=2 if deep(tier) else 1, batch=50),
            Scenario("event classes", wrong_classes, chk_wrong), Scenario("configurations", config_copies, chk_config_copies, bound=1, batch=50)], \
        ["rules, fonts and configurations compare by what they dump to"], \
        "all operations x bitness x 2 processes x (8 kinds of copies and pickles, 12 ways through the constructors); modules, processes " \
        "and events built with every set of at most 2 (quick) / 4 (thorough) arguments given or left out, in 2 orders, or any number of " \
        "them positional; modules and processes with at most 1 / 2 unusual values, used before or not, copied; 20 wrong event " \
        "classes; all rules x 4 values, fonts with 1 deviation and whole configurations x 8 kinds of copies"


# ------------------------------------------------------------------------------------------------ E01 environment
PY = sys.executable
HERE = os.path.dirname(os.path.abspath(__file__))
FLAGS = [("optimize", ["", "-O", "-OO"]), ("bytes", ["", "-b", "-bb"]),
         ("flag", ["", "-I", "-E", "-s", "-u", "-d", "-X dev", "-X utf8=0", "-X utf8=1", "-X faulthandler", "-X no_debug_ranges",
                   "-X int_max_str_digits=640", "-X frozen_modules=off", "-X tracemalloc"])]
VARS = [("PYTHONHASHSEED", ["0", "1", "2", "4294967295"]), ("TZ", ["UTC0", "EST5EDT,M3.2.0,M11.1.0", "XYZ-14", "<-12>12", "IST-5:30", "", "Nowhere/X"]),
        ("LC_ALL", ["C.UTF-8", "C", "POSIX", "xx_YY.UTF-8", ""]), ("LANG", ["C.UTF-8", "C", "de_DE.ISO-8859-1", ""]),
        ("PYTHONIOENCODING", ["", "ascii", "utf-16"]), ("PYTHONCOERCECLOCALE", ["", "0"]), ("PYTHONMALLOC", ["", "malloc", "debug"]),
        ("PYTHONUTF8", ["", "0", "1"]), ("PYTHONOPTIMIZE", ["", "2"]), ("HOME", ["/root", "/nonexistent", ""]), ("COLUMNS", ["", "1"])]
SETUPS = ["", "locale", "decimal", "collector off", "collector eager", "traced", "profiled", "no stdout", "small stack", "other directory",
          "thread", "getcwd fails", "modules reloaded"]


def environments(full):
    def gen(c):
        if not full:
            pick = [("optimize", c.pick("optimize", ["", "-O", "-OO"])), ("bytes", c.pick("bytes", ["", "-bb"]))]
            return [v for _, v in pick if v], {"PYTHONHASHSEED": c.pick("seed", ["0", "1"]), "TZ": c.pick("TZ", ["UTC0", "XYZ-14"]),
                                               "LC_ALL": c.pick("LC_ALL", ["C.UTF-8", "C"])}, []
        flags = [c.dev(n, v) for n, v in FLAGS]
        env = {n: c.dev(n, v) for n, v in VARS}
        return [f for f in flags if f], env, [s for s in [c.dev("setup", SETUPS)] if s]
    return gen


LOCALES = [("de_DE", "UTF-8"), ("ja_JP", "UTF-8"), ("ar_EG", "UTF-8"), ("fa_IR", "UTF-8"), ("tr_TR", "ISO-8859-9"), ("en_GB", "ISO-8859-1"),
           ("hi_IN", "UTF-8"), ("fr_CH", "UTF-8"), ("zh_CN", "GB18030"), ("el_GR", "ISO-8859-7")]
_locales = []


def locales():
    """The directory in which this check has built the locales, and their names (glibc's sources of them are installed)."""
    if not _locales:
        d, names = tempfile.mkdtemp(prefix="verif-locales-"), []

        def remove(pid=os.getpid()):
            if os.getpid() == pid:
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(remove)
        jobs = []
        for n, c in LOCALES:
            try:
                jobs.append((n + "." + c, subprocess.Popen(["localedef", "-i", n, "-f", c, os.path.join(d, n + "." + c)],
                                                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
            except OSError:
                break  # no localedef on this machine
        for n, j in jobs:
            if j.wait() in (0, 1) and os.path.isdir(os.path.join(d, n)):
                names.append(n)
        _locales.append((d, names))
    return _locales[0]


def in_locales(c):
    d, names = locales()
    if not names:
        raise Skip()
    return [], {"LOCPATH": d, "LC_ALL": c.pick("locale", names), "PYTHONUTF8": c.pick("UTF-8 mode", ["0", "1"])}, \
        c.pick("setup", [["locale"], ["locale", "thread"]])


def chk_environment(batch, st):
    import procmon_parser
    repo = os.path.dirname(os.path.dirname(os.path.abspath(procmon_parser.__file__)))
    for i, (ch, (flags, env, setup)) in enumerate(batch):
        st.seen_input((flags, sorted(env.items()), setup))
        st.n["comparisons"] += 1
        e = {k: v for k, v in env.items() if v or k in ("TZ", "LC_ALL", "LANG", "HOME")}
        e.update(PATH="/usr/bin:/bin", PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore")
        cmd = [PY, "-B"] + [w for f in flags for w in f.split()] + [os.path.join(HERE, "envrun.py"), repo] + setup
        r = subprocess.run(cmd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        what = "%s, %s%s" % (" ".join(flags), " ".join("%s=%r" % t for t in sorted(env.items())), "".join(", " + s for s in setup))
        try:
            out = json.loads(r.stdout.decode("utf-16" if env.get("PYTHONIOENCODING") == "utf-16" and "-I" not in flags and "-E" not in flags
                                             else "ascii"))
        except ValueError:
            yield i, "%s: the battery ended with %d: %s" % (what, r.returncode, r.stderr.decode("utf-8", "replace")[-400:])
            continue
        assert out["from"].startswith(repo + os.sep), out["from"]
        st.outcome(tuple(out["bad"]))
        if out["bad"]:
            yield i, "%s: %d differences, the first: %s" % (what, len(out["bad"]), out["bad"][0])


@prop("E01")
def e01(tier):
    locales()  # in this process, before any worker is started
    return [Scenario("interpreters", environments(False), chk_environment, batch=1),
            Scenario("deviations", environments(True), chk_environment, bound=2 if deep(tier) else 1, batch=1),
            Scenario("locales", in_locales, chk_environment, batch=1)], \
        ["the environments this machine can provide; other locales than C are built by the check from glibc's sources"], \
        "all combinations of -O/-OO, -bb, 2 hash seeds, 2 time zones and 2 locales; 10 languages set with setlocale; every environment with at most 1 (quick) / 2 " \
        "(thorough) unusual settings out of 19 interpreter flags, 11 environment variables and 12 states of the process, each with a " \
        "battery of 6 logs, about 900 damaged logs, 2 configurations with every option, 60 damaged and 149 invalid ones"
