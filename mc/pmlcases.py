"""Building blocks for the log checks: value alphabets, detail-structure writers, batched comparison, fixtures."""
import functools
import io
import os
import struct
import zlib

import pmlref as P
from engine import Scenario, REPO
from impl import ProcmonLogsReader, call, why, event_key, ref_key, diff_key, short

# ------------------------------------------------------------------------------------------------ alphabets
DISTINCT = {8: 0xa1, 16: 0xb1c2, 32: 0x81929394, 64: 0x8192a3b4c5d6e7f8}


@functools.lru_cache(maxsize=None)
def nums(width, default=None, extra=()):
    """Rich alphabet for one unsigned field: zero, all ones, every single bit, boundaries, distinct bytes."""
    mx = (1 << width) - 1
    vals = [default if default is not None else 1, 0, mx] + [1 << k for k in range(width)] + \
        [mx >> 1, mx - 1, (mx >> 1) + 2, DISTINCT[width], int.from_bytes(bytes(range(1, width // 8 + 1)), "little"),
         0x7f & mx, 0xff & mx] + \
        ([0x7fff, 0xffff, 0xfffe, 0x101, 10000000, 9999999] if width > 16 else []) + \
        ([0xffffffff, 0x1ffffffff, 0xffffffff00000000] if width > 32 else []) + list(extra)
    return list(dict.fromkeys(vals))


@functools.lru_cache(maxsize=None)
def few(width, default=None, extra=()):
    """Short alphabet, for combinations of fields."""
    mx = (1 << width) - 1
    vals = [default if default is not None else 1, 0, mx, (mx >> 1) + 1, DISTINCT[width]] + list(extra)
    return list(dict.fromkeys(vals))


def field(c, label, width, default=None, rich=True, extra=()):
    return c.dev(label, nums(width, default, extra) if rich else few(width, default, extra))


ODD = ["aĀ", "Ā", "Āa", "\U0001d11ex", "é", "\ufeffz", "a\ud800b", "\udc00", "{}%s\\", "a,b: c", "line\r\nx", "\u0a00\u000a",
       "\x01", "ÿ\u00ff", "\uffff", "C:\\dir\\", "\\", "ends\\\\"]
FULL_STRINGS = os.environ.get("VERIF_TIER_RUNNING") == "thorough"  # long strings everywhere; else only in D09
LENS = (0, 1, 2, 3, 127, 128, 255, 256, 257, 1000, 0x7fff)


def astr(s):
    """ASCII detail string: (info field, bytes)."""
    b = s.encode("latin-1")
    return 0x8000 | len(b), b


def ustr(s):
    b = P.w(s)
    return len(b) // 2, b


@functools.lru_cache(maxsize=None)
def pattern(n):
    return "".join(chr(0x61 + i % 26) for i in range(n))


@functools.lru_cache(maxsize=None)
def detail_strings(rich=True, default="C:\\some\\path"):
    """Detail strings as (info, bytes): ASCII and UTF-16, of many lengths and contents."""
    out = [astr(default), ustr(default)]
    if not rich:
        return out + [astr(""), ustr(""), ustr("aĀ\U0001d11e"), astr(pattern(300)), ustr("x\0y"), astr("p\\"), ustr("p\\")]
    for n in LENS if FULL_STRINGS else (0, 1, 127, 128, 255, 256, 300):
        out += [astr(pattern(n)), ustr(pattern(n))]
    out += [ustr(s) for s in ODD]
    out += [astr(s) for s in ("\\", "a\\", "{}", "a\0b", "\x7f", "\r\n", " ")]
    out += [ustr("x\0y"), ustr("x\0"), ustr("\0x"), ustr("Ā" * 300)]
    if FULL_STRINGS:
        out += [astr("a" * 0x4000), ustr("é" * 0x7ffe)]
    seen, res = set(), []
    for k in out:
        if k not in seen:
            seen.add(k)
            res.append(k)
    return res


def dstr(c, label, rich=True, default="C:\\some\\path"):
    return c.dev(label, detail_strings(rich, default))


@functools.lru_cache(maxsize=None)
def words(rich=True):
    """Lists of UTF-16 words for NUL separated lists."""
    base = [[], ["a"], ["a", "b"], ["key", "value", "k2", "v2"], ["aĀ", "Ā"], ["x" * 300, "y"], ["a", "b", "c"],
            ["k", "v", "k", "w"], ["\U0001d11e", "\ufeff"], ["a\ud800"], ["\udc00b", "c\udfff"], ["\r\n", " ", "\t"],
            ["w%d" % i for i in range(300)], ["e\u0301", "é", "\ufb01"]]
    return base if rich else base[:4]


def msz(ws, term=2):
    """NUL separated, with `term` NULs after the last word."""
    if not ws:
        return b"\0\0" * term
    return b"\0\0".join(P.w(x) for x in ws) + b"\0\0" * term


# ------------------------------------------------------------------------------------------------ detail writers
def fs_detail(is64, sub, path, dio=b"", rest=b"", junk=0xA5):
    """File system details: sub operation, fixed block, path, then operation specific bytes."""
    n = (8 if is64 else 4) * 5 + 0x14
    blk = bytearray([junk]) * n
    for off, raw in dio if isinstance(dio, (list, tuple)) else [(0, dio)]:
        blk[off:off + len(raw)] = raw
    assert len(blk) == n
    return bytes([sub, junk, junk, junk]) + bytes(blk) + struct.pack("<HH", path[0], junk * 0x101) + path[1] + rest


def reg_detail(path, mid=b"", rest=b""):
    return struct.pack("<H", path[0]) + mid + path[1] + rest


J2, J4 = b"\xA5\xA5", b"\xA5\xA5\xA5\xA5"


def u32(*v):
    return struct.pack("<%dI" % len(v), *[x & 0xffffffff for x in v])


def u64(*v):
    return struct.pack("<%dQ" % len(v), *v)


PATH0 = astr("HKLM\\Software\\Key")


def sane_event(cls, op, is64, sub=0, path=PATH0):
    """A minimal well-formed (detail, extra) for any event class and operation code."""
    name = P.OPS[cls][op]
    if cls == P.PROCESS:
        if name in ("Process_Defined", "Process_Create"):
            return J4 + u32(1234) + b"\xA5" * 0x24 + struct.pack("<BBHHH", 3, 2, path[0], astr("cmd")[0], 0xA5A5) + \
                b"\xA5" * 5 + path[1] + b"cmd", None
        if name in ("Process_Exit", "Process_Statistics"):
            return u32(1) + u64(2, 3, 4, 5, 6, 7), None
        if name == "Thread_Create":
            return u32(77), None
        if name == "Thread_Exit":
            return J4 + u64(12, 34), None
        if name == "Load_Image":
            return (u64(0x7ff000000000) if is64 else u32(0x77000000)) + u32(0x1000) + \
                struct.pack("<HH", path[0], 0xA5A5) + path[1], None
        if name == "Process_Start":
            env = msz(["A=1", "B=2"])
            return u32(99) + struct.pack("<HH", astr("cmd")[0], astr("C:\\")[0]) + u32(len(env) // 2) + b"cmdC:\\" + env, \
                None
        return b"", None
    if cls == P.NETWORK:
        return struct.pack("<HHI", 7, 0xA5A5, 10) + b"\x0a\0\0\1".ljust(16, b"\0") + b"\x0a\0\0\2".ljust(16, b"\0") + \
            struct.pack("<HH", 80, 443) + msz([]), None
    if cls == P.REGISTRY:
        mids = {"RegLoadKey": struct.pack("<H", astr("new")[0]), "RegRenameKey": struct.pack("<H", astr("new")[0]),
                "RegOpenKey": J2 + u32(0x20019), "RegCreateKey": J2 + u32(0x20019),
                "RegQueryKey": J2 + u32(16, 5), "RegQueryValue": J2 + u32(16, 2),
                "RegEnumKey": J2 + u32(16, 1, 5), "RegEnumValue": J2 + u32(16, 1, 2),
                "RegSetInfoKey": J2 + u32(0) + J4 + struct.pack("<H", 0) + J2,
                "RegSetValue": J2 + u32(4, 4, 4)}
        rest = {"RegLoadKey": b"new", "RegRenameKey": b"new", "RegSetValue": u32(7)}
        return reg_detail(path, mids.get(name, b""), rest.get(name, b"")), None
    if cls == P.FS:
        rest = {"CreateFile": u32(0x120089) + b"\0" + b"\xA5" * 3, "FileSystemControl": u64(0, 0)}.get(name, b"")
        if P.OPS[cls][op] == "DirectoryControl" and sub == 1:
            rest = struct.pack("<H", 0)
        if name == "SetInformationFile":
            rest = b"\1\xA5\xA5\xA5"
        return fs_detail(is64, sub, path, b"", rest, 0), None
    return b"", None


ALL_OPS = [(cls, op) for cls in (1, 2, 3, 4, 5) for op in sorted(P.OPS[cls])]


# ------------------------------------------------------------------------------------------------ batched comparison
def case(ev, is64=1, **kw):
    """One event in a file described by keyword arguments of the writer."""
    return {"ev": ev, "is64": is64, "kw": kw}


def describe(c):
    return "is64=%d %r %s" % (c["is64"], c["ev"], short({k: v for k, v in c["kw"].items()}, 300))


PROCS = {w: [P.Proc(index=1, pid=4, is64=w), P.Proc(index=7, pid=1000, is64=w)] for w in (0, 1)}


def build_events(evs, is64, kw):
    kw = dict(kw)
    kw.setdefault("procs", PROCS[1 if is64 else 0])
    return P.Pml(is64=is64, events=evs, **kw).build()


def check_events(batch, st, should_get=(True, True)):
    """Write all events of a group into one log, read it with the library and with the model, compare."""
    groups = {}
    for pos, (ch, c) in enumerate(batch):
        groups.setdefault((c["is64"], repr(sorted(c["kw"].items(), key=lambda t: t[0]))), []).append(pos)
    for (is64, _), poss in groups.items():
        data = build_events([batch[p][1]["ev"] for p in poss], is64, batch[poss[0]][1]["kw"])
        log = P.RefLog(data)
        r = call(ProcmonLogsReader, io.BytesIO(data))
        if r[0] != "ok":
            for p in poss:
                yield p, "opening the log raised " + why(r)
            continue
        rd = r[1]
        for k, p in enumerate(poss):
            ev = batch[p][1]["ev"]
            st.seen_input((is64, ev.cls, ev.op, ev.detail, ev.extra, ev.tid, ev.dur, ev.date, ev.result, ev.stack,
                           ev.proc))
            try:
                ref = log.event(k)
            except P.Undecodable as e:
                st.n["undecodable"] += 1
                yield p, "HARNESS: the model cannot decode this case: %s" % e
                continue
            st.n["comparisons"] += 1
            want = ref_key(log, ref, False)
            st.outcome((want[2:5], want[8:]))
            got = call(lambda: event_key(rd[k], False))
            if got[0] != "ok":
                yield p, "%s raised %s" % (ref.operation, why(got))
                continue
            d = diff_key(want, got[1])
            if d:
                yield p, "%s: %s" % (ref.operation, d)


def ev_scenario(name, gen, bound, note=""):
    return Scenario(name, gen, check_events, bound=bound, batch=200, describe=describe, note=note)


# ------------------------------------------------------------------------------------------------ fixtures
RES = os.path.join(REPO, "tests", "resources")
FIXTURES = ["CompressedLogfileTests32bitUTCPML", "CompressedLogfileTests64bitUTCPML",
            "CompressedLogFileUTC64RegistryPML", "CompressedLogFileUTC64ProcessPML",
            "CompressedLogFileUTC32FilesystemPML", "CompressedLogFileUTC64FilesystemPML"]
_cache = {}


def fixture(name):
    """(bytes, model log, library reader with everything, class of every event)."""
    if name not in _cache:
        _cache.clear()
        raw = zlib.decompress(open(os.path.join(RES, name), "rb").read())
        log = P.RefLog(raw)
        _cache[name] = (raw, log, ProcmonLogsReader(io.BytesIO(raw)),
                        [struct.unpack_from("<I", raw, o + 8)[0] for o in log.offsets])
    return _cache[name]


COUNTS = {}
CHUNK = 1500


def fixture_scenario(classes=None, ops=None, stride=1):
    """Every event of the recorded logs (of the given classes): library against the model."""
    menu = []
    for n in FIXTURES:
        if not os.path.exists(os.path.join(RES, n)):
            continue
        raw = zlib.decompress(open(os.path.join(RES, n), "rb").read())
        total = struct.unpack_from("<I", raw, 0x234)[0]
        menu.append((n, total))

    def gen(c):
        n, total = c.pick("log", menu)
        return n, c.pick("chunk", list(range(0, total, CHUNK)))

    def check(batch, st):
        for i, (ch, (n, lo)) in enumerate(batch):
            raw, log, rd, cls = fixture(n)
            for k in range(lo, min(lo + CHUNK, log.count), stride):
                if classes and cls[k] not in classes:
                    continue
                try:
                    ref = log.event(k)
                except P.Undecodable:
                    st.n["undecodable"] += 1
                    continue
                if ops and ref.operation not in ops:
                    continue
                want = ref_key(log, ref, False)
                st.n["fixture_traces"] += 1
                st.n["comparisons"] += 1
                got = call(lambda: event_key(rd[k], False))
                d = why(got) if got[0] != "ok" else diff_key(want, got[1])
                if d:
                    yield i, "%s event %d (%s): %s" % (n, k, ref.operation, d)
                    break
    return Scenario("recorded logs", gen, check, batch=1, horizon=300,
                    note="conformance of the reference model with the library on Procmon's own recordings")
