"""Reference model of the PML log format: a writer with full layout control, and a boring absolute-offset decoder.

Written from docs/PML Format.md and the observable behaviour of Procmon recorded in the repository's CSV fixtures; shares
no code with procmon_parser (its code tables are a frozen copy, tables.json).
"""
import json
import os
import struct

T = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "tables.json")))


def imap(d):
    return {int(k): v for k, v in d.items()}


EVENT_CLASS = imap(T["event_class"])
OPS = {int(k): imap(v) for k, v in T["ops"].items()}
FS_SUB = {int(k): imap(v) for k, v in T["fs_sub_ops"].items()}
RESULTS = imap(T["results"])
IOCTLS = imap(T["ioctls"])
FILE_INFO = imap(T["file_information_class"])
REG_TYPES = imap(T["reg_types"])
REG_KEY_INFO = imap(T["reg_key_info"])
REG_VALUE_INFO = imap(T["reg_value_info"])
REG_SET_INFO = imap(T["reg_key_set_info"])
REG_DISP = imap(T["reg_disposition"])
FS_DISP = imap(T["fs_disposition"])
FS_OPEN = imap(T["fs_open_result"])
FS_PRIO = imap(T["fs_priority"])
SYNC = imap(T["sync_type"])
PAGE = imap(T["page_protection"])
COLUMNS = imap(T["columns"])
MASKS = {k: [(v, n) for v, n in lst] for k, lst in T["masks"].items()}
GENERIC = T["generic"]

PROCESS, REGISTRY, FS, PROFILING, NETWORK = 1, 2, 3, 4, 5
OPV = {c: {n: v for v, n in m.items()} for c, m in OPS.items()}
FSOP, REGOP, PROCOP, NETOP = OPV[FS], OPV[REGISTRY], OPV[PROCESS], OPV[NETWORK]

FT_EPOCH = 116444736000000000
D0 = 132390000000000000  # 2020-07-11, a plain date inside the fixtures' era


def w(s):
    """UTF-16 code units of a python string (lone surrogates allowed)."""
    return s.encode("utf-16-le", "surrogatepass")


# ------------------------------------------------------------------------------------------------- writer
class Proc(object):
    def __init__(self, index=1, pid=4, ppid=0, auth=0x3e7, session=0, start=D0, end=0, virt=0, is64=1, strs=(0,) * 8,
                 modules=(), icons=(0, 0), parent_index=0):
        self.index, self.pid, self.ppid, self.auth, self.session = index, pid, ppid, auth, session
        self.start, self.end, self.virt, self.is64, self.strs = start, end, virt, is64, tuple(strs)
        self.modules, self.icons, self.parent_index = list(modules), icons, parent_index

    def pack(self, is64, junk):
        pv = "<Q" if is64 else "<I"
        b = struct.pack("<III", self.index, self.pid, self.ppid) + struct.pack("<I", self.parent_index)
        b += struct.pack("<QI", self.auth, self.session) + junk(4)
        b += struct.pack("<QQII", self.start, self.end, self.virt, self.is64)
        b += struct.pack("<8I", *self.strs) + struct.pack("<II", *self.icons) + junk(8 if is64 else 4)
        b = bytearray(b + struct.pack("<I", len(self.modules)))
        for m in self.modules:
            b += junk(8 if is64 else 4) + struct.pack(pv, m[0])
            b += struct.pack("<IIIIII", m[1], m[2], m[3], m[4], m[5], m[6]) + junk(0x18)
        return bytes(b)


class Ev(object):
    def __init__(self, cls=PROCESS, op=3, detail=b"", extra=None, proc=1, tid=1, dur=0, date=D0, result=0, stack=()):
        self.cls, self.op, self.detail, self.extra, self.proc = cls, op, detail, extra, proc
        self.tid, self.dur, self.date, self.result, self.stack = tid, dur, date, result, tuple(stack)
        self.extra_off = None  # overrides the place of the extra data

    def __repr__(self):
        return "Ev(cls=%d op=%d detail=%s extra=%s proc=%d tid=%d dur=%d date=%d result=0x%x stack=%r)" % (
            self.cls, self.op, self.detail.hex(), None if self.extra is None else self.extra.hex(), self.proc, self.tid,
            self.dur, self.date, self.result, list(self.stack[:8]))


DEFAULT_SECTIONS = ("events", "offsets", "processes", "strings", "icons", "hosts")


class Pml(object):
    """A log file. Everything not documented as meaningful is filled with the junk byte."""

    def __init__(self, is64=1, events=(), procs=None, strings=("",), hosts=(), ports=(), computer="PC", root="C:\\Windows",
                 version=(10, 0, 16299, 2), sp="", ncpu=2, ram=2 << 30, junk=0xA5, sections=DEFAULT_SECTIONS,
                 event_order=None, extra_place="after", gap=0, string_order=None, share_strings=False, proc_order=None,
                 string_nul=True, padding=b"\0"):
        self.is64, self.events, self.strings, self.hosts, self.ports = is64, list(events), list(strings), hosts, ports
        self.procs = [Proc(is64=is64)] if procs is None else list(procs)
        self.computer, self.root, self.version, self.sp, self.ncpu, self.ram = computer, root, version, sp, ncpu, ram
        self.junk, self.sections, self.event_order, self.extra_place = junk, sections, event_order, extra_place
        self.gap, self.string_order, self.share_strings, self.proc_order = gap, string_order, share_strings, proc_order
        self.string_nul = string_nul
        self.hdr = {}  # overrides of raw header fields

    def _junk(self, n):
        return bytes([self.junk]) * n

    def _string(self, s):
        raw = s if isinstance(s, bytes) else w(s) + (b"\0\0" if self.string_nul else b"")
        return struct.pack("<I", len(raw)) + raw

    def _events(self, base):
        """Event bodies and their extra structures; returns (bytes, offsets by event index)."""
        order = self.event_order or list(range(len(self.events)))
        chunks, offs, patches, pend = bytearray(), [0] * len(self.events), [], []
        for i in order:
            e = self.events[i]
            chunks += self._junk(self.gap)
            off = len(chunks)
            offs[i] = base + off
            st = b"".join(struct.pack("<Q" if self.is64 else "<I", a) for a in e.stack)
            chunks += struct.pack("<IIIHHIQQIHHII", e.proc, e.tid, e.cls, e.op, 0xA5A5, 0xA5A5A5A5, e.dur, e.date,
                                  e.result, len(e.stack), 0xA5A5, len(e.detail), 0)
            chunks += st + e.detail
            if e.extra is not None:
                blob = struct.pack("<H", len(e.extra)) + e.extra
                if self.extra_place == "after":
                    struct.pack_into("<I", chunks, off + 0x30, len(chunks) - off)
                    chunks += blob
                elif self.extra_place == "gap":
                    chunks += self._junk(7)
                    struct.pack_into("<I", chunks, off + 0x30, len(chunks) - off)
                    chunks += blob
                else:
                    pend.append((off, blob))
        if self.extra_place == "end":
            for off, blob in pend:
                chunks += self._junk(self.gap)
                struct.pack_into("<I", chunks, off + 0x30, len(chunks) - off)
                chunks += blob
        elif self.extra_place == "end_reversed":
            for off, blob in reversed(pend):
                chunks += self._junk(self.gap)
                struct.pack_into("<I", chunks, off + 0x30, len(chunks) - off)
                chunks += blob
        for i in order:
            if self.events[i].extra_off is not None:
                struct.pack_into("<I", chunks, offs[i] - base + 0x30, self.events[i].extra_off)
        chunks += self._junk(self.gap)
        return bytes(chunks), offs

    def _processes(self):
        n = len(self.procs)
        order = self.proc_order or list(range(n))
        start = 4 + 8 * n
        body, offs = bytearray(), [0] * n
        for i in order:
            body += self._junk(self.gap)
            offs[i] = start + len(body)
            body += self.procs[i].pack(self.is64, self._junk)
        return struct.pack("<I", n) + b"".join(struct.pack("<I", p.index) for p in self.procs) + \
            b"".join(struct.pack("<I", o) for o in offs) + bytes(body)

    def _strings(self):
        n = len(self.strings)
        order = self.string_order or list(range(n))
        start = 4 + 4 * n
        body, offs, known = bytearray(), [0] * n, {}
        for i in order:
            raw = self._string(self.strings[i])
            if self.share_strings and raw in known:
                offs[i] = known[raw]
                continue
            body += self._junk(self.gap)
            offs[i] = known[raw] = start + len(body)
            body += raw
        return struct.pack("<I", n) + b"".join(struct.pack("<I", o) for o in offs) + bytes(body)

    def _hosts(self):
        b = struct.pack("<I", len(self.hosts))
        for ip, name in self.hosts:
            b += ip.ljust(16, b"\0") + self._string(name)
        b += struct.pack("<I", len(self.ports))
        for port, tcp, name in self.ports:
            b += struct.pack("<HH", port, tcp) + self._string(name)
        return b

    def build(self):
        pos, secs, at, offs = 0x3a8, [], {}, None
        blobs = {"processes": self._processes(), "strings": self._strings(), "icons": struct.pack("<I", 0),
                 "hosts": self._hosts()}
        for name in self.sections:
            pos += self.gap
            at[name] = pos
            if name == "events":
                blob, offs = self._events(pos)
                blob = blob or self._junk(1)
            elif name == "offsets":
                blob = b"\0" * (5 * len(self.events))
            else:
                blob = blobs[name]
            secs.append((name, blob))
            pos += len(blob)
        out = bytearray(self.header(at))
        for name, blob in secs:
            out += self._junk(self.gap)
            if name == "offsets":
                blob = b"".join(struct.pack("<IB", o, self.junk) for o in offs)
            out += blob
        return bytes(out)

    def header(self, at):
        h = {"sig": b"PML_", "version": 9, "events": at["events"], "offsets": at["offsets"],
             "processes": at["processes"], "strings": at["strings"], "icons": at["icons"], "hosts": at["hosts"],
             "header_size": 0x3a8, "count": len(self.events)}
        h.update(self.hdr)
        j = self._junk

        def field(s, n):
            raw = s if isinstance(s, bytes) else w(s)
            if len(raw) < n:
                raw += b"\0\0"
            return (raw + j(n))[:n]
        b = h["sig"] + struct.pack("<II", h["version"], self.is64)
        b += field(self.computer, 0x20) + field(self.root, 0x208) + struct.pack("<I", h["count"]) + j(8)
        b += struct.pack("<QQQQQ", h["events"], h["offsets"], h["processes"], h["strings"], h["icons"]) + j(12)
        b += struct.pack("<IIII", *self.version) + field(self.sp, 0x32) + j(0xd6)
        b += struct.pack("<IQQQ", self.ncpu, self.ram, h["header_size"], h["hosts"])
        assert len(b) == 0x3a8
        return b


# ------------------------------------------------------------------------------------------------- decoder
class Undecodable(Exception):
    """The bytes are outside the documented format: the model says nothing about them."""


class Unspecified(Undecodable):
    """Neither a value nor an error is documented."""


class Cur(object):
    def __init__(self, data):
        self.d, self.p = data, 0

    def take(self, n):
        if n and self.p + n > len(self.d):
            raise Undecodable("short")
        b = self.d[self.p:self.p + n]
        self.p += n
        return b

    def u8(self):
        return self.take(1)[0]

    def u16(self):
        return int.from_bytes(self.take(2), "little")

    def u32(self):
        return int.from_bytes(self.take(4), "little")

    def u64(self):
        return int.from_bytes(self.take(8), "little")

    def s64(self):
        return int.from_bytes(self.take(8), "little", signed=True)

    def skip(self, n):
        self.p += n

    def rest(self):
        return self.d[self.p:]


def units(raw):
    return [raw[i:i + 2] for i in range(0, len(raw) - 1, 2)]


def text(raw):
    return raw.decode("utf-16-le", "replace")


def until_nul(raw):
    """A UTF-16 string: up to the first (aligned) NUL code unit or the end."""
    for i in range(0, len(raw) - 1, 2):
        if raw[i] == 0 and raw[i + 1] == 0:
            return text(raw[:i])
    return text(raw)


def sized_string(c, n):
    raw = c.d[c.p:c.p + n]
    c.p += n
    if n & 1 and b"\0\0" not in units(raw):
        raise Unspecified("half a code unit")
    return until_nul(raw)


def multi_sz(raw, size=None):
    """NUL separated strings, ended by an empty one (but an empty first string counts)."""
    if size == 0:
        return []
    if size is not None and size & 1 and size < len(raw):
        raise Unspecified("half a code unit")  # Procmon itself prints uninitialised bytes here
    eof = size is None or len(raw) < size
    if eof and len(raw) & 1:
        raise Unspecified("half a code unit")
    us = units(raw if size is None else raw[:size])
    if eof:
        us = us + [b"\0\0", b"\0\0"]
    words, cur, ended = [], [], False
    for u in us:
        if u != b"\0\0":
            cur.append(u)
            continue
        if not cur and words:
            ended = True
            break
        words.append(cur)
        cur = []
    if cur and not ended:
        words.append(cur)
    return [text(b"".join(x)) for x in words]


def info(c):
    v = c.u16()
    return v & 0x8000 != 0, v & 0x7fff


def detail_string(c, inf):
    ascii_, n = inf
    raw = c.take(n if ascii_ else n * 2)
    if not ascii_:
        return until_nul(raw)
    if any(b > 127 for b in raw):
        raise Undecodable("not ascii")
    return raw.decode("latin-1")


def mask_names(mask, table):
    out = []
    for v, n in table:
        if mask & v == v:
            out.append(n)
            mask &= ~v
    return out


def access_names(mask, which):
    g = GENERIC["registry" if which == "registry_access" else "fs"]
    for bit, m in zip((0x80000000, 0x40000000, 0x20000000, 0x10000000), g):
        if mask & bit:
            mask |= m
    names = mask_names(mask, MASKS[which])
    return ", ".join(names) if names else "None 0x%x" % mask


def ioctl_name(v):
    if v in IOCTLS:
        return IOCTLS[v]
    return "0x%x (Device:0x%x Function:%d Method: %d)" % (v, v >> 16, (v >> 2) & 0xfff, v & 3)


def sid_string(raw):
    if raw[0] != 1:
        return ""
    if len(raw) < 8:
        raise Unspecified("a SID without an authority")
    n = raw[1]
    if len(raw) != 8 + 4 * n:
        return ""
    return "-".join(["S", "1", str(int.from_bytes(raw[2:8], "big"))] +
                    [str(int.from_bytes(raw[8 + 4 * i:12 + 4 * i], "little")) for i in range(n)])


WRITE_CTL = {"FSCTL_OFFLOAD_WRITE", "FSCTL_MOVE_FILE", "FSCTL_DELETE_REPARSE_POINT", "FSCTL_WRITE_RAW_ENCRYPTED",
             "FSCTL_PIPE_TRANSCEIVE", "FSCTL_PIPE_INTERNAL_TRANSCEIVE"}
READ_CTL = {"FSCTL_OFFLOAD_READ", "FSCTL_GET_REPARSE_POINT", "FSCTL_READ_RAW_ENCRYPTED"}
WRITE_META_CTL = {"FSCTL_SET_COMPRESSION", "FSCTL_WRITE_PROPERTY_DATA", "FSCTL_SET_OBJECT_ID", "FSCTL_DELETE_OBJECT_ID",
                  "FSCTL_SET_REPARSE_POINT", "FSCTL_SET_SPARSE", "FSCTL_SET_ENCRYPTION", "FSCTL_CREATE_USN_JOURNAL",
                  "FSCTL_WRITE_USN_CLOSE_RECORD", "FSCTL_EXTEND_VOLUME", "FSCTL_DELETE_USN_JOURNAL"}
READ_META_CTL = {"FSCTL_QUERY_RETRIEVAL_POINTERS", "FSCTL_GET_COMPRESSION", "FSCTL_QUERY_FAT_BPB",
                 "FSCTL_FILESYSTEM_GET_STATISTICS", "FSCTL_GET_NTFS_VOLUME_DATA", "FSCTL_GET_NTFS_FILE_RECORD",
                 "FSCTL_GET_VOLUME_BITMAP", "FSCTL_GET_RETRIEVAL_POINTERS", "FSCTL_IS_VOLUME_DIRTY",
                 "FSCTL_READ_PROPERTY_DATA", "FSCTL_FIND_FILES_BY_SID", "FSCTL_GET_OBJECT_ID", "FSCTL_READ_USN_JOURNAL",
                 "FSCTL_SET_OBJECT_ID_EXTENDED", "FSCTL_CREATE_OR_GET_OBJECT_ID", "FSCTL_READ_FILE_USN_DATA",
                 "FSCTL_QUERY_USN_JOURNAL"}

# offset of the name length field and of the name inside one directory listing entry, by information class
DIR_LAYOUT = {1: (60, 64), 2: (60, 68), 3: (60, 94), 12: (8, 12), 37: (60, 104), 38: (60, 76)}


class RefEvent(object):
    FIELDS = ("proc", "tid", "cls", "operation", "date", "result", "duration", "stack", "category", "path", "details")

    def key(self):
        return tuple(getattr(self, f) for f in self.FIELDS)


class RefLog(object):
    """Decodes a whole file by absolute offsets."""

    def __init__(self, data):
        d = self.d = data
        self.cut_names = 0
        g = lambda f, o: struct.unpack_from(f, d, o)[0]
        self.is64 = g("<I", 8) != 0
        self.pv = 8 if self.is64 else 4
        self.computer = until_nul(d[0xc:0x2c])
        self.root = until_nul(d[0x2c:0x234])
        self.count = g("<I", 0x234)
        self.off_offsets, self.off_procs, self.off_strings = g("<Q", 0x248), g("<Q", 0x250), g("<Q", 0x258)
        self.version = struct.unpack_from("<IIII", d, 0x274)
        self.sp = until_nul(d[0x284:0x2b6])
        self.ncpu, self.ram = g("<I", 0x38c), g("<Q", 0x390)
        self.off_hosts = g("<Q", 0x3a0)
        if self.off_offsets <= self.off_procs < self.off_offsets + 5 * self.count:
            raise Undecodable("the offsets array is not large enough")
        self.offsets = [g("<I", self.off_offsets + 5 * i) for i in range(self.count)]
        s = self.off_strings
        self.strings = []
        for i in range(g("<I", s)):
            o = s + g("<I", s + 4 + 4 * i)
            n = g("<I", o)
            self.strings.append(self._sized(o + 4, n))
        p = self.off_procs
        n = g("<I", p)
        self.procs, self.proc_list = {}, []
        for i in range(n):
            idx, rec = self._proc(p + g("<I", p + 4 + 4 * n + 4 * i))
            if idx not in self.procs:
                self.proc_list.append(idx)
            self.procs[idx] = rec
        o = self.off_hosts
        self.hosts, self.ports = {}, {}
        n = g("<I", o)
        o += 4
        for _ in range(n):
            ln = g("<I", o + 16)
            self.hosts[d[o:o + 16]] = self._sized(o + 20, ln)
            o += 20 + ln
        n = g("<I", o)
        o += 4
        for _ in range(n):
            ln = g("<I", o + 4)
            self.ports[(g("<H", o), g("<H", o + 2) != 0)] = self._sized(o + 8, ln)
            o += 8 + ln

    def _sized(self, o, n):
        if o + n > len(self.d):
            raise Undecodable("a string beyond the file")
        return until_nul(self.d[o:o + n])

    def _proc(self, o):
        d = self.d
        idx, pid, ppid = struct.unpack_from("<III", d, o)
        auth, session = struct.unpack_from("<QI", d, o + 0x10)
        start, end, virt, is64 = struct.unpack_from("<QQII", d, o + 0x20)
        ss = struct.unpack_from("<8I", d, o + 0x38)
        nm = struct.unpack_from("<I", d, o + 0x60 + self.pv)[0]
        o += 0x64 + self.pv
        mods = []
        for _ in range(nm):
            base = struct.unpack_from("<Q" if self.is64 else "<I", d, o + self.pv)[0]
            size, path, ver, comp, desc, ts = struct.unpack_from("<6I", d, o + 2 * self.pv)
            S = self.strings
            mods.append((base, size, S[path], S[ver], S[comp], S[desc], ts))
            o += 2 * self.pv + 24 + 24
        S = [self.strings[x] for x in ss]
        return idx, dict(pid=pid, parent_pid=ppid, authentication_id=auth, session=session, virtualized=virt,
                         is_process_64bit=is64 != 0, integrity=S[0], user=S[1], process_name=S[2], image_path=S[3],
                         command_line=S[4], company=S[5], version=S[6], description=S[7], start_time=start,
                         end_time=end, modules=mods)

    def system_details(self):
        names = {(6, 0): "Windows Vista", (6, 1): "Windows 7", (6, 2): "Windows 8", (6, 3): "Windows 8.1",
                 (10, 0): "Windows 10"}
        name = names[self.version[:2]] + (", " + self.sp if self.sp else "")
        return {"Computer Name": self.computer, "System Root": self.root, "Logical Processors": self.ncpu,
                "Operating System": "%s (build %d.%d)" % (name, self.version[2], self.version[3]),
                "Memory (RAM)": "%s GB" % _two_decimals(self.ram), "System Type": "64-bit" if self.is64 else "32-bit"}

    # ---- events
    def event(self, i):
        return self.event_at(self.offsets[i])

    def event_at(self, o):
        d = self.d
        proc, tid, cls, op = struct.unpack_from("<IIIH", d, o)
        dur, date, result, depth = struct.unpack_from("<QQIH", d, o + 0x14)
        dsize, xoff = struct.unpack_from("<II", d, o + 0x2c)
        e = RefEvent()
        e.proc, e.tid, e.cls, e.duration, e.date, e.result = proc, tid, cls, dur, date, result
        if proc not in self.procs or cls not in OPS or op not in OPS[cls]:
            raise Undecodable("unknown process, class or operation")
        e.operation = OPS[cls][op]
        f = "Q" if self.is64 else "I"
        e.stack = list(struct.unpack_from("<%d%s" % (depth, f), d, o + 0x34))
        do = o + 0x34 + depth * self.pv
        detail = d[do:do + dsize]
        if len(detail) != dsize:
            raise Undecodable("short details")
        extra = None
        if xoff:
            if xoff < 0x34 + depth * self.pv + dsize:
                raise Undecodable("extra data inside the event")
            if o + xoff + 2 > len(d):
                raise Undecodable("extra data beyond the file")
            n = struct.unpack_from("<H", d, o + xoff)[0]
            extra = d[o + xoff + 2:o + xoff + 2 + n]
            if len(extra) != n:
                raise Undecodable("short extra")
        e.category, e.path, det = "", "", []
        c = Cur(detail)
        if cls == PROCESS:
            self._process(e, c, det)
        elif cls == REGISTRY:
            self._registry(e, c, det, None if extra is None else Cur(extra))
        elif cls == FS:
            self._fs(e, c, det, None if extra is None else Cur(extra))
        elif cls == NETWORK:
            self._network(e, c, det)
        e.details = dedup(det)
        return e

    def _network(self, e, c, det):
        fl = c.u16()
        tcp = bool(fl & 4)
        e.operation = ("TCP " if tcp else "UDP ") + e.operation
        c.skip(2)
        det.append(("Length", c.u32()))
        src, dst = c.take(16), c.take(16)
        sp, dp = c.u16(), c.u16()
        e.path = "%s:%s -> %s:%s" % (self._host(src, fl & 1), self._port(sp, tcp), self._host(dst, fl & 2),
                                     self._port(dp, tcp))
        ws = multi_sz(c.rest())
        for k in range(0, len(ws) - 1, 2):
            det.append((ws[k], ws[k + 1]))

    def _host(self, ip, v4):
        n = self.hosts.get(ip, "")
        if n:
            return n
        if v4:
            return "%d.%d.%d.%d" % tuple(ip[:4])
        return ":".join("%x" % (ip[i] << 8 | ip[i + 1]) for i in range(0, 16, 2))

    def _port(self, p, tcp):
        return self.ports.get((p, tcp), "%d" % p)

    def _process(self, e, c, det):
        op = e.operation
        if op in ("Process_Defined", "Process_Create"):
            c.skip(4)
            pid = c.u32()
            c.skip(0x24)
            n1, n2 = c.u8(), c.u8()
            pi, ci = info(c), info(c)
            c.skip(2 + n1 + n2)
            e.path = detail_string(c, pi)
            det += [("PID", pid), ("Command line", detail_string(c, ci))]
        elif op in ("Process_Exit", "Process_Statistics"):
            st, kt, ut = c.u32(), c.u64(), c.u64()
            ws, pws, pb, ppb = c.u64(), c.u64(), c.u64(), c.u64()
            det += [("Exit Status", st), ("User Time", ut), ("Kernel Time", kt), ("Private Bytes", pb),
                    ("Peak Private Bytes", ppb), ("Working Set", ws), ("Peak Working Set", pws)]
        elif op == "Thread_Create":
            det.append(("Thread ID", c.u32()))
        elif op == "Thread_Exit":
            c.skip(4)
            kt, ut = c.u64(), c.u64()
            det += [("Thread ID", e.tid), ("User Time", ut), ("Kernel Time", kt)]
        elif op == "Load_Image":
            base = c.u64() if self.is64 else c.u32()
            size = c.u32()
            pi = info(c)
            c.skip(2)
            e.path = detail_string(c, pi)
            det += [("Image Base", base), ("Image Size", size)]
        elif op == "Process_Start":
            ppid = c.u32()
            ci, di = info(c), info(c)
            n = c.u32()
            det += [("Parent PID", ppid), ("Command line", detail_string(c, ci)),
                    ("Current directory", detail_string(c, di))]
            det.append(("Environment", multi_sz(c.take(n * 2), n * 2)))

    # ---- registry
    def _registry(self, e, c, det, x):
        op = e.operation
        pi = info(c)
        if op in ("RegLoadKey", "RegRenameKey"):
            ni = info(c)
            e.path = detail_string(c, pi)
            new = detail_string(c, ni)
            if op == "RegLoadKey":
                det.append(("Hive Path", new))
            else:
                e.category = "Write"
                det.append(("New Name", new))
        elif op in ("RegOpenKey", "RegCreateKey"):
            c.skip(2)
            acc = c.u32()
            e.path = detail_string(c, pi)
            e.category = "Read"
            if acc:
                nm = access_names(acc, "registry_access")
                det.append(("Desired Access", nm))
                if x is not None:
                    granted = x.u32()
                    if nm == "Maximum Allowed":
                        det.append(("Granted Access", access_names(granted, "registry_access")))
                    dv = x.u32()
                    if dv in REG_DISP:
                        det.append(("Disposition", REG_DISP[dv]))
                        if dv == 1:
                            e.category = "Write"
        elif op in ("RegQueryKey", "RegEnumKey"):
            c.skip(2)
            length = c.u32()
            index = c.u32() if op == "RegEnumKey" else None
            ic = c.u32()
            e.path = detail_string(c, pi)
            e.category = "Read"
            if op == "RegEnumKey":
                det.append(("Index", index))
            else:
                det.append(("Query", REG_KEY_INFO.get(ic, "<Unknown: %d>" % ic)))
            if x is None:
                det.append(("Length", length))
            else:
                self._key_info(ic, x, det)
        elif op in ("RegQueryValue", "RegEnumValue"):
            c.skip(2)
            length = c.u32()
            index = c.u32() if op == "RegEnumValue" else None
            ic = c.u32()
            e.path = detail_string(c, pi)
            e.category = "Read"
            if op == "RegEnumValue":
                det.append(("Index", index))
            if x is None:
                det.append(("Length", length))
            else:
                x.skip(4)
                ty = x.u32()
                tn = REG_TYPES.get(ty, "<Unknown: %d>" % ty)
                if ic == 1:
                    off, n, nn = x.u32(), x.u32(), x.u32()
                    det.append(("Name", sized_string(x, nn)))
                    det += [("Type", tn), ("Length", n)]
                    x.p = off
                elif ic == 2:
                    n = x.u32()
                    det += [("Type", tn), ("Length", n)]
                else:
                    det.append(("Type", tn))
                    n = 0
                if n:
                    det.append(("Data", reg_data(x.rest(), tn, n)))
        elif op == "RegSetInfoKey":
            c.skip(2)
            ic = c.u32()
            c.skip(4)
            n = c.u16()
            c.skip(2)
            e.path = detail_string(c, pi)
            e.category = "Write Metadata"
            det += [("KeySetInformationClass", REG_SET_INFO.get(ic, "<Unknown: %d>" % ic)), ("Length", n)]
            if n:
                if ic == 0:
                    det.append(("LastWriteTime", c.u64()))
                elif ic == 1:
                    det.append(("Wow64Flags", c.u32()))
                elif ic == 5:
                    det.append(("HandleTags", c.u32()))
        elif op == "RegSetValue":
            c.skip(2)
            ty, n, dn = c.u32(), c.u32(), c.u32()
            e.path = detail_string(c, pi)
            e.category = "Write"
            tn = REG_TYPES.get(ty, "<Unknown: %d>" % ty)
            det += [("Type", tn), ("Length", n)]
            n = min(n, dn)
            if n and ty in REG_TYPES:
                det.append(("Data", reg_data(c.rest(), tn, n)))
        else:
            e.path = detail_string(c, pi)
            e.category = {"RegDeleteKey": "Write", "RegDeleteValue": "Write", "RegQueryMultipleValueKey": "Read",
                          "RegSetKeySecurity": "Write Metadata", "RegQueryKeySecurity": "Read Metadata"}.get(op, "")

    @staticmethod
    def _key_info(ic, x, det):
        kind = REG_KEY_INFO.get(ic)
        if kind == "Name":
            det.append(("Name", sized_string(x, x.u32())))
        elif kind == "HandleTags":
            det.append(("HandleTags", x.u32()))
        elif kind == "Flags":
            det.append(("UserFlags", x.u32()))
        elif kind in ("Basic", "Node", "Full", "Cached"):
            det += [("LastWriteTime", x.u64()), ("TitleIndex", x.u32())]
            if kind == "Cached":
                for k in ("SubKeys", "MaxNameLen", "Values", "MaxValueNameLen", "MaxValueDataLen"):
                    det.append((k, x.u32()))
            if kind in ("Node", "Full"):
                det += [("ClassOffset", x.u32()), ("ClassLength", x.u32())]
            if kind == "Full":
                for k in ("SubKeys", "MaxNameLen", "MaxClassLen", "Values", "MaxValueNameLen", "MaxValueDataLen"):
                    det.append((k, x.u32()))
            if kind in ("Basic", "Node"):
                det.append(("Name", sized_string(x, x.u32())))

    # ---- file system
    def _fs(self, e, c, det, x):
        sub = c.u8()
        c.skip(3)
        opv = FSOP[e.operation]
        if sub and opv in FS_SUB:
            e.operation = FS_SUB[opv].get(sub, e.operation + " <Unknown>")
        dio = c.take(self.pv * 5 + 0x14)
        pi = info(c)
        c.skip(2)
        e.path = detail_string(c, pi)
        op = e.operation
        pad = self.pv - 4
        k = Cur(dio)
        if op in ("QueryIdInformation", "QueryRemoteProtocolInformation"):
            e.category = "Read Metadata"
        elif op == "QueryDirectory":
            self._directory(e, c, det, x, k, pad)
        elif op == "NotifyChangeDirectory":
            e.category = "Read Metadata"
            k.p = 0x10 + pad
            det.append(("Filter", ", ".join(mask_names(k.u32(), MASKS["notify"]))))
        elif op == "SetDispositionInformationFile":
            b = c.u8()
            det.append(("Delete", "True" if b else "False"))
            if b:
                e.category = "Write"
        elif op == "CreateFileMapping":
            k.p = 0xc
            sync, prot = k.u32(), k.u32()
            det.append(("SyncType", SYNC.get(sync, "Unknown: %#x" % sync)))
            for v in (2, 4, 8, 0x10, 0x20, 0x40):
                if prot & v:
                    det.append(("PageProtection", PAGE[v] + ("|PAGE_NOCACHE" if prot & 0x200 else "")))
                    break
        elif op == "CreateFile":
            self._create(e, c, det, x, k, pad)
        elif op in ("ReadFile", "WriteFile"):
            e.category = "Read" if op == "ReadFile" else "Write"
            k.p = 4
            fl = k.u32()
            k.p = 0xc
            length = k.u32()
            k.p = 0x10 + pad + 4 + pad
            off = k.s64()
            if x is not None:
                length = x.u32()
            det += [("Offset", off), ("Length", length)]
            if fl & 0xe000ff:
                det.append(("I/O Flags", ", ".join(mask_names(fl & 0xe000ff, MASKS["io_flags"]))))
            pr = fl >> 17 & 7
            if pr:
                det.append(("Priority", FS_PRIO.get(pr, "0x%x" % pr)))
        elif op in ("FileSystemControl", "DeviceIoControl"):
            k.p = 8
            wl, rl = k.u32(), k.u32()
            k.p = 0x10 + pad + 4 + pad
            nm = ioctl_name(k.u32())
            det.append(("Control", nm))
            e.category = "Read" if nm in READ_CTL else "Write" if nm in WRITE_CTL else \
                "Write Metadata" if nm in WRITE_META_CTL else "Read Metadata" if nm in READ_META_CTL else ""
            if op == "FileSystemControl":
                if nm == "FSCTL_PIPE_INTERNAL_WRITE":
                    det.append(("Length", wl))
                elif nm == "FSCTL_PIPE_INTERNAL_READ":
                    det.append(("Length", rl))
                elif nm in ("FSCTL_OFFLOAD_READ", "FSCTL_OFFLOAD_WRITE"):
                    det += [("Offset", c.s64()), ("Length", c.u64())]
                elif nm in ("FSCTL_PIPE_TRANSCEIVE", "FSCTL_PIPE_INTERNAL_TRANSCEIVE"):
                    det += [("WriteLength", wl), ("ReadLength", rl)]

    def _directory(self, e, c, det, x, k, pad):
        e.category = "Read Metadata"
        name = detail_string(c, info(c))
        if name:
            e.path += ("" if e.path.endswith("\\") else "\\") + name
            det.append(("Filter", name))
        k.p = 0x10 + pad + 4 + pad
        fic = k.u32()
        det.append(("FileInformationClass", FILE_INFO.get(fic, "<Unknown: %d>" % fic)))
        if x is None or fic not in DIR_LAYOUT:
            return
        at_len, at_name = DIR_LAYOUT[fic]
        o, i = 0, 1 if name else 0
        while True:
            x.p = o
            nxt = x.u32()
            x.p = o + at_len
            n = x.u32()
            x.p = o + at_name
            if x.p > len(x.d):
                raise Unspecified("an entry without its name")
            self.cut_names += x.p + n > len(x.d)  # Procmon keeps a bounded number of bytes: the last name may be cut
            det.append((str(i), sized_string(x, n)))
            i += 1
            if nxt == 0 or o + nxt > len(x.d):
                return
            o += nxt

    def _create(self, e, c, det, x, k, pad):
        det.append(("Desired Access", access_names(c.u32(), "fs_access")))
        n = c.u8()
        c.skip(3)
        k.p = 0x10 + pad
        do = k.u32()
        disp, opts = do >> 24, do & 0xffffff
        k.p += pad
        attrs, share = k.u16(), k.u16()
        k.p += 4 + 2 * self.pv
        alloc = k.u32()
        det.append(("Disposition", FS_DISP.get(disp, "<unknown>")))
        det.append(("Options", ", ".join(mask_names(opts, MASKS["create_options"]))))
        det.append(("Attributes", "".join(mask_names(attrs, MASKS["create_attributes"])) if attrs else "n/a"))
        det.append(("ShareMode", ", ".join(mask_names(share, MASKS["share_mode"])) if share else "None"))
        det.append(("AllocationSize", alloc if disp in (0, 2, 3, 5) else "n/a"))
        if n:
            det.append(("Impersonating", sid_string(c.take(n))))
        r = None
        if x is not None:
            r = x.u32()
            det.append(("OpenResult", FS_OPEN.get(r, "<unknown>")))
        if r in (0, 2, 3):
            e.category = "Write"
        elif r in (1, 4, 5):
            pass
        elif disp == 1 or disp not in FS_DISP:
            pass
        else:
            e.category = "Write"


def reg_data(raw, tn, n):
    if tn == "REG_DWORD":
        return int.from_bytes(raw[:4], "little") if len(raw) >= 4 else ""
    if tn == "REG_QWORD":
        return int.from_bytes(raw[:8], "little") if len(raw) >= 8 else ""
    if tn in ("REG_SZ", "REG_EXPAND_SZ"):
        return until_nul(raw)
    if tn == "REG_BINARY":
        return raw[:n]
    if tn == "REG_MULTI_SZ":
        return multi_sz(raw, n)
    return ""


def dedup(items):
    out = {}
    for k, v in items:
        out[k] = v
    return list(out.items())


def _two_decimals(ram):
    k = ram * 100 >> 30
    a, b = divmod(k, 100)
    t = "%d.%02d" % (a, b)
    return t[:-1] if t.endswith("0") else t


# ------------------------------------------------------------------------------------------------- CSV rendering
def civil(secs):
    """Gregorian date and time of day from seconds since 1970-01-01 (integer arithmetic only)."""
    days, sod = divmod(secs, 86400)
    z = days + 719468
    era, doe = divmod(z, 146097)
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + 3 if mp < 10 else mp - 9
    return yoe + era * 400 + (m <= 2), m, d, sod // 3600, sod // 60 % 60, sod % 60


def t_of_day(ft, ticks):
    y, m, d, H, M, S = civil((ft - FT_EPOCH) // 10000000)
    s = "%d:%02d:%02d" % (H % 12 or 12, M, S)
    if ticks:
        s += ".%07d" % (ft % 10000000)
    return s + (" AM" if H < 12 else " PM")


def t_date(ft, ticks=False):
    y, m, d = civil((ft - FT_EPOCH) // 10000000)[:3]
    return "%d/%d/%d %s" % (m, d, y, t_of_day(ft, ticks))


def t_duration(n):
    return "%d.%07d" % divmod(n, 10000000)


def t_relative(n):
    s, f = divmod(n, 10000000)
    return "%02d:%02d:%02d.%07d" % (s // 3600, s // 60 % 60, s % 60, f)


def result_name(r):
    return RESULTS.get(r, "0x%X" % r)


def csv_detail(e):
    """The Detail column for a decoded event."""
    if not e.details:
        return ""
    out = []
    d = dict(e.details)
    for k, v in e.details:
        if e.operation == "Load_Image" and k in ("Image Base", "Image Size"):
            v = "0x%x" % v
        elif e.operation == "Thread_Exit" and k in ("User Time", "Kernel Time"):
            v = t_duration(v)
        elif e.operation == "Process_Start" and k == "Environment":
            v = "\n;\t" + "\n;\t".join(v)
        elif e.cls == REGISTRY:
            if k in ("TitleIndex", "MaxNameLen", "MaxValueNameLen", "MaxValueDataLen", "ClassOffset", "ClassLength",
                     "MaxClassLen"):
                continue
            if k in ("Length", "SubKeys", "Values", "Index"):
                v = "{:,}".format(v)
            elif k in ("HandleTags", "UserFlags", "Wow64Flags"):
                v = "0x%x" % v
            elif k == "LastWriteTime":
                if e.operation != "RegSetInfoKey":
                    continue
                v = t_date(v)
            elif k == "Data":
                ty = d.get("Type")
                if ty == "REG_BINARY":
                    v = " ".join("%02X" % b for b in v)
                elif ty == "REG_QWORD":
                    v = ""
                elif ty == "REG_MULTI_SZ":
                    v = ", ".join(v)
                elif isinstance(v, str):
                    v = v.replace("\r\n", "\n;")
            elif k == "Name" and (e.operation == "RegQueryValue" or
                                  (e.operation == "RegQueryKey" and d["Query"] == "Name")):
                continue
        elif e.cls == FS and k in ("AllocationSize", "Offset", "Length") and isinstance(v, int):
            v = "{:,}".format(v)
        out.append("%s: %s" % (k, v))
    return ", ".join(out)


def csv_record(log, e, first=None):
    p = log.procs[e.proc]
    first = first if first else e.date
    rn = result_name(e.result)
    op = e.operation
    if "<Unknown>" in op:
        op = "<Unknown>"
    elif e.cls == PROCESS:
        op = op.replace("_", " ")
    a = p["authentication_id"]
    return {
        "Date & Time": t_date(e.date), "Process Name": p["process_name"], "PID": "%d" % p["pid"], "Operation": op,
        "Result": rn, "Detail": csv_detail(e), "Sequence": "n/a", "Company": p["company"],
        "Description": p["description"], "Command Line": p["command_line"], "User": p["user"],
        "Image Path": p["image_path"], "Session": "%d" % p["session"], "Path": e.path, "TID": "%d" % e.tid,
        "Relative Time": t_relative(e.date - first), "Duration": t_duration(e.duration) if rn else "",
        "Time of Day": t_of_day(e.date, True), "Version": p["version"],
        "Event Class": EVENT_CLASS[e.cls].replace("_", " "), "Authentication ID": "%08x:%08x" % (a >> 32, a & 0xffffffff),
        "Virtualized": {0: "False", 1: "True"}.get(p["virtualized"], "n/a"), "Integrity": p["integrity"],
        "Category": e.category, "Parent PID": "%d" % p["parent_pid"],
        "Architecture": "64-bit" if p["is_process_64bit"] else "32-bit",
        "Completion Time": t_of_day(e.date + e.duration, True) if rn else "",
    }
