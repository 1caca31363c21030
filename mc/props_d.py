"""Event decoding properties (details of each event class)."""
import struct

import pmlref as P
from engine import Scenario, Skip
from pmlcases import *  # noqa: F401,F403
from pmlcases import field, dstr, astr, ustr, nums, few, u32, u64, msz, words, fs_detail, reg_detail, sane_event, case, \
    ev_scenario, check_events, fixture_scenario, ALL_OPS, J2, J4, PATH0, pattern, describe

PROPS = {}


def prop(pid):
    def deco(f):
        PROPS[pid] = f
        return f
    return deco


def deep(tier):
    return tier == "thorough"


def pair(name, gen, tier, q=(1, 2), t=(2, 3)):
    """Two scenarios over the same structure: rich alphabets with few deviations, short ones with more."""
    a, b = t if deep(tier) else q
    return [ev_scenario(name + ", rich values", lambda c: gen(c, True), a),
            ev_scenario(name + ", combinations", lambda c: gen(c, False), b)]


# ------------------------------------------------------------------------------------------------ D01 network
IPS = [b"\x0a\0\0\1" + b"\0" * 12, bytes(range(16)), b"\0" * 16, b"\xff" * 16, b"\xc0\xa8\1\2" + b"\xA5" * 12,
       b"\x20\x01\x0d\xb8" + b"\0" * 11 + b"\1", b"\0" * 15 + b"\1", b"\0" * 10 + b"\xff\xff\x7f\0\0\1",
       b"\xfe\x80\0\0\0\0\0\0\x0a\0\x0b\0\x0c\0\x0d\0", b"\0\1" * 8, b"\x0a\0\0\1" + b"\1" * 12,
       # special ranges, none of them named: mapped, compatible, NAT64, 6to4, Teredo, link local, multicast, loopback
       b"\0" * 10 + b"\xff\xff\1\2\3\4", b"\0" * 12 + b"\1\2\3\4", bytes.fromhex("0064ff9b000000000000000001020304"),
       bytes.fromhex("20020102030400000000000000000001"), bytes.fromhex("2001000001020304050607080900fefd"),
       bytes.fromhex("fe80000000000000000000000000abcd"), bytes.fromhex("ff020000000000000000000000000001"),
       b"\x7f\0\0\1" + b"\0" * 12, b"\xe0\0\0\xfb" + b"\0" * 12, b"\xa9\xfe\1\1" + b"\0" * 12,
       bytes.fromhex("10000100001000010000000100100100"), bytes.fromhex("abcdef01000000000000000000000000")]
HOSTS = ((IPS[4], "host-four"), (IPS[5], "host.six"), (IPS[7], "aĀ\U0001d11e"), (IPS[9], ""), (IPS[10], "x" * 300))
PORTS = ((80, 1, "http"), (80, 0, "http-udp"), (443, 1, "https"), (53, 0, "domain"), (8080, 0xffff, "aĀ\U0001d11e"),
         (65535, 1, "p" * 200), (0, 0, "zero"))
PORT_VALUES = [50000, 80, 443, 53, 8080, 65535, 0, 1, 255, 256, 0x1234, 0x3412, 32768, 20480]


def net(c, rich):
    is64 = c.pick("is64", [1, 0])
    op = c.pick("op", sorted(P.OPS[5]))
    fl = c.pick("flags", list(range(8))) | c.dev("other flags", [0, 8, 0x10, 0x80, 0x100, 0x8000, 0xfff8])
    ips = IPS if rich else [IPS[k] for k in (0, 1, 4, 5, 9)]
    pv = PORT_VALUES if rich else [50000, 80, 53, 65535, 443]
    src, dst = c.dev("source ip", ips), c.dev("dest ip", ips)
    sp, dp = c.dev("source port", pv), c.dev("dest port", pv[1:] + pv[:1])
    n = field(c, "length", 32, 10, rich)
    ws = c.dev("extra", words(rich) + ([["Length", "999"], ["", "a"], ["startime", "1", "endtime", "2", "odd"]]
                                       if rich else []))
    tail = c.dev("terminator", [2, 1, 0, 3]) if ws else 1
    raw = msz(ws, tail) if ws else c.dev("no extra", [b"", b"\0\0", b"\0\0\0\0"])
    return case(P.Ev(5, op, struct.pack("<HHI", fl, 0xA5A5, n) + src + dst + struct.pack("<HH", sp, dp) + raw), is64,
                hosts=HOSTS, ports=PORTS)


def net_hosts(c):
    """Host tables of every small shape, each looked up."""
    n = c.pick("hosts", [0, 1, 2, 3])
    return [(IPS[c.pick("ip", [0, 4, 5])], c.pick("name", ["a", "", "Ā" * 130])) for _ in range(n)], [(80, 1, "http")]


def net_ports(c):
    """Port tables of every small shape, each looked up."""
    n = c.pick("ports", [0, 1, 2, 3])
    return [(IPS[4], "h")], [(c.pick("port", [80, 443]), c.pick("tcp", [0, 1, 2]), c.pick("name", ["http", "q" * 128]))
                             for _ in range(n)]


def chk_net_tables(batch, st):
    for i, (ch, (hs, ps)) in enumerate(batch):
        sub = [((), case(P.Ev(5, 3, struct.pack("<HHI", fl | (4 if tcp else 0), 0, 1) + ip + IPS[1] +
                              struct.pack("<HH", port, 443) + b"\0\0"), 1, hosts=hs, ports=ps))
               for ip, fl, tcp, port in NET_PROBES]
        st.seen_input((hs, ps))
        for _, msg in check_events(sub, st):
            yield i, "hosts %r ports %r: %s" % (hs, ps, msg)
            break


NET_PROBES = [(IPS[0], 0, 0, 80), (IPS[4], 1, 1, 80), (IPS[5], 0, 1, 443), (IPS[0], 1, 0, 443), (IPS[4], 0, 1, 81)]


@prop("D01")
def d01(tier):
    return pair("network", net, tier, (1, 2), (2, 3)) + [
        Scenario("host tables", net_hosts, chk_net_tables, batch=20),
        Scenario("port tables", net_ports, chk_net_tables, batch=20),
        fixture_scenario({5})], \
        ["port names are not empty; the trailing key/value list is a NUL separated UTF-16 list"], \
        "all 9 operations x 8 flag values x bitness x (1 rich / 2 short deviations quick; 2/3 thorough) over 11 " \
        "addresses, 14 ports, key/value lists; all host and port tables of up to 3 entries, repeated keys included"


# ------------------------------------------------------------------------------------------------ D02 process
def proc_ev(c, rich):
    is64 = c.pick("is64", [1, 0])
    name = c.pick("op", ["Process_Defined", "Process_Create", "Process_Exit", "Process_Statistics", "Thread_Create",
                         "Thread_Exit", "Load_Image", "Process_Start", "Thread_Profile", "System_Statistics"])
    op = P.PROCOP[name]
    tid = field(c, "tid", 32, 5, rich) if name.startswith("Thread") else 5
    if name in ("Process_Defined", "Process_Create"):
        pid = field(c, "pid", 32, 77, rich)
        n1, n2 = c.dev("size1", [12, 0, 1, 28, 127, 128, 255]), c.dev("size2", [28, 0, 1, 12, 127, 128, 255])
        p, q = dstr(c, "path", rich), dstr(c, "command line", rich, "cmd /c x")
        d = J4 + u32(pid) + b"\xA5" * 0x24 + struct.pack("<BBHHH", n1, n2, p[0], q[0], 0xA5A5) + b"\xA5" * (n1 + n2) + \
            p[1] + q[1]
    elif name in ("Process_Exit", "Process_Statistics"):
        d = u32(field(c, "status", 32, 0, rich)) + b"".join(
            u64(field(c, k, 64, 1000 + i, rich)) for i, k in enumerate(("kernel", "user", "ws", "pws", "pb", "ppb")))
    elif name == "Thread_Create":
        d = u32(field(c, "thread", 32, 9, rich))
    elif name == "Thread_Exit":
        d = J4 + u64(field(c, "kernel", 64, 3, rich), field(c, "user", 64, 4, rich))
    elif name == "Load_Image":
        b = field(c, "base", 64 if is64 else 32, 0x10000, rich)
        d = (u64(b) if is64 else u32(b)) + u32(field(c, "size", 32, 0x2000, rich))
        p = dstr(c, "path", rich)
        d += struct.pack("<HH", p[0], 0xA5A5) + p[1]
    elif name == "Process_Start":
        pp = field(c, "ppid", 32, 6, rich)
        p, q = dstr(c, "command line", rich, "cmd"), dstr(c, "directory", rich, "C:\\")
        ws = c.dev("environment", [["A=1", "B=2"]] + words(rich) + [["x=" + "y" * 3000, "z"], ["=C:=C:\\x", "P="],
                                   ["x=" + "y" * 40000, "z=" + "w" * 30000, "last=1"]])
        env = msz(ws, c.dev("terminator", [2, 1, 0, 3]) if ws else c.dev("empty", [0, 1, 2]))
        tail = c.dev("after", [b"", b"\0\0", b"Z\0Z\0"])
        d = u32(pp) + struct.pack("<HH", p[0], q[0]) + u32(len(env) // 2) + p[1] + q[1] + env + tail
    else:
        d = c.dev("details", [b"", b"\1\2\3", bytes(100)])
    return case(P.Ev(1, op, d, tid=tid), is64)


@prop("D02")
def d02(tier):
    return pair("process events", proc_ev, tier) + [fixture_scenario({1})], \
        ["ASCII strings hold 7-bit characters"], \
        "all 10 process/thread operations x bitness x 1 rich / 2 short deviations (quick), 2/3 (thorough) over all " \
        "fields at full width, string encodings and lengths up to 0x7fff"


# ------------------------------------------------------------------------------------------------ D03 registry keys
ACCESS = [0x20019, 0, 1, 0x2000000, 0x2020019, 0xf003f, 0x2001f, 0x20006, 0x80000000, 0x40000000, 0x20000000, 0x10000000,
          0x300, 0x100, 0x200, 0x400, 0x8000, 0x1000000, 0x20119, 0xffffffff, 0x4000000, 0xf013f]


def reg_open(c, rich):
    is64 = c.pick("is64", [1, 0])
    op = P.REGOP[c.pick("op", ["RegOpenKey", "RegCreateKey"])]
    acc = c.dev("access", ACCESS + (nums(32) if rich else []))
    p = dstr(c, "path", rich, "HKLM\\Software")
    x = None
    if c.pick("extra", [0, 1]):
        x = u32(c.dev("granted", ACCESS + (nums(32) if rich else []))) + \
            u32(c.dev("disposition", [2, 1, 0, 3, 0x80000000, 0xffffffff, 0x101, 0x10001])) + \
            c.dev("tail", [b"", b"\0" * 4, b"\xff" * 20])
    return case(P.Ev(2, op, reg_detail(p, J2 + u32(acc)), x), is64)


NAMES = ["Key", "", "a", "aĀ", "\U0001d11e", "k" * 255, "Ā" * 256, "x\0y"]


def cname(c, label, rich):
    s = c.dev(label, NAMES if rich else NAMES[:5])
    raw = P.w(s)
    return u32(len(raw)) + raw + c.dev("tail", [b"", b"\0\0", b"Q\0Q\0"])


def reg_key(c, rich):
    is64 = c.pick("is64", [1, 0])
    name = c.pick("op", ["RegQueryKey", "RegEnumKey"])
    ic = c.pick("class", list(range(0, 11)) + [12, 255, 0x10000, 0xffffffff, 0x100, 0x80000003])
    p = dstr(c, "path", rich, "HKLM\\Software")
    n = field(c, "length", 32, 512, rich)
    mid = J2 + u32(n)
    if name == "RegEnumKey":
        mid += u32(field(c, "index", 32, 3, rich))
    mid += u32(ic)
    x = None
    if c.pick("extra", [1, 0]):
        k = P.REG_KEY_INFO.get(ic)
        f = lambda label: u32(field(c, label, 32, len(label), rich))  # noqa: E731
        if k == "Name":
            x = cname(c, "name", rich)
        elif k in ("HandleTags", "Flags"):
            x = f("value") + c.dev("tail", [b"", b"\xA5" * 8])
        elif k in ("Basic", "Node", "Full", "Cached"):
            x = u64(field(c, "write time", 64, P.D0, rich)) + f("title index")
            inside = (22, 23, 24, 25, 26, 28, 30, 32, 44) if k != "Cached" else ()  # offsets and lengths near the name's
            x += b"".join(u32(field(c, "f%d" % i + "x" * i, 32, 2 + i, rich, inside if i < 2 else ()))
                          for i in range({"Basic": 0, "Node": 2, "Full": 8, "Cached": 5}[k]))
            if k in ("Basic", "Node"):
                x += cname(c, "name", rich)
            elif k == "Full":
                x += c.dev("class", [b"", P.w("cls")])
        else:
            x = c.dev("bytes", [b"\1\2\3\4", b"", b"\xff" * 64])
    return case(P.Ev(2, P.REGOP[name], reg_detail(p, mid), x), is64)


def reg_rest(c, rich):
    is64 = c.pick("is64", [1, 0])
    name = c.pick("op", ["RegCloseKey", "RegDeleteKey", "RegDeleteValue", "RegFlushKey", "RegLoadKey", "RegUnloadKey",
                         "RegRenameKey", "RegQueryMultipleValueKey", "RegSetKeySecurity", "RegQueryKeySecurity"])
    p = dstr(c, "path", rich, "HKLM\\Software")
    x = c.dev("extra", [None, b"", b"\1\0\0\0\2\0\0\0"])
    if name in ("RegLoadKey", "RegRenameKey"):
        q = dstr(c, "new name", rich, "NewName")
        d = reg_detail(p, struct.pack("<H", q[0]), q[1])
    else:
        d = reg_detail(p) + c.dev("tail", [b"", b"\xA5" * 6])
    return case(P.Ev(2, P.REGOP[name], d, x), is64)


def reg_setinfo(c, rich):
    is64 = c.pick("is64", [1, 0])
    ic = c.pick("class", [0, 1, 5, 2, 3, 4, 6, 255, 0x10000, 0x100, 0x50000, 0xffffffff])
    p = dstr(c, "path", rich, "HKLM\\Software")
    n = c.dev("length", [0, 1, 4, 8, 0xff, 0x100, 0x7fff, 0x8000, 0xffff])
    v = c.dev("value", [P.D0] + (nums(64) if rich else few(64)))
    if ic == 0 and not (P.FT_EPOCH <= v < P.FT_EPOCH + 2 ** 58):
        pass
    return case(P.Ev(2, P.REGOP["RegSetInfoKey"],
                     reg_detail(p, J2 + u32(ic) + J4 + struct.pack("<H", n) + J2, u64(v) + b"\xA5" * 4)), is64)


@prop("D03")
def d03(tier):
    return pair("open/create key", reg_open, tier) + pair("query/enumerate key", reg_key, tier) + \
        pair("other key operations", reg_rest, tier) + pair("set key information", reg_setinfo, tier) + \
        [fixture_scenario({2}, {"RegOpenKey", "RegCreateKey", "RegQueryKey", "RegEnumKey", "RegCloseKey", "RegSetInfoKey",
                                "RegDeleteKey", "RegDeleteValue", "RegFlushKey", "RegLoadKey", "RegUnloadKey",
                                "RegRenameKey", "RegQueryMultipleValueKey", "RegSetKeySecurity",
                                "RegQueryKeySecurity"})], \
        ["captured structures are at least as long as their fixed part"], \
        "all 14 key operations x bitness x every information class x with/without captured data x 1 rich / 2 short " \
        "deviations (quick), 2/3 (thorough)"


# ------------------------------------------------------------------------------------------------ D04 registry values
TYPES = sorted(P.REG_TYPES) + [12, 13, 255, 0x100, 0x10001, 0xffffffff]


def reg_payload(c, ty, rich):
    """Value bytes for a registry type."""
    tn = P.REG_TYPES.get(ty, "")
    if tn in ("REG_DWORD", "REG_QWORD"):
        n = 32 if tn == "REG_DWORD" else 64
        v = field(c, "data", n, 5, rich)
        size = c.dev("bytes", [n // 8, 8, 4, 5, 12, 3, 1, 0] if rich else [n // 8, 8, 3])
        return (struct.pack("<I" if n == 32 else "<Q", v) + b"\6\0\0\x80\7\0\0\0\x09")[:size]
    if tn in ("REG_SZ", "REG_EXPAND_SZ"):
        s = c.dev("text", ["text", "", "a", "aĀ", "\U0001d11e", "a\r\nb", "%PATH%", "x" * 255, "Ā" * 1024, "a\ud800", "a\nb", "a\rb",
                              "a\r\n\r\nb\r\n", "\r\n", "a\x85b\u2028c\x0bd\x1ce", " lead", "trail ", "\ttab\t", "a, b; c",
                              "a\n\rb", "\n;", "\ud800", "\udc00\ud800", "e\u0301\ufb01", "\0", "a\0b", "\"q\"", "a" + "\r\nb" * 20] if rich else ["text", "", "aĀ", "Ā" * 1024])
        return P.w(s) + c.dev("nul", [b"\0\0", b"", b"\0\0\0\0", b"\0\0Z\0", b"Z", b"\0", b"\0\0Z", b"\0\0\0\xd8"])
    if tn == "REG_MULTI_SZ":
        ws = c.dev("words", words(rich))
        return msz(ws, c.dev("nuls", [2, 1, 0, 3]) if ws else c.dev("empty", [1, 2, 0])) + \
            c.dev("tail", [b"", b"Z\0", b"Z\0\0\0Y\0"])
    return c.dev("bytes", [b"\1\2\3", b"", b"\0", bytes(range(256)), b"\xff" * 16, b"\0" * 1000, b"ab"]
                 if rich else [b"\1\2\3", b"", bytes(range(256))])


def reg_value(c, rich):
    is64 = c.pick("is64", [1, 0])
    name = c.pick("op", ["RegQueryValue", "RegEnumValue"])
    ic = c.pick("class", [2, 1, 0, 3, 4, 5, 6, 255, 0x10002, 0xffffffff])
    p = dstr(c, "path", rich, "HKLM\\Software\\Value")
    mid = J2 + u32(field(c, "length", 32, 144, rich))
    if name == "RegEnumValue":
        mid += u32(field(c, "index", 32, 2, rich))
    mid += u32(ic)
    x = None
    if c.pick("extra", [1, 0]):
        if ic in (1, 2):
            ty = c.pick("type", TYPES)
            raw = reg_payload(c, ty, rich)
            n = len(raw) + c.dev("longer than captured", [0, 1, 2, 100, -2, -4, -6] + [-1, -3] * (ty != 7))
            n = max(n, 0)
            if ic == 2:
                x = J4 + u32(ty, n) + raw
            else:
                s = P.w(c.dev("name", NAMES if rich else NAMES[:5]))
                gap = c.dev("gap", [0, 2, 4, 100])
                at = 20 + len(s) + gap
                at = c.dev("data at", [at, 20, 0, 8, 4, 12, 22, 19 + len(s)]) if ty != 7 else at
                x = J4 + u32(ty, at, n, len(s)) + s + b"\xA5" * gap + raw
        else:
            x = J4 + u32(c.pick("type", [1, 4, 12]), 4) + b"\1\0\0\0\2\0"
    return case(P.Ev(2, P.REGOP[name], reg_detail(p, mid), x), is64)


def reg_set(c, rich):
    is64 = c.pick("is64", [1, 0])
    ty = c.pick("type", TYPES)
    p = dstr(c, "path", rich, "HKLM\\Software\\Value")
    raw = reg_payload(c, ty, rich)
    n = max(0, len(raw) + c.dev("longer than captured", [0, 1, 2, 100, 70000, -2, -4, -6] + [-1, -3] * (ty != 7)))
    return case(P.Ev(2, P.REGOP["RegSetValue"], reg_detail(p, J2 + u32(ty, n, len(raw)), raw),
                     c.dev("extra", [None, b"\1\2\3\4\5\6\7\x08"])), is64)


@prop("D04")
def d04(tier):
    return pair("query/enumerate value", reg_value, tier) + pair("set value", reg_set, tier) + \
        [fixture_scenario({2}, {"RegQueryValue", "RegEnumValue", "RegSetValue"})], \
        ["the captured data has the captured length; multi-string lists end at their first empty string"], \
        "3 operations x 10 information classes x 18 value types x bitness x 1 rich / 2 short deviations (quick), 2/3 " \
        "(thorough) over paths, lengths, indexes, names, gaps and payload bytes"


# ------------------------------------------------------------------------------------------------ D05 files
def pad(is64):
    return 4 if is64 else 0


OPTS = [0, 1, 0x20, 0x40, 0x60, 0x200000, 0x10000, 0x20000, 0x800000, 0x100000, 0xffffff, 0x204060]
FACC = [0x120089, 0, 1, 0x80, 0x1f01ff, 0x1201bf, 0x12019f, 0x1200a9, 0x1201b6, 0x120116, 0x1200a0, 0x80000000, 0x40000000,
        0x20000000, 0x10000000, 0xc0000000, 0x2000000, 0x1000000, 0x100000, 0x40, 0xffffffff, 0x4000000]
SIDS = [b"", bytes([1, 5]) + b"\0\0\0\0\0\5" + u32(21, 1, 2, 3, 500), bytes([1, 1]) + b"\0\0\0\0\0\x05" + u32(18),
        bytes([1, 0]) + b"\1\2\3\4\5\6", bytes([2, 1]) + b"\0\0\0\0\0\5" + u32(18),
        bytes([1, 2]) + b"\0\0\0\0\0\5" + u32(18), bytes([1, 15]) + b"\xff" * 6 + u32(*range(0x80000000, 0x8000000f))]


def create(c, rich):
    is64 = c.pick("is64", [1, 0])
    disp = c.pick("disposition", [1, 0, 2, 3, 4, 5, 6, 7, 0x80, 0xff])
    res = (c.pick if rich else c.dev)("open result", [1, None, 0, 2, 3, 4, 5, 6, 0x80000000, 0x101, 0xffffffff])
    acc = c.dev("access", FACC + (nums(32) if rich else []))
    opts = c.dev("options", OPTS + (nums(16) if rich else []))
    attr = c.dev("attributes", nums(16, 0) if rich else few(16, 0, (0x80, 0x21)))
    share = c.dev("share", list(range(8)) + ([8, 0x8000, 0xffff, 0x107] if rich else []))
    alloc = field(c, "allocation", 32, 4096, rich)
    p = dstr(c, "path", rich)
    sid = c.dev("sid", SIDS if rich else SIDS[:3])
    q, v = pad(is64), 8 if is64 else 4
    b = 0x10 + q
    dio = [(b, u32(disp << 24 | opts)), (b + 4 + q, struct.pack("<HH", attr, share)), (b + 4 + q + 8 + 2 * v, u32(alloc))]
    return case(P.Ev(3, P.FSOP["CreateFile"],
                     fs_detail(is64, c.dev("sub", [0, 1, 255]), p, dio, u32(acc) + bytes([len(sid)]) + b"\xA5" * 3 + sid),
                     None if res is None else u32(res) + c.dev("tail", [b"", b"\xA5" * 4])), is64)


def rw(c, rich):
    is64 = c.pick("is64", [1, 0])
    op = c.pick("op", ["ReadFile", "WriteFile"])
    fl = c.dev("flags", [0, 0x10, 1, 2, 4, 0x40, 0x400000, 0x53, 0x20000, 0x40000, 0x60000, 0x80000, 0xa0000, 0xc0000,
                         0xe0000, 0x100000, 0x8, 0x20, 0x80, 0x200000, 0x800000, 0x600000, 0xffffffff, 0x100, 0x10000,
                         0x60043, 0x1000000] + (nums(32) if rich else []))
    n = field(c, "length", 32, 4096, rich)
    off = field(c, "offset", 64, 0, rich)
    p = dstr(c, "path", rich)
    q = pad(is64)
    dio = [(4, u32(fl)), (12, u32(n)), (0x14 + 2 * q, u64(off))]
    x = c.pick("extra", [0, 1])
    return case(P.Ev(3, P.FSOP[op], fs_detail(is64, c.dev("sub", [0, 1, 7]), p, dio),
                     u32(field(c, "extra length", 32, 100, rich)) + c.dev("tail", [b"", b"\xA5" * 4]) if x else None),
                is64)


def mapping(c, rich):
    is64 = c.pick("is64", [1, 0])
    sync = c.pick("sync", [0, 1, 2, 0x101, 0x80000000, 0xffffffff, 0x10000])
    prot = c.dev("protection", [2] + list(range(0, 256)) + [0x200 | k for k in (0, 1, 2, 4, 8, 16, 32, 64, 66, 128, 255)] +
                 [0x100, 0x400, 0x402, 0xffffffff, 0x1000002])
    p = dstr(c, "path", rich)
    return case(P.Ev(3, P.FSOP["CreateFileMapping"], fs_detail(is64, c.dev("sub", [0, 1, 3]), p,
                                                              [(12, u32(sync, prot))]),
                     c.dev("extra", [None, b"\1\2\3\4"])), is64)


def disposition(c, rich):
    is64 = c.pick("is64", [1, 0])
    subs = P.FS_SUB[P.FSOP["SetInformationFile"]]
    sub = [k for k, v in subs.items() if v == "SetDispositionInformationFile"][0]
    p = dstr(c, "path", rich)
    b = c.pick("delete", [0, 1, 2, 0x80, 0xff])
    return case(P.Ev(3, P.FSOP["SetInformationFile"], fs_detail(is64, sub, p, b"", bytes([b]) + b"\xA5" * 3 +
                                                               c.dev("tail", [b"", b"\1\1"])),
                     c.dev("extra", [None, b"\1\2\3\4"])), is64)


def fs_other(c, rich):
    is64 = c.pick("is64", [1, 0])
    op = c.pick("op", [k for k in sorted(P.OPS[3]) if P.OPS[3][k] not in ("FileSystemControl", "DeviceIoControl",
                                                                          "CreateFile")])
    if P.FSOP["DirectoryControl"] == op:
        raise Skip()
    p = dstr(c, "path", rich)
    return case(P.Ev(3, op, fs_detail(is64, 0, p, b"", c.dev("tail", [b"", b"\xA5" * 16]), c.dev("block", [0, 0xff]) * 0),
                     c.dev("extra", [None, b"\1\2\3\4"])), is64)


@prop("D05")
def d05(tier):
    return pair("create file", create, tier, (1, 2), (2, 3)) + pair("read/write file", rw, tier) + \
        pair("file mapping", mapping, tier) + pair("delete disposition", disposition, tier) + \
        pair("operations without details", fs_other, tier) + \
        [fixture_scenario({3}, {"CreateFile", "ReadFile", "WriteFile", "CreateFileMapping", "CloseFile",
                                "SetDispositionInformationFile"})], \
        ["security identifiers are complete"], \
        "create: 10 dispositions x 11 open results x bitness x deviations over access, options, attributes, share, " \
        "allocation, path, identifier; read/write/mapping/disposition and every other operation likewise (1 rich / 2 " \
        "short deviations quick, 2/3 thorough)"


# ------------------------------------------------------------------------------------------------ D06 directories
DIRSUB = {v: k for k, v in P.FS_SUB[P.FSOP["DirectoryControl"]].items()}


def entry(cls, name, nxt, index=0, filler=0xA5):
    """One directory listing entry; nxt None means last."""
    at_len, at_name = P.DIR_LAYOUT[cls]
    raw = P.w(name)
    b = bytearray([filler]) * at_name
    b[4:8] = u32(index)
    b[at_len:at_len + 4] = u32(len(raw))
    b += raw
    if nxt is None:
        b[0:4] = u32(0)
    else:
        size = (len(b) + nxt - 1) // nxt * nxt if nxt > 0 else len(b)
        b += bytes([filler]) * (size - len(b))
        b[0:4] = u32(size)
    return bytes(b)


FILES = [".", "..", "a", "aĀ", "file.txt", "\U0001d11e", "n" * 255, "Ā" * 200, "", "x y", "a\\b", "ÿ"]


def listing(c, rich):
    is64 = c.pick("is64", [1, 0])
    cls = c.pick("class", [1, 2, 3, 12, 37, 38])
    path = c.dev("path", [astr("C:\\dir"), astr("C:\\dir\\"), ustr("C:\\dirĀ"), ustr("C:\\"), astr(""), ustr(""),
                          astr("\\"), astr("\\\\s\\sh\\")])
    flt = c.pick("filter", [ustr(""), astr("*.txt"), ustr("aĀ"), astr("")])
    n = c.pick("entries", [1, 2, 3, 5, 40] if rich else [1, 2, 3])
    align = c.dev("alignment", [8, 4, 2, 16, 1024])
    files = FILES if rich else FILES[:4]
    out = b""
    for i in range(n):
        name = c.dev("name%d" % i, files) if i < 3 else FILES[i % len(FILES)]
        out += entry(cls, name, None if i == n - 1 else align, i * 7, c.dev("filler", [0xA5, 0]) if i == 0 else 0xA5)
    out += c.dev("tail", [b"", b"\0\0", b"\xA5" * 100])
    return dirq(is64, path, flt, cls, out)


def dirq(is64, path, flt, cls, extra):
    return case(P.Ev(3, P.FSOP["DirectoryControl"],
                     fs_detail(is64, DIRSUB["QueryDirectory"], path, [(0x14 + 2 * pad(is64), u32(cls))],
                               struct.pack("<H", flt[0]) + flt[1]), extra), is64)


def dir_class(c):
    is64 = c.pick("is64", [1, 0])
    cls = c.pick("class", sorted(P.FILE_INFO) + [200, 255, 0x101, 0x10001, 0x80000001, 0xffffffff])
    x = c.pick("extra", [None, 0])
    if x == 0:
        x = entry(cls, "f", None) if cls in P.DIR_LAYOUT else b"\0" * 120
    return dirq(is64, c.pick("path", [astr("C:\\dir"), astr("C:\\")]), c.pick("filter", [ustr(""), astr("*")]), cls, x)


def dir_strings(c):
    is64 = c.pick("is64", [1, 0])
    return dirq(is64, dstr(c, "path"), dstr(c, "filter", True, "*.dll"), 12, c.pick("extra", [None, entry(12, "f", None)]))


def ioctl(c, rich):
    is64 = c.pick("is64", [1, 0])
    op = c.pick("op", ["FileSystemControl", "DeviceIoControl"])
    code = c.pick("code", sorted(P.IOCTLS) + [0, 1, 0x90000 + 0x3ffc, 0xffffffff, 0x80000000, 0x12345678, 0x9c0c1])
    wl = c.dev("write length", [11, 0, 0xffffffff, 0x81929394, 1 << 16])
    rl = c.dev("read length", [22, 0, 0xffffffff, 0x81929394, 1 << 16])
    off = c.dev("offset", [33, 0, 1 << 63, (1 << 64) - 1, 1 << 32])
    ln = c.dev("length", [44, 0, 1 << 63, (1 << 64) - 1, 1 << 32])
    p = dstr(c, "path", False)
    q = pad(is64)
    return case(P.Ev(3, P.FSOP[op], fs_detail(is64, c.dev("sub", [0, 1, 4]), p, [(8, u32(wl, rl)), (0x14 + 2 * q, u32(code))],
                                             u64(off, ln)), c.dev("extra", [None, b"\1\2\3\4"])), is64)


def notify(c, rich):
    is64 = c.pick("is64", [1, 0])
    mask = c.dev("mask", [0x11, 0, 3, 0xfff, 0xffffffff] + (list(range(1, 4096, 37)) + nums(32) if rich else []))
    p = dstr(c, "path", rich)
    return case(P.Ev(3, P.FSOP["DirectoryControl"], fs_detail(is64, DIRSUB["NotifyChangeDirectory"], p,
                                                            [(0x10 + pad(is64), u32(mask))], b"\xA5" * 4),
                     c.dev("extra", [None, b"\1\2\3\4"])), is64)


@prop("D06")
def d06(tier):
    return pair("directory listing", listing, tier, (1, 2), (2, 3)) + [
        ev_scenario("information classes", dir_class, None),
        ev_scenario("path and filter strings", dir_strings, 2 if deep(tier) else 1)] + \
        pair("control codes", ioctl, tier, (1, 1), (1, 2)) + pair("change notification", notify, tier) + \
        [fixture_scenario({3}, {"QueryDirectory", "NotifyChangeDirectory", "FileSystemControl", "DeviceIoControl"})], \
        ["listing entries are complete"], \
        "6 listing layouts x up to 40 entries x filters x alignments; every information class code; all 287 known and 7 " \
        "unknown control codes x 2 operations x bitness x deviations of lengths and offsets; notification masks"


# ------------------------------------------------------------------------------------------------ D07 names
def op_names(c):
    is64 = c.pick("is64", [1, 0])
    cls, op = c.pick("op", ALL_OPS)
    d, x = sane_event(cls, op, is64)
    return case(P.Ev(cls, op, d, x), is64)


def sub_names(c):
    is64 = c.pick("is64", [1, 0])
    op = c.pick("op", sorted(P.OPS[3]))
    sub = c.pick("sub", list(range(256)))
    d, x = sane_event(3, op, is64, sub)
    if op == P.FSOP["DirectoryControl"]:
        x = c.pick("extra", [None, entry(12, "f", None)])
        d = fs_detail(is64, sub, PATH0, [(0x14 + 2 * pad(is64), u32(12)), (0x10 + pad(is64), u32(12))], b"\0\0")
        if sub == DIRSUB["NotifyChangeDirectory"]:
            x = None
    return case(P.Ev(3, op, d, x), is64)


@prop("D07")
def d07(tier):
    def unknown_reg(c):
        return reg_key(c, False)

    def unknown_val(c):
        return reg_value(c, False)
    return [ev_scenario("operation codes", op_names, None), ev_scenario("sub operation codes", sub_names, None),
            ev_scenario("directory information classes", dir_class, None),
            ev_scenario("key information classes", unknown_reg, 0), ev_scenario("value information classes", unknown_val, 0),
            ev_scenario("set information classes", lambda c: reg_setinfo(c, False), 1),
            fixture_scenario({3})], [], \
        "every operation of every class; all 256 sub operation codes of every file system operation; every defined and " \
        "several undefined codes of each enumerated detail, x bitness"


# ------------------------------------------------------------------------------------------------ D08 masks
def masks(which, bits, fixed=()):
    def gen(c):
        m = 0
        for b in bits:
            m |= c.pick("bit", [0, b])
        return mask_case(which, m, c)
    return gen


def mask_case(which, m, c):
    is64 = 1
    if which == "registry access":
        return case(P.Ev(2, P.REGOP["RegOpenKey"], reg_detail(PATH0, J2 + u32(m))), is64)
    if which == "registry granted":
        return case(P.Ev(2, P.REGOP["RegCreateKey"], reg_detail(PATH0, J2 + u32(0x2000000)), u32(m, 2)), is64)
    q = 4
    if which in ("file access", "options", "attributes", "share"):
        v = {"file access": 0x120089, "options": 0, "attributes": 0, "share": 0}
        v[which] = m
        dio = [(0x14, u32(1 << 24 | v["options"])), (0x14 + 8, struct.pack("<HH", v["attributes"], v["share"]))]
        return case(P.Ev(3, P.FSOP["CreateFile"], fs_detail(is64, 0, PATH0, dio, u32(v["file access"]) + b"\0\0\0\0")), is64)
    if which == "io flags":
        return case(P.Ev(3, P.FSOP["ReadFile"], fs_detail(is64, 0, PATH0, [(4, u32(m))])), is64)
    if which == "notify":
        return case(P.Ev(3, P.FSOP["DirectoryControl"],
                         fs_detail(is64, DIRSUB["NotifyChangeDirectory"], PATH0, [(0x14, u32(m))])), is64)
    return case(P.Ev(3, P.FSOP["CreateFileMapping"], fs_detail(is64, 0, PATH0, [(12, u32(1, m))])), is64)


def few_bits(which, width):
    """Every word of the flag field's width that differs from none or all bits set in a few bits only."""
    def gen(c):
        m = c.pick("base", [0, (1 << width) - 1])
        for k in range(width):
            m ^= c.dev("bit %d" % k, [0, 1 << k])
        return mask_case(which, m, c)
    return gen


@prop("D08")
def d08(tier):
    out = []
    low_reg = [1, 2, 4, 8, 0x10, 0x20, 0x100, 0x200, 0x20000]
    high_reg = [0x10000, 0x20000, 0x40000, 0x80000, 0x100000, 0x1000000, 0x2000000, 0x80000000, 0x40000000, 0x20000000,
                0x10000000]
    low_fs = [1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0x100, 0x20000, 0x100000]
    full = deep(tier)
    for which, sets in (
            ("registry access", [low_reg + high_reg[:1] + ([4 << 8] if full else []), high_reg + [1]]),
            ("registry granted", [low_reg, high_reg]),
            ("file access", [low_fs, [0x10000, 0x20000, 0x40000, 0x80000, 0x100000, 0x1000000, 0x2000000, 0x80000000,
                                      0x40000000, 0x20000000, 0x10000000]]),
            ("options", [[1 << k for k in range(12)], [1 << k for k in range(12, 24)]]),
            ("attributes", [[1 << k for k in range(16 if full else 14)], [1 << k for k in (0, 1, 4, 5, 6, 13, 14, 15)]]),
            ("share", [[1, 2, 4, 8, 0x8000]]),
            ("io flags", [[1 << k for k in range(8)] + [1 << k for k in range(17, 22)], [1 << k for k in range(12, 24)]]),
            ("notify", [[1 << k for k in range(13)]]),
            ("mapping", [[1 << k for k in range(11)]])):
        for k, bits in enumerate(sets):
            out.append(ev_scenario("%s, subset %d" % (which, k), masks(which, bits), None))
    for which, width in (("registry access", 32), ("registry granted", 32), ("file access", 32), ("options", 24),
                         ("attributes", 16), ("share", 16), ("io flags", 32), ("notify", 32), ("mapping", 32)):
        out.append(ev_scenario("%s, a few bits" % which, few_bits(which, width), 3 if full else 2))
    if full:
        out.append(ev_scenario("registry access, all bits", masks("registry access", sorted(set(low_reg + high_reg))),
                               None))
        out.append(ev_scenario("file access, all bits",
                               masks("file access", [1 << k for k in range(9)] + high_reg), None))
        out.append(ev_scenario("options, all bits", masks("options", [1 << k for k in range(20)]), None))
    return out, [], "every subset of the named bits of each flag word, in one or two overlapping halves for the widest " \
        "words (quick) / all bits together (thorough); every word of the full width within 2 (quick) / 3 (thorough) bits of " \
        "none and of all"


# ------------------------------------------------------------------------------------------------ D09 strings
def all_strings(c):
    """Every place a detail string can appear, every length up to 300 and the extremes, both encodings."""
    is64 = c.pick("is64", [1, 0])
    kind = c.pick("place", ["create", "load", "start", "registry", "rename", "file", "filter"])
    n = c.pick("length", list(range(0, 301)) + [511, 512, 513, 1023, 1024, 4095, 4096, 0x3fff, 0x4000, 0x7ffe, 0x7fff])
    enc = c.pick("encoding", ["ascii", "utf16", "utf16 wide"])
    s = pattern(n) if enc != "utf16 wide" else ("Āa" * n)[:n]
    p = astr(s) if enc == "ascii" else ustr(s)
    return place(kind, is64, p)


def place(kind, is64, p, after=None):
    o = after or (astr("tail") if p[0] & 0x8000 == 0 else ustr("tĀil"))
    if kind == "create":
        d = J4 + u32(1) + b"\xA5" * 0x24 + struct.pack("<BBHHH", 1, 2, p[0], o[0], 0) + b"\xA5" * 3 + p[1] + o[1]
        return case(P.Ev(1, 1, d), is64)
    if kind == "load":
        return case(P.Ev(1, 5, (u64(1) if is64 else u32(1)) + u32(2) + struct.pack("<HH", p[0], 0) + p[1]), is64)
    if kind == "start":
        env = msz(["A=1"])
        return case(P.Ev(1, P.PROCOP["Process_Start"], u32(1) + struct.pack("<HH", p[0], o[0]) + u32(len(env) // 2) + p[1] +
                         o[1] + env), is64)
    if kind == "registry":
        return case(P.Ev(2, P.REGOP["RegSetValue"], reg_detail(p, J2 + u32(4, 4, 4), u32(7))), is64)
    if kind == "rename":
        return case(P.Ev(2, P.REGOP["RegRenameKey"], reg_detail(p, struct.pack("<H", o[0]), o[1])), is64)
    if kind == "file":
        return case(P.Ev(3, P.FSOP["CreateFile"], fs_detail(is64, 0, p, b"", u32(0x80) + b"\0\0\0\0", 0)), is64)
    return dirq(is64, o, p, 12, None)


def chars(c):
    kind = c.pick("place", ["create", "registry", "file", "filter", "load", "start"])
    pos = c.pick("position", [0, 1, 2, 4, "alone"])
    ch = c.pick("char", [chr(k) for k in range(1, 256)] + ["\u0100", "\u0200", "\u0a00", "\u2028", "\u3042", "\ud800",
                                                          "\udfff", "\ufeff", "\ufffe", "\uffff", "\U00010000",
                                                          "\U0010ffff", "\u7fff", "\u8000", "\uff00"])
    s = ch if pos == "alone" else "abcd"[:pos] + ch + "abcd"[pos:]
    encs = [ustr(s)] + ([astr(s)] if ord(ch) < 128 else [])
    return place(kind, 1, c.pick("encoding", encs))


# Texts which a reader could take for something else, or tidy up
TRICKY = ["", " ", "  ", " a", "a ", "a  b", " a b ", "a\t", "\ta", "a\n", "a\r\n", "\na", "a\r", "\x0b", "\x0c", "\x1f", "\x7f", "\\", "a\\",
          "a\\\\", "\\\\srv\\share\\", "C:", "C:\\", "C:\\a\\", "c:\\A", "C:/a/b", "\\??\\C:\\a", "\\Device\\HarddiskVolume2\\a", "\\SystemRoot\\a",
          "%SystemRoot%\\a", "\\REGISTRY\\MACHINE\\a", "\\Registry\\User\\a", "HKLM\\a", "hklm", "HKLM\\a\\(Default)", "a\\", "a\\.", "a\\..\\b",
          "a.", ".", "..", "...", "*", "?", "a:b", "a::$DATA", '"', '"a"', "'a'", "a,b", "a, b", ",", "=", "a=b", "=C:=a", "0", "00", "-1", "1e3", "0x10",
          "None", "null", "True", "nan", "%s", "%d", "{}", "{0}", "\\x41", "\\u0041", "&amp;", "<a>", "#", ";", "~", "a~1", "A" * 260, "a\\" * 130,
          "aA", "AA", "ABC", "n/a", "<Unknown>", "Unknown", "$Mft", "pagefile.sys"]
WIDE = ["\ufeff", "\ufeffa", "a\ufeff", "\ufffea", "\ufffd", "a\u00a0", "\u00a0", "\u3000a\u3000", "\u2028", "a\u0085", "e\u0301", "\u00e9", "\u212b", "\uff21",
        "\u0130", "\u00df", "\ufb01", "\u202ea", "\u200da", "\U0001d11e", "\U0001d11e\U0001d11e", "a\U0010ffff", "\ue000", "\u0a0d", "\u0d0a", "\u0020\u2000",
        "\u4100", "\u0041\u4100", "\uff00\u00ff"]
SUBS = {"DirectoryControl": [0, 1, 2]}
PATH_OPS = [(cls, op, sub) for cls, op in ALL_OPS for sub in SUBS.get(P.OPS[cls][op], [0])
            if sane_event(cls, op, 1, sub, astr("a"))[0] != sane_event(cls, op, 1, sub, astr("bcd"))[0]]


def tricky(c):
    """Every operation whose record holds a path, with every text that could be tidied up."""
    cls, op, sub = c.pick("operation", PATH_OPS)
    is64 = c.pick("is64", [1, 0])
    s = c.pick("text", TRICKY + WIDE)
    enc = c.pick("encoding", ["ascii", "utf16"])
    if enc == "ascii" and not s.isascii():
        raise Skip()
    p = astr(s) if enc == "ascii" else ustr(s)
    return case(P.Ev(cls, op, *sane_event(cls, op, is64, sub, p)), is64)


def ends(c):
    """NUL characters in the string and after it, and half characters: the string is cut where the model cuts it."""
    cls, op, sub = c.pick("operation", PATH_OPS)
    is64 = c.pick("is64", [1, 0])
    s = c.pick("start", ["", "a", "ab ", "\\"]) + c.pick("middle", ["\0", "\0\0", "\0\0\0", "\1"]) + c.pick("rest", ["", "a", " ", "\0", "b\0c"])
    p = (astr if c.pick("encoding", ["ascii", "utf16"]) == "ascii" else ustr)(s)
    return case(P.Ev(cls, op, *sane_event(cls, op, is64, sub, p)), is64)


def second(c):
    """The second string of the structures that have one, with every text that could be tidied up."""
    kind = c.pick("place", ["create", "start", "rename", "filter"])
    is64 = c.pick("is64", [1, 0])
    s = c.pick("text", TRICKY + WIDE)
    first = c.pick("first", [astr("C:\\a b"), ustr("HKLM\\\u0100"), astr(""), ustr("")])
    enc = c.pick("encoding", ["ascii", "utf16"])
    if enc == "ascii" and not s.isascii():
        raise Skip()
    return place(kind, is64, first, astr(s) if enc == "ascii" else ustr(s))


def str_pairs(c):
    """Two strings of one event: encodings and lengths vary independently."""
    kind = c.pick("place", ["create", "start", "rename", "filter"])
    menu = [f(pattern(n)) for n in (0, 1, 2, 7, 255, 256, 600) for f in (astr, ustr)] + [ustr("x\0y"), ustr("Ā"), astr("a\0")]
    return place(kind, c.pick("is64", [1, 0]), c.pick("first", menu), c.pick("second", menu))


@prop("D09")
def d09(tier):
    return [ev_scenario("every length", all_strings, None), ev_scenario("every character", chars, None),
            ev_scenario("two strings", str_pairs, None), ev_scenario("texts to tidy up, every operation", tricky, None),
            ev_scenario("zeros in the text, every operation", ends, None), ev_scenario("the second string", second, None), fixture_scenario(None, None, stride=3)], \
        ["ASCII strings hold 7-bit characters; a UTF-16 string ends at its first NUL character"], \
        "7 places x all lengths 0..300 and 11 extremes up to 0x7fff x 3 encodings x bitness; 270 characters x 5 " \
        "positions x 6 places; all pairs of 17 strings in 4 two-string structures; %d operations with a path x bitness x encodings x " \
        "%d texts that could be tidied up and 80 with zeros inside; the same texts as second string x 4 first ones" % (
            len(PATH_OPS), len(TRICKY + WIDE))
