"""Counts and sizes: every count and length of both formats at every order of magnitude up to its limit."""
import io
import struct

import pmcref as M
import pmlref as P
from engine import Scenario
from impl import ProcmonLogsReader, read_all_events_from_pml, call, why, event_key, ref_key, diff_key, proc_key, ref_proc_key, \
    short, lib_config, norm_config, diff_items, dumps_configuration, loads_configuration
from pmlcases import astr, ustr, msz, u32, u64, fs_detail, reg_detail, sane_event, J2, J4
import props_d as D

PROPS = {}


def prop(pid):
    def deco(f):
        PROPS[pid] = f
        return f
    return deco


def sizes(limit, dense=17):
    """All small numbers, both sides of every power of two and of ten, and the limit."""
    out = set(range(dense + 1)) | {limit - 1, limit}
    for base in (2, 10):
        p = base
        while p <= limit:
            out |= {p - 1, p, p + 1}
            p *= base
    out |= {k for k in (300, 500, 1500, 2000, 3000, 5000, 20000, 30000, 50000, 60000) if k < limit}
    return sorted(k for k in out if 0 <= k <= limit)


def abc(n, wide=False):
    """A text of n different-looking characters."""
    s = "".join("%x." % k for k in range(n // 2 + 1))[:n]
    return s[:-1] + "\u0101" if wide and n else s


SMALL = [P.Ev(1, 3, u32(9), tid=100), P.Ev(1, 3, u32(8), tid=200)]


def between(ev):
    return [SMALL[0], ev, SMALL[1]]


# ---- logs: name -> (limit in the quick tier, limit in the thorough tier, builder(n, is64) -> keywords of the writer)
def d_events(n, w):
    return dict(events=[P.Ev(1, 3, u32(k), tid=k, date=P.D0 + k) for k in range(n)])


def d_mixed(n, w):
    """Events of different sizes."""
    return dict(events=[P.Ev(1, 3, u32(k) + b"\xA5" * (k % 7), tid=k, stack=range(k % 5)) for k in range(n)])


def d_strings(n, w):
    ss = ["%x" % k for k in range(n + 1)]
    return dict(events=SMALL, strings=ss, procs=[P.Proc(is64=w, strs=(n, 0, n // 2, max(n - 1, 0), n // 3, 1 % (n + 1), 0, n))])


def d_string_length(n, w):
    return dict(events=SMALL, strings=["a", abc(n), "b", abc(n, True)], procs=[P.Proc(is64=w, strs=(0, 1, 2, 3, 1, 3, 0, 2))])


def d_processes(n, w):
    return dict(events=[P.Ev(1, 3, u32(k), tid=k, proc=5 + k) for k in sorted({0, n // 2, max(n - 1, 0)}) if n],
                strings=["p%d" % k for k in range(256)],
                procs=[P.Proc(index=5 + k, pid=k, is64=w, strs=[(k + j) % 256 for j in range(8)]) for k in range(n)])


def d_modules(n, w):
    return dict(events=SMALL, strings=["p%d" % k for k in range(256)],
                procs=[P.Proc(is64=w, modules=[(k, k + 1, k % 256, 1, 2, 3, k) for k in range(n)]), P.Proc(index=2, pid=9, strs=(3,) * 8)])


def host_key(k):
    return bytes([10, k >> 16 & 255, k >> 8 & 255, k & 255]).ljust(16, b"\0")


def net(hosts, ports, pairs=(), tail=2):
    return P.Ev(5, P.NETOP["Send"], struct.pack("<HHI", 7, 0xA5A5, 10) + hosts[0] + hosts[1] + struct.pack("<HH", *ports) +
                msz(list(pairs), tail))


def d_hosts(n, w):
    return dict(events=between(net((host_key(0), host_key(max(n - 1, 0))), (80, n & 0xffff))) + [net((host_key(n // 2), host_key(n)), (1, 2))],
                hosts=[(host_key(k), "h%d" % k) for k in range(n)], ports=[(80, 1, "http")])


def d_ports(n, w):
    at = lambda k: (k & 0xffff, 1 if k < 65536 else 0)
    evs = [net((host_key(1), host_key(2)), (at(a)[0], at(b)[0])) for a, b in ((0, max(n - 1, 0)), (n // 2, n), (1, 2))]
    return dict(events=evs, hosts=[(host_key(1), "one")], ports=[at(k) + ("p%d" % k,) for k in range(n)])


def d_host_name(n, w):
    return dict(events=between(net((host_key(1), host_key(2)), (80, 81))), hosts=[(host_key(1), abc(n)), (host_key(2), abc(n, True))],
                ports=[(80, 1, "http"), (81, 1, abc(n + 1))])


def d_stack(n, w):
    return dict(events=between(P.Ev(1, 3, u32(5), stack=[k + 1 for k in range(n)])))


def d_pairs(n, w):
    return dict(events=between(net((host_key(1), host_key(2)), (80, 81), ["%x" % k for k in range(1, n + 1)])))


def d_pair_length(n, w):
    return dict(events=between(net((host_key(1), host_key(2)), (80, 81), ["k", abc(n + 1), abc(n + 1, True), "v"])))


def d_path_ascii(n, w):
    return dict(events=between(P.Ev(3, P.FSOP["WriteFile"], file_path(w, astr(abc(n))))))


def d_path_wide(n, w):
    return dict(events=between(P.Ev(2, 0, reg_detail(ustr(abc(n, True)), J2 + u32(0x20019)))))


def file_path(w, p):
    return fs_detail(w, 0, p, [], b"", 0)


def d_env(n, w):
    env = msz(["A%d=%d" % (k, k) for k in range(n)]) if n else b"\0\0"
    return dict(events=between(P.Ev(1, P.PROCOP["Process_Start"], u32(99) + struct.pack("<HH", astr("cmd")[0], astr("C:\\")[0]) +
                                    u32(len(env) // 2) + b"cmdC:\\" + env)))


def d_env_length(n, w):
    env = msz(["A=" + abc(n), "B=" + abc(n, True), "C="])
    return dict(events=between(P.Ev(1, P.PROCOP["Process_Start"], u32(99) + struct.pack("<HH", astr("cmd")[0], astr("C:\\")[0]) +
                                    u32(len(env) // 2) + b"cmdC:\\" + env)))


def d_command_line(n, w):
    p, q = astr("C:\\x.exe"), ustr(abc(n, True)) if n % 2 else astr(abc(n))
    return dict(events=between(P.Ev(1, P.PROCOP["Process_Create"], J4 + u32(77) + b"\xA5" * 0x24 + struct.pack("<BBHHH", n % 256, 255 - n % 256, p[0], q[0], 0xA5A5) +
                                    b"\xA5" * 255 + p[1] + q[1])))


PATH = astr("HKLM\\a")


def set_value(typ, raw, total=None):
    return P.Ev(2, P.REGOP["RegSetValue"], reg_detail(PATH, J2 + u32(typ, len(raw) if total is None else total, len(raw)), raw))


def query_value(typ, raw, total=None):
    x = u32(0, typ, len(raw) if total is None else total) + raw
    return P.Ev(2, P.REGOP["RegQueryValue"], reg_detail(PATH, J2 + u32(len(x), 2)), x)


def d_set_text(n, w):
    return dict(events=between(set_value(1, P.w(abc(n, True)) + b"\0\0")))


def d_query_text(n, w):
    return dict(events=between(query_value(2, P.w(abc(n)) + b"\0\0")))


def d_set_binary(n, w):
    return dict(events=between(set_value(3, bytes(k * 7 & 255 for k in range(n)))))


def d_query_binary(n, w):
    return dict(events=between(query_value(3, bytes(k * 7 & 255 for k in range(n)))))


def d_set_multi(n, w):
    return dict(events=between(set_value(7, msz(["%x" % k for k in range(1, n + 1)]))))


def d_query_multi(n, w):
    return dict(events=between(query_value(7, msz(["%x" % k for k in range(1, n + 1)]))))


def d_query_name(n, w):
    x = u32(2 * n) + P.w(abc(n, True))
    return dict(events=between(P.Ev(2, P.REGOP["RegQueryKey"], reg_detail(PATH, J2 + u32(len(x), 3)), x)))


def d_enum_full(n, w):
    """A value with a long name, its data behind it."""
    name = P.w(abc(n))
    x = u32(0, 1, 20 + len(name), 8, len(name)) + name + P.w("abc\0")
    return dict(events=between(P.Ev(2, P.REGOP["RegEnumValue"], reg_detail(PATH, J2 + u32(len(x), n & 0xffffffff, 1)), x)))


def d_rename(n, w):
    q = astr(abc(n)) if n % 2 else ustr(abc(n, True))
    return dict(events=between(P.Ev(2, P.REGOP["RegRenameKey"], reg_detail(PATH, struct.pack("<H", q[0]), q[1]))))


def listing(w, names, cls, align):
    """As many of the entries as fit into the extra data."""
    x, parts = 0, []
    for s in names:
        e = D.entry(cls, s, align, len(parts))
        if x + len(e) > 65535:
            break
        parts.append(s)
        x += len(e)
    out = b"".join(D.entry(cls, s, None if k == len(parts) - 1 else align, k) for k, s in enumerate(parts))
    return D.dirq(w, astr("C:\\dir"), ustr(""), cls, out if parts else None)["ev"]


def d_listing(n, w):
    return dict(events=between(listing(w, ["%x" % k for k in range(n)], 12, 4)) + [listing(w, ["%x" % k for k in range(n)], 1, 8)])


def d_listing_name(n, w):
    return dict(events=between(listing(w, ["a", abc(n), abc(n, True), "z"], 37, 8)))


def d_details(n, w):
    """Details longer than what is decoded of them."""
    return dict(events=between(P.Ev(1, 3, u32(5) + b"\xA5" * n)))


def d_extra(n, w):
    d, _ = sane_event(2, P.REGOP["RegQueryKey"], w)
    x = u32(4) + P.w("ab")
    return dict(events=between(P.Ev(2, P.REGOP["RegQueryKey"], reg_detail(PATH, J2 + u32(16, 3)), x + b"\xA5" * n)))


def d_gap(n, w):
    return dict(events=between(P.Ev(2, P.REGOP["RegQueryKey"], reg_detail(PATH, J2 + u32(16, 3)), u32(4) + P.w("ab"))), gap=n, extra_place="end")


def d_sid(n, w):
    sid = bytes([1, n]) + b"\0\0\0\0\0\5" + u32(*range(1, n + 1))
    dio = [(0x10 + D.pad(w), u32(1 << 24))]
    return dict(events=between(P.Ev(3, P.FSOP["CreateFile"], fs_detail(w, 0, astr("C:\\x"), dio, u32(0x120089) + bytes([len(sid)]) + b"\0\0\0" + sid, 0), u32(1))))


LOGS = [("events", 20000, 200000, d_events), ("events of different sizes", 8200, 70000, d_mixed), ("strings", 70000, 140000, d_strings),
        ("string length", 70000, 70000, d_string_length), ("processes", 8200, 66000, d_processes), ("modules", 70000, 70000, d_modules),
        ("hosts", 70000, 70000, d_hosts), ("ports", 131072, 131072, d_ports), ("host and port name length", 40000, 40000, d_host_name),
        ("stack frames", 65535, 65535, d_stack), ("network pairs", 60000, 60000, d_pairs), ("network value length", 60000, 60000, d_pair_length),
        ("path length", 32767, 32767, d_path_ascii), ("wide path length", 32767, 32767, d_path_wide),
        ("environment entries", 40000, 40000, d_env), ("environment entry length", 40000, 40000, d_env_length),
        ("command line length", 32767, 32767, d_command_line), ("written text", 70000, 70000, d_set_text), ("read text", 32700, 32700, d_query_text),
        ("written bytes", 300000, 300000, d_set_binary), ("read bytes", 65500, 65500, d_query_binary), ("written list", 20000, 20000, d_set_multi),
        ("read list", 6500, 6500, d_query_multi), ("key name length", 32700, 32700, d_query_name), ("value name length", 32700, 32700, d_enum_full),
        ("new name length", 32767, 32767, d_rename), ("listing", 3700, 3700, d_listing), ("listing name length", 16000, 16000, d_listing_name),
        ("details", 300000, 1 << 21, d_details), ("extra data", 65500, 65500, d_extra), ("gaps", 300000, 1 << 21, d_gap), ("SID", 61, 61, d_sid)]
BUILD = {name: f for name, _, _, f in LOGS}
LIMIT = {name: t for name, _, t, _ in LOGS}


def gen_logs(tier, dims):
    def gen(c):
        name, q, t, f = c.pick("what", dims)
        return name, c.pick("size", sizes(t if tier else q, 40 if tier else 17)), c.pick("is64", [1, 0] if tier else [1]) if name not in (
            "listing", "listing name length", "SID", "modules", "stack frames") else c.pick("is64", [1, 0])
    return gen


def gen_pairs(dims, values):
    """Two dimensions of one log at once (as far as they do not replace each other's part)."""
    def gen(c):
        a = c.pick("first", dims)[0]
        b = c.pick("second", dims)[0]
        n, m = c.pick("first size", values), c.pick("second size", values)
        return (a, b), (n, m), c.pick("is64", [1, 0])
    return gen


def case_log(name, n, w):
    if isinstance(name, tuple):
        kw, more = [BUILD[x](min(k, LIMIT[x]), w) for x, k in zip(name, n)]
        kw = dict(more, **dict(kw, events=kw["events"] + more["events"]))
    else:
        kw = BUILD[name](n, w)
    kw.setdefault("procs", [P.Proc(is64=w)])
    known = {p.index for p in kw["procs"]}
    most = len(kw.get("strings", ("",)))
    if isinstance(name, tuple) and max([max(p.strs) for p in kw["procs"]] + [max(m[2:6]) for p in kw["procs"] for m in p.modules] + [0]) >= most:
        kw["strings"] = list(kw.get("strings", ("",))) + ["s%d" % k for k in range(1100)]
    kw["events"] = [e for e in kw["events"] if e.proc in known]
    return P.Pml(is64=w, **kw).build()


def compare_csv(log, rd):
    n = log.count
    for k in sorted({0, 1, 2, n // 2, n - 1} & set(range(n))):
        try:
            rec = P.csv_record(log, log.event(k))
        except P.Undecodable:
            continue
        c = call(lambda: dict(rd[k].get_compatible_csv_info()))
        if c != ("ok", rec):
            return "formatting event %d: %s" % (k, why(c) if c[0] != "ok" else next(
                "column %r: expected %s, got %s" % (x, short(rec[x]), short(c[1].get(x))) for x in rec if rec[x] != c[1].get(x)))
    return None


def compare(data, st):
    log = P.RefLog(data)
    want = [ref_key(log, log.event(k), False) for k in range(log.count)]
    st.n["comparisons"] += len(want) + len(log.proc_list)
    r = call(ProcmonLogsReader, io.BytesIO(data))
    if r[0] != "ok":
        return "opening raised " + why(r)
    rd = r[1]
    if len(rd) != len(want):
        return "%d events instead of %d" % (len(rd), len(want))
    procs = call(rd.processes)
    wp = [ref_proc_key(log.procs[k]) for k in log.proc_list]
    if procs[0] != "ok" or [proc_key(p) for p in procs[1]] != wp:
        return "the processes differ: %s" % (why(procs) if procs[0] != "ok" else next(
            "expected %s, got %s" % (short(a, 300), short(proc_key(b), 300)) for a, b in zip(wp + [None] * 9, procs[1]) if a != proc_key(b))
            if len(procs[1]) == len(wp) else "%d instead of %d" % (len(procs[1]), len(wp)))
    for how, get in (("index", lambda: [rd[k] for k in range(len(rd))]), ("iteration", lambda: list(rd)),
                     ("read_all_events_from_pml", lambda: read_all_events_from_pml(io.BytesIO(data)))):
        g = call(get)
        if g[0] != "ok":
            return "%s raised %s" % (how, why(g))
        if len(g[1]) != len(want):
            return "%s gives %d events instead of %d" % (how, len(g[1]), len(want))
        for k, (a, e) in enumerate(zip(want, g[1])):
            d = diff_key(a, event_key(e, False))
            if d:
                return "%s, event %d: %s" % (how, k, d)
    return compare_csv(log, rd)


def chk_logs(batch, st):
    for i, (ch, (name, n, w)) in enumerate(batch):
        st.seen_input((name, n, w))
        m = compare(case_log(name, n, w), st)
        st.outcome((name, n, w, m))
        if m:
            yield i, "%s of size %s (%d bit): %s" % (name, n, 64 if w else 32, m)


def chk_csv(batch, st):
    for i, (ch, (name, n, w)) in enumerate(batch):
        data = case_log(name, n, w)
        st.seen_input((name, n, w))
        st.n["comparisons"] += 3
        st.outcome((name, n, w))
        r = call(ProcmonLogsReader, io.BytesIO(data))
        m = "opening raised " + why(r) if r[0] != "ok" else compare_csv(P.RefLog(data), r[1])
        if m:
            yield i, "%s of size %s (%d bit): %s" % (name, n, 64 if w else 32, m)


CSV_DIMS = [x for x in LOGS if x[0] in (
    "network pairs", "network value length", "path length", "environment entries", "environment entry length", "written text", "read text",
    "written bytes", "read bytes", "written list", "key name length", "listing", "listing name length", "SID", "string length")]


def csv_sizes(tier):
    """For F02: formatting large contents."""
    return Scenario("large contents", gen_logs(tier, CSV_DIMS), chk_csv, batch=1, horizon=600)


# ---- configurations: name -> (quick limit, thorough limit, builder)
COLS = sorted(P.COLUMNS)
AROUND = [("Autoscroll", 1)], [("Profiling", 0x01020304)]


def one(items):
    return AROUND[0] + items + AROUND[1]


CFGS = [("rules", 10001, 70000, lambda n: one([("FilterRules", [(COLS[k % len(COLS)], k % 4, k % 2, "%x" % k) for k in range(n)])])),
        ("highlight rules", 1030, 5000, lambda n: one([("HighlightRules", [(40077, k % 4, k % 2, "v" * (k % 9)) for k in range(n)])])),
        ("rule value", 32767, 200000, lambda n: one([("FilterRules", [(40077, 0, 1, "a"), (40077, 0, 1, abc(n, True)), (40077, 0, 1, "b")])])),
        ("digits", 4299, 4299, lambda n: one([("FilterRules", [(40077, 0, 1, "1" + "0" * n), (40077, 0, 1, "0" * n + "7"), (40077, 0, 1, "9" * n)])])),
        ("columns", 70000, 300000, lambda n: one([("Columns", [k & 0xffff for k in range(n)])])),
        ("column map", 10001, 20000, lambda n: one([("ColumnMap", [COLS[k % len(COLS)] for k in range(n)])])),
        ("text", 70000, 1 << 20, lambda n: one([("Logfile", abc(n, True)), ("DbgHelpPath", abc(n))])),
        ("terminated text", 70000, 1 << 20, lambda n: one([("SourcePath", abc(n, True)), ("SymbolPath", abc(n))])),
        ("unknown bytes", 1 << 18, 1 << 24, lambda n: one([("Unheard", bytes(k * 7 & 255 for k in range(n)))])),
        ("settings", 5000, 20000, lambda n: one([("S%d" % k, b"%d" % k) for k in range(n)])),
        ("setting name", 70000, 100000, lambda n: one([(abc(n, True) or "x", b"abc"), ("y" + abc(n), b"def")])),
        ("font face", 32, 32, lambda n: one([("LogFont", tuple(range(5)) + (1,) * 8 + (abc(n, True),))]))]
CFG = {name: f for name, _, _, f in CFGS}


def gen_cfg(tier):
    def gen(c):
        name, q, t, f = c.pick("what", CFGS)
        return name, c.pick("size", sizes(t if tier else q, 100 if tier else 33))
    return gen


def chk_cfg(batch, st):
    for i, (ch, (name, n)) in enumerate(batch):
        items = CFG[name](n)
        raw = M.build(items)
        st.seen_input(raw)
        st.n["comparisons"] += 2
        st.outcome((name, n))
        g = call(lambda: dumps_configuration(lib_config(items)))
        if g != ("ok", raw):
            yield i, "dumping %s of size %d: %s" % (name, n, why(g) if g[0] != "ok" else "other bytes (%d instead of %d)" % (len(g[1]), len(raw)))
            continue
        g = call(lambda: norm_config(loads_configuration(raw)))
        m = why(g) if g[0] != "ok" else diff_items(items, g[1])
        if m:
            yield i, "loading %s of size %d: %s" % (name, n, m)


@prop("L09")
def l09(tier):
    d = tier == "thorough"
    return [
        Scenario("logs", gen_logs(d, LOGS), chk_logs, batch=1, horizon=600),
        Scenario("two sizes", gen_pairs(LOGS, [0, 1, 255, 256, 257, 1000] if d else [3, 257]), chk_logs, batch=4, horizon=600),
        Scenario("configurations", gen_cfg(d), chk_cfg, batch=1, horizon=600),
    ], ["sizes are bounded by the format's fields or by the bounds below"], \
        "%d counts and lengths of logs and %d of configurations, each at every number up to 17 / 40 and on both sides of every " \
        "power of two and of ten up to its limit (between 15 and 70000; thorough: up to 2 million bytes); pairs of log sizes" % (len(LOGS), len(CFGS))
