"""CSV-compatible rendering, dates, equality."""
import copy
from collections import OrderedDict
import datetime
import io
import os
import struct
import time

import pmlref as P
from engine import Scenario, Skip
from impl import ProcmonLogsReader, call, why, event_key, ref_key, diff_key, short, Process, Module, Event, PROC_ATTRS, \
    MOD_ATTRS
from pmlcases import *  # noqa: F401,F403
from pmlcases import field, nums, few, case, sane_event, fixture, fixture_scenario, describe, ALL_OPS, CHUNK, build_events, \
    u32, u64
import props_d as D
import props_l as L
import props_s as Z

PROPS = {}


def prop(pid):
    def deco(f):
        PROPS[pid] = f
        return f
    return deco


def deep(tier):
    return tier == "thorough"


MAXFT = P.FT_EPOCH + 253402300799 * 10000000  # the last second of year 9999
MINFT = 0  # 1601-01-01


def csv_diff(want, got):
    if list(want) != list(got):
        if sorted(want) != sorted(got):
            return "columns: expected %r, got %r" % (sorted(want), sorted(got))
    for k, v in want.items():
        if got[k] != v or not isinstance(got[k], str):
            return "column %r: expected %s, got %s" % (k, short(v, 300), short(got[k], 300))
    return None


def renderable(e):
    """Times inside the calendar; everything else is outside the property."""
    if not MINFT <= e.date < MAXFT or not e.date + e.duration < MAXFT:
        return False
    return all(k != "LastWriteTime" or e.operation != "RegSetInfoKey" or v < MAXFT for k, v in e.details)


EXTRA = ("first", "zone")  # parts of a case that are not parts of the log


class in_zone(object):
    """Runs its body in another time zone."""

    def __init__(self, zone):
        self.zone = zone

    def __enter__(self):
        os.environ["TZ"] = self.zone
        time.tzset()

    def __exit__(self, *a):
        os.environ["TZ"] = "UTC"
        time.tzset()


def by_log(batch):
    """The cases of a batch that can share one log, as (bitness, log arguments, zone, positions)."""
    groups = {}
    for pos, (ch, c) in enumerate(batch):
        kw = {k: v for k, v in c["kw"].items() if k not in EXTRA}
        zone = c["kw"].get("zone", "UTC")
        groups.setdefault((c["is64"], repr(sorted(kw.items())), zone), (c["is64"], kw, zone, []))[3].append(pos)
    return groups.values()


def check_csv(batch, st):
    for is64, kw, zone, poss in by_log(batch):
        data = build_events([batch[p][1]["ev"] for p in poss], is64, kw)
        log = P.RefLog(data)
        rd = ProcmonLogsReader(io.BytesIO(data))
        for k, p in enumerate(poss):
            first = batch[p][1]["kw"].get("first")
            ref = log.event(k)
            if not renderable(ref):
                st.n["outside the calendar"] += 1
                continue
            want = P.csv_record(log, ref, first)
            st.seen_input((is64, repr(batch[p][1]["ev"]), first))
            st.outcome(sorted(want.items()))
            st.n["comparisons"] += 1
            with in_zone(zone):
                r = call(lambda: rd[k].get_compatible_csv_info(*([first] if first is not None else [])))
            if r[0] != "ok":
                yield p, "%s raised %s" % (ref.operation, why(r))
                continue
            m = csv_diff(want, r[1])
            if m:
                yield p, "%s: %s" % (ref.operation, m)


def csv_scenario(name, gen, bound, note=""):
    return Scenario(name, gen, check_csv, bound=bound, batch=200, describe=describe, note=note)


def csv_fixture(stride, classes=None):
    base = fixture_scenario(classes, None, stride)

    def check(batch, st):
        for i, (ch, (n, lo)) in enumerate(batch):
            raw, log, rd, cls = fixture(n)
            first = log.event(0).date
            for k in range(lo, min(lo + CHUNK, log.count), stride):
                if classes and cls[k] not in classes:
                    continue
                try:
                    ref = log.event(k)
                except P.Undecodable:
                    continue
                st.n["fixture_traces"] += 1
                st.n["comparisons"] += 1
                m = None
                if ref.date >= first:
                    r = call(lambda: rd[k].get_compatible_csv_info(first))
                    m = why(r) if r[0] != "ok" else csv_diff(P.csv_record(log, ref, first), r[1])
                if m:
                    yield i, "%s event %d: %s" % (n, k, m)
                    break
    return Scenario("recorded logs", base.gen, check, batch=1, horizon=300, note=base.note)


# ------------------------------------------------------------------------------------------------ F01 columns
def simple(is64=1, cls=1, op=3, **kw):
    d, x = sane_event(cls, op, is64)
    return P.Ev(cls, op, d, x, **kw)


def csv_process(c):
    """Process columns, one process per case."""
    is64 = c.pick("is64", [1, 0])
    strings = ["zero", c.dev("text", L.TXT[1:] + ["", "a,b", "a\"b", "a\nb", "=1+1"]), "two", "three", "four", "five", "six",
               "seven", "eight"]
    p = P.Proc(index=1, pid=field(c, "pid", 32, 4), ppid=field(c, "ppid", 32, 0), auth=field(c, "auth", 64, 0x3e7),
               session=field(c, "session", 32, 0), virt=c.dev("virtualized", [0, 1, 2, 0x100, 0xffffffff]),
               is64=c.dev("bitness", [1, 0, 2, 0x100]), strs=tuple(c.dev("s%d" % k, [k + 1, 0, 1]) for k in range(8)))
    return case(P.Ev(1, 3, u32(9), tid=field(c, "tid", 32, 1)), is64, procs=[p], strings=strings)


RESULT_CODES = sorted(P.RESULTS) + [2, 3, 0x101, 0x80000002, 0xc0000000, 0xc0000003, 0xdeadbeef, 0xffffffff, 0x7fffffff,
                                    0x400, 0xa, 0xabcdef]


def csv_results(c):
    cls, op = c.pick("op", [(1, 3), (2, 0), (3, 20)])
    return case(simple(1, cls, op, result=c.pick("result", RESULT_CODES), dur=c.pick("duration", [0, 12345678])), 1)


DURS = [0, 1, 9, 10, 9999999, 10000000, 10000001, 12345678, 599999999, 600000000, 35999999999, 36000000000, 863999999999,
        864000000000, 123456789012345]


def csv_times(c):
    """Dates and durations across every kind of boundary."""
    day = c.pick("day", [0, 1, 58, 59, 60, 364, 365, 789, 11016, 11017, 18262, 18321, 18322, 18627, 18628, 24836, 24837, 47540])
    h = c.pick("hour", range(24))
    m = c.pick("minute and second", [0, 1, 59, 60, 599, 600, 3599])
    f = c.pick("fraction", [0, 1, 9999999, 1234567])
    return case(simple(date=P.FT_EPOCH + (day * 86400 + h * 3600 + m) * 10000000 + f, dur=c.dev("duration", DURS)), 1)


def csv_relative(c):
    a = P.D0 + c.pick("date", [0, 1, 10000000, 12345678901])
    dt = c.pick("since the first event", [0, 1, 9999999, 10000000, 10000001, 599999999, 600000000, 35999999999, 36000000000,
                                          359999999999, 3600000000000, 36000000000000, 1 << 50])
    return case(simple(date=a + dt, dur=c.pick("duration", [0, 5])), 1, first=c.pick("first", [a, None]))


FAR_DATES = [0, 1, 9999999, 10000000, 116444736000000000 - 1, 116444736000000000 - 10000000, 116444736000000000 - 9999999,
             P.FT_EPOCH, P.FT_EPOCH + 9999999, P.FT_EPOCH + (1 << 31) * 10000000, P.FT_EPOCH + (1 << 31) * 10000000 - 1,
             P.FT_EPOCH + (1 << 32) * 10000000 - 1, P.FT_EPOCH + (1 << 32) * 10000000 + 5, 1 << 57, 1 << 60, 1 << 61,
             MAXFT - 1, MAXFT - 10000000, MAXFT - 864000000000, 94354848000000000, 63082368000000000, 157766400000000000] + \
    [P.FT_EPOCH + int(d) * 864000000000 + 431999999999 for d in (-134774, -134408, -98255, -25509, -25508, -1, 10957, 11016,
                                                                11017, 47540, 47541, 47542, 376200, 2932895)]
FAR_DURS = [0, 1, (1 << 31) - 1, (1 << 32) + 1, 35999999999, 36000000000, 863999999999, 864000000000, 3153600000000001,
            (1 << 53) - 1, (1 << 53) + 1, (1 << 54) + 3, 123456789012345678, (1 << 57) + 1, (1 << 59) + 9999999,
            (1 << 60) + 123, (1 << 61) + 7, MAXFT - 7]


def csv_far(c):
    """Dates, durations and relative times across the whole calendar."""
    a = c.pick("first", FAR_DATES)
    k = c.pick("what", ["duration", "relative"])
    v = c.pick("for", FAR_DURS)
    if k == "duration":
        return case(simple(date=a, dur=v, result=c.pick("result", [0, 0xc0000034])), 1)
    return case(simple(date=a + v, dur=c.pick("duration", [0, 1])), 1, first=a)


TZONES = ["UTC", "EST5EDT,M3.2.0,M11.1.0", "XXX-5:30", "ZZZ-14", "AAA+12", "NZST-12NZDT,M9.5.0,M4.1.0/3"]


def csv_zones(c):
    """The same moments whatever the time zone of the reading computer is."""
    day = c.pick("day", [0, 59, 11016, 18321, 18331, 18568, 18627, 24837])
    a = P.FT_EPOCH + day * 864000000000 + c.pick("hour", range(24)) * 36000000000 + c.pick("rest", [0, 35999999999])
    cls, op = c.pick("op", [(1, 3), (2, P.REGOP["RegSetInfoKey"])])
    return case(simple(1, cls, op, date=a, dur=c.pick("duration", [5, 36000000000])), 1, first=c.pick("first", [None, a - 12345]),
                zone=c.pick("zone", TZONES))


def csv_days(limit):
    def gen(c):
        return case(simple(date=P.FT_EPOCH + c.pick("day", range(0, limit)) * 864000000000 +
                           c.pick("time", [0, 432000000000, 863999999999])), 1)
    return gen


def csv_codes(c):
    """Every operation of every class, with every recorded result kind, both bitness."""
    is64 = c.pick("is64", [1, 0])
    cls, op = c.pick("op", ALL_OPS)
    return case(simple(is64, cls, op, result=c.pick("result", [0, 0xc0000034, 0x12345678, 0x103]), dur=c.pick("duration", [0, 77]),
                       tid=7), is64)


def csv_custom(c):
    """Columns that come straight from the event, changed by the user before formatting."""
    return {"process": c.dev("process", [None, {"process_name": "é"}, {"virtualized": True}, {"virtualized": False},
                                         {"is_process_64bit": False}, {"session": 9}]),
            "event": c.dev("event", [None, {"tid": 5}, {"path": "x,y"}, {"category": "Write"}, {"operation": "A <Unknown>"},
                                     {"operation": "Thread_Create"}, {"result": 0x103}, {"event_class": "Profiling"},
                                     {"event_class": "File_System"}, {"details": {}}])}


@prop("F01")
def f01(tier):
    d = deep(tier)
    return [csv_scenario("process columns", csv_process, 2 if d else 1), csv_scenario("results", csv_results, None),
            csv_scenario("times", csv_times, 1), csv_scenario("relative times", csv_relative, None), csv_scenario("far times", csv_far, None),
            csv_scenario("time zones", csv_zones, None),
            csv_scenario("days", csv_days(60000 if d else 12000), None), csv_scenario("operations", csv_codes, None),
            csv_scenario("sub operations", D.sub_names, None), csv_fixture(1 if d else 4)], \
        ["times lie between 1601 and 9999 and no event precedes the given first event; UTC, as the library documents"], \
        "process columns: 1 (quick) / 2 (thorough) deviations at full width; every result code of the table and 12 others; " \
        "18 days x 24 hours x 7 x 4 fractions x 15 durations; 104 relative times; %d dates x %d durations and relative times " \
        "between 1601 and 9999; 8 days x 24 hours x 6 time zones of the computer; " % (len(FAR_DATES), len(FAR_DURS)) + "12000 / 60000 consecutive days; every " \
        "operation x 4 results x 2 durations; 256 sub operation codes; every 4th / every recorded event"


# ------------------------------------------------------------------------------------------------ F02 Detail column
def no_details(c):
    """Events of callers that have no details, or read with details switched off."""
    return c.pick("details", [None, "left out", {}, OrderedDict(), "read"]), c.pick("event", ALL_OPS), c.pick("is64", [1, 0])


def chk_no_details(batch, st):
    for i, (ch, (details, (cls, op), w)) in enumerate(batch):
        d, x = sane_event(cls, op, w)
        st.seen_input((details, cls, op, w))
        st.n["comparisons"] += 1
        data = P.Pml(is64=w, events=[P.Ev(cls, op, d, x)]).build()
        if details == "read":
            log = P.RefLog(data)
            e = call(lambda: ProcmonLogsReader(io.BytesIO(data), True, False)[0])
            if e[0] != "ok":
                yield i, "%s without details: %s" % (P.OPS[cls][op], why(e))
                continue
            e = e[1]  # a reader may show cheap details even so; they have to be right then
            want = P.csv_record(log, log.event(0))["Detail"] if e.details else ""
        else:
            kw = {} if details == "left out" else {"details": details}
            e, want = Event(process=Process(), event_class=cls, operation=P.OPS[cls][op], date_filetime=P.D0, category="", path="", **kw), ""
        r = call(lambda: e.get_compatible_csv_info())
        st.outcome((details, cls, op))
        if r[0] != "ok" or r[1]["Detail"] != want:
            yield i, "%s with details %r: %s" % (P.OPS[cls][op], details, why(r) if r[0] != "ok" else "Detail is %r instead of %r" % (r[1]["Detail"], want))


@prop("F02")
def f02(tier):
    d = 1 if deep(tier) else 0
    mk = lambda n, g, b, r=False: csv_scenario(n, lambda c: g(c, r), b)  # noqa: E731
    return [mk("process", D.proc_ev, 1, True), mk("process, combinations", D.proc_ev, 1 + d), mk("network", D.net, d),
            mk("keys", D.reg_key, 1, bool(d)), mk("open key", D.reg_open, 1), mk("other keys", D.reg_rest, 1),
            mk("values", D.reg_value, 1, bool(d)), mk("values, rich payloads", D.reg_set, 1, True),
            mk("set value, combinations", D.reg_set, 1 + d), mk("set information", D.reg_setinfo, 1, True),
            mk("create", D.create, d), mk("create, combinations", D.create, 1), mk("read/write", D.rw, 1, True),
            mk("read/write, combinations", D.rw, 2), mk("mapping", D.mapping, 1), mk("disposition", D.disposition, 1),
            mk("listing", D.listing, 1), mk("control", D.ioctl, d), mk("notify", D.notify, 1),
            csv_scenario("directory classes", D.dir_class, None), csv_fixture(1 if d else 3), Z.csv_sizes(d),
            Scenario("no details", no_details, chk_no_details, batch=20)], \
        ["key write times shown by RegSetInfoKey lie between 1601 and 9999"], \
        "every kind of detail with 1 (quick) / up to 2 (thorough) deviations per event; every 3rd / every recorded event; contents of " \
        "every order of magnitude; events without details"


# ------------------------------------------------------------------------------------------------ F03 dates
ZONES = {"UTC": (0, None), "XXX-5:30": (19800, None), "YYY+8": (-28800, None), "ZZZ-14": (50400, None),
         "AAA+12": (-43200, None), "QQQ-5:45": (20700, None), "EST5EDT,M3.2.0,M11.1.0": (-18000, "us"),
         "CET-1CEST,M3.5.0,M10.5.0/3": (3600, "eu"), "NZST-12NZDT,M9.5.0,M4.1.0/3": (43200, "nz")}


def nth_sunday(y, m, n):
    """Day of the month of the n-th Sunday (5: the last one)."""
    days = [31, 29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]
    first = (days_from(y, m, 1) + 4) % 7  # weekday of the 1st, 0 = Sunday
    d = 1 + (7 - first) % 7
    while n > 1 and d + 7 <= days:
        d, n = d + 7, n - 1
    return d


def days_from(y, m, d):
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468


def utc_offset(zone, secs):
    off, rule = ZONES[zone]
    if not rule:
        return off
    y = P.civil(secs + off)[0]
    at = lambda m, n, wall, o: days_from(y, m, nth_sunday(y, m, n)) * 86400 + wall - o  # noqa: E731
    if rule == "us":
        dst = at(3, 2, 7200, off) <= secs < at(11, 1, 7200, off + 3600)
    elif rule == "eu":
        dst = at(3, 5, 7200, off) <= secs < at(10, 5, 10800, off + 3600)
    else:
        dst = secs >= at(9, 5, 7200, off) or secs < at(4, 1, 10800, off + 3600)
    return off + 3600 if dst else off


def moments():
    out = [0, 1, 9, 10, 11, 9999999, 10000000, P.FT_EPOCH - 1, P.FT_EPOCH, P.FT_EPOCH + 1, P.FT_EPOCH - 10000000, P.D0,
           P.D0 + 1234567, P.FT_EPOCH + (1 << 31) * 10000000, P.FT_EPOCH + (1 << 32) * 10000000 + 7, MAXFT - 864000000000 * 2,
           MAXFT - 864000000000 - 10000001]
    for y, m, d in ((1601, 12, 31), (1700, 2, 28), (1700, 3, 1), (1900, 2, 28), (1900, 3, 1), (1969, 12, 31), (1970, 1, 1),
                    (2000, 2, 29), (2020, 2, 29), (2020, 3, 1), (2020, 12, 31), (2021, 1, 1), (2100, 2, 28), (2400, 2, 29),
                    (9999, 12, 29)):
        for s in (0, 43199, 86399):
            out.append(P.FT_EPOCH + (days_from(y, m, d) * 86400 + s) * 10000000 + 9999999)
    for y in (2007, 2015, 2019, 2020, 2021, 2026):
        for zone, ms in (("us", ((3, 2), (11, 1))), ("eu", ((3, 5), (10, 5))), ("nz", ((9, 5), (4, 1)))):
            for m, n in ms:
                base = days_from(y, m, nth_sunday(y, m, n)) * 86400
                for s in range(-16 * 3600, 16 * 3600, 3600):
                    out += [P.FT_EPOCH + (base + s) * 10000000, P.FT_EPOCH + (base + s) * 10000000 - 1]
    return sorted(set(out))


def dates(c):
    ft = c.pick("moment", MOMENTS)
    z = c.pick("zone", ["UTC", "XXX-5:30", "YYY+8", "ZZZ-14", "AAA+12"] + ([k for k in sorted(ZONES) if ZONES[k][1]]
                                                                          if ft > P.FT_EPOCH + 11000 * 864000000000 and
                                                                          ft < P.FT_EPOCH + 24000 * 864000000000 else []))
    return ft, z


MOMENTS = moments()


def fractions(c):
    return P.D0 + c.pick("ticks", [k * 10 ** e + d for e in range(8) for k in range(10) for d in (0, 1, 9)]), "UTC"


def chk_dates(batch, st):
    for i, (ch, (ft, zone)) in enumerate(batch):
        os.environ["TZ"] = zone
        time.tzset()
        try:
            st.seen_input((ft, zone))
            e = Event(process=Process(), event_class="Process", operation="x", date_filetime=ft)
            for how, off in ((True, 0), (None, 0), (False, utc_offset(zone, (ft - P.FT_EPOCH) // 10000000))):
                secs = (ft - P.FT_EPOCH) // 10000000 + off
                if not -11644473600 <= secs < 253402300800:
                    continue
                want = P.civil(secs) + (ft % 10000000 // 10,)
                st.n["comparisons"] += 1
                r = call(lambda: e.date() if how is None else e.date(how) if ft & 1 else e.date(is_utc=how))
                if r[0] != "ok":
                    yield i, "date(%s) in %s raised %s" % (how, zone, why(r))
                    break
                got = (r[1].year, r[1].month, r[1].day, r[1].hour, r[1].minute, r[1].second, r[1].microsecond)
                st.outcome(got)
                if got != want or r[1].tzinfo is not None:
                    yield i, "date(%s) in %s of %d: expected %r, got %r" % (how, zone, ft, want, r[1])
                    break
        finally:
            os.environ["TZ"] = "UTC"
            time.tzset()


def consecutive(n):
    def gen(c):
        return P.FT_EPOCH + c.pick("day", range(-134774, -134774 + n)) * 864000000000 + \
            c.pick("time", [0, 863999999990]), "UTC"
    return gen


def nodate(c):
    return c.pick("is_utc", [True, False])


def chk_nodate(batch, st):
    for i, (ch, u) in enumerate(batch):
        st.seen_input(u)
        e = Event(process=Process(), event_class="Process", operation="x", date_filetime=None)
        if e.date(u) is not None:
            yield i, "an event without a date has the date %r" % (e.date(u),)


@prop("F03")
def f03(tier):
    return [Scenario("moments", dates, chk_dates), Scenario("fractions", fractions, chk_dates),
            Scenario("consecutive days", consecutive(400000 if deep(tier) else 30000), chk_dates),
            Scenario("no date", nodate, chk_nodate)], \
        ["POSIX time zone rules of the C library; local dates between 1601 and 9999"], \
        "%d moments (calendar extremes, leap days, every hour within 16 hours of 36 daylight-saving changes) x 5 fixed " \
        "and 3 daylight-saving zones; 240 fractions; 30000 (quick) / 400000 (thorough) consecutive days from 1601" % len(MOMENTS)


# ------------------------------------------------------------------------------------------------ V01 equality
PROC_VALUES = {"pid": [4, 5, 0, -4], "parent_pid": [0, 1], "authentication_id": [0x3e7, 0x3e8, 0x3e7 << 32],
               "session": [0, 1], "virtualized": [0, 1], "is_process_64bit": [True, False],
               "integrity": ["Medium", "medium", ""], "user": ["u", "U"], "process_name": ["a.exe", "A.exe"],
               "image_path": ["C:\\a.exe", "C:\\A.exe", ""], "command_line": ["a", "a ", ""], "company": ["c", "d"],
               "version": ["1.0", "1.00"], "description": ["d", ""], "start_time": [5, 6, None], "end_time": [0, 9, None]}
MOD_VALUES = {"base_address": [0x1000, 0x2000, 0], "size": [16, 17], "path": ["p", "P", ""], "version": ["1", "1.0"],
              "company": ["c", ""], "description": ["d", "e"], "timestamp": [1, 2]}
EV_VALUES = {"tid": [1, 2], "event_class": ["Process", "Registry"], "operation": ["Thread_Create", "Thread_Exit"],
             "duration": [0, 1], "date_filetime": [P.D0, P.D0 + 1], "result": [0, 0xc0000034], "stacktrace": [[], [1], [1, 2], [2, 1], [2], [1, 2, 3], [1 << 63], None],
             "category": ["", "Read"], "path": ["p", "P", "p ", ""], "details": [{}, {"a": 1}, {"a": 2}, {"b": 1}, {"a": 1, "b": [1]},
                                                                     {"a": 1, "b": [2]}, {"a": "1"}, {"a": 1.0},
                                                                     OrderedDict(a=1), OrderedDict(a=1, b=[1]),
                                                                     OrderedDict(b=[1], a=1), {"b": [1], "a": 1}, None, [],
                                                                     {"a": None}, {"a": ""}, {"A": 1}]}


def attrs(c, values):
    return {k: c.dev(k, v) for k, v in values.items()}


def build_obj(kind, a):
    a = copy.deepcopy(a)
    if kind == "module":
        return Module(**a)
    mods = [Module(**m) for m in a.pop("modules", [])]
    if kind == "process":
        return Process(modules=mods, **a)
    proc = a.pop("process")
    return Event(process=build_obj("process", proc), **a)


def objects(kind):
    def gen(c):
        if kind == "module":
            return attrs(c, MOD_VALUES)
        a = attrs(c, PROC_VALUES)
        mm = [dict(zip(MOD_VALUES, (0x1000 * k, 1, "m%d" % k, "", "", "", 3))) for k in range(3)]
        a["modules"] = c.dev("modules", [[], mm[:1], mm[1:2], mm[:2], mm[1::-1], [dict(mm[0], company="x")]])
        if kind == "process":
            return a
        e = attrs(c, EV_VALUES)
        e["process"] = a
        return e
    return gen


def pairs(kind, bound):
    """All ordered pairs of the values reachable with at most `bound` deviations each."""
    from engine import expand
    vals, todo = [], [()]
    sc = Scenario("x", objects(kind), None, bound=bound)
    while todo:
        case_, c, kids = expand(sc, todo.pop())
        vals.append(case_)
        todo += kids
    vals.sort(key=repr)

    def gen(c):
        return kind, vals, c.pick("first", range(len(vals)))

    def check(batch, st):
        for i, (ch, (k, vs, x)) in enumerate(batch):
            a = build_obj(kind, vs[x])
            ra = call(lambda: (hash(a), repr(a), str(a)) if kind != "event" else hash(a))
            if ra[0] != "ok":
                yield i, "hash or text of %s raised %s" % (short(vs[x], 300), why(ra))
                continue
            for y in range(len(vs)):
                b = build_obj(kind, vs[y])
                st.n["comparisons"] += 1
                same = vs[x] == vs[y]
                st.outcome((x, same))
                r = call(lambda: (a == b, a != b, hash(a) == hash(b)))
                m = None
                if r[0] != "ok":
                    m = "raised " + why(r)
                elif same != r[1][0] or same == r[1][1]:
                    m = "== is %s and != is %s" % r[1][:2]
                elif same and not r[1][2]:
                    m = "equal objects have different hashes"
                if m:
                    yield i, "%s %s and %s: %s" % (kind, short(vs[x], 200), short(vs[y], 200), m)
                    break
            st.seen_input((kind, repr(vs[x])))
            for other in (None, 5, "x", (), object(), Module(), Process(), {}):
                if type(other) is not type(a) and (a == other or not a != other or other == a):
                    yield i, "%s equals %r" % (kind, other)
                    break
            if len({a, build_obj(kind, vs[x])}) != 1 or build_obj(kind, vs[x]) not in {a: 1}:
                yield i, "%s: an equal object is not found in a set" % kind
    return Scenario(kind + " pairs", gen, check, batch=4)


def reread(c):
    return c.pick("is64", [1, 0]), c.pick("a", range(9)), c.pick("b", range(9)), c.pick("readers", [1, 2])


def chk_reread(batch, st):
    for i, (ch, (is64, x, y, n)) in enumerate(batch):
        data, evs, _, _ = L.prepared(is64, 9)
        r1 = ProcmonLogsReader(io.BytesIO(data))
        r2 = ProcmonLogsReader(io.BytesIO(data)) if n == 2 else r1
        a, b = r1[x], r2[y]
        st.seen_input((is64, x, y, n))
        st.n["comparisons"] += 1
        st.outcome((x == y, n))
        if (a == b) != (x == y) or (a != b) == (x == y) or (x == y and hash(a) != hash(b)):
            yield i, "event %d and event %d: == is %s" % (x, y, a == b)
        p, q = a.process, b.process
        if (p == q) != (p.pid == q.pid) or (p == q and hash(p) != hash(q)):
            yield i, "processes %d and %d: == is %s" % (p.pid, q.pid, p == q)


@prop("V01")
def v01(tier):
    d = 2 if deep(tier) else 1
    return [pairs("module", 2), pairs("process", d), pairs("event", d), Scenario("events read from logs", reread, chk_reread)], \
        ["objects are not changed while they are in a set"], \
        "all pairs of modules with at most 2 changed attributes, of processes and events with at most 1 (quick) / 2 " \
        "(thorough); all pairs of 9 events read by one or two readers"


# ------------------------------------------------------------------------------------------------ F04 printed forms
def printed_process(p):
    return "\"%s\", %d" % (p["image_path"], p["pid"])


def check_printed(batch, st):
    """str() of every event, process and module, as the README shows them."""
    for is64, kw, zone, poss in by_log(batch):
        data = build_events([batch[p][1]["ev"] for p in poss], is64, kw)
        log = P.RefLog(data)
        rd = ProcmonLogsReader(io.BytesIO(data))
        for k, pos in enumerate(poss):
            ref = log.event(k)
            if not MINFT <= ref.date < MAXFT:
                continue
            p = log.procs[ref.proc]
            st.seen_input((is64, repr(batch[pos][1]["ev"]), repr(p)))
            want = ["Process Name=%s, Pid=%d, Operation=%s, Path=\"%s\", Time=%s" % (
                p["process_name"], p["pid"], ref.operation, ref.path, P.t_date(ref.date, True)), printed_process(p)]
            want += ["\"%s\", address=0x%x, size=0x%x" % (m[2], m[0], m[1]) for m in p["modules"]]
            st.n["comparisons"] += len(want)
            st.outcome(want)

            def got():
                e = rd[k]
                return [str(e), str(e.process)] + [str(m) for m in e.process.modules]
            with in_zone(zone):
                r = call(got)
            if r[0] != "ok" or r[1] != want:
                yield pos, "expected %s, got %s" % (short(want, 400), why(r) if r[0] != "ok" else short(r[1], 400))


def printed(name, gen, bound):
    return Scenario(name, gen, check_printed, bound=bound, batch=200, describe=describe)


def printed_modules(c):
    is64 = c.pick("is64", [1, 0])
    ptr = 64 if is64 else 32
    strings = ["zero", c.dev("text", L.TXT[1:] + ["", "a\"b", "a{}b", "%s", "a\nb"]), "two"]
    mods = [(field(c, "base", ptr, 0x400000 + 16 * k), field(c, "size", 32, 0x1000), c.dev("path", [1, 0, 2]), 0, 2, 0, 3)
            for k in range(c.pick("modules", [0, 1, 2]))]
    return case(P.Ev(1, 3, u32(9)), is64, procs=[P.Proc(index=1, strs=(0, 0, 1, 1, 2, 0, 0, 0), modules=mods)], strings=strings)


@prop("F04")
def f04(tier):
    d = deep(tier)
    return [printed("process fields", csv_process, 2 if d else 1), printed("times", csv_times, 1), printed("time zones", csv_zones, None), printed("far times", csv_far, None),
            printed("days", csv_days(60000 if d else 12000), None), printed("operations", csv_codes, None),
            printed("sub operations", D.sub_names, None), printed("network", lambda c: D.net(c, False), 1 if d else 0),
            printed("modules", printed_modules, 2 if d else 1)], \
        ["times lie between 1601 and 9999"], \
        "process and module fields: 1 (quick) / 2 (thorough) deviations at full width; 18 days x 24 hours x 7 x 4 fractions; " \
        "12000 / 60000 consecutive days; every operation; 256 sub operation codes"
