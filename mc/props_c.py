"""Configuration (PMC) properties."""
import copy
import io
import os
import tempfile

import pmcref as M
from engine import Scenario, Skip
from impl import *  # noqa: F401,F403
from impl import call, why, lib_config, norm_config, diff_items, short, Font, Rule, Column, RuleAction, RuleRelation, \
    COLUMN_CODES, FONT_ATTRS, Shape

PROPS = {}


def prop(pid):
    def deco(f):
        PROPS[pid] = f
        return f
    return deco


OPTIONS = list(M.KIND)
UNKNOWN = ["FilterRules2", "x", "Columns ", "columns", "é", "\U0001d11e", "N" * 120, "aĀ", "n" * 40000, "filterrules", "FILTERRULES",
                     "FilterRules ", " FilterRules", "Filter Rules", "e\u0301", "BookmarkFont", "logFont", "HighlightFg", "0", "1234",
           "", " ", "\n", "\ufeff"]
NAMES = OPTIONS + UNKNOWN

TEXTS = ["", "a", "C:\\Windows\\help.dll", "é", "Ā", "aĀ", "Āa", "\U0001d11e", "a\U0001d11e\U0001d11eb", "\ufeff",
         "\ufeffx", "\ufffe", "\uffff", " lead", "trail ", "line\r\nbreak", "tab\t", "100%", "{}", "\\", "\"q\"",
         "x" * 127, "x" * 128, "x" * 255, "é" * 256, "\u0a0d" * 3, "\u2028", "\x01", "\x1f", "\ud7ff\ue000",
         "e\u0301", "\u00e9e\u0301", "\u212b", "\u1100\u1161", "\ufb01", "\uff21", "\u00df", "\u0130", "STRASSE", "straße", "end\n",
         "end\r\n", "\n", "\r", "\ttab", " ", "  ", "\u00a0", "\u3000x\u3000", "a\\n", "%SystemRoot%", "$x", "~", "C:/a/b",
         "C:\\", "\\\\srv\\share\\", "a;b;c", "a|b", "\x7f", "\x80", "\x85", "None", "none", "True", "0x1F", "1e3", "inf",
         "nan", "'", "''", "\u200b", "\u200ex\u202e", "\ufdd0", "\U0010ffff"]
LONG = ["x" * 0x7fff, "Ā" * 0x8000, "x" * 40000 + "\U0001d11e" * 20000]
DIGITS = ["0", "1", "00", "007", "1338", "32", "64", "65535", "65536", "2147483647", "2147483648", "4294967295",
          "-1", "+1", "1.5", "0x10", "1 ", " 1", "1,000", "1_000", "12a", "a12"]
HUGE = ["4294967296", "4294967328", "99999999999999999999", "9" * 50, "1" * 4301, "0" * 30 + "7", "８" * 11]
ODD_DIGITS = ["３２", "²", "1²", "①", "٣", "१२", "½", "Ⅷ", "෴", "7੩", "\U0001d7d8", "\U0001d7d9\U0001d7da", "４２９４９６７２９５",
              "４２９４９６７２９６", "²²", "1①"]
ARCH = ["32-bit", "64-bit", "32", "64", "x86", "", "132", "6432", "arm", "3 2", "x32", "a 32-bit b", "is32", "64-bit, 32-bit", " 32", "-32"]
U32 = [0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000,
       0xfffffffe, 0xffffffff, 0x01020304, 0x0d0a0d0a] + [1 << i for i in range(32)]
U16 = [0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x0102]
S32 = [0, 1, -1, 8, -11, 127, 128, -128, 255, 256, 32767, -32768, 65535, 2147483647, -2147483648, 0x01020304]
BYTES = [b"", b"\0", b"\0\0", b"datadatadata", bytes(range(256)), b"\xff" * 3, b"\r\n", b"\x10\0\0\0" * 4, b"\0" * 300,
         b"a" * 70000,
         b" lead trail ", b"text\0", "te\0xt\0\0".encode("utf-16-le"), b"\xff\xfea\0", b"\xef\xbb\xbfa", b"\1\0\0\0", b"\1\0\0\0\0",
         b"\n", b"\n\n", b"\x1a", b"PK", bytes(range(256)) * 300]
FACES = ["", "a", "MS Shell Dlg", "é", "Ā", "\U0001d11e" * 16, "f" * 31, "f" * 32, " ", "Tahoma "]
FONT0 = (8, 0, 0, 0, 400, 0, 0, 0, 0, 0, 0, 0, 0, "MS Shell Dlg")
RULE0 = (40088, 0, 1, "64-bit")


def pick_font(c, rich):
    if not rich:
        return c.pick("font", [FONT0, (-11, 1, -2, 3, 700, 1, 2, 3, 255, 5, 6, 7, 34, "Tahoma"),
                               (2147483647, -2147483648, 0, -1, 1, 255, 254, 253, 252, 251, 250, 249, 248, "f" * 32)])
    out = []
    for i, a in enumerate(FONT_ATTRS):
        if i < 5:
            out.append(c.dev(a, [FONT0[i]] + S32))
        elif i < 13:
            out.append(c.dev(a, [FONT0[i], 1, 2, 127, 128, 255]))
        else:
            out.append(c.dev(a, ["MS Shell Dlg"] + FACES))
    return tuple(out)


def pick_value(c, name, rich, huge=True):
    k = M.kind(name)
    if k == M.INT:
        return c.pick("int", U32 if rich else [0, 1, 0xffffffff, 0x80000000])
    if k in (M.STR, M.STRZ):
        return c.pick("text", TEXTS + LONG if rich else ["", "C:\\x.dll", "aĀ\U0001d11e"])
    if k == M.U16S:
        if not rich:
            return c.pick("widths", [[], [1], [0, 0xffff, 100]])
        n = c.pick("n", [0, 1, 2, 3, 64, 300, 33000, 70000])
        return [c.dev("width", [100] + U16) if i < 3 else i * 7 % 65536 for i in range(n)]
    if k == M.COLS:
        if not rich:
            return c.pick("columns", [[], [40054], [0, 40164, 40052, 40052]])
        n = c.pick("n", [0, 1, 2, 3, 28, 64, 16384, 33000])
        return [c.dev("column", COLUMN_CODES) if i < 3 else COLUMN_CODES[i % 28] for i in range(n)]
    if k == M.FONT:
        return pick_font(c, rich)
    if k == M.RULES:
        n = c.pick("rules", [0, 1, 2, 3] if rich else [0, 1, 2])
        menu = [RULE0, (40071, 6, 0, ""), (40054, 1, 1, "1338"), (40057, 5, 0, "Ā\U0001d11e"), (0, 7, 1, "²"[:0] + "x")]
        if not rich:
            menu = menu[:3]
        return [c.pick("rule", menu) for _ in range(n)]
    return c.pick("bytes", BYTES if rich else [b"", b"\0\x01", b"\x10\0\0\0" * 5])


def gen_single(c):
    name = c.pick("option", NAMES)
    return [(name, pick_value(c, name, True))]


def gen_seq(n_max, names):
    def gen(c):
        n = c.pick("options", list(range(n_max + 1)))
        left, out = list(names), []
        for _ in range(n):
            name = c.pick("option", left)
            left.remove(name)
            out.append((name, pick_value(c, name, False)))
        return out
    return gen


def gen_all(c):
    """Every option at once, in every rotation of the documented order and its reverse."""
    rot = c.pick("rotate", list(range(len(NAMES))))
    names = NAMES[rot:] + NAMES[:rot]
    if c.pick("reverse", [0, 1]):
        names = names[::-1]
    small = {M.INT: 7, M.STR: "C:\\a", M.STRZ: "b", M.U16S: [1, 2], M.COLS: [40054, 0], M.FONT: FONT0,
             M.RULES: [RULE0], M.RAW: b"\1\2"}
    return [(n, small[M.kind(n)]) for n in names]


def gen_rules_product(c):
    col, rel, act = c.pick("column", COLUMN_CODES), c.pick("relation", list(range(8))), c.pick("action", [0, 1])
    val = c.pick("value", ["", "1338", "32-bit"])
    return [(c.pick("option", ["FilterRules", "HighlightRules"]), [(col, rel, act, val)])]


def gen_rule_values(odd_arch):
    """odd_arch: with Architecture rules whose value is made of digits that are not decimal ones (like superscripts),
    for which no derived number is documented."""
    vals = TEXTS + DIGITS + ARCH + HUGE + ODD_DIGITS

    def gen(c):
        col = c.pick("column", [40054, 40088, 40071, 0])
        menu = vals if odd_arch or col != M.ARCHITECTURE else [v for v in vals if not v.isdigit() or v.isdecimal()]
        return [("FilterRules", [(col, c.pick("relation", [0, 5]), 1, c.pick("value", menu))])]
    return gen


def gen_rule_lists(c):
    n = c.pick("rules", [0, 1, 2, 3, 4])
    menu = [RULE0, (40054, 0, 0, "4"), (40054, 0, 1, "4"), (40071, 6, 0, "")]
    return [("Profiling", 1), ("FilterRules", [c.pick("rule", menu) for _ in range(n)]),
            ("HighlightRules", [c.pick("rule2", menu) for _ in range(c.pick("rules2", [0, 1, 2]))])]


def gen_many_rules(c):
    n = c.pick("rules", [24, 25, 127, 128, 255, 256, 257, 1000, 65537])
    base = c.pick("phase", [0, 1, 2, 3]) if n < 2000 else 0
    vals = ["", "a", "bb", "1336"]
    return [("FilterRules", [(COLUMN_CODES[i % 28], i % 8, i % 2, vals[(i + base) % 4] + "v" * (i % 5))
                             for i in range(n)]), ("Autoscroll", 1)]


SEQ_NAMES = ["ColumnCount", "SourcePath", "Logfile", "Columns", "ColumnMap", "LogFont", "FilterRules", "zz"]


def value_scenarios(check, tier, odd_arch=True):
    deep = tier == "thorough"
    return [
        Scenario("one option, rich values", gen_single, check, bound=2 if deep else 1),
        Scenario("option sequences", gen_seq(4 if deep else 3, SEQ_NAMES[:6] if deep else SEQ_NAMES), check)
        if not deep else Scenario("option sequences", gen_seq(3, SEQ_NAMES + ["HighlightFG", "SymbolPath"]), check),
        Scenario("all options, rotations", gen_all, check),
        Scenario("column x relation x action", gen_rules_product, check),
        Scenario("rule values", gen_rule_values(odd_arch), check),
        Scenario("rule lists", gen_rule_lists, check),
        Scenario("long rule lists", gen_many_rules, check, batch=2, horizon=240),
    ]


BOUNDS_VALUES = ("up to 3 options per file in every order over an 8-name alphabet; every option (20 documented + 8 "
                 "undocumented names) alone over the rich value alphabet; all 28x8x2 rule codes; rule lists up to 4 over "
                 "4 rules and up to 1000 rules long; fonts and arrays: all single (quick) / pairs (thorough) of "
                 "deviations per field")


# ------------------------------------------------------------------------------------------------ C01
def chk_c01(batch, st):
    for i, (ch, items) in enumerate(batch):
        st.seen_input(items)
        cfg = lib_config(items)
        st.n["comparisons"] += 1
        r = call(dumps_configuration, cfg)
        if r[0] != "ok":
            yield i, "dump raised " + why(r)
            continue
        if not isinstance(r[1], bytes):
            yield i, "dump returned %s" % type(r[1]).__name__
            continue
        st.outcome(r[1])
        back = call(loads_configuration, r[1])
        if back[0] != "ok":
            yield i, "load of the dumped bytes raised " + why(back)
            continue
        try:
            d = diff_items(items, norm_config(back[1]))
        except Shape as e:
            d = str(e)
        if d:
            yield i, "load(dump(config)) != config: " + d


@prop("C01")
def c01(tier):
    return value_scenarios(chk_c01, tier), \
        ["values are within the documented types and ranges; strings and rule values hold no NUL character"], \
        BOUNDS_VALUES


# ------------------------------------------------------------------------------------------------ C02
def chk_c02(batch, st):
    for i, (ch, items) in enumerate(batch):
        raw = M.build(items)
        st.seen_input(raw)
        st.n["comparisons"] += 2
        r = call(loads_configuration, raw)
        if r[0] != "ok":
            yield i, "load raised " + why(r)
            continue
        try:
            d = diff_items(items, norm_config(r[1]))
        except Shape as e:
            d = str(e)
        if d:
            yield i, "loaded value: " + d
            continue
        w = call(dumps_configuration, r[1])
        if w[0] != "ok":
            yield i, "dump of the loaded configuration raised " + why(w)
        elif w[1] != raw:
            yield i, "dump(load(file)) differs at byte %d: file %s, dumped %s" % first_diff(raw, w[1])
        else:
            st.outcome(raw)


def first_diff(a, b):
    n = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
    return n, a[max(0, n - 8):n + 8].hex(), b[max(0, n - 8):n + 8].hex()


@prop("C02")
def c02(tier):
    return value_scenarios(chk_c02, tier, odd_arch=False), \
        ["files are well formed as the PMC format document says: unknown fields 0/1, integer rule value computed from "
         "the text"], BOUNDS_VALUES


# ------------------------------------------------------------------------------------------------ C03
def chk_c03(batch, st):
    for i, (ch, items) in enumerate(batch):
        st.seen_input(items)
        st.n["comparisons"] += 2
        want = M.build(items)
        out = io.BytesIO()
        r = call(dumps_configuration, lib_config(items))
        w = call(dump_configuration, lib_config(items), out)
        for what, res, got in (("dumps", r, r[1]), ("dump", w, out.getvalue())):
            if res[0] != "ok":
                yield i, "%s raised %s" % (what, why(res))
                break
            if got != want:
                try:
                    p = M.parse(got)
                    extra = "parsed as %s" % short(p, 300)
                except (M.Bad, ValueError, IndexError) as e:
                    extra = "not a well-formed file: %s" % e
                except Exception as e:  # struct.error and friends: malformed
                    extra = "not a well-formed file: %r" % e
                yield i, "%s: bytes differ at %d (expected %s, got %s); %s" % ((what,) + first_diff(want, got) +
                                                                              (extra,))
                break
        else:
            st.outcome(want)


@prop("C03")
def c03(tier):
    return value_scenarios(chk_c03, tier, odd_arch=False), \
        ["same value domain as C01; a rule value that is a decimal number (in the digits of any script) has "
         "this number as its derived one, 0 above 2^32-1; no Architecture rules with digits that are not decimal ones, "
         "like superscripts, for which no derived number is documented; leading zeros make a number of at most 4300 digits"], BOUNDS_VALUES


# ------------------------------------------------------------------------------------------------ C04
DAMAGE_CFGS = [
    [("ColumnCount", 3)],
    [("FilterRules", [RULE0, (40054, 1, 0, "1338")]), ("Autoscroll", 1)],
    [("Autoscroll", 1), ("HighlightRules", [(40071, 6, 0, ""), (40053, 0, 1, "a.exe")])],
    [("ColumnMap", [40054, 40052, 0]), ("Columns", [1, 2, 3])],
    [("Columns", [1, 2, 3]), ("ColumnMap", [40054, 40052, 0])],
    [("LogFont", FONT0), ("SymbolPath", "srv"), ("Logfile", "C:\\x.pml")],
    [("DbgHelpPath", "d"), ("SourcePath", "s"), ("zz", b"\1\2\3")],
    [("HistoryDepth", 0), ("HighlightFG", 0), ("Profiling", 0)],
    [("zz", b""), ("SourcePath", ""), ("ColumnMap", [])],
]


def full_cfg():
    small = {M.INT: 7, M.STR: "C:\\a", M.STRZ: "b", M.U16S: [1, 2], M.COLS: [40054, 0], M.FONT: FONT0,
             M.RULES: [RULE0, (40054, 1, 0, "1338")], M.RAW: b"\1\2"}
    return [(n, small[M.kind(n)]) for n in OPTIONS]


def gen_trunc(c):
    items = c.pick("file", DAMAGE_CFGS + [full_cfg()])
    raw = M.build(items)
    cut = c.pick("cut", list(range(len(raw))))
    return {"items": items, "raw": raw[:cut], "what": "cut to %d of %d bytes" % (cut, len(raw))}


def gen_tail(c):
    items = c.pick("file", DAMAGE_CFGS)
    junk = c.pick("junk", [b"\0", b"\xff", b"\0" * 4, b"\0" * 15, b"\0" * 16, b"\x10\0\0\0", b"\xff" * 16,
                           M.build([("ColumnCount", 3)])[:-1], M.build([("ColumnCount", 3)])[:7]])
    return {"items": items, "raw": M.build(items) + junk, "what": "%d stray bytes at the end" % len(junk)}


def gen_framing(c):
    items = c.pick("file", DAMAGE_CFGS + [full_cfg()])
    raw = bytearray(M.build(items))
    off, width, what = c.pick("field", M.framing(items))
    old = int.from_bytes(raw[off:off + width], "little")
    mx = (1 << (8 * width)) - 1
    new = c.pick("value", sorted({(old + d) & mx for d in (1, -1, 2, -2, 4, -4, 16, -16)} |
                                 {old ^ (1 << k) for k in range(8 * width)} | {0, mx, mx >> 1, mx - old} - {old}))
    if "column" in what and new in COLUMN_CODES or "relation" in what and new < 8 or "action" in what and new < 2:
        raise Skip()
    raw[off:off + width] = new.to_bytes(width, "little")
    return {"items": items, "raw": bytes(raw), "what": "%s changed from %d to %d" % (what, old, new)}


def gen_size(c):
    """A record whose outer sizes agree with each other but not with its typed content."""
    name = c.pick("option", [n for n in OPTIONS if M.kind(n) in (M.INT, M.FONT, M.RULES, M.COLS, M.U16S)])
    small = {M.INT: 7, M.U16S: [1, 2], M.COLS: [40054, 0], M.FONT: FONT0, M.RULES: [RULE0]}
    n, d = M.z(name), M.data(name, small[M.kind(name)])
    delta = c.pick("delta", [-3, -2, -1, 1, 2, 3, 4, 8])
    if M.kind(name) == M.U16S and delta % 2 == 0 or M.kind(name) == M.COLS and (delta % 4 == 0):
        raise Skip()  # a well-formed array of another length (or one with an undefined column, covered elsewhere)
    d2 = d[:delta] if delta < 0 else d + b"\0" * delta
    import struct
    rec = struct.pack("<IIII", 16 + len(n) + len(d2), 16, 16 + len(n), len(d2)) + n + d2
    before, after = c.pick("before", [[], [("Autoscroll", 1)]]), c.pick("after", [[], [("Profiling", 1)]])
    return {"items": before + [(name, None)] + after, "raw": M.build(before) + rec + M.build(after),
            "what": "%s: %d bytes of data instead of %d" % (name, len(d2), len(d))}


def boundary_prefix(items, raw):
    for k in range(len(items) + 1):
        if M.build(items[:k]) == raw:
            return items[:k]
    return None


def chk_c04(batch, st):
    for i, (ch, case) in enumerate(batch):
        raw, items = case["raw"], case["items"]
        st.seen_input(raw)
        st.n["comparisons"] += 1
        want = boundary_prefix(items, raw) if "cut" in case["what"] else None
        for how, r in (("loads", call(loads_configuration, raw)), ("load", call(load_configuration, io.BytesIO(raw)))):
            if r[0] != "ok":
                st.outcome(type(r[1]).__name__)
                if want is not None:
                    yield i, "%s of whole records raised %s" % (how, why(r))
                    break
                continue
            try:
                got = norm_config(r[1])
            except Exception as e:
                got = repr(e)
            if want is None:
                yield i, "%s of a damaged file (%s) succeeded: %s" % (how, case["what"], short(got, 300))
                break
            if got != want:
                yield i, "%s of whole records: %s" % (how, diff_items(want, got))
                break
            st.outcome(raw)


class FaultyRead(object):
    """Delivers the bytes, but the k-th read raises."""

    def __init__(self, raw, k, exc):
        self.s, self.k, self.n, self.exc, self.hit = io.BytesIO(raw), k, 0, exc, False

    def read(self, n=-1):
        self.n += 1
        if self.n == self.k:
            self.hit = True
            raise self.exc
        return self.s.read(n)

    def seek(self, *a):
        return self.s.seek(*a)

    def tell(self):
        return self.s.tell()

    def seekable(self):
        return True

    def readable(self):
        return True


def gen_fault(c):
    items = c.pick("file", DAMAGE_CFGS)
    exc = c.pick("error", [OSError(5, "I/O error"), ValueError("I/O operation on closed file"), EOFError("eof"),
                           RuntimeError("device gone"), KeyError("k")])
    return {"items": items, "k": c.pick("failing read", list(range(1, 61))), "exc": exc}


def chk_fault(batch, st):
    for i, (ch, case) in enumerate(batch):
        f = FaultyRead(M.build(case["items"]), case["k"], case["exc"])
        st.seen_input(ch)
        st.n["comparisons"] += 1
        r = call(load_configuration, f)
        if f.hit:
            st.n["faults"] += 1
            st.outcome(repr(case["exc"]))
            if r[0] == "ok":
                yield i, "read error %r was swallowed: load returned %s" % (case["exc"], short(list(r[1])))
        elif r[0] != "ok":
            yield i, "load raised %s without a fault" % why(r)
        else:
            try:
                d = diff_items(case["items"], norm_config(r[1]))
            except Shape as e:
                d = str(e)
            if d:
                yield i, "no fault: " + d


@prop("C04")
def c04(tier):
    return [Scenario("truncation at every byte", gen_trunc, chk_c04),
            Scenario("stray tail", gen_tail, chk_c04),
            Scenario("framing field corruption", gen_framing, chk_c04),
            Scenario("data size against type", gen_size, chk_c04),
            Scenario("failing reads", gen_fault, chk_fault)], \
        ["damage is one truncation, one appended tail, one changed size/count/code field, or one failing read"], \
        "10 files (20 options in one of them): every byte position; every size, count and code field x ~40-50 wrong " \
        "values (all single-bit flips, off-by-small, extremes); every read call up to the 60th x 6 error types"


# ------------------------------------------------------------------------------------------------ C05
class ReadOnly(object):
    def __init__(self, raw):
        self._s = io.BytesIO(raw)

    def read(self, n=-1):
        return self._s.read(n)


class WriteOnly(object):
    def __init__(self):
        self.b = bytearray()

    def write(self, b):
        self.b += b
        return len(b)


CODEC_CFGS = DAMAGE_CFGS[1:8] + [[], full_cfg()]


def gen_streams(c):
    return {"items": c.pick("config", CODEC_CFGS),
            "load": c.pick("source", ["read-only object", "BytesIO at offset", "file", "raw file", "file at offset",
                                      "pipe", "BufferedReader"]),
            "dump": c.pick("sink", ["write-only object", "BytesIO with tail", "BytesIO at end", "append file",
                                    "append file existing", "file", "raw file", "pipe", "file at offset"])}


def load_from(kind, raw, tmp):
    if kind == "read-only object":
        return load_configuration(ReadOnly(raw))
    if kind == "BytesIO at offset":
        s = io.BytesIO(b"junk!" + raw)
        s.seek(5)
        return load_configuration(s)
    if kind == "pipe":
        r, w = os.pipe()
        if len(raw) > 60000:
            raise Skip()
        os.write(w, raw)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            return load_configuration(f)
    if kind == "BufferedReader":
        return load_configuration(io.BufferedReader(io.BytesIO(raw), 16))
    path = os.path.join(tmp, "in.pmc")
    off = 5 if kind == "file at offset" else 0
    with open(path, "wb") as f:
        f.write(b"junk!"[:off] + raw)
    with open(path, "rb", buffering=0 if kind == "raw file" else -1) as f:
        f.seek(off)
        return load_configuration(f)


def dump_to(kind, cfg, tmp):
    """Returns (bytes that must be ours, bytes that were there around)."""
    if kind == "write-only object":
        s = WriteOnly()
        dump_configuration(cfg, s)
        return bytes(s.b), True
    if kind in ("BytesIO with tail", "BytesIO at end"):
        s = io.BytesIO(b"head" + (b"T" * 20000 if kind == "BytesIO with tail" else b""))
        s.seek(4)
        dump_configuration(cfg, s)
        end, v = s.tell(), s.getvalue()
        return v[4:end], v[:4] == b"head" and v[end:] == b"T" * (20004 - end if kind == "BytesIO with tail" else 0)
    if kind == "pipe":
        r, w = os.pipe()
        with os.fdopen(w, "wb") as f:
            dump_configuration(cfg, f)
        with os.fdopen(r, "rb") as f:
            return f.read(), True
    path = os.path.join(tmp, "out.pmc")
    if os.path.exists(path):
        os.unlink(path)
    head = b""
    if kind in ("append file existing", "file at offset"):
        head = b"head"
        with open(path, "wb") as f:
            f.write(head)
    mode = "ab" if "append" in kind else "r+b" if kind == "file at offset" else "wb"
    with open(path, mode, buffering=0 if kind == "raw file" else -1) as f:
        f.seek(0, 2)
        dump_configuration(cfg, f)
    with open(path, "rb") as f:
        v = f.read()
    return v[len(head):], v[:len(head)] == head


def chk_streams(batch, st):
    with tempfile.TemporaryDirectory(prefix="verif-c05-") as tmp:
        for i, (ch, case) in enumerate(batch):
            items, raw = case["items"], M.build(case["items"])
            st.seen_input((ch,))
            st.n["comparisons"] += 2
            r = call(load_from, case["load"], raw, tmp)
            if r[0] != "ok":
                yield i, "load from %s raised %s" % (case["load"], why(r))
                continue
            try:
                d = diff_items(items, norm_config(r[1]))
            except Shape as e:
                d = str(e)
            if d:
                yield i, "load from %s: %s" % (case["load"], d)
                continue
            w = call(dump_to, case["dump"], lib_config(items), tmp)
            if w[0] != "ok":
                yield i, "dump to %s raised %s" % (case["dump"], why(w))
            elif w[1][0] != raw or not w[1][1]:
                yield i, "dump to %s wrote different bytes or damaged the surrounding ones" % case["dump"]
            else:
                st.outcome((case["load"], case["dump"], raw))


HIST_CFGS = [
    DAMAGE_CFGS[1],
    DAMAGE_CFGS[3],
    DAMAGE_CFGS[5] + [("BoookmarkFont", FONT0), ("zz", b"\1\2")],
    [],
    [("FilterRules", []), ("HighlightRules", []), ("Columns", []), ("ColumnMap", []), ("ColumnCount", 0), ("zz", b"")],
    [("HighlightRules", [RULE0, RULE0, (40054, 1, 0, "1338")]), ("FilterRules", [RULE0, (40054, 1, 0, "1338"), RULE0]),
     ("Columns", [5, 5]), ("ColumnMap", [40054, 40054])],
]
BAD_RAW = M.build(DAMAGE_CFGS[1])[:-3]
HIST_OPS = [(o, k) for o in ("loads", "dumps", "mutate caller's", "round trip") for k in range(6)] + \
    [("loads damaged", 0), ("dumps invalid", 0), ("mutate loaded", 0), ("dumps loaded", 0)]


def gen_history(depth):
    return lambda c: [c.pick("op", HIST_OPS) for _ in range(depth)]


def mutate_all(cfg, items, salt):
    """Change every mutable value of a configuration in place, one after the other; each change must show in that value and
    nowhere else.  Returns (the expected items, what went wrong)."""
    items = [[n, list(v) if isinstance(v, list) else v] for n, v in items]

    def differs(what):
        d = diff_items([(n, v) for n, v in items], norm_config(cfg))
        return "after %s: %s" % (what, d) if d else None
    for it in items:
        name, v = it
        obj, k = cfg[name], M.kind(name)
        if k == M.FONT:
            obj.height, obj.face_name = salt, "f%d" % salt
            it[1] = (salt,) + v[1:13] + ("f%d" % salt,)
            m = differs("changing " + name)
        elif k == M.RULES:
            m = None
            for n, r in enumerate(v):
                obj[n].value, obj[n].action = "mut%d.%d" % (salt, n), RuleAction.INCLUDE
                v[n] = r[:2] + (1, "mut%d.%d" % (salt, n))
                m = m or differs("changing rule %d of %s" % (n, name))
            obj.append(Rule(Column.PID, RuleRelation.IS, "new%d" % salt, RuleAction.EXCLUDE))
            v.append((int(Column.PID), int(RuleRelation.IS), 0, "new%d" % salt))
            m = m or differs("appending to " + name)
        elif k in (M.COLS, M.U16S):
            new = 40052 if k == M.COLS else salt
            obj.append(Column(new) if k == M.COLS else new)
            v.append(new)
            m = differs("appending to " + name)
        else:
            continue
        if m:
            return None, m
    cfg["new"] = b"new"
    items.append(["new", b"new"])
    return [(n, v) for n, v in items if n != "new"] + [("new", b"new")], differs("adding an option")


def chk_history(batch, st):
    for i, (ch, ops) in enumerate(batch):
        st.seen_input(ch)
        live = [[lib_config(it), it] for it in HIST_CFGS]
        held, bad = [], None  # every configuration ever loaded, with what it must still hold
        for k, (op, n) in enumerate(ops):
            st.n["comparisons"] += 1
            try:
                if op == "loads":
                    held.append([loads_configuration(M.build(HIST_CFGS[n])), HIST_CFGS[n]])
                elif op == "dumps":
                    got = dumps_configuration(live[n][0])
                    if got != M.build(live[n][1]):
                        bad = "dumps of configuration %d wrote other bytes" % n
                elif op == "loads damaged":
                    try:
                        loads_configuration(BAD_RAW)
                        bad = "damaged file loaded"
                    except Exception:
                        pass
                elif op == "dumps invalid":
                    try:
                        dumps_configuration({"FilterRules": [Rule(), "x"], "ColumnCount": 3})
                        bad = "invalid configuration dumped"
                    except Exception:
                        pass
                elif op == "mutate loaded" and held:
                    if ("new", b"new") not in held[-1][1]:
                        held[-1][1], bad = mutate_all(held[-1][0], held[-1][1], k + 50)
                elif op == "mutate caller's":
                    if ("new", b"new") not in live[n][1]:
                        live[n][1], bad = mutate_all(live[n][0], live[n][1], k + 50)
                elif op == "dumps loaded" and held:
                    if dumps_configuration(held[-1][0]) != M.build(held[-1][1]):
                        bad = "a loaded configuration dumps other bytes"
                elif op == "round trip":
                    s = io.BytesIO()
                    dump_configuration(live[n][0], s)
                    s.seek(0)
                    held.append([load_configuration(s), live[n][1]])
                if not bad:
                    for what, objs in (("caller's", live), ("earlier loaded", held)):
                        for cfg, items in objs:
                            d = diff_items(items, norm_config(cfg))
                            if d:
                                bad = "the %s configuration is wrong: %s" % (what, d)
            except Exception as e:
                bad = "raised %s: %s" % (type(e).__name__, e)
            if bad:
                yield i, "step %d (%s %d): %s" % (k, op, n, bad)
                break
        else:
            st.outcome(ch)


@prop("C05")
def c05(tier):
    return [Scenario("sources and sinks", gen_streams, chk_streams, batch=32),
            Scenario("operation histories", gen_history(4 if tier == "thorough" else 3), chk_history)], \
        ["streams return what was asked for (no short reads); histories are sequential"], \
        "9 configurations x 7 sources x 9 sinks; every history of 3 (quick) / 4 (thorough) operations over 28 " \
        "operations, every configuration ever loaded or owned by the caller compared after each"


# ------------------------------------------------------------------------------------------------ C06
COLN = M_COLN = None


def _names():
    import pmlref
    return (pmlref.imap(pmlref.T["column_names"]), pmlref.imap(pmlref.T["rule_relation"]),
            pmlref.imap(pmlref.T["rule_action"]))


def forms(code, name, cls):
    return [("enum", cls(code)), ("int", code), ("upper", name.upper()), ("lower", name.lower()),
            ("capitalized", name.capitalize()), ("title", name.title()), ("swapped", name.title().swapcase())]


def gen_rule_forms(c):
    cn, rn, an = _names()
    col = c.pick("column", sorted(cn))
    rel = c.pick("relation", sorted(rn))
    act = c.pick("action", sorted(an))
    cf = c.pick("column form", forms(col, cn[col], Column))
    rf = c.dev("relation form", forms(rel, rn[rel], RuleRelation))
    af = c.dev("action form", forms(act, an[act], RuleAction) + [("bool", bool(act))])
    val = c.dev("value", ["x", "", "1338", "é\U0001d11e", "NONE"])
    return {"args": (cf[1], rf[1], val, af[1]), "want": (col, rel, act, val)}


def chk_rule_forms(batch, st):
    for i, (ch, case) in enumerate(batch):
        st.seen_input(ch)
        st.n["comparisons"] += 1
        col, rel, act, val = case["want"]
        for how in ("positional", "keyword"):
            a = case["args"]
            r = call(Rule, *a) if how == "positional" else \
                call(lambda: Rule(action=a[3], value=a[2], relation=a[1], column=a[0]))
            if r[0] != "ok":
                yield i, "Rule%r raised %s" % (a, why(r))
                break
            g = r[1]
            canon = Rule(Column(col), RuleRelation(rel), val, RuleAction(act))
            if (g.column, g.relation, g.action, g.value) != (Column(col), RuleRelation(rel), RuleAction(act), val) or \
                    not (isinstance(g.column, Column) and isinstance(g.relation, RuleRelation) and
                         isinstance(g.action, RuleAction)):
                yield i, "Rule%r is %r" % (a, (g.column, g.relation, g.value, g.action))
                break
            if not (g == canon) or g != canon or hash(g) != hash(canon) or canon not in {g} or canon not in [g]:
                yield i, "Rule%r is not equal/hash-equal to its canonical form" % (a,)
                break
            back = loads_configuration(dumps_configuration({"FilterRules": [g]}))["FilterRules"]
            if back != [canon]:
                yield i, "Rule%r dumps as %r" % (a, back)
                break
        else:
            st.outcome(case["want"])


def gen_rule_invalid(c):
    field = c.pick("field", ["column", "relation", "action", "value"])
    if field == "value":
        bad = c.pick("bad", [5, None, b"x", 1.5, [], ("a",), True, Column.PID])
    else:
        bad = c.pick("bad", {"column": ["", "foo", "PIDS", "P I D", "process name", 1, -1, 40051, 40059, 40063, 40070,
                                        40165, 1 << 40, None, b"PID"],
                             "relation": ["", "foo", "isnot", "is not", 8, -1, 255, None, "Is_"],
                             "action": ["", "foo", "inc", 2, -1, 255, None, "includes"]}[field])
    kw = {"column": Column.PID, "relation": "is", "value": "1", "action": "include"}
    kw[field] = bad
    return kw


def gen_rule_near(c):
    """Texts which are nearly the name of a column, relation or action."""
    cn, rn, an = _names()
    field = c.pick("field", ["column", "relation", "action"])
    names = {"column": cn, "relation": rn, "action": an}[field]
    code = c.pick("name", sorted(names))
    name = c.pick("case", [str.upper, str.lower])(names[code])
    valid = {n.upper() for n in names.values()}
    near = [" " + name, name + " ", name + "\n", "\t" + name, "\r\n" + name, name + "\0", "\ufeff" + name, name + "\u00a0", name + "\u200b",
            name.replace("_", " "), name.replace("_", "-"), name.replace("_", ""), name.replace("_", "__"), name[1:],
            name[:-1], name + "s", name + "_", "_" + name, name * 2, "%s %s" % (name, name), "not " + name, "not_" + name,
            "Column." + name, "%s.%s" % (type(Column.PID).__name__, name), str(code), hex(code), "%d.0" % code, name[::-1],
            "".join(chr(ord(ch) + 0xfee0) if "!" <= ch <= "~" else ch for ch in name), name.encode(), [name], (name,), {name: 1}]
    near = [v for v in near if not (isinstance(v, str) and v.upper() in valid)]
    kw = {"column": Column.PID, "relation": "is", "value": "1", "action": "include"}
    kw[field] = c.pick("near", near)
    return kw


def chk_rule_invalid(batch, st):
    for i, (ch, kw) in enumerate(batch):
        st.seen_input(ch)
        st.n["comparisons"] += 1
        r = call(lambda: Rule(**kw))
        if r[0] == "ok":
            yield i, "Rule(%r) was accepted" % (kw,)
        elif not isinstance(kw["value"], str) and not isinstance(r[1], TypeError):
            yield i, "Rule(%r) raised %s, not TypeError" % (kw, why(r))
        else:
            st.outcome(type(r[1]).__name__)


EQ_RULES = [(c, r, a, v) for c in (40054, 40055, 0) for r in (0, 1, 7) for a in (0, 1)
            for v in ("", "1", "1 ", "01", "a", "A")]
EQ_TEXTS = ["e\u0301", "\u00e9", "\ufb01", "fi", "ß", "ss", "SS", "ı", "i", "I", "İ", "i\u0307", "Ａ", "A", "a", " a", "a ", "a\n", "\ta",
            "a\u200b", "\ufeffa", "²", "2", "２", "٢", "02", "2.0", "\"a\"", "a;b", "x" * 300, "x" * 301, "None", "\\", "/",
            "C:\\a", "c:\\a", "\ud800", "\udc00", "\u212b", "\u00c5", "A\u030a"]
EQ_CODES = [(c, r, a, "1") for c in COLUMN_CODES for r in range(8) for a in (0, 1)]


def gen_rule_pairs(c):
    return c.pick("left", EQ_RULES), c.pick("right", EQ_RULES)


def gen_text_pairs(c):
    return (40055, 0, 1, c.pick("left", EQ_TEXTS)), (40055, 0, 1, c.pick("right", EQ_TEXTS))


def gen_code_pairs(c):
    return c.pick("left", EQ_CODES), c.pick("right", EQ_CODES)


def chk_rule_pairs(batch, st):
    def mk(t):
        return Rule(Column(t[0]), RuleRelation(t[1]), t[3], RuleAction(t[2]))
    for i, (ch, (a, b)) in enumerate(batch):
        st.n["comparisons"] += 1
        st.seen_input(ch)
        x, y = mk(a), mk(b)
        same = a == b
        if (x == y) is not same or (x != y) is same or (y in [x]) is not same or len({x, y}) != (1 if same else 2):
            yield i, "equality of %r and %r is wrong" % (a, b)
        elif same and hash(x) != hash(y):
            yield i, "equal rules hash differently: %r" % (a,)
        elif x == a or x == None or not (x != "x") or x == object():  # noqa: E711
            yield i, "a rule equals something that is not a rule"
        else:
            st.outcome(same)


DEFAULTS = {"column": (40088, Column.ARCHITECTURE), "relation": (0, RuleRelation.IS), "value": ("64-bit", "64-bit"),
            "action": (1, RuleAction.INCLUDE)}
GIVEN = {"column": (40055, Column(40055)), "relation": (5, RuleRelation(5)), "value": ("v", "v"), "action": (0, RuleAction(0))}


def gen_rule_defaults(c):
    return {"given": [k for k in DEFAULTS if c.pick(k, [0, 1])], "how": c.pick("how", ["keyword", "positional", "afterwards"])}


def chk_rule_defaults(batch, st):
    """Every subset of the constructor's arguments; the others have their documented defaults, whatever was built before."""
    for i, (ch, case) in enumerate(batch):
        st.seen_input(ch)
        st.n["comparisons"] += 1
        names = list(DEFAULTS)
        given = case["given"] if case["how"] != "positional" else names[:len(case["given"])]
        want = {k: (GIVEN if k in given else DEFAULTS)[k] for k in names}
        if case["how"] == "keyword":
            r = call(lambda: Rule(**{k: GIVEN[k][1] for k in given}))
        elif case["how"] == "positional":
            r = call(lambda: Rule(*[GIVEN[k][1] for k in given]))
        else:
            def change():
                other = Rule()
                for k in names:
                    setattr(other, k, GIVEN[k][1])
                x = Rule()
                for k in given:
                    setattr(x, k, GIVEN[k][1])
                return x
            r = call(change)
        if r[0] != "ok":
            yield i, "a rule with %s given raised %s" % (given, why(r))
            continue
        x = r[1]
        full = Rule(*[want[k][1] for k in names])
        got = (x.column, x.relation, x.value, x.action)
        if got != tuple(want[k][1] for k in names) or x != full or hash(x) != hash(full):
            yield i, "a rule with %s given is %r" % (given, got)
            continue
        raw = dumps_configuration({"FilterRules": [x]})
        if raw != M.build([("FilterRules", [tuple(want[k][0] for k in ("column", "relation", "action", "value"))])]):
            yield i, "a rule with %s given dumps as %s" % (given, raw.hex())
            continue
        st.outcome(tuple(given))


@prop("C06")
def c06(tier):
    return [Scenario("defaults", gen_rule_defaults, chk_rule_defaults), Scenario("construction forms", gen_rule_forms, chk_rule_forms, bound=3 if tier == "thorough" else 1),
            Scenario("invalid construction", gen_rule_invalid, chk_rule_invalid),
            Scenario("nearly a name", gen_rule_near, chk_rule_invalid),
            Scenario("equality over all pairs", gen_rule_pairs, chk_rule_pairs),
            Scenario("equality over all pairs of texts", gen_text_pairs, chk_rule_pairs),
            Scenario("equality over all pairs of codes", gen_code_pairs, chk_rule_pairs)], [], \
        "all 28 columns x 8 relations x 2 actions x 7 spellings of the column x single deviations of the other " \
        "spellings; every subset of arguments left out, built 3 ways; 40 invalid arguments; all pairs of 108 rules, of %d texts that are easily confused, of all 448 code " \
        "combinations" % len(EQ_TEXTS)


# ------------------------------------------------------------------------------------------------ C07
def bad_values():
    out = []
    for n in ("ColumnCount", "HighlightFG", "HighlightBG", "AdvancedMode", "Autoscroll", "HistoryDepth", "Profiling",
              "DestructiveFilter", "AlwaysOnTop", "ResolveAddresses"):
        for v in (-1, 1 << 32, (1 << 32) + 5, 1 << 40, 1 << 64, -(1 << 31), 1.5, 5.0, "5", "", None, b"5", b"\0\0\0\0", [1], [], {}):
            out.append((n, v))
    for v in ([70000], [-1], [1, 65536, 2], ["x"], [None], [1.5], 5):
        out.append(("Columns", v))
    for v in ([1], [40051], [Column.PID, 40165], [-1], [None], [1.5], ["no such column"], [1 << 32], 5):
        out.append(("ColumnMap", v))
    for n in ("DbgHelpPath", "Logfile", "SourcePath", "SymbolPath"):
        for v in (5, None, b"bytes", "\ud800", "a\udc00b", ["a"], Rule()):
            out.append((n, v))
    for i, a in enumerate(FONT_ATTRS):
        for v in ((1 << 31, -(1 << 31) - 1, 1 << 32, None, "8") if i < 5 else (256, -1, None, "1") if i < 13 else
                  ("f" * 33, "\U0001d11e" * 17, 5, "\ud800")):
            f = list(FONT0)
            f[i] = v
            out.append(("LogFont" if i % 2 else "BoookmarkFont", tuple(f)))
    out += [("LogFont", 5), ("LogFont", "Tahoma"), ("BoookmarkFont", None)]
    for v in (["SomeString"], [Rule(), None], [5], 5, [Rule(), Rule(), ("a",)]):
        out.append(("FilterRules", v))
    for attr, v in (("column", 3), ("column", 1 << 32), ("column", None), ("relation", 8), ("relation", -1),
                    ("relation", None), ("action", 2), ("action", -1), ("action", 256), ("action", None),
                    ("value", 5), ("value", None), ("value", "\ud800")):
        out.append(("HighlightRules", ("mutated", attr, v)))
    for v in ("text", 5, None, [1], 1.5):
        out.append(("zz", v))
    return out


def gen_bad(c):
    bad = c.pick("invalid", bad_values())
    return {"bad": bad, "before": c.pick("before", [[], [("Autoscroll", 1)], [("FilterRules2", b"x"), ("Profiling", 0)]]),
            "after": c.pick("after", [[], [("AlwaysOnTop", 1)]])}


def mk_bad(name, v):
    if name in ("LogFont", "BoookmarkFont") and isinstance(v, tuple):
        return Font(**dict(zip(FONT_ATTRS, v)))
    if isinstance(v, tuple) and v[0] == "mutated":
        r = Rule()
        setattr(r, v[1], v[2])
        return [Rule(), r]
    return copy.copy(v)


def chk_bad(batch, st):
    for i, (ch, case) in enumerate(batch):
        st.seen_input(ch)
        st.n["comparisons"] += 3
        cfg = lib_config(case["before"])
        cfg[case["bad"][0]] = mk_bad(*case["bad"])
        cfg.update(lib_config([x for x in case["after"] if x[0] != case["bad"][0]]))
        r = call(dumps_configuration, cfg)
        if r[0] == "ok":
            yield i, "%s = %r was dumped as %s" % (case["bad"] + (r[1].hex()[:200],))
            continue
        s, wo = io.BytesIO(b"old content"), WriteOnly()
        s.seek(3)
        r1, r2 = call(dump_configuration, cfg, s), call(dump_configuration, cfg, wo)
        if r1[0] == "ok" or r2[0] == "ok":
            yield i, "%s = %r was dumped to a stream" % case["bad"]
        elif s.getvalue() != b"old content" or wo.b:
            yield i, "a refused dump (%s = %r) left %d bytes in the stream" % (case["bad"] + (len(wo.b),))
        else:
            st.outcome(type(r[1]).__name__)


@prop("C07")
def c07(tier):
    return [Scenario("invalid values", gen_bad, chk_bad)], [], \
        "%d unrepresentable values x 3 preceding x 2 following options" % len(bad_values())


# ------------------------------------------------------------------------------------------------ C08
PRINT_TEXTS = ["System", "", "1338", "a b", "Procmon64.exe", "$Mft", "IRP_MJ_", "FAST IO", "e\u0301", "\U0001d11e", "{}", "{0}", "%s", "%d",
               "100%", "then", "If a is \"b\"", "'", "x" * 300, "a, b", "(", ")", "Rule(", "Column.PID", "\u200e", "\uff21", "\n", "C:\\new\\t",
               "C:\\Windows\\", "$(x)", "{column}", "NONE", "None"]


def gen_rule_text(c):
    cn, rn, an = _names()
    return (c.pick("column", sorted(cn)), c.pick("relation", sorted(rn)), c.pick("action", sorted(an)),
            c.dev("value", PRINT_TEXTS))


def chk_rule_text(batch, st):
    cn, rn, an = _names()
    ns = {"Rule": Rule, "Column": Column, "RuleRelation": RuleRelation, "RuleAction": RuleAction}
    for i, (ch, (col, rel, act, val)) in enumerate(batch):
        st.seen_input(ch)
        st.n["comparisons"] += 3
        rule = Rule(Column(col), RuleRelation(rel), val, RuleAction(act))
        r = call(lambda: (repr(rule), str(rule), repr([rule, rule]), "%s" % rule, "{}".format(rule)))
        if r[0] != "ok":
            yield i, "printing rule %r raised %s" % ((col, rel, act, val), why(r))
            continue
        want = 'Rule(Column.%s, RuleRelation.%s, "%s", RuleAction.%s)' % (cn[col], rn[rel], val, an[act])
        text = 'If %s %s "%s", then %s' % (cn[col].capitalize(), rn[rel].lower(), val, an[act].capitalize())
        got = r[1]
        if got[0] != want or got[2] != "[%s, %s]" % (want, want):
            yield i, "rule %r is represented as %s, expected %s" % ((col, rel, act, val), got[0], want)
        elif set(got[1:2] + got[3:]) != {got[1]} or got[1] != text:
            yield i, "rule %r reads %s, expected %s" % ((col, rel, act, val), got[1], text)
        elif not set(val) & set('"\\\n\r'):
            back = call(lambda: eval(got[0], dict(ns)))
            if back[0] != "ok" or back[1] != rule:
                yield i, "evaluating %s gives %s" % (got[0], why(back) if back[0] != "ok" else repr(back[1]))
            else:
                st.outcome(got[:2])
        else:
            st.outcome(got[:2])


@prop("C08")
def c08(tier):
    return [Scenario("rule texts", gen_rule_text, chk_rule_text)], \
        ["evaluating a representation is only promised for values without quotes, backslashes and line ends"], \
        "all 28 columns x 8 relations x 2 actions x %d values" % len(PRINT_TEXTS)
