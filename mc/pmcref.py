"""Reference model of the PMC configuration format (docs/PMC Format.md): a boring writer and parser on struct.

Shares no code with procmon_parser.  Values: int, str, bytes, list of int (Columns, ColumnMap), 14-tuples (fonts),
list of (column, relation, action, value) (rules).
"""
import struct
import unicodedata

INT, STRZ, STR, U16S, COLS, FONT, RULES, RAW = "int", "strz", "str", "u16s", "cols", "font", "rules", "raw"
KIND = {"Columns": U16S, "ColumnCount": INT, "ColumnMap": COLS, "DbgHelpPath": STR, "Logfile": STR,
        "HighlightFG": INT, "HighlightBG": INT, "LogFont": FONT, "BoookmarkFont": FONT, "AdvancedMode": INT,
        "Autoscroll": INT, "HistoryDepth": INT, "Profiling": INT, "DestructiveFilter": INT, "AlwaysOnTop": INT,
        "ResolveAddresses": INT, "SourcePath": STRZ, "SymbolPath": STRZ, "FilterRules": RULES,
        "HighlightRules": RULES}
COLUMN_NONE, ARCHITECTURE = 0, 40088


def kind(name):
    return KIND.get(name, RAW)


def u(s):
    return s.encode("utf-16-le")


def z(s):
    return u(s) + b"\0\0" if s else b""


def int_value(column, value):
    if value.isdecimal():  # the decimal digits of any script
        number = 0
        for ch in value:
            number = min(number * 10 + unicodedata.decimal(ch), 2 ** 32)
        return number if number < 2 ** 32 else 0
    if column == ARCHITECTURE:
        return 32 if "32" in value else 64
    return 0


def font(t):
    face = u(t[13])
    assert len(face) <= 64
    return struct.pack("<5i8B", *t[:13]) + face.ljust(64, b"\0")


def rule(r, iv=None):
    col, rel, act, val = r
    raw = z(val)
    return struct.pack("<IIBI", col, rel, act, len(raw)) + raw + \
        struct.pack("<II", int_value(col, val) if iv is None else iv, 0)


def data(name, v):
    k = kind(name)
    if k == INT:
        return struct.pack("<I", v)
    if k == STRZ:
        return z(v)
    if k == STR:
        return u(v)
    if k == U16S:
        return struct.pack("<%dH" % len(v), *v)
    if k == COLS:
        return struct.pack("<%dI" % len(v), *v)
    if k == FONT:
        return font(v)
    if k == RULES:
        return struct.pack("<BI", 1, len(v)) + b"".join(rule(r) for r in v)
    return bytes(v)


def record(name, v):
    n, d = z(name), data(name, v)
    return struct.pack("<IIII", 16 + len(n) + len(d), 16, 16 + len(n), len(d)) + n + d


def build(items):
    return b"".join(record(n, v) for n, v in items)


class Bad(Exception):
    pass


def _z(raw):
    if not raw:
        return ""
    if len(raw) % 2 or raw[-2:] != b"\0\0":
        raise Bad("string not terminated")
    return raw[:-2].decode("utf-16-le")


def parse(b):
    """Strict parser: every size must be exact."""
    out, p = [], 0
    while p < len(b):
        if p + 16 > len(b):
            raise Bad("short record header")
        size, hdr, hn, dn = struct.unpack_from("<IIII", b, p)
        if hdr != 16 or size != hn + dn or hn < 16 or p + size > len(b):
            raise Bad("record sizes at %d: %r" % (p, (size, hdr, hn, dn)))
        name = _z(b[p + 16:p + hn])
        out.append((name, _value(name, b[p + hn:p + size])))
        p += size
    return out


def _value(name, d):
    k = kind(name)
    if k == INT:
        if len(d) != 4:
            raise Bad("int size")
        return struct.unpack("<I", d)[0]
    if k == STRZ:
        return _z(d)
    if k == STR:
        return d.decode("utf-16-le")
    if k == U16S:
        return list(struct.unpack("<%dH" % (len(d) // 2), d))
    if k == COLS:
        return list(struct.unpack("<%dI" % (len(d) // 4), d))
    if k == FONT:
        if len(d) != 92:
            raise Bad("font size")
        face = d[28:].decode("utf-16-le")
        return struct.unpack("<5i8B", d[:28]) + (face.rstrip("\0"),)
    if k == RULES:
        one, n = struct.unpack_from("<BI", d)
        if one != 1:
            raise Bad("rules version byte")
        p, rules = 5, []
        for _ in range(n):
            col, rel, act, vn = struct.unpack_from("<IIBI", d, p)
            p += 13
            val = _z(d[p:p + vn])
            p += vn
            iv, res = struct.unpack_from("<II", d, p)
            p += 8
            if res:
                raise Bad("reserved")
            rules.append((col, rel, act, val, iv))
        if p != len(d):
            raise Bad("rules size")
        return rules
    return d


def framing(items):
    """Offsets of every size/tag field of build(items): list of (offset, width, what)."""
    out, p = [], 0
    for name, v in items:
        n, d = z(name), data(name, v)
        for i, what in enumerate(("record size", "header size", "header+name size", "data size")):
            out.append((p + 4 * i, 4, "%s: %s" % (name, what)))
        q = p + 16 + len(n)
        if kind(name) == RULES:
            out += [(q, 1, name + ": version byte"), (q + 1, 4, name + ": rule count")]
            q += 5
            for i, r in enumerate(v):
                out += [(q, 4, "%s[%d]: column" % (name, i)), (q + 4, 4, "%s[%d]: relation" % (name, i)),
                        (q + 8, 1, "%s[%d]: action" % (name, i)), (q + 9, 4, "%s[%d]: value size" % (name, i))]
                q += 13 + len(z(r[3])) + 8
        elif kind(name) == COLS:
            out += [(q + 4 * i, 4, "%s[%d]: column" % (name, i)) for i in range(len(v))]
        p += 16 + len(n) + len(d)
    return out
