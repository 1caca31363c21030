"""Access to the code under test, through its public interface only, and normal forms for comparison."""
import procmon_parser as pp
from procmon_parser import ProcmonLogsReader, load_configuration, loads_configuration, dump_configuration, \
    dumps_configuration, Rule, Column, RuleAction, RuleRelation, PMLError, read_all_events_from_pml  # noqa: F401
from procmon_parser.configuration import Font
from procmon_parser.logs import Module, Process, Event  # noqa: F401

import pmcref
import pmlref

FONT_ATTRS = ("height", "width", "escapement", "orientation", "weight", "italic", "underline", "strikeout", "char_set",
              "out_precision", "clip_precision", "quality", "pitch_and_family", "face_name")


def call(f, *a, **k):
    try:
        return ("ok", f(*a, **k))
    except Exception as e:
        return ("exc", e)


def why(r):
    return "%s: %s" % (type(r[1]).__name__, str(r[1])[:160])


# ---- configurations: model value -> library value and back
def to_lib(name, v):
    k = pmcref.kind(name)
    if k == pmcref.FONT:
        return Font(**dict(zip(FONT_ATTRS, v)))
    if k == pmcref.RULES:
        return [Rule(Column(c), RuleRelation(r), val, RuleAction(a)) for c, r, a, val in v]
    if k == pmcref.COLS:
        return [Column(c) for c in v]
    if k == pmcref.U16S:
        return list(v)
    return v


def lib_config(items):
    return dict((n, to_lib(n, v)) for n, v in items)


class Shape(Exception):
    pass


def _int(x, what):
    if isinstance(x, bool) or not isinstance(x, int):
        raise Shape("%s is %s, not an integer" % (what, type(x).__name__))
    return int(x)


def _text(x, what):
    if not isinstance(x, str):
        raise Shape("%s is %s, not text" % (what, type(x).__name__))
    return x


def from_lib(name, v):
    """Normal form of a library value; raises Shape when it has the wrong type."""
    k = pmcref.kind(name)
    if k == pmcref.INT:
        return _int(v, name)
    if k in (pmcref.STR, pmcref.STRZ):
        return _text(v, name)
    if k == pmcref.FONT:
        return tuple(getattr(v, a) for a in FONT_ATTRS)
    if k == pmcref.RULES:
        if not isinstance(v, list):
            raise Shape(name + " is not a list")
        return [_rule(r) for r in v]
    if k == pmcref.COLS:
        if not isinstance(v, list) or not all(isinstance(c, Column) for c in v):
            raise Shape(name + " is not a list of columns")
        return [int(c) for c in v]
    if k == pmcref.U16S:
        if not isinstance(v, list):
            raise Shape(name + " is not a list")
        return [_int(c, name) for c in v]
    if not isinstance(v, bytes):
        raise Shape("%s is %s, not bytes" % (name, type(v).__name__))
    return v


def _rule(r):
    if not isinstance(r, Rule):
        raise Shape("not a Rule: %r" % (r,))
    if not (isinstance(r.column, Column) and isinstance(r.relation, RuleRelation) and
            isinstance(r.action, RuleAction)):
        raise Shape("rule fields are not enumeration members: %r" % (r,))
    return (int(r.column), int(r.relation), int(r.action), _text(r.value, "rule value"))


def norm_config(cfg):
    return [(n, from_lib(n, v)) for n, v in cfg.items()]


def diff_items(want, got):
    if len(want) != len(got):
        return "expected %d options %r, got %d %r" % (len(want), [n for n, _ in want], len(got), [n for n, _ in got])
    for (n, v), (m, x) in zip(want, got):
        if n != m:
            return "expected option %r, got %r" % (n, m)
        if v != x:
            return "option %r: expected %s, got %s" % (n, short(v), short(x))
    return None


def short(v, n=120):
    s = repr(v)
    return s if len(s) <= n else s[:n // 2] + "..." + s[-n // 2:]


# ---- logs
PROC_ATTRS = ("pid", "parent_pid", "authentication_id", "session", "virtualized", "is_process_64bit", "integrity",
              "user", "process_name", "image_path", "command_line", "company", "version", "description",
              "start_time", "end_time")
MOD_ATTRS = ("base_address", "size", "path", "version", "company", "description", "timestamp")


def proc_key(p):
    return tuple(getattr(p, a) for a in PROC_ATTRS) + (tuple(mod_key(m) for m in p.modules),)


def mod_key(m):
    return tuple(getattr(m, a) for a in MOD_ATTRS)


def ref_proc_key(p):
    return tuple(p[a] for a in PROC_ATTRS) + (tuple(p["modules"]),)


def event_key(e, deep=True):
    """Normal form of a decoded event, comparable with ref_key."""
    d = e.details
    items = [(k, list(v) if isinstance(v, list) else v) for k, v in d.items()]
    return (proc_key(e.process) if deep else e.process.pid, e.tid, int(e.event_class), e.operation, e.date_filetime,
            e.result, e.duration, list(e.stacktrace), e.category, e.path, items)


FIELDS = ("process", "tid", "event class", "operation", "date", "result", "duration", "stack trace", "category",
          "path", "details")


def ref_key(log, e, deep=True):
    p = log.procs[e.proc]
    return (ref_proc_key(p) if deep else p["pid"], e.tid, e.cls, e.operation, e.date, e.result, e.duration, e.stack,
            e.category, e.path, e.details)


def typed(v):
    if isinstance(v, list):
        return [typed(x) for x in v]
    if isinstance(v, tuple):
        return tuple(typed(x) for x in v)
    if isinstance(v, bool):
        return ("bool", v)
    if isinstance(v, int):
        return int(v)
    return v


def diff_key(want, got):
    for f, a, b in zip(FIELDS, want, got):
        if a != b or typed(a) != typed(b):
            if f == "details":
                da, db = dict(a), dict(b)
                for k in list(da) + [k for k in db if k not in da]:
                    x, y = da.get(k, "<absent>"), db.get(k, "<absent>")
                    if x != y or typed(x) != typed(y):
                        return "detail %r: expected %s, got %s" % (k, short(x), short(y))
                return "details order: expected %r, got %r" % ([k for k, _ in a], [k for k, _ in b])
            return "%s: expected %s, got %s" % (f, short(a), short(b))
    return None


COLUMN_CODES = sorted(pmlref.imap(pmlref.T["column_names"]))
