"""Repeated use: every short sequence of operations, repeated in a cycle, reaches a state of the process that no longer grows."""
import copy
import gc
import io
import pickle
import tempfile
import tracemalloc

import pmcref as M
from engine import Scenario
from impl import ProcmonLogsReader, read_all_events_from_pml, load_configuration, loads_configuration, dump_configuration, \
    dumps_configuration, Rule, lib_config, call
import props_c as C
import props_t as T

PROPS = {}
# cycles before the first interval and in each of the three; the later ones when an accumulation is suspected: by then caches
# of a bounded size are full
STAGES = [(25, 30), (150, 60), (1100, 300)]
PER_CYCLE = 4  # bytes: half a pointer


def prop(pid):
    def deco(f):
        PROPS[pid] = f
        return f
    return deco


def _refused(f, *a):
    r = call(f, *a)
    if r[0] == "ok":
        raise AssertionError("was not refused")


def _log(is64=1):
    return T.log_of(is64, 0)[0]


def _damaged():
    """A log whose third event has an operation that does not exist."""
    data = bytearray(_log())
    rd = T.P.RefLog(bytes(data))
    data[rd.offsets[2] + 12:rd.offsets[2] + 14] = b"\xff\xff"
    return bytes(data)


HELD = {}


def held(name, make):
    """An object that lives through the whole sequence."""
    if name not in HELD:
        HELD[name] = make()
    return HELD[name]


def _reader(**k):
    return ProcmonLogsReader(io.BytesIO(_log()), **k)


class Dripping(object):
    """A stream that fails at its n-th read."""

    def __init__(self, data, n):
        self.f, self.n = io.BytesIO(data), n

    def read(self, size=-1):
        self.n -= 1
        if self.n == 0:
            raise OSError("disk")
        return self.f.read(size)

    def seek(self, *a):
        return self.f.seek(*a)

    def tell(self):
        return self.f.tell()


def _half(rd, n):
    for _, e in zip(range(n), rd):
        e.get_compatible_csv_info()


def _abandoned():
    try:
        _half(_reader(), 2)
        raise KeyError("the caller's own")
    except KeyError:
        pass


def _use_event(e):
    d = e.get_compatible_csv_info()
    str(e), repr(e), hash(e), e == e, e.date(), e.date(False), e.process == e.process, str(e.process), repr(e.process.modules)
    return d


def _edit_event():
    e = held("reader", _reader)[4]
    e.details["x"] = "y" * 100
    e.stacktrace.append(5)
    e.path += "z"


CONFIG = [x for x in C.full_cfg() if x[0] in ("Columns", "FilterRules", "LogFont", "Logfile", "Autoscroll", "SymbolPath")]
RAW = M.build(CONFIG)


def _edit_config():
    c = loads_configuration(RAW)
    c["FilterRules"].append(Rule("pid", "is", "5"))
    c["new"] = b"x" * 100
    return dumps_configuration(c)


def _file():
    f = tempfile.NamedTemporaryFile(prefix="mc_repeat_")
    f.write(_log())
    f.flush()
    return f


def _open_file():
    with open(held("file", _file).name, "rb") as f:
        return ProcmonLogsReader(f)[1]


def _ops():
    n = T.KINDS
    ops = {
        "open": lambda: _reader(),
        "open, 32 bit": lambda: ProcmonLogsReader(io.BytesIO(_log(0))),
        "open without details": lambda: _reader(should_get_details=False, should_get_stacktrace=False)[3],
        "describe": lambda: (lambda r: (len(r), r.processes(), r.system_details()))(_reader()),
        "read a path": lambda: read_all_events_from_pml(held("file", _file).name),
        "open a file": _open_file,
        "read all": lambda: read_all_events_from_pml(io.BytesIO(_log())),
        "list": lambda: list(_reader()),
        "half an iteration": lambda: _half(_reader(), 2),
        "abandoned iteration": _abandoned,
        "refused file": lambda: _refused(ProcmonLogsReader, io.BytesIO(b"PML?" + _log()[4:])),
        "unclosed file": lambda: _refused(ProcmonLogsReader, io.BytesIO(_log()[:0x240] + bytes(0x60) + _log()[0x2a0:])),
        "cut file": lambda: _refused(ProcmonLogsReader, io.BytesIO(_log()[:-200])),
        "failing open": lambda: [_refused(ProcmonLogsReader, Dripping(_log(), k)) for k in (1, 5, 60)],
        "failing read all": lambda: _refused(read_all_events_from_pml, Dripping(_log(), T.KINDS * 2 + 100)),
        "event that cannot be decoded": lambda: (lambda r: (_refused(lambda: r[2]), r[1], _refused(lambda: r[:])))(
            ProcmonLogsReader(io.BytesIO(_damaged()))),
        "held: such an event": lambda: _refused(lambda: held("damaged", lambda: ProcmonLogsReader(io.BytesIO(_damaged())))[2]),
        "held: index": lambda: held("reader", _reader)[3],
        "held: every index": lambda: [held("reader", _reader)[k] for k in range(-n, n)],
        "held: slice": lambda: held("reader", _reader)[2:7],
        "held: bad index": lambda: [_refused(lambda: held("reader", _reader)[k]) for k in (n, -n - 1, "a", None, 1.5)],
        "held: next": lambda: call(next, held("reader", _reader)),
        "held: iteration": lambda: [e for e in held("reader", _reader)],
        "held: iter": lambda: iter(held("reader", _reader)),
        "held: processes": lambda: (len(held("reader", _reader)), held("reader", _reader).processes()),
        "held: system details": lambda: held("reader", _reader).system_details(),
        "held: two readers": lambda: [held(x, _reader)[k] for k in range(n) for x in ("reader", "second")],
        "held: edited event": _edit_event,
        "held: formatting": lambda: [_use_event(e) for e in held("events", lambda: _reader()[::3])],
        "held: relative times": lambda: [e.get_compatible_csv_info(held("events", lambda: _reader()[::3])[0].date_filetime)
                                         for e in held("events", lambda: _reader()[::3])],
        "formatting": lambda: [_use_event(e) for e in _reader()[:n // 4]],
        "copies": lambda: [(copy.copy(e), copy.deepcopy(e), pickle.loads(pickle.dumps(e))) for e in held("events", lambda: _reader()[::3])],
        "sets": lambda: (set(held("events", lambda: _reader()[::3])), {p: 1 for p in _reader().processes()}),
        "loads": lambda: loads_configuration(RAW),
        "load": lambda: load_configuration(io.BytesIO(RAW)),
        "dumps": lambda: dumps_configuration(lib_config(CONFIG)),
        "dump": lambda: dump_configuration(lib_config(CONFIG), io.BytesIO()),
        "held: dumps": lambda: dumps_configuration(held("configuration", lambda: loads_configuration(RAW))),
        "edited configuration": _edit_config,
        "refused configuration": lambda: [_refused(loads_configuration, RAW[:k]) for k in (3, len(RAW) - 1)],
        "failing load": lambda: _refused(load_configuration, Dripping(RAW, 1)),
        "refused dump": lambda: [_refused(dumps_configuration, {"FilterRules": [Rule(), 5]}), _refused(dumps_configuration, {"Autoscroll": "x"})],
        "rules": lambda: [(str(r), repr(r), hash(r), r == Rule()) for r in (Rule(), Rule("pid", "IS_not", "5", "exclude"), Rule(value="\u00e9" * 9))],
        "refused rules": lambda: [_refused(Rule, *a) for a in (("nothing",), ("pid", "nothing"), ("pid", "is", 5), ("pid", "is", "5", "nothing"))],
    }
    return ops


OPS = _ops()
NAMES = sorted(OPS)


def size():
    gc.collect()
    return tracemalloc.get_traced_memory()[0]


def repeat(ops, n):
    for _ in range(n):
        for op in ops:
            op()


def intervals(ops, warm, n):
    """The growth over three intervals of n cycles each."""
    repeat(ops, warm)
    sizes = [size()]
    for _ in range(3):
        repeat(ops, n)
        sizes.append(size())
        if sizes[-1] - sizes[-2] < PER_CYCLE * n:
            break
    return [b - a for a, b in zip(sizes, sizes[1:])]


def grows(ops):
    """Bytes per cycle by which the process grows for good, or None"""
    for warm, n in STAGES:
        g = intervals(ops, warm, n)
        if len(g) < 3 or min(g) < PER_CYCLE * n:
            return None
    return sum(g) / (3.0 * n)


def sequences(names, length):
    def gen(c):
        return tuple(c.pick("call %d" % (k + 1), names) for k in range(length))
    return gen


def run(cases):
    out = []
    tracemalloc.start()
    for case in cases:
        HELD.clear()
        try:
            out.append(grows([OPS[name] for name in case]))
        except Exception as e:
            out.append("%s: %s" % (type(e).__name__, e))
    HELD.clear()
    return out, 0


def chk(batch, st):
    cases = [case for _, case in batch]
    out = T.in_child(run, cases)
    if isinstance(out[0], str):
        if len(cases) > 1:
            raise RuntimeError(out[0])  # the engine bisects the batch
        out = [[out[0]]]
    for i, (ch, case) in enumerate(batch):
        st.seen_input(case)
        st.n["comparisons"] += 1
        st.n["states"] += 1
        g = out[0][i]
        st.outcome((case, g is None))
        if isinstance(g, str):
            yield i, "%s: %s" % (" + ".join(case), g)
        elif g is not None:
            yield i, "repeating %s: the process grows by %d bytes every time and does not stop" % (" + ".join(case), g)


PAIRS = ["open", "read a path", "half an iteration", "abandoned iteration", "refused file", "cut file", "failing open", "event that cannot be decoded",
         "held: index", "held: slice", "held: bad index", "held: next", "held: iteration", "held: iter", "held: edited event",
         "held: such an event", "held: two readers", "copies", "loads", "dumps", "held: dumps", "edited configuration", "refused configuration",
         "refused dump", "rules"]


@prop("R08")
def r08(tier):
    d = tier == "thorough"
    few = [p for p in PAIRS if p.startswith("held")] + ["open", "refused file", "loads"]
    return [Scenario("single calls", sequences(NAMES, 1), chk, batch=1, horizon=400, enough=2),
            Scenario("pairs", sequences(NAMES if d else PAIRS, 2), chk, batch=1, horizon=400, enough=2)] + \
        ([Scenario("triples", sequences(few, 3), chk, batch=1, horizon=400, enough=2)] if d else []), \
        ["growth of less than %d bytes per cycle is not seen; caches of up to %d entries are not taken for an accumulation" % (PER_CYCLE, STAGES[-1][0]),
         "the same contents in every cycle: a cache by contents that is never emptied is not seen"], \
        "%d calls and all pairs of %d of them (all; and triples), repeated %d times and more until the memory of the process is the same " \
        "after a cycle as before it" % (len(OPS), len(PAIRS), sum(STAGES[0]))
