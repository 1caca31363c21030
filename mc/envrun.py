"""Reads and writes a fixed set of logs and configurations in the environment this process was given, and prints what is wrong.

    envrun.py REPO SETUP..."""
import json
import os
import sys

REPO = sys.argv[1]
sys.path[:0] = [REPO, os.path.dirname(os.path.abspath(__file__))]


def prepare(what):
    if what == "locale":
        import locale
        try:
            locale.setlocale(locale.LC_ALL, "")
        except locale.Error:
            pass  # this machine has no such locale
    elif what == "decimal":
        import decimal
        decimal.setcontext(decimal.Context(prec=2, rounding=decimal.ROUND_UP))
    elif what == "collector off":
        import gc
        gc.disable()
    elif what == "collector eager":
        import gc
        gc.set_threshold(1, 1, 1)
    elif what == "traced":
        def tracer(frame, event, arg):
            return tracer
        sys.settrace(tracer)
    elif what == "profiled":
        sys.setprofile(lambda *a: None)
    elif what == "no stdout":
        sys.__stdout__, sys.stdout, sys.stderr = sys.stdout, None, None
    elif what == "small stack":
        sys.setrecursionlimit(250)
    elif what == "other directory":
        os.chdir("/")
    elif what == "thread":
        pass
    elif what == "getcwd fails":
        import tempfile
        d = tempfile.mkdtemp()
        os.chdir(d)
        os.rmdir(d)
    elif what == "modules reloaded":
        import importlib
        import procmon_parser
        for n in sorted(sys.modules):
            if n.startswith("procmon_parser."):
                del sys.modules[n]
        del sys.modules["procmon_parser"]
        importlib.import_module("procmon_parser")


def battery():
    import io
    import struct
    import tempfile
    import pmcref as M
    import pmlref as P
    import props_c as C
    import props_d as D
    import props_f as F
    import props_l as L
    import props_x as X
    from impl import call, why, lib_config, norm_config, loads_configuration, dumps_configuration, ProcmonLogsReader, Rule, PMLError, \
        read_all_events_from_pml, event_key, Column
    bad = []

    def note(what, m):
        if m:
            bad.append("%s: %s" % (what, m))
    for which in sorted(X.LOGS):
        for is64 in (0, 1):
            data, want = X.log_bytes(which, is64)
            note("%s, is64=%d" % (which, is64), X.judge(data, want))
            log, rd = P.RefLog(data), ProcmonLogsReader(io.BytesIO(data))
            first = log.event(0).date
            for k in range(log.count):
                ref, e = log.event(k), rd[k]
                g = call(e.get_compatible_csv_info, first)
                w = P.csv_record(log, ref, first)
                if g != ("ok", w):
                    note("CSV of event %d of %s" % (k, which), why(g) if g[0] != "ok" else repr([(a, w.get(a), b) for a, b in g[1].items()
                                                                                              if w.get(a) != b])[:300])
                g = call(lambda: (str(e), e.date()))
                t = P.t_date(ref.date, True)
                if g[0] != "ok" or not g[1][0].endswith("Time=" + t) or P.t_date(ref.date, False) != \
                        g[1][1].strftime("%m/%d/%Y %I:%M:%S ").lstrip("0").replace("/0", "/").replace(" 0", " ") + \
                        ("AM" if g[1][1].hour < 12 else "PM"):
                    note("text or date of event %d of %s" % (k, which), repr(g))
            # damage
            for at, v in [(0, b"pml_"), (4, b"\x08"), (0x240, b"\0" * 8), (0x398, b"\0"), (0x3a0, b"\0" * 8), (0x234, b"\xff" * 4),
                          (0x248, b"\xff" * 8)]:
                d = X.apply(data, at, ("set", v))
                note("%s damaged at %d" % (which, at), X.judge(d, X.expected(d), want))
            for o in log.offsets:
                for v in (1, 51, 52, 53, 1 << 31, (1 << 32) - 1):
                    d = X.apply(data, o + 0x30, ("set", struct.pack("<I", v)))
                    note("%s, extra data at %d" % (which, v), X.judge(d, X.expected(d), want))
                for at, v in ((0, b"\xff" * 4), (8, b"\xff"), (12, b"\xff"), (0x28, b"\xff\xff"), (0x2c, b"\xff" * 4), (0x2c, b"\1\0\0\0")):
                    d = X.apply(data, o + at, ("set", v))
                    note("%s, event damaged at %d" % (which, at), X.judge(d, X.expected(d), want))
            for n in range(0, len(data), 61):
                d = data[:n]
                note("%s cut at %d" % (which, n), X.judge(d, X.expected(d), want))
    for path in ("log.pml", "l\xf6g \u3042.pml"):
        with tempfile.TemporaryDirectory(dir="/tmp") as tmp:
            p = os.path.join(os.fsencode(tmp), path.encode())
            data, want = X.log_bytes("all kinds", 1)
            with open(p, "wb") as f:
                f.write(data)
            g = call(lambda: [event_key(e) for e in read_all_events_from_pml(p)])
            note("reading %a" % path, None if g == ("ok", want[3]) else why(g) if g[0] != "ok" else "differs")
    for x in (0, 7):
        items = C.gen_all(X.Fixed(x))
        cfg = lib_config(items)
        g = call(lambda: dumps_configuration(cfg))
        note("configuration %d" % x, None if g == ("ok", M.build(items)) else why(g) if g[0] != "ok" else "dumped differently")
        raw = M.build(items)
        g = call(lambda: norm_config(loads_configuration(raw)))
        note("configuration %d" % x, None if g == ("ok", items) else why(g) if g[0] != "ok" else "loaded differently")
        for n in list(range(1, 400, 37)) + list(range(401, len(raw), 9973)):
            g = call(loads_configuration, raw[:n])
            pre = C.boundary_prefix(items, raw[:n])
            if (g[0] == "ok") != (pre is not None):
                note("configuration cut at %d" % n, repr(g)[:200])
        for k in (0, 4, 8, 12):
            d = X.apply(raw, k, ("add", 1))
            g = call(loads_configuration, d)
            if g[0] == "ok":
                note("configuration damaged at %d" % k, repr(g)[:200])
    for name, v in C.bad_values():
        b = call(lambda: {name: C.mk_bad(name, v)})
        if b[0] == "ok":
            g = call(dumps_configuration, b[1])
            if g[0] == "ok":
                note("%s=%r was dumped" % (name, v), repr(g[1])[:100])
    for v in ("no such", 5, None):
        if call(lambda: Rule(column=v))[0] == "ok" or call(lambda: Rule(value=5))[0] == "ok" or call(lambda: Rule(action=v))[0] == "ok":
            note("Rule(%r)" % (v,), "accepted")
    for col in (Column.PID, Column.DATE_AND_TIME, "path", "Path"):
        if str(Rule(col, "is", "x")) != "If %s is \"x\", then Include" % (col if isinstance(col, str) else col.name).capitalize():
            note("text of a rule", str(Rule(col, "is", "x")))
    return bad


if __name__ == "__main__":
    for w in sys.argv[2:]:
        prepare(w)
    if "thread" in sys.argv[2:]:
        import threading
        threading.stack_size(256 * 1024)
        box = []
        t = threading.Thread(target=lambda: box.append(battery()))
        t.start()
        t.join()
        out = box[0] if box else ["the thread died"]
    else:
        out = battery()
    sys.settrace(None)
    sys.setprofile(None)
    import procmon_parser
    print(json.dumps({"bad": out, "from": procmon_parser.__file__}), file=sys.stdout or sys.__stdout__)
