"""C13-C19: device commands and requests against a scripted gateway."""
from __future__ import annotations

import calendar
import datetime as dt
import ipaddress
import json
import re

from hypothesis import strategies as st

import frames as F
import pure
import talk
from core import Ctx, Facet, HarnessError, Violation, check, expect_equal, fresh_lib, lib
from registry_types import Property
from sim import outcome
from talk import COMMANDS, Gateway, collect, make, spread

ACK, NACK = "*#*1##", "*#*0##"
_where = st.one_of(st.sampled_from(["11", "0110", "1015", "00", "0", "5", "#1", "#255", "11#4#01", "0#4#15", "99", "100", "1", "0015"]),
                   F.where_text.filter(lambda s: s != ""))
_form = st.sampled_from(["str", "Where", "cached"])
_session = st.sampled_from(["CommandSession", "CommandSession", "OldCommandSession"])
_delay = st.sampled_from([0, 0, 0, 0.2, 2, 4.5])
_cuts = st.one_of(st.just([]), st.just([]), st.lists(st.integers(0, 60), max_size=4))
# single frames that are not an acknowledgement
NOT_ACK = ["*#*0##", "*#*0##", "*#*0##", "*1*1*11##", "*2*0*11##", "*#1*11##", "*#1*11*1##", "*#1*11*1*150*20##", "*#13**#0*1##", "*99*1##",
           "*7*9##", "*9*1*1##", "*#*1*1##", "*#*11##", "*#*01##", "*#*10##", "*##", "*1##", "*#1##", "*#603356072##", "*#*2##", "*#*1*##"]

# --------------------------------------------------------------------------- C13

_speed = st.one_of(st.none(), st.sampled_from([0, 1, 255]), st.integers(0, 255))
_pct = st.one_of(st.none(), st.sampled_from([0, 1, 100]), st.integers(0, 100))
ARGS = {
    ("Dimmer", "turn_on"): st.one_of(st.tuples(), st.tuples(_speed)),
    ("Dimmer", "turn_off"): st.one_of(st.tuples(), st.tuples(_speed)),
    ("Dimmer", "up_percent"): st.one_of(st.tuples(), st.tuples(_pct), st.tuples(_pct, _speed)),
    ("Dimmer", "down_percent"): st.one_of(st.tuples(), st.tuples(_pct), st.tuples(_pct, _speed)),
    ("Dimmer", "set_brightness_with_speed"): st.tuples(st.integers(100, 200), st.integers(0, 255)),
    ("Dimmer", "set_hsv"): st.tuples(st.integers(0, 359), st.integers(0, 100), st.integers(0, 100)),
    ("Dimmer", "set_white_temperature"): st.tuples(st.one_of(st.integers(1, 65534), st.sampled_from([1, 65534, 153]))),
    ("Light", "temporization_command"): st.tuples(st.integers(0, 23), st.integers(0, 59), st.integers(0, 59)),
    ("Dimmer", "temporization_command"): st.tuples(st.integers(0, 23), st.integers(0, 59), st.integers(0, 59)),
    ("Camera", "display_dial"): st.tuples(st.integers(1, 4), st.integers(1, 4)),
}
_with_args = sorted(ARGS)
_cmd_name = st.one_of(st.sampled_from(sorted(COMMANDS)), st.sampled_from(_with_args))
command = _cmd_name.flatmap(lambda k: st.tuples(st.just(list(k)), ARGS.get(k, st.just(())).map(list))).map(
    lambda x: {"cls": x[0][0], "method": x[0][1], "args": x[1]})
_reply = st.one_of(
    st.builds(lambda d: {"kind": "ack", "delay": d}, _delay),
    st.builds(lambda d: {"kind": "ack", "delay": d}, _delay),
    st.builds(lambda t, d: {"kind": "frame", "text": t, "delay": d}, st.one_of(st.sampled_from(NOT_ACK), F.well_formed_frame.filter(
        lambda f: F.claimed(f) and F.classify(F.split(f)) not in (None, {"kind": "ACK"}))), _delay),
    st.just({"kind": "silence"}),
)
c13_case = st.fixed_dictionaries({
    "session": _session,
    "pool": st.lists(st.tuples(_where, _form).map(list), min_size=1, max_size=2),
    "cmds": st.lists(st.builds(lambda c, i, r, k: {**c, "item": i, "reply": r, "cuts": k}, command, st.integers(0, 1), _reply,
                               _cuts), min_size=1, max_size=6)})


def _judge(L, reply, kind, val, what):
    if reply["kind"] == "ack":
        check(kind == "ok", "%s was acknowledged but ended %s %r", what, kind, val)
        check(val is None, "%s returned %r", what, val)
    elif reply["kind"] == "silence":
        check(kind == "err" and isinstance(val, TimeoutError), "%s was never answered but ended %s %r", what, kind, val)
    else:
        check(kind == "err" and isinstance(val, L.exc.ResponseError), "%s was answered with %s but ended %s %r", what, reply["text"], kind,
              val)


def _script(reply, cuts):
    if reply["kind"] == "silence":
        return []
    return spread([ACK if reply["kind"] == "ack" else reply["text"]], [reply["delay"]], cuts)


def c13(case, ctx: Ctx):
    L = lib()
    items: dict = {}
    with Gateway(L, case["session"]) as g:
        for c in case["cmds"]:
            where, form = case["pool"][c["item"] % len(case["pool"])]
            c = {**c, "where": where}
            want = COMMANDS[c["cls"], c["method"]](c["where"], *c["args"])
            what = f"{c['cls']}({c['where']}).{c['method']}{tuple(c['args'])}"
            if (c["cls"], where) not in items:
                items[c["cls"], where] = make(L, g.client, c["cls"], where, form)
            item = items[c["cls"], where]
            kind, val, sent = g.run(getattr(item, c["method"])(*c["args"]), [_script(c["reply"], c["cuts"])])
            expect_equal(sent, [want], f"frames sent by {what}")
            _judge(L, c["reply"], kind, val, what)
            g.loop.advance(30)
            expect_equal(g.frames(), [want], f"frames sent by {what} 30 s later")
            ctx.label(c["reply"]["kind"])
            ctx.mark(bool(c["args"]) or c["reply"]["kind"] != "ack")


def _c13_enum(tier):
    out = []

    def add(cls, m, args, reply, where="11"):
        out.append({"session": "CommandSession", "pool": [[where, "str"]], "cmds": [{"cls": cls, "method": m, "args": list(args), "item": 0,
                                                                                    "reply": reply, "cuts": []}]})

    ack = {"kind": "ack", "delay": 0}
    some = {"display_dial": (2, 3), "temporization_command": (1, 2, 3), "set_hsv": (359, 100, 50), "set_white_temperature": (153,),
            "set_brightness_with_speed": (150, 20)}
    for (cls, m) in sorted(COMMANDS):
        for reply in (ack, {"kind": "frame", "text": NACK, "delay": 0}, {"kind": "frame", "text": "*1*1*11##", "delay": 0},
                      {"kind": "silence"}):
            add(cls, m, some.get(m, ()), reply)
    for x in range(1, 5):
        for y in range(1, 5):
            add("Camera", "display_dial", (x, y), ack)
    for s in range(256):
        for m in ("turn_on", "turn_off"):
            add("Dimmer", m, (s,), ack)
    for v in range(101):
        for m in ("up_percent", "down_percent"):
            add("Dimmer", m, (v,), ack)
            add("Dimmer", m, (v, (v * 7) % 256), ack)
    for h in range(0, 360, 1 if tier != "quick" else 7):
        add("Dimmer", "set_hsv", (h, h % 101, (h * 3) % 101), ack)
    return out


def c13_long(case, ctx: Ctx):
    """Many commands over the same few items: every one is sent once and judged by its own answer."""
    L = lib()
    ctx.mark()
    with Gateway(L, case["session"]) as g:
        items = [make(L, g.client, cls, where, "str") for cls, where in case["items"]]
        for k in range(case["n"]):
            i = case["order"][k % len(case["order"])] % len(items)
            cls, where = case["items"][i]
            m = case["methods"][k % len(case["methods"])] % len(_PLAIN[cls])
            m = _PLAIN[cls][m]
            reply = {"kind": "ack", "delay": 0} if case["acks"][k % len(case["acks"])] else {"kind": "frame", "text": NACK, "delay": 0}
            what = f"command {k + 1}, {cls}({where}).{m}()"
            kind, val, sent = g.run(getattr(items[i], m)(), [_script(reply, [])])
            expect_equal(sent, [COMMANDS[cls, m](where)], f"frames sent by {what}")
            _judge(L, reply, kind, val, what)


_PLAIN = {"Light": ["turn_on", "turn_off"], "Dimmer": ["turn_on", "turn_off"], "Automation": ["up", "down", "stop"]}
c13_long_case = st.fixed_dictionaries({
    "session": st.sampled_from(["CommandSession", "OldCommandSession"]), "n": st.sampled_from([40, 80, 150]),
    "items": st.lists(st.tuples(st.sampled_from(sorted(_PLAIN)), st.sampled_from(["11", "12", "21", "0"])).map(list), min_size=1, max_size=3,
                      unique_by=tuple),
    "order": st.lists(st.integers(0, 2), min_size=1, max_size=5), "methods": st.lists(st.integers(0, 2), min_size=1, max_size=7),
    "acks": st.lists(st.booleans(), min_size=1, max_size=5)})

C13 = Property(
    "C13",
    rule="sequences of 1-4 (long: up to 300) light, dimmer, automation and camera commands with generated arguments, addresses and answers; non-trivial: "
         "a command with arguments or an answer other than an immediate ACK",
    facets=[
        Facet("sequence", c13_case, c13, "arguments or an answer other than an ACK", 2400, 50000, shards=6),
        Facet("long", c13_long_case, c13_long, "always", 60, 1500, shards=4,
              corpus=[{"session": "CommandSession", "n": 300, "items": [["Light", "11"]], "order": [0], "methods": [0], "acks": a}
                      for a in ([True], [False], [True, False, False])]),
        Facet("every_command", None, c13, "arguments or an answer other than an ACK", enum=_c13_enum, shards=2),
    ],
    assumptions=["the in-memory gateway answers at most once per command", "delays below the read limit of 5 s"],
)

# --------------------------------------------------------------------------- C14

RANGES = {
    ("Dimmer", "turn_on"): [(0, 255)],
    ("Dimmer", "turn_off"): [(0, 255)],
    ("Dimmer", "up_percent"): [(0, 100), (0, 255)],
    ("Dimmer", "down_percent"): [(0, 100), (0, 255)],
    ("Dimmer", "set_hsv"): [(0, 359), (0, 100), (0, 100)],
    ("Dimmer", "set_white_temperature"): [(1, 65534)],
    ("Light", "temporization_command"): [(0, 23), (0, 59), (0, 59)],
    ("Dimmer", "temporization_command"): [(0, 23), (0, 59), (0, 59)],
    ("Camera", "display_dial"): [(1, 4), (1, 4)],
}


def _inside(lo, hi):
    return st.one_of(st.sampled_from([lo, hi]), st.integers(lo, hi))


def _outside(lo, hi):
    return st.one_of(st.sampled_from([lo - 1, hi + 1]), st.sampled_from([lo - 2, hi + 2, -hi, hi * 2 + 1, hi + 256, -256, 10**6, 65536, 1000]),
                     st.integers(hi + 1, hi + 300), st.integers(lo - 300, lo - 1), st.integers(hi + 1, 2**70), st.integers(-2**70, lo - 1)).filter(
        lambda v: not lo <= v <= hi)


@st.composite
def c14_case(draw):
    key = draw(st.sampled_from(sorted(RANGES)))
    rs = RANGES[key]
    bad = draw(st.lists(st.booleans(), min_size=len(rs), max_size=len(rs)))
    args = [draw(_outside(*r)) if b else draw(_inside(*r)) for r, b in zip(rs, bad)]
    if key[1] in ("turn_on", "turn_off") and not any(bad) and draw(st.integers(0, 4)) == 0:
        args = [None]
    if key[1] in ("up_percent", "down_percent"):
        for i in (0, 1):
            if not bad[i] and draw(st.integers(0, 3)) == 0:
                args[i] = None
    return {"cls": key[0], "method": key[1], "args": args, "where": draw(_where), "form": draw(_form), "kw": draw(st.booleans())}


def c14(case, ctx: Ctx):
    L = lib()
    key = case["cls"], case["method"]
    ok = all(a is None or lo <= a <= hi for a, (lo, hi) in zip(case["args"], RANGES[key]))
    what = f"{case['cls']}.{case['method']}{tuple(case['args'])}"
    with Gateway(L) as g:
        item = make(L, g.client, case["cls"], case["where"], case["form"])
        kind, val, sent = g.run(getattr(item, case["method"])(*case["args"]), [[(0, ACK)]])
        g.loop.advance(10)
        sent = g.frames()
        ctx.label("in range" if ok else "out of range")
        ctx.mark(not ok)
        if ok:
            check(kind == "ok", "%s is in range but ended %s %r", what, kind, val)
            expect_equal(len(sent), 1, f"frames sent by {what}")
        else:
            expect_equal(sent, [], f"frames sent by {what}, which is out of range")
            check(kind == "err", "%s is out of range but ended %s %r", what, kind, val)
            g.probe(True, f"after the refused {what}")


def _c14_enum(tier):
    out = []
    for key, rs in sorted(RANGES.items()):
        mids = [lo + (hi - lo) // 2 for lo, hi in rs]
        for i, (lo, hi) in enumerate(rs):
            vals = [lo - 1, lo, lo + 1, hi - 1, hi, hi + 1]
            if hi <= 400 and tier != "quick":
                vals = list(range(lo - 20, hi + 21))
            for v in vals:
                out.append({"cls": key[0], "method": key[1], "args": [*mids[:i], v, *mids[i + 1:]], "where": "11", "form": "str", "kw": False})
    for v in (-1, 101, 256, None, 0, 100):
        for s in (-1, 256, None, 0, 255):
            for m in ("up_percent", "down_percent"):
                out.append({"cls": "Dimmer", "method": m, "args": [v, s], "where": "11", "form": "str", "kw": False})
    return out


class _Seasonal(dt.tzinfo):
    """A time zone whose offset depends on the date, such as those of zoneinfo."""

    def utcoffset(self, when):
        return None if when is None else dt.timedelta(hours=2 if 3 < when.month < 11 else 1)

    def dst(self, when):
        return None if when is None else dt.timedelta(hours=1 if 3 < when.month < 11 else 0)

    def tzname(self, when):
        return "seasonal"


def c14_naive(case, ctx: Ctx):
    L = lib()
    y, mo, d, h, mi, s = case["t"]
    ctx.mark(case["tz"] is None or case["tz"] == "seasonal")
    ctx.label("seasonal" if case["tz"] == "seasonal" else "none" if case["tz"] is None else "fixed")
    tz = None if case["tz"] is None else _Seasonal() if case["tz"] == "seasonal" else dt.timezone(dt.timedelta(hours=case["tz"]))
    with Gateway(L) as g:
        gw = L.items.Gateway(g.client)
        if case["op"] == "time":
            coro = gw.set_time(dt.time(h, mi, s, tzinfo=tz))
        else:
            coro = gw.set_datetime(dt.datetime(y, mo, d, h, mi, s, tzinfo=tz))
        kind, val, _ = g.run(coro, [[(0, ACK)]])
        g.loop.advance(10)
        sent = g.frames()
        if tz is None or case["tz"] == "seasonal":
            expect_equal(sent, [], f"frames sent for a {case['op']} without time zone")
            check(kind == "err" and isinstance(val, ValueError), "a %s without time zone ended %s %r", case["op"], kind, val)
            g.probe(True, "after the refusal")
        else:
            check(kind == "ok" and len(sent) == 1, "a %s with time zone ended %s %r and sent %r", case["op"], kind, val, sent)


_clock = st.tuples(st.integers(1000, 9999), st.integers(1, 12), st.integers(1, 28), st.integers(0, 23), st.integers(0, 59),
                   st.integers(0, 59)).map(list)
C14 = Property(
    "C14",
    rule="argument vectors biased to the limits, with a generated subset of the arguments out of range; non-trivial: at least one "
         "argument out of range (or no time zone)",
    facets=[
        Facet("vectors", c14_case(), c14, "an argument out of range", 2500, 50000, shards=5),
        Facet("limits", None, c14, "an argument out of range", enum=_c14_enum, shards=2),
        Facet("naive", st.fixed_dictionaries({"op": st.sampled_from(["time", "datetime"]), "t": _clock,
                                              "tz": st.one_of(st.none(), st.just("seasonal"), st.integers(-23, 23))}), c14_naive, "no time zone", 400, 6000, shards=1),
    ],
    assumptions=["arguments are integers (or omitted)"],
)

# --------------------------------------------------------------------------- C15

_num = st.one_of(st.integers(0, 255).map(str), st.sampled_from(["0", "1", "007", "100000"]))


def _vals(n):
    return st.lists(_num, min_size=n, max_size=n)


# request name -> (class, call(item), request frame(where), answer payload strategy, answer frame(where, p), decoded(where, p))
REQUESTS = {
    "light.status": ("Light", lambda i, L: i.get_status(), lambda w: f"*#1*{w}##", st.sampled_from(["0", "1"]),
                     lambda w, p: f"*1*{p}*{w}##", lambda w, p: [w, p == "1"]),
    "dimmer.status": ("Dimmer", lambda i, L: i.get_status(), lambda w: f"*#1*{w}##", st.sampled_from(["0", *map(str, range(2, 11)), "0#5", "7#20", "10#255"]),
                      lambda w, p: f"*1*{p}*{w}##", lambda w, p: [w, int(p.split("#")[0]) * 10]),
    "automation.status": ("Automation", lambda i, L: i.get_status(), lambda w: f"*#2*{w}##", st.sampled_from(["0", "1", "2"]),
                          lambda w, p: f"*2*{p}*{w}##", lambda w, p: [w, p]),
    "light.timer": ("Light", lambda i, L: i.temporization_request(), lambda w: f"*#1*{w}*2##", _vals(3),
                    lambda w, p: f"*#1*{w}*2*{'*'.join(p)}##", lambda w, p: [w, *map(int, p)]),
    "light.work": ("Light", lambda i, L: i.request_working_time_lamp(), lambda w: f"*#1*{w}*8##", _vals(1),
                   lambda w, p: f"*#1*{w}*8*{p[0]}##", lambda w, p: [w, int(p[0])]),
    "dimmer.timer": ("Dimmer", lambda i, L: i.temporization_request(), lambda w: f"*#1*{w}*2##", _vals(3),
                     lambda w, p: f"*#1*{w}*2*{'*'.join(p)}##", lambda w, p: [w, *map(int, p)]),
    "dimmer.speed": ("Dimmer", lambda i, L: i.request_current_brightness_speed(), lambda w: f"*#1*{w}*1##", _vals(2),
                     lambda w, p: f"*#1*{w}*1*{'*'.join(p)}##", lambda w, p: [w, *map(int, p)]),
    "dimmer.hsv": ("Dimmer", lambda i, L: i.request_current_hsv(), lambda w: f"*#1*{w}*12##", _vals(3),
                   lambda w, p: f"*#1*{w}*12*{'*'.join(p)}##", lambda w, p: [w, *map(int, p)]),
    "dimmer.white": ("Dimmer", lambda i, L: i.request_current_white_temperature(), lambda w: f"*#1*{w}*14##", _vals(1),
                     lambda w, p: f"*#1*{w}*14*{p[0]}##", lambda w, p: [w, int(p[0])]),
    "base.status": ("Automation", lambda i, L: i.send_status_request(), lambda w: f"*#2*{w}##", F.what_text,
                    lambda w, p: f"*2*{p}*{w}##", lambda w, p: f"*2*{p}*{w}##"),
    "base.lstatus": ("Light", lambda i, L: i.send_status_request(), lambda w: f"*#1*{w}##", F.what_text,
                     lambda w, p: f"*1*{p}*{w}##", lambda w, p: f"*1*{p}*{w}##"),
    "base.dim": ("Light", lambda i, L: i.send_dimension_request("7"), lambda w: f"*#1*{w}*7##", st.lists(_num, min_size=1, max_size=6),
                 lambda w, p: f"*#1*{w}*7*{'*'.join(p)}##", lambda w, p: f"*#1*{w}*7*{'*'.join(p)}##"),
    "base.dim2": ("Automation", lambda i, L: i.send_dimension_request(L.tags.Dimension("10#3")), lambda w: f"*#2*{w}*10#3##",
                  st.lists(_num, min_size=1, max_size=6),
                  lambda w, p: f"*#2*{w}*10#3*{'*'.join(p)}##", lambda w, p: f"*#2*{w}*10#3*{'*'.join(p)}##"),
}


def _is_status(name):
    return name.endswith("status")


_wrong_for_status = st.sampled_from(["*#1*11*1*150*20##", "*#2*11*10*1##", "*#13**#0*1##", "*#1*11##", "*#1*11*1##", "*99*1##", "*7*9##",
                                     "*9*1*1##", "*#*1*1##", "*#603356072##"])
_wrong_for_dim = st.sampled_from(["*1*1*11##", "*2*0*11##", "*#13**#0*1##", "*#1*11##", "*#1*11*1##", "*99*1##", "*7*9##", "*9*1*1##",
                                  "*#*1*1##", "*#603356072##"])


@st.composite
def c15_case(draw):
    name = draw(st.sampled_from(sorted(REQUESTS)))
    payload = REQUESTS[name][3]
    n = draw(st.integers(0, 6))
    end = draw(st.sampled_from(["ack", "ack", "ack", "nack", "wrong"]))
    return {
        "req": name, "where": draw(_where), "form": draw(_form), "session": draw(_session),
        "answers": [[draw(_where), draw(payload)] for _ in range(n)],
        "end": end, "wrong": draw(_wrong_for_status if _is_status(name) else _wrong_for_dim) if end == "wrong" else None,
        "delays": draw(st.one_of(st.just([0]), st.lists(_delay, min_size=1, max_size=4))), "cuts": draw(_cuts),
        "together": draw(st.booleans()), "next": draw(st.booleans()), "then": draw(st.one_of(st.none(), st.sampled_from(sorted(REQUESTS)))),
    }


def c15_many(case, ctx: Ctx):
    """Hundreds of answers, a slow consumer, and several requests on the same item."""
    L = lib()
    cls, call, frame, _, answer, decoded = REQUESTS[case["req"]]
    ctx.mark()
    with Gateway(L) as g:
        item = make(L, g.client, cls, case["where"], case["form"])
        for n in case["counts"]:
            pairs = [[f"{j + 1}" if case["spread"] else case["pairs"][j % len(case["pairs"])][0], case["pairs"][j % len(case["pairs"])][1]]
                     for j in range(n)]
            texts = [answer(w, p) for w, p in pairs]
            ctx.label(f"{n // 100 * 100}+ answers")
            got: list = []

            async def consume():
                async for x in call(item, L):
                    got.append(x)
                    if case["slow"] and len(got) % 50 == 1:
                        await _sleep(case["slow"])

            data = "".join(texts) + ACK
            size = case["size"]
            kind, val, sent = g.run(consume(), [[(0, data[i:i + size]) for i in range(0, len(data), size)]], limit=10000)
            expect_equal(sent, [frame(case["where"])], f"request frames of {case['req']}")
            check(kind == "ok", "%s with %d answers ended %s %r", case["req"], n, kind, val)
            want = [decoded(w, p) for w, p in pairs]
            g1 = [_canon(x) for x in got]
            if g1 != want:
                bad = next((i for i, (a, b) in enumerate(zip(g1, want)) if a != b), min(len(g1), len(want)))
                raise Violation(f"{case['req']}: {len(g1)} answers yielded of {n}; first difference at answer {bad}: "
                                f"{g1[bad] if bad < len(g1) else None} instead of {want[bad] if bad < len(want) else None}")
            g.probe(case["next"], f"after {case['req']} with {n} answers")


async def _sleep(d):
    import asyncio

    await asyncio.sleep(d)


@st.composite
def c15_many_case(draw):
    name = draw(st.sampled_from(sorted(REQUESTS)))
    return {"req": name, "where": draw(_where), "form": draw(_form), "pairs": [[draw(_where), draw(REQUESTS[name][3])] for _ in range(draw(st.integers(1, 4)))],
            "counts": draw(st.lists(st.one_of(st.integers(0, 3), st.sampled_from([30, 120, 400])), min_size=1, max_size=3)),
            "spread": draw(st.booleans()), "slow": draw(st.sampled_from([0, 0, 1, 20])), "size": draw(st.sampled_from([64, 1448, 100000])),
            "next": draw(st.booleans())}


def _canon(x):
    if isinstance(x, tuple):
        return [_canon(v) for v in x]
    if isinstance(x, (bool, int, float)) or x is None:
        return x
    return str(x)


def c15(case, ctx: Ctx):
    L = lib()
    cls, call, frame, _, answer, decoded = REQUESTS[case["req"]]
    texts = [answer(w, p) for w, p in case["answers"]]
    last = {"ack": ACK, "nack": NACK, "wrong": case["wrong"]}[case["end"]]
    full = texts + [last]
    if case["together"]:
        full = ["".join(full)]
    want = [decoded(w, p) for w, p in case["answers"]]
    ctx.mark(len(texts) > 1 or case["end"] != "ack")
    ctx.label(f"{min(len(texts), 3)} answers then {case['end']}")
    ctx.label(case["req"])
    with Gateway(L, case["session"]) as g:
        item = make(L, g.client, cls, case["where"], case["form"])
        got: list = []
        kind, val, sent = g.run(collect(call(item, L), got), [spread(full, case["delays"], case["cuts"])])
        expect_equal(sent, [frame(case["where"])], f"request frames of {case['req']}")
        expect_equal([_canon(x) for x in got], want, f"answers of {case['req']} to {texts}")
        if case["end"] == "ack":
            check(kind == "ok", "%s ended %s %r", case["req"], kind, val)
        else:
            check(kind == "err" and isinstance(val, L.exc.ResponseError), "%s answered with %s ended %s %r", case["req"], last, kind, val)
        if case["then"]:
            c2, call2, frame2, _, _, _ = REQUESTS[case["then"]]
            got2: list = []
            kind, val, sent = g.run(collect(call2(make(L, g.client, c2, "33", "str"), L), got2), [[(0, ACK)]])
            expect_equal(sent, [frame2("33")], "frames of the next request")
            check(kind == "ok" and got2 == [], "the next request, with no answers, gave %s %r %r", kind, val, got2)
        g.probe(case["next"], f"after {case['req']}")


# requests for one value: (class, address, call(item), request frame, answer frame(values), number of values, result(values))
def _ver(p):
    return ".".join(p)


SINGLE = {
    "gateway.firmware": ("Gateway", "", lambda i: i.get_firmware(), "*#13**16##", 3, _ver),
    "gateway.kernel": ("Gateway", "", lambda i: i.get_kernel_version(), "*#13**23##", 3, _ver),
    "gateway.distribution": ("Gateway", "", lambda i: i.get_distribution_version(), "*#13**24##", 3, _ver),
    "gateway.netmask": ("Gateway", "", lambda i: i.get_netmask(), "*#13**11##", 4, lambda p: ".".join(str(int(x)) for x in p)),
    "gateway.uptime": ("Gateway", "", lambda i: i.get_uptime(), "*#13**19##", 4,
                       lambda p: str(dt.timedelta(days=int(p[0]), hours=int(p[1]), minutes=int(p[2]), seconds=int(p[3])))),
    "energy.power": ("EnergyManagement", "51", lambda i: i.get_active_power(), "*#18*51*113##", 1, lambda p: float(p[0])),
    "energy.total": ("EnergyManagement", "71#0", lambda i: i.get_energy_unit_totalizer(), "*#18*71#0*51##", 1, lambda p: float(p[0])),
    "energy.month": ("EnergyManagement", "51", lambda i: i.get_energy_unit_per_month(3, 21), "*#18*51*52#21#3##", 1, lambda p: float(p[0])),
    "energy.cmonth": ("EnergyManagement", "51", lambda i: i.get_partial_totalizer_current_month(), "*#18*51*53##", 1, lambda p: float(p[0])),
    "energy.cday": ("EnergyManagement", "51", lambda i: i.get_partial_totalizer_current_day(), "*#18*51*54##", 1, lambda p: float(p[0])),
    "energy.level": ("EnergyManagement", "51", lambda i: i.get_differential_current_level(), "*#18*51*73##", 1, lambda p: int(p[0])),
}


@st.composite
def c15_single_case(draw):
    name = draw(st.sampled_from(sorted(SINGLE)))
    n = draw(st.sampled_from([0, 1, 1, 2, 3, 5]))
    end = draw(st.sampled_from(["ack", "ack", "ack", "nack", "wrong"]))
    return {"req": name, "session": draw(_session), "answers": [draw(_vals(SINGLE[name][4])) for _ in range(n)], "end": end,
            "wrong": draw(_wrong_for_dim) if end == "wrong" else None, "together": draw(st.booleans()), "more": draw(st.sampled_from([0] * 12 + [9, 33, 101])),
            "from": draw(st.one_of(st.none(), st.lists(st.sampled_from([None, None, "51", "52", "71#0", "17"]), min_size=n, max_size=n))),
            "delays": draw(st.one_of(st.just([0]), st.lists(_delay, min_size=1, max_size=4))), "cuts": draw(_cuts), "next": draw(st.booleans())}


def c15_single(case, ctx: Ctx):
    """A request for one value: completed exactly by the ACK, its value the first answer, the connection in step afterwards."""
    L = lib()
    cls, where, call, frame, _, result = SINGLE[case["req"]]
    texts = [(frame.replace(f"*{where}*", f"*{w}*", 1) if w and where else frame)[:-2] + "".join("*" + v for v in p) + "##"
             for p, w in zip(case["answers"], case.get("from") or [None] * len(case["answers"]))]
    # some gateways answer many times over
    texts += texts[-1:] * case.get("more", 0)
    full = texts + [{"ack": ACK, "nack": NACK, "wrong": case["wrong"]}[case["end"]]]
    if case["together"]:
        full = ["".join(full)]
    ctx.mark(len(texts) > 1 or case["end"] != "ack")
    ctx.label(f"{min(len(texts), 2)} answers then {case['end']}")
    with Gateway(L, case["session"]) as g:
        item = L.items.Gateway(g.client) if cls == "Gateway" else make(L, g.client, cls, where, "str")
        kind, val, sent = g.run(call(item), [spread(full, case["delays"], case["cuts"])], limit=10000)
        expect_equal(sent, [frame], f"request frames of {case['req']}")
        if case["end"] == "ack" and texts:
            check(kind == "ok", "%s answered by %s ended %s %r", case["req"], full, kind, val)
            check((str(val) if isinstance(val, dt.timedelta) else val) == result(case["answers"][0]), "%s answered by %s gave %r", case["req"],
                  full, val)
            g.probe(case["next"], f"after {case['req']} answered by {full}")
        else:
            check(kind == "err" and isinstance(val, L.exc.ResponseError), "%s answered by %s ended %s %r", case["req"], full, kind, val)
            if case["end"] == "ack":
                g.probe(case["next"], f"after {case['req']} answered by {full}")


C15 = Property(
    "C15",
    rule="a request answered by 0-6 answers from generated addresses and an ACK, NACK or wrong frame; non-trivial: several answers or an "
         "ending other than an ACK",
    facets=[Facet("requests", c15_case(), c15, "several answers or an ending other than an ACK", 3000, 60000, shards=8),
            Facet("single", c15_single_case(), c15_single, "several answers or an ending other than an ACK", 1000, 20000, shards=4),
            Facet("many", c15_many_case(), c15_many, "always", 80, 2000, shards=8)],
    assumptions=["answers carry states documented for the device kind (light on/off, dimmer 0 and 2-10, automation 0-2)",
                 "the consumer reads the answers to the end"],
)

# --------------------------------------------------------------------------- C16


def _tz_text(h: int) -> str:
    return f"{'0' if h >= 0 else '1'}{abs(h):02d}"


def _tz(h: int):
    return dt.timezone(dt.timedelta(hours=h))


def _time_fields(h, m, s, tz):
    return [f"{h:02d}", f"{m:02d}", f"{s:02d}", _tz_text(tz)]


def _date_fields(y, m, d):
    return [f"{(dt.date(y, m, d).toordinal() - dt.date(2023, 1, 1).toordinal()) % 7:02d}", f"{d:02d}", f"{m:02d}", f"{y:04d}"]


def _same_clock(got, want, what):
    expect_equal(got, want, what)
    if isinstance(want, (dt.time, dt.datetime)):
        check(got.tzinfo is not None, "%s: %r has no time zone", what, got)
        expect_equal(got.utcoffset(), want.utcoffset(), f"{what}: UTC offset")
        expect_equal(got.replace(tzinfo=None), want.replace(tzinfo=None), what)
    check(type(got) is type(want), "%s: %r", what, got)


def _clock_roundtrip(g, op, c, gw=None, us=0, fold=0):
    """Set and read back one time/date/datetime c = [y, mo, d, h, mi, s, tz]; fractions of a second are not transmitted."""
    L = g.L
    y, mo, d, h, mi, s, tz = c
    gw = gw or L.items.Gateway(g.client)
    if op == "time":
        val, dim, fields = dt.time(h, mi, s, us, tzinfo=_tz(tz), fold=fold), "0", _time_fields(h, mi, s, tz)
        write, read = gw.set_time, gw.get_time
    elif op == "date":
        val, dim, fields = dt.date(y, mo, d), "1", _date_fields(y, mo, d)
        write, read = gw.set_date, gw.get_date
    else:
        val, dim = dt.datetime(y, mo, d, h, mi, s, us, tzinfo=_tz(tz), fold=fold), "22"
        fields = _time_fields(h, mi, s, tz) + _date_fields(y, mo, d)
        write, read = gw.set_datetime, gw.get_datetime
    kind, res, sent = g.run(write(val), [[(0, ACK)]])
    check(kind == "ok", "setting %s %s ended %s %r", op, val, kind, res)
    expect_equal(sent, [f"*#13**#{dim}*{'*'.join(fields)}##"], f"frames setting {op} {val}")
    kind, res, sent = g.run(read(), [[(0, f"*#13**{dim}*{'*'.join(fields)}##"), (0, ACK)]])
    check(kind == "ok", "reading %s %s ended %s %r", op, val, kind, res)
    expect_equal(sent, [f"*#13**{dim}##"], f"frames reading {op}")
    _same_clock(res, val if op == "date" else val.replace(microsecond=0, fold=0), f"{op} read back")


def c16(case, ctx: Ctx):
    y, mo, d, h, mi, s, tz = case["c"]
    ctx.mark(tz != 0 or case["op"] == "date")
    ctx.label(case["op"])
    with Gateway(lib(), case["session"]) as g:
        _clock_roundtrip(g, case["op"], case["c"], None, case.get("us", 0), case.get("fold", 0))
        g.probe(True, "afterwards")


def c16_sequence(case, ctx: Ctx):
    """Several values set and read back through the same item: each read gives the value last sent."""
    ctx.mark(len(case["steps"]) > 1)
    ctx.label(f"{min(len(case['steps']), 4)} steps")
    with Gateway(lib(), case["session"]) as g:
        gw = g.L.items.Gateway(g.client)
        for op, c in case["steps"]:
            _clock_roundtrip(g, op, c, gw)
        g.probe(True, "afterwards")


def c16_year(case, ctx: Ctx):
    ctx.mark()
    day = dt.date(case["year"], 1, 1)
    with Gateway(lib()) as g:
        i = 0
        while day.year == case["year"]:
            _clock_roundtrip(g, case["op"], [day.year, day.month, day.day, i % 24, i % 60, (i * 7) % 60, i % 47 - 23])
            if day == dt.date(9999, 12, 31):
                break
            day += dt.timedelta(days=1)
            i += 1


def c16_zone(case, ctx: Ctx):
    ctx.mark()
    with Gateway(lib()) as g:
        for h in range(24):
            for op in ("time", "datetime"):
                _clock_roundtrip(g, op, [2024, 2, 29, h, (h * 5) % 60, (h * 11) % 60, case["tz"]])


def c16_notz(case, ctx: Ctx):
    y, mo, d, h, mi, s = case["t"]
    ctx.mark()
    with Gateway(lib()) as g:
        gw = g.L.items.Gateway(g.client)
        if case["op"] == "time":
            frame, want, read = f"*#13**0*{h:02d}*{mi:02d}*{s:02d}*##", dt.time(h, mi, s, tzinfo=dt.timezone.utc), gw.get_time
        else:
            frame = f"*#13**22*{h:02d}*{mi:02d}*{s:02d}**{'*'.join(_date_fields(y, mo, d))}##"
            want, read = dt.datetime(y, mo, d, h, mi, s, tzinfo=dt.timezone.utc), gw.get_datetime
        kind, res, _ = g.run(read(), [[(0, frame), (0, ACK)]])
        check(kind == "ok", "reading %s ended %s %r", frame, kind, res)
        _same_clock(res, want, f"{case['op']} without time zone")


_cal = st.builds(lambda o, h, mi, s, tz: (lambda x: [x.year, x.month, x.day, h, mi, s, tz])(dt.date.fromordinal(o)),
                 st.one_of(st.integers(dt.date(1000, 1, 1).toordinal(), dt.date(9999, 12, 31).toordinal()),
                           st.integers(dt.date(1990, 1, 1).toordinal(), dt.date(2050, 12, 31).toordinal())),
                 st.integers(0, 23), st.integers(0, 59), st.integers(0, 59), st.integers(-23, 23))
C16 = Property(
    "C16",
    rule="clock values over every calendar date of years 1000-9999, every second of the day and every whole-hour zone -23..+23, set and "
         "read back; non-trivial: a zone other than UTC, or a date",
    facets=[
        Facet("roundtrip", st.fixed_dictionaries({"op": st.sampled_from(["time", "date", "datetime"]), "c": _cal, "session": _session,
                                                  "us": st.one_of(st.just(0), st.sampled_from([1, 499999, 500000, 999500, 999999])), "fold": st.sampled_from([0, 0, 1])}), c16,
              "a zone other than UTC, or a date", 2000, 40000, shards=6),
        Facet("sequence", st.fixed_dictionaries({"steps": st.lists(st.tuples(st.sampled_from(["time", "date", "datetime"]), _cal).map(list),
                                                                   min_size=2, max_size=6), "session": _session}), c16_sequence,
              "more than one value", 600, 15000, shards=4),
        Facet("years", None, c16_year, "always", enum=lambda tier: [
            {"year": y, "op": op} for y in (range(2020, 2032) if tier == "quick" else [*range(1000, 1010), *range(1890, 2120), *range(9990, 10000)])
            for op in ("date", "datetime")], shards=8),
        Facet("edges", None, c16, "a zone other than UTC, or a date", enum=lambda tier: [
            {"op": op, "c": [y, m, d, *t], "session": "CommandSession", "us": us, "fold": 0}
            for y in (1000, 1500, 1582, 1600, 1700, 1752, 1899, 1900, 1969, 1970, 1999, 2000, 2001, 2010, 2038, 2099, 2100, 2400, 9999)
            for m, d in ((1, 1), (2, 28), (2, 29), (3, 1), (9, 9), (10, 10), (12, 31)) if (m, d) != (2, 29) or calendar.isleap(y)
            for op, t, us in (("date", (0, 0, 0, 0), 0), ("datetime", (0, 0, 0, 0), 0), ("datetime", (23, 59, 59, -11), 999999),
                              ("datetime", (12, 0, 0, 12), 0))], shards=4),
        Facet("zones", None, c16_zone, "always", enum=lambda tier: [{"tz": z} for z in range(-23, 24)], shards=2),
        Facet("no_zone", st.fixed_dictionaries({"op": st.sampled_from(["time", "datetime"]), "t": _clock}), c16_notz, "always", 300, 5000,
              shards=1),
    ],
    assumptions=["fixed-offset time zones"],
)

# --------------------------------------------------------------------------- C17

KNOWN_MODELS = ["2", "4", "6", "7", "11", "12", "23", "200"]
_octet = st.one_of(st.integers(0, 255), st.sampled_from([0, 255, 10, 16, 9, 15]))
_oct_text = st.builds(lambda v, z: str(v).zfill(z), _octet, st.sampled_from([1, 1, 1, 3]))
_ver = st.lists(st.one_of(st.integers(0, 99).map(str), F.digits(1, 4)), min_size=3, max_size=3)


def _ver_text(v):
    return ".".join(v)


INFO = {
    "ip": ("10", lambda g: g.get_ip(), st.lists(_oct_text, min_size=4, max_size=4), lambda v: ".".join(str(int(x)) for x in v)),
    "netmask": ("11", lambda g: g.get_netmask(), st.lists(_oct_text, min_size=4, max_size=4), lambda v: ".".join(str(int(x)) for x in v)),
    "mac": ("12", lambda g: g.get_macaddress(), st.lists(_oct_text, min_size=6, max_size=6), lambda v: ":".join(f"{int(x):02x}" for x in v)),
    "model": ("15", lambda g: g.get_model(), st.one_of(st.sampled_from(KNOWN_MODELS), st.integers(1, 999).map(str)).map(lambda x: [x]).filter(
        lambda x: x != ["13"]), lambda v: v[0] if v[0] in KNOWN_MODELS else "0"),
    "firmware": ("16", lambda g: g.get_firmware(), _ver, _ver_text),
    "uptime": ("19", lambda g: g.get_uptime(), st.tuples(st.integers(0, 9999), st.integers(0, 23), st.integers(0, 59), st.integers(0, 59)).map(
        lambda t: [str(x).zfill(2) for x in t]), lambda v: int(v[0]) * 86400 + int(v[1]) * 3600 + int(v[2]) * 60 + int(v[3])),
    "kernel": ("23", lambda g: g.get_kernel_version(), _ver, _ver_text),
    "distribution": ("24", lambda g: g.get_distribution_version(), _ver, _ver_text),
}


def _info_view(name, val):
    if name == "ip":
        return str(val) if isinstance(val, ipaddress.IPv4Address) else repr(val)
    if name == "mac":
        return str(val).lower()
    if name == "uptime":
        return val.total_seconds() if isinstance(val, dt.timedelta) else repr(val)
    if name == "model":
        return str(val.value)
    return str(val)


@st.composite
def c17_case(draw):
    name = draw(st.sampled_from(sorted(INFO)))
    end = draw(st.sampled_from(["ack", "ack", "ack", "empty", "nack", "late_nack"]))
    return {"info": name, "values": draw(INFO[name][2]), "end": end, "copies": draw(st.sampled_from([1, 1, 1, 2, 3])),
            "session": draw(_session), "cuts": draw(_cuts), "delays": [draw(_delay)], "next": draw(st.booleans())}


def c17(case, ctx: Ctx):
    ctx.mark(case["end"] != "ack" or len(set(case["values"])) > 1 or case["info"] == "model")
    ctx.label(f"{case['info']} {case['end']}")
    with Gateway(lib(), case["session"]) as g:
        _info_step(g, g.L.items.Gateway(g.client), case)
        g.probe(case["next"], f"after {case['info']}")


def c17_sequence(case, ctx: Ctx):
    """Many requests through one item or several: every answer is the one just transmitted."""
    ctx.mark(len({json.dumps(x["values"]) for x in case["steps"]}) > 1)
    ctx.label(f"{len({x['info'] for x in case['steps']})} kinds")
    with Gateway(lib(), case["steps"][0]["session"]) as g:
        items = [g.L.items.Gateway(g.client), g.L.items.Gateway(g.client),
                 g.client.get_item(g.L.tags.Who.GATEWAY, g.L.tags.Where(""), client=g.client)]
        for x, k in zip(case["steps"], case["items"]):
            _info_step(g, items[k], x)
        g.probe(case["steps"][0]["next"], "after the requests")


def _info_step(g, item, case):
    L = g.L
    dim, call, _, ref = INFO[case["info"]]
    data = f"*#13**{dim}*{'*'.join(case['values'])}##"
    texts = {"ack": [data] * case["copies"] + [ACK], "empty": [ACK], "nack": [NACK], "late_nack": [data, NACK]}[case["end"]]
    kind, val, sent = g.run(call(item), [spread(texts, case["delays"], case["cuts"])])
    expect_equal(sent, [f"*#13**{dim}##"], f"request of {case['info']}")
    if case["end"] == "ack":
        check(kind == "ok", "%s answered with %s ended %s %r", case["info"], texts, kind, val)
        expect_equal(_info_view(case["info"], val), ref(case["values"]), f"{case['info']} from {data}")
    else:
        check(kind == "err" and isinstance(val, L.exc.ResponseError), "%s answered with %s ended %s %r", case["info"], texts, kind, val)


def c17_net(case, ctx: Ctx):
    L = lib()
    ip, bits = case["ip"], case["bits"]
    mask = (0xFFFFFFFF << (32 - bits)) & 0xFFFFFFFF

    def octets(x):
        return [str(x >> s & 255) for s in (24, 16, 8, 0)]

    a, b = f"*#13**10*{'*'.join(octets(ip))}##", f"*#13**11*{'*'.join(octets(mask))}##"
    ctx.mark(0 < bits < 32)
    with Gateway(L) as g:
        gw = L.items.Gateway(g.client)
        answers = {"*#13**10##": a, "*#13**11##": b}
        if case["fail"] is not None:
            answers[["*#13**10##", "*#13**11##"][case["fail"]]] = case["how"]
        g.tr.written.clear()
        box = []

        def on_write(data):
            f = data.decode()
            box.append(f)
            text = answers.get(f, "")
            g._play([(0, text if text == NACK else text + ACK)])

        g.tr.on_write = on_write
        t = g.w.task(gw.get_netinfo())
        g.loop.run_to_end(t, 60)
        kind, val = outcome(t)
        if case["fail"] is None:
            expect_equal(sorted(box), ["*#13**10##", "*#13**11##"], "requests of get_netinfo")
            check(kind == "ok", "get_netinfo ended %s %r", kind, val)
            net = ip & mask
            expect_equal(str(val), ".".join(octets(net)) + f"/{bits}", f"network of {octets(ip)} with mask {octets(mask)}")
        else:
            check(kind == "err" and isinstance(val, L.exc.ResponseError), "get_netinfo without an answer ended %s %r", kind, val)


C17 = Property(
    "C17",
    rule="every gateway information request with generated field values and endings; non-trivial: a failing ending or several different "
         "field values; network: a mask of 1-31 bits",
    facets=[
        Facet("info", c17_case(), c17, "a failing ending or different field values", 3000, 60000, shards=6,
              corpus=[{"info": "mac", "values": ["0", "3", "80", "10", "255", "171"], "end": "ack", "copies": 1, "session": "CommandSession",
                       "cuts": [], "delays": [0], "next": True}]
              + [{"info": "model", "values": [m], "end": "ack", "copies": 1, "session": "CommandSession", "cuts": [], "delays": [0],
                  "next": True} for m in [*KNOWN_MODELS, "1", "3", "999"]]),
        Facet("sequence", st.fixed_dictionaries({"steps": st.lists(c17_case(), min_size=2, max_size=7),
                                                 "items": st.lists(st.integers(0, 2), min_size=7, max_size=7)}), c17_sequence,
              "different values", 800, 20000, shards=4),
        Facet("network", st.fixed_dictionaries({"ip": st.integers(0, 2**32 - 1), "bits": st.integers(0, 32),
                                                "fail": st.one_of(st.none(), st.none(), st.none(), st.integers(0, 1)),
                                                "how": st.sampled_from(["", NACK])}),
              c17_net, "a mask of 1-31 bits", 600, 10000, shards=2),
    ],
    assumptions=["model number 13 is not judged (the documents and the code disagree)", "repeated answers carry equal fields",
                 "net masks are contiguous"],
)

# --------------------------------------------------------------------------- C18

_month = st.integers(1, 12)
_optmonth = st.one_of(st.none(), _month)
_day = st.integers(1, 31)
ENERGY_CMDS = {
    "start_sending_daily_totalizers_hourly": (st.tuples(st.one_of(st.none(), _day), _optmonth),
                                              lambda w, now, d, m: f"*18*57#{m or now.month}#{d or now.day}*{w}##"),
    "start_sending_monthly_average_hourly": (st.tuples(_optmonth), lambda w, now, m: f"*18*58#{m or now.month}*{w}##"),
    "start_sending_monthly_totalizers_current_year": (st.tuples(_optmonth), lambda w, now, m: f"*18*59#{m or now.month}*{w}##"),
    "start_sending_monthly_totalizers_last_year": (st.tuples(_optmonth), lambda w, now, m: f"*18*510#{m or now.month}*{w}##"),
    "enable_actuator": (st.tuples(), lambda w, now: f"*18*71*{w}##"),
    "force_actuator_on": (st.one_of(st.tuples(), st.tuples(st.one_of(st.none(), st.integers(1, 254), st.sampled_from([1, 254])))),
                          lambda w, now, t=None: f"*18*73*{w}##" if t is None else f"*18*73#{t}*{w}##"),
    "force_actuator_off": (st.tuples(), lambda w, now: f"*18*74*{w}##"),
    "reset_totalizers": (st.tuples(st.integers(1, 2)), lambda w, now, n: f"*18*75#{n}*{w}##"),
    "start_sending_instant_power": (st.one_of(st.tuples(st.integers(1, 255)), st.tuples(st.integers(1, 255), st.just(1))),
                                    lambda w, now, t, k=1: f"*#18*{w}*#1200#{k}*{t}##"),
    "stop_sending_instant_power": (st.one_of(st.tuples(), st.tuples(st.just(1))), lambda w, now, k=1: f"*#18*{w}*#1200#{k}*0##"),
}
STOPGO_CMDS = {
    "enable_automatic_reset": (st.tuples(), lambda w, now: f"*18*26*{w}##"),
    "disable_automatic_reset": (st.tuples(), lambda w, now: f"*18*27*{w}##"),
}
_stopgo_where = st.one_of(st.integers(1, 127), st.sampled_from([1, 7, 10, 127])).map(lambda n: f"1{n}")
_meter_where = st.one_of(st.integers(1, 255), st.sampled_from([1, 10, 255])).map(lambda n: f"5{n}")
_act_where = st.one_of(st.integers(1, 255), st.sampled_from([1, 10, 255])).map(lambda n: f"7{n}#0")
energy_where = st.one_of(_stopgo_where, _meter_where, _act_where)


@st.composite
def c18_cmd_case(draw):
    stop = draw(st.integers(0, 4)) == 0
    table = {**ENERGY_CMDS, **STOPGO_CMDS} if stop else ENERGY_CMDS
    m = draw(st.sampled_from(sorted(STOPGO_CMDS) if stop and draw(st.booleans()) else sorted(table)))
    return {"cls": "StopGo" if stop else "EnergyManagement", "method": m, "args": list(draw(table[m][0])),
            "where": draw(_stopgo_where if stop else energy_where), "form": draw(_form), "reply": draw(_reply), "cuts": draw(_cuts)}


def c18_cmd(case, ctx: Ctx):
    L = lib()
    ctx.mark(bool(case["args"]))
    ctx.label(case["method"])
    with Gateway(L) as g:
        _cmd_step(g, make(L, g.client, case["cls"], case["where"], case["form"]), case)


def _cmd_step(g, item, case):
    ref = {**ENERGY_CMDS, **STOPGO_CMDS}[case["method"]][1]
    what = f"{case['cls']}({case['where']}).{case['method']}{tuple(case['args'])}"
    before = dt.datetime.now()
    kind, val, _ = g.run(getattr(item, case["method"])(*case["args"]), [_script(case["reply"], case["cuts"])])
    g.loop.advance(10)
    after = dt.datetime.now()
    sent = g.frames()
    wants = [[ref(case["where"], t, *case["args"])] for t in (before, after)]
    check(sent in wants, "%s sent %r, expected %r", what, sent, wants[0])
    _judge(g.L, case["reply"], kind, val, what)


_amount = st.one_of(st.integers(0, 4_000_000).map(str), st.sampled_from(["0", "1", "00", "000", "00012", "123456789012", "16777217", "9007199254740993"]),
                    F.digits(1, 12))
_flag = st.sampled_from(["0", "1"])
_reset = st.builds(lambda o, h, mi: [f"{o.day:02d}", f"{o.month:02d}", f"{o.year}", f"{h:02d}", f"{mi:02d}"],
                   st.integers(dt.date(1970, 1, 1).toordinal(), dt.date(2099, 12, 31).toordinal()).map(dt.date.fromordinal),
                   st.integers(0, 23), st.integers(0, 59))


def _actuator(v):
    return [x == "1" for x in v]


def _actuator_view(a):
    return [a.disabled, a.forcing, a.threshold, a.protection, a.phase, a.advanced]


def _tot(v):
    return [[int(v[3]), int(v[2]), int(v[1]), int(v[4]), int(v[5])], float(v[0])]


def _tot_view(t):
    d, e = t
    return [[d.year, d.month, d.day, d.hour, d.minute], e]


# name -> (args strategy, dimension(now, *args), values strategy, reference, view)
READINGS = {
    "get_active_power": (st.tuples(), lambda now: "113", st.tuples(_amount), lambda v: float(v[0]), float),
    "get_energy_unit_totalizer": (st.tuples(), lambda now: "51", st.tuples(_amount), lambda v: float(v[0]), float),
    "get_energy_unit_per_month": (st.one_of(st.tuples(), st.tuples(_optmonth), st.tuples(_optmonth, st.one_of(st.none(), st.integers(0, 99)))),
                                  lambda now, m=None, y=None: f"52#{now.year % 100 if y is None else y}#{m or now.month}", st.tuples(_amount),
                                  lambda v: float(v[0]), float),
    "get_partial_totalizer_current_month": (st.tuples(), lambda now: "53", st.tuples(_amount), lambda v: float(v[0]), float),
    "get_partial_totalizer_current_day": (st.tuples(), lambda now: "54", st.tuples(_amount), lambda v: float(v[0]), float),
    "get_actuators_info": (st.tuples(), lambda now: "71", st.tuples(_flag, _flag, _flag, _flag, _flag, st.sampled_from(["1", "2"])), _actuator,
                           _actuator_view),
    "get_totalizers": (st.tuples(st.integers(1, 2)), lambda now, n: f"72#{n}", st.builds(lambda e, r: (e, *r), _amount, _reset), _tot, _tot_view),
    "get_differential_current_level": (st.tuples(), lambda now: "73", st.tuples(st.one_of(st.sampled_from(["1", "2", "3"]), F.digits(1, 4))), lambda v: int(v[0]), int),
}


@st.composite
def c18_read_case(draw):
    m = draw(st.sampled_from(sorted(READINGS)))
    args, _, vals, _, _ = READINGS[m]
    cls = draw(st.sampled_from(["EnergyManagement", "EnergyManagement", "EnergyManagement", "StopGo"]))
    return {"cls": cls, "method": m, "args": list(draw(args)), "values": list(draw(vals)),
            "where": draw(_stopgo_where if cls == "StopGo" else energy_where), "form": draw(_form),
            "end": draw(st.sampled_from(["ack", "ack", "ack", "ack", "empty", "nack"])), "cuts": draw(_cuts), "delays": [draw(_delay)],
            "copies": draw(st.sampled_from([1, 1, 2])), "next": draw(st.booleans())}


def c18_read(case, ctx: Ctx):
    L = lib()
    ctx.mark(len(case["values"]) > 1 or len(case["values"][0]) > 1)
    ctx.label(f"{case['method']} {case['end']}")
    with Gateway(L) as g:
        _read_step(g, make(L, g.client, case["cls"], case["where"], case["form"]), case)


def c18_sequence(case, ctx: Ctx):
    """Commands and readings, repeated on a few items: each reading is the one just transmitted."""
    L = lib()
    ctx.mark(len(case["steps"]) > 1)
    ctx.label(f"{len({x['method'] for x in case['steps']})} methods")
    with Gateway(L) as g:
        items: dict = {}
        for x, k in zip(case["steps"], case["pick"]):
            cls, where, form = case["items"][k % len(case["items"])]
            x = {**x, "cls": cls, "where": where}
            if cls != "StopGo" and x["method"] in STOPGO_CMDS:
                continue
            key = k % len(case["items"])
            if key not in items:
                items[key] = make(L, g.client, cls, where, form)
            if "values" in x:
                _read_step(g, items[key], x)
            else:
                _cmd_step(g, items[key], x)


def _read_step(g, item, case):
    L = g.L
    _, dim, _, ref, view = READINGS[case["method"]]
    what = f"{case['cls']}({case['where']}).{case['method']}{tuple(case['args'])}"
    before = dt.datetime.now()
    d = dim(before, *case["args"])
    data = f"*#18*{case['where']}*{d}*{'*'.join(case['values'])}##"
    texts = {"ack": [data] * case["copies"] + [ACK], "empty": [ACK], "nack": [NACK]}[case["end"]]
    kind, val, sent = g.run(getattr(item, case["method"])(*case["args"]), [spread(texts, case["delays"], case["cuts"])])
    wants = [[f"*#18*{case['where']}*{dim(t, *case['args'])}##"] for t in (before, dt.datetime.now())]
    check(sent in wants, "%s sent %r, expected %r", what, sent, wants[0])
    if case["end"] == "ack":
        check(kind == "ok", "%s answered with %s ended %s %r", what, texts, kind, val)
        expect_equal(view(val), ref(case["values"]), f"{what} from {data}")
    else:
        check(kind == "err" and isinstance(val, L.exc.ResponseError), "%s answered with %s ended %s %r", what, texts, kind, val)
    g.probe(case["next"], f"after {what}")


_clock_lib: list = []
_NOW = [dt.datetime(2024, 2, 29, 12, 0, 0)]
_OFFSET = [0]  # of the local time from UTC, in hours


def _lib_with_clock():
    """The library imported with a settable wall clock (datetime.now(), date.today())."""
    if not _clock_lib:
        real, real_date = dt.datetime, dt.date

        class Date(real_date):
            @classmethod
            def today(cls):
                return cls(_NOW[0].year, _NOW[0].month, _NOW[0].day)

        class DateTime(real):
            @classmethod
            def _at(cls, n, tz=None):
                return cls(n.year, n.month, n.day, n.hour, n.minute, n.second, tzinfo=tz)

            @classmethod
            def now(cls, tz=None):
                if tz is None:
                    return cls._at(_NOW[0])
                utc = (_NOW[0] - dt.timedelta(hours=_OFFSET[0])).replace(tzinfo=dt.timezone.utc)
                return cls._at(utc.astimezone(tz), tz)

            @classmethod
            def utcnow(cls):
                return cls._at(_NOW[0] - dt.timedelta(hours=_OFFSET[0]))

            today = now

        dt.datetime, dt.date = DateTime, Date
        try:
            _clock_lib.append(fresh_lib())
        finally:
            dt.datetime, dt.date = real, real_date
    return _clock_lib[0]


def c18_clock(case, ctx: Ctx):
    """Omitted days, months and years mean the current ones, at every point of the calendar."""
    L = _lib_with_clock()
    x = case["step"]
    now = _NOW[0] = dt.datetime(*case["now"])
    _OFFSET[0] = case.get("offset", 0)
    reading = x["method"] in READINGS
    ctx.mark(None in x["args"] or not x["args"])
    ctx.label(x["method"])
    with Gateway(L) as g:
        item = make(L, g.client, "EnergyManagement", x["where"], "str")
        if reading:
            frame = lambda t: f"*#18*{x['where']}*{READINGS[x['method']][1](t, *x['args'])}##"
            script = [(0, frame(now)[:-2] + f"*{x['values'][0]}##" + ACK)]
        else:
            frame = lambda t: ENERGY_CMDS[x["method"]][1](x["where"], t, *x["args"])
            script = [(0, ACK)]
        before = dt.datetime.now()
        kind, val, sent = g.run(getattr(item, x["method"])(*x["args"]), [script])
        # the real time is accepted too: a clock read in a way that cannot be set here
        check(sent in [[frame(t)] for t in (now, before, dt.datetime.now())], "%s%r at %s sent %r, expected %r", x["method"], tuple(x["args"]),
              now, sent, frame(now))
        check(kind == "ok", "%s ended %s %r", x["method"], kind, val)


_caldate = st.one_of(st.integers(dt.date(2000, 1, 1).toordinal(), dt.date(2099, 12, 31).toordinal()).map(dt.date.fromordinal),
                 st.builds(lambda y, md: dt.date(y, *md), st.integers(2000, 2099),
                           st.sampled_from([(1, 1), (1, 31), (2, 28), (3, 1), (6, 30), (9, 30), (10, 1), (12, 1), (12, 31)])))


@st.composite
def c18_clock_case(draw):
    d = draw(_caldate)
    now = [d.year, d.month, d.day, draw(st.sampled_from([0, 0, 12, 23])), draw(st.sampled_from([0, 30, 59])), draw(st.sampled_from([0, 59]))]
    m = draw(st.sampled_from(["start_sending_daily_totalizers_hourly", "start_sending_monthly_average_hourly",
                              "start_sending_monthly_totalizers_current_year", "start_sending_monthly_totalizers_last_year",
                              "get_energy_unit_per_month", "get_energy_unit_per_month"]))
    table = READINGS if m in READINGS else ENERGY_CMDS
    args = [None if draw(st.booleans()) else a for a in draw(table[m][0])]
    return {"now": now, "offset": draw(st.sampled_from([0, 1, -5, 12])), "step": {"method": m, "args": args, "where": draw(_meter_where), "values": ["7"]}}


_DOC_ADDR = re.compile(r"1(?P<a>[1-9]\d*)|5(?P<b>[1-9]\d*)|7(?P<c>[1-9]\d*)#0", re.ASCII)
_ADDR_SHAPE = re.compile(r"1[0-9]+|5[0-9]+|7[0-9]+#0", re.ASCII)


def addr_class(s: str) -> str | None:
    """The device type of a documented address, 'refused' for a text of no documented form, None if open."""
    m = _DOC_ADDR.fullmatch(s)
    if m:
        if m["a"] and int(m["a"]) <= 127:
            return "STOP_GO"
        if m["b"] and int(m["b"]) <= 255:
            return "POWER_METER"
        if m["c"] and int(m["c"]) <= 255:
            return "ACTUATOR"
    return None if _ADDR_SHAPE.fullmatch(s) else "refused"


_addr_text = st.one_of(
    energy_where, energy_where,
    st.builds(lambda a, n, p: f"{a}{n}{p}", st.sampled_from(list("0123456789") + ["", "#", "15", "17", "05"]),
              st.one_of(st.just(""), st.integers(0, 300).map(str)), st.sampled_from(["", "#0", "#1", "#", "#0#0", "#00", "#4#01", "#0#", "##0"])),
    st.text("0157#9", max_size=6), F.where_text,
    st.sampled_from(["", "1", "5", "7", "7#0", "71", "71#1", "1#1", "51#0", "1²", "5٣", "7١#0", "1a", "5-1", "1 1", "71#0 ", " 51"]))


def c18_addr(case, ctx: Ctx):
    L = lib()
    s = case["where"]
    want = addr_class(s)
    if want is None:
        ctx.label("open")
        return
    ctx.label(want)
    ctx.mark(want != "refused" or s[:1] in ("1", "5", "7"))
    with Gateway(L) as g:
        for cls in ("EnergyManagement", "StopGo"):
            w = "refused" if cls == "StopGo" and want != "STOP_GO" else want
            try:
                item = make(L, g.client, cls, s, case["form"])
            except L.exc.InvalidTag:
                check(w == "refused", "%s refused the documented address %r", cls, s)
                continue
            check(w != "refused", "%s accepted the address %r", cls, s)
            expect_equal(item.get_type().name, w, f"type of {s}")
            expect_equal(str(item.where), s, "address")
            expect_equal(item.get_type(), getattr(L.items.TypeEnergy, w) if hasattr(L.items, "TypeEnergy") else item.get_type(), "type")


def _addr_enum(tier):
    texts = [f"1{n}" for n in range(1, 128)] + [f"5{n}" for n in range(1, 256)] + [f"7{n}#0" for n in range(1, 256)]
    texts += [f"7{n}" for n in range(0, 256)] + [f"{a}{n}" for a in "0234689" for n in range(0, 300, 7)]
    texts += [f"{n}" for n in range(10)] + [f"{n}#0" for n in range(10)] + [f"7{n}#{p}" for n in (1, 25, 255) for p in range(1, 30)]
    return [{"where": t, "form": f} for t in texts for f in ("str", "Where")]


@st.composite
def c18_seq_case(draw):
    items = draw(st.lists(st.one_of(st.tuples(st.just("EnergyManagement"), energy_where, _form), st.tuples(st.just("StopGo"), _stopgo_where, _form))
                          .map(list), min_size=1, max_size=2))
    steps = [draw(c18_read_case() if k < 2 else c18_cmd_case()) for k in draw(st.lists(st.integers(0, 2), min_size=2, max_size=7))]
    return {"items": items, "steps": steps, "pick": draw(st.lists(st.integers(0, 1), min_size=7, max_size=7))}


C18 = Property(
    "C18",
    rule="energy commands, readings and addresses with generated arguments, values and endings; non-trivial: a command with arguments, a "
         "reading of several values or digits, an address that is documented or starts like one",
    facets=[
        Facet("commands", c18_cmd_case(), c18_cmd, "a command with arguments", 2000, 40000, shards=4),
        Facet("readings", c18_read_case(), c18_read, "several values or digits", 2400, 50000, shards=6),
        Facet("sequence", c18_seq_case(), c18_sequence, "more than one step", 800, 20000, shards=4),
        Facet("clock", c18_clock_case(), c18_clock, "an omitted day, month or year", 800, 20000, shards=2),
        Facet("addresses", st.fixed_dictionaries({"where": _addr_text, "form": _form}), c18_addr, "documented or starting like one", 1000, 20000,
              shards=1),
        Facet("all_addresses", None, c18_addr, "documented or starting like one", enum=_addr_enum, shards=2),
    ],
    assumptions=["numbers N outside the documented ranges, or with leading zeros, are not judged", "repeated answers carry equal fields"],
)

# --------------------------------------------------------------------------- C19

FIELDS = ["open", "failure", "block", "open_cc", "open_ground_fault", "open_vmax", "self_test_off", "auto_reset_off", "check_off",
          "waiting_closing", "first_24h_open", "power_fail_down", "power_fail_up"]


def mask_fields(mask: str) -> dict:
    return {f: mask[-1 - i] == "1" for i, f in enumerate(FIELDS)}


def status_view(s) -> dict:
    return {f: getattr(s, f) for f in FIELDS}


def _same_status(got, want, what):
    g = status_view(got)
    for f in FIELDS:
        if g[f] is not want[f] and not (g[f] is not None and want[f] is not None and g[f] == want[f]):
            raise Violation(f"{what}: {f} is {g[f]!r}, expected {want[f]!r}")


def c19_masks(case, ctx: Ctx):
    """Every mask start..start+count-1 by request and by event."""
    L = fresh_lib()
    masks = [f"{m:013b}" for m in range(case["start"], case["start"] + case["count"])]
    ctx.mark()
    w = case["where"]
    with Gateway(L) as g:
        item = L.items.StopGo(g.client, w)
        for m in masks:
            kind, val, sent = g.run(item.request_status(), [[(0, f"*#18*{w}*250*{m}##" + ACK)]])
            expect_equal(sent, [f"*#18*{w}*250##"], "status request")
            check(kind == "ok", "status %s ended %s %r", m, kind, val)
            _same_status(val, mask_fields(m), f"requested status {m}")
    from stream import connect

    got = []

    async def cb(item, status):
        got.append((item, status))

    L.items.EnergyManagement.on_stop_go_status(cb)
    world, client, tr = connect(L, "EventSession")
    try:
        world.task(client.loop())
        for m in masks:
            tr.feed(f"*#18*{w}*250*{m}##")
        world.loop.settle()
        expect_equal(len(got), len(masks), "number of Stop&Go events")
        for m, (it, s) in zip(masks, got):
            _same_status(s, mask_fields(m), f"event status {m}")
            expect_equal(str(it.where), w, "item address")
    finally:
        world.close()


def c19_single(case, ctx: Ctx):
    L = lib()
    ctx.mark(bool(case["answers"]))
    ctx.label(f"{min(len(case['answers']), 3)} answers")
    with Gateway(L) as g:
        _sg_step(g, make(L, g.client, "StopGo", case["where"], case["form"]), case["where"], case)


def c19_sequence(case, ctx: Ctx):
    """Several requests on one item: each result holds what its own answers said and nothing of earlier ones."""
    L = lib()
    ctx.mark(sum(bool(x["answers"]) for x in case["steps"]) > 1)
    ctx.label(f"{len(case['steps'])} requests")
    with Gateway(L) as g:
        item = make(L, g.client, "StopGo", case["where"], case["form"])
        kept = [_sg_step(g, item, case["where"], x) for x in case["steps"]]
        for x, (val, want) in zip(case["steps"], kept):
            _same_status(val, want, f"earlier status from {x['answers']}, after the later requests")


def _sg_step(g, item, w, case):
    L = g.L
    want = dict.fromkeys(FIELDS)
    texts = []
    for dim, v in case["answers"]:
        if dim == 250:
            texts.append(f"*#18*{w}*250*{v}##")
            want.update(mask_fields(v))
        else:
            texts.append(f"*#18*{w}*{dim}*{v}##")
            want[FIELDS[dim - 251]] = v == "1"
    dims = list(L.energy_enums.DimensionEnergy)
    req = case["req"]
    if req is None:
        kind, val, sent = g.run(item.request_status(), [spread([*texts, ACK], [0], case["cuts"])])
        req = 250
    else:
        d = next(x for x in dims if str(x) == str(req))
        kind, val, sent = g.run(item.request_status(dim_req=d), [spread([*texts, ACK], [0], case["cuts"])])
    expect_equal(sent, [f"*#18*{w}*{req}##"], "status request")
    check(kind == "ok", "status answered with %s ended %s %r", texts, kind, val)
    _same_status(val, want, f"status from {texts}")
    return val, want


_bits = st.text("01", min_size=13, max_size=13)
_sg_answer = st.one_of(st.tuples(st.integers(251, 263), _flag), st.tuples(st.integers(251, 263), _flag), st.tuples(st.just(250), _bits)).map(list)
_BATCH = 128
C19 = Property(
    "C19",
    rule="all 8192 masks by request and by event; non-trivial single answers: at least one individual bit answer",
    facets=[
        Facet("masks", None, c19_masks, "always", enum=lambda tier: [
            {"start": s, "count": _BATCH, "where": w} for w in (("11",) if tier == "quick" else ("11", "1127", "15", "163"))
            for s in range(0, 8192, _BATCH)], shards=8),
        Facet("single", st.fixed_dictionaries({"where": _stopgo_where, "form": _form, "req": st.one_of(st.none(), st.integers(250, 263)),
                                               "answers": st.lists(_sg_answer, max_size=4), "cuts": _cuts}), c19_single,
              "at least one answer", 800, 20000, shards=4,
              corpus=[{"where": "11", "form": "str", "req": d, "answers": [[d, v]], "cuts": []} for d in range(251, 264) for v in "01"]),
        Facet("sequence", st.fixed_dictionaries({"where": _stopgo_where, "form": _form, "steps": st.lists(
            st.fixed_dictionaries({"req": st.one_of(st.none(), st.integers(250, 263)), "answers": st.lists(_sg_answer, max_size=3),
                                   "cuts": _cuts}), min_size=2, max_size=5)}), c19_sequence, "two requests with answers", 600, 15000, shards=4),
    ],
    assumptions=["a later answer for a condition replaces an earlier one"],
)


# --------------------------------------------------------------------------- C28: looking at the messages items send

_LOOKED = {"c13": (c13_case, c13), "c15": (c15_case(), c15), "c16": (C16.facets[0].strategy, c16), "c17": (c17_case(), c17),
           "c18_cmd": (c18_cmd_case(), c18_cmd), "c18_read": (c18_read_case(), c18_read), "c19": (C19.facets[1].strategy, c19_single)}


def c28_looked(case, ctx: Ctx):
    """A client that looks at every message before it sends it: the operations of all items behave as ever."""
    ctx.label(case["op"])
    talk.LOOK[0] = True
    try:
        _LOOKED[case["op"]][1](case["case"], ctx)
    finally:
        talk.LOOK[0] = False


pure.C28.facets.append(Facet(
    "looked", st.one_of(*[s.map(lambda c, op=op: {"op": op, "case": c}) for op, (s, _) in _LOOKED.items()]), c28_looked,
    "an operation that is non-trivial for its own property", 800, 20000, shards=4))
