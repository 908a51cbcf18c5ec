"""C32-C37: errors, the client an item talks through, secrecy of the password, prompt dispatch, arguments, failing callbacks."""
from __future__ import annotations

import asyncio
import datetime
import gc
import hashlib
import logging

from hypothesis import strategies as st

import frames as F
from core import Ctx, Facet, Violation, check, describe, expect_equal, fresh_lib, lib
from devices import ACK, NACK, energy_where
from events import KINDS, Recorder, _event, compare, expected
from pure import TAG_CLASSES, _cls, bad_text
from registry_types import Property
from session import SESSION_CODE, Gateway as AuthGateway, handshake, to_digits
from sim import World, outcome
from stream import Proto, connect
from talk import Gateway

# --------------------------------------------------------------------------- C32


def _carries(L, e, attr: str, texts, what: str) -> None:
    check(isinstance(e, L.exc.OWNException), "%s raised %s, which is not one of the library's exceptions", what, describe(e))
    check(isinstance(e, L.exc.ParseError), "%s raised %s, which is not a parse error", what, describe(e))
    check(not (isinstance(e, L.exc.InvalidMessage) and isinstance(e, L.exc.InvalidTag)), "%s raised %s, which is of two kinds", what, describe(e))
    got = str(getattr(e, attr, None))
    check(got in texts, "%s: the error carries %r, not %r", what, got, texts[0])
    check(any(t in str(e) for t in texts), "%s: the error message %r does not show it", what, str(e))


def c32_text(case, ctx: Ctx):
    L = lib()
    if F.well_formed(case) or not F.claimed(case):
        return
    ctx.mark(len(case) > 3)
    try:
        m = L.parse_message(case)
    except L.exc.InvalidMessage as e:
        _carries(L, e, "message", [case, case.strip()], f"parsing {case!r}")
    except Exception as e:
        raise Violation(f"parsing {case!r} raised {describe(e)}, not the invalid-message error") from e
    else:
        raise Violation(f"malformed {case!r} was accepted as {m!r}")


def c32_tag(case, ctx: Ctx):
    L = lib()
    text = case["text"]
    ctx.label(case["cls"])
    ctx.mark()
    try:
        _cls(L, case["cls"])(text)
    except L.exc.InvalidTag as e:
        _carries(L, e, "tag", [text], f"{case['cls']}({text!r})")
    else:
        raise Violation(f"{case['cls']}({text!r}) was accepted")


def c32_address(case, ctx: Ctx):
    """Addresses of energy items: documented forms are 1N, 5N and 7N#0; a Stop&Go item needs 1N."""
    L = lib()
    where, cls = case["where"], case["cls"]
    form = L.tags.Where(where) if case["tag"] else where
    with Gateway(L) as g:
        try:
            item = getattr(L.items, cls)(g.client, form)
        except L.exc.InvalidTag as e:
            ctx.mark()
            ctx.label(f"{cls} refused")
            _carries(L, e, "tag", [where], f"{cls} at {where!r}")
        else:
            expect_equal(str(item.where), where, f"address of {item!r}")
            ctx.label(f"{cls} accepted")


def c32_received(case, ctx: Ctx):
    """One malformed frame in a delivery: the error names it."""
    L = lib()
    bad = case["bad"]
    ctx.mark(bool(case["before"] or case["after"]))
    with Proto() as p:
        try:
            p.proto.data_received(("".join(case["before"]) + bad + "##" + "".join(case["after"])).encode("ascii"))
        except L.exc.InvalidMessage as e:
            _carries(L, e, "message", [bad + "##", (bad + "##").strip()], f"receiving {bad + '##'!r}")
        except Exception as e:
            raise Violation(f"receiving {bad + '##'!r} raised {describe(e)}") from e
        else:
            raise Violation(f"receiving {bad + '##'!r} raised nothing")


def c32_tags(case, ctx: Ctx):
    L = lib()
    name, tags = case["name"], case["tags"]
    if tags == (["#", "1"] if name == "ACK" else ["#", "0"]):
        return
    ctx.mark(len(tags) > 0)
    try:
        getattr(L.messages, name).parse(list(tags))
    except L.exc.InvalidMessage as e:
        _carries(L, e, "message", [F.encode_tags(tags)], f"{name}.parse({tags})")
    else:
        raise Violation(f"{name}.parse({tags}) was accepted")


def c32_failures(case, ctx: Ctx):
    """Failing operations raise the error of their kind, all below one base class."""
    L = lib()
    ctx.mark()
    ctx.label(case["op"])
    op, session = case["op"], case["session"]
    E = L.exc
    for n in ("ParseError", "InvalidMessage", "InvalidTag", "InvalidSession", "InvalidAuthentication", "ResponseError"):
        check(issubclass(getattr(E, n), E.OWNException) and issubclass(getattr(E, n), Exception), "%s is not an OWNException", n)
    kinds = ["InvalidSession", "InvalidAuthentication", "ResponseError", "ParseError"]
    want = {"send": "InvalidSession", "loop": "InvalidSession", "unstarted": "InvalidSession", "auth": "InvalidAuthentication",
            "nack": "ResponseError", "wrong": "ResponseError", "nodata": "ResponseError"}[op]
    w = None
    try:
        if op == "auth":
            w = World()
            AuthGateway(w, {"mode": "none", "session": session, "password": "12345", "nonce": "", "ra": "", "delays": [0], "cuts": [],
                            "dev": {"step": 1, "kind": "frame", "text": NACK}})
            client = L.Client("192.0.2.1", 20000, "12345", getattr(L.SessionType, session), loop=w.loop)
            t = w.task(client.start())
        elif op == "unstarted":
            w = World()
            client = L.Client("192.0.2.1", 20000, "12345", getattr(L.SessionType, session), loop=w.loop)
            t = w.task(client.loop() if session == "EventSession" else client.send_message(L.messages.ACK()))
        else:
            w, client, tr = connect(L, "EventSession" if op == "send" else "CommandSession" if session == "EventSession" else session)
            if op == "loop":
                t = w.task(client.loop())
            elif op == "send":
                t = w.task(L.items.Light(client, "11").turn_on())
            elif op == "nodata":
                tr.on_write = lambda data: tr.feed(ACK)
                t = w.task(L.items.Gateway(client).get_model())
            else:
                tr.on_write = lambda data: tr.feed(NACK if op == "nack" else "*1*1*11##")
                t = w.task(L.items.Light(client, "11").turn_on())
        w.loop.run_to_end(t, 60)
        kind, val = outcome(t)
        check(kind == "err" and isinstance(val, E.OWNException), "%s ended %s %r", op, kind, val)
        for k in kinds:
            check(isinstance(val, getattr(E, k)) == (k == want), "%s raised %s", op, describe(val))
    finally:
        if w is not None:
            w.close()


def _bad_part(pre, ch, post):
    return pre + ch + post


_bad_received = st.builds(_bad_part, st.text("*0123456789", max_size=8), st.sampled_from("abzZ-+.,;/\\\"'_"), st.text("*0123456789", max_size=6))
C32 = Property(
    "C32",
    rule="refused texts, tags, addresses, received frames and tag lists, and failing operations; non-trivial: a refusal of more than a few "
         "characters",
    facets=[
        Facet("text", F.any_text, c32_text, "malformed, more than 3 characters", 5000, 100000,
              corpus=["*1*1*11##*1*1*11##", " *1*a*11## ", "garbage", "*1*1*11", "##", "*1*1" + "*11" * 5000 + "a##", "*1*1" + "0" * 300]),
        Facet("tag", st.fixed_dictionaries({"cls": st.sampled_from(TAG_CLASSES), "text": bad_text}), c32_tag, "always", 2000, 40000),
        Facet("address", st.fixed_dictionaries({
            "cls": st.sampled_from(["EnergyManagement", "StopGo"]), "tag": st.booleans(),
            "where": st.one_of(energy_where, F.digits(1, 4), F.where_text)}), c32_address, "a refused address", 1000, 20000, shards=4,
              corpus=[{"cls": c, "tag": t, "where": a} for c in ("EnergyManagement", "StopGo") for t in (True, False)
                      for a in ("51", "11", "71#0", "71", "9", "#1", "61")]),
        Facet("received", st.fixed_dictionaries({"before": st.lists(F.well_formed_frame.filter(F.claimed), max_size=3), "bad": _bad_received,
                                                 "after": st.lists(F.well_formed_frame.filter(F.claimed), max_size=3)}), c32_received,
              "together with valid frames", 2000, 40000),
        Facet("tags", st.fixed_dictionaries({"name": st.sampled_from(["ACK", "NACK"]), "tags": st.one_of(
            st.lists(st.sampled_from(["#", "1", "0", "", "#1"]), max_size=3), F.frame_tags)}), c32_tags, "at least one tag", 1000, 10000, shards=2),
        Facet("failures", None, c32_failures, "always", shards=1,
              enum=lambda tier: [{"op": o, "session": s} for o in ("send", "loop", "unstarted", "auth", "nack", "wrong", "nodata")
                                 for s in SESSION_CODE]),
    ],
    assumptions=["the text an error carries may have its surrounding white space removed"],
)

# --------------------------------------------------------------------------- C33

# class -> (command, frame)
_TALK = {"Light": ("turn_on", "*1*1*{}##"), "Dimmer": ("turn_off", "*1*0*{}##"), "Automation": ("up", "*2*1*{}##"), "Camera": ("receive_video", "*7*0*{}##")}
_talk_cls = ["Light", "Dimmer", "Automation", "Camera"]
_EVENT = {"Light": "*1*1*{}##", "Automation": "*2*2*{}##", "Camera": "*7*0*{}##"}
_CODE = {"Light": "1", "Automation": "2", "Camera": "7"}


@st.composite
def c33_case(draw):
    ops = []
    where = st.sampled_from(["11", "12", "0110", "11#4#01"])
    for _ in range(draw(st.integers(2, 14))):
        code = draw(st.integers(-1, 19))
        if code < 0:
            ops.append(["rerun", draw(st.sampled_from([None, 0, 1, 2, 3])), draw(st.sampled_from(["cancel", "close", "drop"]))])
        elif code < 4:
            ops.append(["make", draw(st.sampled_from(_talk_cls)), draw(where), draw(st.integers(0, 1))])
        elif code < 6:
            ops.append(["get", draw(st.integers(0, 2)), draw(st.sampled_from(sorted(_CODE))), draw(where), draw(st.integers(0, 2))])
        elif code < 9:
            ops.append(["assign", draw(st.integers(0, 30)), draw(st.integers(0, 2))])
        elif code < 14:
            ops.append(["cmd", draw(st.integers(0, 30)), draw(st.sampled_from([ACK, ACK, NACK, "*1*1*11##"]))])
        else:
            ops.append(["event", draw(st.lists(st.tuples(st.sampled_from(sorted(_EVENT)), where).map(list), min_size=1, max_size=4)),
                        draw(st.sampled_from([ACK, ACK, NACK]))])
    return {"ops": ops, "late": draw(st.booleans()), "loop": draw(st.sampled_from([None, 0, 1, 2, 3])), "sessions": draw(st.lists(st.sampled_from(["CommandSession", "OldCommandSession"]),
                                                                                              min_size=2, max_size=2))}


def c33(case, ctx: Ctx):
    """Clients 0 and 1 are command sessions, client 2 is the event session whose loop creates the items of events,
    client 3 another event session that the loop may be given."""
    L = fresh_lib()
    w = World()
    loop = w.loop

    def on_connect(tr):
        def on_write(data):
            tr.on_write = None
            tr.feed(ACK)

        tr.on_write = on_write
        tr.feed(ACK)

    try:
        w.on_connect = on_connect
        clients = [L.Client("192.0.2.1", 20000, "12345", getattr(L.SessionType, s), loop=loop) for s in [*case["sessions"], "EventSession", "EventSession"]]
        trs: list = [None, None, None]

        def start(i):
            t = w.task(clients[i].start())
            loop.run_to_end(t, 60)
            check(outcome(t)[0] == "ok", "start ended %r", outcome(t))
            trs[i] = w.transports[-1]

        # the command sessions may also be started after the event loop
        for i in ([2] if case["late"] else [0, 1, 2]):
            start(i)
        wire: list = []  # (connection, frame)
        reply = [ACK]

        def listen(i):
            def on_write(data):
                wire.append((i, data.decode("latin1")))
                trs[i].feed(reply[0])

            trs[i].on_write = on_write

        seen: list = []  # (item, event) and the outcome of the command issued inside the callback

        def callback(cls):
            async def cb(item, *args):
                rec = [item, cls, None]
                seen.append(rec)
                try:
                    await getattr(item, _TALK[cls][0])()
                    rec[2] = "ok"
                except BaseException as e:
                    rec[2] = e

            return cb

        for cls in _EVENT:
            getattr(L.items, cls).on_status_change(callback(cls))
        lt = w.task(clients[2].loop() if case["loop"] is None else clients[2].loop(client=clients[case["loop"]]))
        loop.settle()
        if case["late"]:
            start(0)
            start(1)
            loop.settle()
        for i in range(3):
            listen(i)
        items: list = []  # [item, class, where, index of its client]
        cache: dict = {}  # (client index, class, where) -> entry
        assigned = callbacks = 0
        loop_arg = case["loop"]

        def judge(e, i, r, what):
            if i >= 2:
                check(isinstance(e, L.exc.InvalidSession), "%s on an event session ended %r", what, e)
            elif r == ACK:
                check(e == "ok", "%s was acknowledged but ended %r", what, e)
            else:
                check(isinstance(e, L.exc.ResponseError), "%s was answered %s but ended %r", what, r, e)

        for op in case["ops"]:
            wire.clear()
            if op[0] == "make":
                items.append([getattr(L.items, op[1])(clients[op[3]], op[2]), op[1], op[2], op[3]])
            elif op[0] == "get":
                k = (op[1], op[2], op[3])
                it = clients[op[1]].get_item(L.tags.Who(_CODE[op[2]]), L.tags.Where(op[3]), client=clients[op[4]])
                if k not in cache:
                    cache[k] = [it, op[2], op[3], op[4]]
                    items.append(cache[k])
                check(it is cache[k][0], "asking for %s again gave another item", k)
            elif op[0] == "rerun":
                # the event loop runs again, with another client, on the same connection or on a new one
                if op[2] == "cancel":
                    lt.cancel()
                elif op[2] == "close":
                    loop.run_to_end(w.task(clients[2].close()), 5)
                else:
                    trs[2].drop(None)
                loop.settle()
                check(lt.done(), "the event loop is still running after %s", op[2])
                if op[2] != "cancel":
                    start(2)
                    listen(2)
                    wire.clear()
                loop_arg = op[1]
                lt = w.task(clients[2].loop() if loop_arg is None else clients[2].loop(client=clients[loop_arg]))
                loop.settle()
                ctx.label("event loop run again")
            elif op[0] == "assign" and items:
                x = items[op[1] % len(items)]
                x[0].client = clients[op[2]]
                x[3] = op[2]
                assigned += 1
            elif op[0] == "cmd" and items:
                x = items[op[1] % len(items)]
                reply[0] = op[2]
                t = w.task(getattr(x[0], _TALK[x[1]][0])())
                loop.run_to_end(t, 60)
                kind, val = outcome(t)
                check(kind in ("ok", "err"), "a command of %r is %s", x[0], kind)
                frame = _TALK[x[1]][1].format(x[2])
                expect_equal(wire, [] if x[3] >= 2 else [(x[3], frame)], f"frames (connection, frame) of a command of an item of client {x[3]}")
                judge("ok" if kind == "ok" else val, x[3], op[2], f"a command of an item of client {x[3]}")
            elif op[0] == "event":
                reply[0] = op[2]
                n = len(seen)
                trs[2].feed("".join(_EVENT[c].format(a) for c, a in op[1]))
                loop.settle()
                loop.advance(1)
                got = seen[n:]
                want_wire = []
                for c, a in op[1]:
                    k = (2, c, a)
                    if k not in cache:
                        mine = [s for s in got if type(s[0]).__name__ == c and str(s[0].where) == a]
                        check(bool(mine), "the event of %s %s reached no callback", c, a)
                        cache[k] = [mine[0][0], c, a, 2 if loop_arg is None else loop_arg]
                        items.append(cache[k])
                    if cache[k][3] < 2:
                        want_wire.append((cache[k][3], _TALK[c][1].format(a)))
                expect_equal(len(got), len(op[1]), f"callback calls for {op[1]}")
                for (c, a), (it, cls, res) in zip(op[1], got):
                    k = (2, c, a)
                    check(it is cache[k][0], "an event of %s %s came with the item %r", c, a, it)
                    check(it.client is clients[cache[k][3]], "the item of %s %s uses the wrong client", c, a)
                    judge(res, cache[k][3], op[2], f"a command from the callback of {c} {a}")
                for i in range(3):
                    expect_equal([f for j, f in wire if j == i], [f for j, f in want_wire if j == i], f"frames on connection {i} after events {op[1]}")
                callbacks += 1
            for x in items:
                check(x[0].client is clients[x[3]], "%r uses another client than the one it was given", x[0])
        check(outcome(lt)[0] == "pending", "the event loop ended %r", outcome(lt))
        ctx.mark(assigned > 0 or callbacks > 0)
        ctx.label("reassigned" if assigned else "never reassigned")
        ctx.label("commands in callbacks" if callbacks else "no events")
    finally:
        w.close()


C33 = Property(
    "C33",
    rule="histories of creating items, asking clients for them, giving them another client, issuing commands and receiving events whose "
         "callbacks issue commands, over two command sessions and one event session; non-trivial: a reassigned item or a command in a callback",
    facets=[Facet("history", c33_case(), c33, "a reassigned item or a command in a callback", 1200, 25000, shards=8,
                  corpus=[{"late": late, "ops": [["event", [["Light", "11"], ["Automation", "11"], ["Camera", "11"], ["Light", "12"]], ACK], ["assign", 0, 1],
                                   ["event", [["Light", "11"], ["Light", "12"]], NACK], ["cmd", 0, ACK]], "loop": lo,
                           "sessions": ["CommandSession", "CommandSession"]} for lo in (None, 0, 1) for late in (False, True)]
                  + [{"late": False, "ops": [["event", [["Light", "11"]], ACK], ["rerun", b, how], ["event", [["Light", "11"], ["Light", "12"]], ACK],
                                             ["rerun", a, how], ["event", [["Automation", "11"], ["Light", "12"]], ACK]],
                      "loop": a, "sessions": ["CommandSession", "CommandSession"]}
                     for a, b in ((None, 0), (0, None), (0, 1), (1, 0)) for how in ("cancel", "close", "drop")])],
    assumptions=["commands issued in callbacks are single-answer commands, answered in order"],
)

# --------------------------------------------------------------------------- C34


class _Log(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.lines: list[str] = []

    def emit(self, record):
        self.lines.append(self.format(record))


_secret = st.builds(lambda a, b, c: a + c + b, st.text("qzQZ!-_ é0123456789", min_size=4, max_size=10), st.text("qzQZ!-_ é0123456789", min_size=1, max_size=6),
                    st.sampled_from("qzQZ"))


@st.composite
def c34_case(draw):
    case = draw(handshake())
    case["password"] = str(draw(st.integers(10**9, 2**32 - 1))) if case["mode"] == "open" else draw(_secret)
    if case["mode"] == "open" and draw(st.integers(0, 5)) == 0:
        # a password for which there is no OPEN answer: starting fails
        case["password"], case["odd"] = "Zq!" + draw(_secret), True
    if case["mode"] == "open" and draw(st.integers(0, 5)) == 0:
        case["nonce"] = "0" * draw(st.integers(1, 9))
    case["refuse"] = draw(st.sampled_from([False] * 9 + [True]))
    case["after"] = draw(st.lists(st.sampled_from(["cmd", "nack", "event", "junk", "drop", "close", "read"]), max_size=3))
    return case


def _shown(val) -> list[str]:
    """What a user sees of a result: for an exception also the message of every exception its traceback shows."""
    out = [repr(val), str(val)]
    while isinstance(val, BaseException):
        val = val.__cause__ if val.__cause__ is not None or val.__suppress_context__ else val.__context__
        out += [repr(val), str(val)]
    return out


def c34(case, ctx: Ctx):
    L = lib()
    w = World()
    log = _Log()
    root = logging.getLogger()
    own = logging.getLogger("pyown")
    old = (root.level, own.level, root.manager.disable, own.disabled)
    pw = case["password"]
    try:
        logging.disable(logging.NOTSET)
        own.setLevel(logging.DEBUG)
        root.addHandler(log)
        gw = AuthGateway(w, {**case, "password": "0"} if case.get("odd") else case)
        client = L.Client("192.0.2.1", 20000, pw, getattr(L.SessionType, case["session"]), loop=w.loop)
        if case["refuse"]:
            w.connect_error = OSError(111, "refused")
        t = w.task(client.start())
        w.loop.run_to_end(t, 120)
        shown = [repr(client), str(client), *_shown(outcome(t)[1])]
        tr = w.transports[0] if w.transports else None
        if outcome(t)[0] == "ok":
            tr.on_write = None
            lt = w.task(client.loop()) if case["session"] == "EventSession" else None
            for a in case["after"]:
                if a in ("cmd", "nack"):
                    t2 = w.task(L.items.Light(client, "11").turn_on())
                    w.loop.settle()
                    tr.feed(ACK if a == "cmd" else NACK)
                elif a == "event":
                    tr.feed("*1*1*11##")
                elif a == "junk":
                    tr.feed("junk##")
                elif a == "drop":
                    tr.drop(ConnectionResetError(104, "reset"))
                elif a == "close":
                    t2 = w.task(client.close())
                elif a == "read" and lt is None:
                    t2 = w.task(client.read_message())
                w.loop.settle()
                w.loop.advance(6)
                if a in ("cmd", "nack", "close", "read") and "t2" in locals():
                    shown += _shown(outcome(t2)[1])
        ctx.label(case["mode"])
        ctx.label("refused" if case["refuse"] else "failed" if case["dev"] or case.get("odd") else "succeeded")
        ctx.mark(case["mode"] != "none")
        ctx.label("log lines" if log.lines else "no log lines")
        wire = tr.sent().decode("latin1") if tr else ""
        secrets = {pw}
        for h in ("sha1", "sha256", "md5"):
            d = hashlib.new(h, pw.encode()).hexdigest()
            secrets |= {d, d.upper(), to_digits(d), pw.encode().hex(), to_digits(pw.encode().hex())}
        if case["mode"] == "open":
            # the OPEN answer is a reversible function of the password (for some nonces the password itself)
            secrets = {s for s in secrets if s not in wire and s not in case["nonce"]}
        for s in secrets:
            check(s not in wire, "the password (or its hash) was sent: %r", wire)
            for line in log.lines:
                check(s not in line, "the password (or its hash) was logged: %r", line)
            for x in shown:
                check(s not in x, "the password (or its hash) is shown by %r", x)
    finally:
        root.removeHandler(log)
        root.setLevel(old[0])
        own.setLevel(old[1])
        root.manager.disable = old[2]
        own.disabled = old[3]
        w.close()


C34 = Property(
    "C34",
    rule="handshakes with a reference gateway (four modes, generated deviations) and some use, with everything logged; non-trivial: a mode that "
         "uses the password",
    facets=[Facet("handshake", c34_case(), c34, "a mode that uses the password", 1500, 30000, shards=8)],
    assumptions=["in OPEN mode the answer on the wire is defined by the algorithm and not judged here (C09, C11)"],
)

# --------------------------------------------------------------------------- C35


@st.composite
def c35_case(draw):
    kinds = sorted(KINDS)
    focus = draw(st.lists(st.sampled_from(kinds), min_size=1, max_size=3, unique=True))
    regs = draw(st.lists(st.tuples(st.sampled_from(focus), st.integers(0, 2), st.sampled_from(["ok", "never", "never", "hour", "yields"])).map(list),
                         min_size=1, max_size=6))
    events = draw(st.lists(_event(focus), min_size=1, max_size=6))
    return {"regs": regs, "events": events, "gap": draw(st.sampled_from([0, 0, 1, 100])), "repeat": draw(st.sampled_from([1, 1, 1, 1, 1, 30])),
            "together": draw(st.booleans()), "end": draw(st.sampled_from(["none", "eof", "error", "close"]))}


def c35(case, ctx: Ctx):
    L = fresh_lib()
    w, client, tr = connect(L, "EventSession")
    loop = w.loop
    try:
        regs = [[k, v, "ok"] for k, v, _ in case["regs"]]
        rec = Recorder(L, loop, regs)
        running, ended, broken, forever = [], [], [], []

        def hook(beh):
            async def go():
                running.append(beh)
                try:
                    if beh == "never":
                        forever.append(loop.create_future())  # someone could still end it
                        await forever[-1]
                    elif beh == "hour":
                        await asyncio.sleep(3600)
                    elif beh == "yields":
                        for _ in range(20):
                            await asyncio.sleep(0)
                except BaseException as e:
                    broken.append([beh, repr(e)])
                    raise
                ended.append(beh)

            return go

        for i, (_, _, beh) in enumerate(case["regs"]):
            rec.hooks[i] = hook(beh)
        t = w.task(client.loop())
        loop.settle()
        events = [e for _ in range(case["repeat"]) for e in case["events"]]
        frames = [KINDS[e[0]].frame(e[1], e[2]) for e in events]
        slow = [r for r in case["regs"] if r[2] in ("never", "hour") and any(e[0] == r[0] for e in events)]
        ctx.mark(bool(slow) and len(events) > 1)
        ctx.label("slow callbacks" if slow else "no slow callback")
        done = 0

        def verify(n):
            now = events[:n]
            for i in range(len(regs)):
                want = expected(regs, i, now)
                check(len(rec.calls[i]) >= len(want), "%d events received, but callback %d (%s) was called %d times, not %d, while callbacks %s "
                      "are still running", n, i, regs[i][0], len(rec.calls[i]), len(want), [r[2] for r in case["regs"]])
                compare(rec, i, want, frames[:n])

        if case["together"]:
            tr.feed("".join(frames))
            loop.settle(300_000)
            verify(len(events))
        else:
            for n, f in enumerate(frames, 1):
                tr.feed(f)
                loop.settle(300_000)
                if n < 8 or n == len(frames):
                    verify(n)
                if case["gap"]:
                    loop.advance(case["gap"])
        check(outcome(t)[0] == "pending", "the event loop ended %r", outcome(t))
        if case["end"] != "none":
            if case["end"] == "close":
                c = w.task(client.close())
                loop.settle()
                check(outcome(c)[0] == "ok", "close() is %r while callbacks are running", outcome(c))
            else:
                tr.drop(None if case["end"] == "eof" else ConnectionResetError(104, "reset"))
                loop.settle()
            check(outcome(t)[0] == "ok", "the connection ended (%s) but the event loop is %r while callbacks are running", case["end"], outcome(t))
        loop.advance(7200)
        check(not broken, "running callbacks were ended: %s (%s)", broken[:3], case["end"])
        want = sorted(b for b in running if b != "never")
        check(sorted(ended) == want, "callbacks called: %s; ended of their own: %s (%s)", want[:9], sorted(ended)[:9], case["end"])
    finally:
        w.close()


C35 = Property(
    "C35",
    rule="events to callbacks that never end, take an hour or yield; no time passes between the arrival of an event and the check; "
         "non-trivial: several events, and a slow callback that gets one",
    facets=[Facet("slow", c35_case(), c35, "several events and a slow callback", 1200, 25000, shards=8)],
    assumptions=["callbacks wait by awaiting; one that blocks the thread blocks everything in asyncio"],
)

# --------------------------------------------------------------------------- C36

# (class, method) -> number of arguments
_ARGS = {("Dimmer", "turn_on"): 1, ("Dimmer", "turn_off"): 1, ("Dimmer", "up_percent"): 2, ("Dimmer", "down_percent"): 2,
         ("Dimmer", "set_brightness_with_speed"): 2, ("Dimmer", "set_hsv"): 3, ("Dimmer", "set_white_temperature"): 1,
         ("Light", "temporization_command"): 3, ("Dimmer", "temporization_command"): 3, ("Camera", "display_dial"): 2,
         ("EnergyManagement", "start_sending_daily_totalizers_hourly"): 2, ("EnergyManagement", "start_sending_monthly_average_hourly"): 1,
         ("EnergyManagement", "start_sending_monthly_totalizers_current_year"): 1,
         ("EnergyManagement", "start_sending_monthly_totalizers_last_year"): 1, ("EnergyManagement", "force_actuator_on"): 1,
         ("EnergyManagement", "reset_totalizers"): 1, ("EnergyManagement", "start_sending_instant_power"): 2,
         ("EnergyManagement", "stop_sending_instant_power"): 1, ("EnergyManagement", "get_energy_unit_per_month"): 2,
         ("EnergyManagement", "get_totalizers"): 1, ("Gateway", "set_time"): 1, ("Gateway", "set_date"): 1, ("Gateway", "set_datetime"): 1}
_CUSTOM = {"send_normal_message": 1, "send_dimension_request": 1, "send_dimension_writing": 3}
_EVIL = ["1*2", "12##*1*1*11##", "##", "*", "1##", "#", "1#", " 1", "1 ", "1\n", "\r\n", "-1", "+5", "1.5", "1e3", "0x10", "١٢", "²", "½", "１",
         "\x00", "", "abc", "None", "True", "1,2", "12*", "*#*1##", "1#\n2", "\t"]
_arg = st.one_of(
    st.integers(-400, 400), st.integers(0, 60), st.sampled_from([-1, 10**9, -10**30, 2**63]).map(lambda n: n),
    st.sampled_from(_EVIL), st.sampled_from(_EVIL), st.text(max_size=8), st.text("0123456789*# ", max_size=10),
    st.builds(lambda a, c, b: a + c + b, F.number, st.sampled_from(["*", " ", "##", "#", "\n", "-", ".", "x", "١"]), st.one_of(F.number, st.just(""))),
    st.none(), st.booleans(), st.tuples(st.just("float"), st.sampled_from(["0.5", "1.0", "2.0", "99.9", "nan", "inf", "-1.0", "1e30", "100.0"])).map(list),
    st.tuples(st.just("bytes"), st.sampled_from(["1", "1*2", ""])).map(list), st.just(["list"]), st.tuples(st.just("value"), st.integers(0, 99)).map(list),
    st.tuples(st.just("date"), st.sampled_from(["date", "time", "datetime", "utc"])).map(list))


def _python(L, a):
    if not isinstance(a, list):
        return a
    kind, v = a[0], a[-1]
    if kind == "float":
        return float(v)
    if kind == "bytes":
        return v.encode()
    if kind == "value":
        return L.tags.Value(v)
    if kind == "date":
        import datetime as dt

        return {"date": dt.date(2024, 2, 29), "time": dt.time(23, 59, 58), "datetime": dt.datetime(2024, 2, 29, 1, 2, 3),
                "utc": dt.datetime(2024, 2, 29, 1, 2, 3, tzinfo=dt.timezone.utc)}[v]
    return []


def _open_text(a) -> bool:
    """Text of digits and '#' that would produce '##' inside a frame or '###' at its end: nothing is claimed."""
    return isinstance(a, str) and set(a) <= set("0123456789#") and ("##" in a or a.endswith("#") or a.startswith("#"))


@st.composite
def c36_case(draw):
    if draw(st.booleans()):
        cls, method = draw(st.sampled_from(sorted(_ARGS)))
        n = _ARGS[cls, method]
    else:
        cls = draw(st.sampled_from(["Light", "Dimmer", "Automation", "Camera", "EnergyManagement", "Gateway"]))
        method = draw(st.sampled_from(sorted(_CUSTOM)))
        n = _CUSTOM[method]
    where = draw(energy_where) if cls == "EnergyManagement" else draw(st.one_of(st.sampled_from(["11", "0110", "#1", "11#4#01"]), st.sampled_from(_EVIL)))
    args = [draw(_arg) for _ in range(n)]
    if n > 1 and draw(st.booleans()):
        # one bad argument among good ones
        k = draw(st.integers(0, n - 1))
        args = [a if i == k else draw(st.integers(1, 4)) for i, a in enumerate(args)]
    if method in _CUSTOM:
        args[0] = draw(st.one_of(st.sampled_from(_EVIL), F.number, st.text(max_size=8), bad_text))
    return {"cls": cls, "method": method, "where": where, "args": args}


def c36(case, ctx: Ctx):
    L = lib()
    cls, method = case["cls"], case["method"]
    if any(_open_text(a) for a in [case["where"], *case["args"]] if not (isinstance(a, str) and a == case["where"] and a in ("#1",))):
        ctx.label("left open")
        return
    if method not in _CUSTOM and "" in case["args"]:
        return
    what = f"{cls} at {case['where']!r}: {method}{tuple(case['args'])!r}"
    with Gateway(L) as g:
        async def go():
            item = getattr(L.items, cls)(g.client) if cls == "Gateway" else getattr(L.items, cls)(g.client, case["where"])
            args = [_python(L, a) for a in case["args"]]
            if method == "send_dimension_writing":
                args[1:] = [L.tags.Value(a) for a in args[1:]]
            if method == "send_dimension_request":
                async for _ in item.send_dimension_request(*args):
                    pass
                return
            await getattr(item, method)(*args)

        g.tr.written.clear()
        g.tr.on_write = lambda data: g._play([(0, ACK)]) if data.endswith(b"##") else None
        t = g.w.task(go())
        g.loop.run_to_end(t, 120)
        kind, val = outcome(t)
        sent = g.tr.sent().decode("utf-8", "replace")
        ctx.mark(not sent)
        if sent:
            ctx.label("sent")
            check(F.well_formed(sent) and sent == sent.strip(), "%s sent %r, which is not one well-formed frame", what, sent)
            if method.startswith("get_"):
                check(kind in ("ok", "err"), "%s is %s", what, kind)
            else:
                check(kind == "ok", "%s sent %r, was acknowledged, and ended %s %r", what, sent, kind, val)
        else:
            ctx.label("refused")
            check(kind == "err" and isinstance(val, Exception), "%s sent nothing and ended %s %r", what, kind, val)
        g.probe(True, f"after {what}")


C36 = Property(
    "C36",
    rule="every command with arguments, and custom messages, with arguments of any type and text with any character, at good and bad addresses; "
         "non-trivial: refused",
    facets=[Facet("arguments", c36_case(), c36, "refused", 3000, 60000, shards=8)],
    assumptions=["text of digits and '#' that begins or ends with '#' or holds '##', and empty text as a parameter, are left open, as in the frame grammar"],
)

# --------------------------------------------------------------------------- C37

_ERRORS = {
    "value": ValueError, "key": KeyError, "runtime": RuntimeError, "os": OSError, "timeout": TimeoutError, "conn": ConnectionResetError,
    "assert": AssertionError, "eof": EOFError, "state": asyncio.InvalidStateError, "stop": StopAsyncIteration, "attr": AttributeError,
    "session": "InvalidSession", "tag": "InvalidTag", "message": "InvalidMessage", "resp": "ResponseError", "own": None,
}


class _Own(Exception):
    pass


def _make_error(L, name, text):
    e = _ERRORS[name]
    e = _Own if e is None else getattr(L.exc, e) if isinstance(e, str) else e
    return e() if text == "" else e(text)


class _Records(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.records: list[tuple] = []

    def emit(self, record):
        self.records.append((record.levelno, self.format(record), record.exc_info[1] if record.exc_info else None))


_c37_kinds = ["light.status", "light.level", "automation", "energy.power", "gateway.DATE"]
_c37_beh = st.one_of(st.just(["ok", 0]), st.just(["cancel", 0]),
                     st.tuples(st.sampled_from(sorted(_ERRORS)), st.sampled_from([-1, -1, -1, -2, 0, 1, 3, 60, 9000])).map(list),
                     st.tuples(st.sampled_from(sorted(_ERRORS)), st.sampled_from([-1, -1, -1, -2, 0, 1, 3, 60, 9000])).map(list))


@st.composite
def c37_case(draw):
    kinds = draw(st.lists(st.sampled_from([*_c37_kinds, *sorted(KINDS)]), min_size=1, max_size=3))
    regs = draw(st.lists(st.tuples(st.sampled_from(kinds), st.integers(0, 2), _c37_beh).map(list), min_size=1, max_size=6))
    events = draw(st.lists(_event(kinds), min_size=1, max_size=5))
    return {"regs": regs, "events": events, "gap": draw(st.sampled_from([None, None, 0, 2])), "bare": draw(st.integers(0, 3)) == 0,
            "end": draw(st.sampled_from(["", "", "", "drop", "lost", "close", "cancel"]))}


def c37(case, ctx: Ctx):
    L = fresh_lib()
    w, client, tr = connect(L, "EventSession")
    log = _Records()
    root, own, aio = logging.getLogger(), logging.getLogger("pyown"), logging.getLogger("asyncio")
    old = (root.level, own.level, root.manager.disable, own.disabled, aio.level)
    raised: list = []
    try:
        logging.disable(logging.NOTSET)
        own.setLevel(logging.DEBUG)
        aio.setLevel(logging.WARNING)
        root.addHandler(log)
        rec = Recorder(L, w.loop, [[k, v, "call:value" if name not in ("ok", "cancel") and delay == -2 else "ok"] for k, v, (name, delay) in case["regs"]])

        def hook(i, name, delay):
            if delay == -2 and name not in ("ok", "cancel"):  # raised when the callback is called
                def call():
                    e = _make_error(L, name, f"failure-{len(raised)}-of-{i}.")
                    raised.append((e, f"failure-{len(raised)}-of-{i}."))
                    raise e
                return call

            async def run():
                if delay >= 0:
                    await asyncio.sleep(delay)
                if name == "cancel":
                    raise asyncio.CancelledError()
                if name != "ok":
                    # some errors have no text at all
                    text = "" if case.get("bare") and name not in ("tag", "message") else f"failure-{len(raised)}-of-{i}."
                    e = _make_error(L, name, text)
                    raised.append((e, text or type(e).__name__))
                    raise e
            return run

        for i, (_, _, (name, delay)) in enumerate(case["regs"]):
            rec.hooks[i] = hook(i, name, delay)
        t = w.task(client.loop())
        frames = [KINDS[k].frame(a, p) for k, a, p in case["events"]]
        for f in frames:
            tr.feed(f)
            if case["gap"] is not None:
                w.loop.advance(case["gap"])
        w.loop.settle()
        if case["end"] == "drop":
            tr.drop(ConnectionResetError(104, "reset"))
        elif case["end"] == "lost":
            tr.drop(None)
        elif case["end"] == "close":
            w.task(client.close())
        elif case["end"] == "cancel":
            t.cancel()
        w.loop.settle()
        w.loop.advance(9100)

        def reported(e, text):
            return any(lv >= logging.WARNING and (x is e or text in line) for lv, line, x in log.records)

        if not all(reported(*r) for r in raised):
            gc.collect()  # asyncio reports a failed task that nobody asked when it is collected
            w.loop.settle()
        ctx.mark(len(raised) > 1)
        ctx.label(case["end"] or "connected")
        for n, (e, text) in enumerate(raised):
            check(reported(e, text), "callback failure %d (%r) of %s after %s was not reported at all; reported were %s", n, e, case["regs"], frames,
                  [r[1].splitlines()[0] for r in log.records])
        if not raised and not case["end"]:
            loud = [r[1].splitlines()[0] for r in log.records if r[0] >= logging.ERROR]
            check(not loud, "no callback failed and %s reported %s", frames, loud)
        ctx.label("raised" if raised else "nothing raised")
    finally:
        root.removeHandler(log)
        root.setLevel(old[0])
        own.setLevel(old[1])
        root.manager.disable = old[2]
        own.disabled = old[3]
        aio.setLevel(old[4])
        w.close()


C37 = Property(
    "C37",
    rule="callbacks of every kind that raise errors with texts of their own, several for one event, at once or later, also after the connection "
         "ended; the log is read back; non-trivial: at least two failures",
    facets=[Facet("failures", c37_case(), c37, "at least two callback failures", 1500, 30000, shards=8,
                  corpus=[{"regs": [["light.status", 0, [a, d]], ["light.status", 1, [b, e]], ["light.status", 0, ["cancel", 0]], ["light.status", 0, [a, 1]]],
                           "events": [["light.status", "11", "1"], ["light.status", "12", "0"]], "gap": None, "end": end}
                          for a, b in (("value", "key"), ("message", "tag"), ("os", "own")) for d, e in ((-1, -1), (-1, 3), (3, -1), (60, 0), (-2, -1), (-1, -2), (-2, 3))
                          for end in ("", "drop", "close")])],
    assumptions=["a failure counts as reported when a log record of level WARNING or above holds the exception or its text; how often, by which "
                 "logger and in what words is left open", "errors that are not Exceptions (cancellation, KeyboardInterrupt) are not failures"],
)

# --------------------------------------------------------------------------- C39

_c39_ops = ["send", "cmd", "req", "get", "setclock", "read", "read1", "status"]
_c39_feed = ["*#*1##", "*#*0##", "*1*1*11##", "*#1*11*1*150*20##", "*#13**0*21*10*00*01##", "*1*1*1", "1##", "*#*", "junk##"]
_c39_op = st.one_of(
    st.sampled_from(_c39_ops).map(lambda o: ["op", o]), st.sampled_from(_c39_ops).map(lambda o: ["op", o]),
    st.sampled_from(_c39_feed[:-1] * 2 + _c39_feed[-1:]).map(lambda f: ["feed", f]),
    st.sampled_from([["pause"], ["pause"], ["resume"]]),
    st.sampled_from([0, 0.05, 0.1, 1, 4.999, 5, 5.001, 30]).map(lambda d: ["tick", d]), st.just(["step"]),
    st.sampled_from(["eof", "reset", "close"]).map(lambda h: ["end", h]),
)


@st.composite
def c39_case(draw):
    return {"session": draw(st.sampled_from(["CommandSession", "OldCommandSession"])), "linger": draw(st.booleans()),
            "acts": draw(st.lists(_c39_op, min_size=1, max_size=14)), "last": draw(st.sampled_from(["eof", "reset", "close", "", ""]))}


def _c39_start(L, w, client, what):
    """Starts one operation."""
    items = L.items

    async def collect(gen):
        return [m async for m in gen]

    if what == "send":
        return w.task(client.send_message(L.parse_message("*1*1*11##")))
    if what == "cmd":
        return w.task(items.Light(client, "11").turn_on())
    if what == "req":
        return w.task(collect(items.Light(client, "11").send_dimension_request("1")))
    if what == "get":
        return w.task(items.Gateway(client).get_ip())
    if what == "setclock":
        return w.task(items.Gateway(client).set_time(datetime.time(12, 30, tzinfo=datetime.timezone.utc)))
    if what == "status":
        return w.task(collect(items.Light(client, "11").send_status_request()))
    return w.task(client.read_message(timeout=1) if what == "read1" else client.read_message())


def c39(case, ctx: Ctx):
    L = lib()
    w, client, tr = connect(L, case["session"])
    try:
        tr.linger = case["linger"]
        tasks = []
        told = []
        ended = False
        stuck = False

        def end(how):
            nonlocal ended, stuck
            if ended:
                return
            ended = True
            stuck = tr.paused and any(not t.done() for _, t in tasks)
            if how == "close":
                w.task(client.close())
            else:
                tr.drop(ConnectionResetError(104, "reset") if how == "reset" else None)

        for a in [*case["acts"], ["end", case["last"]] if case["last"] else ["resume"]]:
            told.append(a)
            if a[0] == "op":
                tasks.append((a[1], _c39_start(L, w, client, a[1])))
                ctx.label(a[1] + (" when ended" if ended else " when paused" if tr.paused else ""))
            elif a[0] == "feed":
                tr.feed(a[1])
            elif a[0] == "pause" and not tr.closing:
                tr.pause()
                w.loop.step()
            elif a[0] == "resume" and not tr.closing:
                tr.resume()
            elif a[0] == "tick":
                w.loop.advance(a[1])
            elif a[0] == "step":
                w.loop.step()
            elif a[0] == "end":
                end(a[1])
        w.loop.settle()
        if tr.closing:
            ctx.label("ended")
        # the gateway does nothing any more: the connection has ended, or it reads and is silent
        w.loop.advance(60)
        ctx.mark(any(o != "read1" for o, _ in tasks) and (ended or tr.closing))
        if stuck:
            ctx.label("ended while an operation was waiting and writing was paused")
        for o, t in tasks:
            kind, val = outcome(t)
            check(kind in ("ok", "err"), "%s is still %s 60 s after everything had ended or fallen silent: %s", o, kind, told)
            check(kind == "ok" or isinstance(val, Exception), "%s raised %r", o, val)
    finally:
        w.close()


def c39_handshake(case, ctx: Ctx):
    """start() against a gateway that stops reading, then goes away, at some step."""
    L = lib()
    w = World()
    try:
        gw = AuthGateway(w, case["auth"])
        inner = gw.on_connect
        n = [0]

        def on_connect(tr):
            tr.linger = case["linger"]
            inner(tr)
            if case["at"] == 0:
                tr.pause()

            def on_write(data):
                n[0] += 1
                gw.on_write(data)
                if n[0] == case["at"]:
                    tr._pause()
            tr.on_write = on_write

        w.on_connect = on_connect
        client = L.Client("192.0.2.1", 20000, case["auth"]["password"], getattr(L.SessionType, case["auth"]["session"]), loop=w.loop)
        t = w.task(client.start())
        w.loop.advance(case["wait"])
        tr = w.transports[0]
        ctx.mark(not t.done() and (tr.paused or case["auth"]["dev"] is not None))
        if case["end"] == "close":
            w.task(client.close())
        elif case["end"] == "resume":
            tr.resume()
        else:
            tr.drop(ConnectionResetError(104, "reset") if case["end"] == "reset" else None)
        w.loop.settle()
        w.loop.advance(60)
        kind, val = outcome(t)
        ctx.label(f"{case['end']}: {kind}")
        check(kind in ("ok", "err"), "start() is still %s 60 s after the gateway stopped reading at step %d and then: %s", kind, case["at"], case["end"])
        check(kind == "ok" or isinstance(val, Exception), "start() raised %r", val)
    finally:
        w.close()


def _plain_auth(c):
    return {**c, "dev": c["dev"] if c["dev"] and c["dev"]["kind"] in ("silence", "drop") else None, "delays": [0]}


C39 = Property(
    "C39",
    rule="operations of a command session started at any time, a gateway that answers, sends parts, falls silent, stops reading, and connections "
         "that end at any point; non-trivial: the connection ends after at least one operation was started",
    facets=[Facet("operations", c39_case(), c39, "the connection ends after an operation was started", 3000, 60000, shards=8,
                  corpus=[{"session": "CommandSession", "linger": lg, "acts": [["pause"], ["op", o], ["tick", d]], "last": e}
                          for o in _c39_ops for d in (0, 1) for lg in (False, True) for e in ("eof", "reset", "close", "")]),
            Facet("starting", st.fixed_dictionaries({"auth": handshake().map(_plain_auth), "at": st.sampled_from([0, 1, 2, 3, 9, 9]), "wait": st.sampled_from([0, 0.1, 1, 7]),
                                                     "end": st.sampled_from(["eof", "reset", "close", "resume"]), "linger": st.booleans()}),
                  c39_handshake, "the gateway had stopped reading or answering during the handshake", 600, 12000)],
    assumptions=["a gateway that keeps the connection open without reading is waited for: only when it reads again, the connection ends or the client "
                 "is closed must the operations end; which error they end with is left open"],
)
