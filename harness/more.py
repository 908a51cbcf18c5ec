"""C29-C31: starting again, several clients at once, custom messages."""
from __future__ import annotations

from hypothesis import strategies as st

import frames as F
from core import Ctx, Facet, HarnessError, Violation, check, expect_equal, fresh_lib, lib
from devices import ACK, NACK, _cuts, _form, _judge, _reply, _script, _session, energy_where
from registry_types import Property
from session import SESSION_CODE, Gateway as AuthGateway, _num_pw, handshake
from sim import World, outcome
from stream import match
from talk import Gateway, collect, make, spread

# --------------------------------------------------------------------------- C29


@st.composite
def c29_case(draw):
    rounds = []
    for _ in range(draw(st.sampled_from([2, 2, 3, 3, 4, 4, 4, 12, 20]))):
        kind = draw(st.sampled_from(["hand", "hand", "hand", "good", "good", "refused"]))
        hand = draw(handshake())
        if kind == "good":
            hand["dev"] = None
        rounds.append({
            "kind": "refused" if kind == "refused" else "hand", "hand": hand,
            "uses": draw(st.lists(st.sampled_from(["ack", "nack", "read", "read2", "event", "wait"]), max_size=4)),
            "left": draw(st.integers(0, 3)), "partial": draw(st.sampled_from(["", "", "*1*1*1", "*#*", "*#*1#"])),
            "end": draw(st.sampled_from(["close", "close", "drop", "error", "drop+close", "malformed", "close+close"])),
            "settle": draw(st.booleans()), "read_after": draw(st.booleans()),
        })
    return {"session": draw(st.sampled_from(sorted(SESSION_CODE))), "password": draw(_num_pw), "rounds": rounds}


def c29(case, ctx: Ctx):
    L = fresh_lib()
    w = World()
    loop = w.loop
    got: list = []

    async def on_light(item, on):
        got.append([str(item.where), on])

    try:
        L.items.Light.on_status_change(on_light)
        sess = case["session"]
        is_event = sess == "EventSession"
        client = L.Client("192.0.2.7", 20011, case["password"], getattr(L.SessionType, sess), loop=loop)
        good = 0
        n = 0
        for ri, r in enumerate(case["rounds"]):
            what = f"start number {ri + 1}"
            old = [(tr, tr.sent()) for tr in w.transports]
            hand = {**r["hand"], "session": sess, "password": case["password"]}
            gw = AuthGateway(w, hand)
            w.connect_error = ConnectionRefusedError(111, "refused") if r["kind"] == "refused" else None
            t = w.task(client.start())
            check(loop.run_to_end(t, 120), "%s never ends", what)
            kind, val = outcome(t)
            expect_equal(w.targets[ri:], [["192.0.2.7", 20011]], f"host and port of {what}")
            for tr, sent in old:
                check(tr.sent() == sent, "%s wrote to an earlier connection", what)
            if r["kind"] == "refused" or hand["dev"] is not None:
                ctx.label("failed start")
                check(kind == "err" and isinstance(val, (TimeoutError, L.exc.InvalidAuthentication)), "%s must fail, but ended %s %r", what,
                      kind, val)
                if r["kind"] != "refused":
                    check(gw.wrong is None, "%s: the client %s", what, gw.wrong)
                if r["end"] != "drop":
                    t = w.task(client.close())
                    loop.settle()
                    check(outcome(t)[0] == "ok", "close() after a failed start: %r", outcome(t))
                    if r["kind"] != "refused":
                        check(w.transports[-1].closing, "close() after a failed start did not close the connection")
                continue
            check(gw.wrong is None, "%s: the client %s", what, gw.wrong)
            check(kind == "ok", "%s: the gateway completed the handshake but start() ended %s %r", what, kind, val)
            expect_equal(len(w.transports), len(old) + 1, f"connections after {what}")
            good += 1
            ctx.label("started again" if good > 1 else "first start")
            tr = w.transports[-1]
            tr.on_write = None
            base = len(tr.sent())
            lt = None
            if is_event and r["left"] != 1:
                lt = w.task(client.loop())
                loop.settle()
                check(outcome(lt)[0] == "pending", "the event loop after %s ended %r", what, outcome(lt))
            sent = ""
            for u in r["uses"]:
                n += 1
                if u in ("ack", "nack") and not is_event:
                    tr.on_write = lambda data, u=u: tr.feed(ACK if u == "ack" else NACK)
                    t = w.task(L.items.Automation(client, f"{n}").up())
                    loop.run_to_end(t, 30)
                    kind, val = outcome(t)
                    tr.on_write = None
                    sent += f"*2*1*{n}##"
                    expect_equal(tr.sent()[base:].decode(), sent, f"frames written after {what}")
                    if u == "ack":
                        check(kind == "ok", "a command after %s was acknowledged but ended %s %r", what, kind, val)
                    else:
                        check(kind == "err" and isinstance(val, L.exc.ResponseError), "a refused command after %s ended %s %r", what, kind, val)
                elif u in ("read", "read2") and lt is None:
                    fs = [f"*1*1*{n}##", f"*1*0*{n}##"][: 1 if u == "read" else 2]
                    tr.feed("".join(fs))
                    res = []
                    for _ in fs:
                        t = w.task(client.read_message())
                        loop.run_to_end(t, 30)
                        kind, val = outcome(t)
                        check(kind == "ok", "a read after %s ended %s %r", what, kind, val)
                        res.append(val)
                    match(res, fs, f"messages read after {what}")
                elif u == "event" and lt is not None:
                    k = len(got)
                    tr.feed(f"*1*{n % 2}*{n}##")
                    loop.settle()
                    expect_equal(got[k:], [[f"{n}", n % 2 == 1]], f"event calls after {what}")
                    check(outcome(lt)[0] == "pending", "the event loop after %s ended %r", what, outcome(lt))
                elif u == "wait":
                    loop.advance(20)
                    if lt is not None:
                        check(outcome(lt)[0] == "pending", "the event loop after %s ended %r", what, outcome(lt))
            if lt is None:
                tr.feed("".join(f"*9*{n}*{k}##" for k in range(r["left"])))
            tr.feed(r["partial"])
            if r["settle"]:
                loop.settle()
            end = r["end"]
            if end.startswith("close"):
                loop.settle()
                for _ in range(2 if end == "close+close" else 1):
                    t = w.task(client.close())
                    loop.settle()
                    check(outcome(t)[0] == "ok", "close() ended %r", outcome(t))
                check(tr.closing, "close() did not close connection number %d", len(w.transports))
                for c in (client.read_message(timeout=1), client.send_message(L.parse_message("*1*1*11##")), client.loop()):
                    t = w.task(c)
                    loop.run_to_end(t, 30)
                    check(isinstance(outcome(t)[1], L.exc.InvalidSession), "after close() an operation ended %r", outcome(t))
            else:
                if end == "malformed":
                    loop.settle()
                    tr.feed("junk##" if not r["partial"] else "x##")
                else:
                    tr.drop(ConnectionResetError(104, "reset") if end == "error" else None)
                loop.settle()
                check(tr.lost, "the connection is still open after %s", end)
                if end == "drop+close":
                    t = w.task(client.close())
                    loop.settle()
                    check(outcome(t)[0] == "ok", "close() after a drop ended %r", outcome(t))
            if lt is not None:
                loop.run_to_end(lt, 30)
                check(outcome(lt)[0] == "ok", "the connection of start %d ended (%s) but the event loop is %r", ri + 1, end, outcome(lt))
        ctx.mark(good > 1)
    finally:
        w.close()


_G = {"mode": "none", "session": "CommandSession", "password": "12345", "nonce": "", "ra": "", "delays": [0], "cuts": [], "dev": None}
_R = {"kind": "hand", "hand": _G, "uses": ["ack", "read", "event", "wait", "event"], "left": 0, "partial": "", "end": "close", "settle": True,
      "read_after": False}
C29 = Property(
    "C29",
    rule="histories of two to twenty starts of one client (any handshake, refusals included), each session used and then ended by close, drop, "
         "error or malformed data, with unread and unfinished data left behind; non-trivial: at least two successful starts",
    facets=[Facet("restart", c29_case(), c29, "two successful starts", 1200, 20000, shards=8,
                  corpus=[{"session": s, "password": "12345", "rounds": [{**_R, "end": e, "left": k, "partial": p}, _R, _R]}
                          for s in SESSION_CODE for e in ("close", "drop", "error", "drop+close", "malformed") for k in (0, 2)
                          for p in ("", "*1*1*1")] + [
                              {"session": s, "password": "12345", "rounds": [{**_R, "end": e}] * 40} for s in SESSION_CODE
                              for e in ("close", "drop")])],
    assumptions=["start is not called while a session is open or being opened"],
)

# --------------------------------------------------------------------------- C30

_ev = st.builds(lambda w, on: f"*1*{on}*{w}##", st.sampled_from(["11", "12", "0"]), st.sampled_from("01"))


@st.composite
def c30_case(draw):
    k = draw(st.integers(2, 3))
    sessions = draw(st.lists(st.sampled_from(["CommandSession", "EventSession", "EventSession", "OldCommandSession", "CommandSession"]),
                             min_size=k, max_size=k))

    def op(i, code, f, n, r, h):
        if sessions[i] == "EventSession":
            return ["feed", i, f, n] if code < 12 else ["rest", i] if code < 17 else ["advance", i, n % 3 + 1] if code < 19 else ["end", i, h]
        return (["cmd", i, r, n % 8 + 1] if code < 9 else ["rest", i] if code < 15 else ["pause", i] if code == 15 else ["resume", i] if code == 16
                else ["advance", i, n % 3 + 1] if code < 19 else ["end", i, h])

    ops = draw(st.lists(st.builds(op, st.integers(0, k - 1), st.integers(0, 19), _ev, st.integers(1, 25), st.sampled_from([ACK, NACK]),
                                  st.sampled_from(["close", "drop", "error"])), min_size=draw(st.sampled_from([2, 8, 14])), max_size=30))
    return {"sessions": sessions, "ops": ops}


def c30(case, ctx: Ctx):
    """Each client behaves as if it were alone."""
    L = fresh_lib()
    w = World()
    loop = w.loop
    got: list = []

    async def on_light(item, on):
        got.append((item, on))

    def on_connect(tr):
        def on_write(data):
            tr.on_write = None
            tr.feed(ACK)

        tr.on_write = on_write
        tr.feed(ACK)

    try:
        L.items.Light.on_status_change(on_light)
        w.on_connect = on_connect
        cs: list[dict] = []
        for i, s in enumerate(case["sessions"]):
            c = L.Client(f"192.0.2.{i}", 20000 + i, "12345", getattr(L.SessionType, s), loop=loop)
            cs.append({"client": c, "event": s == "EventSession", "open": True, "rest": "", "paused": False, "cmds": [], "want": "",
                       "reply": None, "events": [], "waiting": None, "seen": ""})
        for x in cs:
            x["task"] = w.task(x["client"].start())
        for x in cs:
            loop.run_to_end(x["task"], 60)
            check(outcome(x["task"])[0] == "ok", "start of one of %d clients: %r", len(cs), outcome(x["task"]))
        expect_equal(len(w.transports), len(cs), "connections")
        expect_equal(w.targets, [[f"192.0.2.{i}", 20000 + i] for i in range(len(cs))], "hosts and ports connected to")
        for x, tr in zip(cs, w.transports):
            # which transport belongs to which client: clients connect in the order they were started
            x["tr"] = tr
            tr.on_write = None
            tr.written.clear()
            if x["event"]:
                x["loop"] = w.task(x["client"].loop())
        loop.settle()
        n = 0
        used = set()

        def verify(op):
            for i, x in enumerate(cs):
                sent = x["tr"].sent().decode()
                check(sent == x["want"], "after %s connection %d carried %r, expected %r", op, i, sent, x["want"])
                check(x["open"] == (not x["tr"].closing), "after %s connection %d is %s", op, i, "closed" if x["open"] else "open")
                if x["event"]:
                    mine = [[str(it.where), on] for it, on in got if it.client is x["client"]]
                    expect_equal(mine, x["events"], f"events of client {i} after {op}")
                    st_ = outcome(x["loop"])[0]
                    check(st_ == ("pending" if x["open"] else "ok"), "after %s the event loop of client %d is %r", op, i, outcome(x["loop"]))
            check(sum(len(x["events"]) for x in cs) == len(got), "after %s there were %d event calls", op, len(got))

        def push(i, k):
            x = cs[i]
            piece, x["rest"] = x["rest"][:k], x["rest"][k:]
            if piece:
                x["tr"].feed(piece)
                loop.settle()
            if x["event"]:
                x["seen"] += piece
                x["events"] = [[f.split("*")[3], f.split("*")[2] == "1"] for f in x["seen"].split("##")[:-1]]
            if not x["rest"] and x["reply"] is not None:
                # the whole answer has arrived
                t, r = x["waiting"], x["reply"]
                x["reply"] = x["waiting"] = None
                kind, val = outcome(t)
                if r == ACK:
                    check(kind == "ok", "the command of client %d was acknowledged but ended %s %r", i, kind, val)
                else:
                    check(kind == "err" and isinstance(val, L.exc.ResponseError), "the command of client %d was refused but ended %s %r", i, kind,
                          val)

        for op in case["ops"]:
            i = op[1]
            x = cs[i]
            if not x["open"]:
                continue
            if op[0] == "feed" and x["event"]:
                x["rest"] += op[2]
                push(i, op[3])
                used.add(i)
            elif op[0] == "rest" and x["event"]:
                push(i, len(x["rest"]))
            elif op[0] == "rest" and not x["event"] and x["reply"] is not None and not x["paused"]:
                push(i, len(x["rest"]))
            elif op[0] == "cmd" and not x["event"] and x["waiting"] is None:
                n += 1
                t = w.task(L.items.Automation(x["client"], f"{n}").up())
                loop.settle()
                x["waiting"] = t
                used.add(i)
                if x["paused"]:
                    x["held"] = (f"*2*1*{n}##", op[2], op[3])
                else:
                    x["want"] += f"*2*1*{n}##"
                    x["reply"] = x["rest"] = op[2]
                    verify(op)
                    push(i, op[3])
            elif op[0] == "pause" and not x["event"] and x["waiting"] is None and not x["paused"]:
                x["tr"].pause()
                x["paused"] = True
                loop.settle()
            elif op[0] == "resume" and x["paused"]:
                x["tr"].resume()
                x["paused"] = False
                loop.settle()
                loop.advance(0.5)
                if x.get("held"):
                    f, r, k = x.pop("held")
                    x["want"] += f
                    x["reply"] = x["rest"] = r
                    verify(op)
                    push(i, k)
            elif op[0] == "advance":
                # never long enough for a command to time out
                for y in cs:
                    if y["waiting"] is not None and y["reply"] is not None:
                        push(cs.index(y), len(y["rest"]))
                loop.advance(op[2])
            elif op[0] == "end" and x["waiting"] is None:
                x["open"] = False
                if op[2] == "close":
                    t = w.task(x["client"].close())
                    loop.settle()
                    check(outcome(t)[0] == "ok", "close: %r", outcome(t))
                else:
                    x["tr"].drop(None if op[2] == "drop" else ConnectionResetError(104, "reset"))
                loop.settle()
            verify(op)
        ctx.mark(len(used) > 1)
        ctx.label(f"{len(used)} clients used")
    finally:
        w.close()


def c30_items(case, ctx: Ctx):
    """Clients created one after the other: every one has its own items, whatever the others have."""
    L = fresh_lib()
    w = World()
    loop = w.loop
    got: list = []

    async def on_light(item, on):
        got.append((item, on))

    def on_connect(tr):
        def on_write(data):
            tr.on_write = None
            tr.feed(ACK)

        tr.on_write = on_write
        tr.feed(ACK)

    try:
        L.items.Light.on_status_change(on_light)
        w.on_connect = on_connect
        cs: list = []  # [client, session, transport, items by (WHO, address)]
        for op in [["new", "EventSession"], *case]:
            if op[0] == "new":
                if len(cs) == 12:
                    continue
                c = L.Client("192.0.2.1", 20000 + len(cs), "12345", getattr(L.SessionType, op[1]), loop=loop)
                t = w.task(c.start())
                loop.run_to_end(t, 60)
                expect_equal(w.targets[len(cs):], [["192.0.2.1", 20000 + len(cs)]], "host and port connected to")
                check(outcome(t)[0] == "ok", "start of client %d: %r", len(cs) + 1, outcome(t))
                cs.append([c, op[1], w.transports[-1], {}])
                if op[1] == "EventSession":
                    w.task(c.loop())
                    loop.settle()
                continue
            n = op[1] % len(cs)
            c, session, tr, items = cs[n]
            if op[0] == "get":
                # the gateway itself has no address
                key = (op[2], "" if op[2] == "13" else op[3])
                it = c.get_item(L.tags.Who(key[0]), L.tags.Where(key[1]), client=c)
            elif op[0] == "event" and session == "EventSession" and tr is not None:
                key = ("1", op[2])
                got.clear()
                tr.feed(f"*1*{op[3]}*{op[2]}##")
                loop.settle()
                expect_equal([on for _, on in got], [op[3] == 1], f"events reported by client {n}")
                it = got[0][0]
            elif op[0] == "end" and tr is not None:
                tr.drop(None)
                loop.settle()
                cs[n][2] = None
                continue
            else:
                continue
            check(items.setdefault(key, it) is it, "client %d has two items for %s", n, key)
            check(it.client is c, "the item %s of client %d uses the client %s", key, n, [x[0] for x in cs].index(it.client)
                  if it.client in [x[0] for x in cs] else "of nobody")
            for m, other in enumerate(cs):
                check(m == n or all(it is not x for x in other[3].values()), "clients %d and %d share the item %s", m, n, key)
        ctx.mark(sum(1 for x in cs if x[3]) > 1)
        ctx.label(f"{sum(1 for x in cs if x[3])} clients with items")
    finally:
        w.close()


C30 = Property(
    "C30",
    rule="two or three clients on one event loop, their deliveries (cut anywhere), commands, pauses and endings interleaved; non-trivial: at "
         "least two clients used",
    facets=[Facet("interleave", c30_case(), c30, "two clients used", 1500, 30000, shards=8),
            Facet("items", st.lists(st.one_of(
                st.builds(lambda s: ["new", s], st.sampled_from(["CommandSession", "EventSession", "OldCommandSession"])),
                st.builds(lambda i, w, a: ["get", i, w, a], st.integers(0, 11), st.sampled_from(["1", "2", "7", "13"]), st.sampled_from(["11", "12", ""])),
                st.builds(lambda i, a, n: ["event", i, a, n], st.integers(0, 11), st.sampled_from(["11", "12"]), st.sampled_from([0, 1])),
                st.builds(lambda i: ["end", i], st.integers(0, 11))), min_size=3, max_size=16), c30_items, "items of two clients", 600, 12000, shards=4,
                corpus=[[x for i in range(1, 12) for x in (["new", s], ["get", i, "1", "11"], ["event", i, "12", 1], ["end" if e else "get", i, "1", "12"])]
                        + [["get", i, "1", a] for i in range(12) for a in ("11", "12")]
                        for s in ("CommandSession", "EventSession") for e in (0, 1)])],
    assumptions=["callbacks are registered for all clients of the process, as documented; the item given to them tells the client"],
)

# --------------------------------------------------------------------------- C31

_ITEMS = {"Light": "1", "Dimmer": "1", "Automation": "2", "Camera": "7", "EnergyManagement": "18", "Gateway": "13"}
_cu_where = st.one_of(st.sampled_from(["11", "0110", "0", "#1", "11#4#01", "4001"]), F.where_text)
_val = st.one_of(st.integers(0, 70000), F.number, st.sampled_from(["", "000", "0100"]))
_dim_nonempty = F.dim_text


@st.composite
def c31_case(draw, ops=("normal", "normal", "writing", "writing", "request", "status", "build")):
    cls = draw(st.sampled_from(sorted(_ITEMS)))
    where = draw(energy_where) if cls == "EnergyManagement" else "" if cls == "Gateway" else draw(_cu_where)
    op = draw(st.sampled_from(ops))
    values = draw(st.one_of(st.lists(_val, max_size=6), st.lists(_val, max_size=6), st.lists(_val, min_size=7, max_size=40)))
    # an item may be created for another WHO than that of its class
    other = draw(st.one_of(st.none(), st.none(), st.sampled_from(["1", "2", "7", "13", "18", "0", "4", "1013"])))
    return {"cls": cls, "who": None if cls == "Gateway" else other, "where": where, "form": draw(_form), "op": op, "what": draw(st.one_of(F.what_text, F.what_text.map(lambda w: w + "#"), F.what_text.map(lambda w: "#" + w if not w.startswith("#") else w))),
            "dim": draw(_dim_nonempty) + ("#" if op == "writing" and values and draw(st.booleans()) else ""),
            "tag": draw(st.booleans()), "values": values, "reply": draw(_reply), "cuts": draw(_cuts),
            "session": draw(_session), "answers": draw(st.lists(st.tuples(F.where_text, st.lists(F.value_text, min_size=1, max_size=4),
                                                                        F.what_text).map(list), max_size=3)), "next": draw(st.booleans()),
            # the answers may be about another WHO or dimension than was asked for
            "about": draw(st.one_of(st.none(), st.none(), st.tuples(st.one_of(st.none(), st.sampled_from(F.KNOWN_WHO)), st.one_of(st.none(), F.dim_text)).map(list)))}


def c31(case, ctx: Ctx):
    L = lib()
    cls, where, op = case["cls"], case["where"], case["op"]
    who = case["who"] or _ITEMS[cls]
    vals = "".join(f"*{v}" for v in case["values"])
    frames = {
        "normal": f"*{who}*{case['what']}*{where}##", "status": f"*#{who}*{where}##", "request": f"*#{who}*{where}*{case['dim']}##",
        "writing": f"*#{who}*{where}*#{case['dim']}{vals}##",
    }
    values = [L.tags.Value(v) for v in case["values"]]
    what = L.tags.What(case["what"]) if case["tag"] else case["what"]
    dim = L.tags.Dimension(case["dim"]) if case["tag"] else case["dim"]
    ctx.label(f"{cls} {op}")
    ctx.mark("#" in case["what"] or "#" in case["dim"] or len(values) > 1)
    with Gateway(L, case["session"]) as g:
        if case["who"]:
            item = getattr(L.items, cls)(g.client, where if case["form"] == "str" else L.tags.Where(where),
                                         who=case["who"] if case["tag"] else L.tags.Who(case["who"]))
            ctx.label("other WHO")
        else:
            item = make(L, g.client, cls, where, case["form"])
        if op == "build":
            D = L.tags.Dimension(case["dim"])
            built = {"normal": item.create_normal_message(what), "status": item.create_status_message(),
                     "request": item.create_dimension_request_message(D), "writing": item.create_dimension_writing_message(D, *values)}
            kinds = {"normal": "NORMAL", "status": "STATUS REQUEST", "request": "DIMENSION REQUEST", "writing": "DIMENSION WRITING"}
            for k, m in built.items():
                expect_equal(m.message, frames[k], f"{k} message of a {cls}")
                expect_equal(m.bytes, frames[k].encode(), f"{k} message bytes of a {cls}")
                expect_equal(str(m.type.value), kinds[k], f"kind of the {k} message")
            expect_equal(g.frames(), [], "frames sent by building messages")
            return
        if op in ("normal", "writing"):
            coro = item.send_normal_message(what) if op == "normal" else item.send_dimension_writing(dim, *values)
            kind, val, sent = g.run(coro, [_script(case["reply"], case["cuts"])])
            expect_equal(sent, [frames[op]], f"frames of a custom {op} message of a {cls}")
            _judge(L, case["reply"], kind, val, f"custom message {frames[op]}")
            g.loop.advance(30)
            expect_equal(g.frames(), [frames[op]], "frames 30 s later")
            return
        about, dim2 = case.get("about") or [None, None]
        about, dim2 = about or who, dim2 or case["dim"]
        if op == "status":
            texts = [f"*{about}*{x}*{a}##" for a, _, x in case["answers"]]
            coro = item.send_status_request()
        else:
            texts = [f"*#{about}*{a}*{dim2}{''.join('*' + x for x in v)}##" for a, v, _ in case["answers"]]
            coro = item.send_dimension_request(dim)
        if any("##" in t[:-1] or "##" in t[:-2] for t in texts):
            return
        ok = case["reply"]["kind"] == "ack"
        into: list = []
        kind, val, sent = g.run(collect(coro, into), [spread([*texts, ACK if ok else NACK], [0], case["cuts"])])
        expect_equal(sent, [frames[op]], f"frames of a custom {op} request of a {cls}")
        match(into, texts, f"answers to {frames[op]}")
        if ok:
            check(kind == "ok", "%s ended %s %r", frames[op], kind, val)
        else:
            check(kind == "err" and isinstance(val, L.exc.ResponseError), "%s, refused, ended %s %r", frames[op], kind, val)
        g.probe(case["next"], f"after {frames[op]}")


C31 = Property(
    "C31",
    rule="custom WHAT, dimensions (any parameters) and values through every item class, with generated answers; non-trivial: parameters or "
         "several values",
    facets=[Facet("custom", c31_case(), c31, "parameters or several values", 2500, 50000, shards=8)],
    assumptions=["texts contain digits and '#' parameters only"],
)

import devices as _devices  # noqa: E402

_devices.C15.facets.append(Facet(
    "direct", c31_case(ops=("request", "status")), c31, "parameters or several values", 800, 16000, shards=4))
