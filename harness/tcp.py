"""C38: the library over real TCP connections on the loopback interface, with real event loops and real time.

Everything else runs in the simulated world of sim.py; here the same reference gateway answers through the kernel's sockets, so
what the simulation assumes about asyncio and TCP is tested together with the library. Time is only used to give up.
"""
from __future__ import annotations

import asyncio
import socket

from hypothesis import strategies as st

from core import Ctx, Facet, Violation, check, expect_equal, fresh_lib
from events import KINDS, Recorder, _event, compare, expected
from registry_types import Property
from session import Gateway as AuthGateway, handshake

PATIENCE = 8.0  # seconds without the expected result before a case counts as failed (normal: milliseconds)
HANDSHAKE = {"none": 1, "open": 2, "SHA1": 4, "SHA256": 4}


class RealLoop(asyncio.SelectorEventLoop):
    """A real event loop; connections get small send buffers so that a slow reader is felt soon."""

    small = False

    async def create_connection(self, *a, **kw):
        tr, pr = await super().create_connection(*a, **kw)
        if self.small:
            tr.get_extra_info("socket").setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 8192)
        return tr, pr


class Link:
    """The gateway's end of one connection; looks like sim.FakeTransport to the reference gateway."""

    def __init__(self, reader, writer, loop):
        self.reader, self.writer, self.loop = reader, writer, loop
        self.on_connect = None
        self.on_write = None
        self.text = ""  # everything received after the handshake
        self.ended = False
        self.reading = asyncio.Event()
        self.reading.set()
        self.out: asyncio.Queue = asyncio.Queue()
        self.tasks = [loop.create_task(self._pump()), loop.create_task(self._read())]

    def feed(self, text: str) -> None:
        self.out.put_nowait(text.encode("latin1"))

    async def _pump(self):
        try:
            while True:
                data = await self.out.get()
                self.writer.write(data)
                await self.writer.drain()
                for _ in range(3):  # the client reads each piece on its own
                    await asyncio.sleep(0)
        except OSError:
            pass

    async def _read(self):
        try:
            while True:
                await self.reading.wait()
                data = await self.reader.read(65536)
                if not data:
                    break
                if self.on_write is not None:
                    self.on_write(data)
                else:
                    self.text += data.decode("latin1")
        except OSError:
            pass
        self.ended = True


class Answerer:
    """Acknowledges every command, keeping what was received."""

    def __init__(self, link: Link):
        self.link, self.n = link, 0
        link.on_write = self

    def __call__(self, data: bytes):
        self.link.text += data.decode("latin1")
        while self.n < self.link.text.count("##"):
            self.n += 1
            self.link.feed("*#*1##")


class Gate:
    """A gateway listening on the loopback interface."""

    def __init__(self, loop):
        self.loop = loop
        self.next: dict = {}  # how the next connection is to be authenticated
        self.links: list[Link] = []
        self.gws: list[AuthGateway] = []

    async def open(self):
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 8192)
        s.bind(("127.0.0.1", 0))
        self.port = s.getsockname()[1]
        self.server = await asyncio.start_server(self._connected, sock=s)

    async def _connected(self, reader, writer):
        link = Link(reader, writer, self.loop)
        gw = AuthGateway(link, self.next)
        self.links.append(link)
        self.gws.append(gw)
        gw.on_connect(link)

    async def start(self, client, what) -> Link:
        """Starts the client and returns the gateway's end of its connection, with the handshake done."""
        n = len(self.links)
        try:
            await asyncio.wait_for(client.start(), 4 * PATIENCE)
        except Exception as e:
            raise Violation(f"{what}: start() raised {e!r}" + (f" (the client {self.gws[-1].wrong})" if self.gws and self.gws[-1].wrong else ""))
        expect_equal(len(self.links), n + 1, f"{what}: number of connections made")
        gw, link = self.gws[-1], self.links[-1]
        await until(lambda: gw.wrong or gw.expected_frames >= HANDSHAKE[gw.case["mode"]], f"{what}: the end of the handshake")
        check(gw.wrong is None, "%s: the client %s", what, gw.wrong)
        check(gw.accepted, "%s: start() succeeded before the gateway accepted", what)
        link.on_write = None
        return link


async def until(cond, what):
    """Waits until cond() holds."""
    loop = asyncio.get_running_loop()
    end = loop.time() + PATIENCE
    n = 0
    while not cond():
        if loop.time() > end:
            raise Violation(f"{what} did not come")
        n += 1
        await asyncio.sleep(0 if n < 50 else 0.01)


async def done(coro, what):
    try:
        return "ok", await asyncio.wait_for(coro, PATIENCE)
    except asyncio.TimeoutError:
        raise Violation(f"{what} did not end")
    except Exception as e:
        return "err", e


def pieces(text: str, cuts: list[int]) -> list[str]:
    cs = sorted({c % (len(text) + 1) for c in cuts} - {0, len(text)})
    return [text[a:b] for a, b in zip([0, *cs], [*cs, len(text)])]


async def finish(client, link, lt, end, what):
    """Ends the session and checks that both sides see it."""
    if end == "close":
        await done(client.close(), f"{what}: close()")
        await until(lambda: link.ended, f"{what}: the end of the connection, after close(),")
    elif end == "eof":
        link.writer.close()
    else:
        link.writer.transport.abort()
    if lt is not None:
        await until(lt.done, f"{what}: the end of loop() after {end}")
        check(not lt.cancelled() and lt.exception() is None, "%s: loop() ended %r after %s", what, lt, end)
    if end != "close":
        await done(client.close(), f"{what}: close() after {end}")


async def scenario(case, ctx: Ctx, loop):
    L = fresh_lib()
    loop.small = case["small"]
    auths = case["auths"]
    gate = Gate(loop)
    await gate.open()
    try:
        def new(a):
            args = ("127.0.0.1", gate.port, a["password"], getattr(L.SessionType, a["session"]))
            return L.Client(*args, loop=loop) if case["loop"] else L.Client(*args)

        rec = Recorder(L, loop, [[k, v, "ok"] for k, v in case["regs"]])
        clients: list = []
        speakers: dict = {}
        for n, (a, part) in enumerate(zip(auths, case["parts"])):
            again = part["again"] and n and clients[-1][0].is_cmd_session() == (a["session"] != "EventSession") \
                and auths[n - 1]["password"] == a["password"] and auths[n - 1]["session"] == a["session"]
            client = clients[-1][0] if again else new(a)
            what = f"connection {n} ({a['mode']}, {a['session']})"
            gate.next = a
            link = await gate.start(client, what)
            clients.append((client, link))
            ctx.label(a["mode"])
            ctx.label("started again" if again else "started")
            lt = None
            if a["session"] == "EventSession":
                base = [len(c) for c in rec.calls]
                cmd, cmdlink, turned = None, None, []
                # a client started again keeps its items, and they keep the client they were made with
                if part.get("cmd") and part["times"] == 1 and (not again or speakers.get(n - 1)):
                    # items of received events send their commands through a second client
                    b = {**auths[n], "session": "CommandSession"}
                    gate.next = b
                    cmd = speakers[n - 1] if again else new(b)
                    speakers[n] = cmd
                    cmdlink = await gate.start(cmd, f"{what}, command client")
                    Answerer(cmdlink)
                    ctx.label("command client")

                    def hook(i):
                        async def run():
                            item = rec.calls[i][-1][0]
                            turned.append([f"*1*0*{item.where}##", "pending"])
                            k = len(turned) - 1
                            turned[k][1] = await done(item.turn_off(), f"{what}: a command sent by a callback")
                        return run

                    for i, (k, _) in enumerate(case["regs"]):
                        if k == "light.status":
                            rec.hooks[i] = hook(i)
                if not part["late"]:
                    lt = loop.create_task(client.loop(client=cmd) if cmd else client.loop())
                events = part["events"]
                frames = [KINDS[k].frame(w, p) for k, w, p in events] * part["times"]
                for p in pieces("".join(frames), part["cuts"]):
                    link.feed(p)
                if part["late"]:
                    await until(link.out.empty, f"{what}: the gateway's own writes")
                    lt = loop.create_task(client.loop(client=cmd) if cmd else client.loop())
                await asyncio.sleep(0)
                regs = [[k, v, "ok"] for k, v in case["regs"]]
                want = [expected(regs, i, events * part["times"]) for i in range(len(regs))]
                if part["end"] == "eof":  # what was received before the end is dispatched all the same
                    await until(link.out.empty, f"{what}: the gateway's own writes")
                    await finish(client, link, lt, "eof", what)
                    ended = True
                else:
                    ended = False
                try:
                    await until(lambda: all(len(c) - b >= len(x) for c, b, x in zip(rec.calls, base, want)), "the calls")
                except Violation:
                    pass
                for i, x in enumerate(want):
                    old = rec.calls[i][:base[i]]
                    del rec.calls[i][:base[i]]
                    compare(rec, i, x, frames[:20])
                    rec.calls[i][:0] = old
                ctx.mark(any(want))
                ctx.label("events")
                check(not link.text, "%s: the client sent %r", what, link.text)
                if cmd is not None:
                    rec.hooks.clear()
                    await until(lambda: all(t[1] != "pending" for t in turned), f"{what}: the end of the commands sent by callbacks")
                    check(all(t[1][0] == "ok" for t in turned), "%s: commands sent by callbacks ended %s", what, turned)
                    expect_equal(cmdlink.text, "".join(t[0] for t in turned), f"{what}: what callbacks sent through the command client")
                    if turned:
                        ctx.label("commands sent by callbacks")
                    await finish(cmd, cmdlink, None, "close", f"{what}, command client")
                if not ended:
                    check(not lt.done(), "%s: loop() ended %r", what, lt)
                    await finish(client, link, lt, part["end"], what)
            else:
                light = L.items.Light(client, "11")
                for s in part["steps"]:
                    link.text = ""
                    if s[0] == "cmd":  # answered by ACK or NACK
                        t = loop.create_task(done(light.turn_on() if s[1] else light.turn_off(), f"{what}: the command"))
                        f = "*1*1*11##" if s[1] else "*1*0*11##"
                        await until(lambda: len(link.text) >= len(f), f"{what}: the command")
                        expect_equal(link.text, f, f"{what}: the command")
                        for p in pieces("*#*1##" if s[2] else "*#*0##", s[3]):
                            link.feed(p)
                        kind, val = await t
                        if s[2]:
                            check(kind == "ok", "%s: the command was acknowledged and raised %r", what, val)
                        else:
                            check(kind == "err" and isinstance(val, L.exc.ResponseError), "%s: the command was refused and ended %s %r", what, kind, val)
                    elif s[0] == "ask":  # answers, then ACK
                        t = loop.create_task(done(_ask(L, light, s[1]), f"{what}: the request"))
                        f = f"*#1*11*{s[1]}##"
                        await until(lambda: len(link.text) >= len(f), f"{what}: the request")
                        expect_equal(link.text, f, f"{what}: the request")
                        answers = [f"*#1*11*{s[1]}*{v}##" for v in s[2]]
                        for p in pieces("".join(answers) + "*#*1##", s[3]):
                            link.feed(p)
                        kind, val = await t
                        check(kind == "ok", "%s: the request raised %r", what, val)
                        expect_equal(val, answers, f"{what}: the answers")
                        ctx.mark()
                    elif s[0] == "raw":  # any number of messages, read one by one
                        text = "".join(s[1])
                        for p in pieces(text, s[2]):
                            link.feed(p)
                        got = []
                        for _ in s[1]:
                            kind, val = await done(client.read_message(), f"{what}: read_message()")
                            check(kind == "ok", "%s: read_message() raised %r after %r", what, val, got)
                            got.append(str(val))
                        expect_equal(got, s[1], f"{what}: the messages read")
                    else:  # the gateway does not read for a while
                        link.reading.clear()
                        body = [f"*#1*11*#{i}*{'0123456789' * (s[2] // 10)}##" for i in range(s[1])]

                        async def send():
                            for b in body:
                                await client.send_message(L.parse_message(b))

                        t = loop.create_task(done(send(), f"{what}: sending"))
                        await asyncio.sleep(s[3] / 100)
                        link.reading.set()
                        kind, val = await t
                        check(kind == "ok", "%s: sending raised %r", what, val)
                        total = sum(map(len, body))
                        await until(lambda: len(link.text) >= total, f"{what}: all that was sent to a slow gateway")
                        check(link.text == "".join(body), "%s: a slow gateway received something else than the %d frames sent", what, len(body))
                        ctx.label("slow gateway")
                        ctx.mark()
                link.text = ""
                await asyncio.sleep(0)
                check(not link.text, "%s: the client sent %r more", what, link.text)
                if part["end"] == "close" and part.get("last"):
                    # closed while a slow gateway has not read everything yet
                    link.reading.clear()
                    body = [f"*#1*11*#{i}*{'0123456789' * (part['last'][1] // 10)}##" for i in range(part["last"][0])]
                    sent = []
                    for b in body:
                        try:
                            await asyncio.wait_for(client.send_message(L.parse_message(b)), 0.3)
                        except TimeoutError:
                            break  # the gateway's fault
                        sent.append(b)
                    await done(client.close(), f"{what}: close()")
                    await asyncio.sleep(0.01)
                    link.reading.set()
                    await until(lambda: link.ended, f"{what}: the end of the connection, after close(),")
                    check(link.text == "".join(sent), "%s: %d frames were sent before close(), and a slow gateway received %d bytes of their %d",
                          what, len(sent), len(link.text), sum(map(len, sent)))
                    ctx.label("closed with a slow gateway")
                    ctx.mark()
                await finish(client, link, None, part["end"], what)
            ctx.label("end: " + part["end"])
    finally:
        gate.server.close()
        for link in gate.links:
            for t in link.tasks:
                t.cancel()
            link.writer.transport.abort()


async def _ask(L, light, dim):
    return [str(m) async for m in light.send_dimension_request(dim)]


def once(case, ctx):
    loop = RealLoop()
    try:
        asyncio.set_event_loop(loop)
        loop.run_until_complete(scenario(case, ctx, loop))
    finally:
        try:
            for t in asyncio.all_tasks(loop):
                t.cancel()
            loop.run_until_complete(asyncio.sleep(0))
            loop.run_until_complete(asyncio.sleep(0))
        finally:
            asyncio.set_event_loop(None)
            loop.close()


def c38(case, ctx: Ctx):
    try:
        once(case, ctx)
    except Violation:
        # real time is involved: only what fails again counts
        once(case, ctx)


_cuts = st.one_of(st.just([]), st.lists(st.integers(0, 400), max_size=6))
_digits = st.text("0123456789", min_size=1, max_size=5)
_step = st.one_of(
    st.tuples(st.just("cmd"), st.booleans(), st.sampled_from([True, True, False]), _cuts).map(list),
    st.tuples(st.just("ask"), st.integers(1, 40).map(str), st.lists(_digits, max_size=4), _cuts).map(list),
    st.tuples(st.just("raw"), st.lists(st.sampled_from(["*1*1*11##", "*#*1##", "*#*0##", "*#13**0*21*10*00*01##", "*2*1*41##", "*#18*51*113*350##"]),
                                       min_size=1, max_size=30), _cuts).map(list),
)
_slow = st.tuples(st.just("slow"), st.integers(2, 10), st.sampled_from([100, 5000, 20000, 40000]), st.integers(0, 10)).map(list)


@st.composite
def c38_case(draw):
    n = draw(st.integers(1, 3))
    auths, parts = [], []
    kinds = draw(st.lists(st.sampled_from(["light.status", "light.status", *sorted(KINDS)]), min_size=1, max_size=4))
    for _ in range(n):
        a = dict(draw(handshake()))
        a["dev"], a["delays"] = None, [0]
        a.pop("target", None)
        if auths and draw(st.booleans()):
            a = auths[-1]
        auths.append(a)
        parts.append({
            "again": draw(st.booleans()), "late": draw(st.booleans()), "cmd": draw(st.booleans()), "end": draw(st.sampled_from(["close", "eof", "reset"])),
            "events": draw(st.lists(_event(kinds), max_size=6)), "times": draw(st.sampled_from([1, 1, 1, 40])), "cuts": draw(_cuts),
            "last": draw(st.one_of(st.none(), st.none(), st.tuples(st.integers(1, 12), st.sampled_from([100, 20000, 40000])).map(list))),
            "steps": draw(st.lists(_step, max_size=4)) + ([draw(_slow)] if draw(st.integers(0, 7)) == 0 else []),
        })
    regs = draw(st.lists(st.tuples(st.sampled_from(kinds), st.integers(0, 2)).map(list), max_size=4))
    if any(p["cmd"] for p in parts):
        regs.append(["light.status", draw(st.integers(0, 2))])
        for p in parts:
            if p["cmd"]:
                p["events"] += draw(st.lists(_event(["light.status"]), min_size=1, max_size=3))
    return {"loop": draw(st.booleans()), "small": draw(st.booleans()), "auths": auths, "parts": parts, "regs": regs}


_A = {m: {"mode": m, "password": "12345", "nonce": "603356072", "ra": "0123456789abcdef" * {"SHA1": 3, "SHA256": 4}.get(m, 0), "delays": [0], "cuts": [], "dev": None}
      for m in HANDSHAKE}
_A["SHA1"]["ra"] = _A["SHA1"]["ra"][:40]
_P = {"again": True, "late": False, "events": [["light.status", "11", "1"], ["automation", "21", "2"]], "times": 500, "cuts": [3, 50, 51, 900],
      "steps": [["cmd", True, True, [2]], ["ask", "1", ["7", "8"], [9]], ["raw", ["*1*1*11##", "*#*1##"] * 200, [7, 1000]], ["slow", 12, 40000, 20]], "last": [12, 40000]}

C38 = Property(
    "C38",
    rule="one to three connections over loopback TCP, started, used and ended in generated ways against the reference gateway; non-trivial: "
         "events dispatched, answers read or a gateway that does not read for a while",
    facets=[Facet("tcp", c38_case(), c38, "events dispatched, answers read or a slow gateway", 300, 6000, shards=8,
                  corpus=[{"loop": lp, "small": sm, "regs": [["light.status", 0], ["automation", 0], ["light.status", 0]],
                           "auths": [{**_A[m], "session": s}] * 2, "parts": [{**_P, "end": e1}, {**_P, "end": e2, "late": True}]}
                          for m, lp, sm, e1, e2 in (("none", True, True, "close", "eof"), ("open", False, True, "eof", "reset"),
                                                    ("SHA1", True, False, "reset", "close"), ("SHA256", False, True, "close", "close"))
                          for s in ("EventSession", "CommandSession")]
                  + [{"loop": True, "small": False, "regs": [["light.status", 0], ["automation", 0], ["light.status", 0]],
                      "auths": [{**_A[m], "session": "EventSession"}], "parts": [{**_P, "times": 1, "cmd": True, "end": e}]}
                     for m in HANDSHAKE for e in ("close", "eof")])],
    assumptions=["the loopback interface works; a result that does not come within 8 s (twice) counts as missing"],
)
