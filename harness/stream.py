"""C06, C07, C08, C26, C27: byte streams, back-pressure, concurrent use, time limits."""
from __future__ import annotations

from collections import Counter

from hypothesis import strategies as st

import frames as F
from core import Ctx, Facet, HarnessError, Violation, check, describe, expect_equal, lib
from registry_types import Property
from sim import FakeTransport, VirtualLoop, World, outcome


class Proto:
    """An OWNProtocol connected to a fake transport on a virtual loop."""

    def __init__(self, L=None):
        L = L or lib()
        self.loop = VirtualLoop()
        self.start = self.loop.create_future()
        self.end = self.loop.create_future()

        def make():  # inside the running loop, as create_connection does
            self.proto = L.OWNProtocol(self.start, self.end)
            self.tr = FakeTransport(self.loop, self.proto)
            self.proto.connection_made(self.tr)

        self.loop.call_soon(make)
        self.loop.step()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.loop.shutdown()

    def receive(self, data: bytes):
        """One network delivery, run inside the loop; returns the exception it raised, or None."""
        box = []

        def run():
            try:
                self.proto.data_received(data)
            except Exception as e:
                box.append(e)

        self.loop.call_soon(run)
        self.loop.settle()
        return box[0] if box else None

    def drain(self) -> list:
        """Reads everything that can be read now."""
        out = []
        while True:
            t = self.loop.create_task(self.proto.receive_messages())
            self.loop.settle()
            if not t.done():
                t.cancel()
                self.loop.settle()
                return out
            out.append(t.result())


def connect(L, session: str = "CommandSession", password: str = "12345", on_ready=None):
    """A started client (no authentication) on a fresh world: (world, client, transport)."""
    w = World()
    try:
        def on_connect(tr):
            def on_write(data):
                tr.on_write = None
                tr.feed("*#*1##")

            tr.on_write = on_write
            tr.feed("*#*1##")

        w.on_connect = on_connect
        client = L.Client("127.0.0.1", 20000, password, getattr(L.SessionType, session), loop=w.loop)
        t = w.task(client.start())
        w.loop.run_to_end(t, 60)
        kind, val = outcome(t)
        if kind != "ok":
            raise Violation(f"a plain handshake without authentication ended with {kind} {val!r}")
        tr = w.transports[0]
        tr.written.clear()
        return w, client, tr
    except BaseException:
        w.close()
        raise


def same_as(msg, frame: str) -> bool:
    if msg.message != frame or msg.bytes != frame.encode():
        return False
    want = F.classify(F.split(frame))
    return want is None or F.view(msg) == want


def match(got: list, want: list[str], what: str) -> None:
    g = [str(m) for m in got]
    expect_equal(g, list(want), what)
    for m, f in zip(got, want):
        check(same_as(m, f), "%s: frame %s became %r", what, f, F.view(m))


# --------------------------------------------------------------------------- C06

claimed_frame = F.well_formed_frame.filter(F.claimed)
short_frame = st.one_of(
    st.sampled_from(["*#*1##", "*#*0##", "*1*1*11##", "*1*0*12##", "*2*1*41##", "*#1*12*1*150*255##", "*#13**0*10*20*30*000##",
                     "*#18*51*113*300##", "*99*1##", "*#603356072##", "*9*1*1##"]),
    claimed_frame,
)


def c06_proto(case, ctx: Ctx):
    fs = case["frames"]
    data = "".join(fs).encode()
    cuts = sorted({c % (len(data) + 1) for c in case["cuts"]} - {0, len(data)})
    pieces = [data[a:b] for a, b in zip([0, *cuts], [*cuts, len(data)]) if b > a]
    ends, pos = [], 0
    for f in fs:
        pos += len(f)
        ends.append(pos)
    inside = [c for c in cuts if c not in ends]
    ctx.mark(bool(inside))
    if any(c + 1 in ends for c in inside):
        ctx.label("cut inside the terminator")
    if inside:
        ctx.label("cut inside a frame")
    if len(pieces) < len(fs):
        ctx.label("several frames per delivery")
    if len(pieces) == len(data):
        ctx.label("byte by byte")
    with Proto() as p:
        got: list = []
        if case["mode"] == "loop":
            async def reader():
                while True:
                    got.append(await p.proto.receive_messages())

            p.loop.create_task(reader())
            p.loop.settle()
        done = 0
        for piece in pieces:
            e = p.receive(piece)
            done += len(piece)
            check(e is None, "delivery %r of a valid stream raised %r", piece, e)
            if case["mode"] == "drain":
                got += p.drain()
            if case["mode"] != "end":
                n = sum(1 for x in ends if x <= done)
                match(got, fs[:n], f"messages available after {done} bytes")
        if case["mode"] == "end":
            got = p.drain()
        match(got, fs, "messages read from the stream")
        expect_equal([str(m) for m in p.drain()] if case["mode"] != "loop" else [], [], "extra messages")


def c06_client(case, ctx: Ctx):
    """The same through a whole client, handshake included in the segmentation."""
    L = lib()
    fs = case["frames"]
    first = b"*#*1##"
    second = b"*#*1##" + "".join(fs).encode()
    ctx.mark(bool(case["cuts"]))

    def cut(data):
        cs = sorted({c % (len(data) + 1) for c in case["cuts"]} - {0, len(data)})
        return [data[a:b] for a, b in zip([0, *cs], [*cs, len(data)]) if b > a]

    w = World()
    try:
        def on_connect(tr):
            def on_write(data):
                tr.on_write = None
                for x in cut(second):
                    tr.feed(x)

            tr.on_write = on_write
            for x in cut(first):
                tr.feed(x)

        w.on_connect = on_connect
        client = L.Client("127.0.0.1", 20000, "12345", getattr(L.SessionType, case["session"]), loop=w.loop)
        t = w.task(client.start())
        w.loop.run_to_end(t, 60)
        kind, val = outcome(t)
        check(kind == "ok", "start: %s %r", kind, val)
        got = []
        for _ in fs:
            t = w.task(client.read_message())
            w.loop.run_to_end(t, 60)
            kind, val = outcome(t)
            check(kind == "ok", "reading %d of %d messages: %s %r", len(got) + 1, len(fs), kind, val)
            got.append(val)
        match(got, fs, "messages read by the client")
        t = w.task(client.read_message(timeout=1))
        w.loop.run_to_end(t, 60)
        kind, val = outcome(t)
        check(kind == "err" and isinstance(val, TimeoutError), "an extra read gave %s %r", kind, val)
    finally:
        w.close()


def c06_large(case, ctx: Ctx):
    """Long streams and long frames, read only at the end or as they arrive."""
    fs = []
    for i in range(case["n"]):
        k = case["lens"][i % len(case["lens"])]
        i //= case.get("repeat", 1)
        fs.append(f"*#18*5{i % 255 + 1}*113*{i}" + "*7" * k + "##")
    data = "".join(fs).encode()
    size = case["size"]
    ctx.mark(case["n"] > 50 or len(data) > 2000)
    ctx.label(f"{len(fs) // 500 * 500}+ frames, {len(data) // 20000 * 20}+ kB")
    with Proto() as p:
        got: list = []
        if case["mode"] == "loop":
            async def reader():
                while True:
                    got.append(await p.proto.receive_messages())

            p.loop.create_task(reader())
            p.loop.settle()
        for i in range(0, len(data), size):
            e = p.receive(data[i:i + size])
            check(e is None, "delivery %d of %d (%d frames of up to %d bytes) raised %r", i // size + 1, len(data) // size + 1, len(fs),
                  max(map(len, fs)), e)
        if case["mode"] == "end":
            got = p.drain()
        g = [str(m) for m in got]
        if g != fs:
            bad = next((i for i, (a, b) in enumerate(zip(g, fs)) if a != b), min(len(g), len(fs)))
            raise Violation(f"{len(fs)} frames sent, {len(g)} read; first difference at frame {bad}")


_cuts = st.one_of(st.lists(st.integers(0, 400), max_size=12), st.just(list(range(400))), st.just([]))
stream_case = st.fixed_dictionaries({"frames": st.lists(short_frame, min_size=1, max_size=8), "cuts": _cuts,
                                     "mode": st.sampled_from(["drain", "loop", "end"])})
C06 = Property(
    "C06",
    rule="a stream of 1-8 (thorough: up to 8) well-formed frames cut at generated positions; non-trivial: at least one cut "
         "falls inside a frame",
    facets=[
        Facet("proto", stream_case, c06_proto, "a cut inside a frame", 3000, 60000, shards=6,
              corpus=[{"frames": ["*1*1*11##", "*#*1##"], "cuts": [c], "mode": m} for c in range(15) for m in ("drain", "end", "loop")]),
        Facet("client", st.fixed_dictionaries({"frames": st.lists(short_frame, min_size=1, max_size=5), "cuts": _cuts,
                                               "session": st.sampled_from(["CommandSession", "EventSession", "OldCommandSession"])}),
              c06_client, "at least one cut", 800, 12000),
        Facet("large", st.fixed_dictionaries({
            "n": st.one_of(st.integers(1, 60), st.integers(200, 2500), st.sampled_from([1, 2, 2500])),
            "lens": st.lists(st.one_of(st.integers(0, 4), st.integers(0, 60)), min_size=1, max_size=3), "size": st.one_of(
                st.sampled_from([1448, 4096, 65536, 262144]), st.integers(1, 3000).map(lambda x: max(x, 7))),
            "repeat": st.sampled_from([1, 1, 2, 5, 10000]),
            "mode": st.sampled_from(["end", "loop"])}), c06_large, "over 50 frames or 2000 bytes", 40, 600, shards=4,
              corpus=[{"n": 3000, "lens": [0], "size": 4096, "mode": "end"}, {"n": 20000, "lens": [0], "size": 65536, "mode": "end"}, {"n": 5000, "lens": [0], "size": 262144, "mode": "end"},
                      {"n": 64, "lens": [0], "size": 4096, "mode": "end", "repeat": 4}, {"n": 2, "lens": [2000], "size": 100, "mode": "end"}, {"n": 3, "lens": [1500], "size": 1448, "mode": "loop"},
                      {"n": 3, "lens": [3, 40000], "size": 1448, "mode": "loop"}, {"n": 4, "lens": [9000, 1], "size": 500, "mode": "end"}]),
    ],
    assumptions=["the transport is an in-memory double of asyncio's socket transport"],
)

# --------------------------------------------------------------------------- C07

_bad_seg = st.one_of(
    st.sampled_from(["abc", "1*1*11", "*1*a*11", "*1*1 *11", "#*1", "*1*1*11;", "?", "*1*-1*11", "hello *1", "\x00", "*1*1\n*1", "*1*1\r\n*11", "*1*1*11 \t", "*1\r*1*11", "*1*\x1f1*11", "* 1*1*11"]),
    st.text("*#0123456789abc -\x00\x7f", min_size=1, max_size=12),
    F.well_formed_frame.map(lambda f: f[1:-2]),
    st.builds(lambda f, i, c: (lambda b: b[: i % (len(b) + 1)] + c + b[i % (len(b) + 1):])(f[:-2]), F.well_formed_frame,
              st.integers(0, 50), st.sampled_from([*"abcxyz-+.,:;!?_ \x00\t\r\n", "\r\n", "  "])),
)


def _seg_ok(s: str) -> bool:
    """A malformed segment: no '##' inside, not ending in '#', and s+'##' is no frame."""
    return "##" not in s and not s.endswith("#") and s.strip() != "" and not F.well_formed(s + "##")


def _trail_ok(s: str) -> bool:
    t = s.lstrip()
    if "##" in s or t == "" or s.endswith("#"):
        return False
    return not (t.startswith("*") and all(c in "0123456789#*" for c in t))


bad_seg = _bad_seg.filter(_seg_ok)
bad_trail = _bad_seg.filter(_trail_ok)

# items: ["ok", frame] | ["bad", segment] (terminated) ; cuts only between items or inside ok frames
delivery_item = st.one_of(st.builds(lambda f: ["ok", f], short_frame), st.builds(lambda f: ["ok", f], short_frame),
                          st.builds(lambda b: ["bad", b], bad_seg))


def c07_mixed(case, ctx: Ctx):
    L = lib()
    # build deliveries: list of (bytes, expected frames completed, malformed?)
    deliveries = []
    buf, done, bad = "", [], False
    for item, cutpos in zip(case["items"], case["cuts"]):
        kind, text = item
        if kind == "ok":
            if cutpos is not None:
                i = 1 + cutpos % (len(text) - 1)
                deliveries.append((buf + text[:i], done, bad))
                buf, done, bad = text[i:], [text], False
                ctx.label("frame split across deliveries")
            else:
                buf += text
                done.append(text)
        else:
            buf += text + "##"
            bad = True
            if cutpos is not None:
                deliveries.append((buf, done, bad))
                buf, done, bad = "", [], False
    if case["trail"] is not None:
        buf += case["trail"]
        bad = True
        ctx.label("unterminated junk")
    if buf:
        deliveries.append((buf, done, bad))
    ctx.mark(any(b and d for _, d, b in deliveries))
    with Proto() as p:
        for text, done, bad in deliveries:
            e = p.receive(text.encode("ascii"))
            if bad:
                ctx.label("malformed delivery")
                check(e is not None, "malformed delivery %r raised nothing", text)
                check(isinstance(e, L.exc.ParseError), "malformed delivery %r raised %r", text, e)
            else:
                check(e is None, "valid delivery %r raised %r", text, e)
            match(p.drain(), done, f"messages of delivery {text!r}")


def c07_nonascii(case, ctx: Ctx):
    parts = [f.encode() for f in case["frames"]]
    data = b"".join(parts)
    pos = case["pos"] % (len(data) + 1)
    data = data[:pos] + (case["char"].encode() if case.get("char") else bytes([case["byte"]])) + data[pos:]
    # frames not touched by the foreign byte
    intact, at = [], 0
    for f in case["frames"]:
        a, b = at, at + len(f)
        at = b
        if b <= pos or a >= pos:
            intact.append(f)
    ctx.mark(len(case["frames"]) > 1)
    with Proto() as p:
        e = p.receive(data)
        check(e is not None, "non-ASCII delivery %r raised nothing", data)
        check(isinstance(e, UnicodeError), "non-ASCII delivery %r raised %r", data, e)
        got = [str(m) for m in p.drain()]
        it = iter(intact)
        check(all(g in it for g in got), "messages %r out of %r", got, data)


def c07_many(case, ctx: Ctx):
    """Many frames in one delivery, malformed parts anywhere."""
    r = case.get("repeat", 1)
    fs = [f"*1*{i // r % 2}*{i // r + 11}##" for i in range(case["n"])]
    bad = {b % (case["n"] + 1) for b in case["bad"]}
    parts = []
    for i in range(case["n"] + 1):
        if i in bad:
            parts.append(case["text"] + "##")
        if i < case["n"]:
            parts.append(fs[i])
    ctx.mark(len(bad) > 1)
    ctx.label(f"{case['n'] // 100 * 100}+ frames")
    with Proto() as p:
        e = p.receive("".join(parts).encode())
        check(isinstance(e, lib().exc.ParseError), "a delivery of %d frames and %d malformed parts raised %r", len(fs), len(bad), e)
        got = [str(m) for m in p.drain()]
        check(got == fs, "%d frames and malformed parts at %s in one delivery: %d frames read", len(fs), sorted(bad), len(got))


def c07_client(case, ctx: Ctx):
    """Through a client: the reader still gets the valid frames although the connection is then lost."""
    L = lib()
    w, client, tr = connect(L, "EventSession")
    try:
        text = "".join(t if k == "ok" else t + "##" for k, t in case)
        want = [t for k, t in case if k == "ok"]
        ctx.mark(any(k == "bad" for k, _ in case) and bool(want))
        tr.feed(text)
        w.loop.settle()
        got = []
        for _ in want:
            t = w.task(client.read_message())
            w.loop.run_to_end(t, 60)
            kind, val = outcome(t)
            check(kind == "ok", "reading message %d of %d from %r: %s %r", len(got) + 1, len(want), text, kind, val)
            got.append(val)
        match(got, want, f"messages of delivery {text!r}")
        if any(k == "bad" for k, _ in case):
            check(len(tr.data_errors) == 1 and isinstance(tr.data_errors[0], L.exc.ParseError),
                  "delivery %r raised %r", text, tr.data_errors)
        else:
            check(not tr.data_errors, "valid delivery %r raised %r", text, tr.data_errors)
    finally:
        w.close()


C07 = Property(
    "C07",
    rule="mixed/client: a delivery holding both a malformed part and at least one valid frame; nonascii: two or more frames",
    facets=[
        Facet("mixed", st.lists(st.tuples(delivery_item, st.one_of(st.none(), st.none(), st.integers(0, 50))), min_size=1, max_size=7)
              .flatmap(lambda xs: st.fixed_dictionaries({"items": st.just([list(x[0]) for x in xs]),
                                                          "cuts": st.just([x[1] for x in xs]),
                                                          "trail": st.one_of(st.none(), st.none(), bad_trail)})),
              c07_mixed, "malformed part and valid frame in one delivery", 4000, 80000, shards=6,
              corpus=[{"items": [["ok", "*1*1*11##"], ["bad", "x"], ["ok", "*1*0*12##"]], "cuts": [None, None, None], "trail": None},
                      {"items": [["bad", "abc"], ["ok", "*1*1*11##"]], "cuts": [None, None], "trail": None},
                      {"items": [["ok", "*1*1*11##"]], "cuts": [None], "trail": "deadbeef"},
                      {"items": [["ok", "*1*1*11##"], ["bad", "x"]], "cuts": [3, None], "trail": None}]),
        Facet("many", st.fixed_dictionaries({"n": st.one_of(st.integers(5, 60), st.integers(5, 400)), "bad": st.one_of(st.lists(st.integers(0, 400), min_size=1,
              max_size=12), st.lists(st.integers(0, 400), min_size=30, max_size=60)), "repeat": st.sampled_from([1, 1, 2, 1000]), "text": st.sampled_from(["abc", "*1*x*1", "#1", "1*1*11", "*1*1*11?"])}), c07_many, "several malformed parts", 150, 3000, shards=2,
              corpus=[{"n": 2000, "bad": [0, 1, 1000], "text": "abc"}, {"n": 900, "bad": list(range(0, 900, 3)), "text": "abc"},
                      {"n": 300, "bad": list(range(300)), "text": "*1*x*1"}]),
        Facet("nonascii", st.fixed_dictionaries({"frames": st.lists(short_frame, min_size=0, max_size=5), "pos": st.integers(0, 200),
                                                 "byte": st.integers(128, 255),
                                                 "char": st.one_of(st.none(), st.sampled_from("é٣１€\u00a0\u0080😀"), st.characters(min_codepoint=128, exclude_categories=["Cs"]))}),
              c07_nonascii, "two or more frames", 1500, 20000, shards=2),
        Facet("client", st.lists(delivery_item.map(list), min_size=1, max_size=6), c07_client,
              "malformed part and valid frame in one delivery", 800, 12000, shards=4),
    ],
    assumptions=["a delivery is never cut inside a malformed part (there it is ambiguous which bytes are malformed)",
                 "empty segments ('####') are not judged"],
)

# --------------------------------------------------------------------------- C08


def c08(case, ctx: Ctx):
    """case: {'actions': [...], 'autopause': [write indices], 'via': 'proto'|'client'}"""
    L = lib()
    if case["via"] == "client":
        w, client, tr = connect(L, case.get("session", "CommandSession"))
        loop, closer, send = w.loop, w.close, client.send_message
    else:
        p = Proto(L)
        loop, tr, closer, send = p.loop, p.tr, p.loop.shutdown, p.proto.send_message
    try:
        nwrites = [0]
        tr.buffered = case.get("buffered", [0])

        def on_write(data):
            nwrites[0] += 1
            if nwrites[0] in case["autopause"]:
                tr._pause()  # as asyncio does: from inside write(), when the buffer grows too big
                ctx.label("paused by a write")

        tr.on_write = on_write
        tasks, frames, completed, must_not = [], [], [], set()
        objects, kept = [], {}
        paused_sends = 0

        def issue(kind):
            i = len(tasks)
            frame = [f"*1*{i}*11##", f"*#1*{i}##", f"*#13**#0*{i}##", f"*99*{i}##", "*1*1*11##", f"*#18*{i}*113" + "*1234567" * 900 + "##",
                     f"*#18*{i}*113" + "*1234567" * 18000 + "##", frames[-1] if frames else "*#*1##"][kind]
            # a message is a value: the very object sent before (kinds 4 and 7) is as good as a new one
            msg = L.parse_message(frame)
            if kind == 7 and objects:
                msg = objects[-1]
                ctx.label("the last object again")
            elif kind == 4 and case.get("kept"):
                msg = kept.setdefault(frame, msg)
            frames.append(frame)
            objects.append(msg)
            t = loop.create_task(send(msg))
            t.add_done_callback(lambda t, i=i: completed.append(i) if not t.cancelled() and t.exception() is None else None)
            tasks.append(t)

        for a in case["actions"]:
            op = a[0]
            if op == "send":
                issue(a[1])
                paused_sends += tr.paused
            elif op == "burst":
                for k in a[1]:
                    issue(k)
                    paused_sends += tr.paused
            elif op == "pause":
                loop.settle()
                tr.pause()
            elif op == "resume":
                tr.resume()
            elif op == "advance":
                loop.advance(a[1] / 16)
            elif op == "step":
                loop.step()
            elif op == "cancel" and tasks:
                loop.settle()
                i = a[1] % len(tasks)
                if tr.paused and not tasks[i].done():
                    must_not.add(i)
                    tasks[i].cancel()
                    ctx.label("cancelled while paused")
            if op in ("pause", "resume") or (op in ("send", "burst") and not case["racy"]):
                loop.settle()
            _c08_check(tr, frames, must_not, case, final=False)
        # afterwards writing stays possible: every pending send is written once and completes
        for _ in range(3 + len(case["autopause"])):
            tr.resume()
            loop.advance(5.0)
        ctx.mark(paused_sends > 0)
        ctx.label("sends while paused" if paused_sends else "no send while paused")
        for i, t in enumerate(tasks):
            kind, val = outcome(t)
            if i in must_not:
                check(kind == "cancelled", "the cancelled send %d ended %s %r", i, kind, val)
            else:
                check(kind == "ok", "send %d of %s ended %s %r", i, frames[i], kind, val)
        _c08_check(tr, frames, must_not, case, final=True)
        stream = tr.sent().decode()
        expect_equal([f + "##" for f in stream.split("##")[:-1]], [frames[i] for i in completed],
                     "written frames (expected: in the order of the completed sends)")
    finally:
        closer()


def _c08_check(tr, frames, must_not, case, final):
    check(not tr.wrote_while_paused, "written while paused: %r", tr.wrote_while_paused)
    stream = tr.sent().decode()
    parts = [x + "##" for x in stream.split("##")]
    check(parts[-1] == "##", "the written stream %r does not end with a frame", stream)
    parts = parts[:-1]
    allowed = Counter(f for i, f in enumerate(frames) if i not in must_not)
    for x, k in Counter(parts).items():
        check(x in frames, "written %r is none of the messages sent", x)
        check(k <= allowed[x], "the message %s was written %d times, expected at most %d", x, k, allowed[x])
    if final:
        expect_equal(sorted(parts), sorted(allowed.elements()), "written frames")


def c08_sequential(case, ctx: Ctx):
    """Sends awaited one after the other go out in that order, whatever pauses happen in between."""
    L = lib()
    with Proto(L) as p:
        ctx.mark(any(d for d in case))
        done = []

        async def run():
            for i, (_, kind) in enumerate(case):
                await p.proto.send_message(L.parse_message(f"*1*{i}*{kind}##"))
                done.append(i)

        t = p.loop.create_task(run())
        for pause, _ in case:
            if pause:
                p.tr.pause()
                p.loop.advance(pause / 8)
                p.tr.resume()
            p.loop.step()
        p.loop.advance(len(case) * 2 + 5)
        kind, val = outcome(t)
        check(kind == "ok", "sequence of sends: %s %r", kind, val)
        expect_equal(p.tr.sent().decode(), "".join(f"*1*{i}*{k}##" for i, (_, k) in enumerate(case)), "written stream")
        check(not p.tr.wrote_while_paused, "written while paused: %r", p.tr.wrote_while_paused)


_sk = st.one_of(st.integers(0, 4), st.integers(0, 4), st.integers(0, 4), st.integers(0, 6), st.just(7))
_act = st.one_of(
    st.builds(lambda k: ["send", k], _sk),
    st.builds(lambda ks: ["burst", ks], st.lists(_sk, min_size=2, max_size=4)),
    st.builds(lambda k, n: ["burst", [k] * n], st.sampled_from([0, 1, 2, 3, 4, 7]), st.sampled_from([3, 20, 60])),
    st.just(["pause"]), st.just(["resume"]),
    st.builds(lambda d: ["advance", d], st.one_of(st.integers(1, 40), st.integers(1, 40), st.sampled_from([200, 800]))),
    st.just(["step"]),
    st.builds(lambda k: ["cancel", k], st.integers(0, 10)),
)
C08 = Property(
    "C08",
    rule="histories of sends, pauses (also from inside a write), resumes, clock advances and cancellations; non-trivial: a send "
         "issued while writing is paused",
    facets=[
        Facet("history", st.fixed_dictionaries({"actions": st.lists(_act, min_size=1, max_size=16),
                                                "buffered": st.one_of(st.just([0]), st.lists(st.sampled_from([0, 0, 1, 500, 60000]), min_size=1, max_size=3)), "autopause": st.lists(st.integers(1, 6), max_size=2, unique=True),
                                                "racy": st.booleans(), "kept": st.booleans(), "via": st.sampled_from(["proto", "proto", "client"]),
                                                "session": st.sampled_from(["CommandSession", "OldCommandSession"])}),
              c08, "send while paused", 3000, 50000, shards=8,
              corpus=[{"actions": [["pause"], ["send", 0], ["advance", 20], ["send", 1], ["resume"]], "autopause": [], "racy": False, "via": "proto"},
                      {"actions": [["pause"], ["send", 0], ["cancel", 0], ["resume"]], "autopause": [], "racy": False, "via": "proto"},
                      {"actions": [["burst", [0, 1, 2]]], "autopause": [1], "racy": False, "via": "proto"},
                      *({"actions": [["send", 0], ["send", 7], ["pause"], ["burst", [7, 7]], ["resume"], ["burst", [4, 4, 0, 4]], ["advance", 40], ["send", 4], ["send", 7]],
                         "autopause": [], "racy": r, "kept": True, "via": v} for r in (False, True) for v in ("proto", "client")),
                      *({"actions": [["burst", [6, 0, 6, 1]], ["burst", [5, 6]]], "autopause": [], "racy": r, "via": v} for r in (False, True)
                        for v in ("proto", "client"))]),
        Facet("sequential", st.lists(st.tuples(st.integers(0, 12), st.integers(1, 99)).map(list), min_size=1, max_size=8),
              c08_sequential, "at least one pause", 800, 10000, shards=2),
    ],
    assumptions=["the transport never pauses twice without resuming (asyncio guarantees it)",
                 "the order among sends waiting at the same time during a pause is not claimed"],
)

# --------------------------------------------------------------------------- C27


def c27(case, ctx: Ctx):
    """Reads with limits, deliveries, clock advances and cancellations; one read outstanding at a time."""
    L = lib()
    w, client, tr = connect(L, case["session"])
    loop = w.loop
    try:
        unread: list[str] = []
        pending = None  # dict(task, deadline, issued, cancelled, tie)
        n = 0
        timed_out = late = 0

        def finish():
            """Judges the outstanding read if it has ended."""
            nonlocal pending, timed_out, late
            r = pending
            kind, val = outcome(r["task"])
            now = r["done_at"][0]
            if kind == "ok":
                check(bool(unread), "a read returned %s although nothing is unread", val)
                expect_equal(str(val), unread.pop(0), "message read")
                want = r["issued"] if r["ready"] else r["arrived"]
                check(want is not None and abs(now - want) < 1e-6, "the message was returned at %r, not when it arrived (%r)", now, want)
                if timed_out:
                    late += 1
            elif kind == "cancelled":
                check(r["cancelled"], "the read was cancelled by nobody")
            else:
                check(isinstance(val, TimeoutError), "the read raised %r", val)
                check(r["deadline"] is not None, "a read without limit timed out")
                check(abs(now - r["deadline"]) < 1e-6, "timeout at %+.3f s instead of %+.3f s after the call",
                      now - r["issued"], r["deadline"] - r["issued"])
                timed_out += 1
                ctx.label("timeout")
            pending = None

        for a in case["actions"]:
            op = a[0]
            if op == "read" and pending is None:
                lim = a[1]
                coro = client.read_message() if lim == "default" else client.read_message(timeout=lim)
                limit = 5 if lim == "default" else lim
                done_at: list = []
                t = w.task(coro)
                t.add_done_callback(lambda t, d=done_at: d.append(loop.time()))
                pending = {"task": t, "issued": loop.time(), "deadline": None if limit is None else loop.time() + limit,
                           "cancelled": False, "ready": bool(unread), "arrived": None, "done_at": done_at}
                loop.settle()
                if pending["ready"]:
                    check(t.done(), "a read did not return the unread message at once")
                    ctx.label("immediate")
            elif op == "feed":
                fs = []
                for _ in range(a[1]):
                    n += 1
                    fs.append(f"*1*{n}*11##")
                tie = pending is not None and pending["deadline"] is not None and abs(loop.time() - pending["deadline"]) < 1e-6
                if tie:
                    continue
                if pending is not None and pending["arrived"] is None and not pending["ready"]:
                    pending["arrived"] = loop.time()
                unread += fs
                tr.feed("".join(fs))
                if a[2] == "race" and pending is not None:
                    # cancel in the same loop iteration as the delivery
                    loop.call_soon(pending["task"].cancel)
                    pending["cancelled"] = True
                    ctx.label("cancel races delivery")
                loop.settle()
                if pending is not None:
                    check(pending["task"].done(), "a waiting read did not get the message that arrived")
            elif op == "advance":
                loop.advance(a[1] / 8 + 0.03)
                if pending is not None and pending["deadline"] is not None and loop.time() > pending["deadline"] + 1e-6:
                    check(pending["task"].done(), "a read is still waiting %.3f s after its limit", loop.time() - pending["deadline"])
            elif op == "cancel" and pending is not None:
                pending["cancelled"] = True
                pending["task"].cancel()
                loop.settle()
                check(pending["task"].done(), "a cancelled read is still waiting")
                timed_out += 1
                ctx.label("cancelled")
            if pending is not None:
                if pending["task"].done():
                    finish()
                else:
                    check(not unread, "a read waits although %r is unread", unread)
        # everything not read yet is still there, in order
        if pending is not None:
            pending["task"].cancel()
            pending["cancelled"] = True
            loop.settle()
            if pending["task"].done():
                finish()
        for f in list(unread):
            t = w.task(client.read_message(timeout=1))
            loop.settle()
            kind, val = outcome(t)
            check(kind == "ok", "message %s was lost (%s %r)", f, kind, val)
            expect_equal(str(val), f, "remaining message")
        t = w.task(client.read_message(timeout=1))
        loop.advance(3)
        kind, val = outcome(t)
        check(kind == "err" and isinstance(val, TimeoutError), "after everything was read a read gave %s %r", kind, val)
        ctx.mark(late > 0 or timed_out > 0)
        if late:
            ctx.label("late message read later")
    finally:
        w.close()


_c27_act = st.one_of(
    st.builds(lambda t: ["read", t], st.one_of(st.just("default"), st.just("default"), st.none(), st.integers(0, 12), st.sampled_from([0.001, 0.01, 0.05, 0.5, 2.25, 60, 600, 4000, 100000]))),
    st.builds(lambda t: ["read", t], st.one_of(st.just("default"), st.none(), st.integers(1, 12))),
    st.builds(lambda k, r: ["feed", k, r], st.integers(1, 3), st.sampled_from(["", "", "race"])),
    st.builds(lambda d: ["advance", d], st.one_of(st.integers(1, 20), st.integers(30, 60), st.integers(100, 4000), st.sampled_from([40000, 10**6]))),
    st.just(["cancel"]),
)
C27 = Property(
    "C27",
    rule="histories of reads with limits, deliveries, clock advances and cancellations (also in the same loop iteration as a "
         "delivery); non-trivial: at least one read timed out or was cancelled",
    facets=[
        Facet("history", st.fixed_dictionaries({"session": st.sampled_from(["CommandSession", "EventSession", "OldCommandSession"]),
                                                "actions": st.lists(_c27_act, min_size=1, max_size=20)}),
              c27, "a read timed out or was cancelled", 3000, 60000, shards=8,
              corpus=[{"session": "CommandSession", "actions": [["read", "default"], ["advance", 39], ["feed", 1, ""]]},
                      {"session": "CommandSession", "actions": [["read", "default"], ["advance", 41], ["feed", 1, ""], ["read", 1]]},
                      {"session": "CommandSession", "actions": [["read", None], ["advance", 4000], ["feed", 2, ""], ["read", None]]},
                      {"session": "EventSession", "actions": [["read", 3], ["feed", 1, "race"], ["read", 3]]}]),
    ],
    assumptions=["arrivals at exactly the instant of the limit are not judged", "one read outstanding at a time (C26 covers several)"],
)

# --------------------------------------------------------------------------- C26

CMDS = [
    ("Light", "turn_on", (), lambda w: f"*1*1*{w}##"),
    ("Light", "turn_off", (), lambda w: f"*1*0*{w}##"),
    ("Light", "temporization_command", (0, 1, 2), lambda w: f"*#1*{w}*#2*0*1*2##"),
    ("Dimmer", "set_hsv", (1, 2, 3), lambda w: f"*#1*{w}*#12*1*2*3##"),
    ("Automation", "up", (), lambda w: f"*2*1*{w}##"),
    ("Automation", "stop", (), lambda w: f"*2*0*{w}##"),
    ("Camera", "zoom_in", (), lambda w: "*7*120##"),
    ("Camera", "receive_video", (), lambda w: f"*7*0*{w}##"),
    ("EnergyManagement", "enable_actuator", (), lambda w: f"*18*71*{w}##"),
]


def c26(case, ctx: Ctx):
    L = lib()
    w, client, tr = connect(L, case["session"])
    tr.buffered = case.get("buffered", [0])
    loop = w.loop
    try:
        issued: list = []  # (task, frame)
        replies: list[str] = []
        overlap = False

        def answer(n, raw):
            """Answers the oldest n unanswered frames written so far, in one delivery."""
            text = ""
            written = len([x for x in tr.sent().decode().split("##") if x])
            for r in raw[:n]:
                if len(replies) >= written:
                    break
                replies.append(r)
                text += r
            cuts = case.get("cuts", [])
            cs = sorted({c % (len(text) + 1) for c in cuts} - {0, len(text)}) if text else []
            for p, q in zip([0, *cs], [*cs, len(text)]):
                if q > p:
                    tr.feed(text[p:q])

        def start(k):
            nonlocal overlap
            cls, meth, args, fr = CMDS[k % len(CMDS)]
            where = f"5{len(issued) + 1}" if cls == "EnergyManagement" else f"{len(issued) + 11}"
            item = getattr(L.items, cls)(client, where)
            t = w.task(getattr(item, meth)(*args))
            issued.append((t, fr(where), loop.time()))
            if sum(1 for t, _, _ in issued if not t.done()) > 1:
                overlap = True

        for a in case["actions"]:
            op = a[0]
            if op == "cmd":
                start(a[1])
            elif op == "reply":
                answer(len(a[1]), a[1])
            elif op == "step":
                for _ in range(a[1]):
                    loop.step()
            elif op == "settle":
                loop.settle()
            elif op == "burst":
                for j in range(a[2]):
                    start(a[1] + j)
            elif op == "advance":
                # an answer may take its time, but not so long that a command gives up
                loop.settle()
                waiting = [at for t, _, at in issued if not t.done()]
                if not waiting or loop.time() + a[1] - min(waiting) < 4.9:
                    loop.advance(a[1])
                    ctx.label("slow answers")
        loop.settle()
        expect_equal(tr.sent().decode(), "".join(f for _, f, _ in issued), "written frames (expected: in issue order)")
        while len(replies) < len(issued):
            answer(1, [case["tail"][len(replies) % len(case["tail"])]])
            loop.settle()
        ctx.mark(overlap and len(set(replies)) > 1)
        ctx.label("overlapping" if overlap else "sequential")
        for i, ((t, f, _), r) in enumerate(zip(issued, replies)):
            kind, val = outcome(t)
            if r == "*#*1##":
                check(kind == "ok", "command %d (%s) was answered by an ACK but ended %s %r", i, f, kind, val)
            else:
                check(kind == "err" and isinstance(val, L.exc.ResponseError),
                      "command %d (%s) was answered by %s but ended %s %r", i, f, r, kind, val)
        expect_equal(tr.sent().decode(), "".join(f for _, f, _ in issued), "written frames")
    finally:
        w.close()


_reply = st.sampled_from(["*#*1##", "*#*0##", "*#*1##", "*#*0##", "*1*1*11##"])
_c26_act = st.one_of(
    st.builds(lambda k: ["cmd", k], st.integers(0, len(CMDS) - 1)),
    st.builds(lambda k: ["cmd", k], st.integers(0, len(CMDS) - 1)),
    st.builds(lambda r: ["reply", r], st.lists(_reply, min_size=1, max_size=3)),
    st.builds(lambda n: ["step", n], st.integers(1, 3)),
    st.just(["settle"]),
    st.one_of(st.just(["settle"]), st.builds(lambda d: ["advance", d], st.sampled_from([0.3, 1, 2, 4])),
              st.builds(lambda k, n: ["burst", k, n], st.integers(0, 8), st.sampled_from([2, 5, 40]))),
)
C26 = Property(
    "C26",
    rule="up to 20 commands started and answered in a generated interleaving at the granularity of single event-loop iterations; "
         "non-trivial: commands overlap and their answers differ",
    facets=[
        Facet("interleave", st.fixed_dictionaries({"session": st.sampled_from(["CommandSession", "OldCommandSession"]),
                                                   "actions": st.lists(_c26_act, min_size=2, max_size=20),
                                                   "tail": st.lists(_reply, min_size=1, max_size=4),
                                                   "buffered": st.one_of(st.just([0]), st.lists(st.sampled_from([0, 0, 1, 500, 60000]), min_size=1, max_size=3)),
                                                   "cuts": st.one_of(st.just([]), st.lists(st.integers(0, 20), max_size=3))}),
              c26, "overlapping commands with different answers", 3000, 60000, shards=8,
              corpus=[{"session": "CommandSession", "actions": [["cmd", 0], ["settle"], ["reply", ["*#*0##"]], ["cmd", 1], ["settle"]],
                       "tail": ["*#*1##"]},
                      {"session": "CommandSession", "actions": [["cmd", 0], ["settle"], ["reply", ["*#*0##"]], ["step", 1], ["cmd", 1],
                                                                ["settle"]], "tail": ["*#*1##"]}]),
    ],
    assumptions=["no command is cancelled or times out in between", "writing is never paused"],
)
