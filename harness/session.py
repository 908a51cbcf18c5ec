"""C11, C12: the handshake and the session rules."""
from __future__ import annotations

import datetime
import socket

from hypothesis import strategies as st

import frames as F
from core import Ctx, Facet, Violation, check, describe, expect_equal, lib
from pure import ref_client, ref_open, ref_server
from registry_types import Property
from sim import World, outcome
from stream import connect

SESSION_CODE = {"OldCommandSession": "0", "CommandSession": "9", "EventSession": "1"}
SIZE = {"SHA1": 40, "SHA256": 64}


def to_digits(hexs: str) -> str:
    return "".join(f"{int(c, 16):02d}" for c in hexs)


def from_digits(d: str) -> str | None:
    if len(d) % 2:
        return None
    out = ""
    for i in range(0, len(d), 2):
        v = int(d[i:i + 2])
        if v > 15:
            return None
        out += f"{v:x}"
    return out


class Gateway:
    """A reference gateway: follows the documents, except for one generated deviation."""

    def __init__(self, world: World, case: dict):
        self.w = world
        self.case = case
        self.step = 0
        self.wrong: str | None = None  # what the client did wrong
        self.accepted = False  # the gateway has opened the session
        self.expected_frames = 0
        self.rb = None
        world.on_connect = self.on_connect
        self.buf = ""

    def on_connect(self, tr):
        self.tr = tr
        tr.on_write = self.on_write
        self.reply("*#*1##")

    def reply(self, right: str):
        """Sends the right answer of this step, or the deviation."""
        dev = self.case["dev"]
        step, self.step = self.step, self.step + 1
        text, drop = right, False
        if dev is not None and dev["step"] == step:
            kind = dev["kind"]
            if kind == "silence":
                return
            if kind == "drop":
                self.later(lambda: self.tr.drop(ConnectionResetError() if dev.get("err") else None))
                return
            text = dev["text"] + (right if dev.get("then") else "") if kind == "frame" else self.special(kind, right)
            self.accepted = False
        cuts = self.case["cuts"]
        if self.accepted:
            text += self.case.get("tail", "")
        pieces = [text]
        if cuts:
            cs = sorted({c % (len(text) + 1) for c in cuts} - {0, len(text)})
            pieces = [text[a:b] for a, b in zip([0, *cs], [*cs, len(text)])]
        self.later(lambda: [self.tr.feed(p) for p in pieces])

    def special(self, kind, right):
        mode = self.case["mode"]
        if kind == "unsupported":
            return f"*98*{self.case['dev']['alg']}##"
        digits = right[2:-2]
        if kind == "odd":
            return f"*#{digits[:-1]}##"
        if kind == "big":  # a pair above 15
            i = 2 * (self.case["dev"]["pos"] % (len(digits) // 2))
            return f"*#{digits[:i]}{self.case['dev']['pair']}{digits[i + 2:]}##"
        if kind == "flip":  # one wrong hexadecimal digit in the proof
            i = 2 * (self.case["dev"]["pos"] % (len(digits) // 2))
            v = (int(digits[i:i + 2]) + 1 + self.case["dev"]["pos"] % 15) % 16
            return f"*#{digits[:i]}{v:02d}{digits[i + 2:]}##"
        if kind == "short":
            return f"*#{digits[:-2]}##"
        if kind == "prefix":
            n = 2 * (1 + self.case["dev"]["pos"] % (len(digits) // 2 - 1))
            return f"*#{digits[:n]}##"
        if kind == "strip":  # without its leading zeros, if it has any
            return f"*#{to_digits(from_digits(digits).lstrip('0'))}##" if digits.startswith("00") else f"*#{digits[2:]}##"
        if kind == "lead":
            return f"*#00{digits}##"
        if kind == "twice":
            return f"*#{digits}*{digits}##"
        if kind == "long":
            return f"*#{digits}00##"
        if kind == "otherpw":
            return f"*#{to_digits(ref_server(mode, self.case['ra'], self.rb, self.case['password'] + '1').hex())}##"
        if kind == "echo":  # the client's own proof sent back
            return f"*#{to_digits(ref_client(mode, self.case['ra'], self.rb, self.case['password']).hex())}##"
        if kind == "swapped":
            return f"*#{to_digits(ref_server(mode, self.rb, self.case['ra'], self.case['password']).hex())}##"
        if kind == "zero":
            return f"*#{'00' * SIZE[mode]}##"
        raise AssertionError(kind)

    def later(self, fn):
        d = self.case["delays"][self.step % len(self.case["delays"])]
        if d:
            self.w.loop.call_later(d, fn)
        else:
            fn()

    def on_write(self, data: bytes):
        self.buf += data.decode("latin1")
        while "##" in self.buf:
            f, _, self.buf = self.buf.partition("##")
            self.frame(f + "##")

    def frame(self, f: str):
        c = self.case
        mode, n = c["mode"], self.step
        self.expected_frames += 1
        dev = c["dev"]
        if dev is not None and n > dev["step"]:
            if dev["kind"] == "unsupported" and n == dev["step"] + 1 and self.expected_frames == 2 and f == "*#*0##":
                return
            self.wrong = self.wrong or f"sent {f} after the handshake had failed"
            return
        if n == 1:
            if f != f"*99*{SESSION_CODE[c['session']]}##":
                self.wrong = f"opened the session with {f}"
            if mode == "none":
                self.accepted = True
                self.reply("*#*1##")
            elif mode == "open":
                self.reply(f"*#{c['nonce']}##")
            else:
                self.reply("*98*1##" if mode == "SHA1" else "*98*2##")
        elif n == 2 and mode == "open":
            want = f"*#{ref_open(int(c['password']), c['nonce'])}##"
            if f != want:
                self.wrong = f"answered nonce {c['nonce']} with {f}, expected {want}"
            self.accepted = True
            self.reply("*#*1##")
        elif n == 2 and mode in SIZE:
            if f != "*#*1##":
                self.wrong = f"accepted the algorithm with {f}"
            self.reply(f"*#{to_digits(c['ra'])}##")
        elif n == 3 and mode in SIZE:
            tags = f[1:-2].split("*")
            rb = from_digits(tags[0][1:]) if len(tags) == 2 and tags[0].startswith("#") and tags[0][1:].isdigit() else None
            proof = from_digits(tags[1]) if len(tags) == 2 and tags[1].isdigit() else None
            if rb is None or proof is None or len(rb) != SIZE[mode]:
                self.wrong = f"sent {f} as key and proof"
                return
            self.rb = rb
            want = ref_client(mode, c["ra"], rb, c["password"]).hex()
            if proof != want:
                self.wrong = f"sent proof {proof}, expected {want}"
            self.reply(f"*#{to_digits(ref_server(mode, c['ra'], rb, c['password']).hex())}##")
        elif n == 4 and mode in SIZE:
            if f != "*#*1##":
                self.wrong = f"confirmed the server proof with {f}"
            self.accepted = True
            self.step += 1
        else:
            self.wrong = self.wrong or f"sent the extra frame {f}"


def c11(case, ctx: Ctx):
    L = lib()
    w = World()
    try:
        gw = Gateway(w, case)
        target = case.get("target", ["192.0.2.1", 20000])
        client = L.Client(*target, case["password"], getattr(L.SessionType, case["session"]), loop=w.loop)
        t = w.task(client.start())
        finished = w.loop.run_to_end(t, 120)
        check(finished, "start() never ends")
        w.loop.advance(10)
        kind, val = outcome(t)
        dev = case["dev"]
        ctx.label(case["mode"])
        ctx.label("no deviation" if dev is None else dev["kind"])
        ctx.mark(dev is not None or case["mode"] != "none")
        check(gw.wrong is None, "the client %s", gw.wrong)
        nframes = {"none": 1, "open": 2, "SHA1": 4, "SHA256": 4}[case["mode"]]
        if dev is None:
            check(kind == "ok", "the gateway completed the handshake but start() ended %s %r", kind, val)
            check(gw.accepted, "start() succeeded before the gateway accepted")
            expect_equal(gw.expected_frames, nframes, "number of frames sent by the client")
            check(not w.transports[0].closing, "the connection was closed")
        else:
            check(kind == "err", "the handshake failed (%r) but start() ended %s", dev, kind)
            check(isinstance(val, (L.exc.InvalidAuthentication, TimeoutError)), "start() raised %r", val)
            want = {"none": dev["step"], "open": dev["step"]}.get(case["mode"], dev["step"])
            if dev["kind"] == "unsupported":
                want += 1
            expect_equal(gw.expected_frames, want, "number of frames sent by the client")
            if dev["kind"] == "silence":
                check(isinstance(val, TimeoutError), "a silent gateway gave %r", val)
            elif dev["kind"] in ("flip", "otherpw", "echo", "zero", "swapped", "unsupported"):
                check(isinstance(val, L.exc.InvalidAuthentication), "%s gave %r", dev["kind"], val)
        expect_equal(len(w.transports), 1, "number of connections")
        expect_equal(w.targets, [target], "host and port connected to")
    finally:
        w.close()


_hexkey = {k: st.one_of(st.text("0123456789abcdef", min_size=n, max_size=n),
                        st.sampled_from(["0" * n, "f" * n, "0" + "a" * (n - 1)])) for k, n in SIZE.items()}
_num_pw = st.one_of(st.sampled_from(["12345", "1", "0", "000123", "4294967295", "99999"]), st.integers(0, 2**32 - 1).map(str))
_any_pw = st.one_of(_num_pw, st.text("abcXYZ019!é ", min_size=1, max_size=12),
                    st.integers(13, 150).flatmap(lambda n: st.text("abcXYZ019!é ", min_size=n, max_size=n)))
_not_numeric = st.builds(lambda a, c, b: a + c + b, st.text("0123456789", max_size=5), st.sampled_from(["abc", "Zq!", "é#?", "*#*", "xyzzy"]),
                         st.text("0123456789abcxyz", max_size=6))
_frames_not_ack = st.sampled_from(["*#*0##", "*1*1*11##", "*#1*12##", "*#13**0##", "*#1*12*1*150*20##", "*#13**#0*1##", "*99*1##",
                                   "*7*9##", "*9*1*1##", "*1*1*11*1##", "*603356072*##", "*#603356072*##", "*603356072*0##", "*99*##"])
_frames_any = st.one_of(st.sampled_from(["*#*1##", "*#*0##", "*1*1*11##", "*#603356072##", "*98*1##", "*98*2##", "*#1*12*1*150*20##", "*99*1##"]),
                        F.well_formed_frame.filter(F.claimed))
_delays = st.one_of(st.just([0]), st.lists(st.sampled_from([0, 0.5, 3, 4.5]), min_size=1, max_size=4))


@st.composite
def handshake(draw):
    mode = draw(st.sampled_from(["none", "open", "SHA1", "SHA256"]))
    case = {
        "mode": mode,
        "session": draw(st.sampled_from(sorted(SESSION_CODE))),
        "password": draw(_num_pw if mode == "open" else _any_pw),
        "nonce": draw(F.digits(1, 12).filter(lambda s: s.strip("0") != "")) if mode == "open" else "",
        "ra": draw(_hexkey[mode]) if mode in SIZE else "",
        "delays": draw(_delays),
        "cuts": draw(st.one_of(st.just([]), st.lists(st.integers(0, 200), max_size=4))),
        "dev": None,
        "target": [draw(st.sampled_from(["192.0.2.1", "10.0.0.35", "gateway.example", "::1"])), draw(st.one_of(st.just(20000), st.integers(1, 65535)))],
    }
    if draw(st.integers(0, 3)) == 0:
        return case
    last = {"none": 1, "open": 2, "SHA1": 3, "SHA256": 3}[mode]
    step = draw(st.integers(0, last))
    kinds = ["frame", "frame", "silence", "drop", "junk"]
    if step == 1:
        kinds += ["near"]
    if step == 1 and mode in SIZE:
        kinds += ["unsupported"] * 2
    if step == 2 and mode in SIZE:
        kinds += ["odd", "big"] * 2
    if step == 3:
        kinds += ["flip", "flip", "odd", "big", "short", "prefix", "long", "otherpw", "echo", "zero", "swapped", "strip", "strip", "strip", "lead", "twice"] * 2
    kind = draw(st.sampled_from(kinds))
    dev = {"step": step, "kind": kind}
    if kind == "frame":
        dev["text"] = draw(_frames_not_ack)
        if step >= 2 and mode in SIZE and draw(st.booleans()):
            # a short key is not judged, a short proof is wrong
            dev["text"] = draw(st.sampled_from(["*#*1##", "*#*1##", "*#1##", "*##" if step == 2 else "*#00##", "*##", "*#*0##", "*#01*01##"]))
        # the right answer may follow the wrong one: too late
        dev["then"] = draw(st.booleans())
    elif kind == "junk":
        dev["kind"] = "frame"
        dev["text"] = draw(st.sampled_from(["garbage##", "*x##", "HTTP/1.1 400\r\n", "1*1##"]))
    elif kind == "near":  # almost the request of an algorithm
        dev["kind"] = "frame"
        dev["text"] = f"*{draw(st.sampled_from(['980', '981', '098', '98#', '98#1', '#98', '9', '8', '89', '99', '97', '198', '']))}*{draw(st.sampled_from(['1', '2']))}##"
        dev["then"] = draw(st.booleans())
    elif kind == "drop":
        dev["err"] = draw(st.booleans())
    elif kind == "unsupported":
        dev["alg"] = draw(st.sampled_from(["0", "3", "9", "12", "21", "11", "22", "01", "02", "", "#1", "1#0", "2#1"]))
    if kind in ("big", "flip", "prefix"):
        dev["pos"] = draw(st.integers(0, 127))
        dev["pair"] = draw(st.sampled_from(["16", "17", "99", "20"]))
    case["dev"] = dev
    return case


def c11_refused(case, ctx: Ctx):
    L = lib()
    w = World()
    try:
        ctx.mark()
        w.connect_error = {
            "refused": ConnectionRefusedError(111, "refused"), "unreach": OSError(113, "no route"), "reset": ConnectionResetError(),
            "gai": socket.gaierror(-2, "unknown"), "timeout": TimeoutError("timed out"), "aborted": ConnectionAbortedError(),
        }[case["error"]]
        client = L.Client("192.0.2.1", 20000, "12345", getattr(L.SessionType, case["session"]), loop=w.loop)
        t = w.task(client.start())
        check(w.loop.run_to_end(t, 120), "start() never ends")
        kind, val = outcome(t)
        check(kind == "err" and isinstance(val, (TimeoutError, L.exc.InvalidAuthentication)),
              "a refused connection (%s) gave %s %r", case["error"], kind, val)
        for c in ("send", "read"):
            t = w.task(client.send_message(L.messages.ACK()) if c == "send" else client.read_message())
            w.loop.run_to_end(t, 60)
            check(isinstance(outcome(t)[1], L.exc.InvalidSession), "%s after a refused connection gave %r", c, outcome(t))
    finally:
        w.close()


def c11_not_numeric(case, ctx: Ctx):
    """The OPEN answer exists for numeric passwords only: any other one fails like a wrong password, without an answer."""
    L = lib()
    w = World()
    try:
        ctx.mark()
        gw = Gateway(w, {**_H, "mode": "open", "password": "0", "nonce": case["nonce"], "ra": "", "session": case["session"]})
        client = L.Client("192.0.2.1", 20000, case["password"], getattr(L.SessionType, case["session"]), loop=w.loop)
        t = w.task(client.start())
        check(w.loop.run_to_end(t, 120), "start() never ends")
        kind, val = outcome(t)
        check(kind == "err" and isinstance(val, (L.exc.InvalidAuthentication, TimeoutError)),
              "OPEN authentication with password %r ended %s %r", case["password"], kind, val)
        expect_equal(gw.expected_frames, 1, "number of frames sent by the client")
        for text in (str(val), repr(val)):
            check(case["password"] not in text, "the error shows the password: %s", text)
    finally:
        w.close()


def c06_session(case, ctx: Ctx):
    """What the gateway sends right behind its last handshake frame is read first, then the rest."""
    L = lib()
    w = World()
    try:
        h = {**case["h"], "dev": None}
        tail = case["frames"] if h["mode"] not in SIZE else []
        gw = Gateway(w, {**h, "tail": "".join(tail)})
        ctx.mark(len(case["frames"]) > 1)
        ctx.label(h["mode"])
        client = L.Client("192.0.2.1", 20000, h["password"], getattr(L.SessionType, h["session"]), loop=w.loop)
        t = w.task(client.start())
        w.loop.run_to_end(t, 120)
        kind, val = outcome(t)
        check(kind == "ok", "the gateway completed the handshake but start() ended %s %r", kind, val)
        w.loop.settle()
        tr = w.transports[0]
        tr.on_write = None
        if not tail:
            tr.feed("".join(case["frames"]))
        tr.feed(case["last"])
        got = []
        for _ in range(len(case["frames"]) + 1):
            t = w.task(client.read_message(timeout=5))
            w.loop.run_to_end(t, 30)
            kind, val = outcome(t)
            check(kind == "ok", "after the handshake %d of %d messages could be read, then %s %r", len(got), len(case["frames"]) + 1, kind, val)
            got.append(val.message)
        expect_equal(got, [*case["frames"], case["last"]], "messages read after the handshake")
        t = w.task(client.read_message(timeout=5))
        w.loop.run_to_end(t, 30)
        check(isinstance(outcome(t)[1], TimeoutError), "a message was invented: %r", outcome(t))
    finally:
        w.close()


def c10_session(case, ctx: Ctx):
    """Client keys of different handshakes are different, for one client started again and for several clients."""
    L = lib()
    ctx.mark()
    ctx.label("restart" if case["restart"] else "several clients")
    w = World()
    try:
        keys = []
        client = None
        for i, ra in enumerate(case["ra"]):
            gw = Gateway(w, {"mode": case["mode"], "session": case["session"], "password": "pw", "nonce": "", "ra": ra, "delays": [0], "cuts": [],
                             "dev": None})
            if client is None or not case["restart"]:
                client = L.Client("192.0.2.1", 20000, "pw", getattr(L.SessionType, case["session"]), loop=w.loop)
            t = w.task(client.start())
            w.loop.run_to_end(t, 60)
            check(outcome(t)[0] == "ok", "handshake %d ended %r", i, outcome(t))
            check(gw.wrong is None, "the client %s", gw.wrong)
            keys.append(gw.rb)
            t = w.task(client.close())
            w.loop.run_to_end(t, 60)
            w.loop.settle()
        check(len(set(keys)) == len(keys), "handshakes used the same client key: %r", keys)
        n = SIZE[case["mode"]]
        for i in range(n):
            if len(keys) > 20:
                check(len({k[i] for k in keys}) > 1, "digit %d of the client key never changes: %r", i, keys[0])
    finally:
        w.close()


_H = {"session": "CommandSession", "delays": [0], "cuts": [], "dev": None}
C11 = Property(
    "C11",
    rule="handshakes with a reference gateway in four authentication modes, with generated keys, nonces, delays, segmentation and "
         "at most one deviation at a generated step; non-trivial: authentication or a deviation",
    facets=[
        Facet("handshake", handshake(), c11, "authentication or a deviation", 3000, 60000, shards=8,
              corpus=[
                  {**_H, "mode": "open", "password": "12345", "nonce": "603356072", "ra": ""},
                  {**_H, "mode": "SHA1", "password": "12345", "nonce": "", "ra": "0123456789abcdef0123456789abcdef01234567"},
                  {**_H, "mode": "SHA256", "password": "pw", "nonce": "", "ra": "0123456789abcdef" * 4},
                  {**_H, "mode": "SHA256", "password": "pw", "nonce": "", "ra": "0123456789abcdef" * 4,
                   "dev": {"step": 3, "kind": "otherpw"}},
                  {**_H, "mode": "SHA1", "password": "pw", "nonce": "", "ra": "0" * 40,
                   "dev": {"step": 1, "kind": "unsupported", "alg": "3"}},
              ]),
        Facet("password", st.fixed_dictionaries({"password": _not_numeric, "nonce": F.digits(1, 12), "session": st.sampled_from(sorted(SESSION_CODE))}),
              c11_not_numeric, "always", 200, 4000, shards=1, corpus=[{"password": "abcde", "nonce": "603356072", "session": "CommandSession"}]),
        Facet("refused", None, c11_refused, "always", shards=1,
              enum=lambda tier: [{"error": e, "session": s} for e in ("refused", "unreach", "reset", "gai", "timeout", "aborted")
                                 for s in SESSION_CODE]),
    ],
    assumptions=["deviations at the algorithm step are not single-tag frames (they would be nonces)",
                 "OPEN passwords are numeric and below 2^32, nonces are not all zeros"],
)

# --------------------------------------------------------------------------- C12

CMD_FRAMES = ["*1*1*11##", "*#1*11##", "*#13**0##", "*#13**#0*10*20*30*000##", "*99*1##", "*#*1##"]


def c12(case, ctx: Ctx):
    L = lib()
    w = World()
    loop = w.loop
    try:
        sess = case["session"]
        is_cmd = sess != "EventSession"

        def on_connect(tr):
            def on_write(data):
                tr.on_write = None
                tr.feed("*#*1##")

            tr.on_write = on_write
            tr.feed("*#*1##")

        w.on_connect = on_connect
        client = L.Client("192.0.2.1", 20000, "12345", getattr(L.SessionType, sess), loop=loop)
        state = "new"
        tr = None
        base = 0
        loops = []
        bad_ops = 0

        def run(coro, limit=30):
            t = w.task(coro)
            loop.run_to_end(t, limit)
            return outcome(t)

        for a in case["ops"]:
            op = a[0]
            before = tr.sent() if tr else b""
            if op == "start":
                if state != "new":
                    continue
                kind, val = run(client.start())
                check(kind == "ok", "start: %s %r", kind, val)
                tr = w.transports[0]
                tr.on_write = None
                state = "open"
                continue
            if op == "close":
                if state == "open":
                    for _ in range(a[1]):  # received but not read
                        tr.feed("*1*1*11##")
                kind, val = run(client.close())
                check(kind == "ok", "close() in state %s: %s %r", state, kind, val)
                if state == "open":
                    state = "closed"
                    loop.settle()
                    check(tr.closing, "close() did not close the connection")
                continue
            if op == "drop":
                continue
            # operations that may be forbidden
            if op == "send":
                ok = is_cmd and state == "open"
                kind, val = run(client.send_message(L.parse_message(CMD_FRAMES[a[1] % len(CMD_FRAMES)])))
            elif op == "item":
                ok = is_cmd and state == "open"
                if ok:
                    tr.on_write = lambda data: tr.feed("*#*1##")
                coro, plain = _item_op(L, client, a[1])
                kind, val = run(coro)
                if tr:
                    tr.on_write = None
                if ok and not plain:
                    check(kind == "err" and isinstance(val, L.exc.ResponseError), "item request %d with no data ended %s %r", a[1], kind, val)
                    continue
            elif op == "read":
                ok = state == "open"
                if ok:
                    tr.feed("*1*1*11##")
                kind, val = run(client.read_message(timeout=a[1]))
            elif op == "loop":
                ok = (not is_cmd) and state == "open"
                t = w.task(client.loop())
                loop.settle()
                kind, val = outcome(t)
                if ok:
                    check(kind == "pending", "the event loop ended %s %r", kind, val)
                    t.cancel()
                    loop.settle()
                    continue
            else:
                continue
            after = tr.sent() if tr else b""
            if ok:
                check(kind == "ok", "%s on an open %s: %s %r", op, sess, kind, val)
            else:
                bad_ops += 1
                check(kind == "err" and isinstance(val, L.exc.InvalidSession),
                      "%s on a %s in state %s ended %s %r, not with the invalid-session error", op, sess, state, kind, val)
                check(after == before, "%s in state %s wrote %r", op, state, after[len(before):])
                expect_equal(len(w.transports), 0 if state == "new" else 1, "number of connections")
        ctx.mark(bad_ops > 0)
        ctx.label(sess)
        ctx.label(f"forbidden ops: {min(bad_ops, 3)}")
        expect_equal(client.is_cmd_session(), is_cmd, "is_cmd_session()")
    finally:
        w.close()


async def _drain(agen):
    async for _ in agen:
        pass


def _item_table(L):
    """Every command, request and custom message of every item class: (class, address, call(item))."""
    from talk import COMMANDS

    V = L.tags.Value
    zero = {"set_brightness_with_speed": (150, 1), "set_hsv": (1, 2, 3), "set_white_temperature": (300,), "temporization_command": (0, 1, 2),
            "display_dial": (1, 2)}
    addr = {"Light": "11", "Dimmer": "12", "Automation": "21", "Camera": "4000"}
    out = [(c, addr[c], lambda i, m=m: getattr(i, m)(*zero.get(m, ()))) for c, m in COMMANDS]
    out += [("Light", "11", lambda i: _drain(i.get_status())), ("Dimmer", "12", lambda i: _drain(i.get_status())),
            ("Automation", "21", lambda i: _drain(i.get_status())), ("Dimmer", "12", lambda i: _drain(i.request_current_hsv())),
            ("Dimmer", "12", lambda i: _drain(i.request_current_white_temperature())),
            ("Dimmer", "12", lambda i: _drain(i.request_current_brightness_speed())),
            ("Light", "11", lambda i: _drain(i.temporization_request())),
            ("Light", "11", lambda i: _drain(i.request_working_time_lamp()))]
    for m, a in (("start_sending_daily_totalizers_hourly", (1, 2)), ("start_sending_monthly_average_hourly", (1,)),
                 ("start_sending_monthly_totalizers_current_year", (1,)), ("start_sending_monthly_totalizers_last_year", (1,)),
                 ("enable_actuator", ()), ("force_actuator_on", ()), ("force_actuator_on", (5,)), ("force_actuator_off", ()),
                 ("reset_totalizers", (1,)), ("start_sending_instant_power", (5,)), ("stop_sending_instant_power", ())):
        out.append(("EnergyManagement", "51", lambda i, m=m, a=a: getattr(i, m)(*a)))
    out += [("StopGo", "11", lambda i: i.enable_automatic_reset()), ("StopGo", "11", lambda i: i.disable_automatic_reset()),
            ("StopGo", "11", lambda i: i.request_status())]
    tz = datetime.timezone.utc
    out += [("Gateway", "", lambda i: i.set_time(datetime.time(1, 2, 3, tzinfo=tz))), ("Gateway", "", lambda i: i.set_date(datetime.date(2024, 2, 29))),
            ("Gateway", "", lambda i: i.set_datetime(datetime.datetime(2024, 2, 29, 1, 2, 3, tzinfo=tz)))]
    for c, w in (*addr.items(), ("EnergyManagement", "51"), ("StopGo", "11"), ("Gateway", "")):
        out += [(c, w, lambda i: i.send_normal_message("1")), (c, w, lambda i: i.send_dimension_writing("2", V(1))),
                (c, w, lambda i: _drain(i.send_status_request())), (c, w, lambda i: _drain(i.send_dimension_request("0")))]
    # requests of one value: refused by an answer without data, so judged only where they must not be sent
    need = [("EnergyManagement", "51", m, a) for m, a in (
        ("get_active_power", ()), ("get_energy_unit_totalizer", ()), ("get_energy_unit_per_month", (1, 24)), ("get_partial_totalizer_current_month", ()),
        ("get_partial_totalizer_current_day", ()), ("get_actuators_info", ()), ("get_totalizers", (1,)), ("get_differential_current_level", ()))]
    need += [("Gateway", "", m, ()) for m in ("get_time", "get_date", "get_datetime", "get_ip", "get_netmask", "get_netinfo", "get_macaddress",
                                              "get_model", "get_firmware", "get_uptime", "get_kernel_version", "get_distribution_version")]
    return out, [(c, w, lambda i, m=m, a=a: getattr(i, m)(*a)) for c, w, m, a in need]


def _item_op(L, client, k):
    """(coroutine, whether a plain ACK completes it)"""
    plain, need = _item_table(L)
    n = k % (len(plain) + len(need))
    c, w, call = (plain + need)[n]
    item = getattr(L.items, c)(client) if c == "Gateway" else getattr(L.items, c)(client, w)
    return call(item), n < len(plain)


def c12_connect(case, ctx: Ctx):
    """close() during start(), after a failed start(), and while a read or the event loop is waiting."""
    L = lib()
    w = World()
    loop = w.loop
    try:
        when = case["when"]
        ctx.mark()
        ctx.label(when)
        sess = case["session"]

        def on_connect(tr):
            def on_write(data):
                tr.on_write = None
                if when == "nack":
                    tr.feed("*#*0##")
                elif when not in ("hang2",):
                    tr.feed("*#*1##")

            tr.on_write = on_write
            if when == "nack1":
                tr.feed("*#*0##")
            elif when != "hang1":
                tr.feed("*#*1##")

        w.on_connect = on_connect
        client = L.Client("192.0.2.1", 20000, "12345", getattr(L.SessionType, sess), loop=loop)
        t = w.task(client.start())
        other = None
        if when in ("hang1", "hang2"):
            loop.advance(case["at"])
            check(not t.done(), "start() ended before the gateway answered: %r", outcome(t) if t.done() else None)
        else:
            loop.run_to_end(t, 60)
            if when in ("nack", "nack1"):
                check(isinstance(outcome(t)[1], L.exc.InvalidAuthentication), "a refused start ended %r", outcome(t))
        tr = w.transports[0]
        if when == "reading":
            other = w.task(client.read_message(timeout=case["limit"]))
        elif when == "looping":
            other = w.task(client.loop() if sess == "EventSession" else client.read_message(timeout=None))
        loop.settle()
        before = tr.sent()
        for _ in range(case["closes"]):
            c = w.task(client.close())
            loop.run_to_end(c, 30)
            kind, val = outcome(c)
            check(kind == "ok", "close() (%s) ended %s %r", when, kind, val)
        loop.settle()
        check(tr.closing, "close() (%s) did not close the connection", when)
        t.cancel()
        if other is not None:
            other.cancel()
        loop.advance(20)
        for op in ("send", "read", "item", "loop"):
            coro = {"send": lambda: client.send_message(L.messages.ACK()), "read": lambda: client.read_message(),
                    "item": lambda: _item_op(L, client, case["item"])[0], "loop": lambda: client.loop()}[op]()
            c = w.task(coro)
            loop.run_to_end(c, 30)
            kind, val = outcome(c)
            check(kind == "err" and isinstance(val, L.exc.InvalidSession), "%s after close() (%s) ended %s %r", op, when, kind, val)
        expect_equal(tr.sent(), before, "bytes written after close()")
        expect_equal(len(w.transports), 1, "number of connections")
    finally:
        w.close()


_ops = st.one_of(
    st.just(["start"]), st.just(["start"]), st.builds(lambda k: ["close", k], st.sampled_from([0, 0, 1, 3])),
    st.builds(lambda k: ["send", k], st.integers(0, 5)),
    st.builds(lambda k: ["item", k], st.integers(0, 400)),
    st.builds(lambda k: ["item", k], st.integers(0, 400)),
    st.builds(lambda k: ["read", k], st.sampled_from([1, 5, 10])),
    st.just(["loop"]),
)
C12 = Property(
    "C12",
    rule="histories of start, close, send, item command, read and loop over the three session types; non-trivial: at least one "
         "operation that must be refused",
    facets=[Facet("history", st.fixed_dictionaries({"session": st.sampled_from(sorted(SESSION_CODE)),
                                                    "ops": st.lists(_ops, min_size=1, max_size=12)}),
                  c12, "an operation that must be refused", 2500, 40000, shards=8,
                  corpus=[{"session": s, "ops": [*pre, ["send", 0], ["item", 0], ["read", 1], ["loop"], ["close", 0], ["close", 0],
                                                 ["send", 0], ["item", 5], ["read", 5], ["loop"]]}
                          for s in SESSION_CODE for pre in ([], [["start"]])]),
            Facet("every_item", None, c12, "always", shards=4,
                  enum=lambda tier: [{"session": s, "ops": [*pre, *[["item", k] for k in range(a, a + 20)]]} for a in range(0, 180, 20)
                                     for s in SESSION_CODE for pre in ([], [["start"]], [["start"], ["close", 0]])]),
            Facet("closing", st.fixed_dictionaries({
                "session": st.sampled_from(sorted(SESSION_CODE)), "when": st.sampled_from(["hang1", "hang2", "nack", "nack1", "reading", "looping", "idle"]),
                "at": st.sampled_from([0, 0.5, 2, 4.5]), "limit": st.sampled_from([None, 1, 5]), "closes": st.integers(1, 3),
                "item": st.integers(0, 400)}), c12_connect, "always", 500, 10000, shards=2)],
)


import pure as _pure
import stream as _stream

_pure.C10.facets.append(Facet(
    "session", st.one_of(*[st.fixed_dictionaries({
        "mode": st.just(m), "session": st.sampled_from(sorted(SESSION_CODE)), "restart": st.booleans(),
        "ra": st.one_of(st.lists(_hexkey[m], min_size=2, max_size=4), _hexkey[m].map(lambda k: [k, k]), _hexkey[m].map(lambda k: [k] * 24))})
        for m in SIZE]),
    c10_session, "always", 150, 3000, shards=2))
_stream.C06.facets.append(Facet(
    "session", st.fixed_dictionaries({"h": handshake(), "frames": st.lists(_frames_any, min_size=0, max_size=5), "last": _frames_any}),
    c06_session, "two or more frames", 400, 10000, shards=2))
