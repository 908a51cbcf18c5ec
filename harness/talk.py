"""A scripted gateway on the other end of a command session, and the reference command table."""
from __future__ import annotations

from core import HarnessError, Violation, check, expect_equal
from sim import outcome
from stream import connect


LOOK = [False]  # let a client look at every message it sends


def look(message) -> None:
    """Everything a program can ask of a message, which must change nothing."""
    text = message.message
    try:
        seen = [type.__call__(str, message), repr(message), hash(message), message.bytes, message.type, message.who, message.where, message == message]
        for t in message.tags:
            seen += [type.__call__(str, t), repr(t), hash(t), t == f"{t}", [t] == [t]]
        for name in ("what", "dimension"):
            if (t := getattr(message, name, None)) is not None:
                seen += [type.__call__(str, t), t.string, t.tag, t.parameters]
    except Exception as e:
        raise Violation(f"looking at the message {text} raised {type(e).__name__}({e})") from e
    expect_equal(message.message, text, "the message after looking at it")


class Gateway:
    """Answers each command with a scripted list of deliveries and records every frame received."""

    def __init__(self, L, session: str = "CommandSession"):
        self.L = L
        self.w, self.client, self.tr = connect(L, session)
        self.loop = self.w.loop
        if LOOK[0]:
            send = self.client.send_message

            async def looking(message, **kw):
                look(message)
                await send(message, **kw)

            self.client.send_message = looking

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.w.close()

    def frames(self) -> list[str]:
        text = self.tr.sent().decode("latin1")
        out = text.split("##")
        check(out[-1] == "", "the client sent an unfinished frame: %r", text)
        return [f + "##" for f in out[:-1]]

    def _play(self, script: list) -> None:
        """script: [(delay, text)], each delivered `delay` seconds after the one before."""
        if not script:
            return
        (delay, text), rest = script[0], script[1:]

        def go():
            self.tr._feed(text.encode())
            self._play(rest)

        if delay:
            self.loop.call_later(delay, go)
        else:
            self.loop.call_soon(go)

    def run(self, coro, scripts: list[list], limit: float = 120.0):
        """Runs one coroutine; the i-th frame it sends is answered by scripts[i].
        Returns (kind, value, frames sent)."""
        self.tr.written.clear()
        pending = list(scripts)

        def on_write(data: bytes):
            for _ in range(data.count(b"##")):
                if pending:
                    self._play(pending.pop(0))

        self.tr.on_write = on_write
        t = self.w.task(coro)
        self.loop.run_to_end(t, limit)
        kind, val = outcome(t)
        return kind, val, self.frames()

    def probe(self, ack: bool, what: str) -> None:
        """The connection is in step: a plain command gets its own answer."""
        kind, val, sent = self.run(self.L.items.Automation(self.client, "42").up(), [[(0, "*#*1##" if ack else "*#*0##")]])
        expect_equal(sent, ["*2*1*42##"], f"frames of the next command {what}")
        if ack:
            check(kind == "ok", "the next command %s was acknowledged but ended %s %r", what, kind, val)
        else:
            check(kind == "err" and isinstance(val, self.L.exc.ResponseError),
                  "the next command %s was refused but ended %s %r", what, kind, val)


async def collect(agen, into: list) -> list:
    async for x in agen:
        into.append(x)
    return into


def cut(text: str, cuts: list[int]) -> list[str]:
    cs = sorted({c % (len(text) + 1) for c in cuts} - {0, len(text)})
    return [text[a:b] for a, b in zip([0, *cs], [*cs, len(text)]) if b > a]


def spread(texts: list[str], delays: list[float], cuts: list[int]) -> list:
    """A script delivering the texts in order, each after its delay and cut into pieces."""
    out = []
    for i, t in enumerate(texts):
        pieces = cut(t, cuts)
        out.append((delays[i % len(delays)], pieces[0]))
        out += [(0, p) for p in pieces[1:]]
    return out


_WHO = {"Light": "1", "Automation": "2", "Camera": "7", "EnergyManagement": "18"}


def make(L, client, cls: str, where: str, form: str):
    """An item, created in one of the ways the library offers."""
    c = getattr(L.items, cls)
    if cls == "Gateway":
        return c(client)
    if form == "str":
        return c(client, where)
    if form == "cached" and cls in _WHO:
        return client.get_item(L.tags.Who(_WHO[cls]), L.tags.Where(where), client=client)
    if form in ("Where", "cached"):
        return c(client, L.tags.Where(where))
    raise HarnessError(form)


# --------------------------------------------------------------------------- the documented frames (WHO 1, 2, 7)

_SIMPLE_LIGHT = {"turn_on_1_min": 11, "turn_on_2_min": 12, "turn_on_3_min": 13, "turn_on_4_min": 14, "turn_on_5_min": 15,
                 "turn_on_15_min": 16, "turn_on_30_min": 17, "turn_on_0_5_sec": 18}
_BLINK = {f"blink_{n}_sec": 20 + i for i, n in enumerate(["0_5", "1_0", "1_5", "2_0", "2_5", "3_0", "3_5", "4_0", "4_5", "5_0"])}
_PERCENT = {f"set_{10 * i}_percent": i for i in range(2, 11)}
_CAMERA = {"free_resources": 9, "zoom_in": 120, "zoom_out": 121, "increase_x_coordinate": 130, "decrease_x_coordinate": 131,
           "increase_y_coordinate": 140, "decrease_y_coordinate": 141, "increase_luminosity": 150, "decrease_luminosity": 151,
           "increase_contrast": 160, "decrease_contrast": 161, "increase_color": 170, "decrease_color": 171,
           "increase_quality": 180, "decrease_quality": 181}


def _opt(*vals):
    return "".join("" if v is None else f"#{v}" for v in vals)


def _updown(code):
    def f(w, value=None, speed=None):
        if speed is not None and value is None:
            value = 1
        return f"*1*{code}{_opt(value, speed)}*{w}##"

    return f


# (class, method) -> function(where, *args) giving the one documented frame
COMMANDS: dict = {}
for _c in ("Light", "Dimmer"):
    for _m, _k in _SIMPLE_LIGHT.items():
        COMMANDS[_c, _m] = lambda w, k=_k: f"*1*{k}*{w}##"
    COMMANDS[_c, "temporization_command"] = lambda w, h, m, s: f"*#1*{w}*#2*{h}*{m}*{s}##"
COMMANDS["Light", "turn_on"] = lambda w: f"*1*1*{w}##"
COMMANDS["Light", "turn_off"] = lambda w: f"*1*0*{w}##"
COMMANDS["Dimmer", "turn_on"] = lambda w, s=None: f"*1*1{_opt(s)}*{w}##"
COMMANDS["Dimmer", "turn_off"] = lambda w, s=None: f"*1*0{_opt(s)}*{w}##"
for _m, _k in _BLINK.items():
    COMMANDS["Light", _m] = lambda w, k=_k: f"*1*{k}*{w}##"
for _m, _k in _PERCENT.items():
    COMMANDS["Dimmer", _m] = lambda w, k=_k: f"*1*{k}*{w}##"
COMMANDS["Dimmer", "up_percent"] = _updown(30)
COMMANDS["Dimmer", "down_percent"] = _updown(31)
COMMANDS["Dimmer", "set_brightness_with_speed"] = lambda w, b, s: f"*#1*{w}*#1*{b}*{s}##"
COMMANDS["Dimmer", "set_hsv"] = lambda w, h, s, v: f"*#1*{w}*#12*{h}*{s}*{v}##"
COMMANDS["Dimmer", "set_white_temperature"] = lambda w, t: f"*#1*{w}*#14*{t}##"
COMMANDS["Automation", "stop"] = lambda w: f"*2*0*{w}##"
COMMANDS["Automation", "up"] = lambda w: f"*2*1*{w}##"
COMMANDS["Automation", "down"] = lambda w: f"*2*2*{w}##"
COMMANDS["Camera", "receive_video"] = lambda w: f"*7*0*{w}##"
for _m, _k in _CAMERA.items():
    COMMANDS["Camera", _m] = lambda w, k=_k: f"*7*{k}##"
COMMANDS["Camera", "display_dial"] = lambda w, x, y: f"*7*3{x}{y}##"
