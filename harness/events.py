"""C20-C25: the event loop, its callbacks and the item cache."""
from __future__ import annotations

import asyncio
import datetime as dt
import gc
import json

from hypothesis import strategies as st

import frames as F
from core import Ctx, Facet, HarnessError, Violation, check, expect_equal, fresh_lib, lib
from devices import FIELDS, INFO, KNOWN_MODELS, _date_fields, _tz_text, energy_where, mask_fields
from registry_types import Property
from sim import World, outcome
from stream import C27, connect

# --------------------------------------------------------------------------- plain views of callback arguments


def plain(x):
    """A JSON-able view of a callback argument."""
    if x is None or isinstance(x, (bool, int, float)):
        return x
    n = type(x).__name__
    if isinstance(x, dt.datetime):
        return ["datetime", x.replace(tzinfo=None).isoformat(), None if x.utcoffset() is None else x.utcoffset().total_seconds()]
    if isinstance(x, dt.date):
        return ["date", x.isoformat()]
    if isinstance(x, dt.time):
        return ["time", x.replace(tzinfo=None).isoformat(), None if x.utcoffset() is None else x.utcoffset().total_seconds()]
    if isinstance(x, dt.timedelta):
        return ["timedelta", x.total_seconds()]
    if n in ("WhatAutomation", "WhatCamera", "GatewayModel"):
        return [n, str(x.value)]
    if n == "StopGoStatus":
        return [n, {f: getattr(x, f) for f in FIELDS}]
    if n == "ActuatorStatus":
        return [n, [x.disabled, x.forcing, x.threshold, x.protection, x.phase, x.advanced]]
    if n == "IPv4Address":
        return [n, str(x)]
    if isinstance(x, str):
        return ["str", str(x)]
    if hasattr(x, "message"):
        return ["message", x.message]
    return [n, repr(x)]


# --------------------------------------------------------------------------- the supported events

_n = st.one_of(st.integers(0, 255), st.sampled_from([0, 1, 100, 200, 359, 360]), st.integers(0, 70000))
_addr = st.one_of(st.sampled_from(["11", "12", "0110", "0", "00", "#1", "11#4#01", "11#4#00", "5"]), F.where_text.filter(lambda s: s != ""))
_nums = lambda k: st.lists(st.one_of(_n.map(str), st.sampled_from(["007", "0"])), min_size=k, max_size=k)  # noqa: E731
_amount = st.one_of(st.integers(0, 4_000_000).map(str), st.sampled_from(["0", "00", "000", "00012", "16777217", "2147483648", "4294967297", "123456789012",
                                                                         "9007199254740993"]))


def _light_what():
    base = st.one_of(st.sampled_from(["0", "1", "0", "1", "10", "100"]), st.integers(2, 18).map(str), st.integers(20, 31).map(str))
    par = st.one_of(st.just(""), st.just(""), st.integers(0, 255).map(lambda v: f"#{v}"), st.tuples(_n, _n).map(lambda t: f"#{t[0]}#{t[1]}"))
    cmd = st.builds(lambda b, p: b + p, base.filter(lambda b: b != "100"), par)
    return st.one_of(cmd, cmd, cmd.map(lambda c: "1000#" + c))


def _is_on(what: str) -> bool:
    parts = what.split("#")
    cmd = parts[1] if parts[0] == "1000" else parts[0]
    return cmd != "0"


class Kind:
    def __init__(self, family, item, register, where, params, frame, args, vias=(None,)):
        self.family = family  # class name in pyown.items used for registration
        self.item = item  # class name of the item
        self.register = register  # (L, via, callback)
        self.where = where
        self.params = params
        self.frame = frame  # (where, p) -> text
        self.args = args  # (where, p) -> plain args
        self.vias = vias


def _on(method):
    return lambda L, via, cb: getattr(getattr(L.items, via), method)(cb)


KINDS: dict[str, Kind] = {}
_LV = ("Light", "Dimmer")
KINDS["light.status"] = Kind("light", "Light", _on("on_status_change"), _addr, _light_what(), lambda w, p: f"*1*{p}*{w}##",
                             lambda w, p: [_is_on(p)], _LV)
KINDS["light.level"] = Kind("light", "Light", _on("on_luminosity_change"), _addr, _nums(2), lambda w, p: f"*#1*{w}*1*{'*'.join(p)}##",
                            lambda w, p: [int(x) for x in p], ("Dimmer",))
KINDS["light.timer"] = Kind("light", "Light", _on("on_temporization_change"), _addr, _nums(3), lambda w, p: f"*#1*{w}*2*{'*'.join(p)}##",
                            lambda w, p: [int(x) for x in p], _LV)
KINDS["light.hsv"] = Kind("light", "Light", _on("on_hsv_change"), _addr, _nums(3), lambda w, p: f"*#1*{w}*12*{'*'.join(p)}##",
                          lambda w, p: [int(x) for x in p], ("Dimmer",))
KINDS["light.white"] = Kind("light", "Light", _on("on_white_temp_change"), _addr, _nums(1), lambda w, p: f"*#1*{w}*14*{p[0]}##",
                            lambda w, p: [int(p[0])], ("Dimmer",))
KINDS["automation"] = Kind("automation", "Automation", _on("on_status_change"), _addr, st.sampled_from("012"), lambda w, p: f"*2*{p}*{w}##",
                           lambda w, p: [["WhatAutomation", p]], ("Automation",))
CAMERA_WHATS = ["0", "9", "120", "121", "130", "131", "140", "141", "150", "151", "160", "161", "170", "171", "180", "181"] + [
    f"3{x}{y}" for x in "1234" for y in "1234"]
KINDS["camera"] = Kind("camera", "Camera", _on("on_status_change"), st.one_of(st.integers(4000, 4099).map(str), _addr),
                       st.sampled_from(CAMERA_WHATS), lambda w, p: f"*7*{p}*{w}##",
                       lambda w, p: [["WhatCamera", p], ["message", f"*7*{p}*{w}##"]], ("Camera",))

# gateway: params [writing?, values]
_GW = {
    "TIME": ("0", st.builds(lambda h, m, s, z: [f"{h:02d}", f"{m:02d}", f"{s:02d}", "" if z is None else _tz_text(z)], st.integers(0, 23),
                            st.integers(0, 59), st.integers(0, 59), st.one_of(st.none(), st.integers(-23, 23))),
             lambda v: ["time", f"{v[0]}:{v[1]}:{v[2]}", _tzsec(v[3])]),
    "DATE": ("1", st.dates(dt.date(1000, 1, 1)).map(lambda d: _date_fields(d.year, d.month, d.day)),
             lambda v: ["date", f"{v[3]}-{v[2]}-{v[1]}"]),
    "DATE_TIME": ("22", st.builds(lambda h, m, s, z, d: [f"{h:02d}", f"{m:02d}", f"{s:02d}", "" if z is None else _tz_text(z),
                                                        *_date_fields(d.year, d.month, d.day)], st.integers(0, 23), st.integers(0, 59),
                                  st.integers(0, 59), st.one_of(st.none(), st.integers(-23, 23)), st.dates(dt.date(1000, 1, 1))),
                  lambda v: ["datetime", f"{v[7]}-{v[6]}-{v[5]}T{v[0]}:{v[1]}:{v[2]}", _tzsec(v[3])]),
    "IP_ADDRESS": ("10", INFO["ip"][2], lambda v: ["IPv4Address", INFO["ip"][3](v)]),
    "NET_MASK": ("11", INFO["netmask"][2], lambda v: ["str", INFO["netmask"][3](v)]),
    "MAC_ADDRESS": ("12", INFO["mac"][2], lambda v: ["str", INFO["mac"][3](v)]),
    "DEVICE_TYPE": ("15", INFO["model"][2], lambda v: ["GatewayModel", INFO["model"][3](v)]),
    "FIRMWARE_VERSION": ("16", INFO["firmware"][2], lambda v: ["str", INFO["firmware"][3](v)]),
    "UPTIME": ("19", INFO["uptime"][2], lambda v: ["timedelta", INFO["uptime"][3](v)]),
    "KERNEL_VERSION": ("23", INFO["kernel"][2], lambda v: ["str", INFO["kernel"][3](v)]),
    "DISTRIBUTION_VERSION": ("24", INFO["distribution"][2], lambda v: ["str", INFO["distribution"][3](v)]),
}


def _tzsec(t: str) -> float:
    return 0.0 if t == "" else (1 if t[0] == "0" else -1) * int(t[1:]) * 3600.0


def _gw_register(name):
    return lambda L, via, cb: L.items.Gateway.register_callback(L.items.gateway.WhatGateway[name], cb)


for _name, (_dim, _vals, _dec) in _GW.items():
    KINDS[f"gateway.{_name}"] = Kind(
        "gateway", "Gateway", _gw_register(_name), st.just(""), st.builds(lambda wr, v: [wr, v], st.booleans(), _vals),
        lambda w, p, d=_dim: f"*#13**{'#' if p[0] else ''}{d}*{'*'.join(p[1])}##", lambda w, p, f=_dec: [f(p[1])])

_EV = ("EnergyManagement", "EnergyManagement", "StopGo")
_mo, _da = st.integers(1, 12).map(str), st.integers(1, 31).map(str)


def _energy(name, method, params, frame, args):
    KINDS[f"energy.{name}"] = Kind("energy", "EnergyManagement", _on(method), energy_where, params, frame, args, _EV)


_energy("daily", "on_daily_totalizers_hourly", st.tuples(_mo, _da, st.integers(1, 25).map(str), _amount).map(list),
        lambda w, p: f"*#18*{w}*511#{p[0]}#{p[1]}*{p[2]}*{p[3]}##", lambda w, p: [int(p[1]), int(p[0]), int(p[2]), float(p[3])])
_energy("monthly_avg", "on_monthly_average_hourly", st.tuples(_mo, st.integers(1, 25).map(str), _amount).map(list),
        lambda w, p: f"*#18*{w}*512#{p[0]}*{p[1]}*{p[2]}##", lambda w, p: [int(p[0]), int(p[1]), float(p[2])])
_energy("this_year", "on_monthly_totalizers_current_year", st.tuples(_mo, _da, _amount).map(list),
        lambda w, p: f"*#18*{w}*513#{p[0]}*{p[1]}*{p[2]}##", lambda w, p: [int(p[0]), int(p[1]), float(p[2])])
_energy("last_year", "on_monthly_totalizers_last_year", st.tuples(_mo, _da, _amount).map(list),
        lambda w, p: f"*#18*{w}*514#{p[0]}*{p[1]}*{p[2]}##", lambda w, p: [int(p[0]), int(p[1]), float(p[2])])
_energy("stop_go", "on_stop_go_status", st.text("01", min_size=13, max_size=13), lambda w, p: f"*#18*{w}*250*{p}##",
        lambda w, p: [["StopGoStatus", mask_fields(p)]])
for _k, _m, _d in (("power", "on_instant_power", "113"), ("unit", "on_energy_unit_totalizer", "51"),
                   ("this_month", "on_partial_totalizer_current_month", "53"), ("today", "on_partial_totalizer_current_day", "54")):
    _energy(_k, _m, _amount, lambda w, p, d=_d: f"*#18*{w}*{d}*{p}##", lambda w, p: [float(p)])
_energy("per_month", "on_energy_unit_per_month", st.tuples(st.one_of(st.integers(0, 99), st.integers(100, 2099)).map(str), _mo, _amount).map(list),
        lambda w, p: f"*#18*{w}*52#{p[0]}#{p[1]}*{p[2]}##", lambda w, p: [int(p[1]), int(p[0]), float(p[2])])
_energy("actuator", "on_actuators_info", st.tuples(*[st.sampled_from("01")] * 5, st.sampled_from("12")).map(list),
        lambda w, p: f"*#18*{w}*71*{'*'.join(p)}##", lambda w, p: [["ActuatorStatus", [x == "1" for x in p]]])
_energy("totalizer", "on_totalizer_since_reset",
        st.builds(lambda n, e, d, h, mi: [n, e, f"{d.day:02d}", f"{d.month:02d}", f"{d.year:04d}", f"{h:02d}", f"{mi:02d}"], st.one_of(st.sampled_from("12"), F.digits(1, 3)),
                  _amount, st.dates(dt.date(1970, 1, 1), dt.date(2099, 12, 31)), st.integers(0, 23), st.integers(0, 59)),
        lambda w, p: f"*#18*{w}*72#{p[0]}*{'*'.join(p[1:])}##",
        lambda w, p: [int(p[0]), ["datetime", f"{p[4]}-{p[3]}-{p[2]}T{p[5]}:{p[6]}:00", None], float(p[1])])
_energy("level", "on_differential_current_level", st.one_of(st.sampled_from("123"), F.digits(1, 4)), lambda w, p: f"*#18*{w}*73*{p}##", lambda w, p: [int(p)])

FAMILIES = ["light", "automation", "camera", "gateway", "energy"]
BY_FAMILY = {f: sorted(k for k, v in KINDS.items() if v.family == f) for f in FAMILIES}

# frames that reach no callback at all
QUIET = ["*#*1##", "*#*0##", "*9*1*1##", "*4*1*1##", "*#4*1*0*0200##", "*3*1*11##", "*#1*11*8*100##", "*#1*11*3*7##", "*#18*51*1200*1##",
         "*#18*11*251*1##", "*99*1##", "*7*9##", "*1001*1*11##", "*0*1*11##", "*25*21#1*22##", "*2*20*11##", "*2*91*11##", "*2*3*11##", "*2*7*12##", "*7*1*4001##", "*7*345*4001##"]


def same_args(got, want) -> bool:
    if isinstance(want, list) and want and want[0] == "str" and isinstance(got, list) and got and got[0] == "str":
        return str(got[1]).lower() == want[1].lower()  # the case of a MAC address is free
    return got == want


class Recorder:
    """Registers callbacks on a fresh library and records every call."""

    def __init__(self, L, world_loop, regs: list):
        """regs: [[kind, via index, behaviour, (from which event on)]]; behaviour: 'ok' | 'sleep' | 'raise:..' """
        self.L = L
        self.loop = world_loop
        self.regs = regs
        self.calls: list[list] = [[] for _ in regs]
        self.hooks: dict[int, object] = {}
        self.order: list = []
        self.register(0)

    def register(self, at: int) -> None:
        """Registers the callbacks that come before event number `at`."""
        for i, (kind, via, beh, *start) in enumerate(self.regs):
            if (start[0] if start else 0) == at:
                k = KINDS[kind]
                k.register(self.L, k.vias[via % len(k.vias)], self._callback(i, beh))

    def _callback(self, i, beh):
        def at_once(*args):
            """Raises when it is called, before there is anything to await, like a callback with other parameters than the event's."""
            self.calls[i].append(args)
            self.order.append(i)
            if i in self.hooks:
                self.hooks[i]()
            raise RAISES[beh.partition(":")[2]](self.L)

        async def cb(*args):
            self.calls[i].append(args)
            self.order.append(i)
            if i in self.hooks:
                await self.hooks[i]()
            if beh == "sleep":
                await asyncio.sleep(3)
            elif beh == "yield":
                await asyncio.sleep(0)
            elif beh.startswith("raise"):
                raise RAISES[beh.partition(":")[2]](self.L)
            elif beh.startswith("late"):
                await asyncio.sleep(0.5)
                raise RAISES[beh.partition(":")[2]](self.L)

        return at_once if beh.startswith("call") else cb

    def view(self, i) -> list:
        return [[type(c[0]).__name__, str(c[0].where), [plain(a) for a in c[1:]]] if c else ["?", "?", []] for c in self.calls[i]]


RAISES = {
    "value": lambda L: ValueError("callback"), "key": lambda L: KeyError("callback"), "cancel": lambda L: asyncio.CancelledError(),
    "timeout": lambda L: TimeoutError(), "session": lambda L: L.exc.InvalidSession("x"), "tag": lambda L: L.exc.InvalidTag("x"),
    "message": lambda L: L.exc.InvalidMessage("x"), "parse": lambda L: L.exc.ParseError(["1"], "x"), "conn": lambda L: ConnectionResetError(),
    "stop": lambda L: StopAsyncIteration(), "resp": lambda L: L.exc.ResponseError("x"), "zero": lambda L: ZeroDivisionError(),
    "assert": lambda L: AssertionError(), "eof": lambda L: EOFError(), "invalidstate": lambda L: asyncio.InvalidStateError(),
}


def expected(regs, i, events) -> list:
    kind = regs[i][0]
    start = regs[i][3] if len(regs[i]) > 3 else 0
    k = KINDS[kind]
    return [[k.item, w, k.args(w, p)] for kk, w, p in events[start:] if kk == kind]


def compare(rec: Recorder, i: int, want: list, frames: list[str]) -> None:
    got = rec.view(i)
    kind = rec.regs[i][0]
    ok = len(got) == len(want) and all(
        g[0] == w[0] and g[1] == w[1] and len(g[2]) == len(w[2]) and all(same_args(a, b) for a, b in zip(g[2], w[2]))
        for g, w in zip(got, want))
    if not ok:
        j = next((j for j, (g, w) in enumerate(zip(got, want)) if not (g[:2] == w[:2] and len(g[2]) == len(w[2]) and all(
            same_args(a, b) for a, b in zip(g[2], w[2])))), min(len(got), len(want)))
        raise Violation(f"{kind} callback: {len(got)} calls, expected {len(want)}; call {j} is "
                        f"{got[j] if j < len(got) else None}, expected {want[j] if j < len(want) else None}; frames {frames}")


# --------------------------------------------------------------------------- C20, C21, C22


def _event(kinds):
    return st.sampled_from(kinds).flatmap(lambda k: st.tuples(st.just(k), KINDS[k].where, KINDS[k].params)).map(list)


def _reg(kinds):
    return st.tuples(st.sampled_from(kinds), st.integers(0, 2), st.sampled_from(["ok", "ok", "sleep", "yield"])).map(list)


def family_case(families):
    own = [k for f in families for k in BY_FAMILY[f]]
    other = [k for f in FAMILIES if f not in families for k in BY_FAMILY[f]]
    big = own if len(own) < 8 else [*own, *own]

    @st.composite
    def build(draw):
        focus = draw(st.lists(st.sampled_from(own), min_size=1, max_size=4, unique=True))
        pool = draw(st.sampled_from([own, focus, focus]))
        regs = draw(st.lists(_reg(focus), min_size=1, max_size=6)) + draw(st.lists(_reg([*own, *other]), max_size=4))
        events = draw(st.lists(st.one_of(_event(focus), _event(focus), _event(pool), _event(other).map(lambda e: e),
                                         st.sampled_from(QUIET).map(lambda q: ["quiet", "", q])), min_size=1, max_size=8))
        if draw(st.booleans()):
            # several events for few addresses
            k = [e for e in events if e[0] != "quiet"]
            for e in events[1:]:
                if e[0] != "quiet" and k and KINDS[e[0]].family == KINDS[k[0][0]].family and draw(st.booleans()):
                    e[1] = k[0][1]
        late, together = draw(st.booleans()), draw(st.booleans())
        if not late and not together and len(events) > 1 and draw(st.booleans()):
            for r in regs:
                if draw(st.integers(0, 3)) == 0:
                    r.append(draw(st.integers(1, len(events) - 1)))
        return {"regs": regs, "events": events, "late": late, "together": together, "cmd": draw(st.booleans()),
                "gap": draw(st.sampled_from([0, 0, 0, 1, 1, 5, 5, 4000]))}

    return build()


def family_check(families):
    own_items = {KINDS[k].item for f in families for k in BY_FAMILY[f]}

    def fn(case, ctx: Ctx):
        L = fresh_lib()
        w, client, tr = connect(L, "EventSession")
        try:
            rec = Recorder(L, w.loop, case["regs"])
            events = case["events"]
            frames = [e[2] if e[0] == "quiet" else KINDS[e[0]].frame(e[1], e[2]) for e in case["events"]]
            cmd = None
            if case["cmd"]:
                cmd = L.Client("127.0.0.1", 20000, "12345", L.SessionType.CommandSession, loop=w.loop)
            t = None
            if not case["late"]:
                t = w.task(client.loop(client=cmd) if cmd else client.loop())
            if case["together"]:
                tr.feed("".join(frames))
            else:
                for j, f in enumerate(frames):
                    if j and any(r[3:] == [j] for r in case["regs"]):
                        # a callback registered while events are being received gets the later ones
                        w.loop.settle()
                        rec.register(j)
                        ctx.label("registered later")
                    tr.feed(f)
                    if case["gap"]:
                        w.loop.advance(case["gap"])
            w.loop.settle()
            if t is None:
                t = w.task(client.loop(client=cmd) if cmd else client.loop())
            w.loop.advance(20)
            kind, val = outcome(t)
            check(kind == "pending", "the event loop ended %s %r after %s", kind, val, frames)
            nt = 0
            for i, (kd, *_) in enumerate(case["regs"]):
                if KINDS[kd].family in families:
                    want = expected(case["regs"], i, events)
                    compare(rec, i, want, frames)
                    nt += len(want)
                    if want:
                        ctx.label(kd)
                else:
                    for c in rec.view(i):
                        check(c[0] not in own_items, "%s callback was called with %r by %s", kd, c, frames)
            ctx.mark(nt > 0)
        finally:
            w.close()

    return fn


def many_case(families):
    """Long histories: the same few events over many addresses, or over one."""
    own = [k for f in families for k in BY_FAMILY[f]]

    @st.composite
    def build(draw):
        pattern = draw(st.lists(_event(own), min_size=1, max_size=5))
        copies = draw(st.sampled_from([1, 1, 2, 15, 100, 200]))
        return {"pattern": pattern[:1] if copies > 15 else pattern, "repeat": draw(st.sampled_from([60, 150, 300])) if copies < 16 else 4, "spread": draw(st.booleans()),
                "size": draw(st.sampled_from([100, 1448, 100000])), "noise": draw(st.booleans()),
                "beh": draw(st.sampled_from(["ok", "yield", "sleep", "late:value"])), "copies": copies}

    return build()


def many_check(case, ctx: Ctx):
    L = fresh_lib()
    w, client, tr = connect(L, "EventSession")
    try:
        kinds = sorted({e[0] for e in case["pattern"]})
        regs = [[k, c, case["beh"]] for k in kinds for c in range(case["copies"])]
        rec = Recorder(L, w.loop, regs)
        events = []
        for r in range(case["repeat"]):
            for k, where, p in case["pattern"]:
                if case["spread"]:
                    fam = KINDS[k].family
                    where = {"light": f"{r + 1}", "automation": f"{r + 1}", "camera": f"{4000 + r}", "gateway": "", "energy": f"5{r % 255 + 1}"}[fam]
                events.append([k, where, p])
                if case["noise"]:
                    events.append(["quiet", "", QUIET[r % len(QUIET)]])
        frames = [e[2] if e[0] == "quiet" else KINDS[e[0]].frame(e[1], e[2]) for e in events]
        ctx.mark()
        ctx.label(f"{len(events) // 100 * 100}+ events")
        t = w.task(client.loop())
        w.loop.settle()
        data = "".join(frames)
        for i in range(0, len(data), case["size"]):
            tr.feed(data[i:i + case["size"]])
            w.loop.settle(300_000)
        w.loop.advance(20)
        check(outcome(t)[0] == "pending", "the event loop ended %r", outcome(t))
        for i in range(len(regs)):
            compare(rec, i, expected(regs, i, events), [f"{len(frames)} frames", *frames[:3]])
    finally:
        w.close()


def _kind_corpus(families, examples):
    out = []
    for kind, w, p in examples:
        out.append({"regs": [[k, 0, "ok"] for f in families for k in BY_FAMILY[f]] + [[kind, 1, "sleep"], [kind, 2, "ok"]],
                    "events": [[kind, w, p], ["quiet", "", "*#*1##"], [kind, w, p]], "late": False, "together": True, "cmd": False, "gap": 0})
    return out


_light_examples = [["light.status", "11", x] for x in ("0", "1", "10", "1000#0", "1000#1", "0#20", "30#5")] + [
    ["light.level", "11", ["150", "20"]], ["light.timer", "11", ["1", "2", "3"]], ["light.hsv", "11", ["359", "100", "50"]],
    ["light.white", "11", ["153"]]]
_dev_examples = [["automation", "21", x] for x in "012"] + [["camera", "4001", x] for x in CAMERA_WHATS] + [
    ["gateway.TIME", "", [False, ["10", "20", "30", "101"]]], ["gateway.TIME", "", [True, ["10", "20", "30", "001"]]],
    ["gateway.DATE", "", [False, ["04", "29", "02", "2024"]]], ["gateway.DATE_TIME", "", [True, ["10", "20", "30", "005", "04", "29", "02", "2024"]]],
    ["gateway.IP_ADDRESS", "", [False, ["192", "168", "1", "35"]]], ["gateway.NET_MASK", "", [False, ["255", "255", "255", "0"]]],
    ["gateway.MAC_ADDRESS", "", [False, ["0", "3", "80", "10", "255", "171"]]], ["gateway.DEVICE_TYPE", "", [False, ["200"]]],
    ["gateway.FIRMWARE_VERSION", "", [False, ["3", "0", "14"]]], ["gateway.UPTIME", "", [False, ["10", "20", "30", "40"]]],
    ["gateway.KERNEL_VERSION", "", [False, ["2", "3", "8"]]], ["gateway.DISTRIBUTION_VERSION", "", [False, ["0", "4", "13"]]]]
_energy_examples = [["energy.daily", "51", ["2", "29", "25", "1234"]], ["energy.monthly_avg", "51", ["2", "7", "8"]],
                    ["energy.this_year", "51", ["2", "29", "77"]], ["energy.last_year", "71#0", ["12", "31", "77"]],
                    ["energy.stop_go", "11", "0000000000001"], ["energy.power", "51", "300"], ["energy.unit", "51", "5"],
                    ["energy.this_month", "51", "6"], ["energy.today", "51", "7"], ["energy.per_month", "51", ["21", "2", "9"]],
                    ["energy.actuator", "71#0", ["1", "0", "1", "0", "1", "2"]],
                    ["energy.totalizer", "51", ["2", "500", "29", "02", "2024", "10", "20"]], ["energy.level", "71#0", "3"]]


def _prop(pid, families, examples, q=900, t=20000):
    return Property(
        pid,
        rule="up to 8 events (own family, other families, unsupported) to up to 10 callbacks on one event session; non-trivial: at least one "
             "expected callback call of this property's families",
        facets=[Facet("dispatch", family_case(families), family_check(families), "an expected callback call", q, t, shards=8,
                      corpus=_kind_corpus(families, examples)),
                Facet("many", many_case(families), many_check, "always", 24, 400, shards=8)],
        assumptions=["callbacks are coroutine functions taking the documented arguments", "each case uses a fresh import of the library"],
    )


C20 = _prop("C20", ["light"], _light_examples)
C21 = _prop("C21", ["automation", "camera", "gateway"], _dev_examples)
C22 = _prop("C22", ["energy"], _energy_examples)

# --------------------------------------------------------------------------- C23

_vals_any = st.lists(st.one_of(st.just(""), F.number, st.sampled_from(["#", "1#2", "999999", "0000000000001", "13", "99"])), max_size=9)
_dims_any = st.one_of(st.sampled_from(["1", "2", "12", "14", "0", "22", "10", "11", "15", "16", "19", "23", "24", "113", "51", "52", "52#1",
                                       "53", "54", "71", "72", "72#1", "73", "250", "251", "511", "511#1", "511#1#2", "512", "513#", "514",
                                       "1200#1", "3", "77", "1#2#3"]), F.dim_text)
# the right number of values, each far out of its range
_extreme = st.sampled_from(["1", "0", "13", "32", "61", "256", "4294967296", "9" * 12, "9" * 25, "9" * 320, "9" * 5000])
_sup_who = st.sampled_from(["1", "2", "7", "13", "18"])
_noise_addr = st.one_of(_addr, energy_where, st.just(""), st.sampled_from(["7", "71", "1", "5", "#", "7#0"]), F.where_text)


def _fix(f: str) -> str | None:
    return f if F.well_formed(f) and F.claimed(f) else None


def _damage(frame: str, op: str, i: int, x: str) -> str:
    """An event frame with one value replaced, emptied, doubled, removed or added."""
    parts = frame[:-2].split("*")
    at = max(3, len(parts) - 1 - i % max(1, len(parts) - 4)) if len(parts) > 4 else len(parts) - 1
    if op == "put":
        parts[at] = x
    elif op == "double":
        parts.insert(at, parts[at])
    elif op == "drop" and len(parts) > 4:
        del parts[at]
    elif op == "add":
        parts.append(x)
    return "*".join(parts) + "##"


damaged = st.builds(_damage, _event(sorted(KINDS)).map(lambda e: KINDS[e[0]].frame(e[1], e[2])),
                    st.sampled_from(["put", "put", "put", "double", "drop", "add"]), st.integers(0, 7), st.one_of(_extreme, st.just("")))

noise = st.one_of(
    damaged,
    st.builds(lambda w, d, v, h, a: f"*#{w}*{a}*{h}{d}{''.join('*' + x for x in v)}##", _sup_who, _dims_any, _vals_any,
              st.sampled_from(["", "", "", "#"]), _noise_addr),
    st.builds(lambda w, x, a: f"*{w}*{x}*{a}##", _sup_who, st.one_of(F.what_text, st.sampled_from(["1000", "1000#", "1000#0", "3", "99"])),
              _noise_addr),
    st.builds(lambda w, a: f"*#{w}*{a}##", _sup_who, _noise_addr),
    st.builds(lambda w, d, v, h: f"*#{w}*{'51' if w == '18' else '' if w == '13' else '11'}*{h}{d}{''.join('*' + x for x in v)}##", _sup_who, _dims_any,
              st.lists(_extreme, min_size=1, max_size=8), st.sampled_from(["", "", "", "#"])),
    F.well_formed_frame,
    st.sampled_from(QUIET),
    _event(sorted(KINDS)).map(lambda e: KINDS[e[0]].frame(e[1], e[2])),
).filter(lambda f: _fix(f) is not None)

_SENTINEL = {"light": ["light.status", "11", "0"], "automation": ["automation", "21", "1"], "camera": ["camera", "4001", "120"],
             "gateway": ["gateway.DATE", "", [False, ["04", "29", "02", "2024"]]], "energy": ["energy.power", "51", "300"]}
_beh = st.one_of(st.just("ok"), st.just("ok"), st.sampled_from(["sleep", "yield"]),
                 st.sampled_from(sorted(RAISES)).map(lambda r: "raise:" + r), st.sampled_from(sorted(RAISES)).map(lambda r: "late:" + r),
                 st.sampled_from(sorted(RAISES)).map(lambda r: "call:" + r))


@st.composite
def c23_case(draw):
    kinds = sorted({e[0] for e in _SENTINEL.values()})
    regs = draw(st.lists(st.tuples(st.sampled_from([*kinds, *kinds, *sorted(KINDS)]), st.integers(0, 2), _beh).map(list), min_size=1, max_size=7))
    steps = draw(st.lists(st.one_of(noise.map(lambda f: ["noise", f]), noise.map(lambda f: ["noise", f]),
                                    st.sampled_from(FAMILIES).map(lambda f: ["event", f])), min_size=1, max_size=10))
    return {"regs": regs, "steps": steps, "chunk": draw(st.sampled_from(["one", "one", "all"])), "gap": draw(st.sampled_from([0, 0, 0, 1, 1, 4000]))}


def c23(case, ctx: Ctx):
    L = fresh_lib()
    w, client, tr = connect(L, "EventSession")
    try:
        rec = Recorder(L, w.loop, case["regs"])
        t = w.task(client.loop())
        w.loop.settle()
        raising = any(r[2].startswith(("raise", "late", "call")) for r in case["regs"])
        noisy = any(s[0] == "noise" for s in case["steps"])
        ctx.label("noise" if noisy else "no noise")
        ctx.label("raising callback" if raising else "no raising callback")
        ctx.mark(noisy or raising)

        def alive(after):
            kind, val = outcome(t)
            check(kind == "pending", "the event loop ended %s %r after %s", kind, val, after)
            check(not tr.closing, "the connection was closed after %s (%r)", after, tr.data_errors)

        def sentinel(fams, after):
            base = [len(c) for c in rec.calls]
            evs = [_SENTINEL[f] for f in fams]
            tr.feed("".join(KINDS[e[0]].frame(e[1], e[2]) for e in evs))
            w.loop.settle()
            alive(after)
            for i in range(len(case["regs"])):
                want = expected(case["regs"], i, evs)
                got = rec.view(i)[base[i]:]
                if len(got) != len(want) or any(g[:2] != x[:2] or not all(same_args(a, b) for a, b in zip(g[2], x[2]))
                                                for g, x in zip(got, want)):
                    raise Violation(f"after {after} the events {evs} gave callback {case['regs'][i]} the calls {got}, expected {want}")

        seen = []
        if case["chunk"] == "all":
            text = "".join(s[1] if s[0] == "noise" else KINDS[_SENTINEL[s[1]][0]].frame(*_SENTINEL[s[1]][1:]) for s in case["steps"])
            tr.feed(text)
            w.loop.settle()
            seen.append(text)
            alive(seen)
        else:
            for s in case["steps"]:
                if s[0] == "noise":
                    tr.feed(s[1])
                    w.loop.settle()
                    seen.append(s[1])
                    alive(seen)
                else:
                    sentinel([s[1]], seen)
                if case["gap"]:
                    w.loop.advance(case["gap"])
        w.loop.advance(10)
        alive(seen)
        sentinel(FAMILIES, seen)
        w.loop.advance(10)
        alive(seen)
    finally:
        w.close()


def c23_long(case, ctx: Ctx):
    """Hundreds of unsupported frames and failing callbacks, then an event of every family."""
    L = fresh_lib()
    w, client, tr = connect(L, "EventSession")
    try:
        regs = [[e[0], 0, "ok"] for e in _SENTINEL.values()] + [[_SENTINEL[f][0], 0, case["beh"]] for f in case["failing"]]
        rec = Recorder(L, w.loop, regs)
        t = w.task(client.loop())
        w.loop.settle()
        ctx.mark()
        evs = []
        for r in range(case["repeat"]):
            for f in case["noise"]:
                tr.feed(f)
            for f in case["failing"]:
                e = _SENTINEL[f]
                evs.append(e)
                tr.feed(KINDS[e[0]].frame(e[1], e[2]))
            if r % 16 == 0:
                w.loop.settle(300_000)
        w.loop.settle(300_000)
        w.loop.advance(20)
        base = [len(c) for c in rec.calls]
        tail = [_SENTINEL[f] for f in FAMILIES]
        tr.feed("".join(KINDS[e[0]].frame(e[1], e[2]) for e in tail))
        w.loop.settle(300_000)
        what = f"{case['repeat']} times {case['noise']} and events of {case['failing']} with a callback that {case['beh']}"
        check(outcome(t)[0] == "pending", "the event loop ended %r after %s", outcome(t), what)
        for i, (kind, *_) in enumerate(regs):
            want = sum(1 for e in evs if e[0] == kind)
            noisy = [f for f in case["noise"] if KINDS[kind].family == {"1": "light", "2": "automation", "7": "camera", "13": "gateway",
                                                                        "18": "energy"}.get(F.split(f)[0].lstrip("#"))]
            if noisy:  # the frames may be events of this kind themselves
                check(base[i] >= want, "callback %d (%s) was called %d times, expected %d, after %s", i, kind, base[i], want, what)
            else:
                expect_equal(base[i], want, f"calls of callback {i} ({kind}) after {what}")
            got = rec.view(i)[base[i]:]
            expect_equal(len(got), 1, f"calls of callback {i} ({kind}) for the last events after {what}")
    finally:
        w.close()


_ALL_SENT = [[e[0], 0, "ok"] for e in _SENTINEL.values()]
C23 = Property(
    "C23",
    rule="up to 10 well-formed frames of any structure or supported events, with up to 7 callbacks some of which raise, then one event of "
         "every family; non-trivial: an unsupported frame or a raising callback",
    facets=[Facet("survive", c23_case(), c23, "an unsupported frame or a raising callback", 1200, 24000, shards=8,
                  corpus=[{"regs": _ALL_SENT, "steps": [["noise", f]], "chunk": "one", "gap": 0} for f in [
                      *QUIET, "*#18*7*113*1##", "*18*71*7##", "*#18*99*113*1##", "*#1*11*1##", "*#1*11*1*##", "*#13**0*25*61*61*000##",
                      "*#13**15*##", "*2*3*11##", "*2*1000#1*11##", "*7*1*4001##", "*#18*51*511*1*2##", "*#18*51*999*1##",
                      "*#13**#0*1##", "*#2*11*1*2##", "*#7*1*1*1##", "*1*1*##", "*#1*##", "*#18**113*1##", "*1000*1*1##", "*#18*11*250*1##"]]
                  + [{"regs": [["light.status", 0, b], ["light.status", 1, "ok"], ["light.status", 0, b], *_ALL_SENT],
                      "steps": [["event", "light"], ["event", "light"]], "chunk": c, "gap": 0}
                     for r in sorted(RAISES) for b in ("raise:" + r, "late:" + r, "call:" + r) for c in ("one", "all")]),
            Facet("long", st.fixed_dictionaries({"noise": st.lists(noise, max_size=4), "failing": st.lists(st.sampled_from(FAMILIES), max_size=2, unique=True),
                                                 "beh": _beh, "repeat": st.sampled_from([30, 120, 250])}), c23_long, "always", 24, 400, shards=8)],
    assumptions=["callbacks are coroutine functions taking the documented arguments; they may raise anything but KeyboardInterrupt and SystemExit"],
)

# --------------------------------------------------------------------------- C24

_simple_event = st.one_of(st.sampled_from([["light.status", "11", "1"], ["light.status", "12", "0"], ["automation", "21", "2"]]),
                          _event(["light.status", "light.level", "automation", "energy.power", "gateway.DATE"]))


@st.composite
def c24_case(draw):
    events = draw(st.lists(_simple_event, max_size=6))
    end = draw(st.sampled_from(["eof", "eof", "error", "error", "malformed", "close", "close", "close_in_callback"]))
    return {
        "events": events, "end": end,
        "error": draw(st.sampled_from(["reset", "abort", "timeout", "os", "pipe"])),
        "split": draw(st.integers(0, len(events))),  # events before the loop starts / delivered together with the end
        "late": draw(st.sampled_from(["no", "no", "before_end", "after_end"])),
        "steps": draw(st.integers(0, 6)), "beh": draw(st.sampled_from(["ok", "sleep", "yield"])),
        "partial": draw(st.sampled_from(["", "", "*1*1*1", "*#18*51"])), "idle": draw(st.sampled_from([0, 0, 0, 3, 61, 4000])),
    }


def _error(name):
    return {"reset": ConnectionResetError(104, "reset"), "abort": ConnectionAbortedError(103, "abort"), "timeout": TimeoutError(110, "timeout"),
            "os": OSError(113, "no route"), "pipe": BrokenPipeError(32, "pipe")}[name]


def c24(case, ctx: Ctx):
    L = fresh_lib()
    w, client, tr = connect(L, "EventSession")
    loop = w.loop
    try:
        end = case["end"]
        kinds = sorted({e[0] for e in case["events"]}) or ["light.status"]
        regs = [[k, 0, case["beh"]] for k in kinds]
        rec = Recorder(L, loop, regs)
        frames = [KINDS[e[0]].frame(e[1], e[2]) for e in case["events"]]
        ctx.label(end)
        ctx.label(f"loop started {case['late']}")
        ctx.mark(bool(frames) or case["late"] != "no")
        t = None
        if case["late"] == "no":
            t = w.task(client.loop())
            for _ in range(case["steps"]):
                loop.step()
            if case["idle"]:  # a quiet line
                loop.advance(case["idle"])
                check(outcome(t)[0] == "pending", "the event loop ended %r after %s idle seconds", outcome(t), case["idle"])
        if end == "close_in_callback":
            if not frames:
                frames = ["*1*1*11##"]
            t = t or w.task(client.loop())
            loop.settle()
            done = []

            async def hook():
                if not done:
                    done.append(1)
                    await client.close()

            for i in range(len(regs)):
                rec.hooks[i] = hook
            for f in frames:
                tr.feed(f)
            loop.settle()
            loop.run_to_end(t, 60)
            kind, val = outcome(t)
            check(kind == "ok", "the client was closed in a callback but the event loop is %s %r", kind, val)
            return
        a, b = frames[:case["split"]], frames[case["split"]:]
        for f in a:
            tr.feed(f)
        for _ in range(case["steps"]):
            loop.step()
        if case["late"] == "before_end":
            t = w.task(client.loop())
            for _ in range(case["steps"]):
                loop.step()
        if case["idle"]:
            loop.advance(case["idle"])
        if end == "close":
            if b:
                tr.feed("".join(b))
            loop.settle()
            if case["late"] == "after_end":
                t = w.task(client.loop())
                for _ in range(case["steps"]):
                    loop.step()
            c = w.task(client.close())
            loop.settle()
            loop.run_to_end(t, 60)
            kind, val = outcome(t)
            check(outcome(c)[0] == "ok", "close() ended %r", outcome(c))
            check(kind == "ok", "the client was closed but the event loop is %s %r", kind, val)
            return
        if b:
            tr.feed("".join(b))
        if end == "malformed":
            tr.feed("garbage##")
        else:
            if case["partial"]:
                tr.feed(case["partial"])
            tr.drop(None if end == "eof" else _error(case["error"]))
        loop.settle()
        if case["late"] == "after_end":
            t = w.task(client.loop())
        loop.run_to_end(t, 60)
        kind, val = outcome(t)
        check(kind == "ok", "the connection ended (%s) but the event loop is %s %r", end, kind, val)
        loop.advance(10)
        for i in range(len(regs)):
            compare(rec, i, expected(regs, i, case["events"]), frames)
        t2 = w.task(client.close())
        loop.settle()
        check(outcome(t2)[0] == "ok", "close() after the end gave %r", outcome(t2))
    finally:
        w.close()


def c24_many(case, ctx: Ctx):
    """Hundreds of events received before the end, the loop slower than the network or started late."""
    L = fresh_lib()
    w, client, tr = connect(L, "EventSession")
    loop = w.loop
    try:
        events = [[k, wh, p] for r in range(case["repeat"]) for k, wh, p in case["events"]]
        frames = [KINDS[e[0]].frame(e[1], e[2]) for e in events]
        regs = [[k, 0, case["beh"]] for k in sorted({e[0] for e in events})]
        rec = Recorder(L, loop, regs)
        ctx.mark()
        ctx.label(case["end"])
        t = None
        if not case["late"]:
            t = w.task(client.loop())
        data = "".join(frames)
        for i in range(0, len(data), case["size"]):
            tr.feed(data[i:i + case["size"]])
            for _ in range(case["steps"]):
                loop.step()
        if case["end"] == "malformed":
            tr.feed("garbage##")
        else:
            tr.drop(None if case["end"] == "eof" else _error("reset"))
        if t is None:
            loop.settle(300_000)
            t = w.task(client.loop())
        loop.settle(300_000)
        loop.run_to_end(t, 60)
        kind, val = outcome(t)
        check(kind == "ok", "the connection ended (%s) after %d events but the event loop is %s %r", case["end"], len(events), kind, val)
        loop.advance(10)
        for i in range(len(regs)):
            compare(rec, i, expected(regs, i, events), [f"{len(frames)} frames", *frames[:3]])
    finally:
        w.close()


def _c24_enum(tier):
    base = {"error": "reset", "beh": "ok", "partial": "", "idle": 0}
    evs = [["light.status", "11", "1"], ["automation", "21", "2"], ["light.status", "12", "0"]]
    return [{**base, "end": e, "events": evs[:n], "split": s, "late": late, "steps": k}
            for e in ("eof", "error", "malformed", "close", "close_in_callback") for n in range(4) for s in range(n + 1)
            for late in ("no", "before_end", "after_end") for k in range(0, 5 if tier == "quick" else 12)
            ]


C24 = Property(
    "C24",
    rule="event streams ended by a clean drop, a broken connection, malformed data or close() at a generated point of the schedule; "
         "non-trivial: at least one event, or a loop started late",
    facets=[Facet("endings", c24_case(), c24, "an event, or a loop started late", 1200, 24000, shards=8),
            Facet("schedules", None, c24, "an event, or a loop started late", enum=_c24_enum, shards=4),
            Facet("many", st.fixed_dictionaries({
                "events": st.lists(_simple_event, min_size=1, max_size=4), "repeat": st.sampled_from([20, 80, 300]),
                "end": st.sampled_from(["eof", "error", "malformed"]), "late": st.booleans(), "steps": st.integers(0, 3),
                "size": st.sampled_from([64, 1448, 100000]), "beh": st.sampled_from(["ok", "yield", "sleep"])}), c24_many, "always", 40, 600, shards=8)],
    assumptions=["after close() by the application no claim is made about undelivered events"],
)

# --------------------------------------------------------------------------- C25

SUPPORTED = {"1": "Light", "2": "Automation", "7": "Camera", "13": "Gateway", "18": "EnergyManagement"}
_WHO_OF = {v: k for k, v in SUPPORTED.items()}
_c25_addr = {"1": st.sampled_from(["11", "12", "0", "00", "01", "1", "#1", "#11", "11#4#01", "11#4#02", "11#4#00", "11#4#1", "011", "0011"]),
             "2": st.sampled_from(["11", "12", "0", "#1", "11#4#01"]),
             "7": st.sampled_from(["4000", "4001", "11", "12"]), "13": st.just(""), "18": st.sampled_from(["51", "52", "11", "71#0", "72#0", "12"])}
_evt = {"1": lambda a: f"*1*1*{a}##", "2": lambda a: f"*2*1*{a}##", "7": lambda a: f"*7*120*{a}##", "13": lambda a: "*#13**15*200##",
        "18": lambda a: f"*#18*{a}*113*5##"}


@st.composite
def c25_case(draw):
    ops = []
    for _ in range(draw(st.integers(1, 12))):
        who = draw(st.sampled_from(sorted(SUPPORTED)))
        addr = draw(_c25_addr[who])
        op = draw(st.sampled_from(["get", "get", "get", "event", "event", "bad_who", "bad_addr", "callback"]))
        ops.append([op, who, addr, draw(st.sampled_from(["new", "held"])), draw(st.integers(0, 2)),
                    draw(st.sampled_from([w for w in F.KNOWN_WHO if w not in SUPPORTED])),
                    draw(st.sampled_from(["", "0", "7", "71", "99", "7#0", "1", "#1", "51#0"])), draw(st.integers(0, 1))])
    return {"ops": ops, "loop_client": draw(st.sampled_from([None, 0, 1]))}


def c25(case, ctx: Ctx):
    L = fresh_lib()
    w, client, tr = connect(L, "EventSession")
    loop = w.loop
    try:
        others = [L.Client("127.0.0.1", 20000, "12345", L.SessionType.CommandSession, loop=loop) for _ in range(2)]
        clients = [client, *others]
        second = L.Client("127.0.0.1", 20000, "12345", L.SessionType.EventSession, loop=loop)
        seen_items: list = []

        async def record(item, *args):
            seen_items.append(item)

        L.items.Light.on_status_change(record)
        L.items.Automation.on_status_change(record)
        L.items.Camera.on_status_change(record)
        L.items.Gateway.register_callback(L.items.gateway.WhatGateway.DEVICE_TYPE, record)
        L.items.EnergyManagement.on_instant_power(record)
        loop_client = client if case["loop_client"] is None else others[case["loop_client"]]
        t = w.task(client.loop(client=loop_client) if case["loop_client"] is not None else client.loop())
        loop.settle()
        cache: dict = {}  # (cache index, who, addr) -> (item, client)
        repeats = 0

        held: dict = {}

        def tags(who, addr, form):
            """The tags of a call: newly made ones, or the very objects used before."""
            if form == "new" or (who, addr) not in held:
                held[who, addr] = L.tags.Who(who), L.tags.Where(addr)
            return held[who, addr]

        def note(key, item, cl):
            nonlocal repeats
            who, addr = key[1], key[2]
            if key in cache:
                repeats += 1
                check(item is cache[key][0], "a second %s item for %r", SUPPORTED[who], addr)
                check(item.client is cache[key][1], "the client of the %s item %r changed", SUPPORTED[who], addr)
            else:
                for k2, (it2, _) in cache.items():
                    check(it2 is not item, "the items of %s and %s are the same object", k2, key)
                cache[key] = (item, cl)
            check(type(item).__name__ == SUPPORTED[who], "WHO %s gave a %s", who, type(item).__name__)
            expect_equal(str(item.where), addr, f"address of the {SUPPORTED[who]} item")
            check(item.client is cache[key][1], "the %s item %r uses another client", SUPPORTED[who], addr)

        for op, who, addr, form, ci, badwho, badaddr, which in case["ops"]:
            if op in ("get", "callback"):
                W, A = tags(who, addr, form)
                obj = client if which == 0 else second
                cl = clients[ci]
                if op == "callback":
                    obj = client
                item = obj.get_item(W, A, client=cl)
                note((0 if obj is client else 1, who, addr), item, cl)
            elif op == "event":
                n = len(seen_items)
                tr.feed(_evt[who](addr))
                loop.settle()
                expect_equal(len(seen_items), n + 1, f"callbacks of event {_evt[who](addr)}")
                note((0, who, addr), seen_items[-1], loop_client)
            elif op == "bad_who":
                W, A = tags(badwho, addr, form)
                try:
                    it = client.get_item(W, A, client=client)
                except KeyError:
                    pass
                else:
                    raise Violation(f"WHO {badwho} gave {it!r}")
            elif op == "bad_addr":
                if badaddr == "":
                    W, A = L.tags.Who("18"), L.tags.Where("")
                else:
                    W, A = tags("18", badaddr, form)
                try:
                    it = client.get_item(W, A, client=client)
                except L.exc.InvalidTag:
                    pass
                else:
                    raise Violation(f"the energy address {badaddr!r} gave {it!r}")
        ctx.mark(repeats > 0)
        ctx.label(f"repeats: {min(repeats, 3)}")
        check(outcome(t)[0] == "pending", "the event loop ended %r", outcome(t))
    finally:
        w.close()


def c25_many(case, ctx: Ctx):
    """Thousands of addresses: every item is still the same object afterwards."""
    L = fresh_lib()
    w, client, tr = connect(L, "EventSession")
    try:
        last: list = []

        async def record(item, *args):
            last.append(item)

        L.items.Light.on_status_change(record)
        L.items.Automation.on_status_change(record)
        L.items.Camera.on_status_change(record)
        L.items.EnergyManagement.on_instant_power(record)
        t = w.task(client.loop())
        w.loop.settle()
        ctx.mark()
        keys = []
        for i in range(case["n"]):
            who = case["whos"][i % len(case["whos"])]
            keys.append((who, f"5{i % 255 + 1}" if who == "18" else str(i + 1)))
        keys = list(dict.fromkeys(keys))
        ctx.label(f"{len(keys) // 500 * 500}+ addresses")
        other = L.Client("127.0.0.1", 20000, "12345", L.SessionType.CommandSession, loop=w.loop)
        items = {}
        for j, (who, addr) in enumerate(keys):
            if case["first"] == "event" or (case["first"] == "mixed" and j % 2):
                tr.feed(_evt[who](addr))
                if j % 64 == 63:
                    w.loop.settle(300_000)
            else:
                items[who, addr] = client.get_item(L.tags.Who(who), L.tags.Where(addr), client=other)
        w.loop.settle(300_000)
        for it in last:
            items.setdefault((_WHO_OF[type(it).__name__], str(it.where)), it)
        expect_equal(len(items), len(keys), "number of items")
        check(len({id(x) for x in items.values()}) == len(keys), "two addresses share an item")
        del last[:]
        for who, addr in (reversed(keys) if case["back"] else keys):
            it = client.get_item(L.tags.Who(who), L.tags.Where(addr), client=client)
            check(it is items[who, addr], "a second item for %s %s among %d addresses", who, addr, len(keys))
            tr.feed(_evt[who](addr))
        w.loop.settle(300_000)
        expect_equal(len(last), len(keys), "events")
        for it in last:
            k = (_WHO_OF[type(it).__name__], str(it.where))
            check(it is items[k], "an event for %s gave a second item", k)
        check(outcome(t)[0] == "pending", "the event loop ended %r", outcome(t))
    finally:
        w.close()


def c25_kept(case, ctx: Ctx):
    """An item stays the client's own even when the application keeps no reference to it."""
    L = fresh_lib()
    w, client, tr = connect(L, "EventSession")
    try:
        owners: list = []

        async def record(item, *args):
            owners.append((type(item).__name__, str(item.where), item.client))

        L.items.Light.on_status_change(record)
        L.items.Automation.on_status_change(record)
        L.items.Camera.on_status_change(record)
        L.items.Gateway.register_callback(L.items.gateway.WhatGateway.DEVICE_TYPE, record)
        L.items.EnergyManagement.on_instant_power(record)
        t = w.task(client.loop())
        w.loop.settle()
        others = [L.Client("127.0.0.1", 20000, "12345", L.SessionType.CommandSession, loop=w.loop) for _ in range(2)]
        first: dict = {}
        again = 0
        for op, who, addr, ci, collect in case["ops"]:
            cl = others[ci]
            if op == "event":
                tr.feed(_evt[who](addr))
                w.loop.settle()
                check(bool(owners), "no callback for %s", _evt[who](addr))
                name, where, owner = owners.pop()
                want = first.setdefault((who, addr), client)
                expect_equal((name, where), (SUPPORTED[who], addr), "item of the event")
            else:
                again += (who, addr) in first
                want = first.setdefault((who, addr), cl)
                owner = client.get_item(L.tags.Who(who), L.tags.Where(addr), client=cl).client
            check(owner is want, "the item of %s %s no longer uses the client it was created with", who, addr)
            if collect:
                gc.collect(0)
        ctx.mark(again > 0)
        check(outcome(t)[0] == "pending", "the event loop ended %r", outcome(t))
    finally:
        w.close()


def c27_loops(case, ctx: Ctx):
    """Event loops that are cancelled and run again on one connection, and reads between them."""
    L = fresh_lib()
    w, client, tr = connect(L, "EventSession")
    try:
        seen: list = []

        async def record(item, on):
            seen.append((str(item.where), on))

        L.items.Light.on_status_change(record)
        lt = None
        unread: list = []
        want: list = []
        n = after = 0
        stopped = False
        for op, k in case["ops"]:
            if op == "run":
                if lt is None:
                    lt = w.task(client.loop())
                    w.loop.settle()
                    want += unread
                    unread = []
            elif op == "cancel":
                if lt is not None:
                    lt.cancel()
                    if k:
                        w.loop.settle()
                        check(lt.done(), "the cancelled event loop is still running")
                    stopped = True
                    lt = None
            elif op == "feed":
                w.loop.settle()
                evs = []
                for _ in range(k + 1):
                    n += 1
                    evs.append((str(11 + n), bool(n % 2)))
                tr.feed("".join(f"*1*{int(on)}*{a}##" for a, on in evs))
                w.loop.settle()
                after += stopped
                if lt is None:
                    unread += evs
                else:
                    want += evs
            elif op == "wait":
                w.loop.advance([1, 6, 70, 4000][k])
            elif op == "read" and lt is None:
                t = w.task(client.read_message(timeout=1))
                w.loop.advance(2)
                kind, val = outcome(t)
                if unread:
                    a, on = unread.pop(0)
                    check(kind == "ok", "a read after the event loop was cancelled ended %s %r although the event of %s is unread", kind, val, a)
                    expect_equal(str(val), f"*1*{int(on)}*{a}##", "message read after the event loop was cancelled")
                else:
                    check(kind == "err" and isinstance(val, TimeoutError), "a read without messages ended %s %r", kind, val)
            w.loop.settle()
            expect_equal(seen, want, "events dispatched by the event loops run so far")
            if lt is not None:
                check(not lt.done(), "the event loop ended %r", lt)
        ctx.mark(after > 0)
    finally:
        w.close()


C27.facets.append(Facet("loops", st.fixed_dictionaries({"ops": st.lists(st.tuples(
    st.sampled_from(["run", "run", "cancel", "cancel", "feed", "feed", "feed", "wait", "read"]), st.integers(0, 3)).map(list), min_size=3, max_size=16)}),
    c27_loops, "a message arrived after an event loop was cancelled", 600, 12000, shards=8,
    corpus=[{"ops": [["run", 0], *a, ["cancel", k], *b, ["run", 0], ["feed", 1]]} for a in ([], [["feed", 0]], [["wait", 2]])
            for b in ([], [["feed", 0]], [["feed", 1], ["read", 0]], [["read", 0], ["feed", 0], ["read", 0]], [["run", 0], ["cancel", 1]]) for k in (0, 1)]))


def c25_restarts(case, ctx: Ctx):
    """The items of a client outlive its connections."""
    L = fresh_lib()
    w, client, tr = connect(L, "EventSession")
    try:
        seen: list = []

        async def record(item, *args):
            seen.append(item)

        L.items.Light.on_status_change(record)
        L.items.Automation.on_status_change(record)
        L.items.Camera.on_status_change(record)
        L.items.Gateway.register_callback(L.items.gateway.WhatGateway.DEVICE_TYPE, record)
        L.items.EnergyManagement.on_instant_power(record)
        t = w.task(client.loop())
        other = L.Client("127.0.0.1", 20000, "12345", L.SessionType.CommandSession, loop=w.loop)
        items: dict = {}
        era: dict = {}
        now = again = 0
        up = True
        for op, who, addr in case["ops"]:
            if op in ("close", "drop", "lost"):
                if up:
                    if op == "close":
                        w.loop.run_to_end(w.task(client.close()), 5)
                    else:
                        tr.drop(None if op == "drop" else ConnectionResetError(104, "reset"))
                    w.loop.settle()
                    check(t.done(), "the event loop is still running after %s", op)
                    up, now = False, now + 1
                continue
            if op == "event" and not up:
                s = w.task(client.start())
                w.loop.run_to_end(s, 60)
                check(outcome(s)[0] == "ok", "starting again ended %s %r", *outcome(s))
                tr, up = w.transports[-1], True
                t = w.task(client.loop())
                w.loop.settle()
            if op == "event":
                n = len(seen)
                tr.feed(_evt[who](addr))
                w.loop.settle()
                expect_equal(len(seen), n + 1, f"callbacks of event {_evt[who](addr)}")
                item, cl = seen[-1], client
            else:
                item, cl = client.get_item(L.tags.Who(who), L.tags.Where(addr), client=other), other
            if (who, addr) in items:
                again += era[who, addr] < now
                check(item is items[who, addr][0], "a second %s item for %r after the connection of the first had ended", SUPPORTED[who], addr)
                check(item.client is items[who, addr][1], "the client of the %s item %r changed", SUPPORTED[who], addr)
            else:
                items[who, addr], era[who, addr] = (item, cl), now
        ctx.mark(again > 0)
        ctx.label(f"{min(now, 3)} ends")
    finally:
        w.close()


@st.composite
def c25_restarts_case(draw):
    pool = [(who, draw(_c25_addr[who])) for who in draw(st.lists(st.sampled_from(sorted(SUPPORTED)), min_size=1, max_size=3))]
    return {"ops": [[draw(st.sampled_from(["get", "event", "close", "drop", "lost", "get", "event"])), *draw(st.sampled_from(pool))]
                    for _ in range(draw(st.integers(3, 12)))]}


@st.composite
def c25_kept_case(draw):
    ops = []
    for _ in range(draw(st.integers(2, 12))):
        who = draw(st.sampled_from(sorted(SUPPORTED)))
        ops.append([draw(st.sampled_from(["get", "get", "event"])), who, draw(_c25_addr[who]), draw(st.integers(0, 1)), draw(st.booleans())])
    return {"ops": ops}


C25 = Property(
    "C25",
    rule="histories of get_item calls and events over few addresses and two clients; non-trivial: at least one item asked for or seen twice",
    facets=[Facet("kept", c25_kept_case(), c25_kept, "an item asked for again", 300, 6000, shards=4),
            Facet("restarts", c25_restarts_case(), c25_restarts, "an item seen again after its connection ended", 400, 8000, shards=4,
                  corpus=[{"ops": [["get", "1", "11"], [how, "1", "11"], ["get", "1", "11"], ["event", "1", "11"]]} for how in ("close", "drop", "lost")]),
            Facet("history", c25_case(), c25, "an item seen twice", 1000, 20000, shards=8),
            Facet("many", st.fixed_dictionaries({"n": st.sampled_from([50, 300, 1500, 5000]), "whos": st.lists(st.sampled_from(["1", "2", "7", "18"]), min_size=1, max_size=4,
                                                                                                           unique=True),
                                                 "first": st.sampled_from(["get", "event", "mixed"]), "back": st.booleans()}), c25_many, "always", 12, 200, shards=6,
                  corpus=[{"n": 5000, "whos": ["1", "2"], "first": "get", "back": False}])],
    assumptions=["the gateway item is asked for with the empty address"],
)
