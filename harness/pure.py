"""C01-C05, C09, C10, C28: pure functions and values."""
from __future__ import annotations

import hashlib
import hmac as stdhmac
import random
import time

from hypothesis import strategies as st

import frames as F
from core import Ctx, Facet, Violation, check, describe, expect_equal, lib
from registry_types import Property

# --------------------------------------------------------------------------- C01


def build(L, f: dict):
    """Builds a message with the public constructors."""
    m, t = L.messages, L.tags
    k = f["kind"]
    if k == "ACK":
        return m.ACK()
    if k == "NACK":
        return m.NACK()
    if k == "GENERIC":
        return m.GenericMessage(list(f["tags"]))
    who, where = t.Who(f["who"]), t.Where(f["where"])
    if k == "NORMAL":
        return m.NormalMessage((who, t.What(f["what"]), where))
    if k == "STATUS REQUEST":
        return m.StatusRequest((who, where))
    dim = t.Dimension(f["dimension"])
    if k == "DIMENSION REQUEST":
        return m.DimensionRequest((who, where, dim))
    vals = [t.Value(v) for v in f["values"]]
    cls = m.DimensionWriting if k == "DIMENSION WRITING" else m.DimensionResponse
    return cls((who, where, dim, *vals))


def c01_built(case, ctx: Ctx):
    L = lib()
    msg = build(L, case)
    want = F.frame_of(case)
    ctx.label(case["kind"])
    ctx.mark(case["kind"] not in ("ACK", "NACK"))
    expect_equal(msg.message, want, "encoding")
    expect_equal(str(msg), want, "str()")
    expect_equal(msg.bytes, want.encode(), "bytes")
    expect_equal(F.view(msg), case, "fields of the built message")
    back = L.parse_message(msg.message)
    expect_equal(F.view(back), case, f"fields after parsing {want}")
    check(type(back) is type(msg), "parsing %s gave %r, not %r", want, type(back), type(msg))
    check(back == msg and msg == back, "parsed message != original for %s", want)
    check(hash(back) == hash(msg), "hash changed over the round trip for %s", want)
    expect_equal(back.message, want, "re-encoding")
    expect_equal(F.view(L.parse_message(msg.bytes.decode("ascii"))), case, "fields via bytes")


def c01_frame(case, ctx: Ctx):
    L = lib()
    frame = F.encode_tags(case)
    if not F.claimed(frame):
        return
    if not F.well_formed(frame):
        raise Violation(f"generator produced {frame!r}")
    msg = L.parse_message(frame)
    ctx.label(F.view(msg)["kind"])
    ctx.mark(len(case) > 1)
    expect_equal(msg.message, frame, "text encoding")
    expect_equal(str(msg), frame, "str()")
    expect_equal(msg.bytes, frame.encode(), "byte encoding")
    again = L.parse_message(msg.message)
    check(again == msg and type(again) is type(msg), "second parse of %s differs", frame)


C01 = Property(
    "C01",
    rule="built: a message other than ACK/NACK; frame: a well-formed frame of at least two tags",
    facets=[
        Facet("built", F.message_fields, c01_built, "message other than ACK/NACK", 6000, 150000,
              corpus=[
                  {"kind": "DIMENSION WRITING", "who": "13", "where": "", "dimension": "0", "values": []},
                  {"kind": "DIMENSION WRITING", "who": "18", "where": "51", "dimension": "1200#1", "values": ["3"]},
                  {"kind": "DIMENSION REQUEST", "who": "18", "where": "51", "dimension": "52#23#1"},
              ]),
        Facet("frame", F.frame_tags, c01_frame, "at least two tags", 8000, 200000,
              corpus=[["99", "1"], ["#603356072"], ["7", "9"], ["1", "1000#1", "11"], ["#18", "51", "1200#1", "3"]]),
        Facet("long", F.long_fields, c01_built, "always: hundreds of values, parameters or digits", 150, 4000),
        Facet("long frame", F.long_tags, c01_frame, "at least two tags", 150, 4000),
    ],
)

# --------------------------------------------------------------------------- C02


def _parse(L, text):
    try:
        return "ok", L.parse_message(text)
    except L.exc.ParseError as e:
        return "reject", e
    except Exception as e:
        raise Violation(f"parsing {text!r} raised {describe(e)}, not the library's parse error") from e


def c02_text(case, ctx: Ctx):
    L = lib()
    res, msg = _parse(L, case)
    if not F.claimed(case):
        ctx.label("open (###)")
        return
    good = F.well_formed(case)
    ctx.label("well-formed" if good else "malformed")
    ctx.mark("##" in case)
    if good:
        check(res == "ok", "well-formed %r was refused: %s", case, msg)
        _check_kind(case, msg, ctx)
    else:
        check(res == "reject", "malformed %r was accepted as %r", case, msg)


def _check_kind(text, msg, ctx):
    tags = F.split(text)
    want = F.classify(tags)
    if want is None:
        ctx.label("kind open")
        return
    ctx.label(want["kind"])
    expect_equal(F.view(msg), want, f"kind and fields of {text!r}")


def c02_kind(case, ctx: Ctx):
    L = lib()
    frame = F.encode_tags(case)
    if not F.claimed(frame) or not F.well_formed(frame):
        return
    res, msg = _parse(L, frame)
    check(res == "ok", "well-formed %r was refused: %s", frame, msg)
    ctx.mark()
    _check_kind(frame, msg, ctx)


def c02_unicode_digit(case, ctx: Ctx):
    """No non-ASCII digit or other look-alike inside a frame is accepted."""
    L = lib()
    frame, pos, ch = case["frame"], case["pos"], case["ch"]
    i = 1 + pos % (len(frame) - 2)
    text = frame[:i] + ch + frame[i:]
    ctx.mark()
    res, msg = _parse(L, text)
    check(res == "reject", "%r was accepted as %r", text, msg)


C02 = Property(
    "C02",
    rule="text: contains a '##' terminator; kind: any well-formed frame; alien: a frame with one foreign character",
    facets=[
        Facet("text", F.any_text, c02_text, "text contains '##'", 10000, 300000,
              corpus=["", "*##", "*#*1##", "*#*0##", "  *1*1*11##\n", "*1*1*11##*1*1*11##", "1*1*11##", "*1*1*11#",
                      "*9*1*11##", "*#9*11##", "*1*1*11##\x00", "*1*1\n*11##", "*1*1*11## x"]),
        Facet("kind", F.frame_tags, c02_kind, "well-formed frame", 8000, 200000,
              corpus=[["9", "1", "11"], ["#9", "1"], ["#1", "12", "1"], ["#18", "51", "52#23#1"],
                      ["#18", "51", "#1200#1", "3"], ["#18", "51", "511#1#2", "3", "4"], ["7", "9"]]),
        Facet("alien", st.fixed_dictionaries(
            {"frame": F.well_formed_frame, "pos": st.integers(0, 200),
             "ch": st.characters(exclude_characters="0123456789#*")}),
            c02_unicode_digit, "always", 3000, 60000),
        Facet("long", F.long_tags, c02_kind, "well-formed frame of up to thousands of characters", 200, 5000),
    ],
)

# --------------------------------------------------------------------------- C03

_tok = st.text("*#0123456789", min_size=1, max_size=3)
_tokx = st.one_of(_tok, st.sampled_from(["0", "#", "*", "#0", "*0", "0#", "*#", "*#0", "0*", "01", "00", "0#0", " ", "a"]))


def _pumped(parts) -> str:
    s = "".join(t * n for t, n in parts)
    return s[:4096]


pump_case = st.builds(
    lambda pre, pumps, suf: [[pre, 1], *pumps, [suf, 1]],
    st.sampled_from(["*", "*#", "*1*", "*#1*", "*#1*2*", "*#1*2*#", "*#1*2*3*", "*1*1*", "", "**", "*#*"]),
    st.lists(st.builds(lambda t, n: [t, n], _tokx, st.one_of(st.integers(1, 3), st.integers(20, 60),
                                                           st.integers(500, 4096))), min_size=1, max_size=4),
    st.sampled_from(["##", "a##", "#", "*##", "a", " ##", "x*##", "#a##", "", "*a##", "\n##", "##x"]),
)


def c03_text(case, ctx: Ctx):
    L = lib()
    text = _pumped(case)
    ctx.mark(len(text) >= 20)
    ctx.label("len>=1000" if len(text) >= 1000 else "len<1000")
    t = time.process_time()
    try:
        L.parse_message(text)
        ctx.label("accepted")
    except Exception:
        ctx.label("refused")
    _cpu(t, text)


def _cpu(t0, text):
    used = time.process_time() - t0
    if used > 5.0:
        raise Violation(f"processing {len(text)} characters took {used:.1f} s of CPU")


def c03_bytes(case, ctx: Ctx):
    from stream import Proto

    text = _pumped(case["parts"])
    data = text.encode("ascii", "replace")
    ctx.mark(len(data) >= 20)
    t = time.process_time()
    with Proto() as p:
        n = case["seg"]
        for i in range(0, len(data), n):
            try:
                p.proto.data_received(data[i:i + n])
            except Exception:
                ctx.label("refused")
    _cpu(t, text)


C03 = Property(
    "C03",
    rule="texts of 20 to 4096 characters made of repeated tokens (pump strings) inside frame prefixes and suffixes",
    facets=[
        Facet("text", pump_case, c03_text, "at least 20 characters", 3000, 40000, shards=6,
              corpus=[[["*", 1], ["1", n], ["a##", 1]] for n in (25, 60, 4000)]
              + [[["*", 1], ["1*", n], ["a##", 1]] for n in (25, 60, 2000)]
              + [[["*#", 1], ["0#", n], ["*x##", 1]] for n in (30, 2000)]
              + [[["*", 1], ["#", n], ["##", 1]] for n in (30, 2000)]
              + [[["*#1*", 1], ["1#1", n], ["a##", 1]] for n in (30, 1000)]),
        Facet("bytes", st.fixed_dictionaries({"parts": pump_case, "seg": st.sampled_from([1, 2, 7, 100, 5000])}),
              c03_bytes, "at least 20 bytes", 1200, 16000, shards=6),
    ],
    assumptions=["stall = more than 5 s of CPU for at most 4096 characters (measured: below 0.05 s)"],
)

# --------------------------------------------------------------------------- C04

TAG_CLASSES = ["Tag", "TagWithParameters", "What", "Where", "Dimension", "Value"]


def _cls(L, name):
    return getattr(L.tagbase, name, None) or getattr(L.tags, name)


tag_text = st.one_of(st.text("0123456789#", max_size=12), st.text("0123456789#", max_size=12), F.where_text, F.what_text,
                     st.integers(10, 60).flatmap(lambda n: st.text("0123456789##", min_size=n, max_size=2 * n)))
bad_text = st.builds(lambda a, c, b: a + c + b, tag_text, st.characters(exclude_characters="0123456789#"), tag_text)


def c04_build(case, ctx: Ctx):
    L = lib()
    cls = _cls(L, case["cls"])
    text = case["text"]
    valid = all(c in "0123456789#" for c in str(text))
    ctx.label("valid" if valid else "invalid")
    try:
        tag = cls(text)
    except L.exc.InvalidTag:
        check(not valid, "%s(%r) was refused", case["cls"], text)
        return
    except Exception as e:
        raise Violation(f"{case['cls']}({text!r}) raised {describe(e)}, not InvalidTag") from e
    check(valid, "%s(%r) was accepted", case["cls"], text)
    text = str(text)
    ctx.mark("#" in text)
    _parts(tag, text, case["cls"])
    p = case["param"]
    pvalid = all(c in "0123456789#" for c in str(p))
    try:
        more = tag.with_parameter(p)
    except L.exc.InvalidTag:
        check(not pvalid, "with_parameter(%r) was refused", p)
        more = None
    else:
        check(pvalid, "with_parameter(%r) was accepted", p)
    _parts(tag, text, case["cls"])  # unchanged
    if more is not None:
        _parts(more, f"{text}#{p}", None)
        check(isinstance(more, L.tagbase.TagWithParameters), "with_parameter lost the parameters: %r", more)
        expect_equal(list(more.parameters), text.split("#")[1:] + str(p).split("#"), f"parameters of {more!r}")
        if case["cls"] not in ("Tag", "Value"):
            check(type(more) is cls, "with_parameter changed the class to %r", type(more))


def _parts(tag, text, cls):
    expect_equal(tag.string, text, "tag.string")
    expect_equal(str(tag), text, "str(tag)")
    if cls in ("Tag", "Value"):
        check(tag.parameters is None, "%s has parameters %r", cls, tag.parameters)
        expect_equal(tag.tag, text[1:] if text.startswith("#") else text, f"base of {text!r}")
    else:
        expect_equal("#".join([tag.tag, *tag.parameters]), text, f"base and parameters of {tag!r} recombined")


def c04_pairs(case, ctx: Ctx):
    L = lib()
    a, b = _any_tag(L, case["a"]), _any_tag(L, case["b"])
    ta, tb = case["a"][1], case["b"][1]
    same = ta == tb
    ctx.label("equal" if same else "different")
    ctx.mark(same and case["a"][0] != case["b"][0])
    for x, y, what in ((a, b, "tag == tag"), (b, a, "tag == tag (swapped)"), (a, tb, "tag == text"),
                       (tb, a, "text == tag")):
        check((x == y) is same, "%s: %r == %r gave %r", what, x, y, x == y)
        check((x != y) is (not same), "%s: %r != %r gave %r", what, x, y, x != y)
    if tb.isdigit() and len(tb) < 1000:
        n = int(tb)
        for x, tx in ((a, ta), (b, tb)):
            if isinstance(x, L.tagbase.Tag):
                check((x == n) is (tx == str(n)), "%r == %d gave %r", x, n, x == n)
    if same:
        expect_equal(hash(a), hash(b), f"hashes of {a!r} and {b!r}")
        expect_equal(hash(a), hash(tb), f"hashes of {a!r} and its text")
    expect_equal(len({a, b, ta, tb}), 1 if same else 2, f"size of the set of {a!r}, {b!r} and their texts")
    expect_equal({a: 1}.get(b, 0), int(same), "dictionary lookup")
    expect_equal({a: 1}.get(tb, 0), int(same), "dictionary lookup by text")


ENUM_SRC = {
    "Who": ("tags", "Who"),
    "WhatLight": ("light_base", "WhatLight"),
    "WhatAutomation": ("items", "WhatAutomation"),
    "WhatCamera": ("items", "WhatCamera"),
    "WhatGateway": ("items", "WhatGateway"),
    "WhatEnergy": ("energy_enums", "WhatEnergy"),
    "DimensionEnergy": ("energy_enums", "DimensionEnergy"),
}


def _any_tag(L, spec):
    name, text = spec
    if name in ENUM_SRC:
        mod, attr = ENUM_SRC[name]
        try:
            return getattr(getattr(L, mod), attr)(text)
        except ValueError:
            return L.tags.What(text)
    return _cls(L, name)(text)


_small_text = st.one_of(st.sampled_from(["", "0", "00", "1", "2", "10", "1#2", "#1", "#", "1#", "13", "18", "73", "1000", "113"]),
                        tag_text)
_spec = st.builds(lambda c, t: [c, t], st.sampled_from(TAG_CLASSES + list(ENUM_SRC)), _small_text)
pair = st.one_of(
    st.builds(lambda a, b: {"a": a, "b": b}, _spec, _spec),
    st.builds(lambda a, c: {"a": a, "b": [c, a[1]]}, _spec, st.sampled_from(TAG_CLASSES + list(ENUM_SRC))),
    st.builds(lambda a, c, x: {"a": a, "b": [c, a[1] + x]}, _spec, st.sampled_from(TAG_CLASSES),
              st.sampled_from(["#", "0", "#1"])),
)

ENUM_PARAM = {"WhatLight": ["0", "1", "30", "31", "1000"], "WhatEnergy": ["57", "58", "59", "510", "73", "75", "26"],
              "DimensionEnergy": ["52", "72", "1200", "511", "512", "250"], "Who": F.KNOWN_WHO}


def c04_enum_param(case, ctx: Ctx):
    """Adding parameters (one or several) to enumerated tags."""
    L = lib()
    tag = _any_tag(L, [case["cls"], case["text"]])
    cur, text = tag, case["text"]
    ctx.mark(len(case["params"]) > 1)
    for p in case["params"]:
        nxt = cur.with_parameter(p)
        expect_equal(str(cur), text, "the original tag")
        text = f"{text}#{p}"
        expect_equal(nxt.string, text, "tag with parameter")
        expect_equal(str(nxt), text, "text of the tag with parameter")
        cur = nxt
    expect_equal(cur.tag, case["text"], "base")
    expect_equal(list(cur.parameters), [str(p) for p in case["params"]], "parameters")
    expect_equal(str(tag), case["text"], "the original tag")


def c04_who(case, ctx: Ctx):
    L = lib()
    ctx.mark()
    who = L.tags.Who(case)
    for w in (who, L.tags.Who(L.tags.Tag(case)) if hasattr(L.tags, "Tag") else who):
        check(isinstance(w.name, str) and w.name.strip() != "", "description of %s is %r", case, w.name)
        expect_equal(w.string, case, "who.string")
        expect_equal(str(w), case, "str(who)")
    for other in F.KNOWN_WHO:
        if other != case:
            o = L.tags.Who(other)
            check(o.name != who.name, "%s and %s share the description %r", case, other, who.name)
            check(o != who and who != other and hash(o) != hash(who), "WHO %s equals %s", case, other)


def c04_members(case, ctx: Ctx):
    """A tag made from a member of an enumeration is the tag of its text; asking a tag for its text changes nothing."""
    L = lib()
    mod, attr = ENUM_SRC[case["enum"]]
    members = list(getattr(getattr(L, mod), attr))
    ctx.mark()
    for m in members:
        text = m.value
        for name in TAG_CLASSES:
            t = _cls(L, name)(m)
            what = f"{name} of {case['enum']}({text!r})"
            for _ in range(2):
                try:
                    # the call a program makes: str(t), not the short cut the interpreter takes in a hot loop
                    got = [type.__call__(str, t), f"{t}", t.string, type.__call__(str, t.string), type.__call__(str, m), m.string]
                    again = _cls(L, name)(text)
                    same = t == again and hash(t) == hash(again) and repr(t) == repr(again) and t.tag == again.tag and t.parameters == again.parameters
                except Exception as e:
                    raise Violation(f"the text of a {what} raised {describe(e)}") from e
                expect_equal([f"{g}" for g in got], [text] * 6, f"texts of a {what}")
                check(same, "a %s differs from %r", what, again)


C04 = Property(
    "C04",
    rule="build: a valid text containing '#'; pairs: equal texts in two different tag classes; params: two or more "
         "parameters added to an enumerated tag; who: every known WHO code (complete); members: every enumerated tag (complete)",
    facets=[
        Facet("build", st.fixed_dictionaries(
            {"cls": st.sampled_from(TAG_CLASSES),
             "text": st.one_of(tag_text, tag_text, bad_text, st.integers(0, 10**6), st.integers(-50, -1), st.text(max_size=6)),
             "param": st.one_of(F.number, st.integers(0, 99999), st.text("0123456789#", max_size=5), bad_text)}),
            c04_build, "valid text containing '#'", 8000, 160000),
        Facet("pairs", pair, c04_pairs, "equal texts in two different classes", 8000, 160000),
        Facet("params", st.sampled_from(sorted(ENUM_PARAM)).flatmap(lambda c: st.fixed_dictionaries(
            {"cls": st.just(c), "text": st.sampled_from(ENUM_PARAM[c]),
             "params": st.lists(st.one_of(st.integers(0, 10**6), F.number), min_size=1, max_size=4)})),
            c04_enum_param, "two or more parameters", 2000, 40000),
        Facet("who", None, c04_who, "every known WHO", enum=lambda tier: list(F.KNOWN_WHO), shards=1),
        Facet("members", None, c04_members, "every member of every enumeration, in every tag class",
              enum=lambda tier: [{"enum": e} for e in sorted(ENUM_SRC)], shards=1),
    ],
    assumptions=["with_parameter on enumerated WHAT tags is claimed only for the families that use parameters "
                 "(WhatLight, WhatEnergy, DimensionEnergy)"],
)

# --------------------------------------------------------------------------- C05


def where_table() -> list[tuple[str, str]]:
    out = [("0", "GENERAL"), ("00", "AMBIENT"), ("100", "AMBIENT")]
    out += [(str(a), "AMBIENT") for a in range(1, 10)]
    out += [(f"{a}{p}", "LIGHT_POINT") for a in range(1, 10) for p in range(1, 10)]
    out += [(f"0{a}{p}", "LIGHT_POINT") for a in range(1, 10) for p in range(10, 16)]
    out += [(f"00{p:02d}", "LIGHT_POINT") for p in range(1, 16)]
    out += [(f"10{p:02d}", "LIGHT_POINT") for p in range(1, 16)]
    out += [(f"#{g}", "GROUP") for g in range(1, 256)]
    return out


TABLE = where_table()
INTERFACES = [f"{i:02d}" for i in range(1, 16)]


def c05_all(tier):
    out = []
    for addr, typ in TABLE:
        out.append([addr, typ])
        for i in INTERFACES:
            out.append([f"{addr}#4#{i}", "LOCAL_BUS" if addr == "0" else typ])
    return out


def c05_type(case, ctx: Ctx):
    L = lib()
    text, typ = case
    ctx.label(typ)
    ctx.mark()
    w = L.tags.Where(text)
    expect_equal(w.type.name, typ, f"type of address {text!r}")
    check(w.type is getattr(L.where.WhereType, typ), "not the enumeration member")
    expect_equal(str(w), text, "the address after asking its type")
    m = L.parse_message(f"*1*1*{text}##")
    expect_equal(m.where.type.name, typ, f"type of the parsed address {text!r}")


def c05_empty(case, ctx: Ctx):
    L = lib()
    ctx.mark()
    try:
        t = L.tags.Where(case).type
    except ValueError:
        return
    raise Violation(f"the empty address has type {t}")


C05 = Property(
    "C05",
    rule="complete enumeration of the documented addresses, each without and with the 15 local-bus suffixes",
    facets=[
        Facet("table", None, c05_type, "every documented address", enum=c05_all, shards=2),
        Facet("sampled", st.builds(lambda a, i: [a[0] + (f"#4#{i}" if i else ""),
                                                "LOCAL_BUS" if i and a[0] == "0" else a[1]],
                                   st.sampled_from(TABLE), st.one_of(st.none(), st.sampled_from(INTERFACES))),
              c05_type, "every documented address", 500, 5000, shards=1),
        Facet("empty", None, c05_empty, "the empty address", enum=lambda tier: [""], shards=1),
    ],
)

# --------------------------------------------------------------------------- C09

M32 = 0xFFFFFFFF


def _ror(x, n):
    return ((x >> n) | (x << (32 - n))) & M32


def ref_open(password: int, nonce: str) -> str:
    """The published OPEN algorithm, written with rotations and byte tuples."""
    nz = nonce.lstrip("0")
    if nz == "":
        return "0"
    x = password & M32
    for c in nz:
        if c == "1":
            x = _ror(x, 7)
        elif c == "2":
            x = _ror(x, 4)
        elif c == "3":
            x = _ror(x, 3)
        elif c == "4":
            x = _ror(x, 31)
        elif c == "5":
            x = _ror(x, 27)
        elif c == "6":
            x = _ror(x, 20)
        elif c in "78":
            b3, b2, b1, b0 = x.to_bytes(4, "big")
            out = (b0, b3, b1, b2) if c == "7" else (b1, b0, b2, b3)
            x = int.from_bytes(bytes(out), "big")
        elif c == "9":
            x ^= M32
    return str(x)


def c09(case, ctx: Ctx):
    L = lib()
    pw, nonce = case["password"], case["nonce"]
    password = f"{pw:0{case['pad']}d}" if case["pw_text"] else pw
    want = ref_open(pw, nonce)
    ctx.mark(len(set(nonce)) > 1)
    for c in set(nonce):
        ctx.label(f"digit {c}")
    got = L.auth.own_calc_pass(password, nonce)
    expect_equal(got, want, f"own_calc_pass({password!r}, {nonce!r})")
    as_int = int(nonce) if nonce else None
    if as_int is not None:
        expect_equal(L.auth.own_calc_pass(password, as_int), ref_open(pw, str(as_int)),
                     f"own_calc_pass({password!r}, {as_int!r})")
    check(isinstance(got, str) and got.isascii() and got.isdigit() and int(got) <= M32 and str(int(got)) == got,
          "the answer %r is no unsigned 32-bit decimal", got)


_pw = st.one_of(st.integers(0, M32), st.integers(0, 99999), st.sampled_from([0, 1, 12345, M32, 0x80000000, 0xFF00FF00, 0x00FF00FF,
                                                                         0x12345678, 0x0F0F0F0F]),
                st.builds(lambda i: 1 << i, st.integers(0, 31)))
_nonce = st.one_of(F.digits(1, 12), F.digits(1, 3), st.builds(lambda c, n: c * n, st.sampled_from(list("0123456789")), st.integers(1, 10)),
                   F.digits(1, 40))

C09 = Property(
    "C09",
    rule="random: password and nonce with at least two different digits; pairs: all nonces of one to three digits on bit patterns",
    facets=[
        Facet("random", st.fixed_dictionaries({"password": _pw, "nonce": _nonce, "pw_text": st.booleans(),
                                               "pad": st.integers(1, 16)}),
              c09, "nonce with two different digits", 8000, 200000,
              corpus=[{"password": 12345, "nonce": "603356072", "pw_text": True, "pad": 1}]),
        Facet("short", None, c09, "nonce with two different digits", shards=4,
              enum=lambda tier: [{"password": p, "nonce": f"{n:0{k}d}", "pw_text": False, "pad": 1}
                                 for p in ((0x12345678, 0x80000001, 0xF0E1D2C3) if tier == "quick"
                                           else [0x12345678, 0x80000001, 0xF0E1D2C3, 0, M32] + [1 << i for i in range(32)])
                                 for k in (1, 2, 3) for n in range(10 ** k)]),
    ],
)

# --------------------------------------------------------------------------- C10

A_ID, B_ID = "736F70653E", "636F70653E"
HASHES = {"SHA1": hashlib.sha1, "SHA256": hashlib.sha256}
hex_lower = st.text("0123456789abcdef", min_size=1, max_size=64)
key_text = st.one_of(st.text("0123456789abcdef", min_size=40, max_size=40), st.text("0123456789abcdef", min_size=64, max_size=64),
                     hex_lower, st.text("0123456789abcdefABCDEF", min_size=40, max_size=64))
password_text = st.one_of(F.digits(1, 9), st.text(max_size=12), st.just("12345"), st.text(min_size=13, max_size=200),
                          st.text("0123456789abcXYZ!", min_size=1, max_size=20))


def ref_client(alg, ra, rb, pw, a=A_ID, b=B_ID):
    h = HASHES[alg]
    kab = h(pw.encode()).hexdigest()
    return stdhmac.new(ra.encode(), (ra + rb + a + b + kab).encode(), h).digest()


def ref_server(alg, ra, rb, pw):
    h = HASHES[alg]
    kab = h(pw.encode()).hexdigest()
    return stdhmac.new(ra.encode(), (rb + ra + kab).encode(), h).digest()


def _enc(text):
    # lone surrogates cannot be encoded at all: not a password
    try:
        text.encode()
        return True
    except UnicodeEncodeError:
        return False


def c10_auth(case, ctx: Ctx):
    L = lib()
    alg, ra, rb, pw = case["alg"], case["ra"], case["rb"], case["pw"]
    if not _enc(pw) or not _enc(case["pw2"]):
        return
    algo = getattr(L.auth.AuthAlgorithm, alg)
    ctx.mark(len(ra) == len(rb))
    ctx.label(alg)
    c = L.auth.client_hmac(server_key=ra, client_key=rb, password=pw, hash_algorithm=algo)
    s = L.auth.server_hmac(server_key=ra, client_key=rb, password=pw, hash_algorithm=algo)
    expect_equal(bytes(c), ref_client(alg, ra, rb, pw), "client authentication string")
    expect_equal(bytes(s), ref_server(alg, ra, rb, pw), "server authentication string")
    expect_equal(bytes(L.auth.client_hmac(ra, rb, pw, case["a"], case["b"], algo)),
                 ref_client(alg, ra, rb, pw, case["a"], case["b"]), "client string with given identities")
    for other in ((ra, rb, case["pw2"]), (ra, case["rb2"], pw), (case["rb2"], rb, pw)):
        if other == (ra, rb, pw):
            continue
        c2 = L.auth.client_hmac(*other, hash_algorithm=algo)
        s2 = L.auth.server_hmac(*other, hash_algorithm=algo)
        same_len = len(other[0]) == len(ra)
        if same_len:
            check(c2 != c, "client strings agree for %r and %r", other, (ra, rb, pw))
            check(s2 != s, "server strings agree for %r and %r", other, (ra, rb, pw))
    if alg == "SHA256":
        expect_equal(bytes(L.auth.client_hmac(ra, rb, pw)), bytes(c), "default hash")
        expect_equal(bytes(L.auth.server_hmac(ra, rb, pw)), bytes(s), "default hash")


def c10_compare(case, ctx: Ctx):
    L = lib()
    a = bytes.fromhex(case["x"])
    b = bytes.fromhex(case["y"])
    ctx.mark(len(a) == len(b) and a != b)
    ctx.label("equal" if a == b else "different")
    got = L.auth.compare_hmac(a, b)
    check(bool(got) is (a == b), "compare_hmac(%r, %r) is %r", a, b, got)
    got = L.auth.compare_hmac(case["x"].encode(), case["y"].encode())
    check(bool(got) is (case["x"] == case["y"]), "compare_hmac of texts %r, %r is %r", case["x"], case["y"], got)


def c10_digits(case, ctx: Ctx):
    L = lib()
    ctx.mark(len(case) > 1)
    want = "".join(f"{int(c, 16):02d}" for c in case)
    got = L.auth.hex_to_digits(case)
    expect_equal(got, want, f"hex_to_digits({case!r})")
    expect_equal(L.auth.digits_to_hex(got), case.lower(), f"digits_to_hex({got!r})")


_seen_keys: dict[str, set] = {}


def c10_key(case, ctx: Ctx):
    L = lib()
    ctx.mark()
    algo = getattr(L.auth.AuthAlgorithm, case["alg"])
    size = {"SHA1": 40, "SHA256": 64}[case["alg"]]
    keys = [L.auth.create_key(algo) for _ in range(case["n"])]
    for k in keys:
        check(isinstance(k, str) and len(k) == size and all(c in "0123456789abcdef" for c in k),
              "generated key %r is not %d lower-case hexadecimal digits", k, size)
    check(len(set(keys)) == len(keys), "generated keys repeat: %r", keys)
    # a program that seeds the ordinary random generator must not get the same keys again
    state = random.getstate()
    try:
        again = []
        for _ in range(2):
            random.seed(case["n"])
            again.append(L.auth.create_key(algo))
    finally:
        random.setstate(state)
    check(again[0] != again[1], "random.seed(%d) makes the generated key predictable: %r twice", case["n"], again[0])
    # keys must be unpredictable: across many keys every position must vary
    if len(keys) >= 20:
        for i in range(size):
            check(len({k[i] for k in keys}) > 1, "position %d of the generated keys never varies", i)
    if case["alg"] == "SHA256":
        check(len(L.auth.create_key()) == 64, "default key length")


_bytes_hex = st.binary(max_size=32).map(lambda b: b.hex())
_near = st.builds(lambda h, i, c: {"x": h, "y": (h[:i % len(h)] + c + h[i % len(h) + 1:])},
                  st.binary(min_size=1, max_size=32).map(lambda b: b.hex()), st.integers(0, 63),
                  st.sampled_from(list("0123456789abcdef")))

C10 = Property(
    "C10",
    rule="auth: keys of equal length; compare: different strings of equal length; digits: two or more digits; key: any",
    facets=[
        Facet("auth", st.fixed_dictionaries({"alg": st.sampled_from(["SHA1", "SHA256"]), "ra": key_text, "rb": key_text,
                                             "rb2": key_text, "pw": password_text, "pw2": password_text,
                                             "a": st.one_of(st.just(A_ID), hex_lower), "b": st.one_of(st.just(B_ID), hex_lower)}),
              c10_auth, "keys of equal length", 4000, 80000),
        Facet("compare", st.one_of(_near, st.builds(lambda a, b: {"x": a, "y": b}, _bytes_hex, _bytes_hex),
                                   _bytes_hex.map(lambda a: {"x": a, "y": a}),
                                   _bytes_hex.map(lambda a: {"x": a + "00", "y": a})),
              c10_compare, "different strings of equal length", 2000, 40000, shards=2),
        Facet("digits", st.one_of(hex_lower, st.text("0123456789abcdefABCDEF", max_size=64)), c10_digits,
              "two or more digits", 3000, 60000, shards=2, corpus=list("0123456789abcdef")),
        Facet("key", st.fixed_dictionaries({"alg": st.sampled_from(["SHA1", "SHA256"]), "n": st.integers(1, 40)}), c10_key,
              "always", 200, 3000, shards=1),
    ],
    assumptions=["a pair of distinct inputs whose HMACs collide is taken to be impossible",
                 "20 or more fresh random keys agreeing in one position (probability below 16^-19 each) counts as not fresh"],
)

# --------------------------------------------------------------------------- C28


def _mk(L, spec):
    """spec: {'via': 'build'|'parse', 'f': fields}"""
    if spec["via"] == "parse":
        return L.parse_message(F.frame_of(spec["f"]))
    return build(L, spec["f"])


def _ident(f):
    if f["kind"] in ("ACK", "NACK"):
        return (f["kind"],)
    if f["kind"] == "GENERIC":
        return ("GENERIC", tuple(f["tags"]))
    return (f["kind"], f["who"], f.get("what"), f["where"], f.get("dimension"), tuple(f.get("values", ())))


def c28_pairs(case, ctx: Ctx):
    L = lib()
    a, b = _mk(L, case["a"]), _mk(L, case["b"])
    same = _ident(case["a"]["f"]) == _ident(case["b"]["f"])
    ctx.label("equal" if same else "different")
    ctx.mark(same or case["a"]["f"]["kind"] != case["b"]["f"]["kind"])
    ha, hb = hash(a), hash(b)
    for x, y in ((a, b), (b, a)):
        check((x == y) is same, "%r == %r gave %r", x, y, x == y)
        check((x != y) is (not same), "%r != %r gave %r", x, y, x != y)
    check(a == a and not (a != a), "%r != itself", a)
    if same:
        expect_equal(ha, hb, f"hashes of {a!r} and {b!r}")
    expect_equal(len({a, b}), 1 if same else 2, "size of the set of both")
    for m, s in ((a, case["a"]), (b, case["b"])):
        expect_equal(str(m), m.message, "str and message")
        expect_equal(m.bytes, m.message.encode("ascii"), "bytes and message")
        expect_equal(m.message, F.frame_of(s["f"]), "message text")
        for o in (None, 5, m.message, object()):
            check(not (m == o) and m != o, "%r equals %r", m, o)


def c28_copy(case, ctx: Ctx):
    L = lib()
    m = _mk(L, case)
    before = (str(m), m.bytes, hash(m), F.view(m), [str(t) for t in m.tags])
    ctx.mark(case["f"]["kind"] == "GENERIC")
    ctx.label(case["f"]["kind"])
    twin = _mk(L, case)
    for _ in range(2):
        t = m.tags
        if isinstance(t, list):
            t.append("9")
            t[0] = "77"
            t.reverse()
            t.clear()
        for el in (m.tags if isinstance(m.tags, (list, tuple)) else ()):
            p = getattr(el, "parameters", None)
            if isinstance(p, list):
                p.append("1")
    v = getattr(m, "values", None)
    if isinstance(v, list):
        v.append("9")
    after = (str(m), m.bytes, hash(m), F.view(m), [str(t) for t in m.tags])
    expect_equal(after, before, "the message after changing the tags it handed out")
    check(m == twin and hash(m) == hash(twin), "the message no longer equals its twin")


def c28_ack(case, ctx: Ctx):
    L = lib()
    ctx.mark(case in (["#", "1"], ["#", "0"]) or len(case) == 2)
    for name, want in (("ACK", ["#", "1"]), ("NACK", ["#", "0"])):
        cls = getattr(L.messages, name)
        try:
            m = cls.parse(list(case))
        except L.exc.ParseError:
            check(case != want, "%s.parse(%r) was refused", name, case)
        except Exception as e:
            raise Violation(f"{name}.parse({case!r}) raised {describe(e)}") from e
        else:
            check(case == want, "%s.parse(%r) was accepted", name, case)
            check(m == cls() and m.type.value == name, "%s.parse gave %r", name, m)


def _to_generic(t):
    """Any tag list, made generic by an unknown WHO where needed."""
    if (F.classify(t) or {"kind": ""})["kind"] != "GENERIC":
        t = ["9" + t[0].lstrip("#"), *t[1:]]
    if not F.claimed(F.encode_tags(t)) or (F.classify(t) or {"kind": ""})["kind"] != "GENERIC":
        t = ["99", "1"]
    return {"kind": "GENERIC", "tags": t}


_generic_fields = F.frame_tags.map(_to_generic)
_fields = st.one_of(F.message_fields, F.message_fields, _generic_fields)
_mspec = st.builds(lambda f, v: {"via": v, "f": f}, _fields, st.sampled_from(["build", "parse"]))


def _variant(spec, how, via):
    """A near copy of a message: same content, or one field or the kind changed."""
    f = dict(spec["f"])
    if how == "kind":
        k = f["kind"]
        if k == "DIMENSION WRITING" and f["values"]:
            f["kind"] = "DIMENSION RESPONSE"
        elif k == "DIMENSION RESPONSE":
            f["kind"] = "DIMENSION WRITING"
        elif k == "ACK":
            f = {"kind": "NACK"}
        elif k == "NACK":
            f = {"kind": "ACK"}
        elif k == "DIMENSION REQUEST":
            f = {"kind": "DIMENSION WRITING", **{x: f[x] for x in ("who", "where", "dimension")}, "values": []}
    elif how == "generic" and f["kind"] != "GENERIC":
        # the same text as a message of unknown structure
        return {"via": "build", "f": {"kind": "GENERIC", "tags": F.split(F.frame_of(f))}}
    elif how in f and isinstance(f[how], str) and how != "kind":
        f[how] = "2" if how == "who" and f[how] != "2" else ("1" if how == "who" else f[how] + "1")
    elif how == "values" and "values" in f:
        f["values"] = f["values"] + ["1"]
    elif how == "swap" and f.get("values") and len(f["values"]) > 1:
        f["values"] = f["values"][::-1]
    elif how == "tags" and "tags" in f:
        f["tags"] = f["tags"] + ["1", "2", "3"]
    return {"via": via, "f": f}


_pairs = st.one_of(
    st.builds(lambda a, b: {"a": a, "b": b}, _mspec, _mspec),
    st.builds(lambda a, how, via: {"a": a, "b": _variant(a, how, via)}, _mspec,
              st.sampled_from(["same", "same", "kind", "generic", "who", "what", "where", "dimension", "values", "swap", "tags"]),
              st.sampled_from(["build", "parse"])),
)

C28 = Property(
    "C28",
    rule="pairs: equal content, or different kinds; copy: generic messages (mutable tag list); ack: two tags",
    facets=[
        Facet("pairs", _pairs, c28_pairs, "equal content or different kinds", 8000, 160000,
              corpus=[{"a": {"via": v, "f": f}, "b": {"via": w, "f": f}} for v in ("build", "parse") for w in ("build", "parse")
                      for f in ({"kind": "GENERIC", "tags": ["99", "1"]}, {"kind": "NACK"}, {"kind": "ACK"})]),
        Facet("copy", _mspec, c28_copy, "generic messages", 3000, 60000, shards=2,
              corpus=[{"via": v, "f": {"kind": "GENERIC", "tags": ["99", "1"]}} for v in ("build", "parse")]),
        Facet("ack", st.one_of(st.lists(st.sampled_from(["#", "1", "0", "", "#1"]), max_size=3), F.frame_tags),
              c28_ack, "two tags", 2000, 20000, shards=2,
              corpus=[["#", "1"], ["#", "0"], ["1", "#"], ["#"], [], ["#", "1", "1"]]),
    ],
)
