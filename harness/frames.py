"""Reference model of the OpenWebNet frame grammar, and generators over it (independent of pyown)."""
from __future__ import annotations

import re

from hypothesis import strategies as st

KNOWN_WHO = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "13", "14", "15", "16", "17", "18", "22",
             "24", "25", "1001", "1004", "1013", "1018"]

_FRAME = re.compile(r"\*[0-9#*]*##", re.ASCII)


def claimed(text: str) -> bool:
    """Whether the grammar makes a claim about this text ('###' is ambiguous and left open)."""
    return "###" not in text


def well_formed(text: str) -> bool:
    t = text.strip()
    return _FRAME.fullmatch(t) is not None and "##" not in t[:-1]


def split(frame: str) -> list[str]:
    return frame.strip()[1:-2].split("*")


def classify(tags: list[str]) -> dict | None:
    """The kind and fields a frame with these tags must have; None if the documents leave it open."""
    generic = {"kind": "GENERIC", "tags": list(tags)}
    if tags == ["#", "1"]:
        return {"kind": "ACK"}
    if tags == ["#", "0"]:
        return {"kind": "NACK"}
    t0, n = tags[0], len(tags)
    if t0.startswith("#") and t0[1:] in KNOWN_WHO:
        who = t0[1:]
        if n == 1:
            return generic
        if n == 2:
            return {"kind": "STATUS REQUEST", "who": who, "where": tags[1]}
        third = tags[2]
        if third == "":
            return None
        if third.startswith("#"):
            return {"kind": "DIMENSION WRITING", "who": who, "where": tags[1],
                    "dimension": third[1:], "values": tags[3:]}
        if n == 3:
            return {"kind": "DIMENSION REQUEST", "who": who, "where": tags[1], "dimension": third}
        return {"kind": "DIMENSION RESPONSE", "who": who, "where": tags[1], "dimension": third,
                "values": tags[3:]}
    if t0 in KNOWN_WHO and n == 3:
        return {"kind": "NORMAL", "who": t0, "what": tags[1], "where": tags[2]}
    return generic


def frame_of(fields: dict) -> str:
    """The documented encoding of a message."""
    k = fields["kind"]
    if k == "ACK":
        return "*#*1##"
    if k == "NACK":
        return "*#*0##"
    if k == "NORMAL":
        return f"*{fields['who']}*{fields['what']}*{fields['where']}##"
    if k == "STATUS REQUEST":
        return f"*#{fields['who']}*{fields['where']}##"
    if k == "DIMENSION REQUEST":
        return f"*#{fields['who']}*{fields['where']}*{fields['dimension']}##"
    h = "#" if k == "DIMENSION WRITING" else ""
    if k in ("DIMENSION WRITING", "DIMENSION RESPONSE"):
        v = "".join("*" + x for x in fields["values"])
        return f"*#{fields['who']}*{fields['where']}*{h}{fields['dimension']}{v}##"
    return "*" + "*".join(fields["tags"]) + "##"


def view(msg) -> dict:
    """What a user sees of a parsed message, as plain data."""
    kind = str(msg.type.value)
    out: dict = {"kind": kind}
    if kind == "GENERIC":
        out["tags"] = [str(t) for t in msg.tags]
        return out
    for name in ("who", "what", "where", "dimension"):
        v = getattr(msg, name, None)
        if v is not None:
            out[name] = str(v)
    if kind in ("DIMENSION WRITING", "DIMENSION RESPONSE"):
        out["values"] = [str(v) for v in msg.values]
    return out


# --------------------------------------------------------------------------- generators

DIG = "0123456789"


def digits(lo: int = 1, hi: int = 6):
    return st.text(DIG, min_size=lo, max_size=hi)


number = st.one_of(st.sampled_from(["0", "1", "2", "9", "10", "00", "01", "255"]), digits(1, 4),
                   digits(1, 30))


def with_params(base, max_params: int = 4):
    return st.builds(lambda b, p: "#".join([b, *p]), base, st.lists(number, max_size=max_params))


what_text = with_params(number)
dim_text = with_params(number)
# light points, ambients, groups, general, local bus, empty (gateway)
where_text = st.one_of(
    st.sampled_from(["", "0", "00", "11", "99", "0110", "1015", "100", "#1", "#255", "11#4#01",
                     "0#4#15", "71#0", "51", "#2#4#03"]),
    with_params(st.one_of(number, st.just(""))).filter(lambda s: s != ""),
)
value_text = st.one_of(number, st.just(""), st.sampled_from(["000", "0100", "25", "1234567890"]))
who_text = st.sampled_from(KNOWN_WHO)


def _norm(**kw):
    return st.fixed_dictionaries(kw)


message_fields = st.one_of(
    _norm(kind=st.just("ACK")),
    _norm(kind=st.just("NACK")),
    _norm(kind=st.just("NORMAL"), who=who_text, what=what_text, where=where_text),
    _norm(kind=st.just("STATUS REQUEST"), who=who_text, where=where_text),
    _norm(kind=st.just("DIMENSION REQUEST"), who=who_text, where=where_text, dimension=dim_text),
    _norm(kind=st.just("DIMENSION WRITING"), who=who_text, where=where_text, dimension=dim_text,
          values=st.lists(value_text, max_size=8)),
    _norm(kind=st.just("DIMENSION RESPONSE"), who=who_text, where=where_text, dimension=dim_text,
          values=st.lists(value_text, min_size=1, max_size=8)),
)


def _clean_tags(tags: list[str]) -> list[str]:
    out = []
    for t in tags:
        while "##" in t:
            t = t.replace("##", "#")
        out.append(t)
    out[-1] = out[-1].rstrip("#") if out[-1] != "" else ""
    if out == [""] or not out:
        return ["1"]
    return out


# tags with '#' anywhere: leading, trailing (an empty last parameter), between
_soup = st.one_of(
    st.text(DIG + "##", max_size=8),
    st.builds(lambda a, parts, b: a + "#".join(parts) + b, st.sampled_from(["", "#"]), st.lists(number, min_size=1, max_size=3),
              st.sampled_from(["", "#", "#"])),
)
_t0 = st.one_of(
    who_text,
    who_text.map(lambda w: "#" + w),
    digits(1, 4),
    digits(0, 4).map(lambda w: "#" + w),
    _soup,
    st.sampled_from(["98", "99", "#", "01", "#01", "1#2", "#1#2", "11", "9", "26", "1000", "1002"]),
)
_ti = st.one_of(number, what_text, where_text, dim_text.map(lambda d: "#" + d), value_text, _soup)

frame_tags = st.one_of(
    st.builds(lambda a, b: _clean_tags([a, *b]), _t0, st.lists(_ti, max_size=7)),
    message_fields.map(lambda f: split(frame_of(f))),
    st.builds(lambda a, b: _clean_tags([a, *b]), st.one_of(who_text, who_text.map(lambda w: "#" + w)),
              st.lists(st.one_of(_soup, _ti), min_size=1, max_size=4)),
    st.builds(lambda a, b: _clean_tags([a, *b]), _t0, st.lists(_ti, min_size=9, max_size=40)),
)


# long frames: hundreds of values, parameters or digits
_big = st.sampled_from([0, 1, 60, 101, 130, 257, 600, 1500])


def _long_fields(f, nv, npar, nd, fill):
    f = dict(f)
    key = "what" if "what" in f else "dimension" if "dimension" in f else "where" if "where" in f else None
    if key is not None:
        f[key] = (f[key] or "1") + "".join("#" + fill for _ in range(npar))
    if "where" in f and nd:
        f["where"] = f["where"] + (fill * nd)[:nd]
    if "values" in f:
        f["values"] = f["values"] + [str(i) for i in range(nv)]
    return f


long_fields = st.builds(_long_fields, message_fields.filter(lambda f: f["kind"] not in ("ACK", "NACK")),
                        _big, st.sampled_from([0, 0, 1, 40, 130, 400]), st.sampled_from([0, 0, 30, 300, 3000]), digits(1, 3))
long_tags = st.one_of(
    long_fields.map(lambda f: split(frame_of(f))),
    st.builds(lambda a, b, n: _clean_tags([a, *(b * n)[:1500]]), _t0, st.lists(_ti, min_size=1, max_size=4),
              st.sampled_from([20, 60, 130, 300])),
)


def encode_tags(tags: list[str]) -> str:
    return "*" + "*".join(tags) + "##"


well_formed_frame = frame_tags.map(encode_tags)

NASTY = "*#0123456789 \t\n\r\x0b\x00ab-+.²٣१️\u00a0\u2003\x1f,;" 


def _mutate(frame: str, ops: list) -> str:
    s = frame
    for op, pos, ch in ops:
        i = pos % (len(s) + 1)
        if op == "ins":
            s = s[:i] + ch + s[i:]
        elif op == "del":
            s = s[:i] + s[i + 1:]
        elif op == "rep":
            s = s[:i] + ch + s[i + 1:]
        elif op == "dup":
            s = s[:i] + s[i:] + s[i:]
        elif op == "cut":
            s = s[:i]
    return s


any_text = st.one_of(
    st.builds(
        _mutate,
        well_formed_frame,
        st.lists(st.tuples(st.sampled_from(["ins", "del", "rep", "dup", "cut"]),
                           st.integers(0, 60), st.sampled_from(list(NASTY))), max_size=3),
    ),
    st.builds(lambda a, f, b: a + f + b, st.text(" \t\n\r\x0b\x1f\u2003", max_size=3),
              well_formed_frame, st.text(" \t\n\r\x0b\x1f\u2003", max_size=3)),
    st.text("*#01", max_size=14),
    st.text(NASTY, max_size=20),
    st.text(max_size=20),
)
