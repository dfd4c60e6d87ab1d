"""C09: JSON data is read and written without change, and bad data is refused."""

import json

from hypothesis import strategies as st

from vlib import driver, jsongen
from vlib.runner import Info, Violation

ID = "C09"
LEVEL = "exploration"
RULE = ("generated JSON values written in generated styles and read in generated pieces, compared with what comes back through both output "
        "formats, iteration, typed access and assignment; damaged texts (cut, with bytes inserted, removed or replaced), judged by an "
        "independent parser; all under address and undefined-behaviour sanitizers; non-trivial: a document with at least 3 values, or a "
        "damaged text that is not empty")
ASSUMPTIONS = ["Python's JSON parser, restricted to 64-bit integers, finite reals, unique keys and strings without null characters, is right",
               "what follows the first complete document is not looked at"]
COUNT = {"quick": 30000, "thorough": 600000}
CAP = {"quick": 40, "thorough": 420}
ROUND = 250
close = driver.close
TYPES = ["string", "integer", "float", "compound", "array"]


def setup(tier):
    driver.setup("json")


cuts = st.one_of(st.just([]), st.lists(st.sampled_from([1, 2, 3, 7, 100, 1023, 1024, 4096]), min_size=1, max_size=3))
style = st.fixed_dictionaries({"indent": st.sampled_from([None, None, 0, 1, 4]), "ascii": st.booleans(), "sep": st.sampled_from([[", ", ": "], [",", ":"], [" , ", " :\t"]]),
                               "lead": st.sampled_from(["", "", " ", "\n\n", "\r\n\t "]), "trail": st.sampled_from(["", "", "\n", " \n", " junk", "}", "{\"x\":1}", "\0"])})


@st.composite
def strategy_(draw):
    op = draw(st.sampled_from(["load", "load", "damage", "damage", "damage", "compound", "array", "access", "elems", "set", "blank"]))
    c = {"op": op, "cuts": draw(cuts), "style": draw(style)}
    if op in ("load",):
        c["v"] = draw(jsongen.value)
    elif op == "damage":
        v = draw(st.one_of(jsongen.obj, st.lists(jsongen.value, max_size=5)))
        c["v"] = v
        c["how"] = draw(st.lists(st.tuples(st.sampled_from(["cut", "cut", "ins", "del", "rep"]), st.integers(0, 1000),
                                           st.sampled_from(["?", ",", "}", "]", "\"", ":", "{", "[", "\\", "0", "-", "e", ".", "t", "\x01", "\xff", "\\u0000", "\\ud800", "1e999",
                                                            "99999999999999999999", "NaN", " ", "'", "null", "\n", "//", "\x7f", "+1"])), min_size=1, max_size=2))
    elif op == "compound":
        c["v"] = draw(jsongen.obj)
    elif op in ("array", "elems"):
        c["v"] = draw(st.lists(jsongen.value, max_size=6))
        c["type"] = draw(st.sampled_from(TYPES))
    elif op == "access":
        c["v"] = draw(jsongen.obj)
        c["k"] = draw(st.integers(0, 5))
        c["other"] = draw(jsongen.keys)
        c["type"] = draw(st.sampled_from(TYPES))
        c["opt"] = draw(st.booleans())
        c["ref"] = draw(st.booleans())
    elif op == "set":
        c["v"] = draw(jsongen.obj)
        c["k"] = draw(jsongen.keys)
        c["new"] = draw(jsongen.value)
    else:
        c["blank"] = "".join(draw(st.lists(st.sampled_from([" ", "\n", "\t", "\r\n", " " * 1024, "\n" * 4096]), max_size=5)))
    c["pad"] = draw(st.sampled_from([0, 0, 0, 0, 0, 1, 200]))
    return c


def strategy(tier):
    return strategy_()


def size(v):
    if isinstance(v, dict):
        return 1 + sum(map(size, v.values()))
    if isinstance(v, list):
        return 1 + sum(map(size, v))
    return 1


def kind(v):
    return ("string" if isinstance(v, str) else "none" if v is None or isinstance(v, bool) else "integer" if isinstance(v, int)
            else "float" if isinstance(v, float) else "compound" if isinstance(v, dict) else "array")


def run_case(case, ctx):
    drv = driver.get(ctx, "json")
    cu = ",".join(map(str, case["cuts"]))
    s = case["style"]
    op = case["op"]
    if op == "blank":
        r = drv.call("load", case["blank"], cu, "name")
        if r != [b"empty"]:
            raise Violation(f"the blank text {case['blank'][:100]!r} gives {r}")
        r = drv.call("compound", case["blank"], cu, "name")
        if r[:2] != [b"ok", b"0"]:
            raise Violation(f"the blank text {case['blank'][:100]!r} gives the compound {r}")
        return Info(False, ["blank"])
    v = case["v"]
    if case["pad"] and isinstance(v, list):
        v = v + ["ü" * case["pad"] + " }" for _ in range(case["pad"] // 4 + 1)]
    if case["pad"] and isinstance(v, dict):
        v = dict(v)
        for i in range(case["pad"] // 4 + 1):
            v[f"pad{i}"] = "ü" * case["pad"] + " ]"
    body = json.dumps(v, indent=s["indent"], ensure_ascii=s["ascii"], separators=tuple(s["sep"]))
    if op == "damage":
        return damage(case, drv, body, cu)
    trail = s["trail"] if isinstance(v, (dict, list, str)) else ""
    text = (s["lead"] + body + trail).encode()

    def back(b, what):
        try:
            x = jsongen.loads(b)
        except jsongen.Bad:
            raise Violation(f"{what} of {text!r} gives {b!r}, which is no JSON")
        return x

    def eq(b, want, what):
        if not jsongen.same(back(b, what), want):
            raise Violation(f"{what} of {text!r} gives {b!r}, expected {want!r}")
    if op == "load":
        r = drv.call("load", text, cu, "some name")
        if r[0] != b"ok":
            raise Violation(f"{text!r} read in pieces {case['cuts']}: {r}")
        eq(r[1], v, "the compact form")
        eq(r[2], v, "the pretty-printed form")
        r2 = drv.call("load", r[2], cu, "x")
        if r2[:3] != r[:3]:
            raise Violation(f"{r[2]!r} read again gives {r2}, not {r}")
    elif op == "compound":
        r = drv.call("compound", text, cu, "x")
        if r[0] != b"ok" or int(r[1]) != len(v):
            raise Violation(f"{text!r} as compound: {r}")
        eq(r[2], v, "the value")
        it = {}
        for i in range(3, len(r), 2):
            if r[i].decode() in it:
                raise Violation(f"key {r[i]!r} comes twice in {text!r}")
            it[r[i].decode()] = back(r[i + 1], "an element")
        if not jsongen.same(it, v):
            raise Violation(f"iterating over {text!r} gives {it!r}")
        r = drv.call("array", text, cu, "x")
        if r[0] != b"error":
            raise Violation(f"{text!r} is taken for an array")
    elif op == "array":
        r = drv.call("array", text, cu, "x")
        if r[0] != b"ok" or int(r[1]) != len(v):
            raise Violation(f"{text!r} as array: {r}")
        if not jsongen.same([back(x, "an element") for x in r[2:]], v):
            raise Violation(f"iterating over {text!r} gives {r[2:]!r}")
        r = drv.call("compound", text, cu, "x")
        if r[0] != b"error":
            raise Violation(f"{text!r} is taken for a compound")
    elif op == "elems":
        r = drv.call("elems", text, case["type"])
        want = [json.dumps(x) if kind(x) == case["type"] else "error" for x in v]
        if len(r) != len(want):
            raise Violation(f"{text!r} has {len(want)} elements, iteration gives {len(r)}")
        for a, x in zip(r, v):
            if kind(x) == case["type"]:
                eq(a, x, "an element")
            elif a != b"error":
                raise Violation(f"element {x!r} of {text!r} can be got as {case['type']}: {a!r}")
    elif op == "access":
        ks = sorted(v)
        key = ks[case["k"] % len(ks)] if ks and case["k"] < 5 else case["other"]
        r = drv.call("access", text, key, case["type"], int(case["opt"]), int(case["ref"]))
        if key not in v:
            want = b"absent" if case["opt"] else b"error"
            if r[0] != want:
                raise Violation(f"key {key!r} of {text!r}, which does not exist, gives {r}")
        elif kind(v[key]) != case["type"]:
            if r[0] != b"error":
                raise Violation(f"key {key!r} of {text!r} can be got as {case['type']}: {r}")
        else:
            if r[0] != b"value":
                raise Violation(f"key {key!r} of {text!r} can't be got as {case['type']}: {r}")
            eq(r[1], v[key], f"key {key!r}")
    elif op == "set":
        new = dict(v)
        new[case["k"]] = case["new"]
        r = drv.call("set", text, case["k"], json.dumps(case["new"]))
        if r[0] != b"ok":
            raise Violation(f"setting {case['k']!r} in {text!r}: {r}")
        eq(r[1], new, f"setting {case['k']!r} to {case['new']!r}")
        eq(r[2], v, f"setting {case['k']!r} in a copy")
        eq(r[3], case["new"], "the value set")
    return Info(size(v) >= 3, [op])


def damage(case, drv, body, cu):
    b = body.encode()
    for how, pos, x in case["how"]:
        i = pos % (len(b) + 1)
        xb = b"\xff" if x == "\xff" else x.encode()
        if how == "cut":
            b = b[:i]
        elif how == "ins":
            b = b[:i] + xb + b[i:]
        elif how == "del":
            b = b[:i] + b[i + 1:]
        else:
            b = b[:i] + xb + b[i + 1:]
    text = case["style"]["lead"].encode() + b
    t = text.strip(b" \t\r\n")
    if t and t[:1] not in (b"{", b"[") and len(t) > 1 and t[:1] != b"?":
        # a scalar first: whether it is one may depend on what comes next
        text = b"[" + text
    try:
        want, end = jsongen.parse(text)
        ok = True
    except jsongen.Bad:
        ok = False
        if b"\xff" in text or b"\xc3" in text or any(c > 127 for c in text):
            # not decided here where the broken character is: it may come after the document
            try:
                cut = text.decode(errors="strict")
            except ValueError as e:
                try:
                    want, end = jsongen.parse(text[:e.start])
                    ok = True
                except jsongen.Bad:
                    pass
    r = drv.call("load", text, cu, "the source")
    if text.strip(b" \t\r\n") == b"":
        if r != [b"empty"]:
            raise Violation(f"the blank text {text!r} gives {r}")
        return Info(False, ["damaged: blank"])
    if all(c <= 32 for c in text):
        return Info(False, ["damaged: control characters only"])
    if ok:
        if r[0] != b"ok":
            raise Violation(f"{text!r} is refused: {r}")
        if not jsongen.same(jsongen.loads(r[1]), want):
            raise Violation(f"{text!r} gives {r[1]!r}")
        return Info(False, ["damaged: still valid"])
    if r[0] != b"error":
        raise Violation(f"{text!r} is not valid, but gives {r}")
    msg = r[1].decode(errors="replace")
    parts = msg.split(":")
    if parts[0] != "the source" or len(parts) < 3 or not parts[1].isdigit() or not parts[2].isdigit():
        raise Violation(f"the error for {text!r} does not begin with source and position: {msg!r}")
    if not 1 <= int(parts[1]) <= text.count(b"\n") + 1:
        raise Violation(f"the error for {text!r} is said to be on line {parts[1]}")
    c = drv.call("compound", text, cu, "the source")
    if c[0] != b"error":
        raise Violation(f"{text!r} is not valid, but gives the compound {c}")
    return Info(True, ["damaged"])
