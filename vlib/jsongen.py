"""JSON values and texts; strict comparison."""

import json
import struct

from hypothesis import strategies as st

keys = st.one_of(st.sampled_from(["a", "b", "c", "key 1", "", "ü", "a.b", "\"", "\\", "日本"]), st.text(st.characters(exclude_characters="\0", exclude_categories=["Cs"]), max_size=6))
strings = st.one_of(st.sampled_from(["", "x", "a b", "{", "}", "]", "[", "\\", "\"", "\n", "ü", "日本語", "😀", "//", "}" * 5]),
                    st.text(st.characters(exclude_characters="\0", exclude_categories=["Cs"]), max_size=12))
ints = st.one_of(st.integers(-5, 5), st.sampled_from([2**63 - 1, -2**63, 2**31, -2**31 - 1, 2**32, 10**15]), st.integers(-2**63, 2**63 - 1))
floats = st.one_of(st.sampled_from([0.5, -0.125, 1.0, -0.0, 1e300, 5e-324, 0.1, 1 / 3]), st.floats(allow_nan=False, allow_infinity=False))
scalar = st.one_of(st.none(), st.booleans(), ints, floats, strings)
value = st.recursive(scalar, lambda x: st.one_of(st.lists(x, max_size=5), st.dictionaries(keys, x, max_size=5)), max_leaves=15)
obj = st.dictionaries(keys, value, max_size=5)


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return isinstance(b, float) and struct.pack("<d", a) == struct.pack("<d", b)
    return type(a) is type(b) and a == b


class Bad(Exception):
    pass


def _pairs(p):
    d = {}
    for k, v in p:
        if k in d:
            raise Bad("duplicate")
        d[k] = v
    return d


def _int(s):
    v = int(s)
    if not -2**63 <= v < 2**63:
        raise Bad("range")
    return v


def _float(s):
    v = float(s)
    if v in (float("inf"), float("-inf")):
        raise Bad("range")
    return v


def _const(s):
    raise Bad("constant")


DEC = json.JSONDecoder(object_pairs_hook=_pairs, parse_int=_int, parse_float=_float, parse_constant=_const)


def _strings(v):
    if isinstance(v, str):
        yield v
    elif isinstance(v, list):
        for x in v:
            yield from _strings(x)
    elif isinstance(v, dict):
        for k, x in v.items():
            yield k
            yield from _strings(x)


def parse(text):
    """(value, end) of the document that text (bytes) begins with; raises Bad"""
    try:
        s = text.decode()
        t = s.lstrip(" \t\r\n")
        v, end = DEC.raw_decode(t)
    except Bad:
        raise
    except (ValueError, RecursionError) as e:
        raise Bad(str(e))
    for x in _strings(v):
        if "\0" in x or any(0xD800 <= ord(c) < 0xE000 for c in x):
            raise Bad("character")
    return v, len(s) - len(t) + end


def loads(b):
    v, _ = parse(b)
    return v
