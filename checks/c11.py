"""C11: a child process gets its arguments and its output and status come back intact."""

import os
import signal

from hypothesis import strategies as st

from vlib import build, driver, proj
from vlib.runner import Info, Violation

ID = "C11"
LEVEL = "exploration"
RULE = ("generated sets of 1 to 14 programs run by up to 8 threads at the same time, each with generated arguments (any bytes but null), a "
        "generated input, a generated sequence of writes of up to 300 kB to stdout and stderr in pieces of generated size, pauses, reading the "
        "input to its end or not at all, closing of streams, exit status or signal, and programs that can't be started; each result is "
        "compared with what the script says; no child and no descriptor is left; sets of programs that are all started before any of them gets its input and that have to end in a generated order; a part of them under address sanitizer; "
        "non-trivial: two programs at the same time, or output of more than a pipe's capacity, or a signal")
ASSUMPTIONS = ["arguments are at most 128 kB each (the kernel's limit); longer ones make the start fail, which must be reported"]
COUNT = {"quick": 4000, "thorough": 40000}
CAP = {"quick": 35, "thorough": 420}
ROUND = 60
close = driver.close

NT = 65521
_table = None


def table():
    global _table
    if _table is None:
        x, t = 12345, bytearray()
        for _ in range(NT):
            x = (x * 1664525 + 1013904223) & 0xffffffff
            t.append(x >> 24)
        _table = bytes(t)
    return _table


def pattern(n, seed):
    p = seed % NT
    t = table()
    return (t[p:] + t * (n // NT + 1))[:n]


def setup(tier):
    driver.setup("exec", "opt")
    driver.setup("exec", "san")
    build.c_program("child")
    table()


SIGS = [s for s in list(range(1, 32)) + [34, 50, 64] if s not in (signal.SIGCHLD, signal.SIGCONT, signal.SIGSTOP, signal.SIGTSTP, signal.SIGTTIN,
                                                                    signal.SIGTTOU, signal.SIGURG, signal.SIGWINCH)]
size = st.sampled_from([0, 1, 2, 100, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 70000, 131072, 300000])
argument = st.one_of(st.sampled_from(["", "a", "-x", "a b", "'", "\"", "\\", "$HOME", "*", "\n", "é", "--", "{\"a\": 1}", "`x`", "L60000", "L131071"]), st.text(st.characters(min_codepoint=1, max_codepoint=0x3000), max_size=20))


@st.composite
def call(draw):
    c = {"in": draw(st.one_of(st.none(), size)), "args": draw(st.lists(argument, max_size=6))}
    if draw(st.integers(0, 11)) == 11:
        c["bad"] = draw(st.sampled_from(["absent", "dir", "noexec", "toolong", "format", "below"]))
        return c
    ops = draw(st.lists(st.one_of(st.tuples(st.sampled_from("oeoe"), size, st.integers(0, 60000)), st.tuples(st.just("s"), st.integers(0, 8)),
                                  st.tuples(st.just("w"), st.sampled_from([1000, 4096, 65536, 65, 20000])),
                                  st.sampled_from([("r",), ("r",), ("a",), ("a",), ("v",), ("p",)]), st.tuples(st.just("c"), st.sampled_from([0, 1, 2]))), max_size=7))
    closed = set()
    out = []
    for o in ops:
        if o[0] == "c":
            closed.add(o[1])
        if o[0] == "o" and 1 in closed or o[0] == "e" and 2 in closed or o[0] in "ravp" and 1 in closed or o[0] == "r" and 0 in closed:
            continue
        out.append(list(o))
    e = draw(st.integers(0, 5))
    if e == 0:
        out.append(["x", draw(st.sampled_from([0, 1, 2, 3, 77, 126, 127, 128, 129, 137, 200, 254, 255]))])
    elif e == 1:
        out.append(["k", draw(st.sampled_from(SIGS))])
    c["ops"] = out
    return c


@st.composite
def strategy_(draw):
    return {"san": draw(st.integers(0, 4)) == 4, "threads": draw(st.sampled_from([1, 2, 4, 8])), "calls": draw(st.lists(call(), min_size=1, max_size=14))}


@st.composite
def order_(draw):
    """Programs that are all started before any of them gets its input, and then have to end in a given order."""
    n = draw(st.integers(2, 6))
    return {"san": draw(st.integers(0, 4)) == 4, "order": draw(st.permutations(range(n))),
            "calls": [{"in": draw(st.sampled_from([None, 0, 1, 65536, 131072, 300000])), "out": draw(st.sampled_from([0, 10, 70000, 200000])), "err": draw(st.sampled_from([0, 0, 10, 70000])), "early": draw(st.booleans()),
                       "x": draw(st.sampled_from([0, 0, 1, 255]))} for _ in range(n)]}


def strategy(tier):
    return st.integers(0, 9).flatmap(lambda k: order_() if k == 0 else strategy_())


def run_order(case, ctx):
    child = build.c_program_path("child")
    drv = driver.get(ctx, "exec", "san" if case["san"] else "opt", env={"VTEST": "it is ü"})
    root = ctx.scratch()
    calls, order = case["calls"], case["order"]
    n = len(calls)
    path = lambda kind, k: os.path.join(root, f"{kind}{k}")
    fields = [str(n)]
    want = []
    for k, c in enumerate(calls):
        before = order.index(k)
        words = [f"t{path('started', k)}", f"f{path('started', n - 1)}"]
        o, e = b"", b""
        if c["early"]:
            words += [f"o{c['out']}:{k}", f"e{c['err']}:{k + 1}"]
        if before:
            words.append(f"f{path('done', order[before - 1])}")
        words.append("r")
        if not c["early"]:
            words += [f"o{c['out']}:{k}", f"e{c['err']}:{k + 1}"]
        words.append(f"x{c['x']}")
        got = b"[%d %016x]" % (c["in"] or 0, in_hash(c["in"] or 0))
        o = pattern(c["out"], k) + got if c["early"] else got + pattern(c["out"], k)
        want.append((f"exit {c['x']} " + ("failed" if c["x"] else "ok"), o, pattern(c["err"], k + 1)))
        fields += ["1" if c["in"] is not None else "0", pattern(c["in"], 7) if c["in"] is not None else b"", child, "1", " ".join(words), path("started", k - 1) if k else "", path("done", k)]
    r = drv.call(*fields, patience=ctx.patience)
    for i, w in enumerate(want):
        st_, o, e = r[3 + 3 * i:6 + 3 * i]
        if (st_.decode(), o, e) != w:
            raise Violation(f"programs that have to end in the order {order}: program {i} gave {st_.decode()}, {len(o)} and {len(e)} bytes ({o[:60]!r}, {e[:60]!r}), expected {w[0]}, {len(w[1])} and {len(w[2])} bytes")
    if r[2] != b"none" or r[0] != r[1]:
        raise Violation(f"a child process or a descriptor is left: {r[:3]}")
    return Info(True, ["fixed order", f"programs {n}"])


def long_arg(a):
    return "L" * int(a[1:]) if a.startswith("L") and a[1:].isdigit() else a


def fnv(data):
    return proj.fnv(proj.FNV0, data)


_in_hash = {}


def in_hash(n):
    if n not in _in_hash:
        _in_hash[n] = fnv(pattern(n, 7))
    return _in_hash[n]


def run_case(case, ctx):
    if "order" in case:
        return run_order(case, ctx)
    child = build.c_program_path("child")
    drv = driver.get(ctx, "exec", "san" if case["san"] else "opt", env={"VTEST": "it is ü"})
    root = None
    fields = [str(case["threads"])]
    want = []
    big = False
    sig = False
    bad = False
    for c in case["calls"]:
        exe = child
        args = [long_arg(a) for a in c["args"]]
        inp = pattern(c["in"], 7) if c["in"] is not None else b""
        if "bad" in c:
            bad = True
            if root is None:
                root = ctx.scratch()
            exe = os.path.join(root, c["bad"])
            if c["bad"] == "dir":
                os.makedirs(exe, exist_ok=True)
            elif c["bad"] == "noexec":
                with open(exe, "w") as f:
                    f.write("#!/bin/sh\nexit 0\n")
                os.chmod(exe, 0o644)
            elif c["bad"] == "format":
                with open(exe, "w") as f:
                    f.write("exit 0\n")
                os.chmod(exe, 0o755)
            elif c["bad"] == "toolong":
                exe = child
                args = ["x0", "L" * 140000]
            elif c["bad"] == "below":
                exe = child + "/x"
            want.append(("error", exe))
        else:
            o, e = b"", b""
            words = []
            status = "exit 0 ok"
            for op in c["ops"]:
                k = op[0]
                if k in "oe":
                    words.append(f"{k}{op[1]}:{op[2]}")
                    if k == "o":
                        o += pattern(op[1], op[2])
                    else:
                        e += pattern(op[1], op[2])
                elif k == "r":
                    words.append("r")
                    n = len(inp) if "r" not in words[:-1] else 0
                    o += b"[%d %016x]" % (n, in_hash(n))
                elif k == "a":
                    words.append("a")
                    for a in args:
                        b = a.encode()
                        o += b"<%d " % len(b) + b + b">"
                elif k == "p":
                    words.append("p")
                    o += b"{default}"
                elif k == "v":
                    words.append("v")
                    o += "it is ü|".encode() + os.getcwd().encode()
                else:
                    words.append(k + str(op[1]))
                    if k == "x":
                        status = f"exit {op[1]} " + ("ok" if op[1] == 0 else "failed")
                    elif k == "k":
                        status = f"signal {op[1]} failed"
                        sig = True
            if len(o) > 65536 or len(e) > 65536:
                big = True
            args = [" ".join(words), *args]
            want.append((status, o, e))
        fields += ["1" if c["in"] is not None else "0", inp, exe, str(len(args)), *args, "", ""]
    r = drv.call(*fields, patience=ctx.patience)
    for i, w in enumerate(want):
        st_, o, e = r[3 + 3 * i:6 + 3 * i]
        st_ = st_.decode()
        if w[0] == "error":
            if st_ != "error":
                raise Violation(f"call {i}: {w[1]} can't be started, but the result is {st_}, {o[:200]!r}, {e[:200]!r}")
            if not o:
                raise Violation(f"call {i}: the error has no text")
            continue
        if st_ != w[0]:
            raise Violation(f"call {i}: the result is {st_} ({o[:300]!r}, {e[:300]!r}), expected {w[0]}")
        for what, got, exp in (("stdout", o, w[1]), ("stderr", e, w[2])):
            if got != exp:
                k = next((k for k, (a, b) in enumerate(zip(got, exp)) if a != b), min(len(got), len(exp)))
                raise Violation(f"call {i}: {what} has {len(got)} bytes, expected {len(exp)}; first difference at {k}: {got[k:k + 40]!r}, "
                                f"expected {exp[k:k + 40]!r}")
    if r[2] != b"none":
        raise Violation("a child process is left after all calls have returned")
    if r[0] != r[1]:
        raise Violation(f"{r[0].decode()} descriptors were open before the calls, {r[1].decode()} after")
    labels = [f"threads {case['threads']}", "calls " + ("1" if len(want) == 1 else "2-5" if len(want) < 6 else "6+")]
    labels += ["big output"] * big + ["signal"] * sig + ["not startable"] * bad
    return Info(big or sig or (case["threads"] > 1 and len(want) > 1), labels)
