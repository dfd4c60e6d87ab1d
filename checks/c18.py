"""C18: buffered streams and queues deliver every byte once and in order."""

import os

from hypothesis import strategies as st

from vlib import driver
from vlib.runner import Info, Violation

ID = "C18"
LEVEL = "exploration"
RULE = ("generated bytes are written in generated pieces (empty ones too) to a queue, directly or through a writer or an output buffer of generated capacity with generated flushes, and read back in generated pieces directly or "
        "through a reader or an input buffer, one after the other, in two threads with generated delays, or in lockstep (the writer goes on when what it wrote has been read); also files of generated size (regular ones, pipes with "
        "slow writers, directories, missing ones) read through file handles that are moved around, and the in-memory streams of child processes; what is read must be what was written, followed by the end; run with the address, "
        "undefined behaviour and thread sanitizers; non-trivial: at least three pieces on each side and more bytes than the smaller buffer")
ASSUMPTIONS = ["one reader and one writer at a time per queue", "a queue is not read again after its end"]
COUNT = {"quick": 30000, "thorough": 500000}
CAP = {"quick": 30, "thorough": 420}
CAPS = [1, 2, 3, 7, 64, 4096]


def setup(tier):
    driver.setup("io", "san")
    driver.setup("io", "tsan")


@st.composite
def data(draw, big):
    n = draw(st.one_of(st.integers(0, 12), st.integers(0, 300), st.sampled_from([63, 64, 65, 4095, 4096, 4097, 8192]), st.integers(0, big)))
    how = draw(st.sampled_from(["count", "random", "ff", "zero", "lines"]))
    return [n, how, draw(st.integers(0, 1 << 30)) if how == "random" else 0]


def make(d):
    n, how, seed = d
    if how == "count":
        # differs at every distance below 251 * 256
        return bytes((i % 251 + i // 251) % 256 for i in range(n))
    if how == "random":
        import random
        return random.Random(seed).randbytes(n)
    if how == "ff":
        return bytes(255 if i % 3 else i % 256 for i in range(n))
    if how == "zero":
        return bytes(n // 2) + b"\x01" + bytes(n)
    return b"".join(b"line %d\n" % i for i in range(n // 8))


def sizes(lo=1, hi=5000):
    return st.lists(st.one_of(st.integers(lo, 9), st.integers(lo, 9), st.integers(lo, 200), st.integers(lo, hi)), min_size=1, max_size=7)


@st.composite
def strategy_(draw):
    kind = draw(st.sampled_from(["pipe"] * 6 + ["words", "buffers", "buffers", "file", "file", "mem"]))
    c = {"kind": kind}
    pace = st.one_of(st.just(0), st.integers(1, 1 << 40))
    if kind == "pipe":
        c["data"] = draw(data(9000))
        c["w"] = draw(st.sampled_from(["direct", "writer", "chars", "buffer", "buffer"]))
        c["wcap"] = draw(st.sampled_from(CAPS))
        c["ws"] = draw(sizes(1 if c["w"] == "buffer" else 0))
        c["r"] = draw(st.sampled_from(["direct", "reader", "buffer", "buffer"]))
        c["rcap"] = draw(st.sampled_from(CAPS))
        c["rs"] = draw(sizes())
        c["mode"] = draw(st.sampled_from(["seq", "par", "par", "lockstep"]))
        c["pace"] = [draw(pace), draw(pace)]
        c["san"] = draw(st.sampled_from(["san", "tsan"]))
    elif kind == "words":
        c["n"] = draw(st.integers(0, 3000))
        c["ws"], c["rs"] = draw(sizes(0)), draw(sizes())
        c["pace"] = [draw(pace), draw(pace)]
        c["san"] = draw(st.sampled_from(["san", "tsan"]))
    elif kind == "buffers":
        c["data"] = draw(data(9000))
        c["wcap"], c["rcap"] = draw(st.sampled_from(CAPS)), draw(st.sampled_from(CAPS))
        c["ws"], c["rs"] = draw(sizes()), draw(sizes())
    elif kind == "file":
        c["data"] = draw(data(20000))
        c["what"] = draw(st.sampled_from(["file", "file", "file", "pipe", "dir", "missing"]))
        c["r"] = draw(st.sampled_from(["direct", "reader", "buffer", "buffer"]))
        c["rcap"] = draw(st.sampled_from(CAPS))
        c["rs"] = draw(sizes())
        c["moves"] = draw(st.text("car", max_size=4))
        c["cut"] = draw(st.integers(1, 3000))
    else:
        c["data"] = draw(data(3000))
        c["payload"] = draw(data(3000))
        c["rs"] = draw(sizes())
        c["ops"] = draw(st.lists(st.tuples(st.integers(1, 2), st.integers(0, 700)).map(list), max_size=12))
    return c


def strategy(tier):
    return strategy_()


def join(v):
    if not any(v):
        v = v + [1]
    return ",".join(map(str, v))


def differ(a, b):
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"{len(a)} bytes instead of {len(b)}, first difference at {n}: {a[n:n + 20]!r} instead of {b[n:n + 20]!r}"


def run_case(case, ctx):
    kind = case["kind"]
    d = driver.get(ctx, "io", case.get("san", "san"), timeout=15, alone=True)
    if kind == "pipe":
        b = make(case["data"])
        r = d.call("pipe", b, case["w"], case["wcap"], join(case["ws"]), case["r"], case["rcap"], join(case["rs"]), case["mode"], *case["pace"], patience=ctx.patience)
        if r[0] != b"ok":
            raise Violation(f"queue: {r[1]!r}")
        if r[1] != b:
            raise Violation(f"read from the queue: {differ(r[1], b)}", kind="det" if case["mode"] == "seq" else "race")
        wn = len(b) // case["wcap"] if case["w"] == "buffer" else len(b) * len(case["ws"]) // max(sum(case["ws"]), 1)
        rn = len(b) // case["rcap"] if case["r"] == "buffer" else len(b) * len(case["rs"]) // max(sum(case["rs"]), 1)
        return Info(wn >= 3 and rn >= 3, ["pipe " + case["mode"], "write " + case["w"], "read " + case["r"], case["san"]] + (["empty piece"] if 0 in case["ws"] else []))
    if kind == "words":
        r = d.call("words", case["n"], join(case["ws"]), join(case["rs"]), *case["pace"], patience=ctx.patience)
        if r != [b"ok", str(case["n"]).encode()]:
            raise Violation(f"queue of words: {r}", kind="race")
        return Info(case["n"] > 20, ["words", case["san"]])
    if kind == "buffers":
        b = make(case["data"])
        r = d.call("buffers", b, case["wcap"], join(case["ws"]), case["rcap"], join(case["rs"]), patience=ctx.patience)
        if r[0] != b"ok":
            raise Violation(f"input buffer of {case['rcap']} from a source with short reads: {r[1]!r}")
        if r[1] != b:
            raise Violation(f"written through an output buffer of {case['wcap']}: {differ(r[1], b)}")
        if r[2] != b:
            raise Violation(f"read through an input buffer of {case['rcap']}: {differ(r[2], b)}")
        return Info(len(b) > 3 * min(case["wcap"], case["rcap"]), ["buffers"])
    if kind == "file":
        b = make(case["data"])
        base = ctx.scratch()
        path = os.path.join(base, "f")
        other = os.path.join(base, "g")
        with open(other, "wb") as f:
            f.write(b"not this one")
        what = case["what"]
        pid = 0
        if what == "pipe":
            os.mkfifo(path)
            pid = os.fork()
            if pid == 0:
                try:
                    fd = os.open(path, os.O_WRONLY)
                    for k in range(0, len(b), case["cut"]):
                        os.write(fd, b[k:k + case["cut"]])
                except BaseException:
                    pass
                finally:
                    os._exit(0)
        elif what == "file":
            with open(path, "wb") as f:
                f.write(b)
        elif what == "dir":
            os.mkdir(path)
        elif what == "missing":
            path += "/x"
        try:
            r = d.call("file", path, case["r"], case["rcap"], join(case["rs"]), case["moves"], other, patience=ctx.patience)
        finally:
            if pid:
                os.kill(pid, 9)
                os.waitpid(pid, 0)
        if what in ("dir", "missing"):
            if r[0] != b"error":
                raise Violation(f"reading a {what}: {r[0]!r} instead of an error")
            return Info(what == "dir", ["file " + what])
        if r[0] != b"ok":
            raise Violation(f"reading a file ({what}, moves {case['moves']!r}): {r}")
        if r[1] != b:
            raise Violation(f"reading a file ({what}, moves {case['moves']!r}): {differ(r[1], b)}")
        return Info(len(b) > 3, ["file " + what, "moves" if case["moves"] else "no moves"])
    b, p = make(case["data"]), make(case["payload"])
    r = d.call("mem", b, join(case["rs"]), ",".join(f"{a},{n}" for a, n in case["ops"]), p, patience=ctx.patience)
    want = [b"", b""]
    pos = 0
    for a, n in case["ops"]:
        want[a - 1] += p[pos:pos + n]
        pos += n
    for label, x, y in zip(["stdin", "stdout", "stderr"], r[1:], [b, *want]):
        if x != y:
            raise Violation(f"in-memory {label}: {differ(x, y)}")
    return Info(len(b) > 3 and len(case["ops"]) > 2, ["mem"])


close = driver.close
