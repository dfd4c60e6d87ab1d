"""C24: the log shows each recipe's result and output, complete and unmixed."""

import json
import os
import re
import subprocess

from hypothesis import strategies as st

from vlib import gen, proj
from vlib.runner import Info, Violation
from . import common

ID = "C24"
LEVEL = "exploration"
RULE = ("generated projects whose recipes write generated bytes (lines of every kind, null bytes, text that looks like the log itself, up to 300 kB) to stdout and stderr in pieces, and some of which fail, built twice with generated log levels "
        "and worker counts; stdout has to be a sequence of exactly the expected entries, each recipe's text has to appear once and in one piece; non-trivial: at least 2 recipes with output ran with several workers")
ASSUMPTIONS = ["names contain no newline"]
COUNT = {"quick": 3000, "thorough": 40000}
CAP = {"quick": 40, "thorough": 420}
HEADER = re.compile("^(?:(?P<cmd>.*) #)? (?P<id>[0-9]+) \\| (?P<ok>✓|✗) \\| (?P<path>.*) \\| (?P<t0>[0-9]+|-) \\| (?P<t1>[0-9]+|-) ?$")
PIECES = ["line", "line", "line", "empty", "nonl", "nul", "fake", "prefix", "hash", "cr", "bytes", "big", "many", "cmd", "blank"]
LEVELS = ["compilation_command", "compilation_command", "source_file_info", None, "errors"]


def setup(tier):
    proj.setup("opt")


@st.composite
def strategy_(draw):
    c = draw(gen.project(max_mods=10, min_mods=2, odd=draw(st.booleans())))
    rounds = []
    for _ in range(2):
        r = {"level": draw(st.sampled_from(LEVELS)), "workers": draw(st.sampled_from([1, 2, 4, 8, 8])), "force": draw(st.integers(0, 3)) == 3,
             "fmt": draw(st.sampled_from([None, None, "plain_text", "ansi_term"])), "edit": draw(st.lists(st.integers(0, 99), max_size=3)), "maxdelay": draw(st.sampled_from([0, 0, 2000])),
             "one": draw(st.one_of(st.none(), st.none(), st.none(), st.none(), st.integers(0, 50))), "text": [], "fail": []}
        for _ in range(draw(st.integers(0, 9))):
            r["text"].append([draw(st.integers(0, 99)), draw(pieces()), draw(pieces()), draw(st.sampled_from([0, 1, 7, 4096, 65536])), draw(st.sampled_from([0, 0, 100]))])
        if draw(st.integers(0, 2)) == 2:
            r["fail"] = draw(st.lists(st.tuples(st.integers(0, 99), st.sampled_from(["exit 1", "exit 255", "signal 9", "signal 11"])), min_size=1, max_size=2))
        rounds.append(r)
    c["rounds"] = rounds
    return c


def pieces():
    return st.lists(st.tuples(st.sampled_from(PIECES), st.integers(0, 30)), max_size=6)


def strategy(tier):
    return strategy_()


def expand(items, mark, path):
    """the bytes that one recipe writes to one stream"""
    out = mark.encode() if items else b""
    for kind, n in items:
        word = "".join(chr(97 + (i * 7 + n) % 26) for i in range(n)).encode()
        out += {"line": word + b"\n", "empty": b"\n", "nonl": word, "nul": word + b"\0" + word + b"\0\n", "fake": f" {n} | ✓ | {path} | 1 | 2\n".encode(), "prefix": b" ... " + word + b"\n",
                "hash": b"# Build job with 1 workers started\n#\n", "cr": word + b"\r\n\r" + word, "bytes": bytes(range(1, 256)), "big": word[:1] * (n * 10000) + b"\n", "many": (word + b"\n") * (n * n),
                "cmd": f"'./x' 'compile' '{{}}' # {n} | ✗ | {path} | 1 | 2\n".encode(), "blank": b" \n\t\n\n"}[kind]
    return out


def shown(data):
    """stdout of a recipe as it appears in the log"""
    if not data:
        return b""
    lines = data.split(b"\n")
    if lines[-1] == b"":
        lines.pop()
    return b"".join(b" ... " + x + b"\n" for x in lines)


def entries(text, level, want, what):
    """parses the log: {path: match}; want: {path: bytes shown}"""
    pos = 0
    for _ in range(7):
        e = text.find(b"\n", pos)
        if e < 0 or text[pos:pos + 1] != b"#":
            raise Violation(f"{what}: the description of the job is not complete")
        pos = e + 1
    got = {}
    while pos < len(text):
        here = text[pos:pos + 600]
        if level == "errors":
            if text[pos:pos + 1] == b"\n":      # for a recipe that need not be run
                pos += 1
                continue
            path = next((p for p, b in want.items() if p not in got and b and text.startswith(b, pos)), None)
            if path is None:
                raise Violation(f"{what}: not the (complete) output of any recipe: {here!r}")
            got[path] = None
            pos += len(want[path])
            continue
        e = text.find(b"\n", pos)
        if e < 0:
            raise Violation(f"{what}: the last line is not complete: {here!r}")
        m = HEADER.match(text[pos:e].decode(errors="surrogateescape"))
        if not m:
            raise Violation(f"{what}: expected a line for a recipe, got {here!r}")
        path = m["path"]
        if path not in want:
            raise Violation(f"{what}: line for {path}, which was not to be built: {here!r}")
        if path in got:
            raise Violation(f"{what}: two lines for {path}: {here!r}")
        if (m["cmd"] is not None) != (level == "compilation_command"):
            raise Violation(f"{what}: with this level, the command should {'' if level == 'compilation_command' else 'not '}appear: {here!r}")
        got[path] = m
        pos = e + 1
        if m["t0"] != "-":
            if not text.startswith(want[path], pos):
                raise Violation(f"{what}: {path} wrote {want[path][:300]!r}..., the log has {text[pos:pos + 300]!r}...")
            pos += len(want[path])
    return got


def run_case(case, ctx):
    root, p = common.materialise(ctx, case)
    m = common.model_of(case)
    m.validate()
    files = case["files"]
    comp = sorted(n for n in m.compiled() if not m.nodes[n].isdir)
    log = os.path.join(root, "log")
    ctl = os.path.join(root, "ctl")
    labels = []
    busy = 0
    for k, rnd in enumerate(case["rounds"]):
        for i in rnd["edit"] if k else []:
            f = files[i % len(files)]
            f["v"] = f.get("v", 0) + 1
            proj.write_file(p, f)
        table, out, err = {}, {}, {}
        for i, o, e, chunk, pause in rnd["text"]:
            if comp and comp[i % len(comp)] not in out:
                n = comp[i % len(comp)]
                out[n] = expand(o, f"@out {len(out)} ", n)
                err[n] = expand(e, f"@err {len(out)} ", n)
        common.orders(root, {})
        for j, (i, _, _, chunk, pause) in enumerate(rnd["text"]):
            n = comp[i % len(comp)] if comp else None
            if n in out and n not in table:
                table[n] = [f"outfile o{j}", f"errfile e{j}", f"chunks {chunk} {pause if chunk > 1000 else 0}"]
                for name, data in ((f"o{j}", out[n]), (f"e{j}", err[n])):
                    with open(os.path.join(root, name), "wb") as f:
                        f.write(data)
        bad = {}
        for i, how in rnd["fail"]:
            if comp:
                bad[comp[i % len(comp)]] = how
        for n, how in bad.items():
            table.setdefault(n, []).append(how)
        common.orders(root, {n: x for n, x in table.items()})
        for name in os.listdir(root):
            if name[0] in "oe" and name[1:].isdigit():
                os.rename(os.path.join(root, name), os.path.join(ctl, name))
        args = [f"--num-workers={rnd['workers']}"]
        if rnd["level"]:
            args.append("--log-level=" + rnd["level"])
        if rnd["fmt"]:
            args.append("--log-output-format=" + rnd["fmt"])
        if rnd["force"]:
            args.append("--force-rebuild")
        sel = None
        if rnd["one"] is not None and m.file_targets():
            ts = sorted(m.file_targets())
            t = ts[rnd["one"] % len(ts)]
            name = common.rel_to("__targets", t)
            if "," not in name and "\\" not in name:
                args.append("--targets=" + name)
                n = m.file_targets()[t]
                sel = ({n} | m.closure(n)) & set(m.compiled())
        r = proj.run_maike(p, args, log=log, ctl=ctl, maxdelay=rnd["maxdelay"], ctx=ctx)
        proj.must_end(r)
        ran = {}
        for n, e, end in r.compiles():
            if n in ran:
                raise Violation(f"the recipe for {n} ran twice\n" + r.text())
            ran[n] = (e, end)
        failed = {n for n in ran if n in bad}
        level = rnd["level"] or "source_file_info"
        what = f"log level {rnd['level']}, round {k + 1}"
        try:
            want = {n: shown(out.get(n, b"") if n in ran else b"") for n in (sel if sel is not None else m.compiled())}
            got = entries(r.out, level, want, what)
            if level == "errors":
                for n in ran:
                    if want.get(n) and n not in got:
                        raise Violation(f"{what}: what {n} wrote to stdout is missing")
                for n in got:
                    if n not in ran:
                        raise Violation(f"{what}: {n} did not run")
            else:
                for n in want:
                    if n in ran or not failed:
                        if n not in got:
                            raise Violation(f"{what}: there is no line for {n}")
                for n, h in got.items():
                    if (h["t0"] == "-") != (n not in ran) or (h["t1"] == "-") != (n not in ran):
                        raise Violation(f"{what}: the line for {n} is wrong about whether its recipe was run: {h[0][-200:]}")
                    if (h["ok"] == "✗") != (n in failed):
                        raise Violation(f"{what}: the line for {n} is wrong about whether its recipe failed: {h[0][-200:]}")
                    if n in ran and ran[n][1]:
                        took = (ran[n][1]["t"] - ran[n][0]["t"]) / 1000
                        if int(h["t1"]) - int(h["t0"]) < took - 2:
                            raise Violation(f"{what}: according to the line, {n} took less than the {took} µs it was running: {h[0][-200:]}")
                ids = [h["id"] for h in got.values()]
                if len(set(ids)) != len(ids):
                    raise Violation(f"{what}: two recipes have the same number")
                for n in ran:
                    for d in m.needs(n) & set(ran):
                        if int(got[n]["t0"]) < int(got[d]["t1"]):
                            raise Violation(f"{what}: according to the lines, {n} was started before {d}, which it needs, had ended")
            if level == "compilation_command":
                commands(p, got, ran, m, what)
            check_err(r.err, {n: err.get(n, b"") for n in ran}, what)
        except Violation as v:
            raise Violation(f"{v}\n{r.text()[-3000:]}", kind="race", history=r.events) from None
        if (r.rc != 0) != bool(failed):
            raise Violation(f"{what}: failed {sorted(failed)}, status {r.rc}\n" + r.text())
        labels += ["level " + str(rnd["level"]), "failure" if failed else "no failure", "up to date" if set(want) - set(ran) else "all run", "one target" if sel is not None else "all targets"]
        noisy = [n for n in ran if out.get(n) or err.get(n)]
        if len(noisy) >= 2 and rnd["workers"] > 1:
            busy += 1
        labels += sorted({x[0] for t in rnd["text"] for x in t[1]})
    return Info(busy > 0, sorted(set(labels)))


def commands(p, got, ran, m, what):
    """the commands are those that were run"""
    script = b"set -e\n"
    names = sorted(got)
    for n in names:
        script += b"set -- " + got[n]["cmd"].encode(errors="surrogateescape") + b"\nprintf '%s\\0' $# \"$@\"\n"
    r = subprocess.run(["/bin/sh"], input=script, cwd=p, capture_output=True, timeout=60)
    if r.returncode:
        raise Violation(f"{what}: the shell does not accept the commands: {r.stderr[:500]!r}")
    words = r.stdout.split(b"\0")[:-1]
    pos = 0
    for n in names:
        k = int(words[pos])
        argv = words[pos + 1:pos + 1 + k]
        pos += 1 + k
        if k != 3 or argv[1] != b"compile":
            raise Violation(f"{what}: the command for {n} has the arguments {argv[1:]}")
        a = json.loads(argv[2])
        if a["source_file"] != (n if n != "." else a["source_file"]):
            raise Violation(f"{what}: the command for {n} is that for {a['source_file']}")
        if n in ran and a != ran[n][0]["arg"]:
            raise Violation(f"{what}: the command for {n} has the argument {a}, but {ran[n][0]['arg']} was run")
        if not common.same_program(p, argv[0].decode(errors="surrogateescape"), m.nodes[n].recipe or n):
            raise Violation(f"{what}: the command for {n} runs {argv[0]}")


OWN = re.compile(rb"^(--[a-z-]+: .*|# (Loaded|Completed) .*|.*: Compilation failed|)$")


def check_err(text, want, what):
    for n, data in want.items():
        if not data:
            continue
        k = text.count(data)
        if k != 1:
            raise Violation(f"{what}: {n} wrote {data[:300]!r}... to stderr, which is there {k} times (in one piece)")
        i = text.find(data)
        if i > 0 and text[i - 1:i] != b"\n":
            raise Violation(f"{what}: what {n} wrote to stderr does not begin on its own line: {text[max(0, i - 100):i + 50]!r}")
        text = text[:i] + text[i + len(data):]
    for line in text.split(b"\n"):
        if not OWN.match(line):
            raise Violation(f"{what}: stderr has {line[:300]!r}, which no recipe wrote")
