"""C27: what the program prints about a project is true, and asking builds nothing."""

import json
import os
import posixpath
import re

from hypothesis import strategies as st

from vlib import gen, proj
from vlib.runner import Info, Violation
from . import common

ID = "C27"
LEVEL = "exploration"
RULE = ("generated projects, many with blanks, quotes, backslashes and non-ASCII letters in names, fresh or built, in the working directory or elsewhere, and one query option, with or without a path for its output (new, existing and longer, "
        "in a directory, absolute, or one that can't be written), together with generated other build options; the target list, both dependency graphs (read by the rules of dot) and the list of external dependencies are compared with the "
        "reference model, the texts about the program with those printed to stdout; nothing but the path may change and no recipe may compile anything; non-trivial: a project with at least 6 edges, or a path is given")
ASSUMPTIONS = ["names have no line breaks", "the format of --dump-database is not specified (it is not implemented, see known_findings.jsonl)"]
COUNT = {"quick": 3500, "thorough": 40000}
CAP = {"quick": 30, "thorough": 360}

DATA = ["--list-targets", "--print-dep-graph", "--print-dep-graph-inv", "--list-external-deps"]
ABOUT = ["--help", "--version", "--about", "--configdump"]
PATHS = [None, None, "out.txt", "out.txt", "o,u=t", "sub/out", "abs", "old.txt", "old.txt", "__targets/list", "no/such/dir", "sub", "p q\\", "-"]
OTHER = ["--dry-run", "--force-rebuild", "--num-workers=1", "--num-workers=4", "--log-level=errors", "--log-level=compilation_command", "--targets=nothing", "--build-id=" + "5" * 64, "--start-time=7", "--log-output-format=ansi_term"]


def setup(tier):
    proj.setup("opt")


@st.composite
def strategy_(draw):
    c = draw(gen.project(max_mods=8, odd=draw(st.booleans())))
    c["q"] = draw(st.sampled_from(DATA + DATA + DATA + ABOUT))
    c["path"] = draw(st.sampled_from(PATHS))
    c["other"] = draw(st.lists(st.sampled_from(OTHER), max_size=2))
    c["at"] = draw(st.integers(0, 3))
    c["state"] = draw(st.sampled_from(["fresh", "fresh", "built"]))
    c["root"] = draw(st.sampled_from([".", ".", "src", "s p"]))
    return c


def strategy(tier):
    return strategy_()


def run_case(case, ctx):
    root = ctx.scratch()
    w = os.path.join(root, "w")
    src = case["root"]
    top = os.path.normpath(os.path.join(w, src))
    tgt = "__targets" if src == "." else src + "_targets"
    os.makedirs(w)
    if case.get("q") == "--dump-database":
        return dump_database(case, w, ctx)
    proj.write_project(top, case["files"], dirs=case["dirs"])
    m = common.model_of(case, src=src, tgt=tgt)
    m.validate()
    base = [] if src == "." else ["--source-dir=" + src]
    log = os.path.join(root, "log")
    if case["state"] == "built":
        proj.must_succeed(proj.run_maike(w, base, ctx=ctx))
    q = case["q"]
    out = os.path.join(root, "o")
    os.makedirs(os.path.join(out, "sub"))
    with open(os.path.join(out, "old.txt"), "w") as f:
        f.write("old text\n" * 2000)
    path = case["path"]
    # outputs go to a directory beside the project, or below its targets
    bad = path in ("no/such/dir", "sub")
    if path == "__targets/list":
        os.makedirs(os.path.join(w, tgt), exist_ok=True)
        dst = os.path.join(w, tgt, "list")
        arg = os.path.join(tgt, "list")
    elif path is not None:
        dst = os.path.join(out, "absolute" if path == "abs" else path)
        arg = dst if path == "abs" else "../o/" + path
    if path is None:
        opt = q + ("=" if case["at"] == 3 else "")
    else:
        opt = f"{q}={arg}"
    args = base + case["other"]
    args.insert(min(case["at"], len(args)), opt)
    before = proj.snapshot(root)
    r = proj.must_end(proj.run_maike(w, args, log=log, ctx=ctx))
    ran = r.compiles()
    if os.path.exists(log):
        os.unlink(log)
    os.utime(root, ns=(before["."][1], before["."][1]))
    after = proj.snapshot(root)

    def fail(msg):
        raise Violation(f"{args}: {msg}\n" + r.text())
    if ran:
        fail(f"recipes compiled {[x[0] for x in ran]}")
    rel = None if path is None else os.path.relpath(dst, root)
    allowed = {rel, None if rel is None else os.path.dirname(rel)}
    diff = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k) and k not in allowed)
    if diff:
        fail(f"{diff} changed")
    labels = [q, "to " + str(path), case["state"]]
    if bad:
        if r.rc == 0 or not r.err.strip():
            fail("the path can't be written, but that is not reported")
        return Info(True, labels)
    if r.rc:
        fail("the query fails")
    stdout = r.out.decode(errors="surrogateescape")
    lines = stdout.split("\n")
    while lines and re.match(r"#( |$)", lines[0]) and q in DATA:
        lines = lines[1:]
    stdout = "\n".join(lines)
    if path is None:
        text = stdout
    else:
        if stdout.strip():
            fail("something is printed to stdout although a path is given")
        if not os.path.isfile(dst):
            fail(f"{dst} is not written")
        with open(dst, "rb") as f:
            text = f.read().decode(errors="surrogateescape")
    if q in ABOUT:
        r2 = proj.must_succeed(proj.run_maike(w, base + [q], ctx=ctx))
        ref = r2.out.decode(errors="surrogateescape")
        if not ref.strip():
            fail("nothing is printed")
        if text != ref:
            fail(f"{text[:300]!r} instead of {ref[:300]!r}")
        return Info(path is not None, labels)
    edges = sorted({(n, d[0]) for n in m.nodes for d in m.edges(n)})
    if q == "--list-targets":
        got = [common.plain(x) for x in text.split("\n") if x]
        want = sorted(proj.norm(posixpath.relpath(t, tgt)) for t in m.targets)
    elif q == "--list-external-deps":
        got = [x for x in text.split("\n") if x]
        want = sorted(m.external)
    else:
        got = [(common.plain(a), common.plain(b)) for a, b in common.read_dot(text, fail)]
        want = [(common.plain(a), common.plain(b)) for a, b in edges]
        if q.endswith("inv"):
            want = sorted((b, a) for a, b in want)
    if sorted(got) != sorted(want):
        a, b = set(got), set(want)
        fail(f"not expected {sorted(a - b)[:6]}, missing {sorted(b - a)[:6]}, twice {sorted({x for x in got if got.count(x) > 1})[:6]}")
    return Info(path is not None or len(edges) >= 6, labels)


def dump_database(case, w, ctx):
    proj.write_project(w, [{"p": "a.rule", "k": "rule", "tags": {"target": {"name": "a.t"}}, "v": 0}])
    log = os.path.join(os.path.dirname(w), "log")
    r = proj.must_end(proj.run_maike(w, ["--dump-database"], log=log, ctx=ctx))
    if r.compiles():
        raise Violation("--dump-database builds the project\n" + r.text())
    try:
        json.loads(r.out.decode().split("\n#\n")[-1])
    except ValueError:
        raise Violation("--dump-database does not print JSON\n" + r.text())
    return Info(True, ["--dump-database"])
