"""C13: selecting targets builds them and exactly what they need."""

import os
import shutil

from hypothesis import strategies as st

from vlib import gen, proj
from vlib.runner import Info, Violation
from . import common
from .c12 import escape

ID = "C13"
LEVEL = "exploration"
RULE = ("generated projects, not built or built and then changed, and generated lists of their targets (files and directories, repeated ones, some followed by or "
        "preceded by unknown names); the recipes run must be exactly those of the reference closure, in dependency order, and the named targets must have the content of a full build; "
        "non-trivial: at least one recipe is left out and at least 3 are run")
ASSUMPTIONS = ["several targets are handled one after another, so with a forced rebuild a recipe may be run once for each of them"]
COUNT = {"quick": 3000, "thorough": 40000}
CAP = {"quick": 35, "thorough": 420}


def setup(tier):
    proj.setup("opt")


@st.composite
def strategy_(draw):
    c = draw(gen.project(max_mods=16, min_mods=2, odd=draw(st.integers(0, 3)) == 3, always=draw(st.booleans())))
    c["t"] = draw(st.lists(st.integers(0, 60), min_size=1, max_size=3))
    c["unknown"] = draw(st.one_of(st.none(), st.none(), st.none(), st.tuples(st.integers(0, 3), st.sampled_from(["absent", "source", "prefixed", "suffix", "base", "base", "short", "case", "deeper"]))))
    c["workers"] = draw(st.sampled_from([1, 2, 4, 8]))
    c["maxdelay"] = draw(st.sampled_from([0, 0, 2000]))
    c["force"] = draw(st.integers(0, 4)) == 4
    c["built"] = draw(st.integers(0, 3)) == 3
    c["edit"] = draw(st.lists(st.integers(0, 60), max_size=3))
    c["del"] = draw(st.lists(st.integers(0, 60), max_size=2))
    return c


def strategy(tier):
    return strategy_()


def run_case(case, ctx):
    root, p = common.materialise(ctx, case)
    log = os.path.join(root, "log")
    m = common.model_of(case)
    m.validate()
    base = [f"--num-workers={case['workers']}"]
    always = any((f.get("tags") or {}).get("rebuild") == "always" for f in case["files"])
    if case["built"]:
        proj.must_succeed(proj.run_maike(p, base, log=log, ctx=ctx))
        for k in case["edit"]:
            f = case["files"][k % len(case["files"])]
            f["v"] = f.get("v", 0) + 1
            proj.write_file(p, f)
        ts = sorted(x for x, c in proj.list_targets(p).items() if c is not None)
        for k in case["del"]:
            if ts:
                t = os.path.join(p, "__targets", ts[k % len(ts)])
                if os.path.exists(t):
                    os.unlink(t)
        m = common.model_of(case)
    pool = sorted(m.targets)
    pool = [common.rel_to("__targets", t) for t in pool]
    pool = [t for t in pool if t != "."]
    if not pool:
        return Info(False, ["no targets"])
    names = [pool[k % len(pool)] for k in case["t"]]
    typed = list(names)
    unknown = None
    if case["unknown"]:
        pos, how = case["unknown"]
        unknown = {"absent": "nosuch/target", "source": case["files"][0]["p"], "prefixed": "__targets/" + names[0], "suffix": names[0] + "x",
                   "base": os.path.basename(max(pool, key=lambda x: x.count("/"))), "short": names[0][:-1] or "q", "case": names[0].swapcase(), "deeper": "x/" + names[0]}[how]
        if unknown in pool or not unknown.strip('./'):
            unknown = None
        else:
            typed.insert(pos % (len(typed) + 1), unknown)
    sel = set()
    for t in names:
        sel |= m.selected(t)
    before = proj.list_targets(p)
    args = base + ["--targets=" + ",".join(escape(t) for t in typed)] + (["--force-rebuild"] if case["force"] else [])
    r = proj.run_maike(p, args, log=log, maxdelay=case["maxdelay"], seed=1, ctx=ctx)
    proj.must_end(r)
    ran = [x[0] for x in r.compiles()]
    # the reference closure
    for s in ran:
        if s not in sel:
            raise Violation(f"targets {typed}: the recipe for {s}, which they do not need, was run\n" + r.text())
    if unknown is not None:
        if r.rc == 0:
            raise Violation(f"targets {typed}: {unknown} does not exist, but the build succeeds\n" + r.text())
        if unknown not in r.err.decode(errors="replace").split("\n", 3)[-1] and r.err.decode(errors="replace").count(unknown) < 2:
            raise Violation(f"targets {typed}: the unknown target {unknown} is not named\n" + r.text())
        if typed[0] == unknown and ran:
            raise Violation(f"targets {typed}: recipes were run for {ran}")
        return Info(len(sel) >= 3, ["unknown " + case["unknown"][1]])
    proj.must_succeed(r)
    proj.check_order(m, r)
    once = not case["force"] and not always or len(set(names)) == 1 and len(names) == 1
    for s in sel:
        n = ran.count(s)
        if n > 1 and once:
            raise Violation(f"targets {typed}: the recipe for {s} was run {n} times\n" + r.text())
        if n > len(names):
            raise Violation(f"targets {typed}: the recipe for {s} was run {n} times\n" + r.text())
        if n == 0 and (not case["built"] or case["force"]):
            raise Violation(f"targets {typed}: the recipe for {s}, which they need, was not run\n" + r.text())
    want = {common.rel_to("__targets", t): c for t, c in proj.expected_contents(m).items()}
    got = proj.list_targets(p)
    for s in sel:
        for t, _ in m.nodes[s].targets:
            rel = common.rel_to("__targets", t)
            if rel in want and got.get(rel) != want[rel].encode():
                raise Violation(f"targets {typed}: {rel} has content {got.get(rel)!r}, a full build gives {want[rel]!r}\n" + r.text())
            if rel not in want and rel not in got and rel != ".":
                raise Violation(f"targets {typed}: directory {rel} does not exist")
    mine = {common.rel_to("__targets", t) for s in sel for t, _ in m.nodes[s].targets}
    for t in set(got) | set(before):
        if t not in mine and got.get(t, 0) != before.get(t, 0):
            raise Violation(f"targets {typed}: {t}, which they do not need, was changed")
    left = len(m.compiled()) - len(sel)
    return Info(left and len(sel) >= 3, ["built before" if case["built"] else "fresh", "force" if case["force"] else "no force", f"{len(names)} targets", "some left out" if left else "all"])
