"""C04: only what is out of date is rebuilt."""

import os
import time

from hypothesis import strategies as st

from vlib import gen, proj
from vlib.runner import Info, Violation
from . import common

ID = "C04"
LEVEL = "exploration"
RULE = ("generated project, built once; then a generated modification time for each source file, directory and target (equal times and "
        "differences of one nanosecond included) and some targets deleted; the set of recipes the next build runs is compared with the "
        "set a reference model computes from the file times; then the build is repeated; non-trivial: the predicted set is "
        "neither empty nor everything")
ASSUMPTIONS = ["all generated times are in the past; a rebuilt target is later than them",
               "the recording recipe makes a target strictly later than what it was made from"]
COUNT = {"quick": 1100, "thorough": 15000}
CAP = {"quick": 40, "thorough": 480}


def setup(tier):
    proj.setup("opt")


OFFS = st.sampled_from([0, 1, 2, 10**9, 10**9 + 1, 5 * 10**8, 3 * 10**9])


@st.composite
def strategy_(draw):
    c = draw(gen.project(max_mods=12, min_mods=2, always=True))
    mode = draw(st.sampled_from(["random", "newer", "newer", "newer", "equal", "none"]))
    c["mode"] = mode
    # newer: all targets later than all sources except for a few changes
    c["changes"] = [[draw(st.integers(0, 80)), draw(OFFS)] for _ in range(draw(st.integers(0, 40 if mode == "random" else 3)))]
    c["delete"] = draw(st.lists(st.integers(0, 60), max_size=2))
    c["force"] = draw(st.integers(0, 9)) == 9
    c["workers"] = draw(st.sampled_from([1, 2, 4, 8]))
    c["select"] = draw(st.integers(0, 60)) if draw(st.integers(0, 5)) == 5 else None
    return c


def strategy(tier):
    return strategy_()


def mtime(path):
    try:
        return os.stat(path).st_mtime_ns
    except FileNotFoundError:
        return None


def predict(m, p, force, scope=None):
    """source nodes whose recipes have to be run, from the file times on disk"""
    t = {}

    def when(name):
        if name not in t:
            t[name] = mtime(os.path.join(p, name))
        return t[name]

    done = set()
    run = set()
    NOW = time.time_ns() + 10**12

    def visit(n):
        if n in done:
            return
        done.add(n)
        for x in m.needs(n):
            visit(x)
        node = m.nodes[n]
        need = force or node.always
        files = [n]
        origins = {}
        for x in {n} | m.closure(n):
            for name, origin, _ in m.edges(x):
                origins.setdefault(name, set()).add(origin)
        for name, o in origins.items():
            if "project" in o or "generated" in o:
                if not os.path.isdir(os.path.join(p, name)) and not (name in m.nodes and m.nodes[name].isdir):
                    files.append(name)
        for tgt, _ in node.targets:
            if os.path.isdir(os.path.join(p, tgt)):
                continue
            tt = when(tgt)
            if tt is None:
                need = True
                continue
            if node.isdir:
                continue
            for f in files:
                ft = when(f)
                if ft is not None and not ft < tt:
                    need = True
        if need:
            run.add(n)
            for tgt, _ in node.targets:
                t[tgt] = NOW + len(run)
        return

    for n in (scope if scope is not None else m.compiled()):
        visit(n)
    return run


def run_case(case, ctx):
    root, p = common.materialise(ctx, case)
    m = common.model_of(case)
    m.validate()
    log = os.path.join(root, "log")
    w = f"--num-workers={case['workers']}"
    r = proj.must_succeed(proj.run_maike(p, [w], log=log, ctx=ctx))
    base = (int(time.time()) - 10**6) * 10**9
    objs = sorted(f["p"] for f in case["files"]) + sorted(set(m.file_targets()) | {m.nodes[n].targets[0][0] for n in m.compiled() if m.nodes[n].isdir}) + sorted(case["dirs"])
    if case["mode"] != "none":
        # depth of a target decides its time in the mode "newer"
        depth = {}

        def d(n):
            if n not in depth:
                depth[n] = 0
                depth[n] = 1 + max([d(x) for x in m.needs(n)] or [0])
            return depth[n]
        for o in objs:
            off = 0
            if case["mode"] != "equal" and o in m.targets:
                off = (10**9 if case["mode"] == "random" else 5) * d(m.targets[o])
            os.utime(os.path.join(p, o), ns=(base + off, base + off))
        for k, off in case["changes"]:
            o = objs[k % len(objs)]
            os.utime(os.path.join(p, o), ns=(base + off, base + off))
    ts = sorted(m.file_targets())
    if case["mode"] != "none":
        for k in case["delete"]:
            if ts and os.path.exists(os.path.join(p, ts[k % len(ts)])):
                os.unlink(os.path.join(p, ts[k % len(ts)]))
    labels = [case["mode"], "force" if case["force"] else "no force"]
    nontrivial = False
    args = [w]
    scope = None
    if case["select"] is not None and ts:
        sel = common.rel_to("__targets", ts[case["select"] % len(ts)])
        args.append("--targets=" + sel)
        scope = m.selected(sel)
    for k in range(2):
        force = case["force"] and k == 0
        want = predict(m, p, force, scope)
        if k == 0:
            n_all = len(scope if scope is not None else m.compiled())
            nontrivial = 0 < len([x for x in want if not m.nodes[x].isdir]) and len(want) < n_all
        elif not case["force"]:
            # nothing was changed since: only what asks for it, and what depends on that
            always = {n for n in (scope or m.compiled()) if m.nodes[n].always}
            for n in want:
                if n not in always and not (m.needs(n) & always):
                    raise Violation(f"{n} is out of date right after a successful build\n" + r.text())
        r = proj.must_succeed(proj.run_maike(p, args + (["--force-rebuild"] if force else []), log=log, ctx=ctx))
        got = [x[0] for x in r.compiles()]
        for n in got:
            if n not in want:
                raise Violation(f"build {k + 2}: the recipe for {n} was run, though all its targets were up to date\n" + r.text())
        for n in want:
            if n not in got:
                raise Violation(f"build {k + 2}: the recipe for {n} was not run, though it was out of date\n" + r.text())
        if len(got) != len(set(got)):
            raise Violation(f"build {k + 2}: a recipe was run twice: {sorted(got)}")
        labels.append(f"rebuilt {min(len(want), 9)}" if k == 0 else f"second {min(len(want), 3)}")
    return Info(nontrivial, labels)
