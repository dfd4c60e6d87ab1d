"""C05: a failing recipe stops its dependents, and the build ends and reports it."""

import os

from hypothesis import strategies as st

from vlib import gen, proj
from vlib.runner import Info, Violation
from . import common

ID = "C05"
LEVEL = "exploration"
RULE = ("generated projects in which a generated set of recipes fails (exit status 1-255, a signal, or a script that can't be "
        "started), built from scratch or after an edit, with generated worker counts and run times, then repaired and built "
        "again; oracle: the recipes' own log against a reference model of the dependencies; non-trivial: a recipe that "
        "something else depends on did fail")
ASSUMPTIONS = ["a failing recipe writes no target",
               "a script without execute permission or with a missing interpreter can't be started"]
COUNT = {"quick": 2000, "thorough": 40000}
CAP = {"quick": 40, "thorough": 420}

KINDS = [["exit", 1], ["exit", 1], ["exit", 2], ["exit", 77], ["exit", 127], ["exit", 128], ["exit", 255], ["signal", 9], ["signal", 15],
         ["signal", 11], ["signal", 6], ["signal", 13], ["signal", 1], ["launch", "perm"], ["launch", "interp"], ["launch", "perm"]]


def setup(tier):
    proj.setup("opt")


@st.composite
def strategy_(draw):
    many_ext = draw(st.integers(0, 2)) == 2
    c = draw(gen.project(max_mods=14, min_mods=2, kinds=["ext", "ext", "gen", "dat", "mod", "txt", "multi"] if many_ext else None))
    c["fail"] = draw(st.lists(st.tuples(st.integers(0, 99), st.sampled_from(KINDS)), min_size=1, max_size=4))
    c["dirfail"] = draw(st.integers(0, 11)) == 11
    c["first"] = draw(st.integers(0, 2)) == 2     # a successful build and an edit come first
    c["edit"] = draw(st.lists(st.integers(0, 99), min_size=1, max_size=4))
    c["workers"] = draw(st.sampled_from([1, 2, 3, 8, 16]))
    c["maxdelay"] = draw(st.sampled_from([0, 500, 4000]))
    c["seed"] = draw(st.integers(0, 1000))
    c["noise"] = draw(st.sampled_from([0, 0, 0, 100, 5000, 200000]))
    return c


def strategy(tier):
    return strategy_()


def run_case(case, ctx):
    root, p = common.materialise(ctx, case)
    m = common.model_of(case)
    m.validate()
    log = os.path.join(root, "log")
    kw = dict(log=log, ctl=os.path.join(root, "ctl"), seed=case["seed"], ctx=ctx)
    files = case["files"]
    labels = [f"workers {case['workers']}"]
    if case["first"]:
        proj.must_succeed(proj.run_maike(p, ["--num-workers=4"], **kw))
        for i in case["edit"]:
            f = files[i % len(files)]
            f["v"] = f.get("v", 0) + 1
            proj.write_file(p, f)
        labels.append("after edit")
    comp = sorted(n for n in m.compiled() if not m.nodes[n].isdir)
    if not comp:
        return Info(False)
    table, launch = {}, {}
    by_name = {m.source_name(f["p"]): f for f in files}
    for i, (kind, arg) in case["fail"]:
        pool = comp
        if kind == "launch":
            pool = [n for n in comp if by_name[n]["k"] == "ext"]
            if not pool:
                kind, arg, pool = "exit", 126, comp
        n = pool[i % len(pool)]
        if n in table or n in launch:
            continue
        if kind == "launch":
            launch[n] = arg
            q = os.path.join(p, by_name[n]["p"])
            st_ = os.stat(q)
            if arg == "perm":
                os.chmod(q, 0o644)
            else:
                data = open(q, "rb").read()
                with open(q, "wb") as f:
                    f.write(data.replace(b"#!/bin/sh", b"#!/nonexistent/sh", 1))
                os.utime(q, ns=(st_.st_atime_ns, st_.st_mtime_ns))
        else:
            table[n] = [f"{kind} {arg}"] + ([f"err {case['noise']}"] if case["noise"] else [])
    if case["dirfail"]:
        ds = sorted(n for n in m.compiled() if m.nodes[n].isdir)
        table[ds[case["fail"][0][0] % len(ds)]] = ["exit 1"]
        labels.append("directory fails")
    common.orders(root, table)
    r = proj.run_maike(p, [f"--num-workers={case['workers']}"], maxdelay=case["maxdelay"], **kw)
    proj.must_end(r, "a build with a failing recipe")
    started = {src for src, _, _ in r.compiles()}
    failed = {n for n in table if n in started}
    # scripts that can't be started leave no trace (but one that was tried may be the one that is named):
    # those that had to be tried are known in a build from scratch
    bad = set(table) | set(launch)
    tried = set()
    if not case["first"]:
        tried = {n for n in launch if not (m.needs(n) & bad)}
    else:
        gt = proj.list_targets(p)
        tried = {n for n in launch if not (m.needs(n) & bad) and any(common.rel_to("__targets", t) not in gt for t, _ in m.nodes[n].targets)}
    for n in started:
        blocked = m.needs(n) & (failed | tried)
        if blocked:
            raise Violation(f"the recipe for {n} was started although the one for {sorted(blocked)[0]}, which it depends on, failed\n"
                            + r.text(), history=r.events)
    if not case["first"]:
        for n in set(table):
            if not (m.needs(n) & bad) and n not in started and not launch and len(table) == 1:
                raise Violation(f"the recipe for {n} was never started\n" + r.text())
    if failed or tried:
        if r.rc == 0:
            raise Violation(f"the build succeeded although the recipe for {sorted(failed | tried)[0]} failed\n" + r.text())
        err = r.err.decode(errors="replace")
        if not any(n in err for n in failed | set(launch)):
            raise Violation("stderr names none of the files whose recipes failed\n" + r.text())
    elif not launch and r.rc != 0:
        raise Violation("the build failed although no recipe did\n" + r.text())
    labels += [("launch " + launch[n]) for n in tried] + [table[n][0].split()[0] for n in failed]
    blocked = {n for n in comp if m.needs(n) & (failed | tried)}
    labels.append("some dependents" if blocked else "no dependents")
    # repair
    common.orders(root, {})
    for n in launch:
        proj.write_file(p, by_name[n])
    r2 = proj.run_maike(p, [f"--num-workers={case['workers']}"], **kw)
    proj.must_end(r2)
    if r2.rc != 0:
        raise Violation("the build after the repair fails\n" + r2.text())
    want = {common.rel_to("__targets", t): c for t, c in proj.expected_contents(common.model_of(case)).items()}
    common.compare_targets(proj.list_targets(p), want, "after the repair")
    return Info(bool(blocked), labels)
