"""C02: a successful build is complete and runs each recipe once."""

import os

from hypothesis import strategies as st

from vlib import gen, proj
from vlib.runner import Info, Violation
from . import common

ID = "C02"
LEVEL = "exploration"
RULE = ("generated well-formed projects built from scratch with generated worker counts and recipe run times; the recipes' own "
        "log and the target directory are compared with a reference model of the project; non-trivial: at least 5 recipes for "
        "files, one of which depends on another")
ASSUMPTIONS = ["the recording recipe succeeds and writes every target it is told to write"]
COUNT = {"quick": 1500, "thorough": 25000}
CAP = {"quick": 35, "thorough": 420}


def setup(tier):
    proj.setup("opt")


@st.composite
def strategy_(draw):
    wide = draw(st.integers(0, 9)) == 9
    c = draw(gen.project(max_mods=60 if wide else 20, min_mods=30 if wide else 0, always=True,
                         kinds=["src", "gen", "dat", "ext", "hdr"] if wide else None))
    c["workers"] = draw(st.sampled_from([1, 2, 3, 5, 8, 16, 40]))
    c["maxdelay"] = draw(st.sampled_from([0, 0, 300, 3000]))
    c["seed"] = draw(st.integers(0, 1000))
    return c


def strategy(tier):
    return strategy_()


def run_case(case, ctx):
    root, p = common.materialise(ctx, case)
    m = common.model_of(case)
    m.validate()
    r = proj.run_maike(p, [f"--num-workers={case['workers']}"], log=os.path.join(root, "log"), seed=case["seed"],
                       maxdelay=case["maxdelay"], ctx=ctx)
    proj.must_succeed(r)
    want = sorted(m.compiled())
    got = [x[0] for x in r.compiles()]
    for s in got:
        if s not in want:
            raise Violation(f"a recipe was run for {s}, which has no targets", history=got)
    for s in want:
        n = got.count(s)
        if n != 1:
            raise Violation(f"the build succeeded, but the recipe for {s} was run {n} times\n" + r.text())
    files = proj.list_targets(p)
    exp = {common.rel_to("__targets", t): c for t, c in proj.expected_contents(m).items()}
    common.compare_targets(files, exp, "after a successful build")
    if not os.path.isdir(os.path.join(p, "__targets")):
        raise Violation("the target directory does not exist after a successful build")
    for n in m.compiled():
        if m.nodes[n].isdir and not os.path.isdir(os.path.join(p, m.nodes[n].targets[0][0])):
            raise Violation(f"the target directory for {n} does not exist")
    for f in files:
        if files[f] is not None and f not in exp:
            raise Violation(f"{f} was made, but no file declares it")
    nfiles = len([n for n in want if not m.nodes[n].isdir])
    return Info(nfiles >= 5 and common.chain_depth(m) >= 2,
                [f"recipes {min(len(want) // 10 * 10, 60)}+", f"workers {case['workers']}"])
