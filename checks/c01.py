"""C01: a recipe runs only after everything it depends on is finished."""

import os

from hypothesis import strategies as st

from vlib import gen, proj
from vlib.runner import Info, Violation
from . import common

ID = "C01"
LEVEL = "exploration"
RULE = ("generated acyclic projects (headers, sources, generated headers, libraries, programs, tests, scripts, nested "
        "directories) with a generated worker count and a generated run time per recipe, built by maike2 with a recipe "
        "that records its start and end; non-trivial: a chain of at least 3 recipes of files that depend on each other and 2 or more workers")
ASSUMPTIONS = ["recipes' start and end are taken from CLOCK_MONOTONIC inside the recipes",
               "the schedules reached are those the run times, worker counts and the kernel give"]
COUNT = {"quick": 1500, "thorough": 20000}
CAP = {"quick": 35, "thorough": 420}


def setup(tier):
    proj.setup("opt")


@st.composite
def strategy_(draw):
    c = draw(gen.project(max_mods=22, min_mods=4))
    c["workers"] = draw(st.sampled_from([1, 2, 3, 4, 8, 16]))
    c["maxdelay"] = draw(st.sampled_from([0, 500, 4000, 15000]))
    c["seed"] = draw(st.integers(0, 1000))
    slow = draw(st.lists(st.integers(0, 40), max_size=4))
    c["slow"] = slow
    # build again after touching: only a part is out of date then
    c["touch"] = draw(st.lists(st.integers(0, 40), max_size=3))
    return c


def strategy(tier):
    return strategy_()


def run_case(case, ctx):
    root, p = common.materialise(ctx, case)
    m = common.model_of(case)
    m.validate()
    comp = sorted(m.compiled())
    common.orders(root, {comp[k % len(comp)]: ["sleep 25"] for k in case["slow"]})
    log = os.path.join(root, "log")

    def build():
        r = proj.run_maike(p, [f"--num-workers={case['workers']}"], log=log, ctl=os.path.join(root, "ctl"),
                           seed=case["seed"], maxdelay=case["maxdelay"], ctx=ctx)
        proj.must_end(r)
        proj.check_order(m, r)
        return r

    r = build()
    n1 = len(r.compiles())
    if r.rc == 0 and case["touch"]:
        for k in case["touch"]:
            f = case["files"][k % len(case["files"])]
            proj.write_file(p, f)
        build()
    depth = common.chain_depth(m)
    return Info(depth >= 3 and case["workers"] > 1 and n1 > 2,
                [f"depth {min(depth, 6)}", f"workers {case['workers']}", f"recipes {min(n1 // 5 * 5, 30)}+",
                 "touch" if case["touch"] else "no touch"])
