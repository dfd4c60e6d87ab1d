"""C21: a recipe is told exactly what it has to know."""

import json
import os
import posixpath

from hypothesis import strategies as st

from vlib import gen, proj
from vlib.runner import Info, Violation
from . import common

ID = "C21"
LEVEL = "exploration"
RULE = ("generated projects, with generated properties on dependencies, the same dependency declared several times with different properties, external dependencies, several targets per file, own settings of every JSON type and size, own "
        "recipes, loaders without a recipe, and generated build ids, start times, directories and log formats; the argument that each recipe received, and which program received it, is compared with the reference model; non-trivial: "
        "at least 4 recipes ran, one of them with at least 5 dependencies, and one dependency has properties")
ASSUMPTIONS = ["the argument fits into what the system allows for one argument (128 kB)"]
COUNT = {"quick": 4000, "thorough": 60000}
CAP = {"quick": 35, "thorough": 420}

PROPS = ["rel", "note", "", "ref2", "x y", "ü", "origin2", "Ref", "a\"b", "task_id"]
VALUES = ["implementation", "interface", "", "a b", "it's", "\"q\"", "\\", "ü", "\n", "1", "$HOME", "tab\there", "x" * 300]
EXTERNAL = ["zlib", "m", "sys/y.h", "./weird", "../up", "zz//b", "ext/", "pthread"]

BAD = ["dir", "rule", "include", "source", "target", "not told"]

value = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-2**63, 2**63 - 1), st.floats(allow_nan=False, allow_infinity=False), st.sampled_from(VALUES), st.text(st.characters(blacklist_categories=["Cs"], blacklist_characters="\0"), max_size=8)),
                     lambda v: st.one_of(st.lists(v, max_size=4), st.dictionaries(st.sampled_from(["a", "b", "cflags", "std", "ü", "x y", "", "n"]), v, max_size=4)), max_leaves=8)


def setup(tier):
    proj.setup("opt")


@st.composite
def props(draw):
    return {draw(st.sampled_from(PROPS)): draw(st.sampled_from(VALUES)) for _ in range(draw(st.integers(0, 3)))}


@st.composite
def strategy_(draw):
    c = draw(gen.project(max_mods=10, min_mods=2, odd=draw(st.integers(0, 4)) == 4, always=True))
    k = 0
    for f in c["files"]:
        t = f.get("tags")
        if f["k"] in ("dat", "txt", "recipe") or not t:
            continue
        lists = [t[x] for x in ("dependencies", "dependencies_extra") if x in t]
        targets = ([t["target"]] if "target" in t else []) + t.get("targets", [])
        lists += [x["dependencies"] for x in targets if "dependencies" in x]
        for lst in lists:
            for d in list(lst):
                w = draw(st.integers(0, 5))
                if w >= 4:
                    d.update(draw(props()))
                if w == 5:
                    e = {x: d[x] for x in d if x in ("ref", "origin")}
                    e.update(draw(props()))
                    lst.insert(draw(st.integers(0, len(lst))), e)
        if draw(st.integers(0, 3)) == 3:
            e = {"ref": draw(st.sampled_from(EXTERNAL)), "origin": draw(st.sampled_from(["system", "pkg-config"]))}
            e.update(draw(props()))
            where = draw(st.integers(0, 2))
            if where == 2 and targets:
                x = targets[-1].setdefault("dependencies", [])
            else:
                x = t.setdefault(["dependencies", "dependencies_extra"][where % 2], [])
            x.insert(draw(st.integers(0, len(x))), e)
            if where == 2 and targets and draw(st.booleans()):
                del e["origin"]     # the default for a dependency of a target
        if targets and draw(st.integers(0, 4)) == 4:
            k += 1
            more = [{"name": n} for n in draw(st.permutations([f"z{k}.o", f"a{k}.o", f"sub/m{k}.o"]))]
            if "/" in "".join(x["name"] for x in more) and "sub" not in [posixpath.basename(d) for d in c["dirs"] if posixpath.dirname(d) == posixpath.dirname(f["p"])]:
                more = [x for x in more if "/" not in x["name"]]
            if "target" in t and "targets" not in t:
                t["targets"] = more
            else:
                t["targets"] = t["targets"] + more if draw(st.booleans()) else more + t["targets"]
                if draw(st.booleans()) and "target" not in t:
                    t["target"] = {"name": f"first{k}.o"}
        if targets and draw(st.integers(0, 3)) == 3:
            t["compiler"] = {"config": draw(st.dictionaries(st.sampled_from(["a", "b", "opt", "zz", "rr2"]), value, max_size=4))}
            w = draw(st.integers(0, 3))
            if w == 1:
                t["compiler"]["recipe"] = "rec"
            elif w == 2:
                t["compiler"]["recipe"] = ""
            elif w == 3 and any(g["k"] == "recipe" for g in c["files"]):
                t["compiler"]["recipe"] = next(g["p"] for g in c["files"] if g["k"] == "recipe")
            if draw(st.integers(0, 9)) == 9:
                t["compiler"]["config"]["big"] = ["%05d" % i + "y" * 90 for i in range(draw(st.integers(1, 400)))]
    c["cfg"] = {kind: draw(st.dictionaries(st.sampled_from(["q", "w", "e"]), value, max_size=2)) for kind in ("dir", "rule", "dat", "app", "ext", "lib")}
    c["args"] = [draw(st.sampled_from([None, 0, 1, 1400000000, 2**33])), draw(st.sampled_from([None, "0" * 64, "0123456789abcdef" * 4, "f" * 64])),
                 draw(st.sampled_from([None, "plain_text", "ansi_term"]))]
    c["src"] = draw(st.sampled_from(["here", "here", "below", "beside", "abs"]))
    c["tgt"] = draw(st.sampled_from([None, None, "__out", "../tt/./x", "abs"]))
    c["workers"] = draw(st.sampled_from([1, 4]))
    # a name that can't be told, as JSON is UTF-8
    c["bad"] = draw(st.sampled_from([None] * 15 + BAD))
    return c


def strategy(tier):
    return strategy_()


def untold(case, base, cwd, src, tgt, args, ctx):
    """A name that is not UTF-8 can't be told: nothing is made rather than anything without knowing it"""
    top, bad = os.path.join(cwd, src), case["bad"]
    if bad == "dir":
        os.makedirs(os.path.join(top, "bad\udcff/x"))
    elif bad == "rule":
        with open(os.path.join(top, "bad\udcfe.rule"), "w") as o:
            o.write('{"target": {"name": "bad.out"}}')
    elif bad == "include":
        with open(os.path.join(top, "bad\udc80.hpp"), "w") as o, open(os.path.join(top, "bad.cpp"), "w", errors="surrogateescape") as o2:
            o.write("int x;\n")
            o2.write('//@ {"target": {"name": "bad.o"}}\n#include "bad\udc80.hpp"\n')
    elif bad == "source":
        args += ["--source-dir=" + os.path.join(base, "q\udcff")]
        proj.write_project(os.path.join(base, "q\udcff"), case["files"], proj.BASE_CONFIG, case["dirs"])
    elif bad == "target":
        args += ["--target-dir=" + os.path.join(base, "tt/x\udcff")]
    else:
        with open(os.path.join(top, "bad\udcff.unknown"), "w") as o:
            o.write("x")
    r = proj.must_end(proj.run_maike(cwd, args, log=os.path.join(base, "log"), ctl=os.path.join(base, "ctl"), ctx=ctx))
    if bad == "not told":
        proj.must_succeed(r)
    elif r.rc == 0 or r.compiles():
        raise Violation(f"the name of a {bad} can't be told to a recipe, but " + ("the build succeeds\n" if r.rc == 0 else f"{r.compiles()[0][0]} is made\n") + r.text())
    return Info(False, ["name that is not UTF-8: " + bad])


def run_case(case, ctx):
    base = ctx.scratch()
    cwd = os.path.join(base, "w")
    os.makedirs(cwd)
    os.makedirs(os.path.join(base, "tt"))
    src, args = {"here": (".", []), "below": ("sub", ["--source-dir=sub"]), "beside": ("../q", ["--source-dir=../q/."]), "abs": (os.path.join(base, "q"), ["--source-dir=" + os.path.join(base, "q")])}[case["src"]]
    tgt = {None: "__targets" if src == "." else posixpath.basename(src) + "_targets", "__out": "__out", "../tt/./x": "../tt/x", "abs": os.path.join(base, "tt/abs")}[case["tgt"]]
    if case["tgt"]:
        args.append("--target-dir=" + (tgt if case["tgt"] == "abs" else case["tgt"]))
    config = json.loads(json.dumps(proj.BASE_CONFIG))
    for kind, extra in case["cfg"].items():
        comp = config["dir_compiler"] if kind == "dir" else config["source_file_info_loaders"][kind]["compiler"]
        comp["config"].update(extra)
    proj.write_project(os.path.join(cwd, src), case["files"], config, case["dirs"])
    m = proj.Model(case["files"], config, src=src, tgt=tgt, dirs=case["dirs"], recipe_dir=proj.recipe_dir())
    m.validate()
    if any(n.cfg is None for n in m.nodes.values()):
        return Info(False, ["settings can't be merged"])
    start, bid, fmt = case["args"]
    args += [f"--num-workers={case['workers']}"] + ([f"--start-time={start}"] if start is not None else []) + ([f"--build-id={bid}"] if bid else []) \
        + ([f"--log-output-format={fmt}"] if fmt else [])
    os.makedirs(os.path.join(base, "ctl"))
    if case.get("bad"):
        return untold(case, base, cwd, src, tgt, args, ctx)
    r = proj.run_maike(cwd, args, log=os.path.join(base, "log"), ctl=os.path.join(base, "ctl"), ctx=ctx)
    proj.must_succeed(r)
    if r.err and b"Warning" in r.err:
        raise Violation("the settings were not taken\n" + r.text())
    comp = r.compiles()
    must = {n for n in m.compiled() if not m.nodes[n].isdir}
    ran = {x[0] for x in comp}
    if not must <= ran:
        raise Violation(f"no recipe was told to make {sorted(must - ran)[:5]}\n" + r.text())
    most, with_props = common.check_arguments(m, r, cwd, src, tgt, bid, start, fmt)
    labels = [case["src"], "target dir" if case["tgt"] else "default target dir", "properties" if with_props else "no properties"]
    labels += sorted({"own recipe" for n in must if m.nodes[n].recipe.endswith("recipe.bin")} | {"runs itself" for n in must if not m.nodes[n].recipe} | {"several targets" for n in must if len(m.nodes[n].targets) > 1})
    return Info(len(comp) >= 4 and most >= 5 and with_props, labels)
