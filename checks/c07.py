"""C07: the headers a C++ file includes are found exactly."""

import os
import re

from hypothesis import strategies as st

from vlib import cxxgen, driver, proj
from vlib.runner import Info, Violation

ID = "C07"
LEVEL = "exploration"
RULE = ("C++ texts made of include directives, other directives, code, comments, string, character and raw string literals, most of "
        "them holding text that looks like an include directive, so that the right answer is known by construction; read through "
        "the scanner in generated pieces under address and undefined-behaviour sanitizers, and, for a part of them, built as a "
        "project; also arbitrary token sequences, for which cutting the reads must not change the answer; non-trivial: at least one "
        "include directive and one comment or literal")
ASSUMPTIONS = ["lines are not spliced outside of literals; only white space comes before # and between the parts of an include directive",
               "raw string and string prefixes are separate tokens; prefixed character literals hold no quotes"]
COUNT = {"quick": 25000, "thorough": 500000}
CAP = {"quick": 40, "thorough": 420}
ROUND = 200

PATTERNS = [[], ["\\.gen\\.hpp$"], ["^\\./gen/", "\\.gen\\.hpp$"], ["^gen"], ["hpp$"], ["nothing"]]
close = driver.close


def setup(tier):
    proj.setup("opt")
    driver.setup("loaders")


soup_tok = st.sampled_from(['"', "'", "\\", "/", "*", "//", "/*", "*/", 'R"', "(", ")", "#", "include", "#include", " ", "\n", "\n", "\r\n", "<a>", '"b"', "x", "//@",
                            "\\\n", ')"', "@", "1'0", "\t", "\0", "ü", "\udcff", "\udcfe\udce4", ")x\"", 'R"x('])


@st.composite
def strategy_(draw):
    if draw(st.integers(0, 4)) == 4:
        return {"soup": draw(st.lists(soup_tok, min_size=1, max_size=40)), "cuts": draw(cxxgen.cuts)}
    c = draw(cxxgen.text())
    c["cuts"] = draw(cxxgen.cuts)
    c["pat"] = draw(st.integers(0, len(PATTERNS) - 1))
    c["e2e"] = draw(st.integers(0, 11)) == 11
    return c


def strategy(tier):
    return strategy_()


def run_case(case, ctx):
    drv = driver.get(ctx, "loaders")
    if "soup" in case:
        text = "".join(case["soup"]).encode(errors="surrogateescape")
        a = drv.call("deps", text, "")
        b = drv.call("deps", text, ",".join(map(str, case["cuts"] or [1])))
        if a != b:
            raise Violation(f"{text!r} gives {a} when read at once, but {b} when read in pieces")
        for name, origin in zip(a[::2], a[1::2]):
            if (b'"' + name + b'"' if origin != b"system" else b"<" + name + b">") not in text:
                raise Violation(f"{name!r} was found in {text!r}")
        return Info(len(a) > 0, ["token sequence"])
    text, incs, _ = cxxgen.render(case)
    pats = PATTERNS[case["pat"]]
    if case["e2e"]:
        return e2e(case, ctx, text, incs)
    want = []
    for op, quoted in incs:
        if not quoted:
            o = "system"
        else:
            # the default pattern and those given are used as basic regular expressions
            o = "generated" if any(re.search(p, op) for p in (pats or ["\\.gen\\.hpp$"])) else "project"
        want.append((op, o))
    r = drv.call("deps", text, ",".join(map(str, case["cuts"])), *pats)
    got = [(r[i].decode(errors="replace"), r[i + 1].decode()) for i in range(0, len(r), 2)]
    if got != want:
        raise Violation(f"in the C++ text\n{text.decode(errors="backslashreplace")}\nthe headers {want} are included, but the scanner finds {got}")
    kinds = {e[0] for e in case["els"]}
    return Info(incs and kinds & {"code", "lc", "dir", "tag"}, ["scanner", "crlf" if case["crlf"] else "lf"])


def e2e(case, ctx, text, incs):
    """The same text as a source file of a project."""
    root = ctx.scratch()
    p = os.path.join(root, "p")
    head = "//@ {\"target\": {\"name\": \"out.o\"}}\n"
    # a system header with the same name as a project file is taken for that one
    case = dict(case, els=[e if e[0] != "inc" or e[4] else [*e[:5], "sysh/" + e[5], e[6]] for e in case["els"] if e[0] != "tag"])
    text, incs, _ = cxxgen.render(case)
    files = [{"p": "dir/src.cpp", "k": "cxx", "raw": head + text.decode(errors="surrogateescape"), "tags": {"target": {"name": "out.o"}},
              "inc": [["q" if q else "a", op] for op, q in incs]}]
    m = None
    for _ in range(2):
        m = proj.Model(files, recipe_dir=proj.recipe_dir())
        todo = sorted({n for _, n in m.unresolved()})
        for n in todo:
            if n.startswith("__targets/"):
                d, b = os.path.split(n[len("__targets/"):])
                files.append({"p": os.path.join(d, b + ".rule"), "k": "rule", "tags": {"target": {"name": b}}})
            elif n.startswith(".."):
                return Info(False, ["outside of the project"])
            else:
                files.append({"p": n, "k": "txt", "raw": "" if n.endswith((".hpp", ".cpp")) else "x"})
    m = proj.Model([dict(f, inc=f.get("inc", [])) for f in files], recipe_dir=proj.recipe_dir())
    m.validate()
    proj.write_project(p, files)
    r = proj.run_maike(p, ["--num-workers=2"], log=os.path.join(root, "log"), ctx=ctx)
    proj.must_end(r)
    if r.rc != 0:
        raise Violation(f"the project with the source file\n{text.decode(errors="backslashreplace")}\ndoes not build\n" + r.text())
    ev = [s for src, s, _ in r.compiles() if src == "dir/src.cpp"]
    if len(ev) != 1:
        raise Violation(f"the recipe was run {len(ev)} times\n" + r.text())
    got = {(d["ref"], d["origin"]) for d in ev[0]["arg"]["dependencies"]}
    got = {x for x in got if x[1] != "system" or not x[0].startswith("/")}
    want = {(d[0], d[1]) for n in {"dir/src.cpp"} | m.closure("dir/src.cpp") for d in m.edges(n)}
    want = {x for x in want if x[1] != "system" or not x[0].startswith("/")}
    if got != want:
        raise Violation(f"for the C++ text\n{text.decode(errors="backslashreplace")}\nthe recipe should be told of the dependencies {sorted(want)}, but is told of {sorted(got)}")
    return Info(bool(incs), ["project"])
