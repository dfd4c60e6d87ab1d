"""C08: embedded build tags are extracted exactly, on their own lines."""

import json
import os
import re

from hypothesis import strategies as st

from vlib import cxxgen, driver, proj
from vlib.runner import Info, Violation
from .c07 import soup_tok

ID = "C08"
LEVEL = "exploration"
RULE = ("C++ texts whose tag lines are known by construction (comments, literals and raw strings hold text that looks like tags), script "
        "texts of arbitrary lines, and rule files, read in generated pieces through the tag filters under address and "
        "undefined-behaviour sanitizers; for a part of them a whole project: tags spread over the file must declare exactly the targets "
        "they hold, and a syntax error must be reported with the line it is on; arbitrary token sequences, for which the source text must "
        "come back, line counts agree and cutting the reads change nothing; non-trivial: at least one tag line and one other line")
ASSUMPTIONS = ["lines are not spliced outside of literals", "tags begin a line in the sense that only white space comes before the mark"]
COUNT = {"quick": 25000, "thorough": 500000}
CAP = {"quick": 40, "thorough": 420}
ROUND = 200
close = driver.close


def setup(tier):
    proj.setup("opt")
    driver.setup("loaders")


script_line = st.one_of(
    st.tuples(st.sampled_from(["", " ", "\t", "  \t"]), st.just("#@"), st.sampled_from(["", ' {"a": 1}', "x", "  y  ", "#@", " # no", '"', "\tü", "\\", " \udcff"])),
    st.tuples(st.sampled_from(["", " ", "\t"]), st.sampled_from(["#", "# @", "##@", "x #@", "'", "@#", "#!", '"#@', "/#@", ";#@ y", "$#@"]),
              st.sampled_from(["", " no", "@", "#@ no", '"', "\udcff"]))).map(list)


@st.composite
def strategy_(draw):
    k = draw(st.sampled_from(["cxx", "cxx", "cxx", "cxx", "script", "script", "soup", "rule", "e2e"]))
    if k == "cxx":
        c = draw(cxxgen.text())
    elif k == "script":
        c = {"lines": draw(st.lists(script_line, min_size=1, max_size=12)), "crlf": draw(st.booleans()), "final": draw(st.booleans()),
             "pad": draw(st.sampled_from([0, 0, 0, 0, 4090, 4095, 4096, 8192])), "padw": draw(st.booleans())}
    elif k == "soup":
        c = {"soup": draw(st.lists(soup_tok, min_size=1, max_size=40)), "lang": draw(st.sampled_from(["cxx", "ext"]))}
    elif k == "rule":
        c = {"soup": draw(st.lists(soup_tok, max_size=20)), "times": draw(st.sampled_from([1, 1, 50, 3000]))}
    else:
        # a JSON document spread over tag lines between other elements
        c = draw(cxxgen.text(10))
        c["els"] = [e for e in c["els"] if e[0] not in ("tag", "inc")]
        c["final"] = True
        c["names"] = draw(st.integers(1, 4))
        c["where"] = draw(st.lists(st.integers(0, 20), min_size=4 + 3, max_size=4 + 3))
        c["break"] = draw(st.one_of(st.none(), st.integers(0, 10)))
        c["lang"] = draw(st.sampled_from(["cxx", "cxx", "ext"]))
    c["kind"] = k
    c["cuts"] = draw(cxxgen.cuts)
    return c


def strategy(tier):
    return strategy_()


def run_case(case, ctx):
    drv = driver.get(ctx, "loaders")
    cuts = ",".join(map(str, case["cuts"]))
    k = case["kind"]
    if k == "cxx":
        text, _, tags = cxxgen.render(case)
        src, got = drv.call("cxx", text, cuts)
        lang = "C++"
    elif k == "script":
        nl = "\r\n" if case["crlf"] else "\n"
        lines = [a + b + c for a, b, c in case["lines"]]
        if case["pad"]:
            lines.insert(len(lines) // 2, (" " if case["padw"] else "p") * case["pad"])
        text = (nl.join(lines) + (nl if case["final"] else "")).encode(errors="surrogateescape")
        tags = {}
        for i, l in enumerate(text.decode(errors="surrogateescape").split("\n")):
            m = re.match(r"[\x00-\x20]*#@", l)
            if m:
                tags[i] = (m.end(), l[m.end():])
        src, got = drv.call("ext", text, cuts)
        lang = "script"
    elif k == "soup":
        text = "".join(case["soup"]).encode(errors="surrogateescape")
        src, got = drv.call(case["lang"], text, cuts)
        one = drv.call(case["lang"], text, "")
        if one != [src, got]:
            raise Violation(f"{text!r} gives {one} when read at once, but {[src, got]} when read in pieces")
        if src != text:
            raise Violation(f"the source text {text!r} comes out as {src!r}")
        if got.count(b"\n") != text.count(b"\n"):
            raise Violation(f"{text!r} gives the tag text {got!r}, with another number of lines")
        return Info(False, ["token sequence"])
    elif k == "rule":
        text = ("".join(case["soup"]) * case["times"]).encode(errors="surrogateescape")
        src, got = drv.call("rule", text, cuts)
        if got != text:
            raise Violation(f"a rule file of {len(text)} bytes gives a tag text of {len(got)} bytes, which differs")
        return Info(len(text) > 0, ["rule file"])
    else:
        return e2e(case, ctx)
    if src != text:
        raise Violation(f"the source text {text!r} comes out as {src!r}")
    bad = cxxgen.check_tag_stream(text, got, tags)
    if bad:
        raise Violation(f"in the {lang} text\n{text.decode(errors="backslashreplace")}\n{bad}")
    return Info(len(tags) and text.count(b"\n") > len(tags), [lang, "crlf" if case["crlf"] else "lf"])


def e2e(case, ctx):
    root = ctx.scratch()
    names = [f"t{i}.out" for i in range(case["names"])]
    parts = ['{"targets":', "["] + [json.dumps({"name": n}) + ("," if i + 1 < len(names) else "") for i, n in enumerate(names)] + ["]", "}"]
    brk = None if case["break"] is None else case["break"] % len(parts)
    if brk is not None:
        # an invalid token after this part, or in its place if there is nothing else left to be read
        if brk == len(parts) - 1:
            parts[brk] = "?"
        else:
            parts[brk] += " ?"
    if case["lang"] == "cxx":
        els = list(case["els"])
        pos = sorted(w % (len(els) + 1) for w in case["where"][:len(parts)])
        pos += [len(els)] * (len(parts) - len(pos))
        for i, (q, t) in enumerate(zip(pos, parts)):
            els.insert(q + i, ["tag", "", " " + t])
        text, incs, tags = cxxgen.render(dict(case, els=els))
        name = "src.cpp"
    else:
        lines = ["#!/bin/sh"]
        tags = {}
        for i, t in enumerate(parts):
            lines += ["# no #@ tag"] * (case["where"][i % 7] % 3)
            tags[len(lines)] = (2, " " + t)
            lines.append("#@ " + t)
        text = ("\n".join(lines) + "\n").encode(errors="surrogateescape")
        name = "src.sh"
    p = os.path.join(root, "p")
    files = [{"p": name, "k": "txt", "raw": ""}]
    proj.write_project(p, [])
    with open(os.path.join(p, name), "wb") as f:
        f.write(text)
    os.chmod(os.path.join(p, name), 0o755)
    r = proj.run_maike(p, ["--list-targets"], ctx=ctx)
    proj.must_end(r)
    if brk is None:
        if r.rc != 0:
            raise Violation(f"the file\n{text.decode(errors="backslashreplace")}\nis rejected\n" + r.text())
        got = [l for l in r.out.decode().split("\n") if l.strip() and not l.startswith("#")]
        miss = [n for n in names if not any(n in l for l in got)]
        if miss or sum(l.count(".out") for l in got) != len(names):
            raise Violation(f"the file\n{text.decode(errors="backslashreplace")}\ndeclares {names}, but the targets listed are {got}")
        return Info(True, ["project"])
    if r.rc == 0:
        raise Violation(f"the file\n{text.decode(errors="backslashreplace")}\nhas a syntax error in its tags, but is accepted\n" + r.text())
    ln = sorted(tags)[brk] + 1
    err = r.err.decode(errors="replace")
    if not re.search(r"%s:%d:" % (re.escape(name), ln), err):
        raise Violation(f"the file\n{text.decode(errors="backslashreplace")}\nhas a syntax error in its tags on line {ln}, but what is reported is\n{err}")
    return Info(True, ["syntax error"])
