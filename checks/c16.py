"""C16: results do not depend on where the project, the targets or the caller are."""

import os
import posixpath

from hypothesis import strategies as st

from vlib import gen, proj
from vlib.runner import Info, Violation
from . import common

ID = "C16"
LEVEL = "exploration"
RULE = ("a generated project is built from a generated working directory with a generated spelling of source and target directory (relative, absolute, with ., .., doubled and trailing slashes, through symbolic links), with some of its files and directories replaced by symbolic links to elsewhere, built again, and built "
        "after an edit; targets must be at the place and have the content that the reference model gives for that layout, relative to the target directory the same set as a build in place, and nothing else in the scratch tree may change; "
        "non-trivial: not the plain in-place build, at least 3 file targets and one of them made from another file")
ASSUMPTIONS = ["the parent of the target directory exists", "a target directory inside the project is excluded from the scan by the input filter", ".. does not follow a symbolic link in the directories given"]
COUNT = {"quick": 2600, "thorough": 30000}
CAP = {"quick": 40, "thorough": 420}

CWDS = ["p", "", "other", "other/deep", "p/sub"]
SRC = ["none", "rel", "dotrel", "slash", "slashdot", "updown", "double", "abs", "absslash", "absupdown", "abs_double", "link", "abslink"]
TGT = ["default", "__t", "__t/x", "sibling", "updown", "abs", "absslash", "dot__t", "slash", "abs_inside", "inplace_dir", "double", "link", "linkbelow"]


def setup(tier):
    proj.setup("opt")


@st.composite
def strategy_(draw):
    c = draw(gen.project(max_mods=9, min_mods=2, odd=draw(st.integers(0, 3)) == 3, spelling=True))
    c["cwd"] = draw(st.sampled_from(CWDS))
    c["src"] = draw(st.sampled_from(SRC))
    c["tgt"] = draw(st.sampled_from(TGT))
    c["name"] = draw(st.sampled_from(["p", "p", "proj.x", "my project", "p_targets", "p-", "ü"]))
    c["edit"] = draw(st.integers(0, 40))
    c["links"] = draw(st.lists(st.tuples(st.sampled_from(["dir", "file"]), st.integers(0, 30), st.booleans()), max_size=draw(st.sampled_from([0, 0, 3]))))
    c["workers"] = draw(st.sampled_from([1, 4]))
    return c


def strategy(tier):
    return strategy_()


def changed(before, after, below, root):
    """names outside of `below` that differ"""
    out = []
    for n in set(before) | set(after):
        full = os.path.normpath(os.path.join(root, n))
        if full == below or full.startswith(below + "/"):
            continue
        a, b = before.get(n), after.get(n)
        if a != b:
            # the directory in which the target directory is made changes its time
            if a and b and full == os.path.dirname(below) and a[0] == b[0] and a[3] == b[3]:
                continue
            out.append(n)
    return out


def run_case(case, ctx):
    base = ctx.scratch()
    root = os.path.join(base, "r")
    name = case["name"]
    p = os.path.join(root, name)
    os.makedirs(root)
    proj.write_project(p, case["files"], proj.BASE_CONFIG, case.get("dirs", ()))
    for d in ["other/deep", "tt", "other/x"]:
        os.makedirs(os.path.join(root, d))
    os.makedirs(os.path.join(p, "__pre"))
    os.symlink(p, os.path.join(root, "other/plink"))
    os.makedirs(os.path.join(root, "tt/real"))
    os.symlink("../tt/real", os.path.join(root, "other/tlink"))
    dirs = sorted(({posixpath.dirname(f["p"]) for f in case["files"]} | set(case.get("dirs", ()))) - {""})
    linked = common.link_away(root, p, [(dirs[n % len(dirs)] if kind == "dir" and dirs else case["files"][n % len(case["files"])]["p"], absolute) for kind, n, absolute in case.get("links", [])])
    cwd = {"p": p, "": root, "other": os.path.join(root, "other"), "other/deep": os.path.join(root, "other/deep"), "p/sub": os.path.join(p, "__pre")}[case["cwd"]]
    rel = os.path.relpath(p, cwd)
    inside = os.path.basename(p)
    how = case["src"]
    if how == "none" and case["cwd"] != "p":
        how = "rel"
    args = [f"--num-workers={case['workers']}"]
    src_text = {"none": None, "rel": rel, "dotrel": "./" + rel, "slash": rel + "/", "slashdot": rel + "/.", "updown": rel + "/../" + inside, "double": rel + "//__pre/..//",
                "abs": p, "absslash": p + "/", "absupdown": os.path.join(root, "other/..", name, "__pre", ".."), "abs_double": p.replace("/" + name, "//" + name),
                "link": os.path.relpath(os.path.join(root, "other/plink"), cwd), "abslink": os.path.join(root, "other/plink")}[how]
    if how == "updown" and rel.startswith(".."):
        src_text = "../" + os.path.basename(cwd) + "/" + rel
    src = "." if src_text is None else proj.norm(src_text)
    if src.startswith("//"):
        src = src[1:]
    if src_text is not None:
        args.append("--source-dir=" + src_text)
    t = case["tgt"]
    tgt_text = {"default": None, "__t": "__t", "__t/x": "__pre/x" if cwd == p else "__x", "sibling": "../tt" if cwd != root else "tt", "updown": "__t/../__u/../__v", "abs": os.path.join(root, "tt/abs"),
                "absslash": os.path.join(root, "tt/abs2/"), "dot__t": "./__t", "slash": "__t/", "abs_inside": os.path.join(p, "__in"), "inplace_dir": ".", "double": ".//__t//",
                "link": os.path.relpath(os.path.join(root, "other/tlink"), cwd), "linkbelow": os.path.join(root, "other/tlink/x")}[t]
    if t == "inplace_dir" and (cwd == p or case["cwd"] == ""):
        tgt_text = "__here"
    if t == "sibling" and case["cwd"] == "p/sub":
        tgt_text = "../__tt"
    if t == "sibling" and case["cwd"] == "other/deep":
        tgt_text = "../../tt/y"
    if tgt_text is None:
        tgt = "__targets" if src == "." else posixpath.basename(src) + "_targets"
    else:
        args.append("--target-dir=" + tgt_text)
        tgt = proj.norm(tgt_text)
    if t == "default" and case["cwd"] == "" and name + "_targets" == name:
        return Info(False)
    full_tgt = os.path.normpath(os.path.join(cwd, tgt))
    m = proj.Model(case["files"], proj.BASE_CONFIG, src=src, tgt=tgt, dirs=case.get("dirs", ()), recipe_dir=proj.recipe_dir())
    plain = proj.Model(case["files"], proj.BASE_CONFIG, dirs=case.get("dirs", ()), recipe_dir=proj.recipe_dir())
    assert {os.path.relpath(x, tgt) for x in m.targets} == {os.path.relpath(x, "__targets") for x in plain.targets}
    m.validate()
    real_tgt = os.path.realpath(full_tgt)
    before = proj.snapshot(root)
    log = os.path.join(base, "log")
    ctl = os.path.join(base, "ctl")
    os.makedirs(ctl)
    what = f"built in {case['cwd']} with {args}"

    def build(expect, label):
        r = proj.run_maike(cwd, args, log=log, ctl=ctl, ctx=ctx)
        proj.must_succeed(r, f"{what} ({label}): a well-formed project")
        ran = sorted(x[0] for x in r.compiles())
        if expect is not None and ran != sorted(expect):
            raise Violation(f"{what} ({label}): recipes run for {ran}, expected {sorted(expect)}\n" + r.text())
        return r
    r = build([n for n in m.compiled() if not (m.nodes[n].isdir and os.path.isdir(os.path.join(cwd, m.nodes[n].targets[0][0])))] if t != "inplace_dir" else None, "first")
    proj.check_order(m, r)

    def check(label):
        want = {os.path.normpath(os.path.join(cwd, k)): v for k, v in proj.expected_contents(m).items()}
        for x, c in want.items():
            if not os.path.isfile(x):
                raise Violation(f"{what} ({label}): target {os.path.relpath(x, full_tgt)} is missing")
            with open(x) as f:
                got = f.read()
            if got != c:
                raise Violation(f"{what} ({label}): target {os.path.relpath(x, full_tgt)} has content {got!r}, expected {c!r}")
        have = {os.path.join(d, n) for d, _, ns in os.walk(full_tgt) for n in ns}
        extra = {x for x in have - set(want) if os.path.relpath(x, root) not in before}
        if extra:
            raise Violation(f"{what} ({label}): unexpected files {sorted(extra)}")
    check("first")
    bad = changed(before, proj.snapshot(root), real_tgt, root)
    if bad:
        raise Violation(f"{what}: outside of the target directory {full_tgt}, changed: {sorted(bad)}\n" + r.text())
    rescan_ok = not (full_tgt.startswith(p + "/") and not os.path.relpath(full_tgt, p).startswith("__"))
    if rescan_ok:
        build([], "second")
        f = case["files"][case["edit"] % len(case["files"])]
        f["v"] = f.get("v", 0) + 1
        proj.write_file(p, f)
        m = proj.Model(case["files"], proj.BASE_CONFIG, src=src, tgt=tgt, dirs=case.get("dirs", ()), recipe_dir=proj.recipe_dir())
        build(None, "after an edit")
        check("after an edit")
    ft = m.file_targets()
    src_names = {m.source_name(x) for x in m.files}
    chained = any(x[0] in src_names or x[0] in ft for n in ft.values() for x in m.edges(n))
    nontriv = (case["cwd"] != "p" or how != "none" or t != "default") and len(ft) >= 3 and chained
    return Info(nontriv, ["links" if linked else "no links", "cwd " + case["cwd"], "src " + how, "tgt " + t, "rescan" if rescan_ok else "no rescan"])
