"""C14: the source tree scan finds exactly the files it should."""

import copy
import os
import posixpath
import re

from hypothesis import strategies as st

from vlib import proj
from vlib.runner import Info, Violation
from . import common

ID = "C14"
LEVEL = "exploration"
RULE = ("generated directory trees (file and directory names with several extensions, hidden ones, names that only nearly match), filters for names and for whole paths, "
        "extension tables in which extensions are suffixes of each other, recursion on or off, and symbolic links in place of files and directories; files that are to be left out have contents that would be an error; the printed "
        "target list, the printed dependency graph and the number of entries are compared with a reference model, for 1 and for several workers and repeated; non-trivial: at "
        "least one entry is left out, one kept in a subdirectory, and two loaders used")
ASSUMPTIONS = ["no symbolic links that lead back to a directory above", "names have no line breaks"]
COUNT = {"quick": 3000, "thorough": 40000}
CAP = {"quick": 35, "thorough": 420}

# POSIX basic regular expression, the same for Python
FILTERS = [("^\\.", "^\\."), ("^__", "^__"), ("\\.bak$", "\\.bak$"), ("tmp", "tmp"), ("^b", "^b"), ("[0-9]", "[0-9]"), ("a.b", "a.b"), ("^skip$", "^skip$"),
           ("x\\(y\\)", "x(y)"), ("a+b", "a\\+b"), ("a|b", "a\\|b"), ("^a.*c$", "^a.*c$"), ("\\.c$", "\\.c$"), ("[^a-z._]", "[^a-z._]"), ("(x)", "\\(x\\)"), ("ü", "ü"), ("^$", "^$"), ("e\\{2\\}", "e{2}")]
PATHS = [("^sub/", "^sub/"), ("^a$", "^a$"), ("/skip", "/skip"), ("b/a", "b/a"), ("^sub/a/", "^sub/a/"), ("a/.*\\.c", "a/.*\\.c"), ("^\\./", "^\\./"), ("^b/b$", "^b/b$")] + FILTERS[:6]
DIRS = ["a", "b", "sub", "skip", "__x", ".h", "d.c", "t3", "ü", "a b", "tmp", "skipnot"]
STEMS = ["m", "k.l", "see2", "a", "b", "skip", "bb", "x(y)", "xy", "tmp1", "a+b", "a|b", "see", ".hid", "ü", "__u", "under__", "a b", "A"]
EXTS = ["", ".c", ".c", ".d", ".x", ".y.x.c", ".x.c", ".y.x.c", ".x", ".bak", ".c.bak", ".d", ".x.d", ".", ".C", "..c"]
TABLE = [".c", ".x.c", ".y.x.c", ".x", ".bak", ".d", ".zz", ".x.d", "c", ".y"]
LOADERS = ["cxx", "rule", "ext", "dat", "datr", "lib", "app"]


def setup(tier):
    proj.setup("opt")


@st.composite
def strategy_(draw):
    dirs = [""]
    for _ in range(draw(st.integers(1, 6))):
        d = posixpath.join(dirs[draw(st.integers(0, len(dirs) - 1))], draw(st.sampled_from(DIRS)))
        if d not in dirs:
            dirs.append(d)
    paths = []
    files = []
    for i in range(draw(st.integers(3, 20))):
        p = posixpath.join(dirs[draw(st.integers(0, len(dirs) - 1))], draw(st.sampled_from(STEMS)) + draw(st.sampled_from(EXTS)))
        if p in paths or p in dirs:
            continue
        paths.append(p)
        files.append({"p": p, "refs": draw(st.lists(st.integers(0, 20), max_size=2)), "tags": draw(st.integers(0, 3)) != 0})
    table = {e: draw(st.sampled_from(LOADERS)) for e in draw(st.lists(st.sampled_from(TABLE), min_size=2, max_size=7, unique=True))}
    return {"dirs": dirs[1:], "files": files, "table": table, "names": draw(st.lists(st.integers(0, len(FILTERS) - 1), min_size=draw(st.sampled_from([1, 1, 1, 0])), max_size=3)),
            "paths": draw(st.lists(st.integers(0, len(PATHS) - 1), min_size=draw(st.sampled_from([0, 0, 1])), max_size=2)), "recursive": draw(st.sampled_from([1, 1, 1, 1, 1, 0])),
            "links": draw(st.lists(st.tuples(st.sampled_from(["dir", "file", "alias"]), st.integers(0, 30), st.booleans(), st.integers(0, 6)), max_size=draw(st.sampled_from([0, 0, 3])))),
            "workers": draw(st.lists(st.sampled_from([2, 3, 8, 16]), min_size=1, max_size=1)), "src": draw(st.sampled_from([".", ".", "top", "top/b", "abs"]))}


def strategy(tier):
    return strategy_()


POISON = b"//@ {bad\n#@ {bad\n{bad\n#include \"./no such file\"\n"


def run_case(case, ctx):
    root = ctx.scratch()
    src = os.path.join(root, "b", "skip") if case["src"] == "abs" else case["src"]
    cwd = os.path.join(root, "cwd")
    top = os.path.normpath(os.path.join(cwd, src))
    os.makedirs(cwd)
    tgt = "__targets" if src == "." else posixpath.basename(src) + "_targets"
    nf = [re.compile(FILTERS[k][1]) for k in case["names"]]
    pf = [re.compile(PATHS[k][1]) for k in case["paths"]]
    config = copy.deepcopy(proj.BASE_CONFIG)
    config["source_file_info_loaders"]["datr"] = {"loader": "generic", "compiler": {"recipe": "rec", "config": {}},
                                                  "config": {"target_filename_ext": ".new", "filename_ext_replacement_mode": "replace"}}
    config["source_tree_loader"] = {"file_info_loaders": case["table"], "input_filter": [FILTERS[k][0] for k in case["names"]],
                                    "fullpath_input_filter": [PATHS[k][0] for k in case["paths"]], "recursive": case["recursive"]}

    def kept(path, isdir):
        """what the filters say about this path, its parents included"""
        parts = path.split("/")
        for k in range(1, len(parts) + 1):
            q = "/".join(parts[:k])
            if any(f.search(parts[k - 1]) for f in nf) or any(f.search(q) for f in pf):
                return False
            if not case["recursive"] and (k < len(parts) or isdir):
                return False
        return True
    files = []
    left_out = 0
    loader_of = proj.Model([], config, recipe_dir=proj.recipe_dir()).loader_of
    os.makedirs(top, exist_ok=True)
    used = set()
    for d in case["dirs"]:
        os.makedirs(os.path.join(top, d), exist_ok=True)
    keep = [f["p"] for f in case["files"] if kept(f["p"], False)]
    for i, f in enumerate(case["files"]):
        if f["p"] not in keep:
            left_out += 1
            with open(os.path.join(top, f["p"]), "wb") as o:
                o.write(POISON)
            continue
        ld = loader_of(f["p"])
        kind = None if ld is None else ld["loader"]
        used.add(kind)
        g = {"p": f["p"], "k": {"cxx_src_loader": "cxx", "maikerule": "rule", "lib": "rule", "app": "rule", "extension": "ext"}.get(kind, "txt")}
        refs = [keep[k % len(keep)] for k in f["refs"]]
        # references to files before this one only
        refs = [r for r in refs if keep.index(r) < keep.index(f["p"])]
        if kind == "cxx_src_loader":
            g["inc"] = [["q", "./" + posixpath.relpath(r, posixpath.dirname(f["p"]) or ".")] for r in refs]
        if f["tags"] and g["k"] != "txt":
            g["tags"] = {"target": {"name": f"t{i}.t"}}
            if kind != "cxx_src_loader":
                g["tags"]["dependencies"] = [{"ref": "./" + posixpath.relpath(r, posixpath.dirname(f["p"]) or "."), "origin": "project"} for r in refs]
        proj.write_file(top, g)
        files.append(g)
    dirs = [d for d in case["dirs"] if kept(d, True)]
    linked = 0
    links = [list(x) for x in case.get("links", [])]
    moves = [(case["dirs"][n % len(case["dirs"])] if kind == "dir" else case["files"][n % len(case["files"])]["p"], absolute)
             for kind, n, absolute, into in links if kind != "alias" and (case["dirs"] if kind == "dir" else case["files"])]
    linked += common.link_away(root, top, moves)
    for k, (kind, n, absolute, into) in enumerate(links):
        if kind == "alias" and files:
            # one more name for a file
            f = files[n % len(files)]
            p = posixpath.join(([""] + dirs)[into % (len(dirs) + 1)], f"alias{k}" + posixpath.basename(f["p"]))
            if f.get("inc") or (f.get("tags") or {}).get("dependencies") or not kept(p, False) or loader_of(p) != loader_of(f["p"]):
                continue
            full = os.path.join(top, p)
            os.symlink(os.path.realpath(os.path.join(top, f["p"])), full)
            files.append(dict(f, p=p))
            linked += 1
    # the configuration lies outside of the tree
    with open(os.path.join(root, "c.json"), "w") as f:
        f.write(proj.json.dumps({"maikeconfig": config}))
    args = ["--configfiles=" + os.path.join(root, "c.json")]
    if src != ".":
        args.append("--source-dir=" + src)
    else:
        tgt = "__targets"
    try:
        m = proj.Model(files, config, src=src, tgt=tgt, dirs=dirs, recipe_dir=proj.recipe_dir())
        m.validate()
    except proj.Reject as e:
        r = proj.run_maike(cwd, args + ["--list-targets"], ctx=ctx)
        proj.must_end(r)
        if e.what == "duplicate" and r.rc == 0:
            raise Violation(f"{e.culprit} is declared twice, but the tree is accepted\n" + r.text())
        return Info(False, ["ill-formed " + e.what])
    want_t = sorted(proj.norm(posixpath.relpath(t, tgt)) for t in m.targets)
    want_e = sorted({(common.plain(n), common.plain(d[0])) for n in m.nodes for d in m.edges(n)})
    n_entries = len(m.nodes) + len(m.external)
    outs = []
    for w in [1] + case["workers"][:1]:
        a = args + [f"--num-workers={w}"]
        r = proj.must_end(proj.run_maike(cwd, a + ["--list-targets"], ctx=ctx))
        if r.rc:
            raise Violation("the tree can't be scanned\n" + r.text())
        got = [x for x in r.out.decode().split("\n") if x and not x.startswith("# ") and x != "#"]
        if sorted(proj.norm(x) for x in got) != want_t:
            a, b = set(proj.norm(x) for x in got), set(want_t)
            raise Violation(f"targets listed: not expected {sorted(a - b)}, missing {sorted(b - a)}\n" + r.text())
        mm = re.search(r"with (\d+) entries \((\d+) targets\)", r.err.decode(errors="replace"))
        if mm and (int(mm.group(1)), int(mm.group(2))) != (n_entries, len(m.targets)):
            raise Violation(f"the tree has {mm.group(1)} entries and {mm.group(2)} targets, expected {n_entries} ({sorted(m.nodes)}, {sorted(m.external)}) and {len(m.targets)}")
        r2 = proj.must_end(proj.run_maike(cwd, a + ["--print-dep-graph"], ctx=ctx))
        def fail(msg):
            raise Violation(msg + "\n" + r2.text())
        if r2.rc:
            fail("the dependency graph can't be printed")
        out = r2.out.decode()
        edges = sorted((common.plain(a), common.plain(b)) for a, b in common.read_dot(out[out.find("digraph"):], fail))
        if edges != want_e:
            a, b = set(edges), set(want_e)
            raise Violation(f"dependency graph: not expected {sorted(a - b)}, missing {sorted(b - a)}\n" + r2.text())
        outs.append((got, edges))
    for o in outs[1:]:
        if o != outs[0]:
            raise Violation(f"the output differs between {[1] + case['workers']} workers: {outs[0]} and {o}")
    left_out += len(case["dirs"]) - len(dirs)
    deep = any("/" in f["p"] for f in files)
    return Info(left_out and deep and len(used - {None}) >= 2,
                ["recursive" if case["recursive"] else "flat", "links" if linked else "no links", f"left out {min(left_out, 5)}", f"loaders {len(used)}", "source dir " + ("absolute" if case["src"] == "abs" else "relative")])
