"""C03: an incremental build gives the same targets as a clean build."""

import copy
import os
import shutil

from hypothesis import strategies as st

from vlib import gen, proj
from vlib.runner import Info, Violation
from . import common

ID = "C03"
LEVEL = "fault_enumeration"
RULE = ("generated project and a generated history of edits (content, dependencies added and dropped, files removed, added back and "
        "renamed, targets deleted) and builds (complete, of chosen targets, with failing recipes, killed half way, dry); after the last "
        "build, which must succeed, every target is compared with the content a build from scratch gives; non-trivial: at least "
        "one edit of a file another one depends on between two builds")
ASSUMPTIONS = ["edits get the current file time and happen between builds",
               "a recipe that fails or is killed leaves no half-written target (the recording recipe renames its targets into place)"]
COUNT = {"quick": 900, "thorough": 12000}
CAP = {"quick": 45, "thorough": 540}

OPS = ["edit", "edit", "edit", "mask", "mask", "toggle", "rename", "retarget", "deltarget", "deldir", "recipe", "touch"]


def setup(tier):
    proj.setup("opt")


@st.composite
def strategy_(draw):
    c = draw(gen.project(max_mods=12, min_mods=2))
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        edits = [[draw(st.sampled_from(OPS)), draw(st.integers(0, 60)), draw(st.integers(0, 31))]
                 for _ in range(draw(st.integers(0, 4)))]
        b = draw(st.sampled_from(["full", "full", "full", "targets", "fail", "kill", "kill", "dry", "force"]))
        bl = {"b": b, "w": draw(st.sampled_from([1, 2, 4, 8]))}
        if b == "targets":
            bl["t"] = draw(st.lists(st.integers(0, 60), min_size=1, max_size=2))
        if b == "fail":
            bl["f"] = draw(st.lists(st.integers(0, 60), min_size=1, max_size=3))
        if b == "kill":
            bl["ms"] = draw(st.integers(3, 70))
            bl["delay"] = draw(st.sampled_from([0, 3000, 20000]))
        ops.append({"e": edits, "b": bl})
    c["ops"] = ops
    return c


def strategy(tier):
    return strategy_()


class State:
    """The project as edited so far: for each original file its version, dependency mask, presence and name."""

    def __init__(self, case):
        self.files = copy.deepcopy(case["files"])
        self.meta = [{"present": True, "mask": 0, "suffix": 0, "tsuffix": 0} for _ in self.files]
        self.dirs = case["dirs"]

    def current(self):
        ret = []
        for f, m in zip(self.files, self.meta):
            if not m["present"]:
                continue
            g = copy.deepcopy(f)
            bit = 0

            def keep():
                nonlocal bit
                bit += 1
                return not (m["mask"] >> (bit - 1)) & 1
            g["inc"] = [x for x in g.get("inc", []) if keep()]
            t = g.get("tags")
            if t:
                for key in ("dependencies", "dependencies_extra"):
                    if key in t:
                        t[key] = [x for x in t[key] if keep()]
                for tt in ([t["target"]] if "target" in t else []) + t.get("targets", []):
                    if "dependencies" in tt:
                        tt["dependencies"] = [x for x in tt["dependencies"] if keep()]
            if m["suffix"]:
                d, b = os.path.split(g["p"])
                g["p"] = os.path.join(d, f"r{m['suffix']}" + b)
            if m["tsuffix"] and t:
                tl = ([t["target"]] if "target" in t else []) + t.get("targets", [])
                for tt in tl:
                    tt["name"] = f"t{m['tsuffix']}" + tt["name"]
            ret.append(g)
        return ret


def model(files, dirs):
    return proj.Model(files, dirs=dirs, recipe_dir=proj.recipe_dir())


def well_formed(files, dirs):
    try:
        m = model(files, dirs)
        m.validate()
        return m
    except proj.Reject:
        return None


def run_case(case, ctx):
    root, p = common.materialise(ctx, case)
    log = os.path.join(root, "log")
    state = State(case)
    labels = set()
    nontrivial = False
    on_disk = {f["p"]: proj.render(f) for f in state.current()}

    def sync(force=()):
        """bring the files on disk to the state's, writing only what changed"""
        want = {f["p"]: f for f in state.current()}
        for q in list(on_disk):
            if q not in want:
                os.unlink(os.path.join(p, q))
                del on_disk[q]
        for q, f in want.items():
            data = proj.render(f)
            if on_disk.get(q) != data or q in force:
                proj.write_file(p, f)
                on_disk[q] = data

    builds = 0
    for step in list(case["ops"]):
        edited = set()
        for op, k, arg in step["e"]:
            i = k % len(state.files)
            before = copy.deepcopy((state.files, state.meta))
            force = ()
            f, me = state.files[i], state.meta[i]
            if op == "edit":
                f["v"] = f.get("v", 0) + 1
            elif op == "touch":
                force = [g["p"] for g, h in zip(state.files, state.meta) if g is f and h["present"] and not h["suffix"]]
            elif op == "mask":
                me["mask"] = arg
            elif op in ("toggle", "rename") and f["k"] == "recipe":
                pass
            elif op == "toggle":
                me["present"] = not me["present"]
            elif op == "rename":
                me["suffix"] = arg % 3
            elif op == "retarget":
                me["tsuffix"] = arg % 3
            elif op == "recipe":
                for g in state.files:
                    if g["k"] == "recipe":
                        g["v"] += 1
            elif op == "deltarget":
                files = sorted(x for x, c in proj.list_targets(p).items() if c is not None)
                if files:
                    os.unlink(os.path.join(p, "__targets", files[k % len(files)]))
            elif op == "deldir":
                ds = sorted(x for x, c in proj.list_targets(p).items() if c is None) + [""]
                if os.path.isdir(os.path.join(p, "__targets")):
                    shutil.rmtree(os.path.join(p, "__targets", ds[k % len(ds)]))
            if well_formed(state.current(), state.dirs) is None:
                state.files, state.meta = before     # the edit would make the project ill-formed: not made
            else:
                labels.add(op)
                edited.add(i)
                sync(force)
        m = well_formed(state.current(), state.dirs)
        b = step["b"]
        labels.add("build " + b["b"])
        args = [f"--num-workers={b['w']}"]
        kw = {}
        comp = sorted(n for n in m.compiled() if not m.nodes[n].isdir)
        fail = []
        if b["b"] == "targets":
            ts = sorted(m.file_targets())
            if ts:
                names = sorted({common.rel_to("__targets", ts[x % len(ts)]) for x in b["t"]})
                args.append("--targets=" + ",".join(names))
        elif b["b"] == "fail" and comp:
            fail = sorted({comp[x % len(comp)] for x in b["f"]})
        elif b["b"] == "dry":
            args.append("--dry-run")
        elif b["b"] == "force":
            args.append("--force-rebuild")
        elif b["b"] == "kill":
            kw["kill_after"] = b["ms"] / 1000
            kw["maxdelay"] = b["delay"]
        common.orders(root, {n: ["exit 1"] for n in fail})
        r = proj.run_maike(p, args, log=log, ctl=os.path.join(root, "ctl"), seed=builds, ctx=ctx, **kw)
        if b["b"] != "kill":
            proj.must_end(r)
            if b["b"] in ("full", "force", "targets") and r.rc != 0:
                raise Violation("an error-free incremental build fails\n" + r.text())
        if builds and any(m.source_name(state.files[i]["p"]) in m.closure(n) for i in edited for n in comp):
            nontrivial = True
        builds += 1
    common.orders(root, {})
    r = proj.run_maike(p, ["--num-workers=4"], log=log, ctl=os.path.join(root, "ctl"), ctx=ctx)
    proj.must_end(r)
    if r.rc != 0:
        raise Violation("an error-free build after the history fails\n" + r.text())
    m = well_formed(state.current(), state.dirs)
    want = proj.expected_contents(m)
    got = proj.list_targets(p)
    bad = [t for t, c in want.items() if got.get(common.rel_to("__targets", t)) != c.encode()]
    if bad:
        # decide by a build from scratch of the same files
        clean = os.path.join(root, "clean", "p")
        shutil.copytree(p, clean)
        shutil.rmtree(os.path.join(clean, "__targets"))
        rc = proj.run_maike(clean, ["--num-workers=4"], log=os.path.join(root, "log2"), ctx=ctx)
        cl = proj.list_targets(clean)
        for t in sorted(want):
            rel = common.rel_to("__targets", t)
            if rc.rc == 0 and got.get(rel) != cl.get(rel):
                raise Violation(f"target {rel} has content {got.get(rel)!r} after the history, but {cl.get(rel)!r} after a build from scratch")
    return Info(nontrivial, sorted(labels))
