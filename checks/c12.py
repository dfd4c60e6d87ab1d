"""C12: a dry run changes nothing, and the commands it prints do the build."""

import json
import os
import posixpath
import shutil
import subprocess

from hypothesis import strategies as st

from vlib import gen, proj
from vlib.runner import Info, Violation
from . import common

ID = "C12"
LEVEL = "exploration"
RULE = ("generated projects, many with blanks, quotes, dollar signs, backslashes, glob characters and non-ASCII letters in file, directory and target names "
        "and in settings, not built at all, built, or built and changed since; a dry run with generated other options must leave the tree "
        "(contents, modes and times, of everything below and beside the project) as it was and compile nothing; the printed lines are run by sh in that directory and the "
        "real build is made in a copy: same recipes with the same arguments if nothing was built before, and same targets; "
        "non-trivial: at least 3 commands")
ASSUMPTIONS = ["names have no line breaks", "/bin/sh is a POSIX shell"]
COUNT = {"quick": 3000, "thorough": 25000}
CAP = {"quick": 40, "thorough": 420}


def setup(tier):
    proj.setup("opt")


@st.composite
def strategy_(draw):
    c = draw(gen.project(max_mods=9, odd=True, always=True))
    c["state"] = draw(st.sampled_from(["fresh", "fresh", "fresh", "built", "changed"]))
    c["edit"] = draw(st.lists(st.integers(0, 40), max_size=3))
    c["force"] = draw(st.booleans())
    c["targets"] = draw(st.one_of(st.none(), st.none(), st.lists(st.integers(0, 40), min_size=1, max_size=2)))
    c["workers"] = draw(st.sampled_from([1, 2, 8]))
    c["level"] = draw(st.sampled_from(["compilation_command"] * 5 + ["source_file_info", "errors", None]))
    c["root"] = draw(st.sampled_from([".", ".", "src", "s p", "abs"]))
    return c


def strategy(tier):
    return strategy_()


def escape(name):
    return name.replace("\\", "\\\\").replace(",", "\\,")


def run_case(case, ctx):
    root = ctx.scratch()
    w = os.path.join(root, "w")
    if case["root"] == "abs":
        src = os.path.join(w, "q")
    else:
        src = case["root"]
    top = os.path.normpath(os.path.join(w, src))
    tgt = "__targets" if src == "." else os.path.basename(src) + "_targets"
    os.makedirs(w)
    proj.write_project(top, case["files"], dirs=case["dirs"])
    m = common.model_of(case, src=src, tgt=tgt)
    m.validate()
    log = os.path.join(root, "log")
    base = [f"--num-workers={case['workers']}", "--build-id=" + "0123456789abcdef" * 4, "--start-time=1600000000"]
    if src != ".":
        base.append("--source-dir=" + src)
    if case["state"] != "fresh":
        r = proj.run_maike(w, base, log=log, ctx=ctx)
        proj.must_succeed(r)
        if case["state"] == "changed":
            for k in case["edit"]:
                f = case["files"][k % len(case["files"])]
                f["v"] = f.get("v", 0) + 1
                proj.write_file(top, f)
            ts = sorted(x for x, c in proj.list_targets(w, tgt).items() if c is not None)
            if ts and case["edit"]:
                os.unlink(os.path.join(w, tgt, ts[case["edit"][0] % len(ts)]))
    names = []
    if case["targets"]:
        ts = sorted(m.file_targets())
        if ts:
            names = [common.rel_to(tgt, ts[x % len(ts)]) for x in case["targets"]]
            base.append("--targets=" + ",".join(escape(x) for x in names))
    if case["force"]:
        base.append("--force-rebuild")
    if case["level"]:
        base.append("--log-level=" + case["level"])
    before = proj.snapshot(w)
    r = proj.run_maike(w, base + ["--dry-run"], log=log, ctx=ctx)
    proj.must_succeed(r, "a dry run of a well-formed project")
    after = proj.snapshot(w)
    if before != after:
        diff = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
        raise Violation(f"a dry run with {base} changed {diff}\n" + r.text())
    if r.compiles():
        raise Violation(f"a dry run with {base} ran the compile step for {[x[0] for x in r.compiles()]}")
    labels = [case["state"], "level " + str(case["level"]), "force" if case["force"] else "no force", "targets" if names else "all"]
    if case["level"] != "compilation_command":
        return Info(len(m.compiled()) >= 3, labels)
    # the real build, in a copy at a place that looks the same
    real = os.path.join(root, "real")
    shutil.copytree(w, real, symlinks=True)
    if case["root"] == "abs":
        # absolute names have to stay the same: the printed commands are run first, in a copy put back in place
        os.rename(w, os.path.join(root, "keep"))
        os.rename(real, w)
        rr = proj.run_maike(w, base, log=os.path.join(root, "log2"), ctx=ctx)
        os.rename(w, real)
        os.rename(os.path.join(root, "keep"), w)
    else:
        rr = proj.run_maike(real, base, log=os.path.join(root, "log2"), ctx=ctx)
    proj.must_succeed(rr)
    os.unlink(log)
    p = subprocess.run(["/bin/sh", "-e"], input=r.out, cwd=w, env=proj.environment(log=log), capture_output=True, timeout=60)
    if p.returncode:
        raise Violation(f"the commands printed by a dry run fail in sh: {p.stderr[-2000:].decode(errors='replace')}\n" + r.out.decode(errors="replace")[-3000:])
    sh = proj.Run(0, b"", p.stderr, proj.read_log(log))
    proj.check_order(m, sh)
    got, want = proj.list_targets(w, tgt), proj.list_targets(real, tgt)
    if got != want:
        diff = sorted(k for k in set(got) | set(want) if got.get(k, 0) != want.get(k, 0))
        raise Violation(f"the printed commands and the real build give different targets: {[(k, got.get(k, 0), want.get(k, 0)) for k in diff[:5]]}\n" + r.out.decode(errors="replace")[-3000:])
    if case["state"] == "fresh":
        a = sorted((s["argc"], os.path.basename(s["self"]), json.dumps(s["arg"], sort_keys=True)) for _, s, _ in sh.compiles())
        b = sorted((s["argc"], os.path.basename(s["self"]), json.dumps(s["arg"], sort_keys=True)) for _, s, _ in rr.compiles())
        if len(names) > 1:      # each target of the list is looked at on its own, nothing being built in a dry run
            a, b = sorted(set(a)), sorted(set(b))
        if a != b:
            raise Violation(f"the printed commands run\n{a}\nbut the real build runs\n{b}")
    elif not {s for s, _, _ in rr.compiles()} <= {s for s, _, _ in sh.compiles()}:
        raise Violation("the real build runs recipes that the dry run does not print")
    return Info(len(sh.compiles()) >= 3, labels)
