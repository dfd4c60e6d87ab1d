"""C32: maike builds and installs itself."""

import concurrent.futures
import hashlib
import json
import os
import re
import shlex
import shutil
import signal
import stat
import subprocess

from hypothesis import strategies as st

from vlib import build, gen, proj
from vlib.build import BUILD, REPO
from vlib.runner import Inconclusive, Info, Violation
from . import common

ID = "C32"
LEVEL = "exploration"
RULE = ("the project's own sources, built by the program itself with its own configuration; then generated cases: files touched (the commands of a dry run against the inclusions g++ reports and the objects nm finds in each program), "
        "files damaged (the build must fail), generated projects (the rebuilt program against the first one), builds of the whole from other places, by the rebuilt program or by the script a dry run prints, installations at generated places; "
        "non-trivial: a touched or damaged file that at least 2 targets are made from, a project of at least 3 commands, a whole build or an installation")
ASSUMPTIONS = ["g++ -MM tells what a source file includes", "an object is part of a program if the program defines all its external symbols"]
COUNT = {"quick": 400, "thorough": 6000}
CAP = {"quick": 60, "thorough": 500}
SELF = os.path.join(BUILD, "self")
STATE = {}
CACHE = {"commit": "0" * 40, "tag": "v0", "changelog": [[1600000000, "message", "v0"]]}
ENV = {"PATH": "/usr/local/bin:/usr/bin:/bin", "LANG": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1", "HOME": "/nonexistent", "TZ": "XXX-5:30"}
IGNORED = {".git", "__targets", "__targets_vp", "__targets_bootstrap", "__pycache__", "__buildcache"}


def run(cmd, cwd, timeout=400, env=None, umask=-1, data=None, ctx=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdin=subprocess.PIPE if data is not None else subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, umask=umask)
    try:
        out, err = p.communicate(data, timeout=timeout * (ctx.patience if ctx else 1))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, b"", b"does not end"
    return p.returncode, out, err


def text(r):
    return f"exit status {r[0]}\nstdout: ...{r[1][-2500:].decode(errors='replace')}\nstderr: ...{r[2][-2500:].decode(errors='replace')}"


def fresh(to):
    """a copy of the sources, as in a release"""
    shutil.copytree(REPO, to, symlinks=True, ignore=lambda d, names: [n for n in names if n in IGNORED or n.endswith("_targets")])
    os.makedirs(os.path.join(to, "__buildcache"))
    with open(os.path.join(to, "__buildcache/vcslog.json"), "w") as f:
        json.dump(CACHE, f)


def install(binary, to):
    """an installation made without install.sh"""
    os.makedirs(os.path.join(to, "bin"))
    shutil.copy(binary, os.path.join(to, "bin/maike2"))
    shutil.copytree(os.path.join(REPO, "recipes"), os.path.join(to, "lib/maike2/recipes"), ignore=shutil.ignore_patterns("__*"))


def symbols(path):
    """(defined, undefined) external symbols"""
    d = set()
    for x in subprocess.run(["nm", "--extern-only", "--defined-only", path], capture_output=True, text=True).stdout.split("\n"):
        f = x.split()
        if len(f) == 3 and f[1] in "TDB":
            d.add(f[2])
    return d


def headers(src):
    extra = ["-include", "core/bin/about.hpp"] if src == "core/bin/about.cpp" else []
    r = subprocess.run(["g++", "-std=c++17", "-MM", "-MG", "-iquote", ".", "-iquote", os.path.dirname(src), *extra, src], cwd=os.path.join(SELF, "w"), capture_output=True, text=True)
    if r.returncode:
        return None
    return sorted({os.path.normpath(x) for x in r.stdout.replace("\\\n", " ").split()[1:]})


def build_it():
    shutil.rmtree(SELF, ignore_errors=True)
    os.makedirs(SELF)
    w = os.path.join(SELF, "w")
    fresh(w)
    install(os.path.join(proj.PREFIX["opt"], "bin/maike2"), os.path.join(SELF, "first"))
    r = run([os.path.join(SELF, "first/bin/maike2"), "--start-time=1600000000"], w)
    bad = None if r[0] == 0 else text(r)
    exe = os.path.join(w, "__targets/core/bin/maike2")
    if bad is None and not os.access(exe, os.X_OK):
        bad = "the build makes no core/bin/maike2\n" + text(r)
    if bad is not None:
        return {"build": bad}
    install(exe, os.path.join(SELF, "second"))
    for x in ("first", "second"):
        shutil.copy(os.path.join(proj.recipe_dir(), "rec"), os.path.join(SELF, x, "lib/maike2/recipes/rec"))
    files = []
    for root, dirs, names in os.walk(w):
        dirs[:] = [d for d in dirs if d not in IGNORED]
        files += [os.path.relpath(os.path.join(root, n), w) for n in names]
    cpp = sorted(f for f in files if f.startswith("core/") and f.endswith(".cpp"))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        inc = {f: h for f, h in zip(cpp, ex.map(headers, cpp)) if h is not None}
    # what each target is made from
    made = {f: set(h) for f, h in inc.items() if not f.endswith(".test.cpp")}
    made["core/bin/about.cpp"] |= {"core/bin/about.py", "projinfo.json"}
    objs = {f: symbols(os.path.join(w, "__targets", f[:-4] + ".o")) for f in made}
    progs = {f: os.path.join(w, "__targets", f[:-4]) for f in inc if f.endswith(".test.cpp")}
    progs["core/bin/maike.app.maikerule"] = exe
    for f, p in progs.items():
        if not os.path.exists(p):
            continue
        have = symbols(p)
        made[f] = set(inc.get(f, [f]))
        for o, s in objs.items():
            if s and s <= have:
                made[f] |= made[o]
    for f in inc:
        made.setdefault(f, set()).update({"recipes/cxx_compiler.py", "recipes/cxx_linker.py", "recipes/pkg_config.py"})
    made.setdefault("core/bin/maike.app.maikerule", set()).update({"core/bin/maike.app.maikerule", "recipes/cxx_linker.py", "recipes/pkg_config.py"})
    made["core/bin/about.py"] = {"core/bin/about.py", "projinfo.json"}
    made["doc/manpage.py"] = {"doc/manpage.py", "projinfo.json"}
    for f in files:
        if f.endswith((".doc.xml", ".sass")) or (f.startswith("doc/") and f.endswith((".py", ".svg"))):
            made.setdefault(f, {f})
            made[f] |= {".svg": {"recipes/copy_file.py"}, ".sass": {"recipes/sass2css.py"}, ".xml": {"recipes/doc2html.py", "recipes/doc2html.xsl"}}.get(os.path.splitext(f)[1], set())
            if f.endswith("2xml.py"):
                made[f].add("recipes/md2htmlpart.py")
    return {"build": None, "made": {k: sorted(v) for k, v in made.items()}, "files": sorted(set().union(*made.values()))}


def key():
    h = hashlib.sha256()
    for root, dirs, names in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in IGNORED)
        for n in sorted(names):
            p = os.path.join(root, n)
            h.update(os.path.relpath(p, REPO).encode() + b"\0")
            if os.path.isfile(p):
                with open(p, "rb") as f:
                    h.update(hashlib.sha256(f.read()).digest())
    for p in (os.path.join(proj.PREFIX["opt"], "bin/maike2"), os.path.join(proj.recipe_dir(), "rec"), __file__):
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def setup(tier):
    proj.setup("opt")
    k = key()
    stamp = os.path.join(SELF, "state.json")
    with build.Lock():
        try:
            with open(stamp) as f:
                old = json.load(f)
        except (OSError, ValueError):
            old = {}
        if old.get("key") != k:
            old = {"key": k, **build_it()}
            if old["build"] is None:
                with open(stamp, "w") as f:
                    json.dump(old, f)
        STATE.update(old)


@st.composite
def strategy_(draw):
    kind = draw(st.sampled_from(["touch"] * 50 + ["damage"] * 12 + ["project"] * 30 + ["install"] * 6 + ["whole"]))
    c = {"kind": kind}
    if kind in ("touch", "damage"):
        c["files"] = draw(st.lists(st.integers(0, 10**6), min_size=1, max_size=4 if kind == "touch" else 1))
        c["targets"] = draw(st.booleans())
        c["workers"] = draw(st.sampled_from([1, 2, 8]))
    elif kind == "project":
        c["project"] = draw(gen.project(max_mods=9, odd=True, always=True))
        c["query"] = draw(st.sampled_from(["--dry-run", "--dry-run", "--list-targets", "--print-depgraph", "--print-depgraph-inv", "--print-extdeps", "--help", "--configdump", "--config-default", ""]))
    elif kind == "install":
        c.update({"prefix": draw(st.sampled_from(["p", "a b", "x/y/z", "ü", "-p", "$x", "it's"])), "relative": draw(st.booleans()), "umask": draw(st.sampled_from([0o22, 0o77, 0o27, 0o2])),
                  "again": draw(st.booleans()), "call": draw(st.sampled_from(["absolute", "relative", "link", "path"])), "lacks": draw(st.sampled_from([None, None, None, None, "program", "recipes", "place"])), "make": draw(st.booleans())})
    else:
        c.update({"how": draw(st.sampled_from(["second", "script", "script", "second"])), "place": draw(st.sampled_from([".", ".", "sub", "above", "abs"])), "workers": draw(st.sampled_from([2, 8])), "all": draw(st.integers(0, 5)) == 5})
    return c


def strategy(tier):
    return strategy_()


def commands(out):
    """the source files of the commands a dry run has printed"""
    ret = set()
    for line in out.decode().split("\n"):
        if line.startswith("#") or not line.strip():
            continue
        f = shlex.split(line, comments=True)
        if len(f) == 3 and f[1] == "compile":
            ret.add(json.loads(f[2])["source_file"])
    return ret


def built(ctx):
    d = os.path.join(ctx.scratch(), "w")
    subprocess.run(["cp", "-a", os.path.join(SELF, "w"), d], check=True)
    return d


def first():
    return os.path.join(SELF, "first/bin/maike2")


def second():
    return os.path.join(SELF, "second/bin/maike2")


def touch(case, ctx):
    w = built(ctx)
    names = sorted({STATE["files"][k % len(STATE["files"])] for k in case["files"]})
    exe = [first(), f"--num-workers={case['workers']}"]
    only = ["--targets=core/bin/maike2"] if case["targets"] else []
    need = {s for s, m in STATE["made"].items() if set(m) & set(names)}
    if case["targets"]:
        keep = set(STATE["made"]["core/bin/maike.app.maikerule"])
        need = {s for s in need if s in keep or s == "core/bin/maike.app.maikerule"}
    for n in names:
        p = os.path.join(w, n)
        if case["kind"] == "damage":
            bad = "\n#error verif was here\n" if n.endswith(("pp", ".h")) else "\n)]} << verif was here\n"
            with open(p, "a") as f:
                f.write(bad)
        else:
            os.utime(p)
    labels = [case["kind"], "one target" if only else "all targets"] + sorted({os.path.splitext(n)[1] for n in names})
    if case["kind"] == "touch":
        r = run([*exe, *only, "--dry-run", "--log-level=compilation_command"], w, ctx=ctx)
        if r[0] != 0:
            raise Violation(f"a dry run of its own sources fails after touching {names}\n{text(r)}")
        missing = sorted(need - commands(r[1]))
        if missing:
            raise Violation(f"{names} changed, but {missing}, made from that, would not be made again\n{text(r)}")
        return Info(len(need) >= 2, labels)
    if not need or not names[0].endswith((".cpp", ".hpp", ".py", ".json", ".doc.xml")):
        return Info(False, labels)
    r = run([*exe, *only], w, ctx=ctx)
    if r[0] is None:
        raise Violation(f"the build does not end when {names} is damaged", kind="hang")
    if r[0] == 0:
        raise Violation(f"{names} is damaged, but the build succeeds\n{text(r)}")
    if not r[2].strip():
        raise Violation(f"{names} is damaged, and the build fails without a message\n{text(r)}")
    return Info(len(need) >= 2, labels)


def project(case, ctx):
    c = case["project"]
    res = []
    root = ctx.scratch()
    w = os.path.join(root, "w")
    for which in ("first", "second"):       # at the same place, which is told to the recipes
        shutil.rmtree(root)
        os.makedirs(w)
        exe = os.path.join(root, "inst/bin/maike2")
        shutil.copytree(os.path.join(SELF, which), os.path.join(root, "inst"))
        proj.write_project(w, c["files"], dirs=c["dirs"])
        q = case["query"]
        args = ["--num-workers=1", "--build-id=" + "ab" * 32, "--start-time=1600000000"] + ([q] if q else []) + (["--log-level=compilation_command"] if q == "--dry-run" else [])
        r = proj.must_end(proj.run_maike(w, args, log=os.path.join(root, "log"), exe=exe, ctx=ctx))
        if q == "":
            out = sorted(proj.list_targets(w).items(), key=str)
            n = len(out)
        else:
            out = re.sub(rb"# \d+ \| [^|]* \|[^\n]*\n|\| \d+ \| \d+\n", b"\n", r.out)
            out = b"\n".join(sorted(out.split(b"\n"))) if q == "--dry-run" else out       # independent tasks in any order
            n = out.count(b"\n")
        res.append((r.rc, out, n, r))
    a, b = res
    if a[:2] != b[:2]:
        raise Violation(f"with {case['query'] or 'no query'} the rebuilt program gives\n{b[1]!r}\nbut the first one\n{a[1]!r}\n{b[3].text()}\n{a[3].text()}")
    return Info(a[2] >= 3, ["project", case["query"] or "build"])


def facts(exe, cwd, ctx):
    ret = {}
    for q in ("--help", "--config-default", "--list-targets", "--print-extdeps", "--print-depgraph", "--version", "--about"):
        r = run([exe, "--start-time=1600000000", "--build-id=" + "ab" * 32, q], cwd, timeout=60, ctx=ctx)
        if r[0] != 0:
            raise Violation(f"the rebuilt program fails with {q}\n{text(r)}")
        ret[q] = re.sub(rb"(?m)^(Build start time|Build id|Build host|Start time|Id).*$", b"", r[1])
    return ret


def whole(case, ctx):
    top = ctx.scratch()
    w = os.path.join(top, "s r c" if case["place"] in ("sub", "abs") and case["how"] == "second" else "w")
    fresh(w)
    inst = os.path.join(top, "inst")
    shutil.copytree(os.path.join(SELF, "second"), inst)
    maike = os.path.join(inst, "bin/maike2")
    cwd, src = {".": (w, "."), "sub": (top, os.path.basename(w)), "above": (os.path.join(w, "test_files"), ".."), "abs": (top, w)}[case["place"]]
    tgt = "__targets" if case["how"] == "second" else "__targets_bootstrap"
    if case["place"] == "above":
        tgt = "../" + tgt
    args = ["--source-dir=" + src, "--target-dir=" + tgt] if src != "." else ["--target-dir=" + tgt]
    if not case["all"]:
        args.append("--targets=core/bin/maike2")
    if case["how"] == "second":
        r = run([maike, f"--num-workers={case['workers']}", *args], cwd, ctx=ctx)
        what = "the rebuilt program does not build its own sources"
    else:
        r = run([maike, "--num-workers=1", "--force-rebuild", "--dry-run", "--log-level=compilation_command", "--build-id=" + "0" * 64, *args], cwd, ctx=ctx)
        if r[0] != 0:
            raise Violation("a dry run of its own sources fails\n" + text(r))
        r = run(["/bin/sh", "-e"], cwd, data=r[1], ctx=ctx)
        what = "the script that a dry run has printed does not build the program"
    if r[0] != 0:
        raise Violation(f"{what} ({case})\n{text(r)}")
    exe = os.path.join(cwd, tgt, "core/bin/maike2")
    if not os.access(exe, os.X_OK):
        raise Violation(f"{what} ({case}): there is no program\n{text(r)}")
    third = os.path.join(top, "third")
    install(exe, third)
    a = facts(second(), os.path.join(SELF, "w"), ctx)
    b = facts(os.path.join(third, "bin/maike2"), os.path.join(SELF, "w"), ctx)
    for q in a:
        if a[q] != b[q]:
            raise Violation(f"the program built anew ({case}) says with {q}\n{b[q]!r}\ninstead of\n{a[q]!r}")
    return Info(True, ["whole " + case["how"], "place " + case["place"]])


def installation(case, ctx):
    w = built(ctx)
    top = os.path.dirname(w)
    if case["lacks"] == "program":
        os.unlink(os.path.join(w, "__targets/core/bin/maike2"))
    elif case["lacks"] == "recipes":
        shutil.rmtree(os.path.join(w, "recipes"))
    name = case["prefix"]
    if name == "-p" and case["relative"]:
        name = "p"
    prefix = os.path.normpath(os.path.join(w, "out", name)) if case["relative"] else os.path.join(top, "to", name)
    arg = "out/" + name if case["relative"] else prefix
    if case["lacks"] == "place":
        os.makedirs(os.path.dirname(prefix), exist_ok=True)
        with open(prefix, "w") as f:
            f.write("x")
    make = case["make"] and re.fullmatch(r"[a-z/]+", name)
    for _ in range(2 if case["again"] else 1):
        cmd = ["make", "-s", "install", "PREFIX=" + arg] + (["DESTDIR="] if case["again"] else []) if make else ["./install.sh", arg]
        if make and not case["again"]:
            cmd.append("DESTDIR=")
        r = run(cmd, w, umask=case["umask"], ctx=ctx)
        if case["lacks"]:
            if r[0] == 0:
                raise Violation(f"{cmd} succeeds, but the {case['lacks']} can't be used\n{text(r)}")
            return Info(True, ["install", "lacks " + case["lacks"]])
        if r[0] != 0:
            raise Violation(f"{cmd} fails, umask {case['umask']:o}\n{text(r)}")
    exe = os.path.join(prefix, "bin/maike2")
    rdir = os.path.join(prefix, "lib/maike2/recipes")
    with open(exe, "rb") as f, open(os.path.join(w, "__targets/core/bin/maike2"), "rb") as g:
        if f.read() != g.read():
            raise Violation("another program was installed")
    if os.stat(exe).st_mode & 0o5 != 0o5:
        raise Violation(f"others can't run the installed program (umask {case['umask']:o})")
    for n in sorted(os.listdir(os.path.join(REPO, "recipes"))):
        if n.startswith("__"):
            continue
        p = os.path.join(rdir, n)
        if not os.path.exists(p):
            raise Violation(f"the recipe {n} was not installed")
        with open(p, "rb") as f, open(os.path.join(REPO, "recipes", n), "rb") as g:
            if f.read() != g.read():
                raise Violation(f"the recipe {n} was changed by the installation")
        if stat.S_IMODE(os.stat(p).st_mode) & 0o5 != 0o5:
            raise Violation(f"others can't run the recipe {n} (umask {case['umask']:o})")
    # a project that needs the installed recipes
    here = os.path.join(top, "pr")
    os.makedirs(here)
    with open(os.path.join(here, "maikeconfig.json"), "w") as f:
        json.dump({"maikeconfig": {"dir_compiler": {"recipe": "make_directory.py", "config": {}}, "source_file_info_loaders": {"copy": {"loader": "generic", "compiler": {"recipe": "copy_file.py", "config": {}}}},
                                   "source_tree_loader": {"file_info_loaders": {".x": "copy"}, "input_filter": ["^\\.", "^__", "^maikeconfig"], "fullpath_input_filter": [], "recursive": 1}}}, f)
    with open(os.path.join(here, "a.x"), "w") as f:
        f.write("data\n")
    env = dict(ENV)
    call = exe
    if case["call"] == "relative":
        call = os.path.relpath(exe, here)
    elif case["call"] == "link":
        call = os.path.join(top, "l")
        os.symlink(exe, call)
    elif case["call"] == "path" and ":" not in prefix:
        env["PATH"] = os.path.join(prefix, "bin") + ":" + env["PATH"]
        call = "maike2"
    r = run(["/usr/bin/env", call], here, env=env, timeout=60, ctx=ctx)
    if r[0] != 0 or not os.path.exists(os.path.join(here, "__targets/a.x")):
        raise Violation(f"the installed program, called as {call}, does not work\n{text(r)}")
    return Info(True, ["install", "call " + case["call"], f"umask {case['umask']:o}"])


def run_case(case, ctx):
    if STATE["build"] is not None:
        raise Violation("the program does not build its own sources\n" + STATE["build"])
    return {"touch": touch, "damage": touch, "project": project, "install": installation, "whole": whole}[case["kind"]](case, ctx)
