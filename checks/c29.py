"""C29: the version log tells the history of the project's own repository."""

import json
import os
import posixpath
import shutil
import subprocess

from hypothesis import strategies as st

from vlib import proj
from vlib.runner import Inconclusive, Info, Violation

ID = "C29"
LEVEL = "exploration"
RULE = ("generated git repositories (commits with generated messages, authors' dates, branches, merges, annotated and light tags, detached heads, changed files, linked work trees) with projects in them that have files handled by the recipe vcslog, "
        "built from the project's directory or from another one (that may be a repository itself), over rounds of operations including the removal and the return of the repository and a copy without it; "
        "each target is compared with what git says about the project's repository, or the last known data; non-trivial: at least 3 commits, a build after a change of the history, and a tag, a merge, a removed repository or another working directory")
ASSUMPTIONS = ["git and pygit2 work", "commit dates increase along the history, and differ", "an annotated tag at most per commit"]
COUNT = {"quick": 250, "thorough": 4000}
CAP = {"quick": 60, "thorough": 420}
WORDS = ["fix", "it's", "\"quoted\"", "ü€", "\\n", "#1", "{}", "a" * 90, "$x", "\t.", "&<b>", "a\u2028b", "x\x0by", "m\rn", "u\x85v"]
DIRS = ["", "a", "a b", "ü"]
OPS = ["commit", "commit", "commit", "tag", "light", "branch", "merge", "back", "dirty", "stage", "untracked", "gone", "gone", "return", "copy", "nothing", "amend", "bad"]


def setup(tier):
    proj.setup("opt")


@st.composite
def strategy_(draw):
    msg = st.lists(st.lists(st.sampled_from(WORDS), min_size=1, max_size=3).map(" ".join), max_size=3)
    op = st.tuples(st.sampled_from(OPS), st.integers(0, 9), msg, st.integers(0, 2**31 - 1))
    return {"rules": draw(st.lists(st.integers(0, 3), min_size=1, max_size=3, unique=True)), "start": draw(st.lists(op, min_size=2, max_size=8)), "rounds": draw(st.lists(st.lists(op, min_size=1, max_size=3), min_size=1, max_size=4)),
            "src": draw(st.sampled_from([".", ".", "sub", "abs", "abs"])), "tgt": draw(st.sampled_from([None, None, "out", "abs"])), "decoy": draw(st.booleans()), "linked": draw(st.integers(0, 4)) == 4, "empty": draw(st.integers(0, 9)) == 9}


def strategy(tier):
    return strategy_()


class Git:
    def __init__(self, top, home):
        self.top, self.home, self.n = top, home, 0
        self.meta = {}

    def __call__(self, *args, at=None, check=True):
        env = dict(os.environ, HOME=self.home, GIT_CONFIG_NOSYSTEM="1", GIT_AUTHOR_NAME="A", GIT_AUTHOR_EMAIL="a@x", GIT_COMMITTER_NAME="C", GIT_COMMITTER_EMAIL="c@x", LC_ALL="C.UTF-8")
        if at is not None:
            env["GIT_AUTHOR_DATE"] = f"@{at} +0100"
        env["GIT_COMMITTER_DATE"] = f"@{1500000000 + 60 * self.n} +0000"
        r = subprocess.run(["git", "-c", "init.defaultBranch=main", "-c", "gc.auto=0", "-c", f"core.excludesFile={self.home}/ignored", "-C", self.top, *args], env=env, stdin=subprocess.DEVNULL, capture_output=True)
        if check and r.returncode:
            raise Inconclusive(f"git {args}: {r.stderr.decode(errors='replace')}")
        return r.stdout.decode().strip() if r.returncode == 0 else None

    def commit(self, msg, at, *more):
        self.n += 1
        self("commit", "-q", "--allow-empty", "--allow-empty-message", "-m", "\n".join(msg), *more, at=at)
        self.note()

    def note(self):
        pass

    def log(self):
        """what is expected"""
        head = self("rev-parse", "-q", "--verify", "HEAD^{commit}", check=False)
        if head is None:
            return None
        ret = []
        lines = self("log", "--format=%x00%H %at %ct %B").split("\0")[1:]
        names = self("describe", "--always", *[x.split()[0] for x in lines]).split("\n")
        for line, name in zip(lines, names):
            h, a, c, text = (line.split(" ", 3) + [""])[:4]
            ret.append((int(c), [int(a), text.split("\n")[0], name]))
        ret.sort(key=lambda x: -x[0])
        return {"commit": head, "tag": self("describe", "--always", "--dirty"), "changelog": [x for _, x in ret]}


def apply(git, op, labels):
    what, n, msg, at = op
    top = git.top
    have = git("rev-parse", "-q", "--verify", "HEAD^{commit}", check=False) is not None
    if what in ("commit", "amend"):
        with open(os.path.join(top, f"data{n % 3}.txt"), "a") as o:
            o.write("line\n" * (n + 1))
        git("add", ".")
        git.commit(msg, at, *(["--amend"] if what == "amend" and have else []))
    elif not have:
        return
    elif what == "tag":
        if not git("tag", "--points-at", "HEAD"):
            git.n += 1
            git("tag", "-a", "-m", "x", f"v{n}.{git.n}")
            labels.add("tag")
    elif what == "light":
        git("tag", "-f", f"light{n}")
    elif what == "branch":
        git("reset", "-q", "--hard")
        name = f"b{n}"
        if git("rev-parse", "-q", "--verify", name, check=False):
            git("checkout", "-q", name)
        else:
            git("checkout", "-q", "-b", name)
    elif what == "merge":
        git("reset", "-q", "--hard")
        others = [b for b in git("for-each-ref", "--format=%(refname:short)", "refs/heads").split("\n") if b]
        if others:
            git.n += 1
            if git("merge", "-q", "--no-ff", "-X", "ours", "-m", "\n".join(msg) or "x", others[n % len(others)], at=at, check=False) is None:
                git("merge", "--abort", check=False)
                git("reset", "-q", "--hard")
            else:
                labels.add("merge")
    elif what == "back":
        git("reset", "-q", "--hard")
        all_ = git("rev-list", "HEAD").split("\n")
        git("checkout", "-q", "--detach", all_[n % len(all_)])
        labels.add("detached")
    elif what in ("dirty", "stage"):
        tracked = [f for f in git("-c", "core.quotePath=false", "ls-files").split("\n") if f.startswith("data")]
        if tracked:
            with open(os.path.join(top, tracked[n % len(tracked)]), "a") as o:
                o.write(f"changed {n} {at}\n")
            if what == "stage":
                git("add", tracked[n % len(tracked)])
            labels.add("changed file")
    elif what == "untracked":
        with open(os.path.join(top, f"new{n}.txt"), "w") as o:
            o.write("x")


def run_case(case, ctx):
    base = ctx.scratch()
    cwd = os.path.join(base, "w")
    src = {"abs": os.path.join(base, "s r c")}.get(case["src"], case["src"])
    top = os.path.normpath(os.path.join(cwd, src))
    os.makedirs(cwd)
    labels = {"source " + case["src"]}
    if case["decoy"] and case["src"] != ".":
        g = Git(cwd, base)
        g("init", "-q")
        g.commit(["not this one"], 1)
        labels.add("other repository")
    if case["linked"]:
        os.makedirs(os.path.join(base, "main"))
        g = Git(os.path.join(base, "main"), base)
        g("init", "-q")
        g.n = -1
        g.commit(["root"], 1400000000)
        g("worktree", "add", "-q", "-b", "linked", top) if case["src"] != "." else (os.rmdir(cwd), g("worktree", "add", "-q", "-b", "linked", top))
        labels.add("linked work tree")
    git = Git(top, base)
    os.makedirs(top, exist_ok=True)
    if not case["linked"]:
        git("init", "-q")
    cfg = {"dir_compiler": {"recipe": "make_directory.py", "config": {}}, "source_file_info_loaders": {"vcslog": {"loader": "maikerule", "compiler": {"recipe": "vcslog.py", "config": {}}}},
           "source_tree_loader": {"file_info_loaders": {".vcslog.maikerule": "vcslog"}, "input_filter": ["^\\.", "^__", "^maikeconfig", "^out$", "_targets$"], "fullpath_input_filter": [], "recursive": 1}}
    with open(os.path.join(top, "maikeconfig.json"), "w") as o:
        json.dump({"maikeconfig": cfg}, o)
    rules = [posixpath.join(DIRS[n], f"h{n}") for n in case["rules"]]
    for f in rules:
        os.makedirs(os.path.join(top, os.path.dirname(f)), exist_ok=True)
        with open(os.path.join(top, f + ".vcslog.maikerule"), "w") as o:
            json.dump({"target": {"name": os.path.basename(f) + ".vcslog"}, "rebuild": "always"}, o)
    with open(os.path.join(base, "ignored"), "w") as o:
        o.write("__*\nout\n*_targets\n*.maikerule\nmaikeconfig.json\n")
    git("add", ".")
    if not case["empty"]:
        git.commit(["first"], 1400000001)
    for op in [["commit", 0, ["second"], 1300000000], ["commit", 1, ["third", "line"], 1200000000]] + case["start"]:
        if not case["empty"]:
            apply(git, op, labels)
    hidden = os.path.join(base, "hidden.git")
    cache = None
    done = []
    known = 0
    changes = 0
    for rnd in [[]] + case["rounds"]:
        for op in rnd:
            if op[0] in ("gone", "bad"):
                if not os.path.exists(hidden):
                    os.rename(os.path.join(top, ".git"), hidden)
                    if op[0] == "bad":
                        with open(os.path.join(top, ".git"), "w") as o:
                            o.write("gitdir: /nonexistent\n")
                    labels.add("no repository")
            elif op[0] == "return":
                if os.path.exists(hidden):
                    if os.path.isfile(os.path.join(top, ".git")):
                        os.unlink(os.path.join(top, ".git"))
                    os.rename(hidden, os.path.join(top, ".git"))
                    labels.add("repository is back")
            elif op[0] == "copy":
                if case["src"] == "abs" and not case["linked"]:
                    # a release elsewhere
                    new = os.path.join(base, f"copy {len(os.listdir(base))}{len(top)}")
                    shutil.copytree(top, new, symlinks=True, ignore=shutil.ignore_patterns(".git", "__targets*"))
                    if not os.path.exists(hidden):
                        shutil.move(os.path.join(top, ".git"), hidden)
                    shutil.rmtree(top)
                    src = top = new
                    git.top = top
                    labels.add("copied without the repository")
            elif not os.path.exists(hidden) and op[0] != "nothing":
                apply(git, op, labels)
                changes += 1
        done.append([op[:2] for op in rnd])
        args = ["--num-workers=2"]
        if case["src"] != ".":
            args.append("--source-dir=" + src)
        tgt = {None: "__targets" if case["src"] == "." else posixpath.basename(src) + "_targets", "out": "out", "abs": os.path.join(base, "t")}[case["tgt"]]
        if case["tgt"]:
            args.append("--target-dir=" + tgt)
        want = git.log() if not os.path.exists(hidden) else None
        # a copy of a linked work tree is not one any longer
        r = proj.must_end(proj.run_maike(cwd, args, timeout=60, ctx=ctx))

        def wrong(text):
            raise Violation(f"{text}\nafter {done}\n{r.text()}")
        if want is None:
            want = cache
            if want is not None:
                labels.add("data of the last time")
        if want is None:
            labels.add("no data")
            if r.rc == 0:
                wrong("the build succeeds, though there is no history, and no data of an earlier time")
            continue
        if r.rc != 0:
            wrong("the project does not build")
        for f in rules:
            p = os.path.join(cwd, tgt, f + ".vcslog")
            try:
                with open(p) as o:
                    got = json.load(o)
            except (OSError, ValueError) as e:
                wrong(f"{p}: {e}")
            if got != want:
                wrong(f"{p} has {json.dumps(got, ensure_ascii=False)}\nexpected {json.dumps(want, ensure_ascii=False)}")
        cache = want
        known = max(known, len(want["changelog"]))
    return Info(known >= 3 and changes and bool(labels & {"tag", "merge", "no repository"} or case["src"] != "."), sorted(labels))
