"""Abstract projects: rendering to files, a reference model of what maike should do with them, and running it.

A file is {"p": path, "k": kind, "inc": [["q"|"a", text], ...], "tags": {...}, "v": n}:
  cxx   C++ file, tags after //@, includes, recipe rec
  cxxl  C++ file that is linked (loader with action "link")
  rule  tags only, recipe rec          app  the same with the app loader
  lib   tags only, lib loader          ext  a script with tags after #@ that is run itself
  dat   handled by the generic loader (target = name + ".out")
  txt   no loader
"""

import json
import os
import posixpath
import re
import signal
import subprocess
import time

from . import build, deadlock
from .runner import Inconclusive, Violation

GEN_RE = re.compile(r"\.gen\.hpp$")
EXT = {"cxx": None, "cxxl": ".test.cpp", "rule": ".rule", "lib": ".lib.rule", "app": ".app.rule",
       "ext": ".sh", "dat": ".dat", "txt": ".txt"}

BASE_CONFIG = {
    "dir_compiler": {"recipe": "rec", "config": {}},
    "source_file_info_loaders": {
        "cxx": {"loader": "cxx_src_loader", "compiler": {"recipe": "rec", "config": {"cflags": ["-g"], "std": {"min": "17"}}},
                "config": {"generated_includes": ["\\.gen\\.hpp$"]}},
        "cxxl": {"loader": "cxx_src_loader", "compiler": {"recipe": "rec", "config": {"actions": ["link"]}},
                 "config": {"generated_includes": ["\\.gen\\.hpp$"]}},
        "rule": {"loader": "maikerule", "compiler": {"recipe": "rec", "config": {"rr": 1}}},
        "lib": {"loader": "lib", "compiler": {"recipe": "rec", "config": {}}},
        "app": {"loader": "app", "compiler": {"recipe": "rec", "config": {"cflags": []}}},
        "ext": {"loader": "extension", "compiler": {"recipe": "", "config": {}}},
        "dat": {"loader": "generic", "compiler": {"recipe": "rec", "config": {}},
                "config": {"target_filename_ext": ".out", "filename_ext_replacement_mode": "append"}},
    },
    "source_tree_loader": {
        "file_info_loaders": {".cpp": "cxx", ".hpp": "cxx", ".test.cpp": "cxxl", ".rule": "rule",
                              ".lib.rule": "lib", ".app.rule": "app", ".sh": "ext", ".dat": "dat"},
        "input_filter": ["^\\.", "^__", "^maikeconfig"],
        "fullpath_input_filter": [],
        "recursive": 1,
    },
}

SCRIPT = '#!/bin/sh\n%s\nVREC_SELF="$0" exec "$VREC_BIN" "$@"\n'


def dumps(v):
    return json.dumps(v, ensure_ascii=False)


def render(f):
    k = f["k"]
    tags = f.get("tags")
    v = f.get("v", 0)
    if "raw" in f:
        return f["raw"].encode(errors="surrogateescape")
    if k in ("cxx", "cxxl"):
        out = []
        if tags is not None:
            out += ["//@ " + line for line in json.dumps(tags, indent=1, ensure_ascii=False).split("\n")]
        for kind, text in f.get("inc", []):
            out.append(f'#include "{text}"' if kind == "q" else f"#include <{text}>")
        out.append(f"int version = {v};")
        return ("\n".join(out) + "\n").encode()
    if k in ("rule", "lib", "app"):
        return (json.dumps(tags if tags is not None else {}, indent=1, ensure_ascii=False) + " " * v + "\n").encode()
    if k == "ext":
        t = "" if tags is None else "\n".join(
            "#@ " + line for line in json.dumps(tags, indent=1, ensure_ascii=False).split("\n"))
        return (SCRIPT % (t + f"\n# version {v}")).encode()
    if k == "recipe":
        return (SCRIPT % f"# version {v}").encode()
    return f"data {v}\n".encode()


def is_exec(f):
    return f["k"] in ("ext", "recipe")


def write_file(root, f, mtime_ns=None):
    p = os.path.join(root, f["p"])
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as o:
        o.write(render(f))
    if is_exec(f):
        os.chmod(p, 0o755)
    if mtime_ns is not None:
        os.utime(p, ns=(mtime_ns, mtime_ns))


def write_project(root, files, config=BASE_CONFIG, dirs=(), config_name="maikeconfig.json"):
    os.makedirs(root, exist_ok=True)
    for d in dirs:
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for f in files:
        write_file(root, f)
    if config is not None:
        with open(os.path.join(root, config_name), "w") as o:
            json.dump({"maikeconfig": config}, o)


# ----------------------------------------------------------------------------------------------------
# reference model

def norm(p):
    return posixpath.normpath(p)


def merge(a, b):
    """Compounds are merged, arrays concatenated, other values overridden; None if kinds disagree."""
    def kind(x):
        if isinstance(x, dict):
            return "o"
        if isinstance(x, list):
            return "a"
        if isinstance(x, bool):
            return "b"
        if isinstance(x, int):
            return "i"
        if isinstance(x, float):
            return "r"
        if isinstance(x, str):
            return "s"
        return "n"
    ret = dict(a)
    for k, v in b.items():
        if k not in ret:
            ret[k] = v
        elif kind(ret[k]) != kind(v):
            raise ValueError(k)
        elif isinstance(v, dict):
            ret[k] = merge(ret[k], v)
        elif isinstance(v, list):
            ret[k] = ret[k] + v
        else:
            ret[k] = v
    return ret


class Node:
    __slots__ = ("name", "use", "build", "targets", "extra", "utd", "cfg", "always", "recipe", "isdir")

    def __init__(self, name):
        self.name = name
        self.use = []       # (name, origin, props tuple)
        self.build = []
        self.targets = []   # (name, [deps])
        self.extra = []
        self.utd = False
        self.cfg = {}
        self.always = False
        self.recipe = None
        self.isdir = False


class Reject(Exception):
    def __init__(self, what, culprit=""):
        super().__init__(what)
        self.what = what
        self.culprit = culprit


class Model:
    """What maike should make of the files. src/tgt: the (normalised) source and target directories."""

    def __init__(self, files, config=BASE_CONFIG, src=".", tgt="__targets", dirs=(), recipe_dir=None,
                 extra_tags=None, configured=None):
        self.src, self.tgt, self.config = norm(src), norm(tgt), config
        self.recipe_dir = recipe_dir
        self.files = {f["p"]: f for f in files}
        self.extra_tags = extra_tags or {}
        # recipe path -> function(config) giving the settings printed at the configure step
        self.configured = configured or (lambda recipe, cfg: cfg)
        self.nodes = {}
        alldirs = {""} | set(dirs)
        for p in list(self.files) + [d + "/x" for d in dirs]:
            d = posixpath.dirname(p)
            while d:
                alldirs.add(d)
                d = posixpath.dirname(d)
        for d in sorted(alldirs):
            self.add_dir(d)
        for f in files:
            self.add_file(f)
        self.source_nodes = list(self.nodes)
        self.targets = {}     # target name -> source node name
        for n in self.source_nodes:
            for t, deps in self.nodes[n].targets:
                if t == n:
                    continue
                if t in self.targets:
                    raise Reject("duplicate", t)
                self.targets[t] = n
        self._closures = {}
        src_deps = {}
        for t, n in self.targets.items():
            node = Node(t)
            decl = [d for tt, deps in self.nodes[n].targets if tt == t for d in deps]
            node.use = list(decl)
            for m in self.reach_sources(n, src_deps):
                node.use += [d for d in self.nodes[m].extra if d[0] != t]
            node.build = [(n, "project", ())]
            self.nodes[t] = node
        for n in list(self.nodes):
            node = self.nodes[n]
            if node.utd:
                for t, _ in node.targets:
                    if t in self.nodes:
                        node.use = node.use + self.nodes[t].use
        self.external = set()
        for node in list(self.nodes.values()):
            for d in node.use + [x for _, deps in node.targets for x in deps]:
                if d[1] in ("system", "pkg-config") and d[0] not in self.nodes:
                    self.external.add(d[0])

    # names
    def source_name(self, rel):
        return norm(posixpath.join(self.src, rel)) if rel else self.src

    def target_name(self, frel, name):
        return norm(posixpath.join(self.tgt, norm(posixpath.join(posixpath.dirname(frel), name))))

    def resolve(self, frel, text, origin):
        if origin not in ("project", "generated"):
            return text
        rel = norm(posixpath.join(posixpath.dirname(frel), text)) if text.startswith("./") else norm(text)
        if origin == "generated":
            return norm(posixpath.join(self.tgt, rel))
        return norm(posixpath.join(self.src, rel))

    def dep(self, frel, obj, default):
        origin = obj.get("origin", default)
        props = tuple(sorted((k, v) for k, v in obj.items() if k not in ("ref", "origin")))
        return (self.resolve(frel, obj["ref"], origin), origin, props)

    def recipe_dep(self, recipe):
        """(path, dependency) a recipe name denotes"""
        if recipe == "":
            return "", None
        if norm(recipe) in self.files:
            p = self.source_name(recipe)
            return p, (p, "project", ())
        p = norm(posixpath.join(self.recipe_dir, recipe)) if self.recipe_dir else recipe
        return p, (p, "system", ())

    def add_dir(self, d):
        node = Node(self.source_name(d))
        node.isdir = True
        if d:
            node.use.append((self.source_name(posixpath.dirname(d)), "project", ()))
        comp = self.config["dir_compiler"]
        node.recipe, dep = self.recipe_dep(comp["recipe"])
        if dep:
            node.use.append(dep)
        node.cfg = self.configured(node.recipe, comp["config"])
        node.targets = [(norm(posixpath.join(self.tgt, d)), [])]
        self.nodes[node.name] = node

    def loader_of(self, path):
        base = posixpath.basename(path)
        table = self.config["source_tree_loader"]["file_info_loaders"]
        # full extension: everything from the first dot that is not the first character
        i = base.find(".", 1)
        full = base[i:] if i > 0 else ""
        best = None
        for ext, name in table.items():
            if ext.startswith(".") and full.endswith(ext) and (best is None or len(ext) > len(best[0])):
                best = (ext, name)
        return None if best is None else self.config["source_file_info_loaders"][best[1]]

    def add_file(self, f):
        rel = f["p"]
        node = Node(self.source_name(rel))
        loader = self.loader_of(rel)
        self.nodes[node.name] = node
        if loader is None:
            return
        dir_recipe, _ = self.recipe_dep(self.config["dir_compiler"]["recipe"])
        if node.name != dir_recipe:
            node.use.append((self.source_name(posixpath.dirname(rel)), "project", ()))
        kind = loader["loader"]
        tags = f.get("tags") or {}
        if kind == "cxx_src_loader":
            pats = [re.compile(x) for x in loader.get("config", {}).get("generated_includes", [])]
            for k, text in f.get("inc", []):
                if k == "a":
                    node.use.append((text, "system", ()))
                else:
                    origin = "generated" if any(p.search(text) for p in pats) else "project"
                    node.use.append((self.resolve(rel, text, origin), origin, ()))
        if kind == "generic":
            c = loader["config"]
            name = posixpath.basename(rel)
            if c.get("filename_ext_replacement_mode", "append") == "append":
                name += c["target_filename_ext"]
            else:
                name = posixpath.splitext(name)[0] + c["target_filename_ext"]
            tags = {"target": {"name": name}}
        comp = tags.get("compiler")
        lcomp = loader["compiler"]
        lrecipe, ldep = self.recipe_dep(lcomp["recipe"])
        lcfg = self.configured(lrecipe, lcomp["config"])
        self.add_tags(node, rel, tags)
        if comp is not None:
            recipe, rdep = self.recipe_dep(comp.get("recipe", ""))
            ocfg = self.configured(recipe, comp["config"])
            try:
                node.cfg = merge(lcfg, ocfg)
            except ValueError:
                node.cfg = None
            node.recipe = recipe or lrecipe
            rdep = rdep or ldep
            get_tags = comp.get("use_get_tags", 0)
        else:
            node.cfg, node.recipe, rdep = lcfg, lrecipe, ldep
            get_tags = lcomp.get("use_get_tags", 0)
        if get_tags and rel in self.extra_tags:
            self.add_tags(node, rel, self.extra_tags[rel])
        if rdep:
            node.use.append(rdep)
        node.utd = kind == "lib" or (kind == "cxx_src_loader" and "link" in lcfg.get("actions", []))
        node.always = tags.get("rebuild") == "always"

    def add_tags(self, node, rel, tags):
        tl = ([tags["target"]] if "target" in tags else []) + list(tags.get("targets", []))
        for t in tl:
            deps = [self.dep(rel, d, "system") for d in t.get("dependencies", [])]
            deps += [(x, "pkg-config", ()) for x in t.get("pkgconfig_libs", [])]
            node.targets.append((self.target_name(rel, t["name"]), deps))
        node.use += [self.dep(rel, d, "generated") for d in tags.get("dependencies", [])]
        node.extra += [self.dep(rel, d, "generated") for d in tags.get("dependencies_extra", [])]

    def reach_sources(self, n, memo):
        """nodes reachable from n over references to source files only, n included"""
        seen = {n}
        todo = [n]
        while todo:
            m = todo.pop()
            for d in self.nodes[m].use:
                if d[0] in self.nodes and d[0] in self.source_set() and d[0] not in seen:
                    seen.add(d[0])
                    todo.append(d[0])
        return seen

    def source_set(self):
        if not hasattr(self, "_ss"):
            self._ss = set(self.source_nodes)
        return self._ss

    def edges(self, n):
        node = self.nodes.get(n)
        return [] if node is None else node.use + node.build

    def closure(self, n):
        """names reachable from n (n itself only if it is on a cycle)"""
        if n not in self._closures:
            seen = set()
            todo = [n]
            while todo:
                for d in self.edges(todo.pop()):
                    if d[0] not in seen:
                        seen.add(d[0])
                        todo.append(d[0])
            self._closures[n] = seen
        return self._closures[n]

    def unresolved(self):
        bad = []
        for n in self.nodes:
            for d in self.edges(n):
                if d[0] not in self.nodes and d[0] not in self.external:
                    bad.append((n, d[0]))
        return bad

    def cyclic(self):
        return any(n in self.closure(n) for n in self.nodes)

    def validate(self):
        if self.unresolved():
            raise Reject("unresolved", self.unresolved()[0][1])
        if self.cyclic():
            raise Reject("cycle")

    # what is to be run
    def compiled(self):
        """source nodes with targets"""
        return [n for n in self.source_nodes if self.nodes[n].targets]

    def needs(self, n):
        """source nodes whose recipes have to end before n's"""
        return {m for m in self.closure(n) if m in self.source_set() and self.nodes[m].targets}

    def selected(self, target_rel):
        """source nodes to be run when this target is asked for"""
        t = norm(posixpath.join(self.tgt, target_rel))
        n = self.targets[t]
        return self.needs(n) | {n}

    def file_targets(self):
        return {t: n for t, n in self.targets.items() if not self.nodes[n].isdir}


FNV0 = 14695981039346656037
MASK = (1 << 64) - 1


def fnv(h, data):
    for c in data:
        h = ((h ^ c) * 1099511628211) & MASK
    return h


def fnv_str(h, s):
    return fnv(h, s.encode() + b"\0")


def expected_contents(model):
    """Content that rec gives each file target (after a build in which everything is up to date)."""
    memo = {}
    src_hash = {}
    src_files = {model.source_name(p): f for p, f in model.files.items()}

    def file_hash(name):
        if name in src_files:
            if name not in src_hash:
                src_hash[name] = fnv(FNV0, render(src_files[name]))
            return src_hash[name]
        node = model.nodes.get(name)
        if node is not None and node.isdir:
            return 1
        if name in model.targets:
            if model.nodes[model.targets[name]].isdir:
                return 1
            return fnv(FNV0, content(name).encode())
        return 0

    def content(t):
        if t not in memo:
            n = model.targets[t]
            total = 0
            seen = {}
            for m in {n} | model.closure(n):
                for name, origin, _ in model.edges(m):
                    seen[name] = origin
            for name, origin in seen.items():
                h = fnv_str(fnv_str(FNV0, name), origin)
                if origin in ("project", "generated"):
                    h = fnv(h, file_hash(name).to_bytes(8, "little"))
                total = (total + h) & MASK
            h = fnv_str(FNV0, t)
            h = fnv_str(h, n)
            h = fnv(h, file_hash(n).to_bytes(8, "little"))
            h = fnv(h, total.to_bytes(8, "little"))
            cfg = json.dumps(model.nodes[n].cfg, sort_keys=True, separators=(",", ":"), ensure_ascii=False)
            h = fnv_str(h, cfg)
            memo[t] = "%016x\n" % h
        return memo[t]

    return {t: content(t) for t in model.file_targets()}


# ----------------------------------------------------------------------------------------------------
# running

class Run:
    def __init__(self, rc, out, err, events, hung=False):
        self.rc, self.out, self.err, self.events, self.hung = rc, out, err, events, hung

    def compiles(self):
        """[(source, start event, end event or None)] in order of start"""
        ends = {}
        for e in self.events:
            if e["ev"] == "end" and e["verb"] == "compile":
                ends.setdefault((e["pid"], e.get("src")), []).append(e)
        ret = []
        for e in self.events:
            if e["ev"] == "start" and e["verb"] == "compile":
                src = e["arg"]["source_file"] if "arg" in e else None
                lst = ends.get((e["pid"], src), [])
                ret.append((src, e, lst.pop(0) if lst else None))
        return ret

    def verbs(self, verb):
        return [e for e in self.events if e["ev"] == "start" and e["verb"] == verb]

    def text(self):
        return (f"exit status {self.rc}\nstdout: {self.out[-1500:].decode(errors='replace')}\n"
                f"stderr: {self.err[-1500:].decode(errors='replace')}")


PREFIX = {}


def maike(variant="opt"):
    return PREFIX[variant]


def setup(variant="opt"):
    PREFIX[variant] = build.prefix(variant)


def recipe_dir(variant="opt"):
    return os.path.join(PREFIX[variant], "lib/maike2/recipes")


def environment(log=None, ctl=None, seed=None, maxdelay=None, extra=None, variant="opt"):
    env = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LANG": "C.UTF-8", "HOME": "/nonexistent",
           "PYTHONDONTWRITEBYTECODE": "1",
           "TZ": "XXX-5:30",     # times that are told must not be local time
           "VREC_BIN": os.path.join(recipe_dir(variant), "rec"),
           "ASAN_OPTIONS": "detect_leaks=0", "TSAN_OPTIONS": "exitcode=66"}
    if log:
        env["VREC_LOG"] = log
    if ctl:
        env["VREC_CTL"] = ctl
    if seed is not None:
        env["VREC_SEED"] = str(seed)
    if maxdelay:
        env["VREC_MAXDELAY_US"] = str(maxdelay)
    if extra:
        env.update(extra)
    return env


def read_log(path):
    ev = []
    try:
        with open(path, "rb") as f:
            for line in f.read().split(b"\n"):
                if line.strip():
                    try:
                        ev.append(json.loads(line))
                    except ValueError:
                        pass    # a line cut by kill -9
    except OSError:
        pass
    ev.sort(key=lambda e: e["t"])
    return ev


def run_maike(cwd, args=(), log=None, timeout=25, kill_after=None, variant="opt", ctx=None, exe=None, **envargs):
    """Runs maike2 in a process group of its own; kills the group if it does not end."""
    if log and os.path.exists(log):
        os.unlink(log)
    env = environment(log=log, variant=variant, **envargs)
    if ctx is not None:
        timeout *= ctx.patience
    p = subprocess.Popen([exe or os.path.join(maike(variant), "bin/maike2"), *args], cwd=cwd, env=env,
                         stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True)
    hung = False
    try:
        out, err = p.communicate(timeout=kill_after if kill_after is not None else timeout)
    except subprocess.TimeoutExpired:
        hung = kill_after is None
        if hung and deadlock.alone(p.pid) and (states := deadlock.all_asleep(p.pid)) and deadlock.alone(p.pid):
            hung = states
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            out, err = p.communicate(timeout=10)
        except subprocess.TimeoutExpired:
            out, err = b"", b""
    if kill_after is None and not hung and (p.returncode == -9):
        raise Inconclusive("maike2 was killed from outside")
    if b"Resource temporarily unavailable" in err or b"Cannot allocate memory" in err or b"No space left" in err:
        raise Inconclusive(err.decode(errors="replace"))
    return Run(p.returncode, out, err, read_log(log) if log else [], hung)


def must_end(run, what="maike2"):
    if run.hung and run.hung is not True:
        raise Violation(f"{what} never ends: it has no child process, and all its {len(run.hung)} threads wait\n" + run.text(), kind="race", history={"threads": run.hung})
    if run.hung:
        raise Violation(f"{what} did not end\n" + run.text(), kind="hang")
    if run.rc is not None and run.rc < 0:
        raise Violation(f"{what} was ended by signal {-run.rc}\n" + run.text())
    return run


def must_succeed(run, what="a well-formed project"):
    must_end(run)
    if run.rc != 0:
        raise Violation(f"{what} does not build\n" + run.text())
    return run


def list_targets(root, tgt="__targets"):
    """{relative path: content} of the files below the target directory (directories: None)"""
    ret = {}
    top = os.path.join(root, tgt)
    for d, dirs, files in os.walk(top):
        for n in dirs:
            ret[os.path.relpath(os.path.join(d, n), top)] = None
        for n in files:
            p = os.path.join(d, n)
            with open(p, "rb") as f:
                ret[os.path.relpath(p, top)] = f.read()
    return ret


def snapshot(root):
    """everything observable about a tree"""
    ret = {}
    for d, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(d, n)
            st = os.lstat(p)
            c = None
            if n in files:
                with open(p, "rb") as f:
                    c = f.read()
            ret[os.path.relpath(p, root)] = (st.st_mode, st.st_mtime_ns, st.st_size if n in files else 0, c)
    st = os.lstat(root)
    ret["."] = (st.st_mode, st.st_mtime_ns, 0, None)
    return ret


def check_order(model, run, done_before=()):
    """No recipe started before everything it depends on had ended (or was not run in this build)."""
    ends = {}
    ran = set()
    comp = run.compiles()
    for src, s, e in comp:
        ran.add(src)
    for src, s, e in comp:
        if e is not None:
            ends.setdefault(src, e)
    for src, s, e in comp:
        if src not in model.nodes:
            raise Violation(f"a recipe was run for {src}, which is not a source file of the project", history=run.events)
        for m in model.needs(src):
            if m not in ran:
                continue
            if m not in ends or ends[m]["t"] > s["t"]:
                hist = [{"src": x[0], "start": x[1]["t"], "end": x[2]["t"] if x[2] else None} for x in comp]
                raise Violation(f"the recipe for {src} was started before the one for {m}, which it depends on, had ended",
                                kind="race", history=hist)


def ns_now():
    return time.time_ns()
