"""C15: linking gets exactly the objects that are needed, each after those it needs."""

import os
import posixpath

from hypothesis import strategies as st

from vlib import proj
from vlib.runner import Info, Violation
from . import common

ID = "C15"
LEVEL = "exploration"
RULE = ("generated structures of up to 16 modules: headers with none, one or several implementation objects, in other directories too, headers that declare libraries, objects that "
        "declare libraries, headers that include each other's headers in layers, static libraries, linked test files, programs; the dependency list handed to each linking recipe is compared with a closure "
        "computed from the structure itself; non-trivial: a list of at least 4 objects, one of them reached only through another object")
ASSUMPTIONS = ["implementations do not need each other in a circle (that is rejected, see C06)", "an object is referred to as implementation wherever it is referred to"]
COUNT = {"quick": 4000, "thorough": 60000}
CAP = {"quick": 35, "thorough": 420}


def setup(tier):
    proj.setup("opt")


@st.composite
def strategy_(draw):
    dirs = draw(st.sampled_from([[""], ["", "a"], ["", "a", "a/b", "c"]]))
    n = draw(st.integers(1, 16))
    mods = []
    for i in range(n):
        m = {"d": draw(st.sampled_from(dirs)), "k": draw(st.sampled_from(["full", "full", "full", "full", "hdr", "src", "split", "iface", "lib"])),
             "hinc": draw(st.lists(st.integers(0, 30), max_size=2)), "sinc": draw(st.lists(st.integers(0, 30), max_size=3)),
             "fwd": draw(st.lists(st.integers(0, 30), max_size=1)) if draw(st.integers(0, 3)) == 3 else [],
             "hlib": draw(st.lists(st.sampled_from(["pthread", "m", "dl", "z"]), max_size=1)) if draw(st.booleans()) else [],
             "slib": draw(st.lists(st.sampled_from(["pthread", "m", "rt", "zlib.pc"]), max_size=2, unique=True)) if draw(st.booleans()) else [],
             "objs": draw(st.lists(st.integers(0, 30), min_size=1, max_size=3)), "several": draw(st.booleans()), "plain": draw(st.booleans()), "same": draw(st.booleans())}
        mods.append(m)
    links = []
    for i in range(draw(st.integers(1, 3))):
        links.append({"d": draw(st.sampled_from(dirs)), "k": draw(st.sampled_from(["test", "test", "app"])), "h": draw(st.lists(st.integers(0, 30), min_size=1, max_size=4)),
                      "o": draw(st.lists(st.integers(0, 30), min_size=1, max_size=4)), "lib": draw(st.lists(st.sampled_from(["pthread", "x.pc"]), max_size=1)),
                      "extra": draw(st.lists(st.integers(0, 30), max_size=1))})
    return {"mods": mods, "links": links, "order": draw(st.booleans()), "workers": draw(st.sampled_from([1, 4]))}


def strategy(tier):
    return strategy_()


def lib_dep(name):
    return {"ref": name, "rel": "external", "origin": "system"}


class Structure:
    """The structure itself: files with their includes (set of files), declared objects and libraries."""

    def __init__(self, case, forward):
        self.files = []           # for proj
        self.inc = {}             # file -> [included files]
        self.extra = {}           # file -> [things declared for users of the file]
        self.decl = {}            # object -> [things declared for the object itself]
        self.made_from = {}       # object -> file
        self.links = []           # (file, kind, explicit things)
        headers, objs = [], []
        n = len(case["mods"])
        # files of the same name in different directories
        names = []
        for i, m in enumerate(case["mods"]):
            same = posixpath.join(m["d"], f"s{i % 2}")
            names.append(same if m.get("same") and same not in names else posixpath.join(m["d"], f"m{i}"))
        has_header = [m["k"] not in ("src", "lib") for m in case["mods"]]
        all_headers = [names[i] + ".hpp" for i in range(n) if has_header[i]]
        for i, m in enumerate(case["mods"]):
            here = names[i]
            d = m["d"]

            def rel(p):
                return "./" + posixpath.relpath(p, d or ".") if (i + len(p)) % 2 else p

            def impl(p):
                return {"ref": rel(p), "rel": "implementation", "origin": "generated"}

            def things(objs_, libs):
                out, names_ = [], []
                for o in objs_:
                    out.append(impl(o))
                    names_.append(o)
                for x in libs:
                    out.append({"ref": x, "origin": "pkg-config"} if x.endswith(".pc") else lib_dep(x))
                    names_.append(x)
                return out, names_

            def pick(pool, ks):
                return list(dict.fromkeys(pool[k % len(pool)] for k in ks)) if pool else []
            hinc = pick(headers, m["hinc"])
            sinc = pick(headers, m["sinc"])
            if forward and all_headers:
                sinc = list(dict.fromkeys(sinc + pick(all_headers, m["fwd"])))
            own = []
            if m["k"] == "full":
                own = [here + ".o"]
            elif m["k"] == "split":
                own = [here + ".one.o", here + ".two.o"]
            elif m["k"] == "iface":
                own = pick(objs, m["objs"])
            if has_header[i]:
                dp, nm = things(own, m["hlib"])
                tags = {"dependencies_extra": dp} if dp else None
                self.file(here + ".hpp", "cxx", hinc, d, tags, rel)
                self.extra[here + ".hpp"] = nm
                headers.append(here + ".hpp")
            srcs = []
            if m["k"] in ("full", "src"):
                srcs = [(here + ".cpp", here + ".o")]
            elif m["k"] == "split":
                srcs = [(here + ".one.cpp", here + ".one.o"), (here + ".two.cpp", here + ".two.o")]
            for s, o in srcs:
                dp, nm = things([], m["slib"])
                t = {"name": posixpath.basename(o)}
                pc = [x["ref"] for x in dp if x["origin"] == "pkg-config"]
                dp = [x for x in dp if x["origin"] != "pkg-config"]
                if dp:
                    t["dependencies"] = dp
                if pc:
                    t["pkgconfig_libs"] = pc
                tags = {"targets": [t]} if m["several"] else {"target": t}
                # the second half must not include the header that names both, they would need each other
                own_h = [here + ".hpp"] if has_header[i] and o != here + ".two.o" else []
                self.file(s, "cxx", own_h + sinc, d, tags, rel)
                self.made_from[o] = s
                self.decl[o] = nm
                objs.append(o)
            if m["k"] == "lib":
                got = pick(objs, m["objs"])
                dp, nm = things(got, [x for x in m["slib"] if not x.endswith(".pc")])
                t = {"name": posixpath.basename(here) + ".a"}
                tags = {"target": t}
                if m["several"] and m.get("same"):
                    # a second target, that has some of the dependencies
                    k = len(nm) // 2
                    u = {"name": posixpath.basename(here) + ".b.a", "dependencies": dp[k:]}
                    dp = dp[:k]
                    tags = {"targets": [t, u]} if k % 2 else {"target": t, "targets": [u]}
                if dp:
                    t["dependencies"] = dp
                self.files.append({"p": here + ".lib.rule", "k": "lib", "tags": tags, "v": 0})
                self.inc[here + ".lib.rule"] = []
                self.extra[here + ".lib.rule"] = []
                self.made_from[here + ".a"] = here + ".lib.rule"
                self.decl[here + ".a"] = nm
                self.links.append((here + ".lib.rule", "lib", nm))
                objs.append(here + ".a")
        for i, l in enumerate(case["links"]):
            here = posixpath.join(l["d"], f"l{i}")
            d = l["d"]

            def rel(p):
                return "./" + posixpath.relpath(p, d or ".")
            libs = [({"ref": x, "origin": "pkg-config"} if x.endswith(".pc") else lib_dep(x)) for x in l["lib"]]
            if l["k"] == "test":
                inc = list(dict.fromkeys(headers[k % len(headers)] for k in l["h"])) if headers else []
                t = {"name": f"l{i}.test"}
                if libs:
                    t["dependencies"] = libs
                tags = {"target": t}
                ex = list(dict.fromkeys(objs[k % len(objs)] for k in l["extra"])) if objs else []
                if ex:
                    tags["dependencies_extra"] = [{"ref": rel(o), "rel": "implementation"} for o in ex]
                self.file(here + ".test.cpp", "cxxl", inc, d, tags, rel)
                self.extra[here + ".test.cpp"] = ex
                self.links.append((here + ".test.cpp", "test", l["lib"]))
            else:
                os_ = list(dict.fromkeys(objs[k % len(objs)] for k in l["o"])) if objs else []
                tags = {"target": {"name": f"l{i}"}, "dependencies": [{"ref": rel(o), "rel": "implementation"} for o in os_] + libs}
                self.files.append({"p": here + ".app.rule", "k": "app", "tags": tags, "v": 0})
                self.links.append((here + ".app.rule", "app", os_ + l["lib"]))

    def file(self, path, kind, inc, d, tags, rel):
        f = {"p": path, "k": kind, "inc": [["q", rel(h)] for h in inc] + [["a", "vector"]], "v": 0}
        if tags is not None:
            f["tags"] = tags
        self.files.append(f)
        self.inc[path] = inc
        self.extra.setdefault(path, [])

    def included(self, f):
        seen, todo = [f], [f]
        while todo:
            for h in self.inc.get(todo.pop(), []):
                if h not in seen:
                    seen.append(h)
                    todo.append(h)
        return seen

    def needs_object(self, o):
        """what an object needs next to itself"""
        src = self.made_from[o]
        out = list(self.decl[o])
        for h in self.included(src):
            out += self.extra.get(h, [])
        return [x for x in out if x != o]

    def needs_link(self, f, kind, explicit):
        out = list(explicit)
        if kind == "test":
            for h in self.included(f):
                out += self.extra.get(h, [])
        return out

    def closure(self, start):
        seen = []
        todo = list(start)
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.append(x)
            if x in self.made_from:
                todo += self.needs_object(x)
        return set(seen)

    def circular(self):
        return any(o in self.closure(self.needs_object(o)) for o in self.made_from)


def run_case(case, ctx):
    s = Structure(case, True)
    fwd = True
    if s.circular():
        s = Structure(case, False)
        fwd = False
        if s.circular():
            return Info(False, ["circular"])
    files = s.files if case["order"] else list(reversed(s.files))
    root, p = common.materialise(ctx, {"files": files})
    r = proj.run_maike(p, [f"--num-workers={case['workers']}"], log=os.path.join(root, "log"), ctx=ctx)
    proj.must_succeed(r)
    args = {src: e["arg"] for src, e, _ in r.compiles()}
    most = 0
    indirect = False

    def full(x):
        return posixpath.join("__targets", x) if x in s.made_from else x
    for f, kind, explicit in s.links:
        if f not in args:
            raise Violation(f"the recipe for {f} was not run\n" + r.text())
        deps = args[f]["dependencies"]
        got = [d["ref"] for d in deps if "rel" in d or d["origin"] == "pkg-config"]
        start = s.needs_link(f, kind, explicit)
        want = {full(x) for x in s.closure(start)}
        if len(set(got)) != len(got):
            raise Violation(f"{f}: listed more than once: {sorted(x for x in set(got) if got.count(x) > 1)}")
        if set(got) != want:
            raise Violation(f"{f}: the dependencies handed over lack {sorted(want - set(got))} and have {sorted(set(got) - want)} too much\n{deps}")
        for d in deps:
            x = d["ref"]
            if x in want and x.startswith("__targets/") and (d.get("rel") != "implementation" or d["origin"] != "generated"):
                raise Violation(f"{f}: {x} is declared as implementation, but handed over as {d}")
            if x in want and not x.startswith("__targets/") and d["origin"] != ("pkg-config" if x.endswith(".pc") else "system"):
                raise Violation(f"{f}: library {x} is handed over as {d}")
        where = {x: k for k, x in enumerate(d["ref"] for d in deps)}
        for o in s.made_from:
            if full(o) in want:
                for x in s.needs_object(o):
                    if where[full(x)] > where[full(o)]:
                        raise Violation(f"{f}: {full(o)} is listed before {full(x)}, which it depends on\n{[d['ref'] for d in deps]}")
        n = len([x for x in want if x.startswith("__targets")])
        if n >= 4 and s.closure(start) - set(start) & set(s.made_from):
            indirect = True
        most = max(most, n)
    return Info(most >= 4 and indirect, [f"objects {min(most // 3 * 3, 12)}+", "forward" if fwd else "circle removed"] + sorted({k for _, k, _ in s.links}))
