"""C23: with the bundled recipes, C++ projects become correct programs."""

import json
import os
import posixpath
import re
import shutil
import subprocess
import time

from hypothesis import strategies as st

from vlib import build, proj
from vlib.runner import Inconclusive, Info, Violation

ID = "C23"
LEVEL = "exploration"
RULE = ("generated C++ projects of up to 11 parts (headers, modules, generated headers, libraries, programs, tests, files to be copied, external libraries), built with the recipes that come with the program and the real compiler, and up to 4 rounds of edits "
        "(values, uses, parts added, removed, renamed, flags, libraries' members, mistakes in a source, script or test and their repair), each followed by a build; after each build all programs, and all libraries linked by "
        "hand, are run and what they print is compared with values computed from the generated project; non-trivial: at least 4 object files, and a program, test or library that uses 2 of them")
ASSUMPTIONS = ["g++, ar, python3 and pkg-config work", "object files do not need each other mutually (maike rejects that as a cycle)", "a header refers to generated headers by their project path"]
COUNT = {"quick": 600, "thorough": 6000}
CAP = {"quick": 100, "thorough": 700}
DIRS = ["", "a", "b", "a/deep", "c d", "ü"]
EXTV = {"vext0": 5, "vext1": 12, "vpc": 112}
shared = {}


def setup(tier):
    proj.setup("opt")
    d = os.path.join(build.BUILD, "extlibs")
    shutil.rmtree(d, ignore_errors=True) if not os.path.exists(os.path.join(d, "done3")) else None
    os.makedirs(os.path.join(d, "inc"), exist_ok=True)
    os.makedirs(os.path.join(d, "pc"), exist_ok=True)
    stamp = os.path.join(d, "done3")
    if not os.path.exists(stamp):
        for name, text in {"vext0": "long vext0(void) { return 5; }\n", "vext1": "long vext0(void);\nlong vext1(void) { return 7 + vext0(); }\n",
                           "vpc": "long vext1(void);\nlong vpc(void) { return 100 + vext1(); }\n"}.items():
            src = os.path.join(d, name + ".c")
            with open(src, "w") as o:
                o.write(text)
            subprocess.run(["gcc", "-c", "-fPIC", src, "-o", src[:-2] + ".o"], check=True)
            subprocess.run(["ar", "rcs", os.path.join(d, "pc" if name == "vpc" else "", f"lib{name}.a"), src[:-2] + ".o"], check=True)
        with open(os.path.join(d, "inc/vpc_value.h"), "w") as o:
            o.write("#define VPC_HEADER 1\n")
        with open(os.path.join(d, "vpc.pc"), "w") as o:
            o.write(f"Name: vpc\nDescription: x\nVersion: 1\nLibs: -L{d}/pc -lvpc -lvext1 -lvext0\nCflags: -I{d}/inc -DPC_VALUE=9\n")
        open(stamp, "w").close()
    shared["ext"] = d


# ---------------------------------------------------------------------------------------------- generator

def pick(draw, ids, most):
    if not ids:
        return []
    return sorted({ids[draw(st.integers(0, len(ids) - 1))] for _ in range(draw(st.sampled_from([0, 1, 1, 2, 2, 3, 4][:most + 3])))})


@st.composite
def part(draw, i, els, kind=None):
    """els: the parts before, of which this one may use some"""
    kind = kind or draw(st.sampled_from(["mod", "mod", "mod", "hdr", "genh", "lib", "prog", "prog", "test", "copy", "ext"]))
    d = DIRS[draw(st.integers(0, 3 if draw(st.integers(0, 3)) else len(DIRS) - 1))]
    base = f"m{i}"
    if kind == "mod" and d and draw(st.booleans()) and not any(e["d"] == d and e["b"] == "util" for e in els):
        base = "util"
    e = {"i": i, "t": kind, "d": d, "b": base, "c": draw(st.integers(-9, 99)), "k": draw(st.integers(0, 9)), "u": [], "h": []}
    heads = [x["i"] for x in els if x["t"] in ("mod", "hdr", "ext", "genh")]
    mods = [x["i"] for x in els if x["t"] == "mod"]
    libs = [x["i"] for x in els if x["t"] == "lib"]
    if kind in ("mod", "hdr"):
        e["h"] = pick(draw, heads, 2)
    if kind in ("mod", "prog", "test"):
        e["u"] = pick(draw, heads, 3 if kind == "mod" else 4)
    if kind in ("mod", "prog", "test"):
        e["flag"] = draw(st.sampled_from([None, None, None, 3, 40]))
        e["two"] = kind != "test" and draw(st.integers(0, 5)) == 5
    if kind == "genh":
        e["data"] = draw(st.sampled_from([None, "project", "generated"]))
    if kind == "lib":
        e["m"] = pick(draw, mods, 3) or mods[-1:]
    if kind == "prog":
        e["l"] = pick(draw, libs, 2)
        e["ld"] = draw(st.sampled_from([None, None, 17, 1234]))
    if kind == "test":
        e["off"] = 0
        e["strict"] = draw(st.booleans())
    if kind == "ext":
        e["lib"] = draw(st.sampled_from(["vext0", "vext1", "vpc"]))
    if kind == "copy":
        e["size"] = draw(st.sampled_from([0, 1, 100, 5000, 70000]))
    e["abs"] = draw(st.booleans())
    return e


OPS = ["c", "c", "k", "k", "data", "use", "use", "unuse", "add", "add", "remove", "rename", "flag", "member", "touch", "drop", "size", "nothing", "ld", "lib", "break", "break", "fix"]


@st.composite
def strategy_(draw):
    els = []
    n = draw(st.integers(4, 11))
    for i in range(n):
        e = draw(part(i, els, "mod" if i in (0, 2) else None))
        els.append(e)
    rounds = []
    for _ in range(draw(st.integers(0, 4))):
        ops = []
        for _ in range(draw(st.integers(1, 3))):
            op = draw(st.sampled_from(OPS))
            o = [op, draw(st.integers(0, 40)), draw(st.integers(0, 40))]
            if op == "add":
                n += 1
                o.append(draw(part(n, els)))
            ops.append(o)
        rounds.append(ops)
    return {"parts": els, "rounds": rounds, "src": draw(st.sampled_from([".", ".", "sub", "abs"])), "tgt": draw(st.sampled_from([None, None, "out", "abs"])),
            "workers": draw(st.sampled_from([1, 3])), "flags": draw(st.lists(st.sampled_from(["-O1", "-DSP=a b", "-DQ=\"q\"", "dd", "std20", "std14", "max14", "from11to14", "from17to20", "-funsigned-char"]), max_size=3, unique=True))}


def strategy(tier):
    return strategy_()


# ---------------------------------------------------------------------------------------------- model

class Project:
    def __init__(self, parts, flags):
        self.els = {e["i"]: e for e in parts}
        self.flags = flags
        self.broken = {}    # i -> kind
        self.impl = {}      # i -> suffix of the implementation's name
        self.touched = {}

    def edit(self, op):
        name, a, b = op[:3]

        def some(*kinds):
            ids = [i for i, e in sorted(self.els.items()) if e["t"] in kinds]
            return self.els[ids[a % len(ids)]] if ids else None
        if name == "add":
            e = json.loads(json.dumps(op[3]))
            # what it uses may be gone by now
            for key, kinds in (("u", ("mod", "hdr", "ext", "genh")), ("h", ("mod", "hdr", "ext", "genh")), ("m", ("mod",)), ("l", ("lib",))):
                if key in e:
                    e[key] = [i for i in e[key] if i in self.els and self.els[i]["t"] in kinds]
            if any(x["d"] == e["d"] and x["b"] == e["b"] for x in self.els.values()):
                e["b"] = f"m{e['i']}"
            if e["i"] not in self.els and not (e["t"] == "lib" and not e["m"]):
                self.els[e["i"]] = e
            return
        if name == "remove":
            ids = sorted(self.els)
            free = [i for i in ids if not any(i in e.get(k, ()) for e in self.els.values() for k in "uhml")]
            if len(free) and len(ids) > 2:
                i = free[a % len(free)]
                del self.els[i]
                self.broken.pop(i, None)
            return
        if name == "c":
            e = some("mod", "hdr", "genh", "prog", "test")
            if e:
                e["c"] += b + 1
        elif name == "k":
            e = some("mod", "hdr")
            if e:
                e["k"] += b + 1
        elif name == "data":
            e = some("genh")
            if e:
                e["k"] += b + 1
        elif name in ("use", "unuse"):
            e = some("mod", "prog", "test", "hdr")
            if e:
                key = "u" if e["t"] in ("prog", "test") or (e["t"] == "mod" and b % 2) else "h"
                pool = e[key] if name == "unuse" else [i for i, x in sorted(self.els.items()) if x["t"] in ("mod", "hdr", "ext", "genh") and i < e["i"]]
                if pool:
                    j = pool[b % len(pool)]
                    if name == "unuse":
                        e[key].remove(j)
                    elif j not in e[key]:
                        e[key].append(j)
        elif name == "rename":
            e = some("mod")
            if e:
                self.impl[e["i"]] = "" if self.impl.get(e["i"]) else "_impl"
                e["c"] += b
        elif name == "flag":
            e = some("mod", "prog", "test")
            if e:
                e["flag"] = b if e["flag"] is None or b % 3 else None
        elif name == "member":
            e = some("lib")
            if e:
                pool = [i for i, x in sorted(self.els.items()) if x["t"] == "mod" and i < e["i"]]
                j = pool[b % len(pool)] if pool else None
                if j is not None:
                    if j in e["m"] and len(e["m"]) > 1:
                        e["m"].remove(j)
                    elif j not in e["m"]:
                        e["m"].append(j)
        elif name == "touch":
            self.touched["mtime"] = sorted(self.els)[a % len(self.els)]
        elif name == "drop":
            self.touched["drop"] = a
        elif name == "size":
            e = some("copy")
            if e:
                e["size"] = (e["size"] * 3 + b * 7 + 1) % 100000
        elif name == "ld":
            e = some("prog")
            if e:
                e["ld"] = 1000 + b
        elif name == "lib":
            e = some("prog")
            if e:
                pool = [i for i, x in sorted(self.els.items()) if x["t"] == "lib" and i < e["i"]]
                if pool and pool[b % len(pool)] not in e["l"]:
                    e["l"].append(pool[b % len(pool)])
                elif e["l"]:
                    e["l"].pop()
        elif name == "break":
            e = some("mod", "genh", "test", "prog")
            if e:
                self.broken[e["i"]] = {"mod": ["syntax", "undef", "type"], "genh": ["script", "signal"], "test": ["fails", "dies", "syntax"], "prog": ["syntax", "undef"]}[e["t"]][b % (2 if e["t"] in ("genh", "prog") else 3)]
        elif name == "fix":
            self.broken.clear()

    # values
    def K(self, i):
        e = self.els[i]
        if e["t"] == "ext":
            return 9 if e["lib"] == "vpc" else 0
        if e["t"] == "genh":
            return e["c"] + (e["k"] if e["data"] else 0)
        return e["k"] + sum(self.K(j) for j in e["h"])

    def F(self, i):
        e = self.els[i]
        if e["t"] == "ext":
            return EXTV[e["lib"]]
        if e["t"] == "genh":
            return self.K(i)
        v = self.K(i) + e["c"]
        if e["t"] == "hdr":
            return v + sum(self.F(j) for j in e["h"] if self.els[j]["t"] != "genh")
        return v + sum(self.F(j) for j in e["u"]) + (e["flag"] or 0)

    def total(self, i):
        e = self.els[i]
        return e["c"] + sum(self.F(j) for j in e["u"]) + (e["flag"] or 0)

    # files
    def path(self, i, ext, impl=False):
        e = self.els[i]
        return posixpath.join(e["d"], e["b"] + (self.impl.get(i, "") if impl else "") + ext)

    def header(self, i):
        return self.path(i, ".gen.hpp" if self.els[i]["t"] == "genh" else ".hpp")

    def inc(self, frm, i, from_header):
        p = self.header(i)
        e = self.els[i]
        if e["d"] == frm["d"] and not frm["abs"] and not (from_header and e["t"] == "genh"):
            return f'#include "./{posixpath.basename(p)}"\n'
        return f'#include "{p}"\n'

    def call(self, j):
        e = self.els[j]
        return f"G_{j}" if e["t"] == "genh" else f"{e['lib']}()" if e["t"] == "ext" else f"f_{j}()"

    def const(self, j):
        e = self.els[j]
        return f"G_{j}" if e["t"] == "genh" else f"E_{j}" if e["t"] == "ext" else f"K_{j}"

    def deps_objs(self, i):
        """parts whose object files or libraries end up with i's object file"""
        seen = set()
        todo = [i]
        while todo:
            e = self.els[todo.pop()]
            for j in e["u"] + e["h"]:
                if j not in seen:
                    seen.add(j)
                    todo.append(j)
        return seen

    def fails(self):
        """what makes the build fail"""
        ret = []
        for i, b in sorted(self.broken.items()):
            if i not in self.els:
                continue
            if b == "undef" and self.els[i]["t"] == "mod":
                users = [x for x, e in self.els.items() if (e["t"] in ("prog", "test") and i in self.deps_objs(x))
                         or (e["t"] == "prog" and any(i == m or i in self.deps_objs(m) for lib in e["l"] for m in self.els[lib]["m"]))]
                # only needed if something that is linked in calls it
                if any(self.calls(x, i) for x in users):
                    ret.append((i, b))
            else:
                ret.append((i, b))
        return ret

    def calls(self, x, i):
        """is f_i called in what is linked into program or test x (all the objects named are linked in)"""
        objs = self.deps_objs(x) | {x}
        for lib in self.els[x].get("l", []):
            for m in self.els[lib]["m"]:
                objs |= self.deps_objs(m) | {m}
        for o in objs:
            e = self.els[o]
            if e["t"] in ("mod", "prog", "test") and i in self.visible_calls(o):
                return True
        return any(i in self.els[lib]["m"] for lib in self.els[x].get("l", []))

    def visible_calls(self, o):
        """functions that o's object file calls (inline functions of headers included)"""
        ret = set()
        todo = list(self.els[o]["u"])
        while todo:
            j = todo.pop()
            if j in ret:
                continue
            ret.add(j)
            if self.els[j]["t"] == "hdr":
                todo += self.els[j]["h"]
        return ret

    def render(self):
        """{path: (bytes, executable)}"""
        out = {}

        def cxx(tags, text):
            t = "".join("//@ " + x + "\n" for x in json.dumps(tags, indent=1, ensure_ascii=False).split("\n")) if tags else ""
            return (t + text).encode(), False
        for i, e in sorted(self.els.items()):
            b = self.broken.get(i)
            guard = f"#ifndef H_{i}\n#define H_{i}\n"
            own = {"compiler": {"config": {"cflags": [f"-DFLAG_{i}={e['flag']}"]}}} if e.get("flag") is not None else {}
            if e["t"] == "ext":
                tags = {"dependencies_extra": [{"ref": e["lib"], "rel": "external", "origin": "system"}]}
                more = ""
                if e["lib"] == "vext1":
                    tags["dependencies_extra"].append({"ref": "vext0", "rel": "external", "origin": "system"})
                if e["lib"] == "vpc":
                    tags = {"dependencies": [{"ref": "vpc", "origin": "pkg-config"}]}
                    more = '#include "vpc_value.h"\nstatic_assert(VPC_HEADER, "");\n'.replace('"vpc_value.h"', "<vpc_value.h>")
                out[self.header(i)] = cxx(tags, guard + more + f'extern "C" long {e["lib"]}(void);\nconstexpr long E_{i} = {"PC_VALUE" if e["lib"] == "vpc" else 0};\n#endif\n')
            elif e["t"] in ("hdr", "mod"):
                text = guard + "".join(self.inc(e, j, True) for j in e["h"])
                text += f"constexpr long K_{i} = {e['k']}" + "".join(f" + ({self.const(j)})" for j in e["h"]) + ";\n"
                tags = {}
                if e["t"] == "hdr":
                    text += f"inline long f_{i}() {{ return K_{i} + {e['c']}" + "".join(f" + {self.call(j)}" for j in e["h"] if self.els[j]["t"] != "genh") + "; }\n"
                else:
                    text += f"long f_{i}();\n"
                    o = self.path(i, ".o", True)
                    tags = {"dependencies_extra": [{"ref": o if e["abs"] else "./" + posixpath.basename(o), "rel": "implementation"}]}
                out[self.header(i)] = cxx(tags, text + "#endif\n")
            if e["t"] in ("mod", "prog", "test"):
                text = ""
                if e["t"] == "mod":
                    text += self.inc(e, i, False)
                text += "".join(self.inc(e, j, False) for j in e["u"])
                expr = str(e["c"]) + "".join(f" + {self.call(j)}" for j in e["u"]) + (f" + FLAG_{i}" if e.get("flag") is not None else "")
                if b == "syntax":
                    text += f"long broken_{i}( {{\n"
                if b == "type":
                    text += f"static_assert(sizeof(char) == 2, \"broken_{i}\");\n"
                stem = e["b"] + (self.impl.get(i, "") if e["t"] == "mod" else "")
                if e["t"] == "mod":
                    text += f"long {'g' if b == 'undef' else 'f'}_{i}() {{ return K_{i} + {expr}; }}\n"
                    tags = {"targets": [{"name": stem + ".o"}] + ([{"name": stem + ".copy.o"}] if e["two"] else [])}
                elif e["t"] == "prog":
                    text += "#include <cstdio>\n"
                    syms = [m for x in e["l"] for m in self.els[x]["m"]]
                    text += "".join(f"long f_{m}();\n" for m in syms) + (f"extern char ds_{i};\n" if e["ld"] is not None else "")
                    text += f"long nowhere_{i}();\n" if b == "undef" else ""
                    text += "int main() {\n" + f'std::printf("%ld %ld\\n", static_cast<long>(__cplusplus), static_cast<long>({expr}));\n'
                    text += f"std::printf(\"%ld\\n\", nowhere_{i}());\n" if b == "undef" else ""
                    text += "".join(f'std::printf("%ld\\n", f_{m}());\n' for m in syms) + "".join(f'std::printf("%ld\\n", static_cast<long>({self.const(j)}));\n' for j in e["u"])
                    if e["ld"] is not None:
                        text += f'std::printf("%ld\\n", reinterpret_cast<long>(&ds_{i}));\n'
                    for n, macro in enumerate(self.macros()):
                        text += f'std::printf("%s\\n", {macro});\n'
                    text += "}\n"
                    text = "#define STR2(x) #x\n#define STR(x) STR2(x)\n" + text
                    tags = {"targets": [{"name": stem + ".o"}] + ([{"name": stem + ".copy.o"}] if e["two"] else [])}
                    libs = [{"ref": self.path(x, ".a"), "origin": "generated", "rel": "implementation"} for x in e["l"]]
                    rule = {"target": {"name": stem + ".exe"}, "dependencies": [{"ref": "./" + stem + ".o", "origin": "generated", "rel": "implementation"}] + libs}
                    if e["ld"] is not None:
                        rule["compiler"] = {"config": {"cflags": ["-no-pie", f"-Wl,--defsym,ds_{i}={e['ld']}"]}}
                    out[self.path(i, ".app.maikerule")] = (json.dumps(rule, ensure_ascii=False).encode(), False)
                else:
                    text += "#include <cstdio>\n#include <cstdlib>\n"
                    text += f'int main() {{ long r = {expr}; std::printf("test {i} says %ld\\n", r); std::fflush(stdout);\n'
                    if e["strict"]:
                        text += f"if(r != {self.total(i)}) return 1;\n"
                    if b == "fails":
                        text += "return 3;\n"
                    if b == "dies":
                        text += "std::abort();\n"
                    text += "return 0; }\n"
                    tags = {"target": {"name": stem + ".test"}}
                tags.update(own)
                out[self.path(i, ".test.cpp" if e["t"] == "test" else ".cpp", e["t"] == "mod")] = cxx(tags, text)
            if e["t"] == "genh":
                num = self.path(i, ".num")
                tags = {"target": {"name": posixpath.basename(self.header(i))}}
                if e["data"]:
                    out[num] = (f"{e['k']}\n".encode(), False)
                    tags["dependencies"] = [{"ref": "./" + posixpath.basename(num), "origin": e["data"]}]
                text = "#!/usr/bin/env python3\n" + "".join("#@ " + x + "\n" for x in json.dumps(tags, indent=1, ensure_ascii=False).split("\n"))
                text += "import json, os, sys\nif sys.argv[1] != 'compile':\n    sys.exit(0)\na = json.loads(sys.argv[2])\n" + f"v = {e['c']}\n"
                if e["data"]:
                    text += f"v += int(open([d['ref'] for d in a['dependencies'] if d['ref'].endswith({json.dumps(posixpath.basename(num))})][0]).read())\n"
                if b == "script":
                    text += f"print('script {i} gives up', file=sys.stderr)\nsys.exit(1)\n"
                if b == "signal":
                    text += "os.kill(os.getpid(), 15)\n"
                text += f"open(a['targets'][0], 'w').write('#define G_{i} (%d)\\n' % v)\n"
                out[self.path(i, ".py")] = (text.encode(), True)
            if e["t"] == "lib":
                deps = []
                for m in e["m"]:
                    o = self.path(m, ".o", True)
                    deps.append({"ref": "./" + posixpath.basename(o) if self.els[m]["d"] == e["d"] and not e["abs"] else o, "origin": "generated", "rel": "implementation"})
                out[self.path(i, ".lib.maikerule")] = (json.dumps({"target": {"name": e["b"] + ".a", "dependencies": deps}}, ensure_ascii=False).encode(), False)
            if e["t"] == "copy":
                out[self.path(i, ".svg")] = (bytes((x * x * 31 + x + i) % 256 for x in range(e["size"])), False)
        return out

    def macros(self):
        ret = []
        for f in self.flags:
            if f == "-DSP=a b":
                ret.append("STR(SP)")
            elif f == "-DQ=\"q\"":
                ret.append("Q")
            elif f == "dd":
                ret.append("STR(D1) STR(D2)")
        return ret

    def macro_values(self):
        return [{"-DSP=a b": "a b", "-DQ=\"q\"": "q", "dd": "onetwo"}[f] for f in self.flags if f in ("-DSP=a b", "-DQ=\"q\"", "dd")]

    def config(self):
        flags = []
        std = None
        for f in self.flags:
            if f == "dd":
                flags += ["-D", "D1=one", "-D", "D2=two"]
            elif f.startswith("-"):
                flags.append(f)
            elif f == "std20":
                std = {"min": "c++20"}
            elif f == "std14":
                std = {"min": "c++14", "max": "c++14"}
            elif f == "from11to14":
                std = {"min": "c++11", "max": "c++14"}
            elif f == "from17to20":
                std = {"min": "c++17", "max": "c++20"}
            elif f == "max14":
                std = {"max": "c++14"}
        cxx = {"cflags": flags, "iquote": ["."]}
        if std:
            cxx["std_revision"] = std
            cxx["always_use_default_compiler"] = True
        ret = {
            "dir_compiler": {"recipe": "make_directory.py", "config": {}},
            "source_file_info_loaders": {
                "cxx": {"loader": "cxx_src_loader", "compiler": {"recipe": "cxx_compiler.py", "config": cxx}, "config": {"generated_includes": ["\\.gen\\.hpp$"]}},
                "cxx_test": {"loader": "cxx_src_loader", "compiler": {"recipe": "cxx_compiler.py", "config": {**cxx, "actions": ["link", "run"]}}, "config": {"generated_includes": ["\\.gen\\.hpp$"]}},
                "app": {"loader": "app", "compiler": {"recipe": "cxx_linker.py", "config": {"cflags": ["-g"]}}},
                "lib": {"loader": "lib", "compiler": {"recipe": "make_lib.py", "config": {}}},
                "ext": {"loader": "extension", "compiler": {"recipe": "", "config": {}}},
                "copy": {"loader": "generic", "compiler": {"recipe": "copy_file.py", "config": {}}},
            },
            "source_tree_loader": {"file_info_loaders": {".cpp": "cxx", ".hpp": "cxx", ".test.cpp": "cxx_test", ".app.maikerule": "app", ".lib.maikerule": "lib", ".py": "ext", ".svg": "copy", ".num": "copy"},
                                   "input_filter": ["^\\.", "^__", "^maikeconfig", "^out$", "_targets$"], "fullpath_input_filter": [], "recursive": 1},
        }
        rev = {"c++11": 201103, "c++14": 201402, "c++17": 201703, "c++20": 202002}
        lo = rev.get((std or {}).get("min"), 0)
        hi = rev.get((std or {}).get("max"), 10**9)
        return ret, lo, hi


# ---------------------------------------------------------------------------------------------- check

def run_case(case, ctx):
    base = ctx.scratch()
    cwd = os.path.join(base, "w")
    os.makedirs(cwd)
    src = {"abs": os.path.join(base, "s r c")}.get(case["src"], case["src"])
    args = [f"--num-workers={case['workers']}"]
    if case["src"] != ".":
        args.append("--source-dir=" + src)
    tgt = {None: "__targets" if case["src"] == "." else posixpath.basename(src) + "_targets", "out": "out", "abs": os.path.join(base, "t")}[case["tgt"]]
    if case["tgt"]:
        args.append("--target-dir=" + tgt)
    top = os.path.join(cwd, src)
    out = os.path.join(cwd, tgt)
    p = Project(json.loads(json.dumps(case["parts"])), case["flags"])
    cfg, lo, hi = p.config()
    os.makedirs(top, exist_ok=True)
    with open(os.path.join(top, "maikeconfig.json"), "w") as o:
        json.dump({"maikeconfig": cfg}, o)
    env = {"LIBRARY_PATH": shared["ext"], "PKG_CONFIG_PATH": shared["ext"], "HOME": base, "TMPDIR": base}
    last = {}
    said = {}
    labels = set()
    used2 = 0
    done = []
    for rnd in [[]] + case["rounds"]:
        for op in rnd:
            p.edit(op)
        done.append([op[:3] for op in rnd])
        if last:
            time.sleep(0.02)
        files = p.render()
        for f in set(last) - set(files):
            os.unlink(os.path.join(top, f))
        for f, (data, x) in files.items():
            if last.get(f) != (data, x):
                proj.write_file(top, {"p": f, "k": "ext" if x else "txt", "raw": ""})
                with open(os.path.join(top, f), "wb") as o:
                    o.write(data)
        last = files
        if "mtime" in p.touched:
            i = p.touched.pop("mtime")
            for f in files:
                if i in p.els and f.startswith(os.path.join(p.els[i]["d"], p.els[i]["b"])):
                    os.utime(os.path.join(top, f))
        if "drop" in p.touched:
            a = p.touched.pop("drop")
            made = sorted(os.path.join(d, n) for d, _, names in os.walk(out) for n in names)
            if made:
                os.unlink(made[a % len(made)])
        r = proj.run_maike(cwd, args, extra=env, timeout=60, ctx=ctx)
        proj.must_end(r)
        for bad in (b"No space left", b"Cannot allocate memory", b"Killed"):
            if bad in r.err or bad in r.out:
                raise Inconclusive(r.text())
        why = p.fails()
        bad = {i for i, b in why}
        for i, e in p.els.items():
            if e["t"] == "test" and i in bad:
                said.pop(i, None)

        def wrong(text):
            raise Violation(f"{text}\nafter the edits {done}\n{r.text()}")
        if why:
            labels.add("mistake: " + why[0][1])
            if r.rc == 0:
                wrong(f"the build succeeds in spite of {[(p.els[i]['t'], i, b) for i, b in why]}")
            for i, b in why:
                if len(why) > 1:
                    break
                text = r.err + r.out
                if b in ("syntax", "type") and (f"broken_{i}".encode() not in text or b"error" not in text):
                    wrong(f"the compiler's message about part {i} does not appear")
                if b == "undef" and (f"{'nowhere' if p.els[i]['t'] == 'prog' else 'f'}_{i}".encode() not in text):
                    wrong(f"the linker's message about part {i} does not appear")
                if b == "script" and f"script {i} gives up".encode() not in text:
                    wrong(f"the message of script {i} does not appear")
                if b in ("fails", "dies") and (f"test {i} says {p.total(i)}\n".encode() not in r.out):
                    wrong(f"test {i} was not run, or what it printed does not appear")
            first = r.out
            if len(done) % 2:
                r = proj.run_maike(cwd, args, extra=env, timeout=60, ctx=ctx)
                proj.must_end(r)
                if r.rc == 0:
                    wrong(f"the same build, repeated, succeeds in spite of {why}")
            for i, e in p.els.items():
                # a test may have been run in spite of the mistake elsewhere
                if e["t"] == "test" and i not in bad and f"test {i} says {p.total(i)}\n".encode() in first + r.out:
                    said[i] = p.total(i)
            continue
        if r.rc != 0:
            wrong("the project does not build")
        # what was made
        for i, e in sorted(p.els.items()):
            if e["t"] == "copy":
                f = os.path.join(out, p.path(i, ".svg"))
                if not os.path.exists(f) or open(f, "rb").read() != files[p.path(i, ".svg")][0]:
                    wrong(f"the copy of {p.path(i, '.svg')} is not the same")
            if e["t"] == "genh" and e["data"]:
                f = os.path.join(out, p.path(i, ".num"))
                if not os.path.exists(f) or open(f, "rb").read() != files[p.path(i, ".num")][0]:
                    wrong(f"the copy of {p.path(i, '.num')} is not the same")
            if e.get("two"):
                a, b = (os.path.join(out, p.path(i, x, e["t"] == "mod")) for x in (".o", ".copy.o"))
                if not (os.path.exists(a) and os.path.exists(b)) or open(a, "rb").read() != open(b, "rb").read():
                    wrong(f"the targets of part {i} are not the same")
            if e["t"] == "prog":
                syms = [m for x in e["l"] for m in p.els[x]["m"]]
                want = [p.F(m) for m in syms] + [p.K(j) for j in e["u"]] + ([e["ld"]] if e["ld"] is not None else [])
                got = execute(os.path.join(out, p.path(i, ".exe")), base, wrong).split("\n")
                first = got[0].split()
                if len(first) != 2 or int(first[1]) != p.total(i):
                    wrong(f"program {i} prints {got[0]!r}, expected {p.total(i)}")
                if not lo <= int(first[0]) <= hi:
                    wrong(f"program {i} was compiled for revision {first[0]}")
                if got[1:-1] != [str(x) for x in want] + p.macro_values():
                    wrong(f"program {i} prints {got[1:]}, expected {want} and {p.macro_values()}")
                used2 = max(used2, len([j for j in p.deps_objs(i) if p.els[j]["t"] == "mod"]) + len(syms))
                labels.add("program" + (" with library" if e["l"] else ""))
            if e["t"] == "test":
                text = execute(os.path.join(out, p.path(i, ".test")), base, wrong)
                if text != f"test {i} says {p.total(i)}\n":
                    wrong(f"test {i} prints {text!r}, expected {p.total(i)}")
                if said.get(i) != p.total(i) and f"test {i} says {p.total(i)}\n".encode() not in r.out:
                    wrong(f"test {i} was not run though what it depends on has changed")
                said[i] = p.total(i)
                used2 = max(used2, len([j for j in p.deps_objs(i) if p.els[j]["t"] == "mod"]))
                labels.add("test")
            if e["t"] == "lib" and "undef" not in p.broken.values():
                by_hand(p, i, os.path.join(out, p.path(i, ".a")), base, env, wrong)
                used2 = max(used2, len(e["m"]))
                labels.add("library")
        for i in list(said):
            if i not in p.els:
                del said[i]
        for e in p.els.values():
            if e["t"] == "ext":
                labels.add(e["lib"])
    objs = len([e for e in p.els.values() if e["t"] in ("mod", "prog")])
    labels |= {op[0] for rnd in case["rounds"] for op in rnd} | {f"source {case['src']}", f"target {case['tgt']}"} | set(case["flags"])
    return Info(objs >= 4 and used2 >= 2, sorted(labels))


def execute(path, cwd, wrong):
    try:
        r = subprocess.run([path], cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=30)
    except OSError as e:
        wrong(f"{path} can't be run: {e}")
    except subprocess.TimeoutExpired:
        wrong(f"{path} does not end")
    if r.returncode != 0:
        wrong(f"{path} ends with {r.returncode}")
    return r.stdout.decode(errors="replace")


def by_hand(p, i, lib, base, env, wrong):
    e = p.els[i]
    if not os.path.exists(lib):
        wrong(f"library {i} was not made")
    d = os.path.join(base, "hand.cpp")
    with open(d, "w") as o:
        o.write("#include <cstdio>\n" + "".join(f"long f_{m}();\n" for m in e["m"]) + "int main() {\n" + "".join(f'std::printf("%ld\\n", f_{m}());\n' for m in e["m"]) + "}\n")
    exe = os.path.join(base, "hand")
    libs = [lib]
    for m in sorted(e["m"]):
        pass
    full = dict(os.environ)
    full.update(env)
    r = subprocess.run(["g++", d, lib, "-L" + shared["ext"] + "/pc", "-lvpc", "-lvext1", "-lvext0", "-o", exe], env=full, stdin=subprocess.DEVNULL, capture_output=True, timeout=60)
    if r.returncode:
        wrong(f"library {i} can't be linked with: {r.stderr.decode(errors='replace')[:1500]}")
    got = execute(exe, base, wrong).split()
    want = [str(p.F(m)) for m in e["m"]]
    if got != want:
        wrong(f"the functions of library {i} return {got}, expected {want}")
