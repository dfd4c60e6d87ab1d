"""C28: the C++ recipes choose a compiler that can do what is asked for, and give the tools exactly the flags asked for."""

import json
import os
import posixpath

from hypothesis import strategies as st

from vlib import proj
from vlib.build import VERIF
from vlib.runner import Info, Violation

ID = "C28"
LEVEL = "exploration"
RULE = ("generated sets of installed compilers (language revisions known, half known or unknown, defaults, damaged ones, an own choice in CXX) and projects of C++ files, tests, programs and libraries with generated revisions, flags, include directories, "
        "pkg-config packages and system libraries, built by the bundled recipes with stand-ins for compiler, archiver and clang-tidy that record how they were called, with and without failing tools; each call is compared with what the configuration asks for; "
        "non-trivial: at least 2 compilers and a revision asked for, or a package or include directory or own flag in use by at least 2 calls")
ASSUMPTIONS = ["python3 and pkg-config work", "the tools are stand-ins (harness/cxxtools)", "a compiler's name ends with its version, after a dash", "packages list libraries in one global order"]
COUNT = {"quick": 500, "thorough": 8000}
CAP = {"quick": 60, "thorough": 480}
FAULT_FILE = {"compile": "fail-", "link": "fail-", "run": "run-", "tidy": "tidy-"}
TOOLS = os.path.join(VERIF, "harness/cxxtools")

STDS = ["c++98", "c++11", "c++14", "c++17", "c++20", "c++23"]
NUM = [199711, 201103, 201402, 201703, 202002, 202302]
SUFFIX = ["", "-9", "-11", "-12", "-13.1", "-14"]
DECOYS = ["%s-11-posix", "%s-9-cross", "x86_64-linux-gnu-%s-13", "not-%s"]
DIRS = ["", "a", "a/b", "c d"]
CFLAGS = ["-O1", "-Wall", "-DSP=a b", "-DQ=\"q\"", "-D", "D1=one", "-D", "D2=two", "-g", "-fno-rtti", "-DD='x'", "-DE=", "-D*=\\", "-Wl,$x"]
PKGFLAGS = [("-DPA=1", ["-DPA=1"]), ('"-I/nonexistent/a b"', ["-I/nonexistent/a b"]), ('-DPS=\\"q\\"', ['-DPS="q"']), ("-isystem /nonexistent/q", ["-isystem", "/nonexistent/q"]), ("-isystem /nonexistent/r", ["-isystem", "/nonexistent/r"]),
            ("'-DPZ=a  b'", ["-DPZ=a  b"]), ("-pthread", ["-pthread"]), ("-I/nonexistent/i", ["-I/nonexistent/i"]), ("-DPB", ["-DPB"])]
PKGLIBS = ["x", "y", "z", "m", "c++abi"]
PKGDIRS = [("/nonexistent/l", "-L/nonexistent/l"), ('"/nonexistent/l m"', "-L/nonexistent/l m"), ("/nonexistent/k", "-L/nonexistent/k")]
SYSLIBS = ["pthread", "dl", "rt.1"]
IQUOTE = [".", "inc", "a", "c d"]


def setup(tier):
    proj.setup("opt")


@st.composite
def strategy_(draw):
    i = st.integers
    focus = draw(st.sampled_from(["compilers", "flags", "both"]))
    # the default compiler, and others that may know more
    comps = [{"n": k, "dir": draw(i(0, 1)), "full": draw(i(0, 5)), "exp": draw(i(0, 2)), "by": draw(i(1, 90)), "dflt": draw(i(0, 5)), "state": "ok"}
             for k in ([0] if draw(i(0, 7)) < 7 else []) + draw(st.lists(i(1, 5), max_size=4, unique=True))]
    if comps and draw(i(0, 5)) == 5:
        comps[draw(i(0, len(comps) - 1))]["state"] = draw(st.sampled_from(["broken", "noexec"]))
    # these are not versions of the default compiler
    decoys = draw(st.one_of(st.just([]), st.lists(i(0, len(DECOYS) - 1), max_size=2, unique=True)))
    loaders = []
    for k in range(3):
        rev = draw(st.sampled_from([None, "min", "max", "both", "same"])) if focus != "flags" else None
        lo, hi = draw(i(0, 5)), draw(i(0, 5))
        if rev == "both" and draw(i(0, 7)):
            lo, hi = min(lo, hi), max(lo, hi)
        loaders.append({"rev": rev, "lo": lo, "hi": lo if rev == "same" else hi, "tidy": draw(i(0, 3)) == 3, "always": draw(st.sampled_from([None, None, None, False, True])),
                        "fl": draw(st.lists(i(0, len(CFLAGS) - 1), max_size=4)), "iq": draw(st.lists(i(0, len(IQUOTE) - 1), max_size=2, unique=True))})
    few = focus == "compilers"
    files = [{"d": draw(i(0, 3)), "l": draw(i(0, 2)), "pk": draw(st.lists(i(0, 2), max_size=0 if few else 2, unique=True)), "inc": draw(i(0, 3)) == 0, "own": draw(st.one_of(st.none(), i(0, 3))), "two": draw(i(0, 4)) == 0,
              "uses": draw(st.lists(i(0, 9), max_size=2))} for _ in range(draw(i(1, 3 if few else 6)))]
    pkgs = [{"cf": draw(st.lists(i(0, len(PKGFLAGS) - 1), max_size=4, unique=True)), "lib": sorted(draw(st.lists(i(0, len(PKGLIBS) - 1), max_size=3, unique=True))), "L": draw(st.lists(i(0, 2), max_size=2, unique=True))} for _ in range(3)]
    apps = [{"d": draw(i(0, 3)), "lib": draw(i(0, 2)) == 0, "uses": draw(st.lists(i(0, 9), max_size=3)), "pk": draw(st.lists(i(0, 2), max_size=2, unique=True)), "sys": draw(st.lists(i(0, 2), max_size=2, unique=True)),
             "fl": draw(st.lists(i(0, len(CFLAGS) - 1), max_size=2)), "libs": draw(st.lists(i(0, 9), max_size=2))} for _ in range(draw(i(0, 1 if few else 3)))]
    fault = draw(st.one_of(st.none(), st.none(), st.tuples(st.sampled_from(["compile", "compile", "run", "link", "pkg", "tidy", "tidy", "notidy"]), i(0, 9), st.sampled_from(["1", "2", "255", "KILL"]))))
    if fault and fault[0] in ("tidy", "notidy"):
        loaders[files[fault[1] % len(files)]["l"]]["tidy"] = True
    return {"comps": comps, "decoys": decoys, "loaders": loaders, "files": files, "pkgs": pkgs, "apps": apps, "fault": fault, "cxx": draw(st.sampled_from([None, None, None, "clang++", "path"])), "ar": draw(st.booleans()),
            "src": draw(st.sampled_from([".", ".", "sub", "abs"])), "tgt": draw(st.sampled_from([None, None, "out", "abs"]))}


def strategy(tier):
    return strategy_()


def revision(c, std):
    """What compiler c makes of the given standard, None if it doesn't know it"""
    if c["state"] != "ok":
        return None
    k = min(c["dflt"], c["full"]) if std is None else STDS.index(std)
    if k <= c["full"]:
        return NUM[k]
    return NUM[k] - c["by"] if k <= c["full"] + c["exp"] else None


def choices(comps, default, ld):
    """(names of the compilers that may be chosen, {name: what it has to be told: a set of accepted values of -std, None for no option})"""
    have = [c for c in comps if c["name"] == default] if ld["always"] else comps
    lo = STDS[ld["lo"]] if ld["rev"] in ("min", "both", "same") else None
    hi = STDS[ld["hi"]] if ld["rev"] in ("max", "both", "same") else None
    n_lo = NUM[STDS.index(lo)] if lo else 0
    n_hi = NUM[STDS.index(hi)] if hi else 10**9
    if n_lo > n_hi:
        return {}
    fit = {}
    half = {}
    for c in have:
        d = revision(c, None)
        if d is None:
            continue
        ok = {s for s in [None] + STDS if (r := revision(c, s)) is not None and n_lo <= r <= n_hi}
        if lo == hi and lo is not None:
            ok &= {lo}
        need = lo if lo == hi or d < n_lo else hi if d > n_hi else None
        if need is None or (revision(c, need) or 0) >= NUM[STDS.index(need)]:
            fit[c["name"]] = ok
        elif revision(c, need) is not None:
            half[c["name"]] = (revision(c, need), {need})
    if default in fit:
        return {default: fit[default]}
    if fit:
        return fit
    best = max((v for v, _ in half.values()), default=0)
    return {n: s for n, (v, s) in half.items() if v == best}


def groups(flags):
    """flags without repetitions, options with separate arguments kept together"""
    ret = []
    k = 0
    while k < len(flags):
        n = 2 if flags[k] in ("-isystem", "-D", "-I") and k + 1 < len(flags) else 1
        ret.append(tuple(flags[k:k + n]))
        k += n
    return list(dict.fromkeys(ret))


def subsequence(a, b):
    it = iter(b)
    return all(x in it for x in a)


class Plan:
    def __init__(self, case, cwd, src, tgt):
        self.case, self.cwd, self.src, self.tgt = case, cwd, src, tgt
        self.files = []
        self.apps = []
        for k, f in enumerate(case["files"]):
            e = dict(f, i=k, dir=DIRS[f["d"]], test=f["l"] == 2)
            e["p"] = posixpath.join(e["dir"], f"f{k}" + [".a.cpp", ".b.cpp", ".test.cpp"][f["l"]])
            e["t"] = [posixpath.join(e["dir"], f"f{k}.test" if e["test"] else f"f{k}.o")] + ([posixpath.join(e["dir"], f"f{k}.second.o")] if f["two"] else [])
            e["objs"] = sorted({o["i"] for n in f["uses"] if (o := self.files[n % k]) and not o["test"]}) if e["test"] and k else []
            self.files.append(e)
        objs = [e for e in self.files if not e["test"]]
        for k, a in enumerate(case["apps"]):
            e = dict(a, i=k, dir=DIRS[a["d"]])
            e["p"] = posixpath.join(e["dir"], f"p{k}" + (".lib.maikerule" if a["lib"] else ".app.maikerule"))
            e["t"] = [posixpath.join(e["dir"], f"p{k}" + (".a" if a["lib"] else ".exe"))]
            e["objs"] = sorted({objs[n % len(objs)]["i"] for n in a["uses"]}) if objs else []
            libs = [o for o in self.apps if o["lib"]]
            e["libs"] = sorted({libs[n % len(libs)]["i"] for n in a["libs"]}) if libs and not a["lib"] else []
            if not a["lib"] or e["objs"]:
                self.apps.append(e)
            else:
                self.apps.append(dict(e, lib=False, p=e["p"].replace(".lib.", ".app."), t=[e["t"][0].replace(".a", ".exe")], libs=[]))

    def render(self):
        out = {"inc/given.hpp": "//@ {}\n", "maikeconfig.json": json.dumps({"maikeconfig": self.config()})}

        def need(e):
            return [{"ref": self.files[o]["t"][0], "origin": "generated", "rel": "implementation"} for o in e["objs"]] + [{"ref": self.apps[o]["t"][0], "origin": "generated", "rel": "implementation"} for o in e.get("libs", [])] \
                + [{"ref": f"vpk{n}", "origin": "pkg-config"} for n in e["pk"]] + [{"ref": SYSLIBS[n], "origin": "system", "rel": "external"} for n in e.get("sys", [])]
        for e in self.files:
            tags = {"targets": [{"name": posixpath.basename(t)} for t in e["t"]], "dependencies": need(e)}
            if e["inc"]:
                tags["dependencies"].append({"ref": "inc/given.hpp", "origin": "project", "rel": "include"})
            if e["own"] is not None:
                tags["compiler"] = {"config": {"cflags": [f"-DOWN{e['own']}"]}}
            out[e["p"]] = "".join("//@ " + x + "\n" for x in json.dumps(tags, indent=1).split("\n")) + "int x;\n"
        for e in self.apps:
            name = posixpath.basename(e["t"][0])
            deps = need(e)
            if e["lib"]:
                out[e["p"]] = json.dumps({"target": {"name": name, "dependencies": [d for d in deps if d["origin"] == "generated"]}})
            else:
                out[e["p"]] = json.dumps({"target": {"name": name}, "dependencies": deps, "compiler": {"config": {"cflags": self.flags(e["fl"])}}})
        return out

    def config(self):
        ld = {"app": {"loader": "app", "compiler": {"recipe": "cxx_linker.py", "config": {"cflags": ["-s"]}}}, "lib": {"loader": "lib", "compiler": {"recipe": "make_lib.py", "config": {}}}}
        for k, x in enumerate(self.case["loaders"]):
            cfg = {"cflags": self.cflags(k), "iquote": [IQUOTE[n] for n in x["iq"]]}
            if x["rev"]:
                cfg["std_revision"] = {}
                if x["rev"] != "max":
                    cfg["std_revision"]["min"] = STDS[x["lo"]]
                if x["rev"] != "min":
                    cfg["std_revision"]["max"] = STDS[x["hi"]]
            if x["always"] is not None:
                cfg["always_use_default_compiler"] = x["always"]
            actions = (["link", "run"] if k == 2 else []) + (["sanitize"] if x.get("tidy") else [])
            if actions:
                cfg["actions"] = actions
            ld[f"cxx{k}"] = {"loader": "cxx_src_loader", "compiler": {"recipe": "cxx_compiler.py", "config": cfg}}
        ld["hpp"] = {"loader": "cxx_src_loader", "compiler": {"recipe": "cxx_compiler.py", "config": {"cflags": [], "iquote": []}}}
        return {"dir_compiler": {"recipe": "make_directory.py", "config": {}}, "source_file_info_loaders": ld,
                "source_tree_loader": {"file_info_loaders": {".a.cpp": "cxx0", ".b.cpp": "cxx1", ".test.cpp": "cxx2", ".hpp": "hpp", ".app.maikerule": "app", ".lib.maikerule": "lib"},
                                       "input_filter": ["^\\.", "^__", "^maikeconfig", "^out$", "_targets$"], "fullpath_input_filter": [], "recursive": 1}}

    def cflags(self, k):
        return self.flags(self.case["loaders"][k]["fl"])

    def flags(self, picked):
        ret = []
        for n in picked:
            ret += CFLAGS[n - n % 2:n - n % 2 + 2] if CFLAGS[n - n % 2] == "-D" else [CFLAGS[n]]
        return ret

    def s(self, p):
        return posixpath.normpath(posixpath.join(self.src, p))

    def t(self, p):
        return posixpath.normpath(posixpath.join(self.tgt, p))

    def closure(self, e):
        """(objects, libraries, packages) e needs, directly or not"""
        objs, libs, pk = set(e["objs"]), set(e.get("libs", [])), set(e["pk"] if not e.get("lib") else [])
        for o in libs:
            objs |= set(self.apps[o]["objs"])
        for o in objs:
            pk |= set(self.files[o]["pk"])
        return objs, libs, pk

    def link_items(self, e, items, fail):
        """checks what is linked"""
        objs, libs, pk = self.closure(e)
        must = [self.t(self.files[o]["t"][0]) for o in e["objs"]] + [self.t(self.apps[o]["t"][0]) for o in libs]
        may = {self.t(self.files[o]["t"][0]) for o in objs}
        got = [x for x in items if not x.startswith("-")]
        for x in must:
            if got.count(x) != 1:
                fail(f"{x} is given {got.count(x)} times")
        for x in got:
            if x not in must and x not in may:
                fail(f"{x} does not belong there")
        last = max([k for k, x in enumerate(items) if x.endswith(".o")], default=0)
        if any(x.startswith("-l") or x.endswith(".a") for x in items[:last]):
            fail("a library comes before an object")
        got = [x for x in items if x.startswith("-l")]
        want = {"-l" + SYSLIBS[n] for n in e.get("sys", [])}
        dirs = set()
        for n in pk:
            mine = ["-l" + PKGLIBS[x] for x in self.case["pkgs"][n]["lib"]]
            if not subsequence(mine, got):
                fail(f"the libraries {mine} of package {n} are not there, or in another order")
            want |= set(mine)
            dirs |= {PKGDIRS[x][1] for x in self.case["pkgs"][n]["L"]}
        if set(got) != want:
            fail(f"the libraries are {got}, expected {sorted(want)}")
        got = [x for x in items if x.startswith("-") and not x.startswith("-l")]
        if set(got) != dirs:
            fail(f"the library directories are {got}, expected {sorted(dirs)}")

    def check_compile(self, e, args, names, fail):
        k = e["l"]
        ld = self.case["loaders"][k]
        args = args[:]

        def take(pred, n=1):
            for p, a in enumerate(args):
                if pred(a):
                    got = args[p:p + n]
                    del args[p:p + n]
                    return got
            fail(f"something is missing in the arguments {args}")
        if take(lambda a: a == "-o", 2)[1] != self.t(e["t"][0]):
            fail("not the right target")
        take(lambda a: a == self.s(e["p"]))
        stds = [a for a in args if a.startswith("-std=")]
        if len(stds) > 1:
            fail("more than one standard")
        std = stds[0][5:] if stds else None
        if ld["rev"]:
            if std not in names:
                fail(f"the standard is {std}, expected one of {sorted(map(str, names))}")
        elif std is not None:
            fail("a standard was given though none was asked for")
        args = [a for a in args if not a.startswith("-std=")]
        take(lambda a: a == "-fdiagnostics-color=never")
        for name, value in [("MAIKE_BUILDINFO_BUILDID", '"' + "ab" * 32 + '"'), ("MAIKE_BUILDINFO_STARTTIME", "1000000000L"), ("MAIKE_BUILDINFO_STARTTIME_STR", '"2001-09-09 01:46:40 UTC"'),
                            ("MAIKE_BUILDINFO_TARGETDIR", None), ("MAIKE_BUILDINFO_SOURCEDIR", None), ("MAIKE_TASKID", None)]:
            a, = take(lambda a: a.startswith(f"-D{name}="))
            v = a.split("=", 1)[1]
            if value is not None and v != value:
                fail(f"{name} is {v}, expected {value}")
            if name.endswith("DIR") and posixpath.normpath(posixpath.join(self.cwd, v.strip('"'))) != posixpath.normpath(posixpath.join(self.cwd, self.tgt if "TARGET" in name else self.src)):
                fail(f"{name} is {v}")
        if not e["test"]:
            take(lambda a: a == "-c")
        quote = []
        include = []
        rest = []
        it = iter(args)
        for a in it:
            if a.startswith("-iquote"):
                quote.append(a[7:] or next(it, ""))
            elif a.startswith("-include"):
                include.append(a[8:] or next(it, ""))
            else:
                rest.append(a)
        here = [posixpath.normpath(posixpath.join(self.cwd, q)) for q in quote]
        tops = [posixpath.normpath(posixpath.join(self.cwd, x)) for x in (self.src, self.tgt)]
        want = []
        for d in ([e["dir"]] if e["dir"] else []) + [IQUOTE[n] for n in ld["iq"]]:
            want += [posixpath.normpath(posixpath.join(x, d)) for x in tops]
        if list(dict.fromkeys(here)) != list(dict.fromkeys(want)) and [x for x in dict.fromkeys(here) if x not in tops] != [x for x in dict.fromkeys(want) if x not in tops]:
            fail(f"the include directories are {here}, expected {want}")
        if not set(want) <= set(here):
            fail(f"the include directories are {here}, expected {want}")
        # what an object is made with is passed on to those that are linked with it
        if include != ([self.s("inc/given.hpp")] if e["inc"] or include and any(self.files[o]["inc"] for o in e["objs"]) else []):
            fail(f"the files included are {include}")
        own = self.cflags(k) + ([f"-DOWN{e['own']}"] if e["own"] is not None else [])
        if e["test"]:
            def linked(a):
                return a.startswith(("-l", "-L")) or a.endswith((".o", ".a"))
            self.link_items(e, [a for a in rest if linked(a)], fail)
            rest = [a for a in rest if not linked(a)]
        _, _, pk = self.closure(e)
        order = [n for n in e["pk"]] + [n for n in sorted(pk) if n not in e["pk"]]
        if not _interleaved(rest, own):
            fail(f"the flags {own} are not given as they are, in {rest}")
        more = rest[len(own):] if rest[:len(own)] == own else rest[:len(rest) - len(own)]
        want = [f for n in order for x in self.case["pkgs"][n]["cf"] for f in PKGFLAGS[x][1]]
        if sorted(groups(more)) != sorted(groups(want)):
            fail(f"the flags of the packages are {more}, expected {want}")
        for n in order:
            mine = [f for x in self.case["pkgs"][n]["cf"] for f in groups(PKGFLAGS[x][1])]
            if len(order) == 1 and not subsequence(mine, groups(more)):
                fail(f"the flags of package {n} are not in order: {more}")


def _interleaved(rest, own):
    return rest[:len(own)] == own or (rest[len(rest) - len(own):] == own)


def run_case(case, ctx):
    base = ctx.scratch()
    cwd = os.path.join(base, "w")
    ctl = os.path.join(base, "ctl")
    logs = os.path.join(base, "log")
    pcs = os.path.join(base, "pc")
    for d in (cwd, logs, pcs, os.path.join(ctl, "cxx"), os.path.join(base, "bin0"), os.path.join(base, "bin1"), os.path.join(base, "other")):
        os.makedirs(d)
    src = {"abs": os.path.join(base, "s r c")}.get(case["src"], case["src"])
    args = ["--num-workers=2", "--build-id=" + "ab" * 32, "--start-time=1000000000"]
    if case["src"] != ".":
        args.append("--source-dir=" + src)
    tgt = {None: "__targets" if case["src"] == "." else posixpath.basename(src) + "_targets", "out": "out", "abs": os.path.join(base, "t")}[case["tgt"]]
    if case["tgt"]:
        args.append("--target-dir=" + tgt)
    p = Plan(case, cwd, src, tgt)
    for f, text in p.render().items():
        f = os.path.join(cwd, src, f)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "w") as o:
            o.write(text)
    # installed programs
    family = {None: "g++", "clang++": "clang++", "path": "g++"}[case["cxx"]]
    default = os.path.join(base, "other/my-cxx") if case["cxx"] == "path" else family
    env = {"PATH": f"{base}/bin0:{base}/bin1", "PKG_CONFIG_PATH": pcs, "VT_LOG": logs + "/x", "VT_CTL": ctl}
    if case["cxx"]:
        env["CXX"] = default
    if case["ar"]:
        env["AR"] = "my-ar"
    comps = []
    for c in case["comps"]:
        c = dict(c, name=family + SUFFIX[c["n"]], at=f"{base}/bin{c['dir']}")
        if case["cxx"] == "path":
            # only the one given belongs to the family
            if SUFFIX[c["n"]] != "":
                continue
            c.update(name=default, at=f"{base}/other")
        comps.append(c)
    for c in comps:
        os.symlink(os.path.join(TOOLS, "cxx"), os.path.join(c["at"], posixpath.basename(c["name"]))) if c["state"] != "noexec" else open(os.path.join(c["at"], posixpath.basename(c["name"])), "w").close()
        if c["state"] == "ok":
            with open(os.path.join(ctl, "cxx", posixpath.basename(c["name"])), "w") as o:
                for s in [None] + STDS:
                    o.write(f"{s or 'default'} {revision(c, s) or '-'}\n")
    for n in case.get("decoys", []):
        name = DECOYS[n] % family
        os.symlink(os.path.join(TOOLS, "cxx"), f"{base}/bin{n % 2}/{name}")
        with open(os.path.join(ctl, "cxx", name), "w") as o:
            for k, s in enumerate(["default"] + STDS):
                o.write(f"{s} {NUM[max(k - 1, 0)]}\n")
    os.symlink(os.path.join(TOOLS, "cxx"), f"{base}/bin1/" + ("my-ar" if case["ar"] else "ar"))
    os.symlink(os.path.join(TOOLS, "clang-tidy"), f"{base}/bin1/clang-tidy")
    for n in ("python3", "pkg-config", "sh", "env"):
        os.symlink(os.path.join("/usr/bin", n), f"{base}/bin1/{n}")
    for n, k in enumerate(case["pkgs"]):
        with open(os.path.join(pcs, f"vpk{n}.pc"), "w") as o:
            o.write(f"Name: vpk{n}\nDescription: x\nVersion: 1\nCflags: {' '.join(PKGFLAGS[x][0] for x in k['cf'])}\nLibs: {' '.join(['-L' + PKGDIRS[x][0] for x in k['L']] + ['-l' + PKGLIBS[x] for x in k['lib']])} -Wl,-z\n")
    # what has to happen
    usable = {c["name"] for c in comps if c["state"] == "ok"}
    pick = [choices(comps, default, ld) if ld["rev"] else {default: {None}} for ld in case["loaders"]]
    labels = set()
    hopeless = [k for k in range(3) if case["loaders"][k]["rev"] and not pick[k]]
    fault = case["fault"]
    victim = None
    tidy = [e for e in p.files if case["loaders"][e["l"]].get("tidy")]
    if fault:
        kind, n, code = fault
        may = {"compile": p.files, "run": [e for e in p.files if e["test"]], "link": p.apps, "tidy": tidy, "notidy": tidy, "pkg": [e for e in p.files + p.apps if e["pk"] and not e.get("lib")]}[kind]
        if may:
            victim = may[n % len(may)]
            if kind == "pkg":
                os.rename(os.path.join(pcs, f"vpk{victim['pk'][0]}.pc"), os.path.join(base, "hidden"))
            elif kind == "notidy":
                os.rename(f"{base}/bin1/clang-tidy", os.path.join(base, "hidden"))
            else:
                name = posixpath.basename(victim["p"] if kind != "link" else victim["t"][0])
                with open(os.path.join(ctl, FAULT_FILE[kind] + name), "w") as o:
                    o.write(code + "\n")
    seen = set()
    for attempt in ([0, 1] if victim else [1]):
        if attempt == 1 and victim:
            if fault[0] == "pkg":
                os.rename(os.path.join(base, "hidden"), os.path.join(pcs, f"vpk{victim['pk'][0]}.pc"))
            elif fault[0] == "notidy":
                os.rename(os.path.join(base, "hidden"), f"{base}/bin1/clang-tidy")
            else:
                os.unlink(os.path.join(ctl, FAULT_FILE[fault[0]] + name))
        for f in os.listdir(logs):
            os.unlink(os.path.join(logs, f))
        r = proj.must_end(proj.run_maike(cwd, args, extra=env, timeout=60, ctx=ctx))
        calls = []
        for f in sorted(os.listdir(logs)):
            with open(os.path.join(logs, f), "rb") as o:
                calls += [[a.decode() for a in x.split(b"\0")] for x in o.read().split(b"\n\0\n") if x]
        calls = [c[:-1] if c[-1] == "" else c for c in calls]
        about = {"CXX": case["cxx"], "compilers": [(c["name"], c["state"], revision(c, None), [revision(c, s) for s in STDS]) for c in comps], "loaders": [{k: v for k, v in p.config()["source_file_info_loaders"][f"cxx{n}"]["compiler"]["config"].items()} for n in range(3)],
                 "packages": case["pkgs"], "fault": case["fault"] if attempt == 0 else None}

        def wrong(text, call=None):
            raise Violation(f"{text}\n{'in the call ' + repr(call) if call else ''}\n{json.dumps(about)}\n{r.text()}")
        if hopeless:
            labels.add("no compiler fits")
            if r.rc == 0:
                wrong("the build succeeds though there is no compiler for what is asked for")
            if calls:
                wrong(f"there is no compiler for what is asked for, but tools were run: {calls}")
            break
        count = {}
        tidied = {}
        compiled = {}
        for c in calls:
            def fail(text):
                wrong(text, c)
            if c[0] == "clang-tidy":
                e = next((e for e in tidy if p.s(e["p"]) == c[1]), None)
                if e is None or e["p"] in tidied or c[2:3] != ["--"]:
                    fail("an unexpected call")
                tidied[e["p"]] = c
                labels.add("clang-tidy")
                continue
            e = next((e for e in p.files if p.s(e["p"]) in c), None)
            if e is not None:
                ok = {n: s for n, s in pick[e["l"]].items()}
                who = next((n for n in ok if posixpath.basename(n) == c[0]), None)
                if who is None:
                    fail(f"{c[0]} was used for {e['p']}, expected {sorted(ok)}")
                p.check_compile(e, c[1:], ok[who], fail)
                compiled[e["p"]] = c
                labels.add("revision " + str(case["loaders"][e["l"]]["rev"]) + (" with option" if any(a.startswith("-std=") for a in c) else ""))
                if who != default:
                    labels.add("not the default compiler")
            else:
                e = next((e for e in p.apps if p.t(e["t"][0]) == (c[c.index("-o") + 1] if "-o" in c[:-1] else c[2] if len(c) > 2 else "")), None)
                if e is None:
                    fail("an unexpected call")
                if e["lib"]:
                    want = {p.t(p.files[o]["t"][0]) for o in e["objs"]}
                    if c[0] != ("my-ar" if case["ar"] else "ar") or c[2] != p.t(e["t"][0]) or sorted(c[3:]) != sorted(want):
                        fail(f"not the call that makes {e['t'][0]} of {sorted(want)}")
                    labels.add("library")
                else:
                    own = ["-s"] + p.flags(e["fl"])
                    rest = c[1:]
                    if c[0] != posixpath.basename(default):
                        fail(f"linked with {c[0]}")
                    for a in ("-o", p.t(e["t"][0]), "-fdiagnostics-color=never"):
                        if rest.count(a) != 1:
                            fail(f"{a} is missing")
                    if rest[rest.index("-o") + 1] != p.t(e["t"][0]):
                        fail("not the right target")
                    rest = [a for a in rest if a not in ("-o", p.t(e["t"][0]), "-fdiagnostics-color=never")]
                    if not _interleaved(rest, own):
                        fail(f"the flags {own} are not given as they are")
                    p.link_items(e, rest[len(own):] if rest[:len(own)] == own else rest[:len(rest) - len(own)], fail)
                    labels.add("program")
            count[e["p"]] = count.get(e["p"], 0) + 1
            if count[e["p"]] > 1:
                fail(f"{e['p']} was processed twice")
            if attempt == 0 and e is not victim and victim in p.files and fault[0] != "run" and victim["i"] in p.closure(e)[0]:
                fail(f"{e['p']} was processed though {victim['t'][0]} could not be made")
            if attempt == 0 and e is victim and fault[0] == "pkg":
                fail("the tool was run though a package is missing")
            if attempt == 0 and (fault[0] in ("compile", "link", "tidy") and e is victim or fault[0] == "notidy" and e in tidy):
                continue
            seen.add(e["p"])
        for e in tidy:
            c = compiled.get(e["p"])
            if c is None or e["p"] not in tidied:
                if e["p"] in tidied or c is not None and not (attempt == 0 and (e is victim or fault[0] == "notidy")):
                    wrong(f"{e['p']} has been compiled, but clang-tidy was not run for it, or the other way round")
                continue
            flags = [a for k, a in enumerate(c[1:]) if a.startswith("-") and a not in ("-c", "-o") and not a.startswith(("-l", "-L"))]
            if not subsequence(flags, tidied[e["p"]][3:]):
                wrong(f"clang-tidy was not told all of {flags}", tidied[e["p"]])
        if attempt == 0:
            labels.add("fault: " + fault[0])
            if default not in usable and not any(pick):
                break
            if r.rc == 0:
                wrong(f"the build succeeds though {victim['p']} can't be processed ({fault})")
            if fault[0] == "pkg" and usable and len(usable) == len(comps) and default in usable and f"vpk{victim['pk'][0]}".encode() not in r.err:
                wrong("the missing package is not mentioned")
            if fault[0] == "run":
                seen.discard(victim["p"])
            continue
        missing = [e["p"] for e in p.files if pick[e["l"]] and not any(n in usable for n in pick[e["l"]])] + [e["p"] for e in p.apps if not e["lib"] and default not in usable]
        if missing:
            labels.add("no compiler at all")
            if r.rc == 0:
                wrong(f"the build succeeds though there is no usable compiler for {missing}")
            break
        if r.rc != 0:
            wrong("the project does not build")
        for e in p.files + p.apps:
            if e["p"] not in seen:
                wrong(f"{e['p']} was not processed")
            for t in e["t"]:
                f = os.path.join(cwd, p.t(t))
                if not os.path.isfile(f):
                    wrong(f"{f} was not made")
                with open(f, "rb") as o, open(os.path.join(cwd, p.t(e["t"][0])), "rb") as o2:
                    if o.read() != o2.read():
                        wrong(f"the targets {e['t']} are not the same")
            if e.get("test") and not victim and (a := r.out.find(f"{p.s(e['p'])}: Running ".encode())) >= 0 and a > r.out.find(f"running {posixpath.basename(e['p'])}\n".encode()):
                wrong(f"what the test {e['p']} prints comes before the message that it is run")
            if e.get("test") and f"running {posixpath.basename(e['p'])}\n".encode() not in r.out and not victim:
                wrong(f"the test {e['p']} was not run")
    revs = [ld for k, ld in enumerate(case["loaders"]) if ld["rev"] and any(f["l"] == k for f in case["files"])]
    uses = sum(bool(e["pk"]) + (e["own"] is not None) + bool(case["loaders"][e["l"]]["iq"]) for e in p.files) + sum(bool(e["pk"]) for e in p.apps)
    return Info((len(comps) >= 2 and bool(revs)) or uses >= 2, sorted(labels | {"source " + case["src"], "CXX " + str(case["cxx"])}))
