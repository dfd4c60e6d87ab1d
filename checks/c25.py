"""C25: the bundled recipes for files run the configured tool, and fail if it does."""

import hashlib
import json
import os
import posixpath
import time
import urllib.parse
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from vlib import proj
from vlib.build import VERIF
from vlib.runner import Info, Violation

ID = "C25"
LEVEL = "exploration"
RULE = ("generated projects of files handled by the bundled recipes generic, copy_file, md2htmlpart, doc2html and sass2css, with generated command templates, dependencies between the files and layouts, "
        "built over rounds of edits and of faults (a tool that exits with a status, dies or does not exist, a bad template, damaged input), with stand-ins for the tools that record their arguments; "
        "arguments, number of invocations, contents of the targets, and the outcome of each build are compared with a reference; non-trivial: at least 4 files, 3 of the recipes, and an edit or a fault")
ASSUMPTIONS = ["the tools are stand-ins (harness/tools)", "a tool of the project is only used if the source directory is the working directory", "headings are plain text", "a failing tool writes nothing"]
COUNT = {"quick": 400, "thorough": 6000}
CAP = {"quick": 60, "thorough": 480}
TOOLS = os.path.join(VERIF, "harness/tools")

DIRS = ["", "a", "a/b", "c d", "ü"]
EXTS = [".ga", ".ga", ".gb", ".gb.ga", ".bin", ".ap", ".rp", ".md", ".doc.xml", ".sass"]
TEMPL = ["$$x", "a b", "", "ü", "-x=$source_file", "${target}:${source_file}", "*", "\"", "'", "$$target", "-o", "\\", "x$$y", "--a=b,c", "$source_file$target", "{}", "%s"]
FAULTS = [["exit", 1], ["exit", 2], ["exit", 255], ["signal", 9], ["signal", 15], ["exit", 100]]


def setup(tier):
    proj.setup("opt")


@st.composite
def strategy_(draw):
    files = []
    for i in range(draw(st.integers(2, 12))):
        files.append({"d": draw(st.sampled_from(DIRS)), "e": draw(st.sampled_from(EXTS)), "dot": draw(st.integers(0, 5)) == 5, "deps": draw(st.lists(st.tuples(st.integers(0, 20), st.booleans(), st.booleans()), max_size=draw(st.sampled_from([0, 1, 3])))),
                      "v": draw(st.integers(0, 99)), "shape": draw(st.lists(st.integers(0, 3), max_size=5))})
    cmds = [{"ext": draw(st.sampled_from(["out", "x.y", "h", "ü"])), "args": draw(st.lists(st.sampled_from(TEMPL), max_size=4)), "at": draw(st.integers(0, 4)), "own": draw(st.booleans())} for _ in range(3)]
    rounds = []
    for _ in range(draw(st.integers(0, 3))):
        rounds.append({"edits": draw(st.lists(st.integers(0, 20), max_size=3)), "tool": draw(st.integers(0, 3)) == 3,
                       "faults": draw(st.lists(st.tuples(st.integers(0, 20), st.sampled_from(FAULTS)), max_size=draw(st.sampled_from([0, 1, 1, 2])))),
                       "kind": draw(st.sampled_from(["tool", "tool", "input", "template", "nocmd"]))})
    return {"files": files, "cmds": cmds, "rounds": rounds, "src": draw(st.sampled_from([".", ".", "sub", "abs"])), "tgt": draw(st.sampled_from([None, None, "out", "abs"])), "workers": draw(st.sampled_from([1, 4]))}


def strategy(tier):
    return strategy_()


def sections(shape, v, keep):
    """(input, expected output) of a document with nested sections"""
    a = b = f"<p>intro {v}</p>"
    for k, n in enumerate(shape):
        # the title holds the text of the heading, without markup
        title, heading = [("Title", "Title"), ("Two words", "Two <em>words</em>"), ("A &amp; B", "A &amp; B"), ("ü &lt;x&gt; y", "<code>ü <b>&lt;x&gt;</b></code> y")][(n + (v % 3 == 0) * k) % 4]
        inner_a = inner_b = f"<p>text <em>{k}</em> {v}</p>"
        if n == 2:
            inner_a += f'<section id="in{k}" class="level2 x"><h2>Inner {k}</h2><p>p</p></section>'
            inner_b += f'<section id="in{k}" title="Inner {k}"><p>p</p></section>'
        if n == 3:
            inner_a += "<h3>not the first</h3>"
            inner_b += "<h3>not the first</h3>"
        a += f'<section id="s{k}" class="level1"><h1>{heading}</h1>{inner_a}</section>'
        b += f'<section id="s{k}" title="{title}">{inner_b}</section>'
    return a, "<content>" + b + "</content>"


class Files:
    def __init__(self, case, src, tgt):
        self.case, self.src, self.tgt = case, src, tgt
        self.els = []
        names = set()
        for f in case["files"]:
            p = posixpath.join(f["d"], f"f{len(self.els)}" + (".dot" if f["dot"] else "") + f["e"])
            names.add(p)
            self.els.append(dict(f, p=p, i=len(self.els), bad=False))

    def loader(self, e):
        return {".ga": 0, ".gb": 1, ".gb.ga": 2}.get(e["e"])

    def target(self, e):
        base = posixpath.basename(e["p"])
        k = self.loader(e)
        if k is not None:
            base += "." + self.case["cmds"][k]["ext"]
        elif e["e"] == ".ap":
            base += ".copy"
        else:
            to = {".bin": None, ".rp": ".rep", ".md": ".xml", ".doc.xml": ".html", ".sass": ".css"}[e["e"]]
            if to:
                base = posixpath.splitext(base)[0] + to
        return posixpath.join(e["d"], base)

    def full(self, e):
        return posixpath.normpath(posixpath.join(self.src, e["p"]))

    def full_target(self, e):
        return posixpath.normpath(posixpath.join(self.tgt, self.target(e)))

    def deps(self, e):
        """[(element, whether its target is meant, whether written relative)], of those that can have any"""
        if self.loader(e) is None and e["e"] != ".doc.xml":
            return []
        ret = {}
        for k, gen, rel in e["deps"]:
            if e["i"]:
                o = self.els[k % e["i"]]
                ret.setdefault((o["i"], gen or e["e"] == ".doc.xml"), (o, gen or e["e"] == ".doc.xml", rel))
        return list(ret.values())

    def ref(self, e, o, gen, rel):
        p = self.target(o) if gen else o["p"]
        return "./" + posixpath.relpath(p, e["d"] or ".") if rel else p

    def content(self, e):
        v = e["v"]
        refs = [(self.ref(e, o, g, r), g) for o, g, r in self.deps(e)]
        if self.loader(e) is not None:
            tags = "".join("#@ " + x + "\n" for x in json.dumps({"dependencies": [{"ref": r, "origin": "generated" if g else "project"} for r, g in refs]}, indent=1, ensure_ascii=False).split("\n")) if refs else ""
            return (tags + f"data {v}\n" + "line\n" * v).encode()
        if e["e"] == ".md":
            return ((sections(e["shape"], v, True)[0]) + ("<p>" if e["bad"] else "")).encode()
        if e["e"] == ".doc.xml":
            # some elements have both a source and a reference
            pairs = [(refs[0][0], refs[1][0])] if len(refs) > 1 and v % 2 else []
            body = "".join(f'<x src="{r}" href="{q}"/>' for r, q in pairs)
            body += "".join(f'<img src="{r}"/>' if k % 2 else f'<a href="{r}"><b>x</b></a>' for k, (r, g) in enumerate(refs[2 * len(pairs):]))
            return f'<?xml version="1.0"?>\n<doc><a href="https://example.org/x">{v}</a>{body}{"<b>" if e["bad"] else ""}</doc>\n'.encode()
        if e["e"] == ".sass":
            return f"{'!!bad ' if e['bad'] else ''}a\n  color: {v}\n".encode()
        return bytes((x * x * 7 + x + v) % 256 for x in range(v * 701 if v % 3 == 0 else v))

    def command(self, k):
        """templates"""
        c = self.case["cmds"][k]
        t = list(c["args"])
        t.insert(c["at"] % (len(t) + 1), "in=$source_file")
        t.insert((c["at"] + 1) % (len(t) + 1), "out=${target}")
        return t

    def own_tool(self, k):
        return self.case["cmds"][k]["own"] and self.src == "."

    def invocation(self, e):
        s, t = self.full(e), self.full_target(e)
        k = self.loader(e)
        if k is not None:
            return ["vtool"] + [x.replace("$$", "\0").replace("${source_file}", s).replace("$source_file", s).replace("${target}", t).replace("$target", t).replace("\0", "$") for x in self.command(k)]
        if e["e"] == ".md":
            return ["pandoc", "-f", "markdown", "-t", "html", "--section-divs", s]
        if e["e"] == ".doc.xml":
            return ["xsltproc", "-o", t, "--nonet", "--stringparam", "current_dir", posixpath.normpath(posixpath.join(self.tgt, e["d"])), "-", s]
        if e["e"] == ".sass":
            return ["sass", self.content(e).decode()]
        return None

    def result(self, e):
        c = self.content(e)
        if self.loader(e) is not None:
            return b"made from " + c
        if e["e"] == ".md":
            return sections(e["shape"], e["v"], True)[1].encode()
        if e["e"] == ".doc.xml":
            with open(os.path.join(proj.recipe_dir(), "doc2html.xsl"), "rb") as f:
                h = hashlib.sha1(f.read()).hexdigest()
            return f"{h} current_dir={posixpath.normpath(posixpath.join(self.tgt, e['d']))}\n".encode() + c
        if e["e"] == ".sass":
            return b"/* css */ " + c
        return c

    def config(self, damage=None):
        ld = {}
        for k, c in enumerate(self.case["cmds"]):
            args = self.command(k)
            exe = "tools/vtool" if self.own_tool(k) else "vtool"
            if damage == ("template", k):
                args = args + ["$nosuch"]
            if damage == ("nocmd", k):
                exe = "no-such-tool"
            ld[f"g{k}"] = {"loader": "extension", "compiler": {"recipe": "generic.py", "use_get_tags": 1, "config": {
                "target_filename_ext": c["ext"], "compilation_cmd": {"executable": exe, "exec_origin": "project" if exe == "tools/vtool" else "system", "args": args}}}}
        for name, to, mode in [("ap", ".copy", "append"), ("rp", ".rep", "replace")]:
            ld[name] = {"loader": "generic", "compiler": {"recipe": "copy_file.py", "config": {}}, "config": {"target_filename_ext": to, "filename_ext_replacement_mode": mode}}
        ld["bin"] = {"loader": "generic", "compiler": {"recipe": "copy_file.py", "config": {}}}
        ld["md"] = {"loader": "generic", "compiler": {"recipe": "md2htmlpart.py", "config": {}}, "config": {"target_filename_ext": ".xml", "filename_ext_replacement_mode": "replace"}}
        ld["doc"] = {"loader": "generic", "compiler": {"recipe": "doc2html.py", "config": {}, "use_get_tags": 1}, "config": {"target_filename_ext": ".html", "filename_ext_replacement_mode": "replace"}}
        ld["sass"] = {"loader": "generic", "compiler": {"recipe": "sass2css.py", "config": {}}, "config": {"target_filename_ext": ".css", "filename_ext_replacement_mode": "replace"}}
        return {"dir_compiler": {"recipe": "make_directory.py", "config": {}}, "source_file_info_loaders": ld,
                "source_tree_loader": {"file_info_loaders": {".ga": "g0", ".gb": "g1", ".gb.ga": "g2", ".bin": "bin", ".ap": "ap", ".rp": "rp", ".md": "md", ".doc.xml": "doc", ".sass": "sass"},
                                       "input_filter": ["^\\.", "^__", "^maikeconfig", "^out$", "_targets$"], "fullpath_input_filter": [], "recursive": 1}}


def mtime(path):
    return os.stat(path).st_mtime_ns if os.path.exists(path) else None


def run_case(case, ctx):
    base = ctx.scratch()
    cwd = os.path.join(base, "w")
    ctl = os.path.join(base, "ctl")
    log = os.path.join(base, "log")
    os.makedirs(cwd)
    os.makedirs(ctl)
    src = {"abs": os.path.join(base, "s r c")}.get(case["src"], case["src"])
    args = [f"--num-workers={case['workers']}"]
    if case["src"] != ".":
        args.append("--source-dir=" + src)
    tgt = {None: "__targets" if case["src"] == "." else posixpath.basename(src) + "_targets", "out": "out", "abs": os.path.join(base, "t")}[case["tgt"]]
    if case["tgt"]:
        args.append("--target-dir=" + tgt)
    top = os.path.join(cwd, src)
    p = Files(case, src, tgt)
    env = {"PATH": TOOLS + ":/usr/local/bin:/usr/bin:/bin", "PYTHONPATH": TOOLS, "VT_LOG": log, "VT_CTL": ctl}
    users = {}

    def put(e):
        f = os.path.join(top, e["p"])
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "wb") as o:
            o.write(p.content(e))

    def configure(damage=None):
        with open(os.path.join(top, "maikeconfig.json"), "w") as o:
            json.dump({"maikeconfig": p.config(damage)}, o)

    def put_tool():
        os.makedirs(os.path.join(top, "tools"), exist_ok=True)
        with open(os.path.join(TOOLS, "vtool"), "rb") as f, open(os.path.join(top, "tools/vtool"), "wb") as o:
            o.write(f.read())
        os.chmod(os.path.join(top, "tools/vtool"), 0o755)

    for e in p.els:
        put(e)
        for o, g, r in p.deps(e):
            users.setdefault(o["i"], []).append((e["i"], g))
    configure()
    put_tool()
    pending = {e["i"] for e in p.els}

    def spoil(i):
        """what has to be made again after an edit of file i"""
        todo = [i]
        while todo:
            k = todo.pop()
            if k in pending and k != i:
                continue
            pending.add(k)
            todo += [u for u, g in users.get(k, [])]

    labels = set()
    history = []
    for rnd in [None] + case["rounds"] + [None]:
        bad = {}
        whole = False      # nothing can be made
        if rnd is not None:
            time.sleep(0.02)
            for n in rnd["edits"]:
                e = p.els[n % len(p.els)]
                e["v"] = (e["v"] + 1) % 100
                put(e)
                spoil(e["i"])
                labels.add("edit")
            if rnd["tool"]:
                put_tool()
                for e in p.els:
                    if p.loader(e) is not None and p.own_tool(p.loader(e)):
                        spoil(e["i"])
                        labels.add("tool edited")
            damage = None
            for n, (how, code) in rnd["faults"]:
                kind = rnd["kind"]
                may = [e for e in p.els if {"input": e["e"] in (".md", ".doc.xml", ".sass"), "tool": p.loader(e) is not None or e["e"] in (".md", ".doc.xml")}.get(kind, p.loader(e) is not None)]
                if not may:
                    continue
                e = may[n % len(may)]
                k = p.loader(e)
                if kind in ("template", "nocmd") and not bad:
                    damage = (kind, k)
                    for x in p.els:
                        if p.loader(x) == k:
                            bad[x["i"]] = kind
                elif kind == "input":
                    e["bad"] = True
                    put(e)
                    spoil(e["i"])
                    bad[e["i"]] = "input" + e["e"]
                    whole = whole or e["e"] == ".doc.xml"
                elif kind == "tool":
                    with open(os.path.join(ctl, os.path.basename(e["p"])), "w") as o:
                        o.write(f"{how} {code}\n")
                    if e["i"] not in pending:
                        e["v"] = (e["v"] + 1) % 100
                        put(e)
                        spoil(e["i"])
                    bad[e["i"]] = f"{how} {code}"
            configure(damage)
        bad = {i: w for i, w in bad.items() if i in pending}
        if os.path.exists(log):
            os.unlink(log)
        history.append({"edits and faults": rnd, "must fail": sorted((p.els[i]["p"], w) for i, w in bad.items())})

        def wrong(text):
            raise Violation(f"{text}\nafter {history}\n{r.text()}")
        old = {i: mtime(os.path.join(cwd, p.full_target(p.els[i]))) for i in bad}
        r = proj.must_end(proj.run_maike(cwd, args, extra=env, timeout=60, ctx=ctx))
        calls = []
        if os.path.exists(log):
            with open(log, "rb") as f:
                calls = [[a.decode() for a in x.split(b"\0")] for x in f.read().split(b"\n\0\n") if x]
        for c in calls:
            if c[0] == "xsltproc":
                c[c.index("current_dir") + 1] = posixpath.normpath(urllib.parse.unquote(c[c.index("current_dir") + 1]))
        made = {e["i"] for e in p.els if p.invocation(e) in calls}
        known = [p.invocation(e) for e in p.els]
        for c in calls:
            if c not in known:
                wrong(f"a tool was run with {c}, which is none of {known}")
        if whole and calls:
            wrong(f"damaged input, but tools were run: {calls}")
        for e in p.els:
            inv = p.invocation(e)
            if inv is not None and inv[0] != "sass":
                if calls.count(inv) > 1:
                    wrong(f"the tool for {e['p']} was run {calls.count(inv)} times")
                if e["i"] not in pending and inv in calls:
                    wrong(f"the tool for {e['p']} was run without need")
            if inv is not None and inv in calls and inv[0] != "sass" and any(g for o, g, _ in p.deps(e) if o["i"] in bad):
                wrong(f"the tool for {e['p']} was run, though what it needs could not be made")
        if bad:
            labels |= set(bad.values())
            if r.rc == 0:
                wrong(f"the build succeeds though these can't be made: {[(p.els[i]['p'], w) for i, w in bad.items()]}")
            for i in bad:
                f = os.path.join(cwd, p.full_target(p.els[i]))
                if mtime(f) != old[i]:
                    wrong(f"{f} was made, though that must fail")
            if len(set(bad.values())) == 1:
                w = next(iter(bad.values()))
                text = r.err.decode(errors="replace")
                word = "gives up" if w.split()[0] in ("exit", "signal") or w == "input.sass" else {"template": "nosuch", "nocmd": "no-such-tool"}.get(w, "ParseError")
                if word not in text:
                    wrong(f"stderr does not tell what went wrong ({w}): no {word!r}")
            # repair
            for e in p.els:
                if e["bad"]:
                    e["bad"] = False
                    time.sleep(0.02)
                    put(e)
                    spoil(e["i"])
            for n in os.listdir(ctl):
                os.unlink(os.path.join(ctl, n))
            pending -= {i for i in made if i not in bad}
            configure()
            continue
        if r.rc != 0:
            wrong("the project does not build")
        for e in p.els:
            inv = p.invocation(e)
            if inv is not None and inv[0] != "sass" and e["i"] in pending and inv not in calls:
                wrong(f"{e['p']} has to be made, but its tool was not run with {inv}")
            f = os.path.join(cwd, p.full_target(e))
            if not os.path.isfile(f):
                wrong(f"the target {f} of {e['p']} is missing")
            with open(f, "rb") as o:
                got = o.read()
            want = p.result(e)
            if e["e"] == ".md":
                same = ET.canonicalize(got.decode()) == ET.canonicalize(want.decode())
            elif e["e"] == ".doc.xml":
                a, b = got.split(b"\n", 1) if b"\n" in got else (got, b"")
                x, y = a.decode().split("=", 1) if b"=" in a else (a.decode(), "")
                same = f"{x}={posixpath.normpath(urllib.parse.unquote(y))}\n".encode() + b == want
            else:
                same = got == want
            if not same:
                wrong(f"the target {f} of {e['p']} has the content {got[:300]!r}, expected {want[:300]!r}")
        have = {os.path.join(d, n) for d, _, ns in os.walk(os.path.join(cwd, tgt)) for n in ns}
        extra = have - {os.path.join(cwd, p.full_target(e)) for e in p.els}
        if extra:
            wrong(f"unexpected files {sorted(extra)}")
        for e in p.els:
            if p.loader(e) is not None and e["i"] in pending and f"vtool says {' '.join(p.invocation(e)[1:])}\n".encode() not in r.out:
                wrong(f"what the tool for {e['p']} prints does not appear")
        pending = set()
    kinds = {"generic" if p.loader(e) is not None else "copy" if e["e"] in (".bin", ".ap", ".rp") else e["e"] for e in p.els}
    return Info(len(p.els) >= 4 and len(kinds) >= 3 and bool(labels), sorted(labels | {"recipe " + k for k in kinds} | {"source " + case["src"]}))
