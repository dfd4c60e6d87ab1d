"""C31: documents become complete HTML, with working references."""

import html
import json
import os
import posixpath
import time
from html.parser import HTMLParser

from hypothesis import strategies as st

from vlib import proj
from vlib.runner import Info, Violation

ID = "C31"
LEVEL = "exploration"
RULE = ("generated documents (chapters, nested sections, appendix, table of contents, references, figures, tables of properties and of values, manual references, included fragments, resources) in generated places, "
        "made with the bundled recipe and the real xsltproc, then edited; the HTML is parsed and compared, element by element, with what the document says; non-trivial: at least 3 sections and one of reference, inclusion or table")
ASSUMPTIONS = ["the document uses the elements the bundled style sheet knows, as the user guide does", "no percent sign in the name of a directory (xsltproc takes it for an escape)", "references without text name elements of the same file that have a title"]
COUNT = {"quick": 300, "thorough": 8000}
CAP = {"quick": 45, "thorough": 360}
WORDS = ["word", "a & b", "<tag>", "ü", "\"quoted\"", "it's", "日本", "x=1;", "{$y}", "&amp;", "50%", "]]>", "a/b"]
LEVELS = ["chapter", "section", "subsection", "subsubsection", "paragraph"]
CONFIG = {"dir_compiler": {"recipe": "make_directory.py", "config": {}},
          "source_file_info_loaders": {
              "inc": {"loader": "generic", "compiler": {"recipe": "copy_file.py", "config": {}}},
              "doc": {"loader": "generic", "compiler": {"recipe": "doc2html.py", "config": {}, "use_get_tags": 1}, "config": {"target_filename_ext": ".html", "filename_ext_replacement_mode": "replace"}}},
          "source_tree_loader": {"file_info_loaders": {".inc": "inc", ".svg": "inc", ".css": "inc", ".doc.xml": "doc"},
                                 "input_filter": ["^\\.", "^__", "^maikeconfig", "_targets$", "^out$"], "fullpath_input_filter": [], "recursive": 1}}

words = st.lists(st.sampled_from(WORDS), min_size=1, max_size=3).map(" ".join)
inline = st.lists(st.one_of(st.tuples(st.just("t"), words), st.tuples(st.sampled_from(["code", "em", "var", "q"]), words), st.tuples(st.just("ref"), st.integers(0, 20)),
                            st.tuples(st.just("refto"), st.integers(0, 20), words), st.tuples(st.just("refem"), st.integers(0, 20), words), st.tuples(st.just("man"), st.sampled_from(["fork", "printf"]), st.integers(1, 8)),
                            st.tuples(st.just("ext"), words)), min_size=1, max_size=4)
block = st.one_of(st.tuples(st.just("p"), inline), st.tuples(st.just("p"), inline), st.tuples(st.just("pre"), st.lists(words, min_size=1, max_size=3)), st.tuples(st.just("ol"), st.lists(inline, min_size=1, max_size=3)),
                  st.tuples(st.just("figure"), st.integers(0, 3), words), st.tuples(st.just("props"), st.lists(st.tuples(words, words, inline), min_size=1, max_size=3)),
                  st.tuples(st.just("enum"), st.lists(st.tuples(words, inline), min_size=1, max_size=3)), st.tuples(st.just("include"), st.integers(0, 3)))


@st.composite
def section(draw, level):
    s = {"level": level, "title": draw(words), "blocks": draw(st.lists(block, max_size=3)), "subs": []}
    if level < 4:
        s["subs"] = draw(st.lists(section(level + 1), max_size=[2, 2, 1, 1][level]))
    return s


@st.composite
def strategy_(draw):
    frag = st.lists(st.fixed_dictionaries({"title": words, "text": inline, "deep": st.booleans(),
                                            "top": st.one_of(st.none(), st.none(), block.filter(lambda b: b[0] != "include"))}), min_size=1, max_size=2)
    return {"title": draw(words), "toc": draw(st.booleans()), "intro": draw(st.lists(inline, max_size=1)), "css": draw(st.booleans()),
            "main": draw(st.lists(section(0), min_size=1, max_size=3)), "app": draw(st.one_of(st.none(), st.lists(section(0), min_size=1, max_size=2))),
            "frags": draw(st.lists(frag, min_size=4, max_size=4)), "again": draw(frag), "edit": draw(st.sampled_from([None, "frag", "doc", "bad"])),
            "dir": draw(st.sampled_from(["", "doc", "a b", "ü/d", "x#y", "q?z", "c:d"])), "src": draw(st.sampled_from([".", ".", "sub", "abs"])), "tgt": draw(st.sampled_from([None, None, "out", "abs"]))}


def strategy(tier):
    return strategy_()


def setup(tier):
    proj.setup("opt")


def esc(s):
    return html.escape(s, quote=True)


class Doc:
    """writes the document and the tree expected of it: (tag, {attribute: value}, [text or tree])"""

    def __init__(self, case, frags):
        self.case, self.frags = case, frags
        self.all = []
        self.in_fragment = False
        self.used = set()
        self.kinds = set()

        def number(s):
            s["id"] = f"s{len(self.all)}"
            self.all.append(s)
            for x in s["subs"]:
                number(x)
        for s in case["main"] + (case["app"] or []):
            number(s)

    def inline(self, x):
        a, b = [], []
        for e in x:
            if e[0] == "ref" and self.in_fragment:      # titles are looked up in the same file
                e = ["t", "word"]
            if e[0] == "t":
                a.append(esc(e[1]))
                b.append(e[1])
            elif e[0] == "ref" or e[0] == "refto":
                t = self.all[e[1] % len(self.all)]
                body = "" if e[0] == "ref" else esc(e[2])
                a.append(f'<ref item="{t["id"]}">{body}</ref>' if body else f'<ref item="{t["id"]}"/>')
                b.append(("a", {"href": "#" + t["id"]}, [e[2] if e[0] == "refto" else t["title"]]))
                self.kinds.add("reference")
            elif e[0] == "refem":
                t = self.all[e[1] % len(self.all)]
                a.append(f'<ref item="{t["id"]}"><em>{esc(e[2])}</em></ref>')
                b.append(("a", {"href": "#" + t["id"]}, [("em", {}, [e[2]])]))
            elif e[0] == "man":
                a.append(f'<manpage name="{e[1]}" section="{e[2]}"/>')
                b.append(("a", {"href": f"https://linux.die.net/man/{e[2]}/{e[1]}"}, [("code", {}, [e[1]]), f"({e[2]})"]))
                self.kinds.add("manual")
            elif e[0] == "ext":
                a.append(f'<a href="https://example.org/x">{esc(e[1])}</a>')
                b.append(("a", {"href": "https://example.org/x"}, [e[1]]))
            else:
                a.append(f"<{e[0]}>{esc(e[1])}</{e[0]}>")
                b.append((e[0], {}, [e[1]]))
            a.append(" ")
        return "".join(a), b

    def fragment(self, k):
        out = []
        self.in_fragment = True
        for n, s in enumerate(self.frags[k]):
            t, _ = self.inline(s["text"])
            inner = f'<section title="Deep" id="d{k}_{n}"><p>deep</p></section>' if s["deep"] else ""
            if s["top"]:
                out.append(self.block(s["top"], False)[0])
            out.append(f'<section id="f{k}_{n}" title="{esc(s["title"])}"><p>{t}</p>{inner}</section>')
        self.in_fragment = False
        return "<content>" + "\n".join(out) + "</content>"

    def fragment_tree(self, k, app):
        out = []
        self.in_fragment = True
        for n, s in enumerate(self.frags[k]):
            _, t = self.inline(s["text"])
            if s["top"]:
                out += self.block(s["top"], app)[1]
            body = [("h1", {}, [s["title"]]), ("p", {}, t)]
            if s["deep"]:
                body.append(("section", {"class": "section", "id": f"d{k}_{n}"}, [("h1", {}, ["Deep"]), ("p", {}, ["deep"])]))
            out.append(("section", {"class": "section_appendix" if app else "section", "id": f"f{k}_{n}"}, body))
        self.in_fragment = False
        return out

    def block(self, e, app):
        k = e[0]
        if k == "p":
            t, x = self.inline(e[1])
            return f"<p>{t}</p>", [("p", {}, x)]
        if k == "pre":
            s = "\n  ".join(e[1])
            return f'<pre class="sourceCode">{esc(s)}</pre>', [("pre", {"class": "sourceCode"}, [s])]
        if k == "ol":
            parts = [self.inline(x) for x in e[1]]
            return "<ol>" + "".join(f"<li>{t}</li>" for t, _ in parts) + "</ol>", [("ol", {}, [("li", {}, x) for _, x in parts])]
        if k == "figure":
            return f'<figure><img src="./i{e[1]}.svg"/><caption>{esc(e[2])}</caption></figure>', [("figure", {}, [("img", {"src": f"./i{e[1]}.svg"}, []), ("figcaption", {}, [e[2]])])]
        if k == "props":
            self.kinds.add("table")
            a, b = "", [("tr", {}, [("th", {}, ["Name"]), ("th", {}, ["Type"]), ("th", {}, ["Description"])])]
            for name, typ, d in e[1]:
                t, x = self.inline(d)
                a += f'<property name="{esc(name)}"><type>{esc(typ)}</type><desc>{t}</desc></property>'
                b.append(("tr", {}, [("td", {"class": "propname"}, [name]), ("td", {"class": "proptype"}, [("type", {}, [typ])]), ("td", {"class": "propdesc"}, [("desc", {}, x)])]))
            return f"<property-list>{a}</property-list>", [("table", {"class": "proplist"}, b)]
        if k == "enum":
            self.kinds.add("table")
            a, b = "", [("tr", {}, [("th", {}, ["Value"]), ("th", {}, ["Description"])])]
            for name, d in e[1]:
                t, x = self.inline(d)
                a += f'<item name="{esc(name)}">{t}</item>'
                b.append(("tr", {}, [("td", {"class": "propname"}, [name]), ("td", {"class": "propdesc"}, x)]))
            return f"<enum>{a}</enum>", [("table", {"class": "enum"}, b)]
        self.kinds.add("inclusion")
        self.used.add(e[1])
        return f'<include src="./g{e[1]}.inc"/>', self.fragment_tree(e[1], app)

    def section(self, s, app):
        name = LEVELS[s["level"]]
        a, b = "", [("h1", {}, [s["title"]])]
        for e in s["blocks"]:
            x, y = self.block(e, app)
            a += "\n\t" + x
            b += y
        for u in s["subs"]:
            x, y = self.section(u, app)
            a += "\n" + x
            b.append(y)
        return f'<{name} title="{esc(s["title"])}" id="{s["id"]}">{a}\n</{name}>', ("section", {"class": name + ("_appendix" if app else ""), "id": s["id"]}, b)

    def toc(self, s):
        link = ("a", {"href": "#" + s["id"]}, [s["title"]])
        if s["level"] == 2:
            return ("li", {}, [link])
        return ("li", {}, [link, ("ol", {}, [self.toc(u) for u in s["subs"]])])

    def whole(self):
        c = self.case
        head = [("title", {}, [c["title"]])]
        a = f'<?xml version="1.0"?>\n<document title="{esc(c["title"])}">\n<resources>'
        if c["css"]:
            a += '<link rel="stylesheet" href="./style.css"/>'
            head.append(("link", {"rel": "stylesheet", "href": "./style.css"}, []))
        body = [("h1", {}, [c["title"]])]
        a += "</resources>\n<prelims>"
        for x in c["intro"]:
            t, y = self.inline(x)
            a += f"<p>{t}</p>"
            body.append(("p", {}, y))
        if c["toc"]:
            a += "<tableofcontents/>"
            body.append(("nav", {"id": "toc"}, [("h1", {}, ["Table of contents"]), ("ol", {"class": "main"}, [self.toc(s) for s in c["main"]])]
                         + ([("ol", {"class": "appendix"}, [self.toc(s) for s in c["app"]])] if c["app"] else [])))
            self.kinds.add("contents")
        a += "</prelims>\n<main>"
        for s in c["main"]:
            x, y = self.section(s, False)
            a += x
            body.append(y)
        a += "</main>\n"
        if c["app"]:
            a += "<appendix>"
            for s in c["app"]:
                x, y = self.section(s, True)
                a += x
                body.append(y)
            a += "</appendix>"
        return a + "</document>\n", ("html", {}, [("head", {}, head), ("body", {}, body)])


VOID = {"img", "link", "meta", "br"}


class Reader(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.top = ("top", {}, [])
        self.stack = [self.top]

    def handle_starttag(self, tag, attrs):
        if tag == "meta":
            return
        e = (tag, {k: v for k, v in attrs if not k.startswith("xmlns")}, [])
        self.stack[-1][2].append(e)
        if tag not in VOID:
            self.stack.append(e)

    def handle_startendtag(self, tag, attrs):
        self.handle_starttag(tag, attrs)
        if tag not in VOID and tag != "meta":
            self.handle_endtag(tag)

    def handle_endtag(self, tag):
        if tag in VOID or tag == "meta":
            return
        if self.stack[-1][0] != tag:
            raise ValueError(f"</{tag}> inside <{self.stack[-1][0]}>")
        self.stack.pop()

    def handle_data(self, data):
        self.stack[-1][2].append(data)


def normal(t):
    out = []
    text = ""
    for x in list(t[2]) + [None]:
        if isinstance(x, str):
            text += (" " if text else "") + x if t[0] != "pre" else x
            continue
        s = text if t[0] == "pre" else " ".join(text.split())
        if s:
            out.append(s)
        text = ""
        if x is not None:
            out.append(normal(x))
    return (t[0], t[1], out)


def difference(a, b, where=""):
    """the first difference of two trees"""
    if isinstance(a, str) or isinstance(b, str) or a[:2] != b[:2]:
        if a == b:
            return None
        return f"at {where or '/'}: {str(a)[:300]} instead of {str(b)[:300]}"
    for k in range(max(len(a[2]), len(b[2]))):
        here = f"{where}/{a[0]}"
        if k >= len(a[2]):
            return f"at {here}: {str(b[2][k])[:300]} is missing"
        if k >= len(b[2]):
            return f"at {here}: unexpected {str(a[2][k])[:300]}"
        d = difference(a[2][k], b[2][k], here)
        if d:
            return d
    return None


def run_case(case, ctx):
    base = ctx.scratch()
    cwd = os.path.join(base, "w")
    os.makedirs(cwd)
    src = {"abs": os.path.join(base, "s r c")}.get(case["src"], case["src"])
    top = os.path.join(cwd, src)
    args = ["--num-workers=2"]
    if case["src"] != ".":
        args.append("--source-dir=" + src)
    tgt = {None: "__targets" if case["src"] == "." else posixpath.basename(src) + "_targets", "out": "out", "abs": os.path.join(base, "t")}[case["tgt"]]
    if case["tgt"]:
        args.append("--target-dir=" + tgt)
    here = os.path.join(top, case["dir"])
    os.makedirs(here, exist_ok=True)
    with open(os.path.join(top, "maikeconfig.json"), "w") as f:
        json.dump({"maikeconfig": CONFIG}, f)
    frags = list(case["frags"])

    def put(name, s):
        with open(os.path.join(here, name), "w", encoding="utf-8") as f:
            f.write(s)
    d = Doc(case, frags)
    text, want = d.whole()
    for k in range(4):
        put(f"g{k}.inc", d.fragment(k))
        put(f"i{k}.svg", f"<svg>{k}</svg>\n")
    put("style.css", "x{}\n")
    put("guide.doc.xml", text)
    labels = set(d.kinds)
    out = os.path.join(cwd, tgt, case["dir"], "guide.doc.html")

    def look(what):
        r = proj.must_succeed(proj.run_maike(cwd, args, timeout=60, ctx=ctx), f"a project with a document ({what})")
        with open(out, encoding="utf-8") as f:
            s = f.read()
        p = Reader()
        try:
            p.feed(s)
            p.close()
        except ValueError as e:
            raise Violation(f"{what}: the HTML is not well-formed: {e}\n{s}")
        got = [x for x in p.top[2] if not isinstance(x, str)]
        if len(got) != 1 or not s.lower().startswith("<!doctype html>"):
            raise Violation(f"{what}: not an HTML page: {s}")
        diff = difference(normal(got[0]), normal(want))
        if diff:
            raise Violation(f"{what}: {diff}\nthe document:\n{text}\nthe page:\n{s}\n{r.text()}")
        ids = []

        def walk(e):
            if not isinstance(e, str):
                if e[1].get("id"):
                    ids.append(e[1]["id"])
                for x in e[2]:
                    walk(x)
        walk(got[0])
        for e in d.all:
            if ids.count(e["id"]) != 1:
                raise Violation(f"{what}: {ids.count(e['id'])} elements have the id {e['id']}\n{s}")
    look("the first build")
    if case["edit"] == "bad":
        if d.used:
            labels.add("damaged fragment")
            time.sleep(0.02)
            k = min(d.used)
            old = os.stat(out).st_mtime_ns
            put(f"g{k}.inc", d.fragment(k)[:-1 - 9 * (case["toc"])])
            r = proj.must_end(proj.run_maike(cwd, args, timeout=60, ctx=ctx))
            if r.rc == 0 or not r.err:
                raise Violation(f"an included file is damaged, but the build succeeds\n{r.text()}")
            if os.path.exists(out) and os.stat(out).st_mtime_ns != old:
                raise Violation(f"an included file is damaged, but the page was made\n{r.text()}")
            time.sleep(0.02)
            put(f"g{k}.inc", d.fragment(k))
            look("after a repair")
    elif case["edit"]:
        time.sleep(0.02)
        if case["edit"] == "frag":
            k = min(d.used) if d.used else 0
            frags[k] = case["again"]
        else:
            case = dict(case, title="New " + case["title"], toc=not case["toc"], app=None if case["app"] else case["app"])
            if not case["app"]:
                # references must not lead to what is gone
                case["app"] = d.case["app"]
        d = Doc(case, frags)
        text, want = d.whole()
        if case["edit"] == "frag":
            put(f"g{k}.inc", d.fragment(k))
        else:
            put("guide.doc.xml", text)
        labels.add("edit of " + case["edit"])
        look(f"after an edit of {case['edit']}")
    return Info(len(d.all) >= 3 and bool(d.kinds & {"reference", "inclusion", "table"}), sorted(labels | {"source " + case["src"]}))
