"""C30: the manual and the help pages made with the project tell what the program says."""

import datetime
import json
import os
import posixpath
import re
import shutil
import time
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from vlib import proj
from vlib.build import REPO, VERIF
from vlib.runner import Info, Violation

ID = "C30"
LEVEL = "exploration"
RULE = ("the scripts that make the project's own manual and help pages, with a stand-in for the program that prints generated texts, generated facts about the project, places and start times, "
        "built over rounds of edits and failures of the program or of pandoc (a stand-in); each page is compared with the texts and facts of the moment it had to be made; non-trivial: an edit or a failure")
ASSUMPTIONS = ["pandoc is a stand-in (harness/doctools)", "a failing tool writes nothing", "the help text has no line that looks like a heading of first order"]
COUNT = {"quick": 200, "thorough": 4000}
CAP = {"quick": 50, "thorough": 420}
TOOLS = os.path.join(VERIF, "harness/doctools")
CONFIG = {"dir_compiler": {"recipe": "make_directory.py", "config": {}},
          "source_file_info_loaders": {"extension": {"loader": "extension", "compiler": {"recipe": "", "config": {}}}},
          "source_tree_loader": {"file_info_loaders": {".py": "extension"}, "input_filter": ["^\\.", "^__", "^maikeconfig", "_targets$", "^out$"],
                                 "fullpath_input_filter": [], "recursive": 1}}
WORDS = ["--help", "--targets=*list*", "**x**", "a--b", "---", "-", "-- ", "$opts", "${date}", "$$", "ü", "<b>", "&amp;", "\"q\"", "it's", "#x", "50%", "%s", "{0}", "`c`", "word", "日本", "a\tb"]
text = st.lists(st.one_of(st.sampled_from(WORDS), st.sampled_from(["\n", "\n\n", "\n## Part\n"])), min_size=1, max_size=12).map(lambda x: "x " + " ".join(x) + "\n")
line = st.lists(st.sampled_from(WORDS), min_size=1, max_size=4).map(lambda x: "y " + " ".join(x))
VALUES = st.recursive(st.one_of(st.integers(-9, 9), st.text(max_size=6), line), lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(st.text(max_size=5), c, max_size=3)), max_leaves=6)
info = st.fixed_dictionaries({
    "description": st.lists(line, min_size=1, max_size=3),
    "copyright": st.lists(st.fixed_dictionaries({"author": st.sampled_from(["Bo Ek", "Åsa Ö", "al", "Zed", "\"X\" Y", "A. & B.", "李"]), "years": st.lists(st.integers(1990, 2040), min_size=1, max_size=5, unique=True)}),
                          min_size=1, max_size=4, unique_by=lambda x: x["author"]),
    "license": line})
FAULTS = [["exit", 1], ["exit", 2], ["exit", 255], ["exit", 64], ["signal", 9], ["signal", 15], ["signal", 11]]
VICTIMS = ["help", "config", "pandoc.html", "pandoc.man"]


def setup(tier):
    proj.setup("opt")


@st.composite
def strategy_(draw):
    rounds = []
    for _ in range(draw(st.integers(0, 3))):
        rounds.append({"edit": draw(st.sampled_from([None, "help", "config", "info", "all"])), "help": draw(text), "config": draw(VALUES), "info": draw(info),
                       "fault": draw(st.one_of(st.none(), st.tuples(st.sampled_from(VICTIMS), st.sampled_from(FAULTS))))})
    return {"help": draw(text), "config": draw(VALUES), "info": draw(info), "rounds": rounds, "doc": draw(st.sampled_from(["doc", "doc", "a/b", "ö d"])),
            "src": draw(st.sampled_from([".", ".", "sub", "abs"])), "tgt": draw(st.sampled_from([None, None, "out", "abs"])), "workers": draw(st.sampled_from([1, 3])),
            "start": draw(st.lists(st.one_of(st.none(), st.integers(0, 4102444799)), min_size=5, max_size=5))}


def strategy(tier):
    return strategy_()


GEN = '''#!/usr/bin/env python3
#@ {"target": {"name": "maike2"}}
import json, os, sys
# %d
if len(sys.argv) > 1 and sys.argv[1] == 'compile':
	t = json.loads(sys.argv[2])['targets'][0]
	with open(t, 'w') as f:
		f.write('#!/bin/sh\\nfor a in "$@"; do case "$a" in --help) w=help;; --configdump) w=config;; esac; done\\ncat "$VT_CTL/$w.txt"\\n[ ! -f "$VT_CTL/$w" ] || { echo "program gives up" >&2; . "$VT_CTL/$w"; }\\n')
	os.chmod(t, 0o755)
'''


def sections(s):
    """({front matter line, ...}, {heading: text})"""
    parts, now = {}, None
    lines = s.split("\n")
    if lines[0] != "---" or "---" not in lines[1:]:
        raise ValueError("no front matter")
    end = lines.index("---", 1)
    for x in lines[end + 1:]:
        if x.startswith("# "):
            now = x[2:].strip()
            if now in parts:
                raise ValueError("twice " + now)
            parts[now] = []
        elif now is not None:
            parts[now].append(x)
    return lines[1:end], {k: "\n".join(v).strip() for k, v in parts.items()}


def plain(md):
    return md.replace("\\-", "-")


def run_case(case, ctx):
    base = ctx.scratch()
    cwd, ctl = os.path.join(base, "w"), os.path.join(base, "ctl")
    os.makedirs(cwd)
    os.makedirs(ctl)
    src = {"abs": os.path.join(base, "s r c")}.get(case["src"], case["src"])
    top = os.path.join(cwd, src)
    args = [f"--num-workers={case['workers']}"]
    if case["src"] != ".":
        args.append("--source-dir=" + src)
    tgt = {None: "__targets" if case["src"] == "." else posixpath.basename(src) + "_targets", "out": "out", "abs": os.path.join(base, "t")}[case["tgt"]]
    if case["tgt"]:
        args.append("--target-dir=" + tgt)
    env = {"PATH": TOOLS + ":/usr/local/bin:/usr/bin:/bin", "VT_CTL": ctl}
    doc = os.path.join(top, case["doc"])
    os.makedirs(doc)
    os.makedirs(os.path.join(top, "core/bin"))
    for n in os.listdir(os.path.join(REPO, "doc")):
        if n.endswith(".py"):
            shutil.copy(os.path.join(REPO, "doc", n), doc)
    shutil.copytree(os.path.join(REPO, "recipes"), os.path.join(top, "recipes"), ignore=shutil.ignore_patterns("__*"))
    os.unlink(os.path.join(top, "recipes/generic.py"))       # its target depends on a configuration
    with open(os.path.join(top, "maikeconfig.json"), "w") as f:
        json.dump({"maikeconfig": CONFIG}, f)
    now = {"help": case["help"], "config": case["config"], "info": case["info"], "n": 0}

    def put(what):
        if what in ("help", "config", "all"):
            now["n"] += 1
            with open(os.path.join(ctl, "help.txt"), "w", encoding="utf-8") as f:
                f.write(now["help"])
            with open(os.path.join(ctl, "config.txt"), "w", encoding="utf-8") as f:
                json.dump(now["config"], f, indent=1, ensure_ascii=False)
            with open(os.path.join(top, "core/bin/gen.py"), "w") as f:
                f.write(GEN % now["n"])
            os.chmod(os.path.join(top, "core/bin/gen.py"), 0o755)
        if what in ("info", "all"):
            i = now["info"]
            with open(os.path.join(top, "projinfo.json"), "w", encoding="utf-8") as f:
                json.dump({"copyright": i["copyright"], "description": i["description"], "name": "x", "legal_info": {"license_short": i["license"], "license_tag": "T"}}, f, ensure_ascii=case["workers"] == 1)

    put("all")
    PAGES = {"cmdlineopts.md": {"help"}, "configdefault.md": {"config"}, "cmdlineopts.xml": {"help"}, "configdefault.xml": {"config"}, "maike2.1.man": {"help", "info"}}
    NEEDS = {"cmdlineopts.xml": "cmdlineopts.md", "configdefault.xml": "configdefault.md", "maike2.1.man": "cmdlineopts.md"}
    BREAKS = {"help": "cmdlineopts.md", "config": "configdefault.md", "pandoc.man": "maike2.1.man"}
    pending = set(PAGES)
    out = os.path.join(cwd, tgt, case["doc"])
    labels, history = set(), []
    k = 0

    def times():
        return {p: os.stat(os.path.join(out, p)).st_mtime_ns if os.path.exists(os.path.join(out, p)) else None for p in PAGES}

    dated = None
    for rnd in [None] + case["rounds"] + [None]:
        fault = None
        if rnd is not None:
            time.sleep(0.02)
            e = rnd["edit"]
            if e is None and rnd["fault"]:
                e = "all"
            if e:
                for x in ("help", "config", "info"):
                    if e in (x, "all"):
                        now[x] = rnd[x]
                put(e)
                # help and config come from the same file
                pending |= set(PAGES) if e != "info" else {"maike2.1.man"}
                labels.add("edit " + e)
            fault = rnd["fault"]
            if fault:
                (victim, (how, code)) = fault
                with open(os.path.join(ctl, victim), "w") as f:
                    f.write(f"{how} {code}\n" if victim.startswith("pandoc") else (f"exit {code}\n" if how == "exit" else f"kill -{code} $$\n"))
        start = case["start"][k % 5]
        k += 1
        before = times()
        t0 = time.time()
        r = proj.must_end(proj.run_maike(cwd, args + ([f"--start-time={start}"] if start is not None else []), extra=env, timeout=60, ctx=ctx))
        t1 = time.time()
        after = times()
        history.append({"round": rnd, "pages to make": sorted(pending)})

        def wrong(s):
            raise Violation(f"{s}\nafter {history}\n{r.text()}")
        touched = {p for p in PAGES if after[p] != before[p]}
        if fault:
            victim = fault[0]
            first = BREAKS.get(victim)
            bad = {p for p in pending if first in pending and (p == first or NEEDS.get(p) == first)}
            if victim == "pandoc.html":
                bad = pending & {"cmdlineopts.xml", "configdefault.xml"}
            if bad:
                labels.add(f"{victim} {fault[1][0]}")
                if r.rc == 0:
                    wrong(f"{victim} fails, but the build succeeds")
                if touched & bad:
                    wrong(f"{victim} fails, but {sorted(touched & bad)} was made")
                if b"gives up" not in r.err:
                    wrong(f"what {victim} says when it fails does not appear on stderr")
            elif r.rc != 0:
                wrong("nothing that fails is needed, but the build fails")
            os.unlink(os.path.join(ctl, victim))
            pending -= touched
            if "maike2.1.man" in touched:
                dated = (start, t0, t1)
            continue
        if r.rc != 0:
            wrong("the documentation does not build")
        if touched != pending:
            wrong(f"{sorted(pending)} had to be made, but {sorted(touched)} were")
        if "maike2.1.man" in touched:
            dated = (start, t0, t1)
        pending = set()

        def page(p):
            with open(os.path.join(out, p), encoding="utf-8") as f:
                return f.read()
        md = page("cmdlineopts.md")
        if plain(md).strip() != now["help"].strip():
            wrong(f"the program says {now['help']!r}, but the help page has {md!r}")
        if re.search(r"(?<!\\)--", md):
            wrong(f"'--' would become a dash in the help page {md!r}")
        cfg = page("configdefault.md").strip()
        inner = cfg[len("```json"):-3].strip() if cfg.startswith("```json\n") and cfg.endswith("\n```") else None
        if inner is None or inner != json.dumps(now["config"], indent=1, ensure_ascii=False).strip():
            wrong(f"the default configuration is {now['config']!r}, but the page has {cfg!r}")
        for p in ("cmdlineopts", "configdefault"):
            got = "".join(ET.fromstring(page(p + ".xml")).itertext())
            if got.replace("\r\n", "\n").strip() != page(p + ".md").strip():
                wrong(f"{p}.xml has the text {got!r}")
        try:
            front, parts = sections(page("maike2.1.man"))
        except ValueError as e:
            wrong(f"the manual is damaged ({e}): {page('maike2.1.man')!r}")
        i = now["info"]
        para = [" ".join(x.split()) for x in parts.get("COPYRIGHT", "").split("\n\n") if x.strip()]
        want = {"DESCRIPTION": "\n\n".join(i["description"]).strip(), "OPTIONS": md.strip(), "AUTHOR": ", ".join(sorted(x["author"] for x in i["copyright"]))}
        for h, w in want.items():
            if parts.get(h) != w:
                wrong(f"the part {h} of the manual is {parts.get(h)!r} instead of {w!r}")
        for c in i["copyright"]:
            years = [str(y) for y in sorted(c["years"])]
            if not any(c["author"] in x and [w.strip(",:©") for w in x.split() if w.strip(",:©").isdigit()] == years for x in para):
                wrong(f"the years of {c} are not told in {para}")
        if not para or para[-1] != " ".join(i["license"].split()):
            wrong(f"the license {i['license']!r} is not in {para}")
        date = [x[5:].strip() for x in front if x.startswith("date:")]
        d = datetime.datetime.strptime(date[0], "%Y-%m-%d %H:%M:%S UTC").replace(tzinfo=datetime.timezone.utc).timestamp() if date else None
        s, a, b = dated
        if d is None or (s is not None and d != s) or (s is None and not int(a) <= d <= b):
            wrong(f"the manual has the date {date}, but the build started at {s if s is not None else (a, b)}")
    return Info(bool(labels), sorted(labels | {"source " + case["src"]}))
