"""C17: command line options mean what was typed."""

import copy
import calendar
import json
import os
import re
import subprocess
import time

from hypothesis import strategies as st

from vlib import proj
from vlib.runner import Info, Violation
from . import common

ID = "C17"
LEVEL = "exploration"
RULE = ("generated lists of up to 8 options with generated values (lists with commas and backslashes, build ids, start times, directories, numbers, choices, repeated and information options), in one third of the cases with one malformed option at any place; "
        "the effect (recipes run and their arguments, job header, printed output, exit status, file system) is compared with a reference reading of the list; non-trivial: at least 3 options, or a malformed one")
ASSUMPTIONS = ["start times within the range of the system clock, written as decimal numbers", "a list does not end with a comma or a single backslash"]
COUNT = {"quick": 5000, "thorough": 70000}
CAP = {"quick": 35, "thorough": 420}

NAMES = ["a.out", "b.out", "c,d.out", "e\\f.out", "g h.out", "x=y.out", "sub/i.out", "--dry-run", "l\\,m.out", "ü.out", "end\\", "two\\\\", "comma,"]
OPTIONS = ["--help", "--version", "--about", "--print-dep-graph", "--print-dep-graph-inv", "--dump-database", "--list-targets", "--list-external-deps", "--targets", "--configfiles",
           "--configdump", "--config-default", "--source-dir", "--target-dir", "--build-id", "--start-time", "--num-workers", "--dry-run", "--force-rebuild", "--log-level", "--log-output-format"]
CFGS = ["c0.json", "c1.json", "c,2.json", "c\\3.json", "c 4.json", "c=5.json"]


def setup(tier):
    proj.setup("opt")


hexid = st.text(alphabet="0123456789abcdefABCDEF", min_size=64, max_size=64)
when = st.one_of(st.integers(0, 2**31), st.integers(-2**31, 9 * 10**9), st.sampled_from([0, 1, 951782399, 951868799, 4102444799, 1709164800]))
idx = st.integers(0, 30)
good = st.one_of(
    st.tuples(st.just("--targets"), st.lists(idx, min_size=1, max_size=4), st.lists(idx, max_size=2)),
    st.tuples(st.just("--targets"), st.lists(idx, min_size=1, max_size=2), st.just([])),
    st.tuples(st.just("--configfiles"), st.lists(idx, min_size=1, max_size=4), st.lists(idx, max_size=2)),
    st.tuples(st.just("--build-id"), hexid), st.tuples(st.just("--build-id"), hexid),
    st.tuples(st.just("--start-time"), when), st.tuples(st.just("--start-time"), when),
    st.tuples(st.just("--source-dir"), st.sampled_from(["p", "./p", "q"])),
    st.tuples(st.just("--target-dir"), st.sampled_from(["out", "o=u=t", "o,t", "my out", "o\\t", "-x", "--help", "'q'"])),
    st.tuples(st.just("--num-workers"), st.sampled_from(["1", "2", "3", "16", "33", "auto"])),
    st.tuples(st.just("--dry-run")), st.tuples(st.just("--force-rebuild")),
    st.tuples(st.just("--log-level"), st.sampled_from(["errors", "source_file_info", "compilation_command"])),
    st.tuples(st.just("--log-output-format"), st.sampled_from(["plain_text", "ansi_term"])),
)
info = st.one_of(st.tuples(st.sampled_from(["--help", "--version", "--about", "--list-targets", "--print-dep-graph", "--print-dep-graph-inv", "--list-external-deps", "--configdump"]), st.booleans()), st.tuples(st.just("--config-default")))

BAD_VALUES = {
    "--build-id": ["", "g" * 64, "0" * 63 + "G", "0" * 63 + "-", "0" * 63, "0" * 65, "ab", "0" * 62 + "0x", " " + "0" * 63, "0" * 64 + "zz", "`" * 64, "@" + "0" * 63, "/" + "0" * 63, ":" + "1" * 63],
    "--start-time": ["", "x", "12x", "1.5", "12 ", "1e3", "0x", "2020-01-01", "99999999999999999999", "-99999999999999999999", "9300000000000", "-", "+"],
    "--num-workers": ["", "0", "-1", "-4", "x", "4x", "1.5", "2 ", "Auto", "auto ", "99999999999", "4294967297", "-4294967295", "0x4", "1,2"],
    "--log-level": ["", "error", "Errors", "errors ", "compilation_commands", "source_file_inf", "1"],
    "--log-output-format": ["", "plain", "plain_text ", "ansi", "ANSI_TERM", "ansi_terminal"],
    "--targets": [""], "--configfiles": [""], "--source-dir": [""], "--target-dir": [""],
    "--dry-run": ["1", "0", "no"], "--force-rebuild": ["x"], "--config-default": ["true"],
}
bad = st.one_of(
    st.sampled_from([(k, v) for k, vs in BAD_VALUES.items() for v in vs]),
    st.sampled_from(sorted(BAD_VALUES)).flatmap(lambda k: st.tuples(st.just(k), st.sampled_from(BAD_VALUES[k]))),
    st.tuples(st.sampled_from(OPTIONS), st.sampled_from(["cut", "add", "case", "dash", "under", "first", "space"])),
    st.sampled_from([("raw", x) for x in ["foo", "-", "--", "=", "=x", "-h", "a.out", "-j4", "--nosuch", "--nosuch=1", " ", "--target", "--target=out", "--configfile=c0.json", "--log", "--num-workers 4"]]),
)


@st.composite
def strategy_(draw):
    opts = draw(st.lists(good, max_size=7))
    if draw(st.integers(0, 5)) == 5:
        opts.insert(draw(st.integers(0, len(opts))), draw(info))
        if draw(st.booleans()):
            opts.insert(draw(st.integers(0, len(opts))), draw(info))
    c = {"o": [list(x) for x in opts], "built": draw(st.integers(0, 3)) == 3}
    if draw(st.integers(0, 2)) == 2:
        c["bad"] = [draw(st.integers(0, 9)), *draw(bad)]
    return c


def strategy(tier):
    return strategy_()


def esc(s, extra):
    """a list element as it has to be typed; extra: positions at which a needless backslash is put"""
    out = ""
    for k, ch in enumerate(s):
        if ch in ",\\" or k in extra:
            out += "\\"
        out += ch
    return out


def files():
    ret = [{"p": f"r{i}.rule", "k": "rule", "tags": {"target": {"name": n}}, "v": 0} for i, n in enumerate(NAMES) if "/" not in n]
    ret.append({"p": "sub/r.rule", "k": "rule", "tags": {"target": {"name": "i.out"}}, "v": 0})
    return ret


def malformed(b):
    if b[0] == "raw":
        return b[1]
    if b[0] in BAD_VALUES and b[1] in BAD_VALUES[b[0]]:
        return b[0] + ("=" + b[1] if b[1] or len(b[0]) % 2 else "")
    n = b[0]
    t = {"cut": n[:-1], "add": n + "x", "case": n[:2] + n[2:].upper(), "dash": n[1:], "under": n.replace("-", "_"), "first": "-" + n, "space": n + " "}[b[1]]
    return t if b[1] != "add" or n not in OPTIONS else t + "=1"


def run_case(case, ctx):
    root = ctx.scratch()
    fs = files()
    for name, extra in (("p", 0), ("q", 1)):
        proj.write_project(os.path.join(root, name), fs + [{"p": f"only_{name}.rule", "k": "rule", "tags": {"target": {"name": f"only_{name}.out"}}, "v": 0}])
    # the working directory is a project too
    w = os.path.join(root, "w")
    proj.write_project(w, fs)
    for name in ("p", "q"):
        os.rename(os.path.join(root, name), os.path.join(w, name))
    base = copy.deepcopy(proj.BASE_CONFIG)
    base["source_tree_loader"]["input_filter"] += ["^c.*json$", "^p$", "^q$", "^out$", "^o.u.t$", "^o.t$", "^my out$", "^-x$", "^--help$", "^.q.$"]
    with open(os.path.join(w, "maikeconfig.json"), "w") as f:
        json.dump({"maikeconfig": base}, f)
    for i, n in enumerate(CFGS):
        c = {"source_file_info_loaders": {"rule": {"compiler": {"config": {"last": n, "seen": [n], f"key{i}": 1}}}}}
        with open(os.path.join(w, n), "w") as f:
            json.dump({"maikeconfig": c}, f)
    log = os.path.join(root, "log")
    # the effective values and the command line
    eff = {}
    argv = []
    for o in case["o"]:
        k = o[0]
        if k in ("--targets", "--configfiles"):
            pool = NAMES if k == "--targets" else CFGS
            vals = [pool[i % len(pool)] for i in o[1]]
            argv.append(k + "=" + ",".join(esc(v, o[2]) for v in vals))
            if k == "--configfiles":
                argv[-1] = "--configfiles=maikeconfig.json," + argv[-1].split("=", 1)[1]
            eff[k] = vals
        elif k in ("--dry-run", "--force-rebuild", "--config-default"):
            argv.append(k)
            eff[k] = True
        elif len(o) == 2 and isinstance(o[1], bool):
            argv.append(k + ("=somewhere" if o[1] else ""))
            eff[k] = "somewhere" if o[1] else True
        else:
            argv.append(f"{k}={o[1]}")
            eff[k] = o[1]
    if "--config-default" in eff and "--configdump" not in eff:
        argv.append("--configdump")
        eff["--configdump"] = True
    src = proj.norm(eff.get("--source-dir", "."))
    tgt = proj.norm(eff["--target-dir"]) if "--target-dir" in eff else ("__targets" if src == "." else src + "_targets")
    if case["built"]:
        r = proj.run_maike(w, [f"--source-dir={src}", f"--target-dir={tgt}"], log=log, ctx=ctx)
        proj.must_succeed(r, "the project")
        time.sleep(0.002)
    before = proj.snapshot(w)
    if "bad" in case:
        pos = case["bad"][0] % (len(argv) + 1)
        argv.insert(pos, malformed(case["bad"][1:]))
    t0 = int(time.time())
    r = proj.run_maike(w, argv, log=log, ctx=ctx)
    t1 = int(time.time()) + 1
    proj.must_end(r, f"{argv}: maike2")
    after = proj.snapshot(w)
    ran = r.compiles()

    def fail(msg):
        raise Violation(f"{argv}: {msg}\n" + r.text())
    if "bad" in case:
        if r.rc == 0:
            fail(f"{argv[pos]!r} is malformed, but the program exits with 0")
        if ran or before != after:
            fail(f"{argv[pos]!r} is malformed, but something was built")
        if not r.err.strip():
            fail(f"{argv[pos]!r} is malformed, but nothing is reported")
        return Info(True, ["malformed"])
    if r.rc != 0:
        fail("all options are correct, but the program fails")
    queries = [k for k in ("--help", "--version", "--about", "--configdump", "--list-targets", "--print-dep-graph", "--print-dep-graph-inv", "--list-external-deps") if eff.get(k)]
    nontriv = len(argv) >= 3
    if queries or "--config-default" in eff:
        q = queries[0] if queries else None
        to = q and eff[q] == "somewhere"
        if queries and (ran or any(before.get(k) != after.get(k) for k in set(before) | set(after) if not (to and k in (".", "somewhere")))):
            fail("a query changed something")
        out = r.out.decode(errors="replace")
        if to:
            if "somewhere" not in after:
                fail("the path given to the query is not written")
            with open(os.path.join(w, "somewhere")) as f:
                out = (out if q.startswith("--print-dep") or q.startswith("--list") else "") + f.read()
        if q == "--help":
            missing = [o for o in OPTIONS if not re.search("^" + re.escape(o) + r"(\[?=|$)", out, re.M)]
            if missing:
                fail(f"--help does not mention {missing}")
        elif q in ("--version", "--about"):
            if "Maike" not in out or "Build id" not in out and "## Build info" not in out:
                fail("no information is printed")
        elif q == "--configdump":
            try:
                d = json.loads(out)["maikeconfig"]
            except (ValueError, KeyError):
                fail("the configuration printed is not a JSON document")
            if "--config-default" in eff:
                if "rule" in d["source_file_info_loaders"] or "seen" in json.dumps(d):
                    fail("the default configuration was asked for")
            else:
                got = d["source_file_info_loaders"]["rule"]["compiler"]["config"]
                want = config_of(eff)
                if src == "." or "--configfiles" in eff:
                    if got != want:
                        fail(f"configuration {got}, expected {want}")
        elif q == "--list-targets" and "--config-default" not in eff:
            got = sorted(x for x in out.split("\n")[7:] if x)
            want = sorted(NAMES + ["sub"] + ([f"only_{src}.out"] if src != "." else []))
            if src != "." and "--configfiles" in eff:
                pass
            if [x for x in got if x not in (".", "")] != want:
                fail(f"targets {got}, expected {want}")
        elif q.startswith("--print-dep-graph") and "--config-default" not in eff:
            edges = common.read_dot(out[out.index("digraph"):] if "digraph" in out else out, fail)
            if not {os.path.join(tgt, n) for n in NAMES} <= {e[q.endswith("inv")] for e in edges}:
                fail("the graph printed lacks a target")
        elif q == "--list-external-deps" and "--config-default" not in eff:
            if [x for x in out.split("\n")[7:] if x] != [os.path.join(proj.recipe_dir(), "rec")]:
                fail("the external dependencies are not listed")
        return Info(nontriv, ["query " + (q or "default")])
    # a build
    head = r.out.decode(errors="replace").split("\n")[:7]
    n = re.match(r"# Build job with (\d+) workers started$", head[0])
    if not n:
        fail("no job header")
    nw = eff.get("--num-workers", "auto")
    if nw != "auto" and n.group(1) != nw:
        fail(f"{n.group(1)} workers, expected {nw}")
    if "--build-id" in eff and eff["--build-id"].lower() not in head[3].split():
        fail("the header has another build id")
    n = re.match(r"# *Start time: (-?\d+)-(\d+)-(\d+) (\d+):(\d+):(\d+) UTC$", head[2])
    if not n:
        fail("no start time in the header")
    when = calendar.timegm(tuple(map(int, n.groups())))
    if not (when == eff["--start-time"] if "--start-time" in eff else t0 - 1 <= when <= t1):
        fail(f"the start time in the header is {when}, expected {eff.get('--start-time', t0)}")
    for k, d in [(4, src), (5, tgt)]:
        if ":" not in head[k] or proj.norm(head[k].split(":", 1)[1].strip()) != d:
            fail(f"another directory in the header, expected {d}")
    names = NAMES + ([f"only_{src}.out"] if src != "." else [])
    owner = {os.path.join(tgt, f["tags"]["target"]["name"] if "/" not in f["p"] else "sub/i.out"): proj.norm(os.path.join(src, f["p"])) for f in fs}
    if src != ".":
        owner[os.path.join(tgt, f"only_{src}.out")] = proj.norm(os.path.join(src, f"only_{src}.rule"))
    want = {}
    targets = [os.path.join(tgt, t) for t in (eff["--targets"] if "--targets" in eff else names)]
    for t in targets:
        want[owner[t]] = t
    got = [x for x in ran if not os.path.isdir(os.path.join(w, x[0]))]
    if "--dry-run" in eff:
        if ran or before != after:
            fail("the dry run changed something")
        if (eff.get("--log-level") == "compilation_command") != (b"'compile'" in r.out):
            fail("the log level does not take effect")
        return Info(nontriv, ["dry run"])
    if case["built"] and "--force-rebuild" not in eff:
        if ran:
            fail(f"recipes were run again: {[x[0] for x in ran]}")
    else:
        if {x[0] for x in got} != set(want):
            fail(f"recipes run for {sorted(x[0] for x in got)}, expected {sorted(want)}")
        if "--force-rebuild" not in eff and len(got) != len(want):
            fail(f"recipes run for {sorted(x[0] for x in got)}, expected {sorted(want)}")
        ids = set()
        for x, e, _ in got:
            a = e["arg"]
            b = a["build_info"]
            ids.add((b["build_id"], b["start_time"]))
            if "--build-id" in eff and b["build_id"] != eff["--build-id"].lower():
                fail(f"build id {b['build_id']}, expected {eff['--build-id']}")
            if not re.fullmatch("[0-9a-f]{64}", b["build_id"]):
                fail(f"build id {b['build_id']}")
            if "--start-time" in eff:
                if b["start_time"] != eff["--start-time"]:
                    fail(f"start time {b['start_time']}, expected {eff['--start-time']}")
            elif not t0 - 1 <= b["start_time"] <= t1:
                fail(f"start time {b['start_time']}, it is {t0}")
            if proj.norm(b["source_dir"]) != src or proj.norm(b["target_dir"]) != tgt:
                fail(f"directories {b['source_dir']} and {b['target_dir']}, expected {src} and {tgt}")
            if a["targets"] != [want[x]]:
                fail(f"targets {a['targets']}, expected {want[x]}")
            if a["log_format"] != eff.get("--log-output-format", "plain_text"):
                fail(f"log format {a['log_format']}")
            if a["compiler_cfg"] != config_of(eff):
                fail(f"settings {a['compiler_cfg']}, expected {config_of(eff)}")
        if len(ids) > 1:
            fail(f"build id and start time differ between recipes: {ids}")
    for t in targets:
        if not os.path.isfile(os.path.join(w, t)):
            fail(f"{t} was not made")
    body = r.out.decode(errors="replace").split("\n")[7:]
    level = eff.get("--log-level", "source_file_info")
    has_path = any(want_src + " |" in line for want_src in want for line in body)
    has_cmd = any("'compile'" in line for line in body)
    if (has_path, has_cmd) != {"errors": (False, False), "source_file_info": (True, False), "compilation_command": (True, True)}[level]:
        fail(f"the log level {level} does not take effect")
    return Info(nontriv, ["build", "forced" if "--force-rebuild" in eff else "plain", "repeated" if len(argv) > len(eff) else "no option twice"] + sorted({x for x in eff}))


def config_of(eff):
    base = {"rr": 1}
    cfgs = eff.get("--configfiles", [])
    if cfgs:
        base["last"] = cfgs[-1]
        base["seen"] = list(cfgs)
        for c in cfgs:
            base[f"key{CFGS.index(c)}"] = 1
    return base
