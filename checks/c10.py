"""C10: configuration files merge key by key, and a dumped configuration is equivalent."""

import json
import os

from hypothesis import strategies as st

from vlib import driver, gen, jsongen, proj
from vlib.runner import Info, Violation
from . import common

ID = "C10"
LEVEL = "exploration"
RULE = ("(1) pairs of generated JSON compounds merged by the library and by a reference implementation, under sanitizers; (2) generated "
        "configurations cut into several files, with overridden values, unreadable files, syntax errors and files of another kind in "
        "between, whose dump is compared with the reference merge, read back and dumped again; (3) a generated project built with the "
        "files, with the single merged file and with the dump: same recipes, same arguments, same targets; non-trivial: two compounds that "
        "share a key, or at least two usable files")
ASSUMPTIONS = ["configuration files have the single top-level key maikeconfig"]
COUNT = {"quick": 8000, "thorough": 160000}
CAP = {"quick": 40, "thorough": 420}
ROUND = 100
close = driver.close


def setup(tier):
    proj.setup("opt")
    driver.setup("json")


few = st.sampled_from(["a", "b", "c", "d", "ü"])
val = st.recursive(jsongen.scalar, lambda x: st.one_of(st.lists(x, max_size=4), st.dictionaries(few, x, max_size=4)), max_leaves=10)
obj = st.dictionaries(few, val, max_size=5)


@st.composite
def alike(draw, v):
    """a value that often has the same kinds as v"""
    if isinstance(v, dict):
        ks = draw(st.lists(few, max_size=4, unique=True))
        return {k: draw(alike(v[k])) if k in v and draw(st.integers(0, 5)) != 5 else draw(val) for k in ks}
    if isinstance(v, bool):
        return draw(st.booleans())
    if isinstance(v, list):
        return draw(st.lists(val, max_size=3))
    if isinstance(v, str):
        return draw(jsongen.strings)
    if isinstance(v, int):
        return draw(jsongen.ints)
    if isinstance(v, float):
        return draw(jsongen.floats)
    return v


@st.composite
def config(draw):
    """a usable configuration"""
    names = draw(st.lists(st.sampled_from(["l1", "l2", "cxx", "x y", "ü"]), min_size=1, max_size=4, unique=True))
    loaders = {}
    for n in names:
        kind = draw(st.sampled_from(["app", "cxx_src_loader", "extension", "maikerule", "generic", "lib"]))
        comp = {"config": draw(obj)}
        if draw(st.booleans()):
            comp["recipe"] = draw(st.sampled_from(["rec", "", "some where/r.py", "ü"]))
        if draw(st.booleans()):
            comp["use_get_tags"] = draw(st.integers(0, 1))
        e = {"loader": kind, "compiler": comp}
        if kind == "cxx_src_loader" and draw(st.booleans()):
            e["config"] = {"generated_includes": draw(st.lists(st.sampled_from(["\\.gen\\.hpp$", "^g/", "x"]), max_size=3))}
        elif kind == "generic" and draw(st.booleans()):
            e["config"] = {"target_filename_ext": draw(st.sampled_from([".css", "", ".a.b"]))}
            if draw(st.booleans()):
                e["config"]["filename_ext_replacement_mode"] = draw(st.sampled_from(["append", "replace"]))
        loaders[n] = e
    filt = st.lists(st.sampled_from(["^\\.", "^__", "x$", "a.*b", "[0-9]"]), max_size=3)
    dc = {"config": draw(obj)}
    if draw(st.booleans()):
        dc["recipe"] = "rec"
    return {"source_tree_loader": {"file_info_loaders": {k: draw(st.sampled_from(names)) for k in draw(st.lists(st.sampled_from([".a", ".b.a", ".cpp"]), max_size=3, unique=True))},
                                   "input_filter": draw(filt), "fullpath_input_filter": draw(filt), "recursive": draw(st.sampled_from([0, 1, 1, 5]))},
            "source_file_info_loaders": loaders, "dir_compiler": dc}


def dumped(cfg):
    """what the dump of a usable configuration holds"""
    def comp(c):
        return {"recipe": c.get("recipe", ""), "config": c["config"], "use_get_tags": 1 if c.get("use_get_tags", 0) else 0}
    out = {"dir_compiler": comp(cfg["dir_compiler"]), "source_file_info_loaders": {}, "source_tree_loader": {}}
    for n, e in cfg["source_file_info_loaders"].items():
        k = e["loader"]
        c = e.get("config")
        if k == "cxx_src_loader":
            c = {"generated_includes": [".*\\.gen\\.hpp$"]} if c is None else {"generated_includes": c.get("generated_includes", [])}
        elif k == "generic":
            c = {"target_filename_ext": "", "filename_ext_replacement_mode": "append"} if c is None else \
                {"target_filename_ext": c["target_filename_ext"], "filename_ext_replacement_mode": c.get("filename_ext_replacement_mode", "append")}
        else:
            c = {}
        out["source_file_info_loaders"][n] = {"loader": k, "compiler": comp(e["compiler"]), "config": c}
    s = cfg["source_tree_loader"]
    out["source_tree_loader"] = {"file_info_loaders": s["file_info_loaders"], "input_filter": s["input_filter"],
                                 "fullpath_input_filter": s["fullpath_input_filter"], "recursive": 1 if s["recursive"] else 0}
    return out


class Splitter:
    """Deals a configuration out to n documents whose merge is that configuration."""

    def __init__(self, draws, n):
        self.draws, self.i, self.n = draws, 0, n

    def num(self, k):
        self.i += 1
        return self.draws[self.i % len(self.draws)] % k

    def split(self, v):
        """list of n optional values"""
        n = self.n
        out = [None] * n
        if isinstance(v, dict):
            if not v:
                out[self.num(n)] = {}
                return out
            for k, x in v.items():
                for i, y in enumerate(self.split(x)):
                    if y is not None:
                        if out[i] is None:
                            out[i] = {}
                        out[i][k] = y[0] if isinstance(y, tuple) else y
            return out
        if isinstance(v, list):
            at = sorted(self.num(n) for _ in v)
            if not v:
                out[self.num(n)] = []
            for i, x in zip(at, v):
                if out[i] is None:
                    out[i] = []
                out[i].append(x)
            return out
        k = self.num(n)
        out[k] = (v,)
        # overridden by the later file
        if k > 0 and self.num(3) == 0:
            alt = (v + "x" if isinstance(v, str) else (not v) if isinstance(v, bool) else v + 1 if isinstance(v, int) and v < 2**62
                   else v * 0.5 if isinstance(v, float) else v)
            out[self.num(k)] = (alt,)
        return out

    def docs(self, v):
        return [x for x in (y if y is not None else {} for y in self.split(v))]


bad_doc = st.sampled_from([["absent"], ["text", "{\"maikeconfig\": {\"dir_compiler\""], ["text", "[1, 2]"], ["text", "nonsense"], ["text", "{\"maikeconfig\": 1}"],
                           ["kind", "dir_compiler"], ["kind", "source_tree_loader"], ["kind2", ""], ["dir"], ["kind", "source_file_info_loaders"]])


@st.composite
def strategy_(draw):
    k = draw(st.sampled_from(["merge"] * 5 + ["dump"] * 4 + ["build"]))
    if k == "merge":
        a = draw(obj)
        return {"op": k, "a": a, "b": draw(alike(a))}
    c = {"op": k, "n": draw(st.integers(1, 4)), "draws": draw(st.lists(st.integers(0, 11), min_size=7, max_size=23)),
         "bad": draw(st.lists(st.tuples(st.integers(1, 9), bad_doc), max_size=2)),
         "names": draw(st.sampled_from(["plain", "odd"])), "default": draw(st.booleans())}
    if k == "dump":
        c["cfg"] = draw(config())
        c["incomplete"] = draw(st.integers(0, 7)) == 7
        c["drop"] = draw(st.sampled_from(["dir_compiler", "source_tree_loader", "source_file_info_loaders"]))
    else:
        p = draw(gen.project(max_mods=8))
        c["files"], c["dirs"] = p["files"], p["dirs"]
    return c


def strategy(tier):
    return strategy_()


def share(a, b):
    return bool(set(a) & set(b))


def run_case(case, ctx):
    if case["op"] == "merge":
        return merge(case, ctx)
    root = ctx.scratch()
    p = os.path.join(root, "p")
    os.makedirs(p)
    cfg = case["cfg"] if case["op"] == "dump" else proj.BASE_CONFIG
    if case["op"] == "dump" and case["incomplete"]:
        cfg = {k: v for k, v in cfg.items() if k != case["drop"]}
    docs = Splitter(case["draws"], case["n"]).docs(cfg)
    # what the files say is their merge in this order
    want = {}
    for d in docs:
        want = proj.merge(want, d)
    entries = [("doc", d) for d in docs]
    for pos, b in case["bad"]:
        entries.insert(1 + pos % len(entries), ("bad", b))
    names, bad_names = [], []
    n_docs = 0
    seen = {}
    for i, (k, d) in enumerate(entries):
        name = f"c{i}.json" if case["names"] == "plain" else f"c{i} it's $x ü.json"
        q = os.path.join(p, name)
        if k == "doc":
            with open(q, "w") as f:
                json.dump({"maikeconfig": d}, f, ensure_ascii=i % 2 == 0)
            seen = proj.merge(seen, d)
            n_docs += 1
        else:
            if d[0] in ("kind", "kind2"):
                key = d[1] if d[0] == "kind" else None
                keys = sorted(seen) if key is None else [key]
                keys = [x for x in keys if x in seen]
                if not keys:
                    continue
                body = {x: (["x"] if x == keys[0] else {}) for x in seen}
                # what else such a file says is not to be used
                if keys[0] != "source_tree_loader" and "source_tree_loader" in seen:
                    body["source_tree_loader"] = {"input_filter": ["ignored"], "recursive": 77}
                with open(q, "w") as f:
                    json.dump({"maikeconfig": body}, f)
            elif d[0] == "dir":
                os.makedirs(q)
            elif d[0] == "text":
                if d[1].startswith("{\"maikeconfig\": 1") and not seen:
                    continue
                with open(q, "w") as f:
                    f.write(d[1])
            bad_names.append(name)
        names.append(name)
    arg = "--configfiles=" + ",".join(names)

    def dump(*args):
        r = proj.run_maike(p, [*args, "--configdump"], ctx=ctx)
        proj.must_end(r)
        if r.rc != 0:
            raise Violation(f"the configuration can't be dumped ({args})\n" + r.text())
        return r
    r = dump(arg)
    err = r.err.decode(errors="replace")
    for n in bad_names:
        # the names are echoed once with the options
        if err.count(n) < 2:
            raise Violation(f"{n}, which can't be used, is not reported\n" + r.text())
    complete = not (case["op"] == "dump" and case["incomplete"])
    if complete:
        got = jsongen.loads(r.out)
        exp = {"maikeconfig": dumped(want)}
        if not jsongen.same(got, exp):
            raise Violation(f"the files {entries} give the configuration {json.dumps(got)}, expected {json.dumps(exp)}\n{err}")
    else:
        d = dump("--config-default")
        if d.out != r.out:
            raise Violation("an incomplete configuration gives something else than the default\n" + r.text())
        if len(err.strip().split("\n")) < 3:
            raise Violation("an incomplete configuration is not reported\n" + r.text())
    with open(os.path.join(p, "again.json"), "wb") as f:
        f.write(r.out)
    r2 = dump("--configfiles=again.json")
    if r2.out != r.out:
        raise Violation(f"a dumped configuration gives another dump\n{r.out.decode()}\n---\n{r2.out.decode()}")
    if case["default"]:
        d1 = dump("--config-default")
        with open(os.path.join(p, "default.json"), "wb") as f:
            f.write(d1.out)
        d2 = dump("--configfiles=default.json")
        if d1.out != d2.out:
            raise Violation(f"the dumped default configuration gives another dump\n{d1.out.decode()}\n---\n{d2.out.decode()}")
    labels = [case["op"], f"{n_docs} files", f"{len(bad_names)} bad"] + ([] if complete else ["incomplete"])
    if case["op"] == "build":
        logs = []
        for mode in ("files", "one", "dump"):
            b = os.path.join(root, mode)
            proj.write_project(b, case["files"], None, case["dirs"])
            if mode == "files":
                a = "--configfiles=" + ",".join("../p/" + x for x in names)
            elif mode == "one":
                with open(os.path.join(b, "maikeconfig.json"), "w") as f:
                    json.dump({"maikeconfig": want}, f)
                a = None
            else:
                a = "--configfiles=../p/again.json"
            rr = proj.run_maike(b, ["--num-workers=4", "--build-id=" + "ab" * 32, "--start-time=1577934245"] + ([a] if a else []),
                                log=os.path.join(root, "log"), ctx=ctx)
            proj.must_succeed(rr)
            logs.append((sorted(json.dumps(s["arg"], sort_keys=True) for _, s, _ in rr.compiles()), proj.list_targets(b)))
        if not logs[0] == logs[1] == logs[2]:
            raise Violation(f"several files, their merge and the dump give different builds: {logs}")
    return Info(n_docs >= 2, labels)


def merge(case, ctx):
    drv = driver.get(ctx, "json")
    a, b = case["a"], case["b"]
    try:
        want = proj.merge(a, b)
    except ValueError:
        want = None
    r = drv.call("merge", json.dumps(a), json.dumps(b))
    if want is None:
        if r[0] != b"error":
            raise Violation(f"{a} and {b} have a key whose values are of different kinds, but are merged to {r[1]!r}")
    else:
        if r[0] != b"ok":
            raise Violation(f"{a} and {b} can't be merged: {r}")
        if not jsongen.same(jsongen.loads(r[1]), want):
            raise Violation(f"{a} and {b} are merged to {r[1]!r}, expected {want}")
    if not jsongen.same(jsongen.loads(r[2]), a) or not jsongen.same(jsongen.loads(r[3]), b):
        raise Violation(f"merging {a} and {b} changed a copy or the argument: {r[2:]}")
    return Info(share(a, b), ["merge", "merge: kinds differ" if want is None else "merge: alike"])
