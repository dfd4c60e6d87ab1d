"""What the build checks share."""

import json
import os
import re
import shutil

from vlib import proj
from vlib.runner import Info, Violation


def materialise(ctx, case, config=proj.BASE_CONFIG):
    root = ctx.scratch()
    p = os.path.join(root, "p")
    proj.write_project(p, case["files"], config, case.get("dirs", ()))
    os.makedirs(os.path.join(root, "ctl"))
    return root, p


def orders(root, table):
    """table: source path -> [order, ...]"""
    d = os.path.join(root, "ctl")
    for n in os.listdir(d):
        os.unlink(os.path.join(d, n))
    for src, lines in table.items():
        with open(os.path.join(d, "f" + src.replace("/", "%")), "w") as f:
            f.write("\n".join(lines) + "\n")


def model_of(case, config=proj.BASE_CONFIG, **kw):
    kw.setdefault("recipe_dir", proj.recipe_dir())
    return proj.Model(case["files"], config, dirs=case.get("dirs", ()), **kw)


def chain_depth(m):
    memo = {}

    def d(n):
        if n not in memo:
            memo[n] = 0
            memo[n] = 1 + max([d(x) for x in m.needs(n) if not m.nodes[x].isdir] or [0])
        return memo[n]
    return max([d(n) for n in m.compiled() if not m.nodes[n].isdir] or [0])


def compare_targets(got, want, what):
    """got: {rel: bytes/None}; want: {rel: str}"""
    for t, c in want.items():
        if t not in got:
            raise Violation(f"{what}: target {t} is missing")
        if got[t] is None or got[t].decode(errors="replace") != c:
            raise Violation(f"{what}: target {t} has content {got[t]!r}, expected {c!r}")


def rel_to(tgt, name):
    return os.path.relpath(name, tgt)


def same_json(got, want):
    """the same JSON value, kinds of numbers included"""
    if isinstance(want, dict):
        return isinstance(got, dict) and set(got) == set(want) and all(same_json(got[k], want[k]) for k in want)
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and all(same_json(a, b) for a, b in zip(got, want))
    return type(got) is type(want) and got == want


def same_program(cwd, who, recipe):
    return os.path.normpath(os.path.join(cwd, who)) == os.path.normpath(os.path.join(cwd, recipe))


def check_arguments(m, r, cwd, src, tgt, bid=None, start=None, fmt=None):
    """Everything that the recipes of a build were told is as in the model; -> (largest number of dependencies, properties?)"""
    ids, times = set(), set()
    most = 0
    with_props = False
    for name, e, _ in r.compiles():
        a = e["arg"]

        def wrong(what, got, want):
            raise Violation(f"the recipe for {name} was told: {what} {str(got)[:700]}, expected {str(want)[:700]}", history=[a])
        if e["argc"] != 3:
            wrong("number of arguments", e["argc"], 3)
        if name not in m.nodes or not m.nodes[name].targets:
            wrong("source file", name, "a source file with targets")
        node = m.nodes[name]
        want = [t for t, _ in node.targets]
        got = a["targets"]
        if ([proj.norm(t) for t in got] if node.isdir else got) != want:
            wrong("targets", got, want)
        if not same_json(a["compiler_cfg"], node.cfg):
            wrong("settings", json.dumps(a["compiler_cfg"], sort_keys=True), json.dumps(node.cfg, sort_keys=True))
        edges = {}
        for x in {name} | m.closure(name):
            for d in m.edges(x):
                edges.setdefault(d[0], set()).add((d[1], d[2]))
        refs = [d["ref"] for d in a["dependencies"]]
        if sorted(refs) != sorted(edges):
            wrong("dependencies", {"missing": sorted(set(edges) - set(refs)), "not expected": sorted(set(refs) - set(edges)), "twice": sorted({x for x in refs if refs.count(x) > 1})}, "each once")
        for d in a["dependencies"]:
            p = tuple(sorted((k, v) for k, v in d.items() if k not in ("ref", "origin")))
            if (d["origin"], p) not in edges[d["ref"]]:
                wrong(f"of {d['ref']}", d, sorted(edges[d["ref"]]))
            with_props = with_props or any(k != "rel" for k, _ in p)
        most = max(most, len(refs))
        b = a["build_info"]
        if not node.isdir:
            if b["source_dir"] != src or b["target_dir"] != tgt:
                wrong("source and target directory", (b["source_dir"], b["target_dir"]), (src, tgt))
        ids.add(b["build_id"])
        times.add(b["start_time"])
        if bid and b["build_id"] != bid:
            wrong("build id", b["build_id"], bid)
        if start is not None and b["start_time"] != start:
            wrong("start time", b["start_time"], start)
        if a["log_format"] != (fmt or "plain_text"):
            wrong("log format", a["log_format"], fmt or "plain_text")
        if not same_program(cwd, e["self"], node.recipe or name):
            raise Violation(f"{name} was given to {e['self']} instead of {node.recipe or name}", history=[a])
    if len(ids) > 1 or len(times) > 1:
        raise Violation(f"recipes of the same build were told different build ids or start times: {ids} {times}")
    return most, with_props


def link_away(root, top, moves):
    """moves files and directories, [(path, whether the link is absolute), ...], out of the tree, and leaves symbolic
    links to them; returns how many there are"""
    ret = 0
    # the outer ones first, so that no link is moved
    for path, absolute in sorted({p: a for p, a in moves}.items(), key=lambda x: x[0].count("/")):
        full = os.path.join(top, path)
        if os.path.islink(full) or not os.path.lexists(full):
            continue
        # what `..` means in the text of a link depends on where the link really is
        real = os.path.join(os.path.realpath(os.path.dirname(full)), os.path.basename(full))
        dst = os.path.join(root, "ext", f"e{ret}")
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        shutil.move(real, dst)
        os.symlink(dst if absolute else os.path.relpath(dst, os.path.dirname(real)), real)
        ret += 1
    return ret


def read_dot(text, fail):
    """the edges of a graph, read as dot(1) does: in a quoted name \\" is a quote, and a backslash protects a backslash"""
    body = re.match(r'\s*digraph\s+("G"|G)\s*\{(.*)\}\s*$', text, re.S)
    if not body:
        fail("not a graph")
    s = body.group(2)
    toks = []
    i = 0
    while i < len(s):
        if s[i].isspace() or s[i] == ";":
            i += 1
        elif s.startswith("->", i):
            toks.append("->")
            i += 2
        elif s[i] == '"':
            i += 1
            w = ""
            while i < len(s) and s[i] != '"':
                if s[i] == "\\" and i + 1 < len(s) and s[i + 1] in '"\\':
                    w += s[i + 1]
                    i += 2
                else:
                    w += s[i]
                    i += 1
            if i >= len(s):
                fail("a name in the graph does not end")
            i += 1
            toks.append(("name", w))
        elif re.match(r"[\w=]+", s[i:]):
            w = re.match(r"[\w=]+", s[i:]).group()
            i += len(w)
            if "=" not in w:
                toks.append(("name", w))
        else:
            fail(f"the graph can't be read at {s[i:i+40]!r}")
    edges = []
    while toks:
        if len(toks) < 3 or toks[1] != "->" or "->" in (toks[0], toks[2]):
            fail(f"the graph can't be read at {toks[:4]}")
        edges.append((toks[0][1], toks[2][1]))
        toks = toks[3:]
    return edges


def plain(x):
    """the target that belongs to the top directory is written with a slash at its end"""
    return re.sub(r"(.)/+$", r"\1", x)
