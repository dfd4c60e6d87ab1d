"""C20: graph traversal visits each node once, dependencies first, or reports a cycle."""

import random
import struct

from hypothesis import strategies as st

from vlib import driver
from vlib.runner import Info, Violation

ID = "C20"
LEVEL = "exploration"
RULE = ("generated directed graphs, small ones edge by edge and large ones (random acyclic, layered, chains of up to 100000 nodes, stars, with edges that close a cycle, self loops, parallel and unresolved edges), visited as a whole or "
        "from one node, with node numbers of several types; the sequence of visits is judged against the set of reachable nodes and cycles that an independent search finds; non-trivial: at least 4 nodes visited and an edge count "
        "above the number of nodes, or a cycle")
ASSUMPTIONS = ["node numbers are 0 to N-1"]
COUNT = {"quick": 30000, "thorough": 600000}
CAP = {"quick": 20, "thorough": 300}
NONE = 0xffffffff


def setup(tier):
    driver.setup("graph", "san")


@st.composite
def strategy_(draw):
    kind = draw(st.sampled_from(["small"] * 6 + ["dag", "dag", "layers", "chain", "star", "tree", "any"]))
    c = {"kind": kind, "type": draw(st.sampled_from(["int", "size_t", "short"]))}
    if kind == "small":
        n = draw(st.integers(0, 9))
        acyclic = draw(st.booleans())
        e = draw(st.lists(st.tuples(st.integers(0, 8), st.integers(-1, 8)), max_size=20)) if n else []
        edges = []
        for a, b in e:
            a, b = a % n, -1 if b < 0 else b % n
            if acyclic and b >= a:
                if a == b:
                    continue
                a, b = b, a
            edges.append([a, b])
        c.update(n=n, edges=edges)
        if acyclic and n:
            c["perm"] = draw(st.integers(0, 10000))
    else:
        big = {"dag": 120, "layers": 60, "chain": 3000, "star": 2000, "tree": 2000, "any": 60}[kind]
        if kind == "chain" and c["type"] != "short" and draw(st.integers(0, 9)) == 9:
            big = 100000
        c.update(n=draw(st.integers(1, big)), seed=draw(st.integers(0, 1 << 30)), density=draw(st.integers(1, 8)), cycle=draw(st.sampled_from([0, 0, 0, 1, 2])), unresolved=draw(st.integers(0, 3)))
    c["from"] = draw(st.one_of(st.just(-1), st.integers(0, 1 << 20)))
    c["stop"] = draw(st.sampled_from([-1] * 10 + [0, 1, 5]))
    return c


def strategy(tier):
    return strategy_()


def build(c):
    n = c["n"]
    if c["kind"] == "small":
        edges = [list(e) for e in c["edges"]]
        if "perm" in c:
            p = list(range(n))
            random.Random(c["perm"]).shuffle(p)
            edges = [[p[a], -1 if b < 0 else p[b]] for a, b in edges]
        return n, edges
    r = random.Random(c["seed"])
    p = list(range(n))
    r.shuffle(p)
    k, d = c["kind"], c["density"]
    edges = []
    if k == "dag":
        edges = [[i, r.randrange(i)] for i in range(1, n) for _ in range(r.randrange(d + 1))]
    elif k == "layers":
        # many paths: each node of a layer to all of the next
        w = d + 1
        edges = [[i, j] for i in range(n) for j in range(max(0, (i // w - 1) * w), i // w * w)]
    elif k == "chain":
        edges = [[i, i - 1] for i in range(1, n)]
    elif k == "star":
        edges = [[i, 0] for i in range(1, n)] if d % 2 else [[n - 1, i] for i in range(n - 1)]
    elif k == "tree":
        edges = [[i, (i - 1) // (d + 1)] for i in range(1, n)]
        if d % 2:
            edges = [[n - 1 - b, n - 1 - a] for a, b in edges]
    else:
        edges = [[r.randrange(n), r.randrange(n)] for _ in range(r.randrange(2 * n))]
    if k != "any" and c["cycle"] and edges:
        for _ in range(c["cycle"]):
            a = r.randrange(n)
            b = r.randrange(n)
            edges.append([min(a, b), max(a, b)])
    for _ in range(c["unresolved"]):
        edges.append([r.randrange(n), -1])
    if c["density"] % 3 == 0:
        edges += [r.choice(edges) for _ in range(min(5, len(edges)))]
    r.shuffle(edges)
    return n, [[p[a], -1 if b < 0 else p[b]] for a, b in edges]


def reachable(n, out, starts):
    seen = [False] * n
    todo = list(starts)
    for s in todo:
        seen[s] = True
    while todo:
        a = todo.pop()
        for b in out[a]:
            if not seen[b]:
                seen[b] = True
                todo.append(b)
    return seen


def cyclic(n, out, inside):
    """whether the nodes inside hold a cycle (nodes without an open dependency are taken away until none is left)"""
    left = [0] * n
    back = [[] for _ in range(n)]
    for a in range(n):
        if inside[a]:
            for b in out[a]:
                left[a] += 1
                back[b].append(a)
    todo = [a for a in range(n) if inside[a] and left[a] == 0]
    done = 0
    while todo:
        b = todo.pop()
        done += 1
        for a in back[b]:
            left[a] -= 1
            if left[a] == 0:
                todo.append(a)
    return done != sum(inside)


def run_case(case, ctx):
    n, edges = build(case)
    if n == 0:
        case["from"] = -1
    start = -1 if case["from"] < 0 else case["from"] % n
    d = driver.get(ctx, "graph")
    out = [[] for _ in range(n)]
    for a, b in edges:
        if b >= 0:
            out[a].append(b)
    inside = reachable(n, out, range(n) if start < 0 else [start])
    cyc = cyclic(n, out, inside)
    raw = struct.pack(f"<{2 * len(edges)}I", *[NONE if x < 0 else x for e in edges for x in e])
    stop = "" if case["stop"] < 0 else case["stop"]
    r = d.call(case["type"], n, "all" if start < 0 else start, raw, stop, patience=ctx.patience)
    what = f"graph of {n} nodes" + (f", edges {edges}" if len(edges) < 40 else f" and {len(edges)} edges") + ("" if start < 0 else f", from {start}")
    status = r[0].decode()
    if stop != "":
        # an exception of the visitor gets through (unless a cycle was found first)
        if status == "ok" and sum(inside) > stop or status == "error" and not cyc:
            raise Violation(f"{what}: the visitor gave up after {stop} visits, but the traversal says {r}")
        if status != "stopped":
            return Info(False)
    elif cyc != (status == "error"):
        raise Violation(f"{what}: " + ("a cycle was not reported" if cyc else f"no cycle, but {r[1]!r}"))
    labels = [case["kind"], "cycle" if cyc else "no cycle", "all" if start < 0 else "one", "stopped" if stop != "" else "whole"]
    if status == "error":
        return Info(n > 1, labels)
    v = struct.unpack(f"<{len(r[1]) // 4}I", r[1])
    nodes, via = v[::2], v[1::2]
    if any(x >= n for x in nodes) or len(set(nodes)) != len(nodes):
        raise Violation(f"{what}: visited {nodes[:60]}, a node twice")
    if stop == "":
        missing = [x for x in range(n) if inside[x] and x not in set(nodes)] if len(nodes) != sum(inside) else []
        if len(nodes) != sum(inside) or not all(inside[x] for x in nodes):
            raise Violation(f"{what}: visited {nodes[:60]}, missing {missing[:60]}")
        if start >= 0 and nodes[-1] != start:
            raise Violation(f"{what}: the last node is {nodes[-1]}")
    at = {x: i for i, x in enumerate(nodes)}
    for a, b in edges:
        if b >= 0 and a in at and not (b in at and at[b] < at[a]):
            raise Violation(f"{what}: {a} was visited before {b}, on which it depends: {nodes[:60]}")
    if start >= 0:
        for x, e in zip(nodes, via):
            if x == start:
                continue
            if e >= len(edges) or edges[e][1] != x or not inside[edges[e][0]]:
                raise Violation(f"{what}: {x} was visited with edge {e if e != NONE else None}, which does not lead to it")
    return Info(len(nodes) >= 4 and len(edges) > len(nodes), labels)


close = driver.close
