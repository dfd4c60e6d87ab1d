"""C06: an ill-formed project is rejected before any recipe compiles anything."""

import json
import os
import posixpath

from hypothesis import strategies as st

from vlib import gen, proj
from vlib.runner import Info, Violation
from . import common

ID = "C06"
LEVEL = "exploration"
RULE = ("generated well-formed projects with one or two generated changes (an added reference anywhere, to anything or to nothing; "
        "an added target of any name; damaged tags); a reference model decides which of them are ill-formed and the program has "
        "to reject exactly those; non-trivial: the changed project is ill-formed and has at least 3 recipes")
ASSUMPTIONS = ["the reference model's notion of cycle, unresolved reference and duplicate target"]
COUNT = {"quick": 6000, "thorough": 90000}
CAP = {"quick": 40, "thorough": 420}


def setup(tier):
    proj.setup("opt")


# damage to the tags of a file: name -> function(text of the tags, tags) -> new text
def _syntax(f):
    return lambda text, tags: f(text)


def _obj(f):
    def g(text, tags):
        t = json.loads(json.dumps(tags))
        t = f(t)
        return json.dumps(t, indent=1, ensure_ascii=False)
    return g


def _set(key, value):
    def f(t):
        t[key] = value
        return t
    return _obj(f)


DAMAGE = {
    "cut": _syntax(lambda s: s.rstrip()[:-1]),
    "cut in half": _syntax(lambda s: s[:max(1, len(s) // 2)]),
    "junk": _syntax(lambda s: "junk " + s),
    "no brackets": _syntax(lambda s: "hello"),
    "comma": _syntax(lambda s: s.rstrip()[:-1] + ', "zz": 1,}'),
    "unquoted": _syntax(lambda s: s.rstrip()[:-1] + ', zz: 1}' if ":" in s else "{zz: 1}"),
    "array": _syntax(lambda s: "[" + s + "]"),
    "open string": _syntax(lambda s: '{"target": {"name": "x'),
    "wrong bracket": _syntax(lambda s: s.rstrip()[:-1] + "]"),
    "target is array": _set("target", ["x"]),
    "target is string": _set("target", "x"),
    "target without name": _set("target", {"nam": "x"}),
    "target name is number": _set("target", {"name": 1}),
    "targets is object": _set("targets", {"name": "x"}),
    "targets of strings": _set("targets", ["x"]),
    "deps is object": _set("dependencies", {"ref": "x"}),
    "deps of strings": _set("dependencies", ["x"]),
    "dep without ref": _set("dependencies", [{"origin": "system"}]),
    "dep ref is number": _set("dependencies", [{"ref": 1}]),
    "dep bad origin": _set("dependencies", [{"ref": "./x", "origin": "elsewhere"}]),
    "dep origin is number": _set("dependencies", [{"ref": "./x", "origin": 1}]),
    "extra is string": _set("dependencies_extra", "x"),
    "extra without ref": _set("dependencies_extra", [{}]),
    "compiler is string": _set("compiler", "x"),
    "compiler config is string": _set("compiler", {"recipe": "rec", "config": "x"}),
    "rebuild unknown": _set("rebuild", "sometimes"),
    "rebuild is number": _set("rebuild", 1),
}
# of these, the ones where the text is not JSON: the message has to name the file
SYNTAX = {"cut", "cut in half", "junk", "no brackets", "comma", "unquoted", "open string", "wrong bracket"}

damage = st.tuples(st.just("damage"), st.integers(0, 99), st.sampled_from(sorted(DAMAGE)))
# reference from file k to file/target j (by number), as include / dependency / extra / target dependency
refs = st.tuples(st.just("ref"), st.integers(0, 99), st.integers(0, 99),
                 st.sampled_from(["dep", "dep", "inc", "extra", "tdep"]), st.sampled_from(["up", "up", "up", "self", "any"]))
missing = st.tuples(st.just("missing"), st.integers(0, 99), st.sampled_from(["./nope.hpp", "no/where.hpp", "./nope.gen.hpp", "m0.hppx",
                                                                             "../out.hpp", "./m1.O", "M0.hpp"]),
                    st.sampled_from(["inc", "inc", "dep project", "dep generated", "extra project", "extra generated",
                                     "tdep project", "tdep generated", "dep system", "extra system", "tdep system",
                                     "dep pkg-config", "extra pkg-config"]))
dup = st.tuples(st.just("dup"), st.integers(0, 99), st.integers(0, 99), st.sampled_from(["plain", "dots", "dir", "same", "fresh"]))


@st.composite
def strategy_(draw):
    c = draw(gen.project(max_mods=10, min_mods=2, odd=draw(st.booleans())))
    c["mut"] = [draw(st.one_of(damage, refs, refs, missing, dup)) for _ in range(draw(st.sampled_from([1, 1, 1, 2])))]
    c["workers"] = draw(st.sampled_from([1, 2, 8]))
    c["stale"] = draw(st.booleans())
    return c


def strategy(tier):
    return strategy_()


def tl(f):
    t = f["tags"]
    return ([t["target"]] if "target" in t else []) + t.get("targets", [])


def run_case(case, ctx):
    files = case["files"]
    taggable = [f for f in files if f["k"] in ("cxx", "cxxl", "rule", "app", "lib", "ext")]
    if not taggable:
        return Info(False, ["nothing to change"])
    m0 = common.model_of(case)
    m0.validate()
    n_rec = len([n for n in m0.compiled() if not m0.nodes[n].isdir])
    labels = []
    damaged = {}
    for mu in case["mut"]:
        f = taggable[mu[1] % len(taggable)]
        if f["p"] in damaged:
            continue
        d = posixpath.dirname(f["p"])
        if f.get("tags") is None and mu[0] != "damage":
            f["tags"] = {}
        if mu[0] == "damage":
            damaged[f["p"]] = mu[2]
            labels.append("damage: " + mu[2])
        elif mu[0] == "ref":
            me = m0.source_name(f["p"])
            # "up": something that already depends on this file, so that the new reference closes a cycle
            if mu[4] == "self":
                pool = [me] + [t for t, _ in m0.nodes[me].targets]
            elif mu[4] == "up":
                pool = sorted(n for n in m0.nodes if me in m0.closure(n) and not m0.nodes[n].isdir)
            else:
                pool = sorted(n for n in m0.nodes if not m0.nodes[n].isdir and m0.nodes[n].name not in m0.external)
            pool = [n for n in pool if n in m0.file_targets() or n in m0.source_set()]
            if not pool:
                continue
            other = pool[mu[2] % len(pool)]
            gen_ = other in m0.targets
            rel = os.path.relpath(other, m0.tgt) if gen_ else other
            ref = {"ref": "./" + os.path.relpath(rel, d or "."), "origin": "generated" if gen_ else "project"}
            how = mu[3]
            if how == "inc" and (f["k"] not in ("cxx", "cxxl") or (gen_ and not rel.endswith(".gen.hpp"))
                                 or (not gen_ and rel.endswith(".gen.hpp"))):
                how = "dep"
            if how == "tdep" and not tl(f):
                how = "dep"
            if how == "inc":
                f.setdefault("inc", []).append(["q", ref["ref"]])
            elif how == "tdep":
                tl(f)[0].setdefault("dependencies", []).append(ref)
            else:
                f["tags"].setdefault("dependencies" if how == "dep" else "dependencies_extra", []).append(ref)
            labels.append(f"ref {mu[4]} {how}")
        elif mu[0] == "missing":
            how = mu[3].split()
            ref = mu[2]
            if how[0] == "inc" and f["k"] in ("cxx", "cxxl"):
                f.setdefault("inc", []).append(["q", ref])
            else:
                o = {"ref": ref, "origin": how[1] if len(how) > 1 else "project"}
                if how[0] == "tdep" and tl(f):
                    tl(f)[0].setdefault("dependencies", []).append(o)
                else:
                    f["tags"].setdefault("dependencies_extra" if how[0] == "extra" else "dependencies", []).append(o)
            labels.append("missing " + mu[3])
        else:
            ts = sorted(m0.targets)
            fresh = mu[3] == "fresh"
            if mu[3] == "dir":
                ts = [t for t in ts if m0.nodes[m0.targets[t]].isdir and t != m0.tgt] or ts
            elif mu[3] == "same":
                ts = [t for t, _ in m0.nodes[m0.source_name(f["p"])].targets] or ts
            t = os.path.relpath(ts[mu[2] % len(ts)], m0.tgt)
            name = "fresh.name" if fresh else os.path.relpath(t, d or ".")
            if posixpath.basename(name) in (".", ".."):
                continue    # names no file
            if mu[3] == "dots":
                name = "./" + name
            if "target" in f["tags"]:
                f["tags"]["targets"] = [f["tags"].pop("target")]
            f["tags"].setdefault("targets", []).append({"name": name})
            labels.append("dup " + mu[3])
    for f in files:
        if f["p"] in damaged:
            tags = f.get("tags") or {}
            text = DAMAGE[damaged[f["p"]]](json.dumps(tags, indent=1, ensure_ascii=False), tags)
            if f["k"] in ("cxx", "cxxl"):
                f["raw"] = "\n".join("//@ " + x for x in text.split("\n")) + "\n" + proj.render(dict(f, tags=None)).decode()
            elif f["k"] == "ext":
                f["raw"] = proj.SCRIPT % "\n".join("#@ " + x for x in text.split("\n"))
            else:
                f["raw"] = text + "\n"
    root, p = common.materialise(ctx, case)
    why, culprit = None, ""
    if damaged:
        why = "tags"
    else:
        try:
            m = common.model_of(case)
            bad = m.unresolved()
            if bad:
                why, culprit = "unresolved", bad
            elif m.cyclic():
                why = "cycle"
        except proj.Reject as e:
            why, culprit = e.what, e.culprit
    if why == "unresolved" and case.get("stale"):
        # what is missing was made once, by something that is gone now
        for _, n in culprit:
            if n.startswith(m0.tgt + "/") and not os.path.exists(os.path.join(p, n)):
                os.makedirs(os.path.dirname(os.path.join(p, n)), exist_ok=True)
                with open(os.path.join(p, n), "w") as f:
                    f.write("old\n")
                labels.append("stale file")
    r = proj.run_maike(p, [f"--num-workers={case['workers']}"], log=os.path.join(root, "log"), ctx=ctx)
    proj.must_end(r, "the build of an ill-formed project" if why else "maike2")
    labels.append(why or "still well-formed")
    if why is None:
        if r.rc != 0:
            raise Violation("a well-formed project is rejected\n" + r.text())
        return Info(False, labels)
    if r.verbs("compile"):
        raise Violation(f"the project is ill-formed ({why}: {culprit}), but recipes were run\n" + r.text(), history=r.events)
    if r.rc == 0:
        raise Violation(f"the project is ill-formed ({why}: {culprit}), but the build succeeds\n" + r.text())
    err = r.err.decode(errors="replace")
    labels += ["two changes"] * (len(case["mut"]) > 1)
    if len(case["mut"]) > 1:
        return Info(n_rec >= 3, labels)     # either of two errors may be the one reported
    if why == "unresolved" and not any(n in err for _, n in culprit):
        raise Violation(f"stderr does not name any of the missing files {culprit}\n" + r.text())
    if why == "duplicate" and culprit not in err:
        raise Violation(f"stderr does not name the target {culprit}, which is declared twice\n" + r.text())
    if why == "cycle" and "cycl" not in err.lower():
        raise Violation("stderr does not say that there is a cycle\n" + r.text())
    if why == "tags":
        if len(damaged) == len(case["mut"]) and set(damaged.values()) <= SYNTAX and not any(q in err for q in damaged):
            raise Violation(f"stderr does not name the file with the syntax error {list(damaged)}\n" + r.text())
    return Info(n_rec >= 3, labels)
