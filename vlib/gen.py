"""Hypothesis strategies for projects (see proj.py for the format)."""

import posixpath

from hypothesis import strategies as st

PLAIN = ["a", "b", "core", "io", "x1", "util"]
ODD = ["a b", "it's", "x$y", "ü-ß", "semi;colon", "par(en)", "back\\slash", "#hash", "star*", "tilde~", "dash-", "q?x",
       "com,ma", "amp&er", "%41", "=eq", "日本", "!bang", "[br]", "`tick`", "<lt>", "~", "~root", "~", "{a,b}"]
ODDQ = ["say \"hi\"", "tab\there"]

small = st.integers(0, 2)


@st.composite
def dirs_st(draw, odd=False, max_dirs=4):
    n = draw(st.integers(0, max_dirs))
    out = [""]
    for i in range(n):
        parent = out[draw(st.integers(0, len(out) - 1))]
        name = draw(st.sampled_from(ODD + PLAIN)) if odd else draw(st.sampled_from(PLAIN))
        d = posixpath.join(parent, name)
        if d not in out:
            out.append(d)
    return out


def spell(draw, frm_dir, path, simple=False):
    """one of the ways to write the project path `path` in a file in frm_dir"""
    w = 0 if simple else draw(st.integers(0, 3))
    rel = posixpath.relpath(path, frm_dir or ".") if True else path
    if w == 0:
        return "./" + rel
    if w == 1:
        return path
    if w == 2:
        return "./zz/../" + rel
    d = posixpath.dirname(path)
    return (d + "/./" if d else "zz/../") + posixpath.basename(path)


class P:
    """What later modules can refer to."""

    def __init__(self):
        self.headers, self.gens, self.genheaders, self.objs, self.plain = [], [], [], [], []


def pick(draw, pool, most):
    if not pool:
        return []
    n = draw(st.integers(0, most))
    return list(dict.fromkeys(pool[draw(st.integers(0, len(pool) - 1))] for _ in range(n)))


CFG = st.sampled_from([
    {}, {"cflags": ["-O2"]}, {"cflags": ["-Wall", "-DX='a b'"], "opt": True}, {"nested": {"k": {"z": [1, 2.5, None, "s"]}}},
    {"std": {"min": "20", "max": "23"}}, {"flag": False, "name": "it's \"quoted\" $HOME `x` \\ \u00fc"}, {"n": -7, "r": 0.125},
])

KINDS = ["mod", "mod", "mod", "hdr", "src", "gen", "gen", "app", "lib", "test", "ext", "dat", "txt", "multi"]


@st.composite
def project(draw, max_mods=10, odd=False, always=False, cfg=True, kinds=None, min_mods=1, project_recipe=True,
            deep=True, external=True, spelling=True):
    """A well-formed project: {"files": [...], "dirs": [...]}. Module i refers to modules before i only."""
    if odd:
        odd = draw(st.booleans())
    dirs = draw(dirs_st(odd=odd))
    n = draw(st.integers(min_mods, max_mods))
    prov = P()
    files = []
    recipes = []
    if project_recipe and draw(st.integers(0, 4)) == 4:
        d = dirs[draw(st.integers(0, len(dirs) - 1))]
        files.append({"p": posixpath.join(d, "recipe.bin"), "k": "recipe", "v": 0})
        recipes.append(files[-1]["p"])

    def refs(frm, pool, most, origin, **props):
        out = []
        for p in pick(draw, pool, most):
            o = {"ref": spell(draw, frm, p, not spelling), "origin": origin}
            if origin == "generated" and draw(st.booleans()):
                del o["origin"]
            o.update(props)
            out.append(o)
        return out

    def tags_misc(tags):
        if cfg and draw(st.integers(0, 4)) == 4:
            c = {"config": draw(CFG)}
            if recipes and draw(st.booleans()):
                c["recipe"] = recipes[0]
            elif draw(st.booleans()):
                c["recipe"] = "rec"
            tags["compiler"] = c
        if always and draw(st.integers(0, 5)) == 5:
            tags["rebuild"] = "always"
        elif draw(st.integers(0, 15)) == 15:
            tags["rebuild"] = "only_if_out_of_date"
        return tags

    def target(name, **more):
        t = {"name": name}
        t.update(more)
        return {"targets": [t]} if draw(st.booleans()) else {"target": t}

    for i in range(n):
        kind = draw(st.sampled_from(kinds or KINDS))
        d = dirs[draw(st.integers(0, len(dirs) - 1))]
        base = f"m{i}"
        if odd and draw(st.booleans()):
            base += draw(st.sampled_from(ODD))
        here = posixpath.join(d, base)

        def includes(most=3, own=None):
            inc = []
            if own:
                inc.append(["q", spell(draw, d, own, not spelling)])
            for h in pick(draw, prov.headers, most):
                inc.append(["q", spell(draw, d, h, not spelling)])
            for h in pick(draw, prov.genheaders, 1):
                inc.append(["q", spell(draw, d, h, not spelling)])
            if external and draw(st.booleans()):
                inc.append(["a", draw(st.sampled_from(["vector", "sys/x.h", "string"]))])
            return inc

        if kind in ("mod", "hdr"):
            tags = {}
            if kind == "mod":
                tags["dependencies_extra"] = [{"ref": "./" + base + ".o", "rel": "implementation"}]
            ex = tags.get("dependencies_extra", [])
            ex = ex + refs(d, prov.objs, 1, "generated", rel="implementation")
            if external and draw(st.integers(0, 3)) == 3:
                ex.append({"ref": draw(st.sampled_from(["pthread", "m", "dl"])), "rel": "external", "origin": "system"})
            if external and draw(st.integers(0, 5)) == 5:
                ex.append({"ref": draw(st.sampled_from(["zlib", "jansson"])), "origin": "pkg-config"})
            if ex:
                tags["dependencies_extra"] = ex
            files.append({"p": here + ".hpp", "k": "cxx", "inc": includes(2), "tags": tags or None, "v": 0})
            if kind == "mod":
                t = tags_misc(target(base + ".o"))
                dp = refs(d, prov.plain, 1, "project") + refs(d, prov.gens, 1, "generated")
                if dp:
                    t["dependencies"] = dp
                files.append({"p": here + ".cpp", "k": "cxx", "inc": includes(2, here + ".hpp"), "tags": t, "v": 0})
                prov.objs.append(here + ".o")
            prov.headers.append(here + ".hpp")
        elif kind == "src":
            t = tags_misc(target(base + ".o"))
            files.append({"p": here + ".cpp", "k": "cxx", "inc": includes(3), "tags": t, "v": 0})
            prov.objs.append(here + ".o")
        elif kind == "gen":
            name = base + (".gen.hpp" if draw(st.booleans()) else ".out")
            t = tags_misc(target(name))
            dp = refs(d, prov.gens, 2, "generated") + refs(d, prov.plain, 2, "project") \
                + refs(d, prov.headers, 1, "project") + refs(d, prov.objs, 1, "generated")
            if dp:
                t["dependencies"] = dp
            files.append({"p": here + ".rule", "k": "rule", "tags": t, "v": 0})
            (prov.genheaders if name.endswith(".gen.hpp") else prov.gens).append(posixpath.join(d, name))
        elif kind == "multi":
            names = [f"{base}.{k}.out" for k in range(draw(st.integers(2, 4)))]
            several = {"targets": [{"name": x} for x in names]}
            if draw(st.integers(0, 2)) == 2:
                several["target"] = several["targets"].pop(0)
            t = tags_misc(several)
            dp = refs(d, prov.gens, 2, "generated") + refs(d, prov.plain, 1, "project")
            if dp:
                t["dependencies"] = dp
            files.append({"p": here + ".rule", "k": "rule", "tags": t, "v": 0})
            prov.gens += [posixpath.join(d, x) for x in names]
        elif kind == "app":
            t = tags_misc(target(base))
            dp = refs(d, prov.objs, 3, "generated", rel="implementation") + refs(d, prov.gens, 1, "generated")
            if dp:
                t["dependencies"] = dp
            files.append({"p": here + ".app.rule", "k": "app", "tags": t, "v": 0})
        elif kind == "lib":
            deps = refs(d, prov.objs, 3, "generated", rel="implementation")
            for o in deps:
                o["origin"] = "generated"
            more = {}
            if deps:
                more["dependencies"] = deps
            if external and draw(st.integers(0, 3)) == 3:
                more["pkgconfig_libs"] = ["zlib"]
            t = tags_misc(target(base + ".a", **more))
            files.append({"p": here + ".lib.rule", "k": "lib", "tags": t, "v": 0})
            prov.objs.append(here + ".a")
        elif kind == "test":
            t = tags_misc(target(base + ".test"))
            files.append({"p": here + ".test.cpp", "k": "cxxl", "inc": includes(3), "tags": t, "v": 0})
        elif kind == "ext":
            t = target(base + ".out")
            if always and draw(st.integers(0, 5)) == 5:
                t["rebuild"] = "always"
            dp = refs(d, prov.gens, 1, "generated") + refs(d, prov.plain, 2, "project")
            if dp:
                t["dependencies"] = dp
            files.append({"p": here + ".sh", "k": "ext", "tags": t, "v": 0})
            prov.gens.append(here + ".out")
        elif kind == "dat":
            files.append({"p": here + ".dat", "k": "dat", "v": 0})
            prov.gens.append(here + ".dat.out")
            prov.plain.append(here + ".dat")
        else:
            files.append({"p": here + ".txt", "k": "txt", "v": 0})
            prov.plain.append(here + ".txt")
    return {"files": files, "dirs": [x for x in dirs if x]}
