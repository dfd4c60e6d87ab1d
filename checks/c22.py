"""C22: recipes are found, configured and asked for tags as documented."""

import json
import os
import posixpath
import shutil

from hypothesis import strategies as st

from vlib import gen, proj
from vlib.runner import Info, Violation
from . import common

ID = "C22"
LEVEL = "exploration"
RULE = ("generated projects whose files, loaders and directories use up to 7 recipes, placed in the project, in the installation, in both (or shadowed by a directory of the same name) or nowhere; the recipes print settings of 0 to 100 kB "
        "made from those given, or nothing, when configured, and targets and dependencies when asked for tags; in some cases one of them fails or prints something else; compared with the reference model: which program got "
        "each file with which settings, targets and dependencies, or that nothing was compiled; non-trivial: at least 3 recipes are used, or a failure is expected")
ASSUMPTIONS = ["settings fit into what the system allows for one argument (128 kB)", "something after a complete JSON document is not looked at"]
COUNT = {"quick": 4000, "thorough": 60000}
CAP = {"quick": 40, "thorough": 420}

NAMES = ["alpha", "beta.sh", "tools/gamma", "tools/alpha", "rec", "./alpha", "copy_file.py", "r b"]
PLACES = ["project", "installed", "installed", "both", "both", "dir"]
GARBAGE = ["{", "[]", "[1]", "nonsense", "\"x\"", "{\"a\":1,}", "{\"a\":}", "{\"target\"", "{\"a\":\"\u00e9", "3", "null", "{'a':1}"]
BADTAGS = ["{\"target\":{}}", "{\"targets\":[3]}", "{\"dependencies\":[{\"origin\":\"project\"}]}", "{\"dependencies\":[{\"ref\":\"x\",\"origin\":\"nowhere\"}]}"]
FAULTS = ["exit", "signal", "garbage", "missing", "noexec", "badtags"]


def setup(tier):
    proj.setup("opt")


@st.composite
def strategy_(draw):
    c = draw(gen.project(max_mods=7, min_mods=1, project_recipe=False, cfg=False, odd=draw(st.integers(0, 5)) == 5))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5, unique=True))
    place = {}
    for n in names:
        place[gen.posixpath.normpath(n)] = draw(st.sampled_from(PLACES))
    place["rec"] = draw(st.sampled_from(["installed", "both"])) if "rec" in place else "installed"
    names.append("rec")
    c["place"] = place
    conf = {}
    for n in place:
        for w in "pi":
            conf[w + n] = draw(st.sampled_from([-1, -1, 0, 1, 70, 4000, 30000, 66000, 100000]))
    c["conf"] = conf
    used = [draw(st.sampled_from(names)) for _ in range(8)]
    c["loaders"] = {k: used[i] for i, k in enumerate(["cxx", "cxxl", "rule", "lib", "app", "dat"])}
    c["dir"] = used[6]
    c["ask"] = [k for k in ["cxx", "cxxl", "rule", "lib", "app", "dat", "ext"] if draw(st.integers(0, 2)) == 2]
    tags = {}
    plain, dats = [], []
    if place.get("beta.sh") in ("project", "both"):
        c["note"] = draw(st.booleans())
    for i, f in enumerate(c["files"]):
        if f["k"] == "txt":
            plain.append(f["p"])
            continue
        if f["k"] in ("cxx", "cxxl", "rule", "app", "lib", "ext") and draw(st.integers(0, 3)) == 3:
            own = {"config": draw(gen.CFG)}
            if f["k"] == "ext" or draw(st.booleans()):
                own["recipe"] = draw(st.sampled_from(names + ([""] if f["k"] == "ext" else [])))
            if draw(st.booleans()):
                own["use_get_tags"] = draw(st.sampled_from([1, 0, 2, -1]))
            f["tags"] = dict(f.get("tags") or {})
            f["tags"]["compiler"] = own
        here = posixpath.dirname(f["p"])
        if draw(st.integers(0, 2)):
            t = {}
            if f["k"] != "lib":
                new = []
                for k in range(draw(st.integers(0, 2))):
                    x = {"name": f"xt{i}.{k}"}
                    deps = [{"ref": gen.spell(draw, here, p), "origin": "generated"} for p in gen.pick(draw, [d + ".out" for d in dats], 2)]
                    deps += [{"ref": gen.spell(draw, here, p), "origin": "project"} for p in gen.pick(draw, plain, 1)]
                    if draw(st.booleans()):
                        deps.append({"ref": "lib%d" % k})
                    if deps:
                        x["dependencies"] = deps
                    new.append(x)
                if new and draw(st.booleans()):
                    t["target"] = new.pop()
                if new:
                    t["targets"] = new
            for key in ("dependencies", "dependencies_extra"):
                deps = [{"ref": gen.spell(draw, here, p), "origin": "generated", "rel": "found"} for p in gen.pick(draw, [d + ".out" for d in dats], 2)]
                deps += [{"ref": gen.spell(draw, here, p), "origin": "project"} for p in gen.pick(draw, plain, 2)]
                if draw(st.integers(0, 2)) == 2:
                    deps.append({"ref": "m", "origin": "system"})
                if deps:
                    t[key] = deps
            if t or draw(st.booleans()):
                tags[f["p"]] = t
        if f["k"] == "dat":
            dats.append(f["p"])
    c["tags"] = tags
    c["err"] = draw(st.sampled_from([0, 0, 0, 0, 50, 70000]))
    c["fault"] = [draw(st.sampled_from(FAULTS)), draw(st.sampled_from(["configure", "tags"])), draw(st.integers(0, 50)), draw(st.integers(0, 50))] if draw(st.integers(0, 2)) == 2 else None
    c["src"] = draw(st.sampled_from([".", ".", ".", "sub"]))
    c["dry"] = draw(st.integers(0, 5)) == 5
    c["workers"] = draw(st.sampled_from([1, 4]))
    return c


def strategy(tier):
    return strategy_()


def script(conf, head=""):
    return f"#!/bin/sh\n{head}VREC_CONF='{conf}' VREC_SELF=\"$0\" exec \"$VREC_BIN\" \"$@\"\n"


def pad(n):
    return "".join(chr(97 + (i * 7 + i // 26) % 26) for i in range(n))


def wrapped(cfg, n):
    return cfg if n < 0 else {"was": cfg, "pad": pad(n)}


def run_case(case, ctx):
    base = ctx.scratch()
    # an installation of its own, with the recipes of this case
    pre = os.path.join(base, "prefix")
    rdir = os.path.join(pre, "lib/maike2/recipes")
    os.makedirs(rdir)
    os.makedirs(os.path.join(pre, "bin"))
    for n in ("maike2", "maike2.key"):
        a, b = os.path.join(proj.PREFIX["opt"], "bin", n), os.path.join(pre, "bin", n)
        try:
            os.link(a, b)
        except OSError:
            shutil.copy2(a, b)
    ctl = os.path.join(base, "ctl")
    os.makedirs(ctl)
    cwd = os.path.join(base, "w")
    src = case["src"]
    tgt = "__targets" if src == "." else "sub_targets"
    files = json.loads(json.dumps(case["files"]))
    dirs = list(case["dirs"])
    for n, where in case["place"].items():
        confs = {w: (w + n).replace("/", "%").replace(" ", "_") for w in "pi"}
        for w in "pi":
            if case["conf"][w + n] >= 0:
                with open(os.path.join(ctl, "f" + confs[w]), "w") as o:
                    o.write(f"cfgwrap {case['conf'][w + n]}\n" + (f"err {case['err']}\n" if case["err"] else ""))
        if where in ("project", "both"):
            head = ""
            f = {"p": n, "k": "recipe"}
            if n == "beta.sh":
                f["k"] = "ext"
                if case["note"]:
                    f["tags"] = {"dependencies": [{"ref": "note.txt", "origin": "project"}]}
                    head = "#@ " + json.dumps(f["tags"]) + "\n"
                    files.append({"p": "note.txt", "k": "txt"})
            f["raw"] = script(confs["p"], head)
            files.insert(0, f)
        if where in ("installed", "both", "dir"):
            p = os.path.join(rdir, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as o:
                o.write(script(confs["i"]))
            os.chmod(p, 0o755)
        if where == "dir":
            dirs.append(n)
    config = json.loads(json.dumps(proj.BASE_CONFIG))
    config["dir_compiler"]["recipe"] = case["dir"]
    for k, n in case["loaders"].items():
        config["source_file_info_loaders"][k]["compiler"]["recipe"] = n
    for k in case["ask"]:
        config["source_file_info_loaders"][k]["compiler"]["use_get_tags"] = 1

    def configured(recipe, cfg):
        if recipe == "":
            return cfg
        if os.path.isabs(recipe):
            return wrapped(cfg, case["conf"]["i" + os.path.relpath(recipe, rdir)])
        return wrapped(cfg, case["conf"]["p" + posixpath.relpath(recipe, src)])

    def model():
        return proj.Model(files, config, src=src, tgt=tgt, dirs=dirs, recipe_dir=rdir, extra_tags=case["tags"], configured=configured)
    m = model()
    m.validate()
    byname = {m.source_name(f["p"]): f for f in files}
    if any(n.cfg is None for n in m.nodes.values()):
        return Info(False, ["settings can't be merged"])
    asked = {}
    for name, f in byname.items():
        loader = m.loader_of(f["p"])
        if loader is not None:
            own = (f.get("tags") or {}).get("compiler", {}) if "raw" not in f else {}
            if (own or loader["compiler"]).get("use_get_tags", 0):
                asked[name] = m.nodes[name].recipe or name
    for p, t in case["tags"].items():
        q = os.path.join(base, "tags%d" % len(os.listdir(base)))
        with open(q, "w") as o:
            json.dump(t, o)
        with open(os.path.join(ctl, "f" + m.source_name(p).replace("/", "%")), "w") as o:
            o.write(f"tags {q}\n" + (f"err {case['err']}\n" if case["err"] else ""))
    used = sorted({n.recipe for n in m.nodes.values() if n.recipe})
    used = sorted(set(used) | {m.recipe_dep(f["tags"]["compiler"].get("recipe", ""))[0] for f in files if (f.get("tags") or {}).get("compiler")} - {""}
                  | {m.recipe_dep(x["compiler"]["recipe"])[0] for x in config["source_file_info_loaders"].values()} - {""} | {m.recipe_dep(case["dir"])[0]})
    proj.write_project(os.path.join(cwd, src), files, config, dirs)

    fault = case["fault"]
    label = "no failure"
    if fault:
        what, step, i, j = fault
        victim = used[i % len(used)]
        real = victim if os.path.isabs(victim) else os.path.join(cwd, victim)
        label = f"{what} at {step}"
        if what == "missing":
            label = what
            # neither here nor there: take both away
            rel = posixpath.relpath(victim, src) if not os.path.isabs(victim) else os.path.relpath(victim, rdir)
            os.unlink(real)
            if case["place"][rel] == "both":
                os.unlink(os.path.join(rdir, rel))
        elif what == "noexec":
            label = what
            os.chmod(real, 0o644)
        else:
            if step == "configure" and what != "badtags":
                rel = posixpath.relpath(victim, src) if not os.path.isabs(victim) else os.path.relpath(victim, rdir)
                order = os.path.join(ctl, "f" + (("i" if os.path.isabs(victim) else "p") + rel).replace("/", "%").replace(" ", "_"))
            else:
                step = "tags"
                label = f"{what} at {step}"
                if not asked:
                    return Info(False, ["nobody is asked"])
                order = os.path.join(ctl, "f" + sorted(asked)[i % len(asked)].replace("/", "%"))
            if what in ("garbage", "badtags"):
                lst = GARBAGE if what == "garbage" else BADTAGS
                q = os.path.join(base, "garbage")
                with open(q, "wb") as o:
                    o.write(lst[j % len(lst)].encode("latin-1"))
                text = f"{'cfgout' if step == 'configure' else 'tags'} {q}\n"
            else:
                n = [1, 2, 77, 255][j % 4] if what == "exit" else [15, 9, 6, 1][j % 4]
                text = (open(order).read() if os.path.exists(order) else "") + f"{what} {n}\n"
                if step == "tags" and "tags" not in text:
                    text += "tags /dev/null\n"
            with open(order, "w") as o:
                o.write(text)

    args = [f"--num-workers={case['workers']}"] + ([f"--source-dir={src}"] if src != "." else [])
    dry = case["dry"] and fault
    r = proj.run_maike(cwd, args + (["--dry-run"] if dry else []), log=os.path.join(base, "log"), ctl=ctl, ctx=ctx, exe=os.path.join(pre, "bin/maike2"))
    if fault:
        proj.must_end(r)
        if r.rc == 0:
            raise Violation(f"{label} ({victim}): the build does not fail\n" + r.text())
        if r.compiles():
            raise Violation(f"{label} ({victim}): {r.compiles()[0][0]} was compiled all the same\n" + r.text())
        if not r.err:
            raise Violation(f"{label} ({victim}): nothing says what went wrong\n" + r.text())
        if os.path.exists(os.path.join(cwd, tgt)):
            raise Violation(f"{label} ({victim}): something was made all the same\n" + r.text())
        return Info(True, [label])
    proj.must_succeed(r)
    common.check_arguments(m, r, cwd, src, tgt)
    must = set(m.compiled())
    ran = {x[0] for x in r.compiles()}
    if ran - must or {n for n in must if not m.nodes[n].isdir} - ran:
        raise Violation(f"compiled but without targets: {sorted(ran - must)}, not compiled: {sorted(must - ran)}\n" + r.text())
    common.compare_targets(proj.list_targets(cwd, tgt), {os.path.relpath(t, tgt): c for t, c in proj.expected_contents(m).items()}, "after the build")
    got = {proj.norm(e["arg"]["source_file"]): e for e in r.verbs("get_tags") if "arg" in e}
    for name, recipe in asked.items():
        if name not in got:
            raise Violation(f"the recipe for {name} was not asked for tags\n" + r.text())
        if not common.same_program(cwd, got[name]["self"], recipe):
            raise Violation(f"{got[name]['self']} was asked for the tags of {name}, which is compiled with {recipe}\n" + r.text())
        if not common.same_json(got[name]["arg"]["compiler_cfg"], m.nodes[name].cfg):
            raise Violation(f"{recipe} was asked for the tags of {name} with settings that are not those of the file\n" + str(got[name]["arg"])[:800])
    if set(got) - set(asked):
        raise Violation(f"tags of {sorted(set(got) - set(asked))} were asked for, which nothing calls for\n" + r.text())
    if case["err"] and any(case["conf"][("i" if os.path.isabs(u) else "p") + (os.path.relpath(u, rdir) if os.path.isabs(u) else posixpath.relpath(u, src))] >= 0 for u in used):
        text = expected_err(case["err"])
        if text.encode() not in r.err:
            raise Violation("what a recipe wrote to stderr when configured does not appear\n" + r.text())
    labels = [label] + sorted({case["place"][posixpath.normpath(n)] for n in list(case["loaders"].values())})
    if asked:
        labels.append("tags asked for")
    if any(case["tags"].get(posixpath.relpath(n, src)) for n in asked):
        labels.append("tags added")
    return Info(len(used) >= 3, labels)


def expected_err(n):
    return "".join("\n" if p % 61 == 60 else chr(97 + (p // 61 + p * 7 + 2) % 26) for p in range(n))
