"""C26: no input makes the program crash, hang or behave undefined."""

import json
import os
import shutil

from hypothesis import strategies as st

from vlib import gen, proj
from vlib.runner import Info, Violation
from . import common

ID = "C26"
LEVEL = "exploration"
RULE = ("a generated project is damaged in 1 to 6 places (bytes of sources, tags or rule files; values of the configuration or its text; what recipes print at the configure and tags steps; files replaced by "
        "directories and links; options), and built with the program compiled with AddressSanitizer and UndefinedBehaviorSanitizer, or ThreadSanitizer; it has to end by itself, without a report of a sanitizer, and with "
        "a message if the exit status is not 0; the list of targets, and whether there is one, must be the same for 1 and 8 workers; non-trivial: at least 5 files, and a damage that has an effect on the outcome or on the list of targets")
ASSUMPTIONS = ["no symbolic links to a directory above, no FIFOs or devices in the tree", "scripts are damaged in their tags only, since they would be run"]
COUNT = {"quick": 1500, "thorough": 30000}
CAP = {"quick": 60, "thorough": 600}

TOKENS = ["", "\"", "'", "R\"(", ")\"", "R\"abcdefghijklmnopq(", "/*", "*/", "//", "//@", "//@ {", "#@", "#@ }", "\\", "\\\n", "\n", "\r\n", "\r", "\t", "{", "}", "[", "]", ",", ":", "\0", "\x7f", "\x1f", "\xff", "\xc3", "\xed\xa0\x80",
          "\xef\xbb\xbf", "#include", "#include \"", "#include <x", "#include \"\"", "#include <>\n", "#", "# include\n", "null", "true", "1e999", "-", "0x", "-0", "123456789012345678901234567890", "\"\\ud800\"", "\"\\u0000\"", "{}", "[]",
          "{\"target\":{\"name\":\"\"}}", "{\"targets\":{}}", "{\"target\":[]}", "{\"target\":{\"name\":1}}", "\"dependencies\":[{}],", "\"dependencies\":[1],", "\"compiler\":{\"recipe\":1},", "\"rebuild\":\"never\",", "\"rebuild\":1,",
          "BIG[", "BIG{", "BIG(", "BIGa", "BIG\n", "BIG\"", "BIG/", "BIG\0", "BIG\\"]
VALUES = [None, True, False, 0, 1, -1, 2**63 - 1, -2**63, 0.5, 1e308, "", "x", "/", ".", "./", "rec", "\u00fc", "\n", "a" * 5000, "(", "[", "*", "\\", "^(a*)*$", "x{99999}", [], [1], [[]], ["x"], [None], {}, {"x": 1}, {"name": 1}, {"recipe": ""}, {"ref": "x"}, {"loader": "cxx_src_loader"},
          ["a"] * 50, {"name": "t"}, [{"name": "t"}], [{"ref": "./x"}], [{"ref": "", "origin": "generated"}], [{"ref": "y", "origin": "nowhere"}], [{"ref": "y", "rel": 5}], "generated", "append", "cxx_src_loader"]
OUTPUT = [b"", b"{", b"}", b"null", b"[]", b"1", b"\"x\"", b"{\"a\":}", b"{} {}", b"{}x", b"\0", b"\xff\xfe", b"{\"\xff\":1}", b"{\"a\":\"\\u0000\"}", b"[" * 3000, b"{\"a\":" * 3000, b" " * 100000, b"x" * 300000, b"{\"targets\":1}", b"{\"target\":{}}",
          b"{\"target\":{\"name\":\"extra.t\"}}", b"{\"target\":{\"name\":\"extra.t\",\"dependencies\":[{\"ref\":\"./none\",\"origin\":\"project\"}]}}", b"{\"dependencies\":[{\"ref\":\"\",\"origin\":\"project\"}]}", b"{\"compiler\":5}", b"{\"cflags\":5}", b"{\"dependencies\":{}}",
          b"{\"dependencies_extra\":[[]]}", b"{\"a\":1e400}", b"{\"a\":99999999999999999999}", b"{\"a\":1,\"a\":2}", b"# no json", b"{\"target\":{\"name\":\"" + b"n" * 70000 + b"\"}}"]
ARGS = ["--", "-", "", "x", "--targets", "--targets=", "--targets=,", "--targets=\\", "--targets=nowhere", "--targets=__targets", "--targets=__targets/m0.o,__targets/m0.o", "--num-workers", "--num-workers=", "--num-workers=0", "--num-workers=-1", "--num-workers=65", "--num-workers=99999999999999999999",
        "--num-workers=1x", "--build-id", "--build-id=", "--build-id=0", "--build-id=" + "0" * 64, "--build-id=" + "f" * 64, "--build-id=" + "g" * 64, "--build-id=" + "0" * 65, "--start-time=0", "--start-time=-1", "--start-time=99999999999999999999", "--start-time=x", "--start-time=1e9", "--source-dir=", "--source-dir=none",
        "--source-dir=.", "--source-dir=./", "--source-dir=maikeconfig.json", "--source-dir=/dev/null", "--target-dir=", "--target-dir=none/none", "--target-dir=maikeconfig.json", "--target-dir=.", "--configfiles=", "--configfiles=none", "--configfiles=.", "--configfiles=,,", "--configfiles=maikeconfig.json,maikeconfig.json",
        "--configdump", "--configdump=", "--config-default", "--dry-run", "--dry-run=1", "--log-level", "--log-level=", "--log-level=x", "--log-level=compilation_command", "--log-level=errors", "--list-targets", "--list-targets=", "--print-dep-graph", "--print-dep-graph-inv", "--dump-database", "--list-external-deps", "--help", "--version",
        "--about", "--help=x", "--\xff", "--=", "--=x", "--targets=\xff\xfe", "--" + "a" * 3000, "--targets=" + "a," * 3000, "--targets=" + "a\\" * 3001]


def setup(tier):
    proj.setup("opt")
    proj.setup("san")
    proj.setup("tsan")


big = st.integers(0, 10**6)


@st.composite
def strategy_(draw):
    c = draw(gen.project(max_mods=8, min_mods=2, odd=draw(st.integers(0, 3)) == 3, always=True))
    ops = []
    for _ in range(draw(st.integers(1, draw(st.sampled_from([1, 2, 6]))))):
        kind = draw(st.sampled_from(["bytes", "bytes", "bytes", "tags", "tags", "config", "config", "configtext", "output", "fs", "arg"]))
        if kind in ("bytes", "configtext"):
            ops.append([kind, draw(big), draw(st.sampled_from(["insert", "insert", "delete", "flip", "double", "cut", "all", "swap"])), draw(big), draw(big), draw(st.integers(0, len(TOKENS) - 1))])
        elif kind in ("tags", "config"):
            ops.append([kind, draw(big), draw(st.sampled_from(["set", "set", "set", "remove", "double"])), draw(big), draw(st.integers(0, len(VALUES) - 1))])
        elif kind == "output":
            ops.append([kind, draw(big), draw(st.sampled_from(["configure", "get_tags", "get_tags"])), draw(st.integers(0, len(OUTPUT) - 1))])
        elif kind == "fs":
            ops.append([kind, draw(big), draw(st.sampled_from(["dir", "dangling", "self", "empty", "link", "remove", "target dir is a file", "target is a directory"]))])
        else:
            ops.append([kind, draw(st.integers(0, len(ARGS) - 1))])
    c["ops"] = ops
    c["workers"] = draw(st.sampled_from([1, 4, 16]))
    c["variant"] = draw(st.sampled_from(["san", "san", "san", "tsan"]))
    c["args"] = draw(st.sampled_from([[], [], [], ["--log-level=compilation_command"], ["--dry-run"], ["--print-dep-graph"]]))
    return c


def strategy(tier):
    return strategy_()


def token(k):
    t = TOKENS[k]
    if t.startswith("BIG"):
        t = t[3:] * 20000
    return t.encode("latin-1")


def damage(data, how, a, b, k):
    pos = a % (len(data) + 1)
    n = b % 40
    if how == "insert":
        return data[:pos] + token(k) + data[pos:]
    if how == "delete":
        return data[:pos] + data[pos + n:]
    if how == "flip" and data:
        pos %= len(data)
        return data[:pos] + bytes([data[pos] ^ (1 << b % 8)]) + data[pos + 1:]
    if how == "double":
        return data[:pos] + data[pos:pos + n] * 2 + data[pos + n:]
    if how == "cut":
        return data[:pos]
    if how == "all":
        return token(k)
    if how == "swap":
        q = b % (len(data) + 1)
        i, j = min(pos, q), max(pos, q)
        return data[:i] + data[j:] + data[i:j]
    return data


def places(v, path=()):
    ret = [path] if path else []
    if isinstance(v, dict):
        for k in v:
            ret += places(v[k], path + (k,))
    elif isinstance(v, list):
        for k in range(len(v)):
            ret += places(v[k], path + (k,))
    return ret


def change(v, how, a, k):
    """a value somewhere in v"""
    v = json.loads(json.dumps(v))
    ps = places(v)
    if not ps:
        return v
    p = ps[a % len(ps)]
    at = v
    for x in p[:-1]:
        at = at[x]
    if how == "set":
        at[p[-1]] = VALUES[k]
    elif how == "remove":
        del at[p[-1]]
    elif isinstance(at, list):
        at.append(json.loads(json.dumps(at[p[-1]])))
    else:
        at["copy"] = json.loads(json.dumps(at[p[-1]]))
    return v


def run_case(case, ctx):
    base = ctx.scratch()
    root = os.path.join(base, "1/2/3/4/5/6/7/8")
    p = os.path.join(root, "p")
    ctl = os.path.join(root, "ctl")
    os.makedirs(ctl)
    files = json.loads(json.dumps(case["files"]))
    config = json.loads(json.dumps(proj.BASE_CONFIG))
    text_ops, args, orders, after = [], list(case["args"]), {}, []
    labels = set()
    for op in case["ops"]:
        kind = op[0]
        f = files[op[1] % len(files)]
        labels.add(kind if kind != "fs" else "fs " + op[2])
        if kind == "tags" and f.get("tags"):
            f["tags"] = change(f["tags"], op[2], op[3], op[4])
        elif kind == "bytes" and not proj.is_exec(f):
            f["raw_b"] = damage(f.get("raw_b") or proj.render(f), op[2], op[3], op[4], op[5])
        elif kind == "config":
            config = change(config, op[2], op[3], op[4])
        elif kind == "configtext":
            text_ops.append(op)
        elif kind == "output":
            if op[2] == "get_tags":
                for ld in config.get("source_file_info_loaders", {}).values() if isinstance(config.get("source_file_info_loaders"), dict) else []:
                    if isinstance(ld, dict) and isinstance(ld.get("compiler"), dict) and ld["compiler"].get("recipe") == "rec":
                        ld["compiler"]["use_get_tags"] = 1
            q = os.path.join(root, f"out{len(os.listdir(root))}")
            with open(q, "wb") as o:
                o.write(OUTPUT[op[3]])
            if op[2] == "configure":
                with open(os.path.join(ctl, "configure"), "w") as o:
                    o.write(f"cfgout {q}\n")
            else:
                orders[f["p"]] = [f"tags {q}"]
        elif kind == "fs":
            after.append((f["p"], op[2]))
        elif kind == "arg":
            args.append(ARGS[op[1]])
    os.makedirs(p)
    for d in case.get("dirs", ()):
        os.makedirs(os.path.join(p, d), exist_ok=True)
    for f in files:
        raw = f.pop("raw_b", None)
        proj.write_file(p, f)
        if raw is not None:
            with open(os.path.join(p, f["p"]), "wb") as o:
                o.write(raw)
    text = json.dumps({"maikeconfig": config}).encode()
    for op in text_ops:
        text = damage(text, op[2], op[3], op[4], op[5])
    with open(os.path.join(p, "maikeconfig.json"), "wb") as o:
        o.write(text)
    for n, lines in orders.items():
        for pre in ("", "./"):
            with open(os.path.join(ctl, "f" + (pre + n).replace("/", "%")), "w") as o:
                o.write("\n".join(lines) + "\n")
    for n, what in after:
        full = os.path.join(p, n)
        if what.startswith("target"):
            q = os.path.join(p, "__targets")
            if what == "target dir is a file" and not os.path.lexists(q):
                open(q, "w").close()
            elif what == "target is a directory" and not os.path.isfile(q):
                os.makedirs(os.path.join(q, n + ".out"), exist_ok=True)
                os.makedirs(os.path.join(q, os.path.splitext(n)[0] + ".o"), exist_ok=True)
            continue
        if not os.path.lexists(full):
            continue
        if os.path.isdir(full) and not os.path.islink(full):
            shutil.rmtree(full)
        else:
            os.unlink(full)
        if what == "dir":
            os.makedirs(os.path.join(full, "in"))
        elif what == "dangling":
            os.symlink("nowhere", full)
        elif what == "self":
            os.symlink(os.path.basename(full), full)
        elif what == "empty":
            open(full, "w").close()
        elif what == "link":
            os.symlink(os.path.join(root, "elsewhere"), full)
            os.makedirs(os.path.join(root, "elsewhere"), exist_ok=True)
    env = {"VREC_ROOT": root, "UBSAN_OPTIONS": "print_stacktrace=1", "TSAN_OPTIONS": "exitcode=66:second_deadlock_stack=1", "ASAN_OPTIONS": "detect_leaks=0:exitcode=67"}

    def run(extra, variant):
        # options that print something, and --targets, would have an effect on the comparison
        r = proj.run_maike(p, [os.fsencode(x) if isinstance(x, str) and x.isascii() else x.encode("latin-1") for x in args + extra], ctl=ctl, variant=variant, ctx=ctx, extra=dict(env, VREC_BIN=os.path.join(proj.recipe_dir(variant), "rec")), timeout=40)
        proj.must_end(r, f"{args + extra} with {case['ops']}: the program")
        for word in (b"AddressSanitizer", b"ThreadSanitizer", b"runtime error:", b"LeakSanitizer", b"terminate called", b"Assertion"):
            if word in r.err:
                raise Violation(f"{args + extra} with {case['ops']}: {word.decode()}\n{r.err[-6000:].decode(errors='replace')}", kind="race" if word == b"ThreadSanitizer" else "det")
        if r.rc not in (0, 255):
            raise Violation(f"{args + extra} with {case['ops']}: exit status {r.rc}\n" + r.text())
        message = [x for x in r.err.split(b"\n") if x.strip() and not x.startswith(b"--") and not x.startswith(b"# ")]
        if r.rc != 0 and not message:
            raise Violation(f"{args + extra} with {case['ops']}: exit status {r.rc}, but nothing on stderr says why\n" + r.text())
        return r
    r = run([f"--num-workers={case['workers']}"], case["variant"])
    labels |= {case["variant"], "rejected" if r.rc else "accepted"}
    a = run(["--num-workers=1", "--list-targets"], "opt")
    b = run(["--num-workers=8", "--list-targets"], "opt")

    def listed(r):
        return sorted(x for x in r.out.split(b"\n") if x and not x.startswith(b"# "))
    queries = any(x.startswith(("--print-dep", "--configdump", "--dump", "--list-ext")) for x in args)
    if a.rc != b.rc or (not queries and "--dry-run" not in args and listed(a) != listed(b)):
        raise Violation(f"{args} with {case['ops']}: with 1 worker: {a.text()}\nwith 8: {b.text()}")
    effect = r.rc != 0
    if not effect and not args:
        try:
            m = common.model_of({"files": [{k: v for k, v in f.items()} for f in case["files"]], "dirs": case.get("dirs", ())})
            effect = len(listed(a)) != len(m.targets)
        except (proj.Reject, ValueError, KeyError, TypeError, AttributeError):
            effect = True
    return Info(len(files) >= 5 and effect, sorted(labels))
