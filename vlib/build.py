"""Builds maike2 and the in-process harnesses from /repo's working tree.

Everything goes to /verif/build (ignored by git). Objects are cached by content: an object is reused only
if its source, every /repo header it included and the flags are byte for byte the same, so a change in
/repo is always seen, whatever the file times say."""

import concurrent.futures
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
GEN = os.path.join(BUILD, "gen")
CACHE = os.path.join(BUILD, "cache")

VARIANTS = {
    "opt": ["-O1", "-g1"],
    "san": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
            "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer"],
}


class BuildError(Exception):
    pass


def sha(data):
    return hashlib.sha256(data).hexdigest()


def read(path):
    with open(path, "rb") as f:
        return f.read()


_sha_memo = {}


def file_sha(path):
    try:
        st = os.stat(path)
        key = (path, st.st_mtime_ns, st.st_size, st.st_ino)
        if key not in _sha_memo:
            _sha_memo[key] = sha(read(path))
        return _sha_memo[key]
    except OSError:
        return None


def repo_sources():
    ret = []
    for root, dirs, files in os.walk(os.path.join(REPO, "core")):
        dirs[:] = [d for d in dirs if not d.startswith((".", "__"))]
        for f in files:
            if f.endswith(".cpp") and not f.endswith(".test.cpp"):
                ret.append(os.path.relpath(os.path.join(root, f), REPO))
    return sorted(ret)


def generate_about():
    dest = os.path.join(GEN, "core/bin/about_impl.hpp")
    os.makedirs(os.path.dirname(dest), exist_ok=True)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    info = {"source_dir": ".", "target_dir": GEN, "start_time": 0, "build_id": "0" * 64,
            "build_host": "localhost"}
    with open(os.path.join(GEN, "maike.vcslog"), "w") as f:
        json.dump({"commit": "0" * 40, "branch": "none", "tag": "none", "revision": "none"}, f)
    subprocess.run([sys.executable, "recipes/vcslog.py", "compile",
                    json.dumps({"targets": [os.path.join(GEN, "maike.vcslog")],
                                "build_info": dict(info, source_dir=GEN)})],
                   cwd=REPO, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    tmp = os.path.join(GEN, "about.tmp")
    if os.path.exists(tmp):
        os.unlink(tmp)
    r = subprocess.run([sys.executable, "core/bin/about.py", "compile",
                        json.dumps({"targets": [tmp], "build_info": info})],
                       cwd=REPO, env=env, capture_output=True, text=True)
    if r.returncode or not os.path.exists(tmp):
        raise BuildError("core/bin/about.py failed: " + r.stderr)
    if not os.path.exists(dest) or read(dest) != read(tmp):
        shutil.copy(tmp, dest)


def compile_one(src, flags, cwd, extra_inc=()):
    """Compiles src (relative to cwd or absolute) and returns the object's path."""
    path = os.path.join(cwd, src)
    d = os.path.dirname(src)
    inc = []
    if not os.path.isabs(src):
        inc = ["-iquote", d or ".", "-iquote", ".", "-iquote", os.path.join(GEN, d), "-iquote", GEN]
    else:
        inc = ["-iquote", REPO, "-iquote", GEN]
    cmd = ["g++", "-std=c++17", "-pipe", *flags, *inc, *extra_inc]
    key = sha(("\0".join(cmd) + "\0" + src + "\0" + sha(read(path))).encode())
    entry = os.path.join(CACHE, key)
    try:
        with open(entry + ".json") as f:
            for cand in json.load(f):
                if all(file_sha(p) == h for p, h in cand["deps"].items()) and os.path.exists(cand["obj"]):
                    os.utime(cand["obj"])
                    return cand["obj"]
    except (OSError, ValueError):
        pass
    os.makedirs(CACHE, exist_ok=True)
    obj_tmp = f"{entry}.{os.getpid()}.o"
    dep_tmp = f"{entry}.{os.getpid()}.d"
    r = subprocess.run([*cmd, "-MMD", "-MF", dep_tmp, "-c", src, "-o", obj_tmp], cwd=cwd,
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError(f"{src}: does not compile\n{r.stderr[-4000:]}")
    words = read(dep_tmp).decode().replace("\\\n", " ").split()
    os.unlink(dep_tmp)
    deps = {}
    for w in words[1:]:
        p = os.path.normpath(os.path.join(cwd, w))
        if p != os.path.normpath(path) and p.startswith((REPO + "/", GEN + "/", VERIF + "/")):
            deps[p] = file_sha(p)
    obj = f"{entry}.{sha(json.dumps(sorted(deps.items())).encode())[:16]}.o"
    os.rename(obj_tmp, obj)
    try:
        with open(entry + ".json") as f:
            cands = json.load(f)
    except (OSError, ValueError):
        cands = []
    cands = [{"deps": deps, "obj": obj}] + [c for c in cands if c["obj"] != obj][:7]
    tmp = f"{entry}.{os.getpid()}.json"
    with open(tmp, "w") as f:
        json.dump(cands, f)
    os.rename(tmp, entry + ".json")
    return obj


def pkg(opt):
    return subprocess.run(["pkg-config", opt, "jansson"], stdout=subprocess.PIPE, text=True,
                          check=True).stdout.split()


def link(objs, out, flags, libs=()):
    key = sha("\0".join([*objs, *flags, *libs]).encode() + b"".join(file_sha(o).encode() for o in objs))
    stamp = out + ".key"
    if os.path.exists(out) and os.path.exists(stamp) and read(stamp).decode() == key:
        return out
    tmp = f"{out}.{os.getpid()}.tmp"
    r = subprocess.run(["g++", *flags, *objs, *libs, *pkg("--libs"), "-lpthread", "-o", tmp],
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError(f"{out}: does not link\n{r.stderr[-4000:]}")
    os.rename(tmp, out)
    with open(stamp, "w") as f:
        f.write(key)
    return out


def prune_cache(keep=1500):
    try:
        ents = sorted((os.stat(e.path).st_mtime, e.path) for e in os.scandir(CACHE) if e.name.endswith(".o"))
    except OSError:
        return
    for _, p in ents[:-keep]:
        os.unlink(p)


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def compile_all(jobs):
    """jobs: [(src, flags, cwd, extra)]"""
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        return list(ex.map(lambda j: compile_one(*j), jobs))


def repo_objects(variant, with_main=False):
    srcs = [s for s in repo_sources() if with_main or s != "core/bin/maike.cpp"]
    jobs = []
    for s in srcs:
        extra = [*pkg("--cflags")]
        if s == "core/bin/about.cpp":
            extra += ["-include", "core/bin/about.hpp", "-include", os.path.join(GEN, "core/bin/about_impl.hpp")]
        jobs.append((s, VARIANTS[variant], REPO, extra))
    return compile_all(jobs)


def prefix(variant="opt"):
    """An installation of maike2 with the recording recipe and the bundled recipes as system recipes.

    The name holds a hash of the binary, so that two trees never share one."""
    with Lock():
        generate_about()
        objs = repo_objects(variant, with_main=True)
        key = sha("\0".join(objs).encode())[:16]
        dest = os.path.join(BUILD, "prefix", variant)
        os.makedirs(os.path.join(dest, "bin"), exist_ok=True)
        rdir = os.path.join(dest, "lib/maike2/recipes")
        os.makedirs(rdir, exist_ok=True)
        link(objs, os.path.join(dest, "bin/maike2"), VARIANTS[variant])
        rec_src = os.path.join(VERIF, "harness/rec.c")
        stamp = os.path.join(BUILD, "rec.key")
        rec = os.path.join(BUILD, "rec")
        k = file_sha(rec_src)
        if not (os.path.exists(rec) and os.path.exists(stamp) and read(stamp).decode() == k):
            r = subprocess.run(["gcc", "-O1", "-Wall", rec_src, "-o", rec + ".tmp", "-ljansson"],
                               capture_output=True, text=True)
            if r.returncode:
                raise BuildError("rec.c: " + r.stderr)
            os.rename(rec + ".tmp", rec)
            with open(stamp, "w") as f:
                f.write(k)
        for name, src in [("rec", rec)] + [(f, os.path.join(REPO, "recipes", f))
                                           for f in sorted(os.listdir(os.path.join(REPO, "recipes")))
                                           if f.endswith((".py", ".xsl"))]:
            d = os.path.join(rdir, name)
            if not os.path.exists(d) or file_sha(d) != file_sha(src):
                shutil.copy(src, d + ".tmp")
                os.chmod(d + ".tmp", 0o755)
                os.rename(d + ".tmp", d)
        prune_cache()
        return dest


def c_program_path(name):
    return os.path.join(BUILD, "bin", name)


def c_program(name):
    """Builds the helper program harness/<name>.c (no code of /repo)."""
    with Lock():
        src = os.path.join(VERIF, "harness", name + ".c")
        out = c_program_path(name)
        os.makedirs(os.path.dirname(out), exist_ok=True)
        k = file_sha(src)
        if not (os.path.exists(out) and os.path.exists(out + ".key") and read(out + ".key").decode() == k):
            r = subprocess.run(["gcc", "-O1", src, "-o", out + ".tmp"], capture_output=True, text=True)
            if r.returncode:
                raise BuildError(f"{name}.c: {r.stderr}")
            os.rename(out + ".tmp", out)
            with open(out + ".key", "w") as f:
                f.write(k)
        return out


def harness(name, variant="san", libs=(), with_repo=True):
    """Builds /verif/harness/<name>.cpp against /repo's sources."""
    with Lock():
        generate_about()
        objs = repo_objects(variant) if with_repo else []
        h = compile_one(os.path.join(VERIF, "harness", name + ".cpp"), VARIANTS[variant], REPO,
                        ["-iquote", os.path.join(VERIF, "harness"), *pkg("--cflags")])
        os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
        return link([h, *objs], os.path.join(BUILD, "bin", f"{name}.{variant}"), VARIANTS[variant], libs)


if __name__ == "__main__":
    for v in sys.argv[1:] or ["opt"]:
        print(prefix(v))
