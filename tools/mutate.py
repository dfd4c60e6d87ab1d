#!/usr/bin/env python3
"""tools/mutate.py [-j JOBS] [-n COUNT] [-s SEED] FILE...: runs the quick checks against small random changes of
/repo's files, in scratch copies, and prints those that no check of the file's properties reports. Such a change
either makes no difference or shows what the checks miss; which of these has to be judged by hand."""
import argparse, concurrent.futures, os, queue, random, re, shutil, subprocess, sys, time

ORDER = [
    (r"core/db/compilation_log", "C24 C12 C17"),
    (r"core/db/(source_file_list|target|loader|source_tree|task_list)", "C06 C02 C01 C13 C15 C21 C05 C27 C03 C16"),
    (r"core/db/", "C21 C04 C01 C02 C15 C22 C03 C06 C05 C27 C20"),
    (r"core/sched/", "C19 C01 C05 C17"),
    (r"core/io/", "C18 C11 C08 C07 C10"),
    (r"core/exec/", "C11 C05 C12 C24"),
    (r"core/key_value_store/", "C09 C10 C26 C21"),
    (r"core/source_file_info_loaders/", "C07 C08 C22 C10 C21 C26"),
    (r"core/source_tree_loader/", "C14 C22 C10 C06 C21 C02 C16 C15 C27"),
    (r"core/(cmd_line_parser|bin)/", "C17 C27 C12 C10 C16 C30 C26"),
    (r"core/build/", "C17 C21 C16"),
    (r"core/utils/", "C04 C17 C20 C12 C14 C22 C26 C16"),
    (r"recipes/(cxx_|pkg_config)", "C28 C23 C32"),
    (r"recipes/generic", "C25"),
    (r"recipes/vcslog", "C29 C32"),
    (r"recipes/(doc2html|md2html)", "C31 C30 C32"),
    (r"recipes/make_directory", "C23 C32 C25"),
    (r"doc/|core/bin/.*\.py", "C30 C32"),
    (r".*", "C32 C23 C02"),
]


def swaps(line):
    for a, b in (("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), (" < ", " <= "), (" > ", " >= "),
                 (" <= ", " < "), (" >= ", " > "), ("true", "false"), ("false", "true"), (" + ", " - "),
                 ("if(!", "if("), (" 1", " 2"), (" 0", " 1"), ("{0}", "{1}"), ("not ", ""), (" and ", " or "),
                 (" or ", " and "), ("True", "False"), ("False", "True"), ("1:", "0:"), ("std::end(", "std::begin("),
                 ("any_of", "all_of"), ("all_of", "any_of"), (" in ", " not in "), ("'", "'x"), ("\"", "\"x")):
        for m in re.finditer(re.escape(a), line):
            yield line[:m.start()] + b + line[m.end():]


def mutants(text, py):
    lines = text.split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("//", "#", "/*", "*", "using", "import", "namespace", "template", "class", "struct",
                                  "\"\"\"", "public", "private", "{", "}")):
            continue
        for n in swaps(l):
            yield i, n
        if py:
            if not s.endswith((":", ",", "(", "{", "[")):
                yield i, l[:len(l) - len(l.lstrip())] + "pass"
            if s.startswith("if ") and s.endswith(":"):
                ind = l[:len(l) - len(l.lstrip())]
                yield i, ind + "if not (" + s[3:-1] + "):"
        else:
            if s.endswith(";") and not s.startswith(("return", "throw")):
                yield i, ""
            m = re.match(r"^(\s*(?:else )?if\()(.*)(\)\s*(?:\{.*)?)$", l)
            if m and m.group(2).count("(") == m.group(2).count(")") and ";" not in m.group(2):
                yield i, m.group(1) + "!(" + m.group(2) + ")" + m.group(3)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-j", type=int, default=4)
    ap.add_argument("-n", type=int, default=40)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-w", default="/tmp/mutate")
    ap.add_argument("--checks")
    ap.add_argument("files", nargs="+")
    a = ap.parse_args()
    rnd = random.Random(a.s)
    todo = []
    for f in a.files:
        text = open("/repo/" + f).read()
        ms = list(mutants(text, not f.endswith((".cpp", ".hpp"))))
        todo += [(f, text, i, n) for i, n in ms]
    rnd.shuffle(todo)
    todo = todo[:a.n]
    slots = queue.Queue()
    for k in range(a.j):
        w = "%s/%d" % (a.w, k)
        os.makedirs(w, exist_ok=True)
        for d in ("repo", "verif"):
            shutil.rmtree(w + "/" + d, ignore_errors=True)
        subprocess.run(["git", "clone", "-q", os.environ.get("MUTATE_REPO", "/repo"), w + "/repo"], check=True)
        shutil.copytree("/verif", w + "/verif", ignore=shutil.ignore_patterns("build", ".git", "seeded", "replays"))
        if not os.path.isdir(w + "/build"):
            shutil.copytree("/verif/build", w + "/build", symlinks=True)
        slots.put(w)

    def one(m):
        f, text, i, new = m
        w = slots.get()
        try:
            lines = text.split("\n")
            old = lines[i]
            lines[i] = new
            with open(w + "/repo/" + f, "w") as o:
                o.write("\n".join(lines))
            checks = (a.checks or next(c for p, c in ORDER if re.match(p, f))).split()
            env = dict(os.environ, VERIF_REPO=w + "/repo", VERIF_BUILD=w + "/build", VERIF_CAP=os.environ.get("CAP", "20"),
                       VERIF_WORKERS="2")
            res = "SURVIVED"
            for c in checks:
                try:
                    r = subprocess.run(["./check", c], cwd=w + "/verif", env=env, capture_output=True, text=True, timeout=400)
                except subprocess.TimeoutExpired:
                    res = "timeout " + c
                    break
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    res = "caught " + c
                    break
                if r.returncode != 0:
                    res = "no answer %s %d" % (c, r.returncode)
                    break
            print("%s %s:%d\n  - %s\n  + %s" % (res, f, i + 1, old.strip(), new.strip()), flush=True)
        finally:
            with open(w + "/repo/" + f, "w") as o:
                o.write(text)
            slots.put(w)

    with concurrent.futures.ThreadPoolExecutor(a.j) as ex:
        list(ex.map(one, todo))


main()
