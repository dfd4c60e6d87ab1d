"""Drives one check: Hypothesis generates cases, the check's run_case decides each against its oracle.

A check module has
  ID, LEVEL, RULE, ASSUMPTIONS  strings for the evidence
  COUNT = {"quick": n, "thorough": n}      cases to generate (over all workers)
  CAP = {"quick": s, "thorough": s}        search stops after that many seconds even if fewer were run
  setup(tier)                              builds what it needs (before the workers are forked)
  strategy(tier)                           Hypothesis strategy of JSON-able cases
  run_case(case, ctx)                      returns Info, raises Violation
"""

import copy
import errno
import hashlib
import json
import multiprocessing
import os
import shutil
import sys
import tempfile
import time
import traceback

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings

from . import build

VERIF = build.VERIF
SHRINK_SECONDS = 45


class Violation(Exception):
    """kind: det   the same case fails each time
             race  shown by a recorded history, may need a schedule to come back
             hang  the program did not end"""

    def __init__(self, msg, kind="det", history=None):
        super().__init__(msg)
        self.kind = kind
        self.history = history


class Inconclusive(Exception):
    """The case could not be decided (resources); never a violation."""


class _Stop(BaseException):
    pass


class Info:
    def __init__(self, nontrivial, labels=()):
        self.nontrivial = bool(nontrivial)
        self.labels = list(labels)


class Ctx:
    """What a case may use: a scratch directory of its own, removed after the case."""

    def __init__(self, base, tier):
        self.base = base
        self.tier = tier
        self.n = 0
        self.patience = 1
        self.shared = {}

    def scratch(self):
        self.n += 1
        d = os.path.join(self.base, f"s{os.getpid()}_{self.n}")
        os.makedirs(d)
        return d


def rmtree(path):
    def onerror(func, p, exc):
        try:
            os.chmod(os.path.dirname(p), 0o700)
            os.chmod(p, 0o700)
            func(p)
        except OSError:
            pass
    if os.path.isdir(path) and path.startswith(scratch_root() + "/"):
        shutil.rmtree(path, onerror=onerror)


_scratch_root = None


def scratch_root():
    return _scratch_root


def case_key(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:24]


def _guarded(mod, case, ctx):
    """run_case, with unexpected exceptions turned into violations unless the machine is to blame."""
    before = ctx.n
    try:
        return mod.run_case(copy.deepcopy(case), ctx)
    except (Violation, Inconclusive):
        raise
    except MemoryError as e:
        raise Inconclusive(str(e))
    except OSError as e:
        if e.errno in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.EAGAIN, errno.ENFILE):
            raise Inconclusive(str(e))
        raise Violation("the outcome can't be interpreted: " + traceback.format_exc(limit=-4))
    except Exception:
        raise Violation("the outcome can't be interpreted: " + traceback.format_exc(limit=-4))
    finally:
        for k in range(before + 1, ctx.n + 1):
            rmtree(os.path.join(ctx.base, f"s{os.getpid()}_{k}"))


def _worker(mod, tier, seed, wid, n_cases, deadline, stop, q, base):
    ctx = Ctx(base, tier)
    stats = {"evaluations": 0, "keys": set(), "labels": {}, "samples": [], "inconclusive": 0, "failures": []}
    first_failure = [None]

    def one(case):
        now = time.monotonic()
        if first_failure[0] is None and (now > deadline or stop.is_set()):
            raise _Stop()
        if first_failure[0] is not None and now > first_failure[0] + SHRINK_SECONDS:
            raise _Stop()
        try:
            info = _guarded(mod, case, ctx)
        except Inconclusive:
            stats["inconclusive"] += 1
            return
        except Violation as v:
            stop.set()
            if first_failure[0] is None:
                first_failure[0] = time.monotonic()
            stats["failures"].append({"case": case, "msg": str(v), "kind": v.kind, "history": v.history,
                                      "size": len(json.dumps(case))})
            if v.kind == "hang":
                raise _Stop()
            raise
        if first_failure[0] is None:
            stats["evaluations"] += 1
            for lab in info.labels:
                stats["labels"][lab] = stats["labels"].get(lab, 0) + 1
            if info.nontrivial:
                k = case_key(case)
                if k not in stats["keys"] and len(stats["samples"]) < 2:
                    stats["samples"].append(case)
                stats["keys"].add(k)

    rnd = 0
    err = None
    per_round = getattr(mod, "ROUND", 40)
    try:
        while stats["evaluations"] + stats["inconclusive"] < n_cases and first_failure[0] is None:
            todo = min(per_round, n_cases - stats["evaluations"])
            s = int(hashlib.sha256(f"{seed}/{mod.ID}/{wid}/{rnd}".encode()).hexdigest()[:12], 16)
            test = hypothesis.seed(s)(
                settings(max_examples=max(todo, 1), database=None, deadline=None,
                         suppress_health_check=list(HealthCheck),
                         phases=(Phase.generate, Phase.shrink), print_blob=False,
                         report_multiple_bugs=False)(given(mod.strategy(tier))(one)))
            rnd += 1
            try:
                test()
            except _Stop:
                break
            except Violation:
                break
            except hypothesis.errors.Unsatisfiable:
                pass
            except BaseException:
                if stats["failures"]:
                    break
                raise
            if rnd > 100 + 10 * n_cases:
                break
    except BaseException:
        err = traceback.format_exc()
    close = getattr(mod, "close", None)
    if close:
        close(ctx)
    q.put((wid, stats, err))


def _quiet():
    # Hypothesis reports falsifying examples on stdout; only the runner speaks there
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.close(devnull)


def _worker_entry(*args):
    _quiet()
    _worker(*args)


def _replay_entry(mod, case, tier, base, patience, q):
    _quiet()
    ctx = Ctx(base, tier)
    ctx.patience = patience
    try:
        try:
            _guarded(mod, case, ctx)
            q.put(("pass", None, None, None))
        except Violation as v:
            q.put(("fail", str(v), v.kind, v.history))
        except Inconclusive as e:
            q.put(("inconclusive", str(e), None, None))
        close = getattr(mod, "close", None)
        if close:
            close(ctx)
    except BaseException:
        q.put(("error", traceback.format_exc(), None, None))


def replay_once(mod, case, tier, base, patience=1):
    q = multiprocessing.Queue()
    p = multiprocessing.Process(target=_replay_entry, args=(mod, case, tier, base, patience, q))
    p.start()
    try:
        r = q.get(timeout=600)
    except Exception:
        r = ("error", "no answer from the replay", None, None)
    p.join(10)
    if p.is_alive():
        p.kill()
    return r


def confirm(mod, failures, tier, base):
    """The smallest failure that comes back."""
    failures = sorted(failures, key=lambda f: f["size"])
    cands = failures[:3] + [f for f in failures[3:] if f["kind"] != "det"][:2]
    if failures and failures[-1] not in cands:
        cands.append(failures[-1])
    for f in cands:
        hang = f["kind"] == "hang"
        n_fail = 0
        for k in range(3):
            r = replay_once(mod, f["case"], tier, base, patience=2 if hang else 1)
            if r[0] == "fail":
                n_fail += 1
        if n_fail == 3:
            return f, "3 of 3 replays fail"
        if hang:
            continue
        n = 3
        while n < 25 and n_fail < 2:
            r = replay_once(mod, f["case"], tier, base)
            n += 1
            n_fail += r[0] == "fail"
        if n_fail >= 2:
            return f, f"{n_fail} of {n} replays fail"
    for f in failures:
        if f["kind"] == "race" and f["history"] is not None:
            return f, "shown by the recorded history; the schedule did not come back in the replays"
    return None, None


def printable(text):
    return "".join(c if c in "\n\t" or c >= " " and c != "\x7f" else "\\x%02x" % ord(c) for c in text).encode(errors="backslashreplace").decode()


def load_findings(pid):
    out = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                e = json.loads(line)
                if e.get("property") == pid and e.get("status") == "known":
                    out.append(e)
    return out


def run(mod, argv):
    global _scratch_root
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.monotonic()
    base = tempfile.mkdtemp(prefix=f"verif_{mod.ID}_", dir=os.environ.get("VERIF_TMP", "/tmp"))
    os.chmod(base, 0o755)
    _scratch_root = base
    try:
        mod.setup(tier)
        if len(argv) > 1 and argv[0] == "--replay":
            with open(argv[1]) as f:
                case = json.load(f)["case"]
            r = replay_once(mod, case, tier, base, 2)
            print(r[0], printable(r[1] or ""))
            return 0 if r[0] == "pass" else 1
        return _search(mod, tier, seed, base, t0)
    except build.BuildError as e:
        print("BUILD ERROR", e, file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _search(mod, tier, seed, base, t0):
    n_workers = int(os.environ.get("VERIF_WORKERS", "0")) or getattr(mod, "WORKERS", 8)
    count = int(os.environ.get("VERIF_COUNT", "0")) or mod.COUNT[tier]
    cap = float(os.environ.get("VERIF_CAP", "0")) or mod.CAP[tier]
    deadline = time.monotonic() + cap
    failures = []
    fixed_cases = 0
    # fixed regression cases: the minimal forms of failures found earlier
    corpus = os.path.join(VERIF, "corpus", mod.ID + ".jsonl")
    reg = []
    if os.path.exists(corpus):
        reg = [json.loads(x) for x in open(corpus) if x.strip()]
    findings = load_findings(mod.ID)
    known = {case_key(e["case"]) for e in findings if "case" in e}
    gone = set()
    stop = multiprocessing.Event()
    q = multiprocessing.Queue()
    procs = []
    per = (count + n_workers - 1) // n_workers
    for w in range(n_workers):
        p = multiprocessing.Process(target=_worker_entry,
                                    args=(mod, tier, seed, w, per, deadline, stop, q, base))
        p.start()
        procs.append(p)
    for case in reg:
        r = replay_once(mod, case, tier, base)
        fixed_cases += 1
        if case_key(case) in known:
            if r[0] != "fail":
                gone.add(case_key(case))
        elif r[0] == "fail":
            failures.append({"case": case, "msg": r[1], "kind": r[2], "history": r[3],
                             "size": len(json.dumps(case))})
            stop.set()
    stats = []
    errs = []
    limit = deadline + SHRINK_SECONDS + 180
    pending = set(range(n_workers))
    while pending:
        try:
            wid, s, err = q.get(timeout=max(1, min(5, limit - time.monotonic())))
            pending.discard(wid)
            stats.append(s)
            if err:
                errs.append(err)
        except Exception:
            if time.monotonic() > limit:
                errs.append(f"workers {sorted(pending)} gave no answer")
                break
            dead = [w for w in pending if not procs[w].is_alive()]
            if dead:
                time.sleep(1)
                if q.empty():
                    errs.append(f"workers {dead} died")
                    pending -= set(dead)
    for p in procs:
        p.join(5)
        if p.is_alive():
            p.kill()
    evaluations = sum(s["evaluations"] for s in stats) + fixed_cases
    keys = set().union(*[s["keys"] for s in stats]) if stats else set()
    labels = {}
    for s in stats:
        for k, v in s["labels"].items():
            labels[k] = labels.get(k, 0) + v
        failures += s["failures"]
    samples = [c for s in stats for c in s["samples"]]
    samples = sorted(samples, key=lambda c: len(json.dumps(c)))
    samples = samples[len(samples) // 3:][:4]
    n_viol = 0
    code = 0
    found, how = None, None
    for e in findings:
        if "case" not in e or case_key(e["case"]) not in gone:
            print(f"KNOWN-FINDING: property={mod.ID} {e['what']}")
    failures = [f for f in failures if case_key(f["case"]) not in known]
    unconfirmed = 0
    if failures:
        found, how = confirm(mod, failures, tier, base)
        if found is None:
            unconfirmed = len(failures)
    if found is not None:
        n_viol = 1
        code = 1
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{mod.ID}_{case_key(found['case'])[:12]}.json")
        with open(path, "w") as f:
            json.dump({"property": mod.ID, "seed": seed, "tier": tier, "message": found["msg"],
                       "confirmed": how, "history": found["history"], "case": found["case"]}, f, indent=1)
        print(printable(found["msg"][:4000]))
        print(f"({how}; replay with: ./check {mod.ID} --replay {path})")
        print(f"VIOLATION property={mod.ID} replay={path}")
    ev = {"property": mod.ID, "tier": tier, "seed": seed, "level": mod.LEVEL,
          "coverage": {"evaluations": evaluations, "distinct_nontrivial": len(keys), "rule": mod.RULE,
                       "samples": [_clip(c) for c in samples], "classes": labels,
                       "fixed_regression_cases": fixed_cases,
                       "inconclusive": sum(s["inconclusive"] for s in stats),
                       "unconfirmed_failures": unconfirmed},
          "assumptions": mod.ASSUMPTIONS, "wall_s": round(time.monotonic() - t0, 2), "violations": n_viol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", mod.ID + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(VERIF, "evidence", mod.ID + ".json"))
    print(f"{mod.ID}: {evaluations} cases, {len(keys)} distinct and non-trivial, {n_viol} violations, "
          f"{ev['wall_s']} s ({tier}, seed {seed})")
    if os.environ.get("VERIF_LABELS"):
        print(json.dumps(labels, indent=1, sort_keys=True))
    if code == 0 and errs:
        print("\n".join(errs)[-6000:], file=sys.stderr)
        return 2
    if unconfirmed and os.environ.get("VERIF_LABELS"):
        for f in failures[:3]:
            print("UNCONFIRMED", f["msg"][:1500], json.dumps(f["case"])[:3000])
    return code


def _clip(case):
    s = json.dumps(case)
    return case if len(s) < 3000 else s[:3000] + "..."
