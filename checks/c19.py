"""C19: every task given to the thread pool runs once, and its result gets back."""

from hypothesis import strategies as st

from vlib import driver
from vlib.runner import Info, Violation

ID = "C19"
LEVEL = "exploration"
RULE = ("generated task forests (tasks add tasks, throw, give results, sleep, or block on a gate that opens only after everything else has run) on generated numbers of workers, with several threads that wait for a result, the pool being "
        "destroyed after waiting or at once; rounds of tasks handed over in a burst that each end only when as many tasks as there are workers have started; run counts, results, exceptions and the life of each callable are compared with the program; also counters that several threads change while others wait for generated values, events with several "
        "setters, and sequences of moves, calls and destructions of callables and scope guards against a model; run with the address, undefined behaviour and thread sanitizers; "
        "non-trivial: at least 5 tasks and two workers, or two waiters with different values, or the like")
ASSUMPTIONS = ["fewer tasks block than there are workers", "results are kept until their tasks have run"]
COUNT = {"quick": 20000, "thorough": 300000}
CAP = {"quick": 30, "thorough": 420}


def setup(tier):
    driver.setup("sched", "san")
    driver.setup("sched", "tsan")


@st.composite
def pool(draw):
    w = draw(st.sampled_from([1, 1, 2, 2, 3, 4, 8, 16]))
    n = draw(st.one_of(st.integers(0, 8), st.integers(0, 40)))
    mode = draw(st.sampled_from(["wait", "wait", "atonce"]))
    tasks = []
    blocked = 0
    throwy = draw(st.integers(0, 3))
    for k in range(n):
        parent = draw(st.integers(0, k)) if k and draw(st.booleans()) else 0
        kind = draw(st.sampled_from([[0], [0, 0, 2, 2, 3], [0, 1, 2, 3], [1, 1, 0, 2]][throwy]))
        gate = 0
        if blocked < w - 1 and draw(st.integers(0, 5)) == 5:
            gate = 1
            blocked += 1
        delay = draw(st.sampled_from([0, 0, 0, 0, 10, 100, 1000]))
        tasks.append([parent, kind, delay, gate, draw(st.sampled_from([0, 0, 1, 2, 3])) if kind >= 2 else 0])
    return {"kind": "pool", "w": w, "mode": mode, "tasks": tasks}


@st.composite
def counter(draw):
    unsigned = draw(st.booleans())
    phases = [[draw(st.integers(0, 12)), draw(st.integers(0, 12)), draw(st.integers(1, 4))] for _ in range(draw(st.integers(1, 5)))]
    init = draw(st.integers(0, 3)) + (sum(p[1] for p in phases))
    at = [init]
    for a, b, _ in phases:
        at.append(at[-1] + a - b)
    waiters = []
    for _ in range(draw(st.integers(0, 7))):
        p = draw(st.integers(1, len(phases)))
        v = draw(st.one_of(st.sampled_from(at[p:]), st.sampled_from(at[p:]), st.integers(0, max(at) + 3)))
        waiters.append([p, v])
    return {"kind": "ucounter" if unsigned else "counter", "init": init, "phases": phases, "waiters": waiters}


@st.composite
def strategy_(draw):
    kind = draw(st.sampled_from(["pool"] * 6 + ["counter"] * 3 + ["event", "pingpong", "ufun", "scope", "early", "meet", "meet"]))
    pace = st.one_of(st.just(0), st.integers(1, 1 << 40))
    if kind == "pool":
        c = draw(pool())
    elif kind == "counter":
        c = draw(counter())
    elif kind == "event":
        c = {"kind": kind, "n": draw(st.integers(0, 80)), "setters": draw(st.integers(1, 4)), "pace2": draw(pace), "burst": draw(st.integers(1, 6))}
    elif kind == "pingpong":
        c = {"kind": kind, "n": draw(st.integers(1, 100)), "pace2": draw(pace)}
    elif kind == "ufun":
        c = {"kind": kind, "ops": draw(st.lists(st.tuples(st.sampled_from([0, 0, 0, 1, 2, 2, 3, 3, 4]), st.integers(0, 7), st.integers(0, 7)).map(list), max_size=40))}
    elif kind == "meet":
        w = draw(st.sampled_from([1, 2, 2, 3, 4, 6, 8]))
        c = {"kind": kind, "w": w, "rounds": draw(st.lists(st.tuples(st.one_of(st.just(w), st.integers(1, w)), st.integers(0, 5), st.sampled_from([0, 20, 200, 200])).map(list), min_size=1, max_size=30))}
    elif kind == "scope":
        c = {"kind": kind, "n": draw(st.integers(0, 30)), "moves": draw(st.integers(0, 4)), "throw": draw(st.integers(0, 1))}
    else:
        c = {"kind": kind, "w": draw(st.integers(1, 4)), "delays": draw(st.lists(st.integers(0, 400), min_size=1, max_size=8))}
    c["pace"] = draw(pace)
    c["san"] = draw(st.sampled_from(["san", "tsan"]))
    return c


def strategy(tier):
    return strategy_()


def flat(x):
    return ",".join(str(v) for y in x for v in y)


def run_case(case, ctx):
    kind = case["kind"]
    d = driver.get(ctx, "sched", case["san"], timeout=15, alone=True)
    call = lambda *a: [x.decode() for x in d.call(*a, patience=ctx.patience)]
    labels = [kind, case["san"]]
    if kind == "pool":
        r = call("pool", case["w"], case["mode"], case["pace"], flat(case["tasks"]))
        if r != ["ok"]:
            raise Violation(f"{case['w']} workers, tasks (parent, kind, delay, gate, waiters) {case['tasks']}, {case['mode']}: {r[1]}", kind="race")
        t = case["tasks"]
        labels += [f"workers {case['w']}", case["mode"]] + (["blocking"] if any(x[3] for x in t) else []) + (["nested"] if any(x[0] for x in t) else []) + (["throwing"] if any(x[1] == 1 for x in t) else [])
        return Info(len(t) >= 5 and case["w"] > 1, labels)
    if kind in ("counter", "ucounter"):
        r = call(kind, case["init"], flat(case["phases"]), flat(case["waiters"]), case["pace"])
        if r[0] != "ok":
            raise Violation(f"counter {case}: {r[1]}", kind="race")
        # a waiter may have been released only if its value can have been reached
        spans = []
        at = case["init"]
        for inc, dec, _ in case["phases"]:
            spans.append((at - dec, at + inc))
            at += inc - dec
        ends = []
        at = case["init"]
        for inc, dec, _ in case["phases"]:
            at += inc - dec
            ends.append(at)
        for (p, v), seen in zip(case["waiters"], r[1:]):
            seen = int(seen)
            if seen and not any(lo <= v <= hi for lo, hi in spans[p - 1:seen]):
                raise Violation(f"counter {case}: who waited for {v} from phase {p} was released in phase {seen}", kind="race")
            want = next((q for q in range(p, len(ends) + 1) if ends[q - 1] == v), None)
            if want and (seen == 0 or seen > want):
                raise Violation(f"counter {case}: who waited for {v} from phase {p} was released in phase {seen}, but the value was there in phase {want}", kind="race")
        return Info(len({v for _, v in case["waiters"]}) > 1, labels)
    if kind == "event":
        r = call("event", case["n"], case["setters"], case["pace"], case["pace2"], case["burst"])
    elif kind == "pingpong":
        r = call("pingpong", case["n"], case["pace"], case["pace2"])
    elif kind == "meet":
        r = call("meet", case["w"], case["pace"], flat(case["rounds"]))
    elif kind == "ufun":
        r = call("ufun", flat(case["ops"]))
    elif kind == "scope":
        r = call("scope", case["n"], case["moves"], case["throw"])
    else:
        r = call("early", case["w"], ",".join(map(str, case["delays"])))
    if r != ["ok"]:
        raise Violation(f"{kind} {case}: {r[0]}", kind="det" if kind in ("ufun", "scope") else "race")
    return Info(case.get("n", 5) > 4, labels)


close = driver.close
