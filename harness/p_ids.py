"""P22: identifier stores, in five Python variants and the two C++ ones."""
import os, subprocess
from common import *

PY = [("delta", True), ("delta2", True), ("bohe", True), ("delta2_bohe", True), ("delta_bohe", False)]
CC = ["delta", "delta_bohe"]
CLAUSES = ["constructor-raises", "get-raises", "done-raises", "out-of-range", "in-use"]
MODEL = """SPECIFICATION Spec
CONSTANTS
 Max = %d
 Depth = %d
 Emit = TRUE
INVARIANT Parts
PROPERTIES Legal Grows
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION Spec
CONSTANTS
 Watch = {%s}
VIEW View
INVARIANTS Accepted Done
CHECK_DEADLOCK FALSE
"""


def random_ops(r, top, count, steps, burst):
    """takes and returns; never more in use than the range has"""
    ops, used, mood = [], [0] * count, 0.7
    for _ in range(steps):
        s = r.randrange(count)
        if r.random() < 0.1:
            mood = r.choice([0.9, 0.7, 0.5, 0.2])
        n = r.randint(1, burst)
        if r.random() < mood:
            n = min(n, top - used[s]) if top else n
            if r.random() < 0.15 and top and top <= 300:
                n = top - used[s]
            if n:
                ops.append({"s": s, "op": "get", "n": n})
                used[s] += n
        else:
            n = min(n, used[s])
            if r.random() < 0.1:
                n = used[s]
            how = r.choice(["old", "new", "any"])
            pos = [0 if how == "old" else used[s] - 1 - i if how == "new" else r.randrange(used[s] - i) for i in range(n)]
            if n:
                ops.append({"s": s, "op": "done", "pos": pos})
                used[s] -= n
    return ops


def whole_range(r, top):
    """everything taken, some given back, taken again"""
    ops, left = [], top
    while left:
        n = min(left, 8192)
        ops.append({"s": 0, "op": "get", "n": n})
        left -= n
    for k in (1, 5):
        ops.append({"s": 0, "op": "done", "pos": [r.randrange(top - i) for i in range(k)]})
        ops.append({"s": 0, "op": "get", "n": k})
    return ops


def play_cc(c, work):
    events = []
    for v, hs in work.items():
        d = os.path.join(c.repo(), "compressor", v)
        exe = c.path("ids-" + v)
        p = subprocess.run(["g++", "-O1", "-DNDEBUG", "-std=c++11", "-w", "-include", "cstdint", "-include", "cmath", "-include", "map", "-include", "iostream", "-I", d, os.path.join(os.path.dirname(os.path.abspath(__file__)), "cc", "id_driver.cc"),
                            os.path.join(d, "header_freq_tables.cc"), os.path.join(d, "utils.cc"), "-o", exe],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        if p.returncode:
            raise Machinery("g++ %s\n%s" % (v, p.stdout.decode()[-2000:]))
        lines = []
        for h in hs:
            lines.append("new %d %d" % ({256: 8, 65536: 16}[h["max"]], h["count"]))
            for o in h["ops"]:
                arg = [o["n"]] if o["op"] == "get" else [len(o["pos"])] + o["pos"]
                lines.append(" ".join(map(str, [o["op"], o["s"]] + arg)))
        p = subprocess.run([exe], input="\n".join(lines).encode(), stdout=subprocess.PIPE, timeout=300)
        if p.returncode:
            raise Machinery("C++ driver rc=%s" % p.returncode)
        events += [json.loads(x) for x in p.stdout.decode().splitlines()]
    return events


def main(c):
    r, py, cc = c.rng, [], {v: [] for v in CC}
    models = {}
    for top, depth in [(1, 6), (2, 8), (3, 8)] + ([(4, 9), (5, 9)] if c.thorough else []):
        out = c.model("IdModel", MODEL % (top, depth), "range %d" % top, workers=4, timeout=600)
        hs = [h for h in c.printed(out, "HIST") if len(h) == depth]
        hs = [list(h) for h in set(map(tuple, hs))]
        hs.sort()
        r.shuffle(hs)
        models[top] = hs[:600 if c.thorough else 100]
    for v, arg in PY:
        mine = []
        for top, hs in models.items():
            for h in hs:
                mine.append((top if arg else 0, 1, [{"s": 0, "op": "done", "pos": [k - 1]} if k else {"s": 0, "op": "get", "n": 1}
                                                    for k in h]))
        for i in range(120 if c.thorough else 30):
            top = r.choice([1, 2, 3, 5, 16, 255, 256, 300, 65536, 2 ** 31 - 1]) if arg else 0
            n = r.choice([1, 1, 2, 3])
            mine.append((top, n, random_ops(r, top, n, r.choice([30, 80]), r.choice([1, 3, 20]))))
        if arg:
            mine.append((65536, 1, whole_range(r, 65536)))
            mine.append((255, 1, whole_range(r, 255)))
        py += [{"variant": v, "arg": arg, "max": top, "count": n, "ops": ops} for top, n, ops in mine]
    for v in CC:
        for i in range(60 if c.thorough else 20):
            top, n = r.choice([256, 256, 65536]), r.choice([1, 2])
            cc[v].append({"max": top, "count": n, "ops": random_ops(r, top, n, 60, r.choice([1, 3, 40]))})
        for top in (256, 65536):
            cc[v].append({"max": top, "count": 1, "ops": whole_range(r, top)})
    py.sort(key=lambda h: h["variant"])
    events = play(c, py, driver="id_driver.py", procs=3) + play_cc(c, cc)
    c.samples += [{"history": events[:4]}]
    files = split_traces(events, 8, c.path("trace"))
    c.validate("IdTrace", TRACE % ", ".join('"%s"' % x for x in CLAUSES), files, timeout=800)
    c.assumptions += ["an identifier is given back once, while it is in use; no more are taken than the range has",
                      "Jython 2.7 executes the Python 2 sources as CPython 2 would"]
