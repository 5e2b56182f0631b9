"""P08: LruStorage."""
import json
from common import *

CLAUSES = ["operation-raises", "operation-hangs", "wrong-answer", "evictions-differ", "item-count-differs",
           "byte-count-differs", "number-differs", "lookup-differs", "search-differs"]
MC = """SPECIFICATION Spec
CONSTANTS
 maxb = %d
 maxn = %d
 maxs = %d
 off = %d
 MaxDepth = %d
 Emit = TRUE
INVARIANT Sound
PROPERTY Fifo
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION Spec
CONSTANT Watch = {%s}
INVARIANTS Accepted Sound Done
CHECK_DEADLOCK FALSE
"""


def probe_ops(rng, conf, full):
    maxb, maxn, maxs, off = conf
    top = maxs if maxs != -1 else off + 60
    looks = list(range(max(0, off - 1), min(top + 2, off + 40))) if full else [rng.randint(max(0, off - 2), top + 1) for _ in range(6)]
    finds = [(rng.choice(KEYS), rng.choice(VALS)) for _ in range(8 if full else 3)]
    return {"ev": "probe", "looks": looks, "finds": [[b(k), b(v)] for k, v in finds]}


KEYS = ["a", "bb", "ccc", "", "k1", "k2", "st"]
VALS = ["", "1", "22", "333", "x" * 10, "y" * 33, "ic"]


def random_history(c, conf, n):
    r, ops, made = c.rng, [], 0
    for i in range(n):
        x = r.random()
        if x < 0.06:
            ops.append({"ev": "pop"})
            continue
        ev = "insert" if x < 0.75 else "store" if x < 0.9 else "reserve"
        op = {"ev": ev, "n": r.choice([1, 1, 2, 3, 0]) if ev == "reserve" else 1, "kref": 0, "vref": 0,
              "k": b(r.choice(KEYS)), "v": b(r.choice(VALS))}
        if made and r.random() < 0.45:
            op["kref"] = max(1, made - r.randint(0, 12)) if r.random() < 0.9 else -1
        if made and r.random() < 0.3:
            op["vref"] = max(1, made - r.randint(0, 12)) if r.random() < 0.9 else -1
        made += 1
        ops.append(op)
        if r.random() < 0.5:
            ops.append(probe_ops(r, conf, r.random() < 0.15))
    ops.append(probe_ops(r, conf, True))
    return ops


def work(c):
    res = []
    confs = [(6, 2, 5, 2), (5, -1, -1, 0), (-1, 2, 3, 1)] + ([(4, 3, -1, 3), (8, 3, 4, 0), (0, 3, -1, 0), (7, 0, 4, 0)] if c.thorough else [])
    for conf in confs:
        out = c.model("LruModel", MC % (tuple(99999 if x == -1 else x for x in conf) + (4 if c.thorough else 3,)), "limits %s" % (conf,), workers=4, timeout=800)
        hs = c.printed(out, "HIST")
        c.rng.shuffle(hs)
        for h in hs[:4000 if c.thorough else 500]:
            ops = []
            for op, f in h:
                ops.append({"ev": "pop"} if op == "pop" else
                           {"ev": op, "n": 2 if op == "reserve" else 1, "kref": f["kref"], "vref": f["vref"], "k": f["k"], "v": f["v"]})
            top = conf[2] if conf[2] != -1 else conf[3] + 6
            ops.append({"ev": "probe", "looks": list(range(max(0, conf[3] - 1), top + 2)),
                        "finds": [[b(k), b(v)] for k in ("a", "bb") for v in ("", "111", "q")]})
            res.append((conf, ops))
    for i in range(300 if c.thorough else 60):
        r = c.rng
        maxb = r.choice([-1, 0, 1, 7, 12, 30, 60, 200, 4096])
        maxn = r.choice([-1, 0, 1, 2, 3, 5, 20, 64])
        off = r.choice([0, 1, 3, 65])
        maxs = off + maxn + r.choice([0, 1, 2, 7]) if maxn > 0 else -1
        if maxs != -1 and (r.random() < 0.25 or maxs == off):
            maxs = -1
        conf = (maxb, maxn, maxs, off)
        res.append((conf, random_history(c, conf, 150 if c.thorough else 80)))
    return [{"new": dict(zip(("maxb", "maxn", "maxs", "off"), conf)), "ops": ops} for conf, ops in res]


def main(c):
    w = work(c)
    events = play(c, w, driver="lru_driver.py", procs=3)
    files = split_traces(events, 8, c.path("trace"))
    c.samples += [{"history": events[:4]}]
    c.validate("LruTrace", TRACE % ", ".join('"%s"' % x for x in CLAUSES), files, timeout=800)
    c.assumptions += ["the range of sequence numbers is not smaller than the item limit",
                      "an entry refers to a string by making a reference, and gives it back when it is not stored (as InsertVal does)",
                      "Jython 2.7 executes the Python 2 sources as CPython 2 would"]
