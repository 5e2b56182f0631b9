"""P10: Huffman coders, five in Python and two in C++."""
import json, os
from common import *
from p_bits import PY, CC

MODEL = """SPECIFICATION Spec
CONSTANTS
 Syms = %d
 MaxW = %d
 MaxText = %d
INVARIANT BestIsLeast BuiltIsBest CanonIsCode RoundTrip
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION Spec
INVARIANTS Accepted Done
CHECK_DEADLOCK FALSE
"""


def fib(n):
    r = [1, 1]
    while len(r) < n:
        r.append(r[-1] + r[-2])
    return r[:n]


def freqs(r, n, cap=None):
    """a table of n frequencies of some shape"""
    k = r.randint(0, 9)
    if k == 0:
        f = [r.randint(0, 5000) for _ in range(n)]
    elif k == 1:
        f = [1] * n if r.random() < 0.5 else [0] * n
    elif k == 2:                       # few symbols occur
        f = [0] * n
        for _ in range(r.randint(1, 4)):
            f[r.randrange(n)] = r.randint(1, 10000)
    elif k == 3:
        f = [int(100000 / (i + 1)) for i in range(n)]
    elif k == 4:                       # a deep chain over a flat rest
        d = min(r.randint(2, 24), n - 1)
        f = [1] * (n - d) + [(n - d) * 2 ** i for i in range(d)]
    elif k == 5:
        f = [min(x, 2 ** 31) for x in fib(min(n, r.choice([10, 25, 44])))] + [0] * max(0, n - 44)
        f = (f + [1] * n)[:n]
    elif k == 6:                       # two levels
        a = r.randint(1, n)
        f = [r.choice([3, 1000])] * a + [1] * (n - a)
    elif k == 7:
        f = [r.choice([0, 1, 1, 2, 3, 5, 8]) for _ in range(n)]
    elif k == 8:
        f = [2 ** min(i, 30) for i in range(n)]
    else:
        f = [r.randint(0, 3) ** r.randint(1, 8) for _ in range(n)]
    if r.random() < 0.7:
        r.shuffle(f)
    return [min(x, cap) for x in f] if cap else f


def texts(r, n, count):
    res = []
    for i in range(count):
        m = min(n, 256)
        kind = r.randint(0, 3)
        if kind == 0:
            t = [r.randrange(m) for _ in range(r.randint(1, 40))]
        elif kind == 1:
            t = list(range(r.randrange(m), m))[:60]
        elif kind == 2:
            t = [r.randrange(m)] * r.randint(1, 12)
        else:
            few = [r.randrange(m) for _ in range(3)]
            t = [r.choice(few) for _ in range(r.randint(1, 30))]
        eof = n == 257 and r.random() < 0.6
        if eof and r.random() < 0.15:
            t = []
        post = r.choice([0, 0, 1, 3, 8, 13, 40])
        # without the end symbol the number of bits delimits the text; with it the count may also cover what follows
        count_ = 0 if not eof else r.choice([-1, -1, 0, min(post, 8), post])
        res.append({"text": t, "eof": eof, "pre": r.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 11]), "post": post, "count": count_})
    return res


def compile_cc(c, v):
    d = os.path.join(c.repo(), "compressor", v[:-3])
    exe = c.path("huff-" + v)
    rc, out = run(["g++", "-std=c++0x", "-O1", "-w", "-include", "cstdint", "-include", "cmath", "-include", "array",
                   "-I", d, "-o", exe, os.path.join(HARN, "cc", "huff_driver.cc"), os.path.join(d, "header_freq_tables.cc")], 300)
    if rc != 0:
        raise Machinery("cannot compile against %s\n%s" % (d, out[-2000:]))
    return exe


def play_cc(c, work):
    def one(v):
        script = ""
        for i, h in enumerate(work[v]):
            f = h["freqs"]
            f = "1" if f == "request" else "0" if f == "response" else " ".join(map(str, f))
            script += "table %d %s\n" % (h["fresh"], f)
            for t in h["texts"]:
                script += "text %d %d %d %d %s\n" % (t["eof"], t["count"], t["pre"], t["post"], " ".join(map(str, t["text"])))
        p = subprocess.run([compile_cc(c, v), v], input=script.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
        if p.returncode not in (0, 7):
            raise Machinery("C++ driver rc=%s %s" % (p.returncode, p.stderr.decode()[-500:]))
        return [json.loads(x) for x in p.stdout.decode().splitlines()]
    with ThreadPoolExecutor(2) as ex:
        return [e for evs in ex.map(one, list(work)) for e in evs]


def main(c):
    c.repo()
    r = c.rng
    if c.thorough:
        c.model("HuffModel", MODEL % (5, 4, 2), "5 symbols", workers=6, timeout=800)
    c.model("HuffModel", MODEL % (4, 4, 3), "4 symbols", workers=6, timeout=300)
    py, cc = [], {}
    for v in PY + CC:
        hs = []
        for which in ("request", "response"):
            hs.append({"variant": v, "freqs": which, "chars": False, "shuffle": [], "fresh": 1, "texts": texts(r, 257, 12 if c.thorough else 6)})
        for i in range(90 if c.thorough else 22):
            n = 257 if v in CC or r.random() < 0.5 else r.choice([2, 2, 3, 4, 5, 7, 8, 9, 16, 33, 100, 128, 200, 255, 256])
            f = freqs(r, n, 2 ** 32 - 1 if v in CC else None)
            sh = list(range(n))
            r.shuffle(sh)
            hs.append({"variant": v, "freqs": f, "chars": r.random() < 0.3, "shuffle": sh if r.random() < 0.3 else [],
                       "fresh": int(r.random() < 0.5), "texts": texts(r, n, 10 if c.thorough else 6)})
        if v in CC:
            cc[v] = hs
        else:
            py += hs
    events = play(c, py, driver="huff_driver.py", procs=4) + play_cc(c, cc)
    c.samples += [{"table": dict(events[0], codes=events[0]["codes"][:5], freqs=events[0]["freqs"][:5]), "text": events[1]}]
    files = split_traces(events, 8, c.path("trace"))
    c.validate("HuffTrace", TRACE, files, timeout=800)
    c.assumptions += ["frequency tables number their symbols 0..n-1; the C++ coder has 257 of them",
                      "an empty text without the end symbol is not coded (there is nothing to delimit it)",
                      "optimality is checked where the weights add up below 2^30 and no length limit applies",
                      "Jython 2.7 executes the Python 2 sources as CPython 2 would"]
