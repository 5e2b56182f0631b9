"""P09: BitBucket, in five Python variants and two C++ variants."""
import json, os
from common import *

PY = ["delta", "delta2", "bohe", "delta_bohe", "delta2_bohe"]
CC = ["delta.cc", "delta_bohe.cc"]
PACK = """SPECIFICATION Spec
CONSTANTS
 W = %d
 MaxBits = %d
 MaxOp = %d
INVARIANT Refines
PROPERTY ReadsRight
CHECK_DEADLOCK FALSE
"""
OPS = """SPECIFICATION Spec
CONSTANTS
 Span = %d
 MaxOp = %d
VIEW View
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION Spec
INVARIANTS Accepted Sound Done
CHECK_DEADLOCK FALSE
"""
SIZES = {"s1": 1, "s4": 4, "s8": 8, "s16": 16, "s22": 22, "s32": 32, "g1": 1, "g4": 4, "g8": 8, "g16": 16, "g32": 32}


def has(v, op):
    if v in CC:
        return op in ("store", "s1", "s8", "s16", "s32", "bytes", "abytes", "a8", "a16", "a32", "get", "g1", "peek",
                      "consume", "seek", "clear", "all", "over")
    if op in ("store", "s1", "s8", "s16", "s32", "get", "g8", "g16", "g32", "align", "clear", "all", "over"):
        return True
    return op in ("s4", "g4", "g1", "pad") if v == "delta2" else op == "s22" and v == "bohe"


class Maker(object):
    """Turns operation names and counts into calls with contents; keeps to the domain."""
    def __init__(self, rng, variant):
        self.r, self.v, self.w, self.rd, self.ops = rng, variant, 0, 0, []

    def bytes(self, k):
        m = self.r.random()
        return [255] * k if m < 0.25 else [self.r.randint(0, 255) for _ in range(k)]

    def number(self, n):
        bits = (1 << n) - 1 if self.r.random() < 0.25 else self.r.getrandbits(n)
        return [(bits >> s) & 255 for s in range(8 * ((n + 7) // 8) - 8, -1, -8)]

    def add(self, op, n=0, b=()):
        self.ops.append({"ev": op, "n": n, "b": list(b)})

    def do(self, op, n):
        """one operation of the specification, in the variant's own terms"""
        r, v = self.r, self.v
        if op == "store" or op in SIZES and op[0] == "s":
            if not has(v, op):
                op, n = "store", n
            if op == "store":
                self.add(op, n, self.bytes((n + 7) // 8))
            elif op == "s4" and r.random() < 0.3:      # masks its argument
                self.add(op, n, [r.randint(0, 255)])
            else:
                self.add(op, n, self.number(n))
            self.w += n
        elif op == "get" or op in SIZES:
            self.add(op if has(v, op) else "get", n)
            self.rd += n
        elif op == "over":
            self.add(op, self.w - self.rd + n)
        elif op == "pad":
            s = -self.w % 8
            if v in CC:
                k = r.choice(["a8", "a16", "a32", "abytes"])
                b = self.bytes({"a8": 1, "a16": 2, "a32": 4}.get(k) or r.randint(0, 5))
                self.add(k, 8 * len(b), b)
                self.w += s + 8 * len(b)
            elif has(v, op):
                self.add(op)
                self.w += s
            elif s:
                self.add("store", s, [0])
                self.w += s
        elif op == "align":
            s = -self.rd % 8
            if self.rd + s <= self.w:
                self.add("consume" if v in CC else op, s if v in CC else 0)
                self.rd += s
        elif op == "clear":
            self.add(op)
            self.w = self.rd = 0
        elif op == "all":
            self.add(op)
        elif op == "bytes":
            b = self.bytes(n // 8)
            self.add("bytes" if v in CC else "store", 8 * len(b), b)
            self.w += 8 * len(b)
        elif op == "peek" and v in CC:
            self.add(op, n, self.bytes(4))
        elif op == "seek" and v in CC:
            n = r.randint(0, self.w)
            self.add(op, n)
            self.rd = n


def closing(m):
    """read everything back"""
    m.do("all", 0)
    left = m.w - m.rd
    if left > 0:
        k = m.r.choice([0, 1, 3, left])
        m.do("get", min(k, left))
        m.do("get", m.w - m.rd)
    m.do("all", 0)


def random_history(rng, v, n):
    m = Maker(rng, v)
    for _ in range(n):
        x = rng.random()
        left = m.w - m.rd
        if x < 0.40:
            k = rng.choice([0, 1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 23, 31, 33, 40, rng.randint(0, 90)])
            m.do("store", k)
        elif x < 0.52:
            op = rng.choice(["s1", "s4", "s8", "s16", "s22", "s32"])
            m.do(op, SIZES[op])
        elif x < 0.72:
            m.do("get", min(left, rng.choice([0, 1, 2, 3, 5, 7, 8, 9, 13, 16, 17, 24, 32, rng.randint(0, 70)])))
        elif x < 0.82:
            op = rng.choice(["g1", "g4", "g8", "g16", "g32"])
            if SIZES[op] <= left:
                m.do(op, SIZES[op])
        elif x < 0.86:
            m.do("align", 0)
        elif x < 0.90:
            m.do("pad", 0)
        elif x < 0.93:
            m.do("bytes", 8 * rng.randint(0, 6))
        elif x < 0.96:
            m.do("peek", rng.choice([0, 1, 7, 8, 9, 31, 32, rng.randint(0, 32)]))
        elif x < 0.975:
            m.do("over", rng.choice([1, 2, 8, 100]))
        elif x < 0.985:
            m.do("seek", 0)
        elif x < 0.99:
            m.do("clear", 0)
        else:
            m.do("all", 0)
    closing(m)
    return m.ops


def build(c, src, variant, name):
    """compile a driver against one variant's headers"""
    d = os.path.join(c.repo(), "compressor", variant)
    exe = c.path(name)
    rc, out = run(["g++", "-std=c++0x", "-O1", "-w", "-include", "cstdint", "-include", "cmath", "-include", "array",
                   "-I", d, "-o", exe, os.path.join(HARN, "cc", src)], 300)
    if rc != 0:
        raise Machinery("cannot compile %s against %s\n%s" % (src, d, out[-2000:]))
    return exe


def play_cc(c, work):
    """work: {variant: histories}; a run that dies is resumed behind the history that killed it"""
    events = []

    def one(v):
        exe = build(c, "bits_driver.cc", v[:-3], "bits-" + v)
        evs, hs = [], list(work[v])
        while hs:
            script = "".join("new %d\n" % CC.index(v) + "".join(
                "%s %d %s\n" % (o["ev"], o["n"], " ".join(map(str, o["b"]))) for o in ops) for ops in hs)
            p = subprocess.run([exe], input=script.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
            got = [json.loads(x) for x in p.stdout.decode().splitlines()]
            evs += got
            if p.returncode == 0:
                break
            if p.returncode != 7:
                raise Machinery("C++ driver rc=%s %s" % (p.returncode, p.stderr.decode()[-500:]))
            break          # the trace ends in the failing event
        return evs
    with ThreadPoolExecutor(2) as ex:
        for evs in ex.map(one, list(work)):
            events += evs
    return events


def main(c):
    c.repo()
    if c.thorough:
        c.model("BitPackModel", PACK % (3, 9, 5), "word width 3", workers=6, timeout=800)
        c.model("BitPackModel", PACK % (4, 9, 6), "word width 4", workers=6, timeout=800)
    else:
        c.model("BitPackModel", PACK % (3, 7, 4), "word width 3", workers=6, timeout=300)
    out = c.model("BitOps", OPS % ((40, 40) if c.thorough else (26, 26)), "alignments", timeout=300)
    hs = c.printed(out, "HIST")
    py, cc = [], {}
    for v in PY + CC:
        mine = list(hs)
        c.rng.shuffle(mine)
        res = []
        for h in mine[:6000 if c.thorough else 900]:
            m = Maker(c.rng, v)
            for op, n in h:
                m.do(op, n)
            closing(m)
            res.append(m.ops)
        for i in range(150 if c.thorough else 25):
            res.append(random_history(c.rng, v, 60))
        if v in CC:
            cc[v] = res
        else:
            py += [{"variant": v, "ops": ops} for ops in res]
    py.sort(key=lambda h: h["variant"])
    events = play(c, py, driver="bits_driver.py", procs=3) + play_cc(c, cc)
    c.samples += [{"history": events[:4]}]
    files = split_traces(events, 8, c.path("trace"))
    c.validate("BitTrace", TRACE, files, timeout=800)
    c.assumptions += ["stores pass ceil(bits/8) bytes; the read position is aligned or moved only within the stored bits",
                      "the host is little-endian (byte-aligned C++ stores)",
                      "Jython 2.7 executes the Python 2 sources as CPython 2 would"]
