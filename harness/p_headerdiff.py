"""P03/P04: the HeaderDiff codec."""
import json
from common import *
import gen
from p_http2 import merge

ROUND = ["constructor-raises", "constructor-hangs", "compress-raises", "compress-hangs", "decompress-raises",
         "decompress-hangs", "decoded-differs", "input-changed"]
FORMAT = ["frame-header", "truncated", "index-out-of-table", "table-exceeds-buffer", "frame-has-more-bytes",
          "frame-means-other-headers", "decoder-rejects-legal-frame", "decoder-not-per-format", "decoder-hangs"]

MC = """SPECIFICATION Spec
CONSTANTS
 Universe <- U
 Names0 <- N0
 Limits <- L0
 Cap = %(cap)d
 Delta = "%(delta)s"
 Uses = 1
 Novelty = %(nov)s
 Strict = TRUE
 MaxSet = %(maxset)d
 MaxDepth = %(depth)d
 Emit = TRUE
INVARIANTS Bounded NoDup
PROPERTIES StepRoundTrip StepInSync StepCheap
VIEW View
CHECK_DEADLOCK FALSE
"""
UNIV = [("a", "xx/y"), ("a", "xx/z"), ("a", "xx" + "q" * 20), ("b", ""), ("b", "ppp"), (":path", "/a")]
DELTA = {"none": ["delta=false"], "full": [], "bound": ["delta_type=/"], "max": ["delta_type=1"]}

GEN = """SPECIFICATION Spec
CONSTANTS
 Cap = %d
 Request = %s
 Huff = %s
 Frames = %d
 MaxItems = %d
INVARIANT Bounded
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION Spec
CONSTANT Watch = {%s}
INVARIANTS Accepted Done
CHECK_DEADLOCK FALSE
"""


def item(req, cap, params, steps, huff=False, fmt=True):
    return {"codec": "headerdiff", "params": params, "req": req, "steps": steps,
            "new": {"req": req, "cap": cap, "huff": huff, "fmt": fmt}}


def model_histories(c):
    jobs = []
    for cap in (4, 9, 27, 100):
        for delta in DELTA:
            nov = (cap + len(delta) + c.seed) % 2 == 0
            if not c.thorough and (cap, delta) not in ((9, "full"), (9, "none"), (27, "bound"), (27, "max"), (100, "full")):
                continue
            jobs.append((cap, delta, nov))
            if c.thorough:
                jobs.append((cap, delta, not nov))

    def one(j):
        cap, delta, nov = j
        deep = c.thorough and cap <= 9
        out = c.model("MCHeaderDiff", MC % dict(cap=cap, delta=delta, nov=str(nov).upper(),
                      maxset=2 if deep or not c.thorough else 3, depth=5 if deep else 3),
                      "cap%d-%s-%s" % (cap, delta, "request" if nov else "response"), workers=2, timeout=800)
        return [(cap, delta, nov, h) for h in c.printed(out, "HIST")]
    hs = []
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, jobs):
            seen = {}
            for x in r:
                seen[json.dumps(x[3])] = x
            r = list(seen.values())
            c.rng.shuffle(r)
            hs += r[:1500 if c.thorough else 220]
    c.notes.append("histories from the design model replayed: %d" % len(hs))
    return [item(nov, cap, ["buffer=%d" % cap] + DELTA[delta], [{"hdrs": merge([UNIV[i - 1] for i in o])} for o in h])
            for cap, delta, nov, h in hs]


def feeds(c):
    jobs = []
    for i, cap in enumerate((32768, 4000, 700, 310, 60, 5)):
        jobs.append((cap, (i + c.seed) % 2 == 0, i % 3 == 1, 5, 14))
        jobs.append((cap, (i + c.seed) % 2 == 1, i % 3 == 0, 30 if i == 0 else 5, 9))
    num = 40 if c.thorough else 5

    def one(j):
        cap, req, huff, fr, items = j
        rc, out = c.tlc("HeaderDiffGen", GEN % (cap, str(req).upper(), str(huff).upper(), fr, items),
                        extra=["-simulate", "num=%d" % num, "-depth", str(fr * (items + 2)), "-seed", str(c.seed * 1000 + cap)],
                        name="gen%d%s" % (cap, req))
        if rc != 0:
            raise Machinery("HeaderDiffGen: %s" % out[-2000:])
        return [(cap, req, huff, f) for f in c.printed(out, "FEED")]
    res = []
    with ThreadPoolExecutor(6) as ex:
        for lst in ex.map(one, jobs):
            for cap, req, huff, frames in lst:
                res.append(item(req, cap, ["buffer=%d" % cap] + (["huffman"] if huff else []),
                                [{"feed": f} for f in frames], huff=huff))
    c.notes.append("decoder histories generated by TLC from HeaderDiffGen: %d" % len(res))
    return res


def many_entries():
    """More than 16446 table entries: the continuation of the 14-bit index."""
    steps = [{"hdrs": [["n%d" % (i * 255 + j), ""] for j in range(255)]} for i in range(66)]
    steps.append({"hdrs": [["n%d" % k, ""] for k in (5, 63, 64, 65, 16300, 16446, 16447, 16448, 16573, 16574, 16575, 16700, 16750)]})
    return [item(True, 32768, ["delta=false"], steps)]


def work(c):
    res = model_histories(c)
    n = (300 if c.thorough else 70) if c.prop == "P03" else (200 if c.thorough else 40)
    for i in range(n):
        cap = c.rng.choice([32768, 32768, 32768, 4096, 2000, 1200, 600, 300, 100, 64, 17, 5, 0])
        req = c.rng.random() < 0.5
        params = [] if cap == 32768 and i % 2 else ["buffer=%d" % cap]
        huff = i % 4 == 1
        if huff:
            params.append(c.rng.choice(["huffman", "huffman=true"]))
        d = i % 6
        if d == 2:
            params.append("delta=false")
        elif d == 3:
            params.append("delta_type=" + c.rng.choice(["'/?= \\coma'", "/", "=", "\"&\\coma\"", "abc"]))
        elif d == 4:
            params.append("delta_type=%d" % c.rng.choice([0, 1, 2, 5]))
        elif d == 5:
            params.append(c.rng.choice(["delta=true", "delta", "huffman=false"] if not huff else ["delta"]))
        fmt = i % 10 != 7
        if not fmt:
            params.append("deflate=%d" % c.rng.choice([9, 12, 15]))
        kw = dict(density=c.rng.choice([0.15, 0.4, 0.8]), long_p=c.rng.choice([0.02, 0.2]))
        if i % 5 == 0:
            kw["alphabet"] = "".join(chr(x) for x in range(1, 256) if chr(x) not in ";\r\n\t\x0b\x0c\x85\xa0\x1c\x1d\x1e\x1f")
        if i % 4 == 1:
            kw["names"] = gen.NAMES + ["q%d" % k for k in range(150)]
            kw["density"] = 0.15
        if i % 8 == 7:
            kw = dict(tangled=True)
        h = gen.history("headerdiff", c.rng, req, params, 60 if c.thorough else 25,
                        new={"cap": cap, "huff": huff, "fmt": fmt}, **kw)
        # some messages are sent twice in a row
        steps = []
        for st in h["steps"]:
            steps.append(st)
            if c.rng.random() < 0.15:
                steps.append(dict(st))
        h["steps"] = [st for st in steps if sum(1 + v.count("\0") + v.count(";") for _, v in st["hdrs"]) <= 255]
        res.append(h)
    for req in (True, False):
        for params in (["huffman"], []):
            res.append(item(req, 32768, params, gen.every_byte() + gen.every_byte(), huff=bool(params)))
    # exactly 255 fields, and string lengths around the prefix limits
    for cap, params in ((32768, []), (900, ["buffer=900"]), (900, ["buffer=900", "delta=false"]), (32768, ["huffman"])):
        hd = [["k%03d" % k, "v" * (k % 40)] for k in range(255)]
        res.append(item(True, cap, params, [{"hdrs": hd}, {"hdrs": list(reversed(hd))}, {"hdrs": hd[:5]}], huff="huffman" in params))
        res.append(item(False, cap, params, [{"hdrs": [["z", "u" * n]]} for n in (0, 1, 14, 15, 16, 30, 31, 32, 127, 128, 129, 255, 256) + (() if "huffman" in params else (16383, 16384, 16385, 20000))],
                        huff="huffman" in params))
    # lengths, and lengths of common prefixes, that need a third byte
    for cap, params in ((32768, []), (300000, ["buffer=300000"]), (300000, ["buffer=300000", "delta=false"]),
                        (300000, ["buffer=300000", "delta_type=2"])):
        res.append(item(False, cap, params, gen.long_values()))
    if c.prop == "P03" or c.thorough:
        res.append(item(True, 32768, ["huffman"], gen.long_values((16383, 16385)), huff=True))
    return res + (many_entries() if c.thorough or c.prop == "P03" else [])


def main(c):
    w = work(c)
    if c.prop == "P03":        # the frames are not parsed, only played back
        for x in w:
            x["new"]["fmt"] = False
    else:
        w = [x for x in w if x["new"]["fmt"]] + feeds(c)
    events = play(c, w, procs=6)
    watch = ROUND if c.prop == "P03" else ROUND + FORMAT
    files = split_traces(events, 8, c.path("trace"))
    c.samples += [{"history": events[:2]}]
    c.validate("HeaderDiffTrace", TRACE % ", ".join('"%s"' % x for x in watch), files, timeout=700)
    c.assumptions += ["at most 255 fields per message and at most 65535 bytes of payload (the format's limits)",
                      "Jython 2.7 executes the Python 2 sources as CPython 2 would"]
