"""P01/P02: the HTTP/2 (HPACK draft) codec."""
import json
from common import *
import gen

ROUND = ["constructor-raises", "compress-raises", "compress-hangs", "decompress-raises", "decompress-hangs",
         "decoded-differs", "input-changed"]
FORMAT = ["frame-header", "truncated", "index-out-of-table", "frame-means-other-headers",
          "decoder-rejects-legal-frame", "decoder-not-per-format", "decoder-hangs"]

MC = """SPECIFICATION Spec
CONSTANTS
  Overhead = 32
  Universe <- %(u)s
  Static <- %(s)s
  Cap = %(cap)d
  MaxSet = %(maxset)d
  ReSend = "once"
  Fuel = 8
  MaxDepth = %(depth)d
  Emit = %(emit)s
INVARIANTS Bounded NoDup
PROPERTIES StepRoundTrip StepInSync StepTerminates StepRefSet StepCheap StepSilent
VIEW View
CHECK_DEADLOCK FALSE
"""
UNIV = [(":path", "/"), (":path", "/a"), ("a", ""), ("a", "x"), ("b", "y" * 40)]


def concretise(hist):
    return [{"hdrs": merge([UNIV[i - 1] for i in o])} for o in hist]


def merge(hs):
    d = {}
    for n, v in hs:
        d[n] = d[n] + "\0" + v if n in d else v
    return [[n, v] for n, v in d.items()]


def check(c):
    # 1. design model, 2. one history per transition of its state graph
    hists = []
    for label, cap, static, depth, maxset in [
            ("cap110-small", 110, "S1", 4 if c.thorough else 3, 3),
            ("cap110-real-request-table", 110, "StaticRequest", 3, 3 if c.thorough else 2),
            ("cap75", 75, "S1", 4, 3 if c.thorough else 2),
            ("cap30-nothing-fits", 30, "S1", 2, 2)]:
        out = c.model("MCHttp2", MC % dict(u="U", s=static, cap=cap, depth=depth, maxset=maxset,
                                           emit="TRUE"), label, workers=4)
        hs = c.printed(out, "HIST")
        for h in hs:
            hists.append((cap, h))
    c.notes.append("histories printed by TLC, one per model transition: %d" % len(hists))
    budget = 6000 if c.thorough else 900
    if len(hists) > budget:
        hists = c.rng.sample(hists, budget)
    work = []
    for cap, h in hists:
        work.append({"codec": "http2", "params": ["buffer_size=%d" % cap], "req": True,
                     "steps": concretise(h), "new": {"req": True, "cap": cap}})
    # 3. random long histories against the real defaults and many capacities
    n = 160 if c.thorough else 26
    for i in range(n):
        cap = c.rng.choice([4096, 4096, 4096, 2000, 1400, 1200, 600, 300, 120, 64, 33, 0, 8192])
        req = i % 2 == 0
        kw = dict(density=c.rng.choice([0.15, 0.4, 0.8]), long_p=c.rng.choice([0.02, 0.2]))
        if i % 5 == 0:
            kw["alphabet"] = "".join(chr(x) for x in range(1, 256) if chr(x) not in ";\r\n\t\x0b\x0c\x85\xa0\x1c\x1d\x1e\x1f")
        if i % 4 == 1:
            kw["names"] = gen.NAMES + ["q%d" % k for k in range(150)]
            kw["density"] = 0.15
        params = [] if cap == 4096 and i % 3 else ["buffer_size=%d" % cap]
        if i % 8 == 7:
            kw = dict(tangled=True)
        work.append(gen.history("http2", c.rng, req, params, 60 if c.thorough else 25,
                                new={"req": req, "cap": cap}, **kw))
    # a table larger than 127+31 entries, and a kept header that is evicted by its frame
    for cap, req in ((20000, True), (20000, False), (300, True), (700, True)):
        big = [["k%03d" % k, "v%d" % k] for k in range(220)]
        steps = [{"hdrs": [[":path", "/"]] if req else [[":status", "200"]]}]
        for s in range(4):
            steps.append({"hdrs": ([[":path", "/"]] if req else [[":status", "200"]]) + big[s * 7: s * 7 + 200 - 50 * s]})
            steps.append({"hdrs": ([[":path", "/"]] if req else [[":status", "200"]]) + [["x", "y" * 250]]})
        work.append({"codec": "http2", "params": ["buffer_size=%d" % cap], "req": req,
                     "steps": steps, "new": {"req": req, "cap": cap}})
    # values whose lengths need a third length byte, too large for the table and not
    for cap in (4096, 200000):
        for req in (True, False):
            work.append({"codec": "http2", "params": ["buffer_size=%d" % cap], "req": req,
                         "steps": gen.long_values(), "new": {"req": req, "cap": cap}})
    if c.prop == "P02":
        work += feeds(c)
    return work


GEN = """SPECIFICATION Spec
CONSTANTS
 Overhead = 32
 Cap = %d
 Request = %s
 Frames = %d
 MaxItems = %d
INVARIANT Bounded
CHECK_DEADLOCK FALSE
"""


def feeds(c):
    """Decoder-only histories: legal frames generated by TLC from Http2Gen,
    including the representation the encoder never chooses (substitution)."""
    jobs = []
    caps = [4096, 1400, 600, 300, 120, 64, 40]
    for i, cap in enumerate(caps):
        jobs.append((cap, (i + c.seed) % 2 == 0, 4, 8))
    num = 60 if c.thorough else 8

    def one(j):
        cap, req, fr, items = j
        rc, out = c.tlc("Http2Gen", GEN % (cap, str(req).upper(), fr, items), workers=1,
                        extra=["-simulate", "num=%d" % num, "-depth", "80", "-seed",
                               str(c.seed * 1000 + cap)], name="gen%d" % cap)
        if rc != 0:
            raise Machinery("Http2Gen: %s" % out[-2000:])
        return [(cap, req, f) for f in c.printed(out, "FEED")]
    res = []
    with ThreadPoolExecutor(4) as ex:
        for lst in ex.map(one, jobs):
            for cap, req, frames in lst:
                res.append({"codec": "http2", "params": ["buffer_size=%d" % cap], "req": req,
                            "steps": [{"feed": f} for f in frames],
                            "new": {"req": req, "cap": cap}})
    c.notes.append("decoder histories generated by TLC from Http2Gen: %d" % len(res))
    return res


TRACE = """SPECIFICATION Spec
CONSTANTS
  Overhead = 32
  Watch = {%s}
INVARIANTS Accepted Done
CHECK_DEADLOCK FALSE
"""


def main(c):
    work = check(c)
    events = play(c, work)
    watch = ROUND if c.prop == "P01" else ROUND + FORMAT
    files = split_traces(events, 8, c.path("trace"))
    c.samples += [{"history": [e for e in events[:2]]}]
    c.validate("Http2Trace", TRACE % ", ".join('"%s"' % w for w in watch), files)
    c.assumptions += ["header names and values are byte strings; a frame's payload fits its 16-bit length",
                      "Jython 2.7 executes the Python 2 sources as CPython 2 would"]
