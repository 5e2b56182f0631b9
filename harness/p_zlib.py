"""P18: the codecs built on zlib."""
from common import *
from p_harness import play3
from genhar import cp
import gen

CLAUSES = ["constructor-raises", "compress-raises", "compress-no-bytes", "input-changed", "zlib-header", "truncated",
           "stream-ends", "stored-length", "block-type", "illegal-code", "too-many-lengths", "no-length-to-repeat",
           "refers-beyond-the-stream", "no-name-value-block", "block-differs", "text-not-terminated", "start-line",
           "field-lines", "field-order", "back-reference", "repeat-not-referenced", "dictionary-not-used"]
TRACE = """SPECIFICATION Spec
CONSTANTS
 Watch = {%s}
VIEW View
INVARIANTS Accepted Done
CHECK_DEADLOCK FALSE
"""
MODEL = """SPECIFICATION Spec
CONSTANTS
 Symbols = %d
 MaxLen = %d
 MaxText = 3
INVARIANTS CodeOk CopyOk
CHECK_DEADLOCK FALSE
"""
CODECS = [("http1_gzip", [], "gzip", True), ("http1_huffman", [], "huffman", True), ("spdy3", [], "spdy3", False),
          ("spdy3", ["dict"], "spdy3", True), ("spdy3", ["x", "dict"], "spdy3", True)]


def histories(c):
    r, work = c.rng, []
    for i in range(600 if c.thorough else 110):
        codec, params, kind, primed = CODECS[i % len(CODECS)]
        req = r.random() < 0.5
        kw = dict(density=r.choice([0.1, 0.3, 0.6]), long_p=r.choice([0.0, 0.05]))
        if i % 4 == 1:
            kw["alphabet"] = "abc\xe9\u4e2d\U0001f600=:,\x80\x7f"
        if i % 7 == 3:
            kw["alphabet"] = "".join(chr(x) for x in range(33, 256))
        if i % 7 == 5:
            kw["alphabet"] = "a"
        g = gen.Gen(r, req, **kw)
        msgs = []
        for _ in range(r.choice([1, 3, 6, 10])):
            h = g.headers()
            if not req:
                h.append([":status-text", r.choice(["OK", "Not Found"])])
            m = {"hdrs": [[cp(a), cp(b)] for a, b in h], "host": g.host()}
            if r.random() < 0.2:
                m["piece"] = [r.randrange(4000), r.choice([40, 60, 200, 600])]
            msgs.append(m)
            while r.random() < 0.25:
                msgs.append(dict(m))
        work.append({"codec": codec, "params": params, "req": req, "msgs": msgs, "new": {"kind": kind, "primed": primed}})
    for codec, params, kind, primed in CODECS[:4]:
        # tiny and empty messages; incompressible text; more than one window of text
        tiny = [{"hdrs": x, "host": "h"} for x in ([], [], [[cp("a"), []]], [[cp("a"), cp("b")]], [[cp("ab"), cp("cd")]],
                                                   [[cp("ab"), cp("cde")]], [[cp("a"), []]], [])]
        work.append({"codec": codec, "params": params, "req": True, "msgs": tiny, "new": {"kind": kind, "primed": primed}})
        noise = [{"hdrs": [[cp("n%d" % k), [r.randrange(33, 126) for _ in range(n)]]], "host": "h"}
                 for k, n in enumerate([300, 1000, 2500, 5000] + ([8000] * 6 if c.thorough else []))]
        noise = [m for m in noise for _ in (1, 2)]
        work.append({"codec": codec, "params": params, "req": True, "msgs": noise, "new": {"kind": kind, "primed": primed}})
        if kind == "spdy3":        # a value longer than sixteen bits count
            long = [{"hdrs": [[cp("b"), cp("xyz" * 22000 + "end")], [cp("cc"), cp("d" * 255)], [cp("e"), cp("f" * 256)]], "host": "h"}]
            work.append({"codec": codec, "params": params, "req": False, "msgs": long, "new": {"kind": kind, "primed": primed}})
        if kind != "huffman" or c.thorough:
            far = [{"hdrs": [[cp("f%d" % k), cp("%d-" % k + "abcdefghij" * 700)], [cp("g"), [r.randrange(65, 90) for _ in range(40)]]],
                    "host": "h"} for k in range(6)]
            work.append({"codec": codec, "params": params, "req": True, "msgs": far + [far[0], far[5]],
                         "new": {"kind": kind, "primed": primed}})
    return work


def main(c):
    c.model("InflateModel", MODEL % ((6, 5) if c.thorough else (5, 4)), "codes and copies", workers=4, timeout=600)
    events = play3(c, histories(c), "zlib_driver.py")
    c.samples += [{"history": events[1:2]}]
    files = split_traces(events, 8, c.path("trace"))
    c.validate("DeflateTrace", TRACE % ", ".join('"%s"' % x for x in CLAUSES), files, timeout=800, heap="3g")
    c.assumptions += ["messages are much shorter than the 32 KB window where the cost of a repetition is judged"]
