"""P26: the codec of RFC 7541 (hyper_hpack)."""
from common import *
from p_harness import play3
from genhar import cp
import gen

CLAUSES = ["constructor-raises", "compress-raises", "decompress-raises", "input-changed", "decoded-differs", "truncated",
           "bad-text", "index-out-of-table", "size-update", "stored-field-spelled-out", "recent-field-spelled-out", "frame-means-other-headers",
           "decoder-rejects-legal-frame", "decoder-not-per-format"]
MC = """SPECIFICATION Spec
CONSTANTS
 Overhead = 32
 Universe <- U
 Cap = 4096
 MaxSet = %d
 MaxDepth = %d
INVARIANT Bounded
PROPERTIES StepRoundTrip StepInSync StepIndexed
VIEW View
CHECK_DEADLOCK FALSE
"""
GEN = """SPECIFICATION Spec
CONSTANTS
 Overhead = 32
 Frames = %d
 MaxItems = %d
INVARIANT Bounded
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION Spec
CONSTANTS
 Overhead = 32
 Watch = {%s}
INVARIANTS Accepted Done InBound
CHECK_DEADLOCK FALSE
"""
STATIC_NAMES = """:authority :method :path :scheme :status accept-charset accept-encoding accept-language accept-ranges accept
access-control-allow-origin age allow authorization cache-control content-disposition content-encoding content-language
content-length content-location content-range content-type cookie date etag expect expires from host if-match
if-modified-since if-none-match if-range if-unmodified-since last-modified link location max-forwards proxy-authenticate
proxy-authorization range referer refresh retry-after server set-cookie strict-transport-security transfer-encoding
user-agent vary via www-authenticate""".split()
UNIV = [(":method", "GET"), (":path", "/a"), ("a", ""), ("a", "x"), ("b", "y" * 1400), ("c", "y" * 2600), ("b", "y" * 4064), ("a", "y" * 4063)]
STATIC = [(":method", "POST"), (":status", "304"), (":scheme", "https"), ("accept-encoding", "gzip, deflate"), (":path", "/index.html"),
          ("cookie", ""), ("authorization", "Basic cXE6cQ"), ("cookie", "s=1; t=2"), ("proxy-authorization", "x"), ("authorization", ""), ("set-cookie", "a=b"), ("via", ""), ("www-authenticate", "Basic"), ("age", "0")]


def step(hs):
    d = {}
    for n, v in hs:
        d[n] = d[n] + "\0" + v if n in d else v
    return {"hdrs": [[cp(n), cp(v)] for n, v in d.items()]}


def histories(c):
    r, work = c.rng, []
    out = c.model("MCHpack", MC % ((3, 3) if c.thorough else (2, 3)), "cap4096", workers=4, timeout=800)
    hs = c.printed(out, "HIST")
    c.notes.append("histories printed by TLC, one per model transition: %d" % len(hs))
    hs = r.sample(hs, min(len(hs), 1500 if c.thorough else 150))
    for h in hs:
        work.append([step([UNIV[i - 1] for i in o]) for o in h])
    for i in range(200 if c.thorough else 36):
        kw = dict(density=r.choice([0.15, 0.4, 0.8]), long_p=r.choice([0.02, 0.2]))
        if i % 4 == 1:
            kw["alphabet"] = "abc\xe9\u4e2d\U0001f600=:,\x80\x7f"
        if i % 5 == 2:
            kw["alphabet"] = "".join(chr(x) for x in range(1, 256))
        if i % 6 == 3:
            kw["names"] = gen.NAMES + ["q%d" % k for k in range(150)]
        if i % 8 == 7:
            kw = dict(tangled=True)
        g = gen.Gen(r, i % 2 == 0, **kw)
        steps = []
        for _ in range(40 if c.thorough else 14):
            h = g.headers()
            if r.random() < 0.4:
                h = [x for x in h if x[0] not in dict(STATIC)] + r.sample(STATIC, 3)
            if r.random() < 0.3:
                h = [[n.title() if r.random() < 0.2 else n, v] for n, v in h]
            steps.append(step(h))
            while r.random() < 0.25:
                steps.append(steps[-1])
        work.append(steps)
    # every name of the static table (and other usual ones), short and long values, sent again
    usual = [n for n in STATIC_NAMES + ["x-forwarded-for", "etag2", "dnt", "p3p", ":version", ":host"]]
    for k in range(0, len(usual), 6):
        for v in ("v1", "w" * 90, "z" * 500):
            part = [(n, v + n) for n in usual[k:k + 6]]
            work.append([step(part), step(part), step(part[:3]), step([(n, v + "+") for n, v in part[3:]] + part[:2]), step(part[3:])])
    # every byte; a table of more than 66 and of more than 127 entries; fields of the size of the table
    work.append([step([(n, v) for n, v in m["hdrs"]]) for m in gen.every_byte() for _ in (1, 2)])
    many = [("k%d" % k, "v") for k in range(110)]
    work.append([step(many), step(many), step(many[:3]), step(many[80:]), step(list(reversed(many))), step([("z", "y" * 300)]), step(many)])
    work.append([step([("z" * a, "y" * n)] + many[:2]) for a in (1, 5) for n in (4062, 4063, 4064, 3000, 1000, 1100)])
    work.append([step([]), step([("a", "")]), step([]), step([("a", "")]), step([("A", "")]), step([("a", "\0")]), step([("a", "\0")])])
    if c.thorough:
        work.append([step([("big%d" % k, "%d" % k * (9000 * k))]) for k in range(1, 5) for _ in (1, 2)])
    return work


def feeds(c):
    num = 60 if c.thorough else 10

    def one(j):
        rc, out = c.tlc("HpackGen", GEN % (5, j), workers=1, extra=["-simulate", "num=%d" % num, "-depth", "90", "-seed",
                        str(c.seed * 1000 + j)], name="gen%d" % j)
        if rc != 0:
            raise Machinery("HpackGen: %s" % out[-2000:])
        return c.printed(out, "FEED")
    with ThreadPoolExecutor(4) as ex:
        res = [fs for lst in ex.map(one, [3, 5, 9, 14]) for fs in lst]
    c.notes.append("decoder histories generated by TLC from HpackGen: %d" % len(res))
    return [[{"feed": f} for f in fs] for fs in res]


def main(c):
    work = [{"codec": "hyper_hpack", "params": [], "req": i % 2 == 0, "steps": s}
            for i, s in enumerate(histories(c) + feeds(c))]
    events = play3(c, work, "hpack_driver.py")
    c.samples += [{"history": events[1:2]}]
    files = split_traces(events, 8, c.path("trace"))
    c.validate("HpackTrace", TRACE % ", ".join('"%s"' % x for x in CLAUSES), files, timeout=800)
    c.assumptions += ["the hpack package is the installed one; text is UTF-8 encoded; a message's fields come to less than 64 KB",
                      "a block fed to the decoder has distinct names, because the result is a dictionary"]
