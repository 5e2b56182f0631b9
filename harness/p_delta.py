"""P07/P25: the delta codec."""
import json
from common import *
import gen
from p_http2 import merge
from p_delta2 import ROUND, tla

FORMAT = ["frame-header", "unknown-operation", "truncated", "number-not-stored", "toggled-twice",
          "frame-means-other-headers", "decoder-rejects-legal-frame", "decoder-not-per-format"]
RESEND = ["resend-repeats-text", "resend-not-silent"]
MC = """SPECIFICATION Spec
CONSTANTS
 Static <- S
 Universe <- U
 Ephemeral <- Eph
 Cfg <- C0
 Gids = {1, 2}
 MaxSet = 2
 MaxDepth = %(depth)d
 Emit = TRUE
 maxb = %(maxb)d
 maxe = %(maxe)d
 maxn = %(maxn)d
PROPERTIES StepRoundTrip StepInSync StepStoreOk StepOneGroup StepSilent
VIEW View
CHECK_DEADLOCK FALSE
"""
UNIV = [(":scheme", "https"), (":scheme", "qq"), ("a", "1"), ("a", "123"), (":path", "/a"), ("bb", "")]
GEN = """SPECIFICATION Spec
CONSTANTS
 Static <- DefaultKVs
 maxb = %(maxb)d
 maxe = %(maxe)d
 Request = %(req)s
 Frames = 7
 MaxOps = 9
INVARIANT Sound
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION Spec
CONSTANTS
 Static <- DefaultKVs
 Watch = {%s}
INVARIANTS Accepted Limits Done
CHECK_DEADLOCK FALSE
"""
HOSTS = ["a.example.com", "b.example.org", "www.example.net", "example.io", "x.y.co.uk", "10.0.0.2", "localhost"]


def item(req, steps, maxb=16384, maxe=4096, fmt=True):
    p = []
    if maxb != 16384:
        p.append("max_byte_size=%d" % maxb)
    if maxe != 4096:
        p.append("max_entries=%d" % maxe)
    return {"codec": "delta", "params": p, "req": req, "steps": steps,
            "new": {"req": req, "fmt": fmt, "maxb": maxb, "maxe": maxe}}


def model_histories(c):
    jobs = [(6, 3, 9), (4, 2, 8)] if not c.thorough else [(6, 3, 9), (4, 2, 7), (8, 4, 10), (3, 9, 14), (9, 1, 6), (20, 6, 12)]

    def one(j):
        maxb, maxe, maxn = j
        out = c.model("MCDelta", MC % dict(maxb=maxb, maxe=maxe, maxn=maxn, depth=3 if c.thorough else 2),
                      "%dbytes-%dentries" % (maxb, maxe), workers=2, timeout=800)
        seen = {json.dumps(h): h for h in c.printed(out, "HIST")}
        return [(j, seen[k]) for k in sorted(seen)]
    res = []
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, jobs):
            c.rng.shuffle(r)
            for (maxb, maxe, _), h in r[:2000 if c.thorough else 200]:
                steps = [{"hdrs": merge([UNIV[i - 1] for i in o]), "host": HOSTS[1 + g]} for g, o in h]
                res.append(item(True, steps, maxb, maxe))
    c.notes.append("histories from the design model replayed: %d" % len(res))
    return res


def feeds(c):
    jobs = []
    for i in range(24 if c.thorough else 6):
        jobs.append((i, c.rng.choice([16384, 300, 90, 60, 30, 0]), c.rng.choice([4096, 20, 6, 3, 1, 0]), c.rng.random() < 0.5))
    num = 40 if c.thorough else 10

    def one(j):
        i, maxb, maxe, req = j
        rc, out = c.tlc("DeltaGen", GEN % dict(maxb=maxb, maxe=maxe, req=tla(req)),
                        extra=["-simulate", "num=%d" % num, "-depth", "100", "-seed", str(c.seed * 1000 + i)],
                        name="gen%d" % i)
        if rc != 0:
            raise Machinery("DeltaGen: %s" % out[-2000:])
        return [(maxb, maxe, req, f) for f in c.printed(out, "FEED")]
    res = []
    with ThreadPoolExecutor(6) as ex:
        for lst in ex.map(one, jobs):
            res += [item(req, [{"feed": gen.split_block(f, c.rng, 2) if c.rng.random() < 0.3 else f} for f in frames], maxb, maxe) for maxb, maxe, req, frames in lst]
    c.notes.append("decoder histories generated by TLC from DeltaGen: %d" % len(res))
    return res


def random_histories(c, n, frames):
    res = []
    for i in range(n):
        r = c.rng
        req = r.random() < 0.5
        maxb = r.choice([16384, 16384, 4000, 2000, 600, 300, 150, 60, 20, 0])
        maxe = r.choice([4096, 4096, 190, 60, 20, 7, 3, 1, 0])
        kw = dict(density=r.choice([0.15, 0.4, 0.8]), long_p=r.choice([0.02, 0.1]))
        if i % 5 == 0:
            kw["alphabet"] = "".join(chr(x) for x in range(1, 256) if chr(x) not in ";")
        if i % 4 == 1:
            kw["names"] = gen.NAMES + ["q%d" % k for k in range(150)]
            kw["density"] = r.choice([0.1, 0.3])
        if i % 6 == 2:
            kw["names"] = gen.NAMES + ["toggl", "trang", "clone", "kvsto", "eref", "", "opcode", "index", "key"]
            kw["density"] = 0.4
        if i % 8 == 7:
            kw = dict(tangled=True)
        h = gen.history("delta", r, req, [], frames, hosts=r.sample(HOSTS, r.choice([1, 2, 4])), **kw)
        steps = []
        for st in h["steps"]:
            steps.append(st)
            while r.random() < 0.2:
                steps.append(dict(st))
        res.append(item(req, steps, maxb, maxe))
    return res


def special(c):
    res = []
    big = [["k%03d" % k, "v%d" % (k % 7)] for k in range(700)]
    for req, n, m in ((True, 255, 256), (False, 256, 257), (True, 257, 300), (False, 513, 600)):
        h1 = big[:n]
        h2 = [[k, v + "x"] for k, v in big[:m]]
        alt = [kv for i, kv in enumerate(big[:m]) if i % 2]     # every other one: many single toggles
        res.append(item(req, [{"hdrs": x, "host": HOSTS[j % 2]} for j, x in enumerate([h1, h1, h2, alt, h1, h2])],
                        fmt=n < 300 or c.thorough))
    for req in (True, False):
        res.append(item(req, [dict(x, host=HOSTS[0]) for x in gen.every_byte() * 2]))
    # more than 16 KB of names and values
    steps = []
    for s in range(12):
        steps.append({"hdrs": [["n%d-%d-%s" % (s, k, "x" * 60), "y" * (40 + k)] for k in range(20)], "host": HOSTS[s % 3]})
    steps += [dict(x) for x in steps]
    res.append(item(True, steps, fmt=True))
    res.append(item(False, steps, maxb=3000, fmt=True))
    # an entry larger than everything allowed, next to others
    for maxb, maxe in ((50, 4096), (16384, 1), (70, 3), (0, 0), (20, 2)):
        steps = []
        for s in range(30):
            hd = [["a", "v%d" % (s % 5)], ["vary", "w" * (s % 4 * 6)]]
            if s % 3 == 1:
                hd.append(["x", "y" * 75])
            if s % 4 == 2:
                hd = hd[1:] + [["bb%d" % (s % 2), "0123456789" * (s % 3)]]
            if s % 5 == 3:
                hd.append(["accept", "0123456789"])
            steps.append({"hdrs": hd, "host": HOSTS[(s // 2) % 3]})
        res.append(item(True, steps, maxb, maxe))
    for req, maxb in ((True, 16384), (False, 100000)):
        res.append(item(req, [dict(x, host=HOSTS[k // 4 % 2]) for k, x in enumerate(gen.big_blocks())], maxb))
    # more hosts than groups
    steps = [{"hdrs": [[":host", "h%d.example" % k], ["a", "%d" % (k % 3)]], "host": "h%d.org%d.example%d" % (k, k, k)} for k in range(530)]
    res.append(item(True, steps))
    # the numbers wrap: the same large set, again and again, between changes
    n, rounds = 900, 170
    all_ = [["k%03d" % k, "v"] for k in range(n)]
    steps = []
    quiet = [["quiet%d" % k, "w"] for k in range(30)]
    for s in range(rounds):
        h = all_[s % 7::2] if s % 9 == 0 else all_[:s % 50] if s % 2 else all_
        steps.append({"hdrs": h, "host": HOSTS[0]})
        if s % 20 == 7:
            steps.append({"hdrs": all_[:40] + [["other", "%d" % s]], "host": HOSTS[1]})
        if s in (3, rounds - 5, rounds - 2):      # kept by a group of its own while the numbers wrap
            steps.append({"hdrs": quiet, "host": HOSTS[2]})
            steps.append({"hdrs": quiet[1::2], "host": HOSTS[2]})
            steps.append({"hdrs": quiet, "host": HOSTS[2]})
    res.append(item(True, steps, fmt=False))
    return res


def work(c, fmt):
    res = model_histories(c)
    n = 400 if c.thorough else 64
    if fmt:
        n = 240 if c.thorough else 40
    res += random_histories(c, n, 50 if c.thorough else 20) + special(c)
    if fmt:
        res = [x for x in res if x["new"]["fmt"]] + feeds(c)
    else:
        for x in res:
            x["new"]["fmt"] = False
    return res


def main(c):
    w = work(c, c.prop != "P07")
    events = play(c, w, procs=6)
    watch = {"P07": ROUND, "P25": ROUND + FORMAT}[c.prop]
    files = split_traces(events, 8, c.path("trace"))
    c.samples += [{"history": events[:2]}]
    c.validate("DeltaTrace", TRACE % ", ".join('"%s"' % x for x in watch), files, timeout=800)
    c.assumptions += ["cookies without NUL",
                      "Jython 2.7 executes the Python 2 sources as CPython 2 would"]
