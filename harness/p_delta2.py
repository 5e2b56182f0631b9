"""P05/P06: the delta2 codec."""
import json
from common import *
import gen
from p_http2 import merge

ROUND = ["constructor-raises", "constructor-hangs", "compress-raises", "compress-hangs", "decompress-raises",
         "decompress-hangs", "decoded-differs", "input-changed"]
FORMAT = ["frame-header", "unknown-operation", "truncated", "index-not-stored", "frame-has-more-bytes",
          "padding-not-zero", "frame-means-other-headers", "decoder-rejects-legal-frame", "decoder-not-per-format"]
RESEND = ["resend-repeats-text", "resend-not-silent"]
OFFSET = 65            # entries of the static table (Delta2Static.tla)

CFG = """ maxb = %(maxb)d
 maxe = %(maxe)d
 maxi = %(maxi)d
 hg = %(hg)s
 imp = %(imp)s
 ref = %(ref)s
 end = %(end)s
"""
MC = """SPECIFICATION Spec
CONSTANTS
 Static <- S
 Universe <- U
 Ephemeral <- Eph
 Cfg <- C0
 Gids = {1, 2}
 OnlyE = %(onlye)s
 MaxSet = %(maxset)d
 MaxDepth = %(depth)d
 Emit = TRUE
""" + CFG + """PROPERTIES StepRoundTrip StepInSync StepStoreOk StepCheap StepSilent
VIEW View
CHECK_DEADLOCK FALSE
"""
UNIV = [("vary", "x"), ("vary", "yy"), ("a", "1"), ("a", "123"), (":path", "/"), (":path", "/a")]
GEN = """SPECIFICATION Spec
CONSTANTS
 Static <- StaticKVs
""" + CFG + """ Width = %(width)d
 Request = %(req)s
 Frames = %(frames)d
 MaxOps = %(ops)d
INVARIANT Sound
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION Spec
CONSTANTS
 Static <- StaticKVs
 Watch = {%s}
INVARIANTS Accepted Limits Done
CHECK_DEADLOCK FALSE
"""
HOSTS = ["a.example.com", "b.example.com", "www.example.org", "example.net", "x.y.co.uk", "10.0.0.1", "localhost"]


def tla(b):
    return "TRUE" if b else "FALSE"


class Conf(object):
    """A parameter combination: what is passed, and what it stands for."""

    def __init__(self, rng=None, **kw):
        d = dict(maxb=4096, maxe=1024, small=True, varint=True, end=True, hg=False, imp=False, ref=False, onlye=False)
        d.update(kw)
        self.d = d
        p = []

        def flag(name, val, default):
            if val != default:
                p.append(name + ("=1" if val else "=0"))
            elif rng and rng.random() < 0.2:
                p.append(name + "=" + (rng.choice(["1", "true", "True", "t"]) if val else rng.choice(["0", "false"])))
        if d["maxb"] != 4096:
            p.append("max_byte_size=%d" % d["maxb"])
        if d["maxe"] != 1024:
            p.append("max_entries=%d" % d["maxe"])
        flag("small_index", d["small"], True)
        flag("varint_encoding", d["varint"], True)
        flag("idx_from_end", d["end"], True)
        flag("hg_adjust", d["hg"], False)
        flag("implicit_hg_add", d["imp"], False)
        flag("refcnt_vals", d["ref"], False)
        flag("only_etoggles", d["onlye"], False)
        if rng:
            rng.shuffle(p)
        self.params = p
        self.maxi = 255 if d["small"] else 65535
        self.maxe = min(self.maxi - OFFSET, d["maxe"])
        self.width = 0 if d["varint"] else 8 if d["small"] else 16

    def new(self, req, fmt=True):
        d = self.d
        return {"req": req, "fmt": fmt, "maxb": d["maxb"], "maxe": self.maxe, "maxi": self.maxi, "hg": d["hg"],
                "imp": d["imp"], "ref": d["ref"], "end": d["end"], "width": self.width}

    def item(self, req, steps):
        return {"codec": "delta2", "params": self.params, "req": req, "steps": steps, "new": self.new(req)}


def rand_conf(rng, i, **kw):
    d = dict(maxb=rng.choice([4096, 4096, 2000, 600, 300, 150, 60, 20]),
             maxe=rng.choice([1024, 1024, 190, 60, 20, 7, 3, 1]),
             hg=bool(i & 1), imp=bool(i & 2), ref=bool(i & 4), onlye=bool(i & 8),
             small=rng.random() < 0.75, varint=rng.random() < 0.7, end=rng.random() < 0.7)
    if rng.random() < 0.05:
        d["maxb"] = 0
    if rng.random() < 0.05:
        d["maxe"] = 0
    d.update(kw)
    return Conf(rng, **d)


def model_histories(c):
    jobs = []
    for hg in (False, True):
        for imp in (False, True):
            for ref in (False, True):
                for onlye in (False, True):
                    n = hg + 2 * imp + 4 * ref + 8 * onlye
                    if c.thorough:
                        jobs += [(hg, imp, ref, onlye, 8, 3), (hg, imp, ref, onlye, 6, 2)]
                    elif (n * 7 + c.seed) % 16 < 4:
                        jobs.append((hg, imp, ref, onlye, (8, 6)[n % 2], (3, 2, 4)[n % 3]))

    def one(j):
        hg, imp, ref, onlye, maxb, maxe = j
        d = dict(hg=tla(hg), imp=tla(imp), ref=tla(ref), onlye=tla(onlye), end="TRUE", maxb=maxb, maxe=maxe,
                 maxi=2 + maxe + 2, maxset=2, depth=3 if c.thorough else 2)
        out = c.model("MCDelta2", MC % d, "hg%d-imp%d-ref%d-onlye%d-%dbytes-%dentries" % (hg, imp, ref, onlye, maxb, maxe),
                      workers=2, timeout=800)
        cf = Conf(maxb=maxb, maxe=maxe, hg=hg, imp=imp, ref=ref, onlye=onlye)
        seen = {json.dumps(h): h for h in c.printed(out, "HIST")}
        hs = [seen[k] for k in sorted(seen)]
        return [(cf, h) for h in hs]
    res = []
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, jobs):
            c.rng.shuffle(r)
            for cf, h in r[:1000 if c.thorough else 120]:
                res.append(cf.item(True, [{"hdrs": merge([UNIV[i - 1] for i in o]), "host": HOSTS[1 + g]} for g, o in h]))
    c.notes.append("histories from the design model replayed: %d" % len(res))
    return res


def feeds(c):
    jobs = []
    for i in range(32 if c.thorough else 6):
        r = c.rng
        cf = Conf(maxb=r.choice([4096, 300, 90, 60, 30]), maxe=r.choice([1024, 20, 6, 3]), hg=bool(i & 1), imp=bool(i & 2),
                  ref=r.random() < 0.5, small=r.random() < 0.6, varint=r.random() < 0.6, end=r.random() < 0.6)
        jobs.append((i, cf, r.random() < 0.5))
    num = 30 if c.thorough else 8

    def one(j):
        i, cf, req = j
        n = cf.new(req)
        d = dict(maxb=n["maxb"], maxe=n["maxe"], maxi=n["maxi"], hg=tla(n["hg"]), imp=tla(n["imp"]), ref=tla(n["ref"]),
                 end=tla(n["end"]), width=n["width"], req=tla(req), frames=7, ops=9)
        rc, out = c.tlc("Delta2Gen", GEN % d, extra=["-simulate", "num=%d" % num, "-depth", "90", "-seed",
                                                     str(c.seed * 1000 + i)], name="gen%d" % i)
        if rc != 0:
            raise Machinery("Delta2Gen: %s" % out[-2000:])
        return [(cf, req, f) for f in c.printed(out, "FEED")]
    res = []
    with ThreadPoolExecutor(6) as ex:
        for lst in ex.map(one, jobs):
            res += [cf.item(req, [{"feed": gen.split_block(f, c.rng, 3) if c.rng.random() < 0.3 else f} for f in frames]) for cf, req, frames in lst]
    c.notes.append("decoder histories generated by TLC from Delta2Gen: %d" % len(res))
    return res


def random_histories(c, n, frames):
    res = []
    for i in range(n):
        r = c.rng
        req = r.random() < 0.5
        cf = rand_conf(r, i)
        kw = dict(density=r.choice([0.15, 0.4, 0.8]), long_p=r.choice([0.02, 0.1]))
        if i % 5 == 0:
            kw["alphabet"] = "".join(chr(x) for x in range(1, 256) if chr(x) not in ";")
        if i % 4 == 1:      # many names: the sequence numbers wrap, ranges and two-digit indices appear
            kw["names"] = gen.NAMES + ["q%d" % k for k in range(150)]
            kw["density"] = r.choice([0.1, 0.3])
        if i % 8 == 7:
            kw = dict(tangled=True)
        h = gen.history("delta2", r, req, cf.params, frames, new=cf.new(req), hosts=r.sample(HOSTS, r.choice([1, 2, 4])), **kw)
        steps = []
        for st in h["steps"]:
            steps.append(st)
            while r.random() < 0.2:
                steps.append(dict(st))
        h["steps"] = steps
        res.append(h)
    return res


def special(c):
    res = []
    big = [["k%03d" % k, "v%d" % (k % 7)] for k in range(240)]
    for j, kw in enumerate([dict(), dict(imp=True), dict(small=False), dict(small=False, imp=True, end=False), dict(hg=True, imp=True, ref=True),
                            dict(onlye=True, varint=False), dict(end=False, imp=True), dict(maxe=190, imp=True, maxb=100000),
                            dict(small=False, varint=False, maxb=100000, imp=True)]):
        cf = Conf(**kw)
        steps = []
        for s in range(5):          # long lists (more than 16 operations, ranges), then everything off again
            steps.append({"hdrs": big[s * 11: s * 11 + 180 - 30 * s], "host": HOSTS[s % 2]})
            steps.append({"hdrs": big[s * 11: s * 11 + 180 - 30 * s], "host": HOSTS[s % 2]})
            steps.append({"hdrs": [["x", "y" * (40 + s)]], "host": HOSTS[s % 2]})
        for s in range(20):         # wrap the numbering
            steps.append({"hdrs": [["w%d" % (s % 3), "%d" % (s * 20 + k)] for k in range(1)] + [["r%d-%d" % (s, k), "z"] for k in range(22)],
                          "host": HOSTS[s % 3]})
        res.append(cf.item(j % 2 == 0, steps))
    # values too large to be stored, next to groups that get emptied by evictions
    for kw in (dict(maxb=40, imp=True), dict(maxb=40, imp=True, hg=True), dict(maxb=64, hg=True, ref=True), dict(maxe=2, imp=True)):
        cf = Conf(**kw)
        steps = []
        for s in range(30):
            hd = [["a", "v%d" % (s % 5)], ["vary", "w" * (s % 4 * 6)]]
            if s % 3 == 1:
                hd.append(["x", "y" * 45])
            if s % 4 == 2:
                hd = hd[1:] + [["bb%d" % (s % 2), "0123456789" * (s % 3)]]
            steps.append({"hdrs": hd, "host": HOSTS[(s // 2) % 3]})
        res.append(cf.item(True, steps))
    for req in (True, False):
        for end in (True, False):
            res.append(Conf(imp=req, end=end).item(req, [dict(x, host=HOSTS[0]) for x in gen.every_byte() * 2]))
    for req, kw in ((True, dict(imp=True)), (False, dict(maxb=100000, end=False)), (True, dict(maxb=100000, hg=True, ref=True, varint=False))):
        res.append(Conf(**kw).item(req, [dict(x, host=HOSTS[k // 4 % 2]) for k, x in enumerate(gen.big_blocks())]))
    # more hosts than header groups
    steps = [{"hdrs": [[":host", "h%d.example" % k], ["a", "%d" % (k % 3)]], "host": "h%d.org%d.example" % (k, k)} for k in range(270)]
    res.append(Conf(imp=True).item(True, steps))
    return res


def wrap16():
    """The 16-bit sequence numbers wrap; some entries stay in use across the wrap."""
    cf = Conf(small=False, imp=True, maxe=60)
    steps = []
    for s in range(1480):
        steps.append({"hdrs": [["k%d" % k, chr(97 + s % 26) + "%d" % (s % 7)] for k in range(45)], "host": HOSTS[0]})
        if s > 1440:
            steps.append({"hdrs": [["a", "%d" % (s % 4)], ["k1", chr(97 + s % 26) + "%d" % (s % 7)]], "host": HOSTS[1]})
    return cf.item(True, steps)


def work(c):
    res = model_histories(c)
    n = 400 if c.thorough else 64
    if c.prop == "P06":
        n = 240 if c.thorough else 40
    res += random_histories(c, n, 50 if c.thorough else 20) + special(c)
    if c.prop == "P05" or c.thorough:
        res.append(wrap16())
    if c.prop == "P05":
        for x in res:
            x["new"]["fmt"] = False
    else:
        res += feeds(c)
    return res


def main(c):
    w = work(c)
    events = play(c, w, procs=6)
    watch = {"P05": ROUND, "P06": ROUND + FORMAT}[c.prop]
    files = split_traces(events, 8, c.path("trace"))
    c.samples += [{"history": events[:2]}]
    c.validate("Delta2Trace", TRACE % ", ".join('"%s"' % x for x in watch), files, timeout=800)
    c.assumptions += ["cookies without NUL",
                      "Jython 2.7 executes the Python 2 sources as CPython 2 would"]
