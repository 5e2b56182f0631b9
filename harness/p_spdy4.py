"""P23: the C++ SPDY4 header codec."""
import json
from common import *
import gen

MC = """SPECIFICATION Spec
CONSTANTS
 Static <- S
 Universe <- U
 Lim <- L0
 Gids = {1, 2}
 MaxSet = 2
 MaxDepth = %(depth)d
 Emit = TRUE
 maxb = %(maxb)d
 maxv = %(maxv)d
INVARIANTS Sound Ranged
VIEW View
CHECK_DEADLOCK FALSE
"""
UNIV = [(":host", ""), (":host", "x"), ("a", "1"), ("a", "123"), (":path", "/a"), ("bb", "")]
TRACE = """SPECIFICATION Spec
CONSTANTS
 Static <- DefaultKVs
INVARIANTS Accepted Limits Done
CHECK_DEADLOCK FALSE
"""
DIRS = ["delta", "delta_bohe"]
BASE_BYTES, BASE_VALS = 681, 64       # what the default entries take (the design model: 3 and 2)


def lines(hdrs):
    """The lines the encoder sees: cookies in crumbs."""
    res = []
    for k, v in hdrs:
        if k == "cookie":
            p = v.split(";")
            p = p[:1] + [x.lstrip(" ") for x in p[1:]]
            if len(p) > 1 and not p[-1]:
                p.pop()
            res += [(k, x) for x in p]
        else:
            res.append((k, v))
    return res


def distinct(hdrs):
    """Drops what would repeat a line."""
    seen, res = set(), []
    for h in hdrs:
        ls = lines([h])
        if h[0] and len(set(ls)) == len(ls) and not seen & set(ls):
            seen |= set(ls)
            res.append(tuple(h))
    return res


def frame(hdrs, group=1, stream=1, ends=True):
    return ("frame", stream, group, ends, distinct(hdrs))


def script(items):
    out = []
    hexed = lambda s: s.encode("latin-1").hex()
    for it in items:
        out.append("new %d %d %d" % (it["req"], it["bytes"], it["vals"]))
        for s in it["steps"]:
            if s[0] == "limits":
                out.append("limits %d %d" % s[1:])
            else:
                out.append("frame %d %d %d %s" % (s[1], s[2], s[3], " ".join("%s=%s" % (hexed(k), hexed(v)) for k, v in s[4])))
    return "\n".join(out) + "\n"


def build(c, v):
    d = os.path.join(c.repo(), "compressor", v)
    exe = c.path("spdy4-" + v)
    rc, out = run(["g++", "-std=c++0x", "-O1", "-DNDEBUG", "-w", "-include", "cstdint", "-include", "cmath",
                   "-I", d, "-o", exe, os.path.join(HARN, "cc", "spdy4_driver.cc"),
                   os.path.join(d, "spdy4_headers_codec.cc"), os.path.join(d, "header_freq_tables.cc")], 300)
    if rc != 0:
        raise Machinery("cannot compile against %s\n%s" % (d, out[-2000:]))
    return exe


def play_cc(c, work):
    """work: {variant: items}.  Memory that is freed is overwritten, so that it is not read unnoticed."""
    def one(v):
        p = subprocess.run([build(c, v)], input=script(work[v]).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env={"MALLOC_PERTURB_": "165", "PATH": "/usr/bin:/bin"}, timeout=800)
        evs = []
        for x in p.stdout.decode().splitlines():
            try:
                evs.append(json.loads(x))
            except ValueError:
                raise Machinery("C++ driver: %r" % x[-300:])
        if p.returncode not in (0, 7):
            raise Machinery("C++ driver rc=%s %s" % (p.returncode, p.stderr.decode()[-500:]))
        return evs
    with ThreadPoolExecutor(2) as ex:
        return [e for evs in ex.map(one, list(work)) for e in evs]


def model_histories(c):
    jobs = [(9, 5, 2), (14, 4, 2), (8, 3, 2)]
    if c.thorough:
        jobs = [(9, 5, 3), (14, 4, 3), (8, 3, 3), (3, 9, 3), (11, 2, 3), (30, 9, 3)]

    def one(j):
        maxb, maxv, depth = j
        out = c.model("MCSpdy4", MC % dict(maxb=maxb, maxv=maxv, depth=depth), "%dbytes-%dvals" % (maxb, maxv),
                      workers=2, timeout=800)
        seen = {json.dumps(h): h for h in c.printed(out, "HIST")}
        return j, [seen[k] for k in sorted(seen)]
    res = []
    with ThreadPoolExecutor(4) as ex:
        for (maxb, maxv, _), hs in ex.map(one, jobs):
            c.rng.shuffle(hs)
            for h in hs[:2500 if c.thorough else 250]:
                res.append({"req": True, "bytes": maxb - 3 + BASE_BYTES, "vals": maxv - 2 + BASE_VALS,
                            "steps": [frame([UNIV[i - 1] for i in o], g) for g, o in h]})
    c.notes.append("histories from the design model replayed: %d" % len(res))
    return res


STREAMS = [0, 1, 2, 3, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0xffffff, 0x1000000, 0x7fffffff]


def random_histories(c, n, frames):
    res = []
    for i in range(n):
        r = c.rng
        req = r.random() < 0.5
        kw = dict(density=r.choice([0.15, 0.4, 0.8]), long_p=r.choice([0.02, 0.1]), reuse=r.choice([0.4, 0.6, 0.9]))
        if i % 5 == 0:
            kw["alphabet"] = "".join(chr(x) for x in range(0, 256) if chr(x) not in ";\0")
        if i % 4 == 1:
            kw["names"] = gen.NAMES + ["q%d" % k for k in range(90)]
        if i % 8 == 7:
            kw = dict(tangled=True)
        g = gen.Gen(r, req, **kw)
        groups = r.sample([1, 2, 3, 7, 255, 256, 65536, 0x7fffffff], r.choice([1, 2, 4]))
        steps, pool = [], []
        for _ in range(frames):
            if pool and r.random() < 0.35:
                h = list(r.choice(pool[-6:]))
                if r.random() < 0.5:
                    r.shuffle(h)
                if r.random() < 0.5:
                    h = h[r.randrange(len(h) + 1):]
            else:
                h = []
                for k, v in g.headers():
                    for x in v.split("\0"):
                        if x == "" and k == "user-agent":      # two default entries are equal
                            x = "ua"
                        h.append((k, x))
                if r.random() < 0.2 and len(h) > 1:
                    j = r.randrange(len(h))
                    h.insert(r.randrange(len(h)), (h[j][0], g.value().replace(";", "")))
                if r.random() < 0.15:
                    h.append(("cookie", r.choice(["a=1; b=2;", ";", "a;", "x; ; y", "a=1;b=2;  c=3 ", "; a", "", "a=1;  "])))
                h = [(k, v) for k, v in h if k]
            pool.append(h)
            steps.append(frame(h, r.choice(groups), r.choice(STREAMS), r.random() < 0.7))
            if r.random() < 0.05:
                steps.append(("limits", r.choice([-1, 0, 600, 700, 900, 2000, 65536]), r.choice([-1, 0, 60, 66, 80, 1024])))
        res.append({"req": req, "bytes": r.choice([-1, -1, 65536, 4000, 2000, 1200, 900, 760, 700, 681, 0]),
                    "vals": r.choice([-1, -1, 1024, 200, 100, 80, 70, 66, 64, 10, 0]), "steps": steps})
    return res


def special(c):
    res = []
    r = c.rng

    def add(steps, bytes_=-1, vals=-1, req=True):
        res.append({"req": req, "bytes": bytes_, "vals": vals, "steps": steps})
    # more than 255 operations of each kind
    big = [("k%03d" % k, "v%d" % (k % 7)) for k in range(600)]
    every = lambda h, m, q=0: [kv for i, kv in enumerate(h) if i % m == q]
    for n in (255, 256, 511):
        h = big[:n]
        h2 = [(k, v + "x") for k, v in h]
        add([frame(h), frame(h2), frame(h), frame(every(h, 2)), frame(every(h, 2, 1), 2), frame(h, 2), frame([]), frame(h2)],
            req=n != 256)
    # many ranges: pairs with gaps, in any order
    h = big[:540]
    pairs = [kv for i, kv in enumerate(h) if i % 3]
    steps = [frame(h), frame([]), frame(pairs), frame(h), frame(every(h, 3)), frame([])]
    for _ in range(6):
        sub = [kv for kv in h if r.random() < r.choice([0.2, 0.5, 0.9])]
        r.shuffle(sub)
        steps.append(frame(sub, r.choice([1, 2])))
    add(steps, vals=2000)
    # entries that leave the group and the storage in the same frame
    for bytes_, vals in ((681 + 60, -1), (-1, 64 + 8), (681 + 90, 64 + 12)):
        steps = []
        for s in range(30):
            hd = [("n%d" % ((s + j) % 9), "v%d" % ((s * j) % 5)) for j in range(6)] + [(":path", "/p%d" % (s % 4))]
            if s % 5 == 3:
                hd = [(":path", "/q" + "z" * 40)] + hd[:2]
            if s % 7 == 5:
                hd = []
            steps.append(frame(hd, 1 + s // 3 % 3, s * 70000))
        add(steps, bytes_, vals)
    # beyond 64 KB and beyond 1024 entries
    steps = [frame([("n%d-%d" % (s % 7, k), "%d-" % s + "y" * (300 + k)) for k in range(30)], 1 + s % 2) for s in range(9)]
    steps += steps[3:5] + steps[7:]
    add(steps)
    steps = [frame([("m%d" % (k % 90), "%d.%d" % (s, k)) for k in range(230)], 1 + s % 2) for s in range(6)]
    add(steps + steps[4:5], req=False)
    # default entries alone
    add([frame([(":method", "get"), (":scheme", "https"), (":version", "1.1")]), frame([(":method", "get")]),
         frame([(":scheme", "https"), (":status", "200")], 2), frame([("via", ""), ("warning", ""), ("x-xss-protection", "")], 2),
         frame([]), frame([], 2), frame([], 3)])
    return res


def main(c):
    c.repo()
    models = model_histories(c)
    n = 260 if c.thorough else 44
    work = {}
    for v in DIRS:
        k = len(models)
        mine = models[:k // 2] if v == DIRS[0] else models[k // 2:]
        work[v] = mine + random_histories(c, n, 60 if c.thorough else 24) + special(c)
    events = play_cc(c, work)
    c.samples += [{"history": events[:3]}]
    files = split_traces(events, 8, c.path("trace"))
    c.validate("Spdy4Trace", TRACE, files, timeout=800)
    c.assumptions += ["the lines of a header set are distinct, names are not empty, groups are positive numbers",
                      "the length field of a frame stays 0 (the code fills it nowhere) and is not judged",
                      "built with -DNDEBUG, as the Makefile does; freed memory is overwritten (MALLOC_PERTURB_)"]
