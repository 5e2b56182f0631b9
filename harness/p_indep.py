"""P19: several codec instances in one process."""
from common import *
from p_harness import play3
from genhar import cp
import gen, p_delta2

CLAUSES = ["call-hangs", "driver-order", "failure-depends-on-others", "output-depends-on-others", "decoding-depends-on-others"]
MODEL = """SPECIFICATION Spec
CONSTANTS
 Src <- S%d
 Calls = %d
 Emit = TRUE
INVARIANTS Recovered Alone Hist
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION Spec
CONSTANTS
 Watch = {%s}
VIEW View
INVARIANTS Accepted Done
CHECK_DEADLOCK FALSE
"""
SRC = {1: [1, 2], 2: [1, 1], 3: [1, 2, 1], 4: [1, 2, 3]}
PY2 = ["http2", "headerdiff", "delta", "delta2", "simple"]
BOHE = ["bohe", "delta_bohe", "delta2_bohe"]
PY3 = ["http1", "http1_gzip", "http1_huffman", "spdy3", "hyper_hpack"]


def params(r, codec):
    some = lambda *a: r.sample(a, r.choice([0, 1, min(2, len(a))]))
    if codec == "http2":
        return r.choice([[], ["buffer_size=300"], ["buffer_size=90"], ["buffer_size=1200"]])
    if codec == "headerdiff":
        return r.choice([[], ["buffer=200"], ["huffman"], ["delta_type=1", "buffer=60"], ["deflate=9"], ["delta=false", "huffman"]])
    if codec == "delta":
        return r.choice([[], ["max_byte_size=200"], ["max_entries=7"]])
    if codec == "delta2":
        return p_delta2.rand_conf(r, r.randrange(16)).params
    if codec == "simple":
        return r.choice([[], ["seven"], ["max_entries=3"], ["max_entries=0"], ["date"]])
    if codec == "spdy3":
        return r.choice([[], ["dict"]])
    return []


def scenario(r, src, schedule, codecs, calls, like, reqs=None):
    """like: the instances speak about the same headers, so that a mix-up is likely to fit"""
    insts, g = [], {}
    codec = r.choice(codecs)
    ps = params(r, codec)
    for i, s in enumerate(src):
        if s != i + 1:
            insts.append(dict(insts[s - 1], src=s, msgs=[]))
            continue
        if reqs:
            pass
        elif i and r.random() < 0.3:
            codec = r.choice(codecs)
            ps = params(r, codec)
        elif i and r.random() < 0.4:
            ps = params(r, codec)
        req = reqs[i] if reqs else r.random() < 0.7 if not (i and like) else insts[0]["req"]
        if req not in g or not like:
            g[req] = gen.Gen(r, req, density=r.choice([0.1, 0.3, 0.5]), long_p=0.05, multi=0.1)
        msgs = []
        for _ in range(calls):
            if msgs and r.random() < 0.25:
                msgs.append(dict(r.choice(msgs)))
                continue
            h = g[req].headers()
            if not req:
                h.append([":status-text", "OK"])
            elif not any(n == ":method" for n, _ in h):
                h = [[":method", "get"], [":path", "/"]] + [x for x in h if x[0] not in (":path",)]
            msgs.append({"hdrs": [[cp(a), cp(b)] for a, b in h], "host": cp(g[req].host())})
        insts.append({"codec": codec, "params": ps, "req": req, "src": 0, "msgs": msgs})
    return {"insts": insts, "schedule": schedule}


def random_schedule(r, src, calls):
    made, c, d, res = set(), [0] * len(src), [0] * len(src), []
    late = r.random() < 0.3
    while True:
        can = []
        for i, s in enumerate(src):
            if i not in made:
                can += [("n", i)] * (1 if late else 3)
                continue
            if s == i + 1 and c[i] < calls:
                can += [("c", i)] * 2
            if d[i] < c[s - 1]:
                can.append(("d", i))
        if not can:
            return res
        op, i = r.choice(can)
        if op == "n":
            made.add(i)
        elif op == "c":
            c[i] += 1
        else:
            d[i] += 1
        res.append([op, i + 1])


def scenarios(c, models):
    r, py2, py3 = c.rng, [], []
    for which, calls, hs in models:
        for k, h in enumerate(hs):
            for codecs, work in ((PY2, py2), (PY3, py3)):
                work.append(scenario(r, SRC[which], h, [codecs[k % len(codecs)]] * 3 + codecs, calls, r.random() < 0.7))
    for i in range(160 if c.thorough else 16):
        src = SRC[i % 4 + 1]
        calls = r.choice([4, 8])
        py2.append(scenario(r, src, random_schedule(r, src, calls), [PY2[i % 5]] * 4 + PY2, calls, r.random() < 0.7))
        py3.append(scenario(r, src, random_schedule(r, src, calls), [PY3[i % 5]] * 4 + PY3, calls, r.random() < 0.7))
    for codecs, work in ((PY2, py2), (PY3, py3)):  # requests and responses of one codec, either made first
        for codec in codecs:
            first = r.random() < 0.5
            for reqs in ((first, not first), (not first, first, not first))[:2 if c.thorough else 1]:
                src = [1, 2, 3][:len(reqs)]
                work.append(scenario(r, src, random_schedule(r, src, 3), [codec], 3, False, reqs))
    for i in range(30 if c.thorough else 3):      # these compress only
        src = SRC[(1, 4)[i % 2]]
        py2.append(scenario(r, src, random_schedule(r, src, 4), [BOHE[i % 3]] * 3 + BOHE, 4, True))
    return py2, py3


def main(c):
    models = []
    for which, calls in ((1, 2), (2, 3), (3, 1)) if not c.thorough else ((1, 2), (2, 3), (3, 2), (4, 1), (1, 3)):
        out = c.model("MCInterleave", MODEL % (which, calls), "source %s, %d calls" % (SRC[which], calls), workers=4, timeout=800)
        hs = c.printed(out, "HIST")
        hs.sort()
        c.rng.shuffle(hs)
        models.append((which, calls, hs[:150 if c.thorough else 10]))
    py2, py3 = scenarios(c, models)
    events = play(c, py2, driver="indep_driver.py", procs=6) + play3(c, py3, "indep_driver.py", procs=2)
    files = split_traces(events, 8, c.path("trace"))
    c.samples += [{"scenario": [dict(e, solo=0) for e in events[:6]]}]
    c.validate("IndepTrace", TRACE % ", ".join('"%s"' % x for x in CLAUSES), files, timeout=800)
    c.assumptions += ["the codecs are deterministic: the same calls give the same bytes in a fresh process",
                      "Jython 2.7 executes the Python 2 sources as CPython 2 would"]
