"""P21: what it costs to send the same headers again, in http2, headerdiff, delta and delta2."""
from common import *
import gen, p_http2, p_headerdiff, p_delta, p_delta2

RESEND = ["resend-repeats-text", "resend-not-silent", "resend-not-references"]


def again(r, steps, p):
    """every step, some of them several times, some later again"""
    res = []
    for i, st in enumerate(steps):
        res.append(st)
        while r.random() < p:
            res.append(dict(st))
        if i > 2 and r.random() < 0.1:
            back = dict(steps[i - r.choice([1, 2, 3])])
            res += [back, dict(back)]
    return res


def pool(r, req, frames, size):
    """steps that draw their headers from one list of lines: many of them stored, few of them in use"""
    g = gen.Gen(r, req, lens=[0, 1, 2, 5], long_p=0.0, multi=0, names=["p%d" % k for k in range(size)])
    lines = [["p%d" % k, g.value()[:6].strip(" ;\0") or "v"] for k in range(size)]
    lines[0][1] = ""
    host, steps = g.host(), []
    for k in range(0, size, 15):
        steps.append({"hdrs": lines[k:k + 15], "host": host})
    while len(steps) < frames:
        steps.append({"hdrs": r.sample(lines, r.choice([1, 5, 12])), "host": host})
        if r.random() < 0.7:
            steps.append(dict(steps[-1]))
    return steps


def histories(c):
    r, work = c.rng, {"http2": [], "headerdiff": [], "delta": [], "delta2": []}
    n, frames = (220, 30) if c.thorough else (30, 12)

    def kind(i):
        if i % 8 == 7:
            return dict(tangled=True)
        kw = dict(density=r.choice([0.15, 0.4, 0.8]), long_p=r.choice([0.02, 0.15]), multi=r.choice([0, 0.15]))
        if i % 4 == 1:
            kw.update(names=gen.NAMES + ["q%d" % k for k in range(60)], density=0.2)
        return kw
    for i in range(n):
        req = r.random() < 0.5
        cap = r.choice([4096, 4096, 2000, 1200, 600, 300, 120, 64, 0])
        h = gen.history("http2", r, req, ["buffer_size=%d" % cap], frames, new={"cap": cap}, **kind(i))
        h["steps"] = again(r, h["steps"], 0.35)
        work["http2"].append(h)
        cap = r.choice([32768, 32768, 4096, 1200, 600, 300, 100, 17, 0])
        huff = i % 4 == 2
        params = ["buffer=%d" % cap] + (["huffman"] if huff else []) + r.choice([[], ["delta=false"], ["delta_type=/"], ["delta_type=1"]])
        h = gen.history("headerdiff", r, req, params, frames, new={"cap": cap, "huff": huff, "fmt": True}, **kind(i))
        h["steps"] = [st for st in again(r, h["steps"], 0.35)
                      if sum(1 + v.count("\0") + v.count(";") for _, v in st["hdrs"]) <= 255]
        work["headerdiff"].append(h)
        if i % 3 == 2 and not c.thorough:
            continue
        hosts = r.sample(p_delta.HOSTS, r.choice([1, 2, 3]))
        h = gen.history("delta", r, req, [], frames, hosts=hosts, **kind(i))
        work["delta"].append(p_delta.item(req, again(r, h["steps"], 0.35), r.choice([16384, 16384, 2000, 600, 150, 60]),
                                          r.choice([4096, 4096, 60, 20, 7, 1])))
        cf = p_delta2.rand_conf(r, i)
        h = gen.history("delta2", r, req, cf.params, frames, hosts=hosts, **kind(i))
        work["delta2"].append(cf.item(req, again(r, h["steps"], 0.35)))
    for i in range(8 if c.thorough else 2):
        req = i % 2 == 0
        for codec, conf in (("http2", {"cap": 4096}), ("headerdiff", {"cap": 4096, "huff": False, "fmt": True}), ("delta", None),
                            ("delta2", None)):
            steps = pool(r, req, 26 if c.thorough else 14, r.choice([50, 75, 100]))
            if codec == "delta":
                work[codec].append(p_delta.item(req, steps, 16384, 4096))
            elif codec == "delta2":
                work[codec].append(p_delta2.Conf().item(req, steps))
            else:
                work[codec].append({"params": [("buffer_size=%d" if codec == "http2" else "buffer=%d") % 4096], "req": req,
                                    "codec": codec, "steps": steps, "new": dict(conf, req=req)})
    return work


def models(c):
    """the design models, which say when a repetition is cheap"""
    def run(job):
        module, cfg, label = job
        c.model(module, cfg, label, workers=2, timeout=800)
    d2 = dict(hg="FALSE", imp="FALSE", ref="FALSE", onlye="FALSE", end="TRUE", maxb=8, maxe=3, maxi=7, maxset=2, depth=3 if c.thorough else 2)
    quiet = lambda cfg: cfg.replace("Emit = TRUE", "Emit = FALSE")
    jobs = [("MCHttp2", p_http2.MC % dict(u="U", s="S1", cap=110, depth=4 if c.thorough else 3, maxset=2, emit="FALSE"), "http2"),
            ("MCHeaderDiff", quiet(p_headerdiff.MC % dict(cap=9, delta="full", nov="TRUE", maxset=2, depth=3)), "headerdiff"),
            ("MCDelta", quiet(p_delta.MC % dict(maxb=6, maxe=3, maxn=9, depth=3 if c.thorough else 2)), "delta"),
            ("MCDelta2", quiet(p_delta2.MC % d2), "delta2")]
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(run, jobs))


def main(c):
    models(c)
    work = histories(c)
    for k in work:
        for h in work[k]:
            h["new"]["codec"] = k
    events, at = {k: [] for k in work}, None
    for e in play(c, [h for k in work for h in work[k]], procs=6):
        at = e["codec"] if e["ev"] == "new" else at
        events[at].append(e)
    watch = ", ".join('"%s"' % x for x in RESEND)
    for k, module, trace in (("http2", "Http2Trace", p_http2.TRACE), ("headerdiff", "HeaderDiffTrace", p_headerdiff.TRACE),
                             ("delta", "DeltaTrace", p_delta.TRACE), ("delta2", "Delta2Trace", p_delta2.TRACE)):
        c.samples += [{"history": events[k][:2]}]
        c.validate(module, trace % watch, split_traces(events[k], 8, c.path("trace-" + k)), timeout=800)
    c.assumptions += ["a header that occurs twice in a message is not counted as stored (http2)",
                      "Jython 2.7 executes the Python 2 sources as CPython 2 would"]
