"""P14-P17: streams, verdicts, sessions and reports of the comparison tool."""
import json
from common import *
import genhar
from genhar import cp

P15 = ["headers-given-to-codec", "mismatch-not-reported", "mismatch-reported-wrongly",
       "mismatch-names-no-codec", "explanation-wrong", "debug-does-not-stop", "run-exits"]
P16 = ["unknown-codec-instance", "codec-parameters", "message-not-in-any-session", "message-order",
       "instance-of-the-wrong-direction", "instance-shared-between-sessions",
       "instance-replaced-within-session", "host-argument", "messages-missing", "warning", "run-raises",
       "summary-size", "summary-before-the-end", "tsv-sizes"]
P17 = ["summary-of-another-stream", "summary-time", "summary-count", "summary-before-the-end", "summary-rows",
       "summary-codec-order", "summary-size", "summary-ratio", "summary-min", "summary-max",
       "summary-std", "summary-too-many", "summaries-missing", "tsv-not-asked-for", "tsv-header",
       "tsv-rows", "tsv-numbering", "tsv-names", "tsv-sizes", "tsv-missing", "run-raises"]
WATCH = {"P15": P15, "P16": P16, "P17": P17}

MC = """SPECIFICATION Spec
CONSTANTS
 Hosts <- MHosts
 Kinds <- MKinds
 Outcomes <- MOutcomes
 MaxMsgs = %d
 Codecs = 2
 FreshPerSession = TRUE
 CopyOnAdd = TRUE
 Emit = TRUE
INVARIANTS Partition Paired Isolated Accounted Totals
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION Spec
CONSTANTS
  Watch = {%s}
INVARIANTS Accepted Done
CHECK_DEADLOCK FALSE
"""


def filtered(e, req):
    """What the tool should hand to a codec (only used to script corruptions:
    the specification has its own)."""
    d = {}
    for n, v in (e["hdrs"] if req else e["rhdrs"]):
        n = n.lower()
        n = ":host" if n == "host" else n
        d[n] = d[n] + "\0" + v if n in d else v
    hop = [x.strip(" ").lower() for x in d.get("connection", "").replace("\0", ",").split(",")]
    return {n: v for n, v in d.items() if n not in ["connection", "keep-alive"] + hop}


def make_run(r, files, kind, opts=None):
    """files: list of lists of (entry, id)"""
    opts = opts or {}
    codecs = opts.get("codecs") or r.choice([["vstub=k1"], ["vstub=k1", "vother"], ["vother", 'vstub="a, b"', "vstub=c=d"],
                                              ["http1", "vstub=k1"], ["vstub"], ["vstub=k1", "vbase"],
                                              ["vstub", "vbase", "vother"], ["vstub=k1", "http1"], ["vbase", "vstub"],
                                              ["vstub=k1", "vstub=k2", "vstub"], ["vother=a", "vother=a,b", "vbase"],
                                              ["vother=b", "vother", "vstub=b"], ["vother=a,b", "vother=b,a"],
                                              ["vstub=a", "vstub= a,a", "vother"], ["vstub=a,,b", "vother=,"],
                                              ['vstub="a', 'vother=b"', 'vstub=""c"",d'], ['vother="a","b"', "vstub=\"a, b =c\""]])
    baseline = opts.get("baseline") or r.choice([None, "http1", "vbase", "vbase"])
    verbose = r.choice([0, 0, 1, 2, 2, 2, 3, 4, 5])
    debug = r.random() < opts.get("debug", 0.1)
    tsv = r.random() < 0.6
    nodec = r.random() < 0.25
    args = []
    for cd in codecs:
        args += ["-c", cd]
    if baseline:
        args += ["-b", baseline]
    if verbose:
        args += ["-v", str(verbose)]
    if debug:
        args.append("-d")
    pre = ""
    if tsv:
        args.append(r.choice(["-t", "--tsv"]))
        if r.random() < 0.4:
            pre = "pre-"
            args += ["--prefix", pre]
    if kind != "public_suffix" or r.random() < 0.5:
        args += ["-s", kind]
    script = {}
    names = []
    for cd in codecs + [baseline or "http1"]:
        mod, _, par = cd.partition("=")
        if len(par) > 1 and par[0] == par[-1] == '"':
            par = par[1:-1]
        ps = [p.strip() for p in par.split(",")] if par else []
        names.append(mod + (" (" + ", ".join(ps) + ")" if ps else ""))
    mute = set(nm for i, nm in enumerate(names) if nm != "http1" and nodec and (i == 0 or r.random() < 0.6))
    greedy = set(nm for nm in names if r.random() < 0.2)       # codecs that change what they are given
    same = opts.get("same", 0.6)
    fixed = r.random() < 0.3
    nothing = set(nm for nm in names if nm != "vbase" and r.random() < 0.25)   # codecs that may need no byte
    for f in files:
        for e, mid in f:
            for nm in set(names):
                for t, req in (("q", True), ("s", False)):
                    x = {"size": r.choice([1, 7, 50, 100, 100, 99, 250, 300, 1000]) if nm != "vbase"
                         else (100 if fixed else r.choice([100, 90, 200, 33])), "dec": "same"}
                    if nm in nothing and r.random() < 0.5:
                        x["size"] = 0
                    if nm in greedy and r.random() < 0.7:
                        x["mut"] = r.choice(["pop", "add", "set", "clear"])
                    if nm in mute:
                        x["dec"] = "none"
                    elif r.random() > same:
                        x["dec"] = genhar.corrupt(r, filtered(e, req))
                        x["aslist"] = r.random() < 0.3 and verbose < 4
                    script["%s|%s|%s" % (nm, t, mid)] = x
    return {"new": {"codecs": [cp(x) for x in codecs], "baseline": cp(baseline or "http1"),
                    "verbose": verbose, "debug": debug, "tsv": tsv, "streamifier": kind,
                    "files": [[genhar.abstract(e) for e, _ in f] for f in files]},
            "args": args, "prefix": pre, "hars": [genhar.har([e for e, _ in f]) for f in files],
            "script": script}


def runs(c):
    r = c.rng
    out = c.model("MCHarness", MC % (3 if c.thorough else 2), "3 messages, 4 hosts, 2 files", workers=4)
    hs = c.printed(out, "HIST")
    c.notes.append("inputs printed by TLC: %d" % len(hs))
    budget = 1500 if c.thorough else 240
    if len(hs) > budget:
        hs = r.sample(hs, budget)
    res = []
    for h in hs:
        g = genhar.HarGen(r)
        files = []
        for f in h["files"]:
            files.append([])
            for m in f:
                host = "".join(map(chr, m["h"]))
                e, mid = g.entry(host, kinds=False)
                e["hdrs"] = [x for x in e["hdrs"] if x[0].lower() != "host"] + [("Host", host)]
                files[-1].append((e, mid))
        res.append(make_run(r, files, h["kind"]))
    for i in range(400 if c.thorough else 110):
        g = genhar.HarGen(r)
        hosts = [g.hostname() for _ in range(r.choice([1, 2, 4]))]
        files = []
        for _ in range(r.choice([1, 1, 2, 3])):
            f = [g.entry(r.choice(hosts)) for _ in range(r.choice([1, 2, 4, 7]))]
            f.append(g.entry(r.choice(hosts), kinds=False))     # at least one http message
            files.append(f)
        res.append(make_run(r, files, r.choice(["all_one", "host", "public_suffix"])))
    for n in (29, 30, 31, 33, 64, 65) + ((100, 130) if c.thorough else ()):     # long sessions
        g = genhar.HarGen(r)
        res.append(make_run(r, [[g.entry("long.example.com", kinds=False) for _ in range(n)]], "host",
                            {"codecs": ["vstub"], "debug": 0}))
    return res


def play3(c, work, driver, procs=4, timeout=600):
    procs = max(1, min(procs, len(work)))
    parts = [work[i::procs] for i in range(procs)]
    c.repo()

    def one(i):
        src, dst = c.path("in3-%d.json" % i), c.path("out3-%d.ndjson" % i)
        with open(src, "w") as f:
            json.dump(parts[i], f)
        rc, out = c.py3(driver, [src, dst], timeout)
        if rc != 0 or "DRIVER-DONE" not in out:
            raise Machinery("driver %s rc=%s\n%s" % (driver, rc, out[-3000:]))
        return read_ndjson(dst)
    with ThreadPoolExecutor(procs) as ex:
        return [e for evs in ex.map(one, range(procs)) for e in evs]


def main(c):
    work = runs(c)
    events = play3(c, work, "harness_driver.py")
    files = split_traces(events, 8, c.path("trace"))
    c.samples.append({"run": {k: work[-1][k] for k in ("args", "new")}})
    c.validate("HarnessTrace", TRACE % ", ".join('"%s"' % w for w in WATCH[c.prop]), files)
    c.assumptions += ["the clocks of the process (os.times, time.*) show the time the scripted codecs claim to have used",
                      "codecs are scripted stand-ins added to a scratch copy as README describes",
                      "summaries are read back from the printed text; ratios are compared at the printed precision"]
