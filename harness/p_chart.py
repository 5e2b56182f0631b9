"""P29: the page that charts the tables of a run."""
import json
from common import *
from genhar import cp

WATCH = ["page-raises", "charts", "title", "one-line-per-codec", "colours", "one-point-per-message", "outside-the-picture",
         "message-position", "size-position", "label-position", "stream-notes", "note-position"]
MODEL = """SPECIFICATION Spec
CONSTANTS
 MaxRows = %d
 MaxSize = %d
 MaxCols = %d
INVARIANTS Good Cuts Bad
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION Spec
CONSTANT Watch = {%s}
INVARIANTS Accepted Done
CHECK_DEADLOCK FALSE
"""
CODECS = ["http1_gzip", "http1", "simple", "simple max_entries=5,seven", "spdy3 dict", "delta2", "delta2 small_index=0",
          "headerdiff huffman", "http2", "fork './x.py'", "bohe", "1", "Num", "names"]
HOSTS = ["www.example.com", "example.com", "a.example.com", "b.test", "cdn.b.test", "x", "10.0.0.1", "www.example.com:8080", "1", "0"]


def table(r, title, rows=None, cols=None, flat=False):
    cols = cols or r.sample(CODECS, r.choice([1, 1, 2, 2, 3, 5, 9, 10]))
    rows = r.choice([1, 2, 3, 7, 30, 99, 100, 240]) if rows is None else rows
    out, name, base = [], r.choice(HOSTS), r.choice([1, 9, 80, 400])
    spread = 0 if flat else r.choice([1, 3, 60, 2000])
    for i in range(rows):
        if r.random() < 0.15:
            name = r.choice(HOSTS)
        out.append({"num": i + 1, "name": name, "sizes": [base + r.randrange(spread + 1) for _ in cols]})
    if r.random() < 0.2 and not flat:      # the largest or smallest of all comes late, or is in the last codec
        out[-1]["sizes"][-1] = r.choice([0, 9999])
    return {"title": title, "cols": cols, "rows": out}


def text(t):
    return "".join("\t".join(x) + "\n" for x in
                   [["num", "name"] + t["cols"]] + [[str(y["num"]), y["name"]] + [str(z) for z in y["sizes"]] for y in t["rows"]])


def coded(t):
    return {"title": cp(t["title"]), "cols": [cp(x) for x in t["cols"]],
            "rows": [{"num": y["num"], "name": cp(y["name"]), "sizes": y["sizes"]} for y in t["rows"]]}


def main(c):
    r = c.rng
    c.model("ChartModel", MODEL % ((4, 3, 2) if c.thorough else (3, 3, 2)), "small tables", workers=4, timeout=600)
    jobs = []
    for i in range(400 if c.thorough else 90):
        cols = ["simple"] if i % 9 == 0 else None
        a = table(r, "Requests", cols=cols, flat=i % 11 == 5)
        b = table(r, "Responses", cols=a["cols"] if i % 2 else None, flat=i % 13 == 5)
        jobs.append({"files": {"req.tsv": text(a), "res.tsv": text(b)}, "tables": [coded(a), coded(b)]})
    jf, of = c.path("jobs.json"), c.path("pages.ndjson")
    json.dump(jobs, open(jf, "w"))
    rc, out = run(["node", os.path.join(HARN, "js", "chart_driver.js"), os.path.join(c.repo(), "display_tsv.html"), jf, of],
                  300, env=c._env(), cwd=c.work)
    events = read_ndjson(of) if os.path.exists(of) else []
    if rc != 0 or len(events) != len(jobs):
        raise Machinery("chart driver: rc=%s, %d of %d pages\n%s" % (rc, len(events), len(jobs), out[-2000:]))
    files = split_traces(events, 8, c.path("trace"))
    c.samples += [{"page": events[0]["tables"][0]["cols"], "tsv": jobs[0]["files"]["req.tsv"][:300]}]
    c.validate("ChartTrace", TRACE % ", ".join('"%s"' % x for x in WATCH), files)
    c.assumptions += ["d3 is a stand-in with the calls of version 3 a chart uses; what a browser paints is not examined",
                      "at most ten codecs (the colours of one palette), sizes below 10000"]
