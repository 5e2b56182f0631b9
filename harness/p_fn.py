"""P12 (HTTP/1 text), P13 (HAR conversion), P14 (streams)."""
from common import *
from p_harness import play3, TRACE
import itertools
import genhar
from genhar import cp

WATCH = {
    "P12": ["format-raises", "format-changes-input", "text-not-terminated", "start-line", "field-lines",
            "field-order", "parse-raises", "parsed-differs"],
    "P13": ["har-unreadable-file", "har-raises", "har-entry-count", "har-request-headers", "har-response-headers"],
    "P14": ["stream-raises", "stream-changes-messages", "stream-loses-messages", "stream-count",
            "stream-direction", "stream-message-order", "stream-members", "stream-name"],
}
SETTINGS = [("\r\n", ": ", "host", "HTTP/1.1"), ("\n", ":", "h", "H/2"), ("\r\n", ": ", "hst", "HTTP/1.0"),
            ("\n", ": ", "host", "H/2"), ("\r\n", ":", "host", "HTTP/1.1")]


def http1_work(c):
    r, work = c.rng, []

    def add(h, st):
        codec = st == SETTINGS[0] and r.random() < 0.7
        names = {}
        for n, v in h:
            names[st[2] if n == ":host" else n] = v
        work.append({"kind": "http1", "codec": codec, "new": {
            "hdrs": [[cp(n), cp(v)] for n, v in h],
            "st": dict(zip(("delim", "valsep", "host", "version"), map(cp, st))),
            "multi": [cp(n) for n, v in names.items() if "\0" in v and n not in
                      (":method", ":path", ":version", ":status", ":status-text")]}})
    # every subset of a small universe of awkward fields, both directions
    univ = [(":scheme", "http"), (":host", "a.b:80"), ("x", ""), ("x-a", "a: b:c"), ("cookie", "a=b; c=d"),
            ("via", "1\0\x002"), (":version", "HTTP/1.0")]
    for k in range(len(univ) + 1):
        for sub in itertools.combinations(univ, k):
            for top in ([(":method", "get"), (":path", "/?a:b")], [(":status", "404"), (":status-text", "Not  Found: x")],
                        [(":status", "200")]):
                h = list(sub) + top
                r.shuffle(h)
                add(h, r.choice(SETTINGS))
    alpha = "abc:;,=/ \t\"'\x01\x7f\xe9\u4e2d?HTTP/1.1"
    for _ in range(4000 if c.thorough else 700):
        st = r.choice(SETTINGS)
        d = {}
        for _ in range(r.choice([0, 1, 2, 4, 8, 20])):
            n = r.choice(["x", "x-a", "accept", "cookie", "set-cookie", "via", ":scheme", ":host", "a" * 30, "h2", "hosts",
                          "-", "x_y", "ref", "connection", "status", "method", ":x"])
            v = "\0".join("".join(r.choice(alpha) for _ in range(r.choice([0, 1, 3, 9, 40])))
                          for _ in range(r.choice([1, 1, 1, 2, 3])))
            if r.random() < 0.15:     # characters some libraries take for spaces or line ends
                v += "x" + r.choice("\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u2028\u3000") + "y"
            d[n] = v
        if r.random() < 0.5:
            d[":method"] = r.choice(["get", "post", "x-y"])
            d[":path"] = "/" + "".join(r.choice("abc:?=&/;%") for _ in range(r.choice([0, 3, 30])))
        else:
            d[":status"] = r.choice(["200", "404", "1", "99999"])
            if r.random() < 0.7:
                d[":status-text"] = r.choice(["OK", "Not Found", "a  b : c", "?", "1"])
        if r.random() < 0.5:
            d[":version"] = r.choice(["HTTP/1.1", "HTTP/1.0", "x"])
        h = list(d.items())
        r.shuffle(h)
        add(h, st)
    return work


def har_work(c):
    r, work = c.rng, []
    for i in range(900 if c.thorough else 160):
        g = genhar.HarGen(r, pseudo=True)
        es = [g.entry() for _ in range(r.choice([0, 1, 1, 2, 3, 6]))]
        for e, _ in es:
            if r.random() < 0.2:
                e["hdrs"].append((r.choice([":method", ":Path", ":scheme", ":version", ":x"]), "zz"))
                e["rhdrs"].append((r.choice([":status", ":version", ":status-text"]), "zz"))
            if r.random() < 0.2:
                e["hdrs"].append(("Host", "second.example"))
        work.append({"kind": "har", "har": genhar.har([e for e, _ in es]), "direct": r.random() < 0.5,
                     "file": "f%d.har" % i, "new": {"entries": [genhar.abstract(e) for e, _ in es]}})
    # each status with each kind of reason
    for st in list(range(195, 420)) + [500, 501, 599, 0, 7, 99, 1000, 2001, "20x", "200", "404 Not Found", ""]:
        g = genhar.HarGen(r)
        e, _ = g.entry()
        e["status"], e["reason"] = st, r.choice(["", " ", "", "Custom"])
        work.append({"kind": "har", "har": genhar.har([e]), "direct": True, "file": "s.har",
                     "new": {"entries": [genhar.abstract(e)]}})
    for bad in ["", "{", "nonsense", "[1,2", "{'a':1}"]:
        work.append({"kind": "har", "malformed": cp(bad) or [32], "file": "bad.har", "new": {"entries": []}})
    return work


def stream_work(c):
    r, work = c.rng, []
    hosts = ["a.x.com", "A.x.com", "b.x.com", "x.com", "x.co.uk", "a.x.co.uk:80", "b.foo.ck", "www.ck", "a.www.ck",
             "localhost", "com", "a.zzz", "b.a.zzz", "a.x.com:8080", "q.x.com.", "y.org", "X.CO.UK", "1.2.3.4", " a.x.com "]

    def add(hs, kind):
        msgs = []
        alike = r.choice([1, 1, 1, 2, 3, 100])      # some messages may be alike
        for i, h in enumerate(hs):
            i //= alike
            msgs.append({"req": [[cp(":host"), cp(h)], [cp("i"), cp(str(i))]],
                         "res": [[cp(":status"), cp("200")], [cp("i"), cp(str(i))]]})
        work.append({"kind": "stream", "new": {"kind": kind, "msgs": msgs}})
    kinds = ["all_one", "host", "public_suffix"]
    few = ["a.x.com", "A.x.com", "b.x.com", "y.org"]
    for n in range(0, 5 if c.thorough else 4):
        for hs in itertools.product(few, repeat=n):
            for k in kinds:
                add(hs, k)
    for h in hosts[:-1]:
        add([h], "public_suffix")
    for _ in range(600 if c.thorough else 80):
        k = r.choice(kinds)
        pool = r.sample(hosts if k != "public_suffix" else hosts[:-1], r.choice([1, 2, 4, 8]))
        add([r.choice(pool) for _ in range(r.choice([3, 8, 20, 40]))], k)
    return work


def main(c):
    work = {"P12": http1_work, "P13": har_work, "P14": stream_work}[c.prop](c)
    c.rng.shuffle(work)
    if c.prop == "P14":       # the design model behind it
        from p_harness import MC
        c.model("MCHarness", MC.replace("Emit = TRUE", "Emit = FALSE") % (3 if c.thorough else 2),
                "2 messages, 4 hosts, 2 files", workers=4)
    events = play3(c, work, "fn_driver.py")
    c.samples.append(events[1])
    files = split_traces(events, 8, c.path("trace"))
    c.validate("FnTrace", TRACE % ", ".join('"%s"' % w for w in WATCH[c.prop]), files)
