"""P11: the simple codec."""
import json
from common import *
import gen

WATCH = ["constructor-raises", "constructor-hangs", "compress-raises", "compress-hangs", "decompress-raises",
         "decompress-hangs", "decoded-differs", "input-changed", "text-not-legal", "too-many-references",
         "text-means-other-headers", "repeat-not-referenced", "date-not-packed"]
MC = """SPECIFICATION Spec
CONSTANTS
 Names = {%s}
 Values = {"1", "2"}
 MaxRefs = %d
 MaxDepth = %d
 Remember = "all"
 Emit = TRUE
INVARIANT InSync
PROPERTY StepRoundTrip
VIEW View
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION Spec
CONSTANT Watch = {%s}
INVARIANTS Accepted Done
CHECK_DEADLOCK FALSE
"""
ODD = ["h", "ref", "!h", "c", "s", "host", "x", "ref!", "vi", "xct", "m~", "p3p", "set-cookie", "pragma", "x-content-type-options"]


DATES = """SPECIFICATION Spec
CONSTANTS
 FirstYear = %d
 LastYear = %d
INVARIANTS Reads Thursday Hexes
PROPERTY Counts
CHECK_DEADLOCK FALSE
"""


def params(mx, seven, date=False):
    return (["seven"] if seven else []) + (["max_entries=%d" % mx] if mx >= 0 else []) + (["date"] if date else [])


def item(req, mx, seven, steps, date=False):
    return {"codec": "simple", "params": params(mx, seven, date), "req": req, "steps": steps,
            "new": {"req": req, "max": mx, "seven": seven, "date": date}}


def start(req, rng=None):
    if req:
        return [[":method", "get"], [":path", "/"]]
    return [[":status", "200"], [":status-text", "ok then"]]


def work(c):
    res = []
    # one history per transition of the model; model names map to telling real ones
    real = {"a": ":host", "b": "h", "c": "accept", "d": "x-new"}
    jobs = [(["a", "b"], 1, 4), (["a", "b"], 9, 4), (["b", "c", "d"], 1, 3), (["a", "b", "c"], 2, 3), (["a", "c"], 0, 3)]

    def one(j):
        names, mx, depth = j
        out = c.model("SimpleModel", MC % (", ".join('"%s"' % n for n in names), mx, depth if c.thorough else depth - 1),
                      "names%d-refs%d" % (len(names), mx), workers=2)
        return [(mx, h) for h in c.printed(out, "HIST")]
    hs = []
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, jobs):
            c.rng.shuffle(r)
            hs += r[:1500 if c.thorough else 200]
    for k, (mx, h) in enumerate(hs):
        req, seven = k % 2 == 0, k % 3 == 0
        steps = []
        for m in h:
            m = m if isinstance(m, dict) else {}
            steps.append({"hdrs": start(req) + [[real[n], "v%s" % m[n]] for n in sorted(m)]})
        res.append(item(req, mx, seven, steps))
    n = 150 if c.thorough else 40
    for i in range(n):
        req, seven = i % 2 == 0, i % 3 == 0
        mx = c.rng.choice([-1, -1, 0, 1, 2, 5, 100])
        alpha = "abc019=/-.,:; !\"~" if seven or i % 4 else "".join(
            chr(x) for x in range(33, 256) if chr(x) not in "\x85\xa0")
        names = (gen.NAMES if req else gen.RES_NAMES) + ODD
        g = gen.Gen(c.rng, req, names=names, alphabet=alpha, density=c.rng.choice([0.1, 0.3, 0.6]),
                    long_p=0.05, reuse=0.8)
        steps = []
        for _ in range(40 if c.thorough else 16):
            h = [x for x in g.headers() if x[0] not in (":method", ":path", ":status")]
            if req:
                h += [[":method", c.rng.choice(["get", "post", "options"])],
                      [":path", "/" + g.value().replace(" ", "")]]
                if c.rng.random() < 0.3:
                    h.append([":version", "HTTP/1.1"])
            else:
                h += [[":status", c.rng.choice(["200", "304", "404"])]]
                if c.rng.random() < 0.5:
                    h.append([":status-text", c.rng.choice(["Not Found", "ok", "?"])])
                if c.rng.random() < 0.3:
                    h.append([":host", c.rng.choice(["h1", "h2"])])
            c.rng.shuffle(h)
            steps.append({"hdrs": h})
            if c.rng.random() < 0.2:
                steps.append({"hdrs": h})
        res.append(item(req, mx, seven, steps))
    # hosts that differ only in case; names close to each other; more repeated headers than any small count
    res.append(item(True, -1, False, [{"hdrs": start(True) + [[":host", v], ["accept", w], ["x-" + n, w]]}
                                      for v, w, n in [("www.a.com", "a", "y"), ("WWW.a.com", "A", "y"), ("www.a.com", "a", "Y".lower()),
                                                      ("www.a.com", "a ", "y"), ("www.a.com.", "a", "y"), ("www.a.com", "a", "y ".strip())]]))
    many = [["n%03d" % k, "v%d" % k] for k in range(300)]
    for mx in (-1, 70, 256, 299):
        res.append(item(False, mx, mx == 70, [{"hdrs": start(False) + many}] * 2 +
                        [{"hdrs": start(False) + many[:150] + [["n%03d" % k, "w"] for k in range(150, 300)]},
                         {"hdrs": start(False) + many}, {"hdrs": start(False) + many[::-1]}]))
    # every residue of the text length modulo 8 in seven-bit form
    for req in (True, False):
        res.append(item(req, -1, True, [{"hdrs": start(req) + [["via", "v" * k]]} for k in range(20)]))
    return res


WD, MN = "Mon Tue Wed Thu Fri Sat Sun".split(), "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()
LONG = "Monday Tuesday Wednesday Thursday Friday Saturday Sunday".split()


def written(r, t, form):
    wd, hms = t.tm_wday, "%02d:%02d:%02d" % t[3:6]
    if r.random() < 0.1:
        wd = r.randrange(7)
    if form == 0:
        return "%s, %02d %s %04d %s GMT" % (WD[wd], t.tm_mday, MN[t.tm_mon - 1], t.tm_year, hms)
    if form == 1:
        return "%s, %02d-%s-%02d %s GMT" % (LONG[wd], t.tm_mday, MN[t.tm_mon - 1], t.tm_year % 100, hms)
    return "%s %s %2d %s %04d" % (WD[wd], MN[t.tm_mon - 1], t.tm_mday, hms, t.tm_year)


NOT_DATES = ["0", "-1", "1", "abc", "never", "deadbeef", "Fri", "-", "!", "!0", "!x", "0x10", "1e3", "12345", "10 Nov 1994", "face off",
             "Sun, 31 Feb 2010 10:00:00 GMT", "Sun, 06 Nov 1994 24:00:00 GMT", "Sun, 06 Nov 1994 23:60:00 GMT",
             "Sun, 06 Nov 1994 23:59:60 GMT", "Sun, 00 Nov 1994 10:00:00 GMT", "Thu, 29 Feb 2100 10:00:00 GMT",
             "Sun, 06 Nov 1994 08:49:37", "Sun, 06 Nov 1994 08:49:37 EST", "Sun, 06 Nov 1994 08:49:37 GMT; x",
             "Sun, 06 Nov 94 08:49:37 GMT", "Sunday, 06-Nov-1994 08:49:37 GMT", "Sun Nov 06 08:49:37 1994 GMT", "Sun, 06 Foo 1994 08:49:37 GMT",
             "+5", "0b1", "1L", "0X1F", "1 2", "ffffffffffffffffffff", "--1", "Sun, 31 Apr 2000 01:02:03 GMT"]


def dated(c):
    """histories with the "date" option"""
    import time
    r, res = c.rng, []
    edge = [0, -1, 1, 86399, 86400, 951782400, 951868800, 2147483647, 2147483648, 4102444800, 4107542400, 253402300799, -86400,
            784111777, 94694400, 1330473600, 1356998399, -11644473600 + 86400]
    n = 120 if c.thorough else 30
    for i in range(n):
        req, seven, mx = i % 2 == 0, i % 5 == 2, r.choice([-1, -1, 0, 1, 3])
        names = ["if-modified-since", "date", "expires"] if req else ["last-modified", "date", "expires", "if-modified-since"]
        steps, pool = [], []
        for _ in range(24 if c.thorough else 12):
            h = start(req)
            for nm in names:
                if r.random() < 0.75:
                    if pool and r.random() < 0.35:
                        v = r.choice(pool)
                    elif r.random() < 0.3:
                        v = r.choice(NOT_DATES)
                    else:
                        form = r.choice([0, 0, 1, 2])
                        t = r.choice(edge) if r.random() < 0.25 else r.randrange(0, 4000000000)
                        if form == 1:
                            t = r.choice([-31536000, 0, 3124223999, 946684800]) if r.random() < 0.2 else r.randrange(-31536000, 3124223999)
                        v = written(r, time.gmtime(t), form)
                    pool.append(v)
                    h.append([nm, v])
            if r.random() < 0.6:        # the same text where no date belongs
                h.append([r.choice(["if-unmodified-since", "x-date", "etag", "age"]), r.choice(pool) if pool else "0"])
            r.shuffle(h)
            steps.append({"hdrs": h})
            if r.random() < 0.25:
                steps.append({"hdrs": h})
        res.append(item(req, mx, seven, steps, True))
    for req in (True, False):
        res.append(item(req, -1, False, [{"hdrs": start(req) + [["expires", v], ["date", v]]} for v in NOT_DATES], True))
        res.append(item(req, 0, False, [{"hdrs": start(req) + [["date", written(r, time.gmtime(t), f)]]}
                                        for t in edge for f in (0, 2)], True))
    return res


def main_dates(c):
    a, b = (1960, 2110) if c.thorough else (1998, 2004)
    c.model("HttpDateModel", DATES % (a, b), "days of %d..%d" % (a, b), workers=2, timeout=880)
    events = play(c, dated(c), procs=4)
    files = split_traces(events, 8, c.path("trace"))
    c.samples += [{"history": events[:2]}]
    c.validate("SimpleTrace", TRACE % ", ".join('"%s"' % x for x in WATCH), files)
    c.assumptions += ["the year of a date is 1601..9999 and its month is named in English", "the day of the week is not judged where it disagrees with the date",
                      "bitarray is a pure Python stand-in", "Jython 2.7 executes the Python 2 sources as CPython 2 would"]


def main(c):
    if c.prop == "P28":
        return main_dates(c)
    events = play(c, work(c), procs=4)
    files = split_traces(events, 8, c.path("trace"))
    c.samples += [{"history": events[:2]}]
    c.validate("SimpleTrace", TRACE % ", ".join('"%s"' % x for x in WATCH), files)
    c.assumptions += ["header names are lower-case tokens; with seven, values are ASCII",
                      "bitarray is a pure Python stand-in", "Jython 2.7 executes the Python 2 sources as CPython 2 would"]
