"""P24: binary optimised header encodings and the frames of the bohe codec."""
from common import *
import base64
import calendar
import gen

CLAUSES = ["enc-raises", "enc-meaning", "enc-tags", "bohe-raises", "bohe-unreadable", "bohe-names", "bohe-value",
           "bohe-multiple", "bohe-not-registered", "carry-missing"]
TRACE = """SPECIFICATION Spec
CONSTANTS
 Watch = {%s}
INVARIANTS Accepted Done
CHECK_DEADLOCK FALSE
""" % ",".join('"%s"' % x for x in CLAUSES)
MODEL = """SPECIFICATION Spec
CONSTANTS
 MaxNum = %d
 FirstYear = %d
 LastYear = %d
INVARIANTS Number Calendar Anchors Bytes
CHECK_DEADLOCK FALSE
"""
DATES = ["date", "expires", "last-modified", "if-modified-since", "if-unmodified-since"]
NUMBERS = [":status", "content-length", "age"]
ACCEPTS = ["accept", "accept-language", "accept-encoding", "accept-charset"]
TAGS = ["etag", "if-match", "if-none-match"]
OTHERS = ["set-cookie", "cookie", "cache-control", ":method", "p3p"]
P3P = ("NOI ALL CAO IDC OTI NON DSP COR MON LAW NID CUR ADM DEV TAI PSA PSD IVA IVD CON HIS TEL OTP OUR DEL SAM UNR PUB OTR "
       "NOR STP LEG BUS IND PHY ONL UNI PUR FIN COM NAV INT DEM CNT STA POL HEA PRE LOC GOV OTC TST").split()
WD, MN = "Mon Tue Wed Thu Fri Sat Sun".split(), "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()
JUNK = ["", "a", "-1", "-86400", "never", "0x10", "1.5", "3 4", "Thu", "12a", "None", "1e3", "$", "--", "0,1"]


class Values(object):
    def __init__(self, r):
        self.r = r

    def number(self):
        r = self.r
        return str(r.choice([0, 1, 9, 60, 127, 128, 129, 255, 256, 16383, 16384, 16385, 2097151, 2097152, 2 ** 28, 2 ** 31 - 1,
                             2 ** 31, 2 ** 32, 2 ** 35, 2 ** 63, 2 ** 64 + 1, r.getrandbits(r.randint(1, 70)), r.randint(0, 70000)]))

    def date(self):
        r = self.r
        y = r.choice([1990, 1991, 1999, 2000, 2012, 2015, 2016, 2024, 2026, 2027, 2037, 2038, 2040, 2058, 2059, 2100, 9999,
                      r.randint(1970, 2100), 1989, 1601])
        m = r.choice([1, 2, 2, 3, 12, r.randint(1, 12)])
        d = r.choice([1, calendar.monthrange(y, m)[1], r.randint(1, 28)])
        hms = r.choice([(0, 0, 0), (23, 59, 59), (0, 0, 1), (r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))])
        return "%s, %02d %s %04d %02d:%02d:%02d GMT" % ((WD[calendar.weekday(y, m, d)], d, MN[m - 1], y) + hms)

    def bad_date(self):
        return self.r.choice(JUNK[:6] + ["Sun, 30 Feb 2014 00:00:00 GMT", "Mon, 01 Jan 2014 24:00:00 GMT", "Mon, 01 Jan 2014",
                                         "Mon, 01 Jan 2014 00:00:00 PST", "2014-01-01", "Mon, 00 Jan 2014 00:00:00 GMT",
                                         "Mon, 29 Feb 2015 00:00:00 GMT", "Mon, 01 Jan 2014 00:60:00 GMT",
                                         "Mon Jan  1 00:00:00 2014", "Mon, 01 Xyz 2014 00:00:00 GMT"])

    def text(self, n=None, alpha="abcXYZ019-_./~!#$%&'*+^|"):
        return "".join(self.r.choice(alpha) for _ in range(n if n is not None else self.r.choice([1, 2, 3, 5, 8, 13, 40])))

    def secret(self):
        """a cookie value: text, hexadecimal, base 64"""
        r = self.r
        n = r.choice([1, 2, 3, 4, 15, 16, 30, 64, 100, 127, 128, 200])
        raw = bytes(r.getrandbits(8) for _ in range(n))
        return r.choice([lambda: raw.hex(), lambda: raw.hex().upper(), lambda: base64.b64encode(raw).decode(), self.text, self.text,
                         lambda: self.text(r.randint(1, 9), "0123456789abcdef"), lambda: self.text(r.choice([4, 8, 12, 3, 7])),
                         lambda: self.text(n, "abc-"), lambda: raw.hex()[1:], lambda: base64.b64encode(raw).decode()[1:],
                         lambda: "", lambda: self.text(8, "ABCDabcd0123+/") + "=="])()

    def setcookie(self):
        r = self.r
        parts = [self.text(r.choice([1, 4, 20, 130]), "abcXYZ019_-.") + "=" + self.secret()]
        attrs = []
        if r.random() < 0.6:
            attrs.append(r.choice(["path=", "Path="]) + "/" + self.text(r.choice([0, 1, 9, 300]), "abc/-_."))
        if r.random() < 0.5:
            attrs.append(r.choice(["domain=", "Domain="]) + "." + self.text(r.choice([1, 9, 260]), "abc.-"))
        if r.random() < 0.5:
            attrs.append(r.choice(["expires=", "Expires="]) + self.date())
        if r.random() < 0.3:
            attrs.append(r.choice(["max-age=", "Max-Age="]) + r.choice([self.number(), "x", "0"]))
        r.shuffle(attrs)
        parts += attrs
        if r.random() < 0.3:
            parts.append(r.choice(["secure", "HttpOnly"]))
        return r.choice(["; ", ";"]).join(parts)

    def control(self):
        r, ds = self.r, []
        for n, p in (("max-age", 0.7), ("max-stale", 0.4), ("min-fresh", 0.4), ("s-maxage", 0.4)):
            if r.random() < p:
                ds.append(r.choice([n, n, n.upper(), n.title()]) + r.choice(["=", "=", " = "]) +
                          r.choice([self.number(), self.number(), str(r.randint(0, 90000)), r.choice(JUNK[1:7])]))
        for n in ("no-cache", "private"):
            x = r.random()
            if x < 0.2:
                ds.append(n)
            elif x < 0.45:
                ds.append(n + '="' + self.text(r.choice([1, 5, 130]), "abc-DEF") + '"')
        ds += [d for d in ("no-store", "public", "must-revalidate", "max-stale", "x=y", "min-fresher=4", "amax-age=3") if r.random() < 0.15]
        r.shuffle(ds)
        if not ds:
            ds = ["max-age=0"]
        out = ds[0]
        for d in ds[1:]:
            out += r.choice([", ", ",", "\0"]) + d
        return out

    def accept(self):
        r = self.r
        items = []
        for _ in range(r.choice([1, 1, 2, 3, 6])):
            v = r.choice(["text/html", "*/*", "*", "gzip", "deflate", "en-us", "en", "utf-8", "image/" + self.text(3, "abc"),
                          self.text(4, "abc-"), "text/html;level=1"])
            q = r.choice(["", "", ";q=0.5", ";q=0.7", ";q=0", ";q=0.0", ";q=1", ";q=1.0", "; q=0.25", ";q=0.001", ";q=0.9"])
            items.append(v + q)
        return r.choice([", ", ","]).join(items)

    def tag(self):
        r = self.r
        one = lambda: r.choice(["", "W/"]) + '"' + r.choice([self.text(), self.text(3), str(r.randint(0, 20)), ""]) + '"'
        return "\0".join(one() for _ in range(r.choice([1, 1, 1, 2, 3])))

    def p3p(self):
        r, items = self.r, []
        if r.random() < 0.5:
            items.append('policyref="http://' + self.text(r.choice([1, 20, 130]), "abc./-") + '"')
        if r.random() < 0.85:
            toks = [r.choice(P3P) + r.choice(["", "", "a", "i", "o"]) for _ in range(r.choice([1, 3, 12, 52]))]
            if r.random() < 0.15:
                toks = "This is not a P3P policy".split()
            if r.random() < 0.1:
                toks = P3P[:]
            items.append('CP="' + " ".join(toks) + '"')
        r.shuffle(items)
        return r.choice([", ", ","]).join(items) or 'CP="' + r.choice(P3P) + '"'

    def of(self, name):
        r = self.r
        if name in DATES:
            return r.choice([self.date, self.date, self.date, self.number, self.bad_date])()
        if name in NUMBERS:
            one = lambda: r.choice(JUNK) if r.random() < 0.1 else self.number()
            return "\0".join(one() for _ in range(r.choice([1, 1, 1, 2, 5])))
        if name in ACCEPTS:
            return self.accept()
        if name in TAGS:
            return self.tag()
        if name == "set-cookie":
            return "\0".join(self.setcookie() for _ in range(r.choice([1, 1, 2, 4])))
        if name == "cookie":
            n = r.choice([1, 1, 1, 2, 3])
            ns = ["%s%d" % (self.text(r.choice([1, 5, 130]), "abcXYZ_-."), i) for i in range(n)]
            return ", ".join(x + r.choice(["", "=" + self.secret(), "=" + self.secret(), '="' + self.text(6, "ab c;") + '"']) for x in ns)
        if name == "cache-control":
            return self.control()
        if name == ":method":
            return r.choice("get post put patch delete options connect head trace GET Post propfind gett g".split() + [""])
        if name == "p3p":
            return self.p3p()
        return self.text()


def histories(c):
    r, v, work = c.rng, Values(c.rng), []
    names = DATES + NUMBERS * 2 + ACCEPTS[:2] + TAGS[:2] + OTHERS * 3
    for i in range(60 if c.thorough else 16):
        h = []
        for _ in range(120 if i else 0):
            n = r.choice(names)
            h.append({"variant": r.choice(["bohe", "delta_bohe", "delta2_bohe", "delta2_bohe"]), "key": b(n), "val": b(v.of(n)),
                      "req": r.random() < 0.5})
        if not i:      # every registered method, token and small number once, in each variant
            for var in ("bohe", "delta_bohe", "delta2_bohe"):
                vals = [(":method", m) for m in "get post put patch delete options connect head".split()]
                vals += [("p3p", 'CP="' + " ".join(P3P) + '"')] + [("p3p", 'CP="' + " ".join(t + s for t in P3P) + '"') for s in "aio"]
                vals += [("content-length", str(2 ** k + d)) for k in range(0, 66, 7) for d in (-1, 0, 1)]
                vals += [("date", "Mon, %02d %s %d 12:34:56 GMT" % (d, MN[m], y)) for y in (2016, 2019, 2100) for m in range(12)
                         for d in (1, 28)]
                vals += [("cache-control", x) for x in ("max-age=5,max-stale=6,min-fresh=7,s-maxage=8", 'private="x-a", no-cache="x-b"')]
                h += [{"variant": var, "key": b(k), "val": b(x), "req": q} for k, x in vals for q in ((True, False) if k == "cache-control" else (True,))]
        # what the codecs send is that encoding, in the direction of the message
        for _ in range((40 if c.thorough else 10) if i else 0):
            n = r.choice(names)
            x = v.of(n)
            if n == "cookie":
                x = v.text(5, "abcXYZ_-.") + "=" + v.secret().replace(";", "")
            h.append({"variant": r.choice(["delta_bohe", "delta2_bohe", "delta2_bohe"]), "key": b(n), "val": b(x),
                      "req": r.random() < 0.5, "carry": True})
        # frames of the bohe codec
        sent = h[:0]
        for j in range((25 if c.thorough else 14) if i else 0):
            d = {}
            typed = r.sample(DATES + NUMBERS + ACCEPTS + TAGS + OTHERS, r.choice([0, 2, 4, 8, 20]))
            for n in typed:
                d[n] = v.of(n)
            for n in r.sample(REGISTERED, r.choice([0, 1, 3, 8, len(REGISTERED) if j == 3 else 5])):
                if n not in d:
                    d[n] = "\0".join(v.text(r.choice([0, 1, 2, 9, 9, 40, 300 if r.random() < 0.1 else 20]), r.choice(ALPHABETS)) for _ in range(r.choice([1, 1, 1, 2, 4])))
            for _ in range(r.choice([0, 1, 3])):
                n = v.text(r.choice([1, 3, 12, 127]), "abcdefghijklmnopqrstuvwxyz-0123456789")
                d[n] = "\0".join(v.text(None, r.choice(ALPHABETS)) for _ in range(r.choice([1, 1, 2])))
            if j == 7 and i % 5 == 2:
                d["x-long"] = v.text(r.choice([1500, 9000 if c.thorough else 3000]), "abc ")
            hs = [[b(n), b(x)] for n, x in d.items()]
            r.shuffle(hs)
            sent.append({"hdrs": hs, "req": r.random() < 0.5})
        h += sent
        work.append(h)
    return work


ALPHABETS = ["abc", "abcXYZ019-_./~!#$%&'*+^|= ;,", "".join(map(chr, range(1, 256))), "\\u00"]
REGISTERED = (":path user-agent :scheme connection :host :version referer x-requested-with pragma content-type keep-alive server "
              "location :status-text transfer-encoding vary content-encoding x-amz-id-2 x-amz-id-1 x-amzn-requestid x-pad "
              "nncoection accept-ranges x-frame-options x-sap-pg via x-cache x-amz-cf-id cneonction x-cache-lookup "
              "x-xss-protection x-amz-request-id x-amz-meta-jets3t-original-file-date-iso8601 x-amz-meta-md5-hash "
              "content-location x-ocsp-reponder-id content-transfer-encoding x-content-type-options x-host dl_s").split()


def main(c):
    c.model("BoheModel", MODEL % ((3000, 1990, 2110) if c.thorough else (400, 1999, 2004)), "numbers, calendar, bytes")
    work = histories(c)
    evs = play(c, work, "bohe_driver.py", procs=4)
    c.samples += [e for e in evs if e["ev"] == "enc"][:4]
    c.validate("BoheTrace", TRACE, split_traces(evs, 8, c.path("bohe")), timeout=800)
    for k in "carry date number accept tag setcookie cookie control method p3p frame registered literal multi typed zero".split():
        if not c.violations and not c.cover.get(k):
            raise Machinery("nothing recorded for %s" % k)
    c.assumptions += ["MD5 digests of entity tags are judged by their being equal for equal tags and different for others",
                      "names of at most 127 bytes; values that are not well-formed cookies or P3P policies are not generated"]
