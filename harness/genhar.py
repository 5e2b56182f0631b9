"""Random HAR logs and scripted codec behaviour for the comparison tool."""

TLDS = ["com", "org", "net", "co.uk", "uk", "co.jp", "foo.ck", "www.ck", "zzz", "local"]
FIELDS = ["Accept", "accept-encoding", "X-A", "x-b", "Cookie", "User-Agent", "Cache-Control", "Via", "X-Custom"]
RFIELDS = ["Content-Type", "content-length", "Set-Cookie", "X-A", "ETag", "Vary", "Server", "Date"]
HOP = ["Keep-Alive", "Connection"]
ALPHA = "abcXYZ019=/-.,:_ "
STATUSES = [200, 200, 200, 201, 204, 206, 301, 302, 304, 404, 410, 500, 503, 418, 299, 0]


def cp(s):
    return [ord(c) for c in s]


class HarGen(object):
    def __init__(self, rng, unicode_ok=True, odd_urls=True, http1_safe=False, pseudo=False):
        self.pseudo = pseudo
        self.r, self.uni, self.odd, self.safe = rng, unicode_ok, odd_urls, http1_safe
        self.n = 0

    def hostname(self):
        r = self.r
        h = ".".join(r.choice(["a", "b", "www", "cdn", "x1"]) for _ in range(r.choice([0, 1, 1, 2])))
        h = (h + "." if h else "") + r.choice(["ex", "ex", "foo", "bar"]) + "." + r.choice(TLDS)
        if r.random() < 0.1:
            h = r.choice(["localhost", "com", "co.uk"])
        if r.random() < 0.15:
            h = "".join(c.upper() if r.random() < 0.5 else c for c in h)
        if r.random() < 0.15:
            h += ":" + str(r.choice([80, 8080, 443]))
        return h

    def value(self, n=14):
        r = self.r
        v = "".join(r.choice(ALPHA) for _ in range(r.randint(0, n)))
        if self.uni and r.random() < 0.05:
            v += r.choice(["\xe9", "\u4e2d", "\xff"])
        return v.strip()

    def fields(self, names, pool):
        r = self.r
        out = []
        for _ in range(r.choice([0, 1, 2, 3, 4, 6])):
            n = r.choice(names)
            v = self.value()
            if n.lower() in ("cookie",):
                v = "; ".join(self.value(6).replace(";", "") for _ in range(r.choice([1, 2, 3])))
            if r.random() < 0.3:
                n = n.upper() if r.random() < 0.5 else n.lower()
            out.append((n, v))
        if r.random() < 0.35:
            pick = [n for n, _ in out] + ["X-Absent", "close"]
            toks = [r.choice(pick) + (r.choice([";q=1", "-", ";"]) if r.random() < 0.15 else "")
                    for _ in range(r.choice([1, 1, 2]))]
            out.append((r.choice(["Connection", "connection"]), r.choice([", ", ",", " ,"]).join(toks)))
            if r.random() < 0.2:
                out.append(("Connection", r.choice(pick)))
        if r.random() < 0.2:
            out.append(("Keep-Alive", "timeout=5"))
        if self.pseudo and r.random() < 0.2:       # what browsers record for HTTP/2
            out += [(n, self.value()) for n in r.sample([":authority", ":method", ":path", ":scheme", ":status", ":version",
                                                         ":Host", ":status-text", ":protocol"], r.choice([1, 2, 4]))]
        r.shuffle(out)
        return out

    def url(self, host):
        r = self.r
        if r.random() < 0.12:
            return r.choice(["data:image/gif;base64,R0", "about:blank", "ftp://%s/x" % host,
                             "chrome-extension://abc/x.js", "ws://%s/s" % host, "httpx://%s/" % host])
        u = r.choice(["http", "https", "http", "HTTP", "Https"]) + "://" + host
        if self.odd and r.random() < 0.15:
            u += r.choice(["", "?q=1", "#frag", "?"])
        else:
            u += "/" + "/".join(r.choice(["a", "b.css", "img", "x;y=1", "%20z"]) for _ in range(r.choice([0, 1, 2])))
            if r.random() < 0.4:
                u += "?" + r.choice(["q=1", "a=b&c=d", "u=http://x/y?z", "", "??", "x=1:2"])
            if r.random() < 0.15:
                u += r.choice(["#f", "#", "#a?b", "#a/b"])
        return u

    def entry(self, host=None, kinds=True):
        """One abstract entry and its HAR form; every message carries an x-m id."""
        r = self.r
        self.n += 1
        mid = "m%d" % self.n
        host = host or self.hostname()
        url = self.url(host) if kinds else "http://%s/%s" % (host, mid)
        q = self.fields(FIELDS, None)
        s = self.fields(RFIELDS, None)
        if r.random() < 0.7:
            h = host if r.random() < 0.8 else self.hostname()
            q.insert(r.randint(0, len(q)), (r.choice(["Host", "host", "HOST"]), h))
        q.append(("x-m", mid))
        s.append(("X-M", mid))
        e = {"url": url, "method": r.choice(["GET", "POST", "Head", "get", "OPTIONS"]),
             "ver": r.choice(["HTTP/1.1", "HTTP/1.0", "HTTP/2"]), "hdrs": q,
             "status": r.choice(STATUSES), "reason": r.choice(["OK", "", " ", "Not Found", " Moved  ", "x"]),
             "rver": r.choice(["HTTP/1.1", "HTTP/1.0"]), "rhdrs": s}
        if r.random() < 0.1:
            e["status"] = r.choice(["200", "404 x", "301", 1000, 2000, 99, 20, "2x0", "30 2", ""] if self.pseudo else ["200", "404 x", "301"])
        return e, mid


def abstract(e):
    return {"url": cp(e["url"]), "method": cp(e["method"]), "ver": cp(e["ver"]),
            "hdrs": [[cp(a), cp(b)] for a, b in e["hdrs"]], "status": cp(str(e["status"])),
            "reason": cp(e["reason"]), "rver": cp(e["rver"]),
            "rhdrs": [[cp(a), cp(b)] for a, b in e["rhdrs"]]}


def har(entries):
    return {"log": {"version": "1.2", "entries": [
        {"request": {"url": e["url"], "method": e["method"], "httpVersion": e["ver"],
                     "headers": [{"name": a, "value": b} for a, b in e["hdrs"]]},
         "response": {"status": e["status"], "statusText": e["reason"], "httpVersion": e["rver"],
                      "headers": [{"name": a, "value": b} for a, b in e["rhdrs"]]}} for e in entries]}}


def corrupt(rng, hdrs):
    """A scripted decompression result: usually wrong in one small way.
    hdrs: dict of the filtered headers as the tool is expected to pass them."""
    r = rng
    d = [list(x) for x in hdrs.items()]
    how = r.choice(["same", "same", "drop", "add", "alter", "case", "dup", "reorder", "space", "sub",
                    "version", "name", "name", "empty", "cookie", "conn", "prefix"])
    if how == "same" or not d:
        return [[cp(a), cp(b)] for a, b in d]
    i = r.randrange(len(d))
    n, v = d[i]
    if how == "drop":
        del d[i]
    elif how == "add":
        d.append([r.choice(["x-new", ":new", "x-a", "keep-alive", "proxy-connection", "date", "cookie", ":path", ":host"]) + ("" if r.random() < .7 else "z"), "v"])
    elif how == "alter":
        d[i][1] = v[:-1] if v and r.random() < .5 else v + r.choice(["x", "\t", "\0", "\0x", ";"])
    elif how == "case":
        d[i][1] = v.swapcase()
    elif how == "dup":
        d[i][1] = v + "\0" + v
    elif how == "reorder":
        d[i][1] = "\0".join(reversed(v.split("\0")))
        if n == "cookie":
            d[i][1] = "; ".join(reversed([x.strip(" ") for x in v.split(";")]))
    elif how == "space":
        d[i][1] = " " + v + " "
    elif how == "sub":
        d[i][1] = v.split("\0")[0]
    elif how == "version":
        d.append([":version", "x"])
        d.append([":status-text", "y"])
    elif how == "conn":
        d.append(["connection", "z"])
    elif how == "name":
        d[i][0] = n + "x" if r.random() < .5 else n.title() if r.random() < .5 else n.upper()
    elif how == "empty":
        d = []
    elif how == "cookie":
        for x in d:
            if x[0] == "cookie":
                p = x[1].split(";")
                x[1] = ";".join(p[:-1]) if r.random() < .5 else ";".join([p[-1]] + p[:-1])
    elif how == "prefix":
        d[i][1] = v[:len(v) // 2]
    return [[cp(a), cp(b)] for a, b in d]
