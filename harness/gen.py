"""Random header histories (the harness side of the workloads).  Everything is a
latin-1 string here; drivers and specifications see byte lists."""

NAMES = ["accept", "accept-encoding", "accept-language", "user-agent", "referer", "x-a", "x-ab",
         "x-abc", "n1", "n10", "n", "a", "ab", "via", "if-none-match", "cache-control", "date",
         "content-type", "x-forwarded-for", "dnt"]
RES_NAMES = ["age", "cache-control", "content-length", "content-type", "date", "etag", "expires",
             "last-modified", "server", "set-cookie", "vary", "via", "x-a", "x-ab", "n1", "n10",
             "location", "p3p", "x-cache", "a", "ab"]
LENS = [0, 1, 2, 3, 5, 8, 14, 15, 16, 17, 29, 30, 31, 32, 33, 62, 63, 64, 65]
LONG = [120, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 300, 500]

TANGLED = ["", "a", "b", "ab", "ba", "aba", "a:", "pear", "plum", "date", "accept"]


class Gen(object):
    def __init__(self, rng, req, names=None, alphabet=None, lens=None, long_p=0.1, hosts=None,
                 density=0.4, reuse=0.6, multi=0.15, cookies=True, special=None, tangled=False):
        self.r, self.req = rng, req
        self.names = names or (NAMES if req else RES_NAMES)
        self.alpha = alphabet or "abc019=/-.,: "
        self.lens, self.long_p = lens or LENS, long_p
        self.hosts = hosts or ["a.example.com", "b.example.com", "www.example.org"]
        self.pool = {}
        self.density, self.reuse, self.multi, self.cookies = density, reuse, multi, cookies
        self.special = special
        self.tangled = tangled

    def value(self):
        r = self.r
        n = r.choice(LONG) if r.random() < self.long_p else r.choice(self.lens)
        v = "".join(r.choice(self.alpha) for _ in range(n)).strip(" ")
        return v

    def mutate(self, v):
        """Shares a prefix with v (so delta encodings get exercised)."""
        r = self.r
        k = r.randint(0, len(v))
        return (v[:k] + "".join(r.choice(self.alpha) for _ in range(r.choice([0, 1, 2, 4, 17])))).strip(" ")

    def header(self, name):
        r = self.r
        pool = self.pool.setdefault(name, [])
        if pool and r.random() < self.reuse:
            return r.choice(pool[-12:])
        v = self.mutate(r.choice(pool)) if pool and r.random() < 0.5 else self.value()
        if name == "cookie":
            k = r.choice([1, 1, 2, 3, 5])
            old = "; ".join(pool[-2:]).split("; ") if pool else []
            parts = []
            for _ in range(k):
                parts.append(r.choice(old) if old and r.random() < 0.6
                             else self.value().replace(";", "").strip(" "))
            v = r.choice(["; ", ";"]).join(parts)
        elif r.random() < self.multi:
            v = v + "\0" + (self.value() if r.random() < 0.7 else v)
        pool.append(v)
        return v

    def headers(self):
        r = self.r
        h = []
        if self.tangled:     # the same few texts as names and as values, and pieces of each other
            return [[n, r.choice(TANGLED)] for n in r.sample(TANGLED[1:], r.choice([1, 2, 3, 5]))]
        if self.req:
            h.append((":method", r.choice(["get", "get", "get", "post"])))
            p = self.pool.setdefault(":path", ["/"])
            path = r.choice(p[-6:]) if r.random() < 0.4 else "/" + self.value().replace(" ", "")
            p.append(path)
            h.append((":path", path))
            h.append((":scheme", r.choice(["http", "http", "https"])))
            h.append((":host", r.choice(self.hosts)))
        else:
            h.append((":status", r.choice(["200", "200", "304", "404", "302"])))
        for n in self.names:
            if r.random() < self.density:
                h.append((n, self.header(n)))
        if self.cookies and self.req and r.random() < 0.5:
            h.append(("cookie", self.header("cookie")))
        if r.random() < 0.1:
            h = [x for x in h if r.random() < 0.5]
        r.shuffle(h)
        seen, res = set(), []
        for n, v in h:
            if n not in seen:
                seen.add(n)
                res.append([n, v])
        return res

    def host(self):
        return self.r.choice(self.hosts)


def history(codec, rng, req, params, frames, new=None, hosts=False, **kw):
    if isinstance(hosts, list):
        kw["hosts"] = hosts
    g = Gen(rng, req, **kw)
    steps = []
    for _ in range(frames):
        st = {"hdrs": g.headers()}
        if hosts:
            st["host"] = g.host()
        steps.append(st)
    d = {"req": req}
    d.update(new or {})
    return {"codec": codec, "params": params, "req": req, "steps": steps, "new": d}


def every_byte(sep=""):
    """Messages in which every byte but NUL occurs inside a value (and next to another)."""
    bs = [chr(x) for x in range(1, 256)]
    return [{"hdrs": [["bytes%d" % k, "a" + sep.join(bs[k * 64:k * 64 + 64]) + "a"] for k in range(4)]},
            {"hdrs": [["bytes%d" % k, "b" + sep.join(reversed(bs[k * 64:k * 64 + 64])) + "b"] for k in range(4)]}]


def long_values(lens=(16382, 16383, 16384, 16385, 16510, 16511, 16512, 16513, 16639, 16640, 20000, 40000), name="long"):
    """Values whose lengths need a third length byte, each sent twice under a name of its
    own, then once more with one byte changed."""
    steps = []
    for n in lens:
        v = ("abcdefg/%d=" % n * (n // 9 + 2))[:n - 1] + "$"
        steps += [{"hdrs": [[name, v]]}, {"hdrs": [[name, v], ["x", "y"]]},
                  {"hdrs": [[name, v[:n // 2] + "+" + v[n // 2 + 1:]]]}]
    return steps


def split_block(frame, rng, flag):
    """One block of the delta codecs as several frames: frame[flag] marks the last one."""
    body = frame[9:]
    cuts = sorted(rng.randrange(len(body) + 1) for _ in range(rng.choice([1, 1, 2, 3])))
    out = []
    for a, b in zip([0] + cuts, cuts + [len(body)]):
        h = [(b - a) >> 8, (b - a) & 255] + list(frame[2:9])
        h[flag] = 0
        out += h + body[a:b]
    out[len(out) - (len(body) - cuts[-1]) - 9 + flag] = 1
    return out


def big_blocks():
    """Values far beyond the storage, and blocks that do not fit into one frame."""
    text = "/images/?q=%41&x=0123456789abcdef; \xe9\xff~{}"
    steps = [{"hdrs": [["a", "1"], ["long", (text * (n // len(text) + 1))[:n]]]} for n in (255, 256, 257, 700, 2100, 5000, 5000, 17000)]
    steps += [{"hdrs": [["a", "1"], ["b", "2"]]}]
    steps += [{"hdrs": [["a", "1"], ["b", "3"], ["huge", (text * 3000)[:n]], ["z", "y"]]} for n in (75000,)]
    steps += [{"hdrs": [["a", "1"], ["z", "y"]]}]
    steps += [{"hdrs": [["f%02d" % k, "%d" % (k + s) + "wxyz" * 900] for k in range(30)] + [["z", "y"]]} for s in (0, 1)]
    steps += [{"hdrs": [["a", "1"], ["b", "2"]]}]
    return steps
