"""P27: the C++ sample program's text parser and SPDY/3 formatter."""
import subprocess
from common import *
import p_zlib, gen

PARSE = ["parser-aborts", "parser-hangs", "filled-lists-accepted", "malformed-line-accepted", "text-rejected", "requests-differ",
         "responses-differ", "number-of-requests"]
FORMAT = ["compress-aborts", "compress-hangs", "frame-header", "dictionary-id"] + p_zlib.CLAUSES
TRACE = """SPECIFICATION Spec
CONSTANTS
 Watch = {%s}
INVARIANTS Accepted Done
CHECK_DEADLOCK FALSE
"""
VARIANTS = ["delta", "delta_bohe"]


def hexed(s):
    return s.encode("latin-1").hex()


def texts(c, n):
    r = c.rng
    pick = lambda alpha, lens: "".join(r.choice(alpha) for _ in range(r.choice(lens)))
    res = ["", "\n", "a: b", "a: b\n", "a: b\n\n", "a: b\n\nc: d\n", "a: b\n\nc: d\n\n", ":path: /\n", ": b\n", ":: b", "a:b\n", "a\n",
           ":\n", ": \n", "a:\n", "a: \n", "a: b: c\n", "a:b: c\n", "a: b\n\n\nc: d\n", "\n\na: b", "a: b\n\nc: d\n\ne: f\n\ng: h\n\n",
           "a: b\n x: y\n", "a: b\r\n\r\nc: d\r\n", " : x", "  :x\n", "a: b\n\nbad\n\nc: d\n", "a : b\n", "a:  b \n", "a: \x00b\n", "\xe9\xff: \x80\n", ":a:b\n",
           ":a: :b: \n", "a: b\n\n\n", "a: b\n\n\n\n", "\n\n\n"]
    for _ in range(n):
        t = ""
        for _ in range(r.choice([1, 2, 3, 5, 9])):
            for _ in range(r.choice([0, 1, 1, 2, 4, 30]) if r.random() < 0.9 else 0):
                name = r.choice(["", "", ":"]) + pick("ab-: \xe9x" if r.random() < 0.1 else "abc-x", [1, 1, 2, 5, 12])
                sep = ": " if r.random() < 0.985 else r.choice([":", " :", " ", ":\t", ""])
                t += name + sep + pick("ab :;=,\xe9\x80\x00\t\r", [0, 1, 2, 8, 40, 300]) + "\n"
            t += "\n"
        res.append(t[:len(t) - r.choice([0, 0, 1, 2, 3])])
    return res


def frames(c, n):
    r, out = c.rng, []
    for i in range(n):
        out.append("new")
        kw = dict(density=r.choice([0.1, 0.3]), long_p=r.choice([0.0, 0.05]))
        if i % 4 == 1:
            kw["alphabet"] = "".join(chr(x) for x in range(1, 256))
        if i % 5 == 2:
            kw["alphabet"] = "a"
        g = gen.Gen(r, i % 2 == 0, **kw)
        msgs = []
        for _ in range(r.choice([1, 3, 6])):
            h = [x for x in g.headers()]
            if r.random() < 0.3:
                h = h + r.choices(h or [["a", "b"]], k=2)       # the same line twice
            msgs.append(h)
            while r.random() < 0.25:
                msgs.append(h)
        out += msgs
    noise = lambda k: "".join(chr(r.randrange(256)) for _ in range(k))
    out += ["new", [], [], [["a", ""]], [["", ""]], [["", "a"]], [["a", "b"]] * 300, [["a", "b"]] * 300, []]
    out += ["new", [["n", noise(3000)]], [["n", noise(300)], ["m", noise(12)]], [["s", "short"]], [["n", noise(20000)]], [["s", "short"]]]
    out += ["new"] + [[["f%d" % k, "%d-" % k + "abcdefghij" * 500], ["g", noise(40)]] for k in range(8)]
    if c.thorough:
        out += ["new", [["n", noise(65535)]], [["big", noise(65000)], ["b2", noise(65000)]], [["big", "x" * 65000], ["s", noise(30)]], [["s", "short"]]]
    return out


def build(c, v):
    d, exe = os.path.join(c.repo(), "compressor", v), c.path("front-" + v)
    rc, out = run(["g++", "-std=c++0x", "-O1", "-w", "-include", "cstdint", "-include", "cmath", "-I", d,
                   "-I", os.path.join(c.repo(), "compressor", "spdy3"), "-o", exe, os.path.join(HARN, "cc", "front_driver.cc"),
                   os.path.join(d, "spdy4_headers_codec.cc"), os.path.join(d, "header_freq_tables.cc"),
                   os.path.join(d, "utils.cc"), "-lz"], 300)
    if rc != 0:
        raise Machinery("cannot compile against %s\n%s" % (d, out[-2000:]))
    return exe


def play_front(c, v, lines):
    p = subprocess.run([build(c, v)], input="\n".join(lines).encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                       env={"MALLOC_PERTURB_": "165", "PATH": "/usr/bin:/bin"}, timeout=600)
    if p.returncode not in (0, 7):
        raise Machinery("C++ driver rc=%s" % p.returncode)
    evs = []
    for x in p.stdout.decode().splitlines():
        try:
            evs.append(json.loads(x))
        except ValueError:
            raise Machinery("C++ driver: %r" % x[-300:])
    return evs


def main(c):
    parse, fmt = [], []
    for v in VARIANTS:
        ts = texts(c, 1500 if c.thorough else 250)
        lines = ["parse %d =%s" % (0, hexed(t)) for t in ts] + ["parse %d =%s" % (u, hexed(t)) for u in (1, 2) for t in ts[:8]]
        parse += play_front(c, v, lines)
        fs = frames(c, (70 if c.thorough else 12))
        parts = []
        for f in fs:
            if f == "new":
                parts.append("new")
            else:
                parts.append("frame %d %s" % (c.rng.randrange(2), " ".join("%s=%s" % (hexed(k), hexed(x)) for k, x in f)))
        fmt += play_front(c, v, parts)
    c.samples += [{"parsed": parse[20]}, {"frame": fmt[1]}]
    quoted = lambda xs: ", ".join('"%s"' % x for x in xs)
    c.validate("CcParseTrace", TRACE % quoted(PARSE), split_traces(parse, 3, c.path("ptrace")), timeout=800)
    c.validate("DeflateTrace", TRACE.replace("INVARIANTS", "VIEW View\nINVARIANTS") % quoted(FORMAT),
               split_traces(fmt, 8, c.path("trace")), timeout=800, heap="3g")
    c.assumptions += ["names and values of less than 65536 bytes; the rest of the sample program only measures time"]
