"""P20: the fork codec and its external process."""
from common import *
from p_harness import play3
from genhar import cp
import gen

CLAUSES = ["constructor-raises", "constructor-hangs", "compress-raises", "compress-hangs", "compress-no-bytes",
           "input-changed", "text-not-terminated", "start-line", "field-lines", "field-order", "reply-differs"]
TRACE = """SPECIFICATION Spec
CONSTANTS
 Watch = {%s}
INVARIANTS Accepted Done
CHECK_DEADLOCK FALSE
"""
MODEL = """SPECIFICATION Spec
CONSTANTS
 Bytes = {10, 65, 2}
 MaxReply = %d
 Messages = %d
 Cap = 3
 HdrLen = 2
 Modes = {"text", "bin"}
 Emit = TRUE
INVARIANTS InStep Requests NothingLeft Hist
PROPERTY Ends
CHECK_DEADLOCK FALSE
"""
SPACE = b" \t\n\r\x0b\x0c"


def text_reply(r, n):
    """n lines, none of them blank"""
    res = b""
    for _ in range(n):
        line = bytes(r.choice([r.randrange(256), 13, 32, 65, 0, 255]) for _ in range(r.choice([0, 1, 3, 20, 90]))).replace(b"\n", b"")
        if not line.strip(SPACE):
            line += b"%c" % r.choice([0, 33, 127, 128, 255])
        res += line + b"\n"
    return res


def message(r, g, reply, mode):
    h = g.headers()
    sizes, pause = [], 0
    x = r.random()
    if x < 0.35 and len(reply) < 4000:
        sizes = [1] * r.randint(1, 12)
        pause = 0.002
    elif x < 0.6:
        sizes = [r.choice([1, 3, 7, 8, 9, 500, 4096, 65536]) for _ in range(r.randint(1, 4))]
        pause = 0.004
    return {"hdrs": [[cp(a), cp(b)] for a, b in h], "host": g.host(), "reply": list(reply), "sizes": sizes, "pause": pause,
            "blank": cp(r.choice(["\n", "\n", "\r\n"])) if mode == "text" else [], "read": r.choice([1, 50, 65536, 65536])}


def histories(c, model):
    r, work = c.rng, []
    hs = c.printed(model, "HIST")
    r.shuffle(hs)
    name = lambda: r.choice(["codec", "proc.py", "bin", "a b"])
    g = gen.Gen(r, True)
    for h in hs[:len(hs) if c.thorough else 60]:
        msgs = []
        for rep in h["replies"]:
            m = message(r, g, bytes(rep), h["mode"])
            m["sizes"], m["pause"] = ([1] * 12, 0.001) if r.random() < 0.5 else ([], 0)
            msgs.append(m)
        work.append(dict(mode=h["mode"], name="codec", extra=[], req=True, sample=False, msgs=msgs))
    sizes = [0, 1, 7, 8, 9, 63, 255, 256, 257, 1000, 4095, 4096, 4097]
    for i in range(240 if c.thorough else 40):
        mode = "bin" if i % 2 else "text"
        g = gen.Gen(r, r.random() < 0.5, density=r.choice([0.1, 0.3, 0.6]), long_p=0.02,
                    **(dict(alphabet="abc\xe9\u4e2d=:,\x80") if i % 5 == 3 else {}))
        msgs = []
        for _ in range(r.choice([2, 4, 8])):
            if mode == "bin":
                n = r.choice(sizes)
                rep = bytes(r.choice([r.randrange(256), 10, 13, 0]) for _ in range(n))
            else:
                rep = text_reply(r, r.choice([0, 0, 1, 2, 5, 12]))
            msgs.append(message(r, g, rep, mode))
        work.append(dict(mode=mode, name=name(), extra=r.choice([[], ["x"], ["text", ""], ["binary"], ["nobin", "bi n"], ["Bin"]]) if mode == "text" else
                         r.choice([["bin"], ["bin"], ["x", "bin"], ["bin", "x"], ["", "bin", "text"]]),
                         req=g.is_request if hasattr(g, "is_request") else True, sample=False, msgs=msgs))
    for mode in ("text", "bin"):       # more than the pipe holds, either way
        msgs = []
        for n in (65528, 65536, 70000) + ((200000, 1 << 20) if c.thorough else ()):
            rep = (b"x" * 99 + b"\n") * (n // 100) if mode == "text" else bytes([i * i % 251 for i in range(n)])
            msgs.append(message(r, g, rep, mode))
            msgs.append(message(r, g, b"z\n", mode))
        for n in (70000, 10):
            m = message(r, g, b"y\n", mode)
            m["hdrs"].append([cp("x-long"), cp("v" * n)])
            m["read"] = 65536
            msgs.append(m)
        work.append(dict(mode=mode, name="codec", extra=[], req=True, sample=False, msgs=msgs))
    msgs = []                          # long lines around the usual sizes of buffers
    for n in (80, 256, 512, 1000, 1024, 2048, 4096, 8192, 16384, 32768, 65536) + ((100000, 131072) if c.thorough else ()):
        for d in (0, -1, 1):
            msgs.append(message(r, g, b"x" * (n + d) + r.choice([b"\n", b"\nrest\n", b"\r\n"]), "text"))
            if n > 30000 and not c.thorough:
                break
    for i in range(3):
        work.append(dict(mode="text", name="codec", extra=[], req=True, sample=False, msgs=msgs[i::3]))
    for i in range(12 if c.thorough else 4):
        g = gen.Gen(r, i % 2 == 0, **(dict(alphabet="abc\xe9\u4e2d=:,") if i % 4 == 3 else {}))
        msgs = [message(r, g, b"", "text") for _ in range(8)]
        work.append(dict(mode="text", name="sample_exec_codec.py", extra=[], req=True, sample=True, msgs=msgs))
    return work


def main(c):
    out = c.model("ForkModel", MODEL % ((3, 2) if c.thorough else (2, 2)), "pipes of 3 bytes", workers=4, timeout=600)
    events = play3(c, histories(c, out), "fork_driver.py")
    c.samples += [{"history": events[1:2]}]
    files = split_traces(events, 8, c.path("trace"))
    c.validate("ForkTrace", TRACE % ", ".join('"%s"' % x for x in CLAUSES), files, timeout=800, heap="3g")
    c.assumptions += ["the external process follows the protocol (it answers each request once, with a framed reply)",
                      "header values contain no CR or LF"]
