"""Drives compare_compressors.CompressionTester over scripted runs with
recording codecs, and writes one event per observable step.
usage: harness_driver.py IN.json OUT.ndjson"""
import io, json, os, re, sys, warnings
warnings.simplefilter("ignore")
COPY = os.environ["VERIF_COPY"]
sys.path.insert(0, COPY)
STUB = '''
import builtins
from .. import BaseProcessor
class Processor(BaseProcessor):
  def __init__(self, options, is_request, params):
    BaseProcessor.__init__(self, options, is_request, params)
    self.h = builtins.VERIF_HOOK
    self.k = self.h.instance(self.name, is_request, params)
  def compress(self, in_headers, host):
    return self.h.compress(self.k, self.name, self.is_request, in_headers, host)
  def decompress(self, compressed):
    return self.h.decompress(self.k, self.name, self.is_request, compressed)
'''
for name in ("vbase", "vstub", "vother"):
    d = os.path.join(COPY, "compressor", name)
    os.makedirs(d, exist_ok=True)
    mine = os.path.join(d, "stub-%d" % os.getpid())       # several drivers share the copy
    with open(mine, "w") as f:
        f.write(STUB)
    os.replace(mine, os.path.join(d, "__init__.py"))

# Processor time as the codecs script it: every clock of the process shows it.
class Clock(object):
    now = 0.0
    @staticmethod
    def times():
        return os.times_result((Clock.now * 0.75, Clock.now * 0.25, 0.0, 0.0, 1000.0 + Clock.now))
import time
os.times = Clock.times
for _name in ("process_time", "perf_counter", "monotonic", "time"):
    setattr(time, _name, lambda: Clock.now)
    setattr(time, _name + "_ns", lambda: int(Clock.now * 1000000000))

import builtins
import compare_compressors

def cp(s):
    return [ord(c) for c in s]
def tx(l):
    return "".join(map(chr, l))
def pairs(d):
    d = d.items() if hasattr(d, "items") else d
    return [[cp(k), cp(v)] for k, v in d]

class Hook(object):
    def __init__(self, script, emit):
        self.script, self.emit, self.n, self.last = script, emit, 0, {}
    def instance(self, name, req, params):
        self.n += 1
        self.emit({"ev": "inst", "i": self.n, "name": cp(name), "req": bool(req),
                   "params": [cp(p) for p in params]})
        return self.n
    def key(self, name, req, hdrs):
        return "%s|%s|%s" % (name, "q" if req else "s", hdrs.get("x-m", "?"))
    def compress(self, k, name, req, hdrs, host):
        self.last[k] = dict(hdrs)
        s = self.script.get(self.key(name, req, hdrs), {"size": 1, "dec": "same"})
        spent = 1 + s["size"] % 5                # quarters of a second
        Clock.now += 0.25 * spent
        self.emit({"ev": "comp", "i": k, "hdrs": pairs(hdrs), "host": cp(host), "size": s["size"], "time": 25 * spent})
        mut = s.get("mut")
        if mut == "pop":
            hdrs.pop(sorted(hdrs)[-1])
        elif mut == "add":
            hdrs["x-mut"] = "1"
        elif mut == "set":
            hdrs[sorted(hdrs)[-1]] += "z"
        elif mut == "clear":
            hdrs.clear()
        return b"x" * s["size"]
    def decompress(self, k, name, req, blob):
        Clock.now += 2.0                         # decoding is not counted
        h = self.last.get(k, {})
        s = self.script.get(self.key(name, req, h), {"dec": "same"})
        if s["dec"] == "none":
            self.emit({"ev": "dec", "i": k, "none": True, "hdrs": []})
            raise NotImplementedError
        res = dict(h) if s["dec"] == "same" else dict((tx(a), tx(b)) for a, b in s["dec"])
        self.emit({"ev": "dec", "i": k, "none": False, "hdrs": pairs(res)})
        return list(res.items()) if s.get("aslist") else res

ROW = re.compile(r"^\s*(\S.*?)\s+([\d,.]+)\s+(-?\d+\.\d\d) \| (\S+)\s+(\S+)\s+(\S+)\s+(\S+)\s*$")
HEAD = re.compile(r"^\* (.*): (\d+) (req|res) messages$")
def hund(s):
    m = re.match(r"^(-?)(\d+)\.(\d\d)$", s)
    return int(m.group(2) + m.group(3)) * (-1 if m.group(1) else 1) if m else -1
def split_item(s):
    i = s.index(": ", 1) if ": " in s[1:] else len(s)
    return [cp(s[:i]), cp(s[i + 2:])]

class Out(object):
    """Turns the text output into events, line by line."""
    def __init__(self, emit):
        self.emit, self.buf, self.sum, self.mm, self.side = emit, "", None, None, None
    def __call__(self, text):
        self.buf += text
        while "\n" in self.buf:
            line, self.buf = self.buf.split("\n", 1)
            self.line(line)
        # a mismatch line may be continued by later writes; events keep their order
    def flush_mm(self):
        if self.mm:
            self.emit(self.mm)
            self.mm = None
    def flush_sum(self):
        if self.sum and self.sum["rows"]:      # a header alone: the run stopped early
            self.emit(self.sum)
        self.sum = None
    def line(self, s):
        m = re.match(r"^  - mismatch in (.*)$", s)
        if m:
            self.flush_mm()
            name = m.group(1)
            expl = name.endswith(":")
            self.mm = {"ev": "mismatch", "name": cp(name[:-1] if expl else name), "expl": expl,
                       "a": [], "b": []}
            self.side = None
            if not expl:
                self.flush_mm()
            return
        if self.mm:
            if s.startswith("Only found in: "):
                self.side = "a" if s == "Only found in: orig" else "b"
                return
            if s.startswith("\t") and self.side:
                self.mm[self.side].append(split_item(s[1:]))
                return
            self.flush_mm()
        m = HEAD.match(s)
        if m:
            self.flush_sum()
            self.sum = {"ev": "sum", "name": cp(m.group(1)), "count": int(m.group(2)),
                        "req": m.group(3) == "req", "rows": []}
            return
        m = ROW.match(s)
        if m and self.sum is not None:
            self.sum["rows"].append({"proc": cp(m.group(1)), "size": int(re.sub("[,.]", "", m.group(2))),
                                     "time": hund(m.group(3)), "ratio": hund(m.group(4)), "min": hund(m.group(5)),
                                     "max": hund(m.group(6)), "std": hund(m.group(7))})
            return
        if s == "" and self.sum is not None and self.sum["rows"]:
            self.flush_sum()
    def end(self):
        if self.buf:
            self.line(self.buf)
            self.buf = ""
        self.flush_mm()
        self.flush_sum()

class Err(object):
    def __init__(self, emit):
        self.emit, self.buf = emit, ""
    def write(self, t):
        self.buf += t
        while "\n" in self.buf:
            s, self.buf = self.buf.split("\n", 1)
            m = re.match(r"^  WARNING: (.*) decompression not checked\.$", s)
            if m:
                self.emit({"ev": "warn", "name": cp(m.group(1))})
    def flush(self):
        pass

def tsv(path, req):
    with open(path) as f:
        lines = f.read().split("\n")
    ev = {"ev": "tsv", "req": req, "header": [cp(x) for x in lines[0].split("\t")], "rows": [],
          "tail": cp(lines[-1])}
    for s in lines[1:-1]:
        c = s.split("\t")
        try:
            ev["rows"].append({"num": int(c[0]), "name": cp(c[1]), "sizes": [int(x) for x in c[2:]]})
        except (ValueError, IndexError):
            ev["rows"].append({"num": -1, "name": cp(s), "sizes": []})
    return ev

def main():
    runs = json.load(open(sys.argv[1]))
    out = open(sys.argv[2], "w")
    def emit(e):
        out.write(json.dumps(e, separators=(",", ":")) + "\n")
    scratch = os.path.join(os.path.dirname(sys.argv[2]), "runs-" + os.path.basename(sys.argv[2]))
    os.makedirs(scratch)
    os.chdir(scratch)
    real_err, argv0 = sys.stderr, sys.argv[0]
    for n, r in enumerate(runs):
        ev = dict(r["new"])
        ev["ev"] = "new"
        emit(ev)
        files = []
        for i, har in enumerate(r["hars"]):
            p = "r%d-%d.har" % (n, i)
            with open(p, "w") as f:
                json.dump(har, f)
            files.append(p)
        builtins.VERIF_HOOK = Hook(r["script"], emit)
        o = Out(emit)
        sys.argv = [argv0] + r["args"] + files
        sys.stderr = Err(emit)
        end = {"ev": "end", "exc": "", "code": 0, "what": ""}
        try:
            compare_compressors.CompressionTester(o)
        except SystemExit as e:
            end["exc"], end["code"] = "exit", e.code if isinstance(e.code, int) else -1
        except Exception as e:
            end["exc"], end["what"] = "raises", repr(e)[:200]
        finally:
            sys.stderr = real_err
        o.end()
        pre = r.get("prefix", "")
        for t in ("req", "res"):
            p = pre + t + ".tsv"
            if os.path.exists(p):
                emit(tsv(p, t == "req"))
                os.unlink(p)
        emit(end)
        for p in files:
            os.unlink(p)
    out.close()
    print("DRIVER-DONE", len(runs))

main()
