"""Plays histories on the fork codec with scripted external processes.  usage: fork_driver.py IN OUT

The processes live in a scratch directory of their own; each is killed at the end of its history.
"""
import importlib, json, os, shutil, signal, struct, sys, tempfile, time, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, os.environ["VERIF_COPY"])

PROGRAM = """#!%s
import json, os, sys, time
here = os.path.dirname(os.path.abspath(__file__))
script = json.load(open(os.path.join(here, "script.json")))
log = open(os.path.join(here, "log"), "w")
for r in script:
    seen = b""
    while not seen.endswith(b"\\r\\n\\r\\n"):
        data = os.read(0, r["read"])
        if not data:
            sys.exit(0)
        seen += data
    log.write(seen.hex() + "\\n"); log.flush()
    wire = bytes(r["wire"])
    for n in r["sizes"] + [len(wire)]:
        while wire and n > 0:
            k = os.write(1, wire[:n])
            wire, n = wire[k:], n - k
        if wire and r["pause"]:
            time.sleep(r["pause"])
while True:      # what else the codec sends is seen as a message of its own
    data = os.read(0, 65536)
    if not data:
        break
    log.write(data.hex() + "\\n"); log.flush()
"""


class Late(Exception):
    pass


def alarm(*a):
    raise Late()


signal.signal(signal.SIGALRM, alarm)
LIMIT = 15


def cp(s):
    return [ord(c) for c in s]
def tx(l):
    return "".join(map(chr, l))
def framed(mode, m):
    return list(struct.pack("=q", len(m["reply"]))) + m["reply"] if mode == "bin" else m["reply"] + m["blank"]


def lines(path, k):
    """line k of the log, once it is complete"""
    for _ in range(100):
        try:
            ls = open(path).read().split("\n")
            if len(ls) > k + 1:
                return list(bytes.fromhex(ls[k]))
        except OSError:
            pass
        time.sleep(0.02)
    return []


work = json.load(open(sys.argv[1]))
base = tempfile.mkdtemp(prefix="fork-")
home = os.getcwd()
try:
    with open(sys.argv[2], "w") as out:
        def emit(e):
            out.write(json.dumps(e, separators=(",", ":")) + "\n")
        for num, w in enumerate(work):
            d = os.path.join(base, "h%d" % num)
            os.mkdir(d)
            prog = os.path.join(d, w["name"])
            if w["sample"]:
                shutil.copy(os.path.join(os.environ["VERIF_COPY"], "sample_exec_codec.py"), prog)
                os.symlink(sys.executable, os.path.join(d, "python"))
            else:
                with open(prog, "w") as f:
                    f.write(PROGRAM % sys.executable)
                with open(os.path.join(d, "script.json"), "w") as f:
                    json.dump([{"wire": framed(w["mode"], m), "sizes": m["sizes"], "pause": m["pause"], "read": m["read"]}
                               for m in w["msgs"]], f)
            os.chmod(prog, 0o755)
            os.chdir(d)
            os.environ["PATH"] = d + ":" + os.environ["PATH"]
            new = {"ev": "new", "mode": w["mode"], "exc": "", "what": ""}
            p = None
            try:
                signal.alarm(LIMIT)
                p = importlib.import_module("compressor.fork").Processor(
                    None, w["req"], [w["name"]] + (w["extra"] or (["bin"] if w["mode"] == "bin" else [])))
            except Late:
                new["exc"] = "hangs"
            except Exception as e:
                new["exc"], new["what"] = "raises", repr(e)[:200]
            signal.alarm(0)
            emit(new)
            for k, m in enumerate(w["msgs"] if p else []):
                dd = dict([tx(a), tx(b)] for a, b in m["hdrs"])
                hs = list(dd.items())
                ev = {"ev": "msg", "hdrs": [[cp(a), cp(b)] for a, b in hs], "exc": "", "what": "", "ret": [], "mut": False,
                      "seen": [], "wire": [] if w["sample"] else framed(w["mode"], m), "blank": m["blank"], "reply": m["reply"],
                      "pieces": len(m["sizes"]) + 1, "sample": w["sample"],
                      "multi": [list((a if a != ":host" else "host").encode("utf-8")) for a, b in hs
                                if "\0" in b and a not in (":method", ":path", ":version", ":status", ":status-text")]}
                try:
                    signal.alarm(LIMIT)
                    res = p.compress(dd, m["host"])
                    signal.alarm(0)
                    ev["ret"] = list(res)
                    ev["mut"] = list(dd.items()) != hs
                    if not isinstance(res, bytes):
                        ev["exc"] = "no-bytes"
                except Late:
                    ev["exc"] = "hangs"
                except Exception as e:
                    signal.alarm(0)
                    ev["exc"], ev["what"] = "raises", repr(e)[:200]
                if not w["sample"]:
                    ev["seen"] = lines(os.path.join(d, "log"), k)
                emit(ev)
                if ev["exc"]:
                    break
            if p:
                try:
                    p.process.kill()
                    p.process.wait()
                    p.process.stdout.close()
                    p.process.stdin.close()
                except Exception:
                    pass
            os.chdir(home)
            os.environ["PATH"] = os.environ["PATH"].split(":", 1)[1]
            shutil.rmtree(d, ignore_errors=True)
finally:
    os.chdir(home)
    shutil.rmtree(base, ignore_errors=True)
print("DRIVER-DONE", len(work))
