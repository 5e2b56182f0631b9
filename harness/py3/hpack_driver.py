"""Plays histories on the RFC 7541 codec.  usage: hpack_driver.py IN OUT"""
import importlib, json, os, sys, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, os.environ["VERIF_COPY"])

def tx(l):
    return "".join(map(chr, l))
def ob(s):
    return list(s if isinstance(s, bytes) else s.encode("utf-8"))
def pairs(d):
    return [[ob(n), ob(v)] for n, v in (d.items() if hasattr(d, "items") else d)]

class Options(object):
    verbose = 0
    debug = False
    default_headers = False

work = json.load(open(sys.argv[1]))
with open(sys.argv[2], "w") as out:
    def emit(e):
        out.write(json.dumps(e, separators=(",", ":")) + "\n")
    for w in work:
        new = {"ev": "new", "exc": "", "what": ""}
        try:
            p = importlib.import_module("compressor." + w["codec"]).Processor(Options(), w["req"], list(w["params"]))
        except Exception as e:
            new["exc"], new["what"] = "raises", repr(e)[:200]
            emit(new)
            continue
        emit(new)
        for m in w["steps"]:
            if "feed" in m:
                ev = {"ev": "feed", "exc": "", "dexc": "", "what": "", "frame": m["feed"], "dec": []}
                blob = bytes(m["feed"])
            else:
                d = dict([tx(a), tx(b)] for a, b in m["hdrs"])
                ev = {"ev": "frame", "hdrs": pairs(d), "exc": "", "dexc": "", "what": "", "frame": [], "dec": [], "mut": False}
                try:
                    before = list(d.items())
                    blob = p.compress(d, "h.example")
                    ev["frame"] = list(bytes(blob))
                    ev["mut"] = list(d.items()) != before
                except Exception as e:
                    ev["exc"], ev["what"] = "raises", repr(e)[:200]
                    emit(ev)
                    break
            try:
                ev["dec"] = pairs(p.decompress(blob))
            except Exception as e:
                ev["dexc"], ev["what"] = "raises", repr(e)[:200]
            emit(ev)
            if ev["dexc"]:
                break
print("DRIVER-DONE", len(work))
