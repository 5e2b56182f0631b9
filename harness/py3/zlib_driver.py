"""Plays histories on the codecs built on zlib.  usage: zlib_driver.py IN OUT"""
import importlib, json, os, sys, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, os.environ["VERIF_COPY"])

def cp(s):
    return [ord(c) for c in s]
def tx(l):
    return "".join(map(chr, l))

def spdy_dict():
    return importlib.import_module("compressor.spdy_dictionary").spdy_dict

work = json.load(open(sys.argv[1]))
with open(sys.argv[2], "w") as out:
    def emit(e):
        out.write(json.dumps(e, separators=(",", ":")) + "\n")
    for w in work:
        new = {"ev": "new", "exc": "", "what": ""}
        new.update(w["new"])
        try:
            p = importlib.import_module("compressor." + w["codec"]).Processor(None, w["req"], list(w["params"]))
        except Exception as e:
            new["exc"], new["what"] = "raises", repr(e)[:200]
            emit(new)
            continue
        emit(new)
        for m in w["msgs"]:
            hs = [[tx(a), tx(b)] for a, b in m["hdrs"]]
            known = 0
            if m.get("piece"):
                at, n = m["piece"]
                piece = "".join(c if " " < c < "\x7f" else "\n" for c in spdy_dict())
                piece = max(piece[at % max(1, len(piece) - n):][:n].split("\n"), key=len)
                known = len(piece) if len(piece) >= 30 else 0
                hs.append(["x-piece", piece])
            d = dict(hs)
            hs = list(d.items())
            ev = {"ev": "msg", "hdrs": [[cp(a), cp(b)] for a, b in hs], "exc": "", "what": "", "out": [], "mut": False,
                  "known": known if new["primed"] else 0,
                  "multi": [list((a if a != ":host" else "host").encode("utf-8")) for a, b in hs
                            if "\0" in b and a not in (":method", ":path", ":version", ":status", ":status-text")]}
            try:
                res = p.compress(d, m["host"])
                ev["out"] = list(res)
                ev["mut"] = list(d.items()) != hs
                if not isinstance(res, bytes):
                    ev["exc"] = "no-bytes"
            except Exception as e:
                ev["exc"], ev["what"] = "raises", repr(e)[:200]
            emit(ev)
            if ev["exc"]:
                break
print("DRIVER-DONE", len(work))
