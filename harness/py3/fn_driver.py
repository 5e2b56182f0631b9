"""One event per call of the tool's input functions.  usage: fn_driver.py IN OUT"""
import copy, importlib, io, json, os, sys, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, os.environ["VERIF_COPY"])

def cp(s):
    return [ord(c) for c in s]
def tx(l):
    return "".join(map(chr, l))
def pairs(d):
    return [[cp(k), cp(v)] for k, v in d.items()]

def har(w, ev):
    import lib.harfile as h
    ev.update({"malformed": bool(w.get("malformed")), "said": False, "reqs": [], "ress": [], "code": 0})
    err, sys.stderr = sys.stderr, io.StringIO()
    try:
        if w.get("malformed"):
            text = tx(w["malformed"])
        else:
            text = json.dumps(w["har"])
        if w.get("direct"):
            q, s = h.har2hdrs(json.loads(text))
        else:
            p = w["file"]
            with open(p, "w") as f:
                f.write(text)
            try:
                q, s = h.read_har_file(p)
            finally:
                os.unlink(p)
        ev["reqs"], ev["ress"] = [pairs(x) for x in q], [pairs(x) for x in s]
    except SystemExit as e:
        ev["exc"], ev["code"] = "exit", e.code if isinstance(e.code, int) else -1
    except Exception as e:
        ev["exc"], ev["what"] = "raises", repr(e)[:200]
    finally:
        ev["said"] = bool(w.get("file")) and w["file"] in sys.stderr.getvalue()
        sys.stderr = err

def stream(w, ev):
    ev["streams"], ev["mut"] = [], False
    msgs = [(dict((tx(a), tx(b)) for a, b in m["req"]), dict((tx(a), tx(b)) for a, b in m["res"]))
            for m in w["new"]["msgs"]]
    before = copy.deepcopy(msgs)
    try:
        m = importlib.import_module("lib.streamifiers." + w["new"]["kind"])
        res = m.Streamifier(["p1"]).streamify(msgs)
        for s in res:
            ev["streams"].append({"name": cp(s.name), "req": s.msg_type == "req",
                                  "msgs": [{"hdrs": pairs(h), "host": cp(host)} for h, host in s.messages]})
        ev["mut"] = msgs != before
    except Exception as e:
        ev["exc"], ev["what"] = "raises", repr(e)[:200]

def http1(w, ev):
    import compressor
    ev.update({"text": [], "parsed": [], "dexc": "", "mut": False})
    d = dict((tx(a), tx(b)) for a, b in w["new"]["hdrs"])
    before = copy.deepcopy(list(d.items()))
    st = w["new"]["st"]
    req = ":method" in d
    codec = None
    try:
        if w.get("codec"):
            m = importlib.import_module("compressor.http1")
            codec = m.Processor(None, req, [])
            text = codec.compress(d, "h")
        else:
            text = compressor.format_http1(d, delimiter=tx(st["delim"]), valsep=tx(st["valsep"]),
                                           host=tx(st["host"]), version=tx(st["version"]))
    except Exception as e:
        ev["exc"], ev["what"] = "raises", repr(e)[:200]
        return
    ev["text"], ev["mut"] = cp(text), list(d.items()) != before
    try:
        out = codec.decompress(text) if codec else compressor.parse_http1(text, req, tx(st["host"]))
        ev["parsed"] = pairs(out)
    except Exception as e:
        ev["dexc"], ev["what"] = "raises", repr(e)[:200]

work = json.load(open(sys.argv[1]))
os.chdir(os.path.dirname(sys.argv[2]))
with open(sys.argv[2], "w") as out:
    for i, w in enumerate(work):
        ev = dict(w["new"])
        ev.update({"ev": w["kind"], "exc": "", "what": ""})
        if w.get("file"):
            w["file"] = os.path.basename(sys.argv[2]) + "-" + w["file"]
        {"har": har, "stream": stream, "http1": http1}[w["kind"]](w, ev)
        out.write('{"ev":"new"}\n' + json.dumps(ev, separators=(",", ":")) + "\n")
print("DRIVER-DONE", len(work))
