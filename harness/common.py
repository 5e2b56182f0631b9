"""Shared machinery of the checks: scratch copies, drivers, TLC, verdicts."""
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA_CP = ("/opt/veriftools/tla/tla2tools.jar:"
          "/opt/veriftools/tla/CommunityModules-deps.jar")
VENV_PY = "/opt/venv/bin/python"


class Machinery(Exception):
    """The check itself could not do its work (never a verdict)."""


def run(cmd, timeout, **kw):
    """Run in a process group of its own; return (rc or None on timeout, output)."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out.decode("utf-8", "replace")


def run_to_file(cmd, timeout, path, limit=400 << 20, **kw):
    """As run(), but through a file; of very long output only the two ends are kept."""
    with open(path, "wb") as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, start_new_session=True, **kw)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = None
    size = os.path.getsize(path)
    with open(path, "rb") as f:
        if size <= limit:
            out = f.read()
        else:
            out = f.read(1 << 20)
            f.seek(size - (8 << 20))
            out += b"\n" + f.read()
    os.remove(path)
    return rc, out.decode("utf-8", "replace")


class Check(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.rng = random.Random("%s-%s" % (prop, seed))
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.notes, self.assumptions = [], [], []
        self.cover = {}
        self.models = []
        self.violations = []       # (clause, detail dict)
        self.exhaustive = False
        self._copy = None

    # ---- code under test -------------------------------------------------
    def repo(self):
        """A scratch copy of the working tree (no bytecode, no .git)."""
        if self._copy is None:
            dst = os.path.join(self.work, "repo")
            shutil.copytree(REPO, dst, ignore=shutil.ignore_patterns(
                ".git", "*.pyc", "*$py.class", "__pycache__"))
            self._copy = dst
        return self._copy

    def path(self, *a):
        return os.path.join(self.work, *a)

    def _env(self, extra=None):
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": self.work,
               "LANG": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
               "TMPDIR": self.work}
        env.update(extra or {})
        return env

    def jython(self, script, args=(), timeout=300):
        cmd = ["java", "-Xss16m", "-Xmx2g", "-jar", "/usr/share/java/jython.jar",
               "-Dpython.cachedir.skip=true", "-Dpython.home=/usr/share/jython",
               "-B", os.path.join(HARN, "jy", script)] + list(args)
        home = os.path.dirname(os.path.dirname(os.path.realpath(shutil.which("jython") or "/usr/bin/jython")))
        cmd[6] = "-Dpython.home=" + home
        env = self._env({"JYTHONPATH": "/opt/jylib", "VERIF_COPY": self.repo()})
        return run(cmd, timeout, env=env, cwd=self.work)

    def py3(self, script, args=(), timeout=300, extra=None):
        env = self._env({"VERIF_COPY": self.repo()})
        env.update(extra or {})
        return run([VENV_PY, "-B", os.path.join(HARN, "py3", script)] + list(args),
                   timeout, env=env, cwd=self.work)

    # ---- TLC -------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=1, heap="2g", timeout=600, extra=(), name=None):
        """Run TLC on spec/<module>.tla with configuration text or file `cfg`."""
        tag = name or "%s-%d" % (module, random.getrandbits(40))
        d = self.path("tlc-" + tag)
        os.makedirs(d)
        if "\n" in cfg:
            cfgp = os.path.join(d, "run.cfg")
            with open(cfgp, "w") as f:
                f.write(cfg)
        else:
            cfgp = os.path.join(SPEC, cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss256m", "-Xmx" + heap,
               "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + d, "-cp", TLA_CP, "tlc2.TLC",
               "-metadir", os.path.join(d, "meta"), "-workers", str(workers), "-noGenerateSpecTE",
               "-config", cfgp] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        e = self._env(env)
        e["JAVA_TOOL_OPTIONS"] = ""
        rc, out = run_to_file(cmd, timeout, os.path.join(d, "out"), env=e, cwd=d)
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        return rc, out

    def model(self, module, cfg, label, expect="ok", **kw):
        """Exhaustive (or simulated) check of a design model."""
        rc, out = self.tlc(module, cfg, **kw)
        m = re.findall(r"(\d+) states generated(?:.*?, (\d+) distinct)?", out)
        gen = int(m[-1][0]) if m else 0
        dist = int(m[-1][1] or 0) if m else 0
        if rc is None or (rc != 0 and rc not in (12, 13)):
            raise Machinery("TLC on %s (%s): rc=%s\n%s" % (module, label, rc, out[-3000:]))
        if rc != 0:
            # a design model never depends on the code: its failure is a spec error
            raise Machinery("design model %s (%s) violated:\n%s" % (module, label, out[-4000:]))
        self.states += dist
        self.transitions += gen
        self.models.append({"model": module, "config": label, "generated": gen, "distinct": dist})
        return out

    @staticmethod
    def printed(out, tag):
        """JSON payloads of PrintT(tag \\o ToJson(...)) lines."""
        res = []
        for line in out.splitlines():
            if line.startswith('"' + tag + " "):
                res.append(json.loads(json.loads(line)[len(tag) + 1:]))
        return res

    def validate(self, module, cfg, files, describe=None, timeout=600, heap="2g", workers=8):
        """Trace validation: one TLC per trace file, in parallel."""
        def one(f):
            return f, self.tlc(module, cfg + "ALIAS Shown\n", env={"TRACE": f}, timeout=timeout, heap=heap)
        with ThreadPoolExecutor(workers) as ex:
            results = list(ex.map(one, files))
        for f, (rc, out) in results:
            m = re.findall(r"(\d+) states generated(?:.*?, (\d+) distinct)?", out)
            if m:
                self.transitions += int(m[-1][0])
                self.states += int(m[-1][1] or 0)
            done = self.printed(out, "DONE")
            if rc == 0 and done:
                for k, v in done[-1].items():
                    self.cover[k] = self.cover.get(k, 0) + v
                with open(f) as fh:
                    evs = fh.read().count("\n")
                self.events += evs
                self.traces += done[-1].get("new", 1)
                continue
            if rc == 12:
                errs = re.findall(r"^/\\ err = (<<.*)$", out, re.M)
                clause, line = "unknown", None
                if errs:
                    mm = re.match(r'<<"([^"]*)", (\d+)', errs[-1].replace("<< ", "<<"))
                    if mm:
                        clause, line = mm.group(1), int(mm.group(2))
                if clause == "unknown":
                    raise Machinery("cannot read the verdict of %s:\n%s" % (module, out[-3000:]))
                self.fail(clause, self._history(f, line, describe), state=out[-1500:])
                continue
            if rc is not None and re.search(r"evaluating|Evaluating|Attempted|was not in the domain|cannot be", out):
                at = re.findall(r"^/\\ l = (\d+)", out, re.M)
                if at:
                    self.fail("outside-the-specification", self._history(f, int(at[-1]), describe),
                              state=out[-2500:])
                    continue
            raise Machinery("TLC on trace %s (%s): rc=%s\n%s" % (f, module, rc, out[-4000:]))

    @staticmethod
    def _history(f, line, describe=None):
        """The recorded history (from its `new` event) up to the failing line."""
        if not line:
            return {"file": f}
        with open(f) as fh:
            lines = fh.read().splitlines()[:line]
        start = line - 1
        while start > 0 and json.loads(lines[start]).get("ev") != "new":
            start -= 1
        return {"line": line, "history": [json.loads(x) for x in lines[start:]]}

    # ---- verdict ---------------------------------------------------------
    def fail(self, clause, detail, **kw):
        d = {"clause": clause, "detail": detail}
        d.update(kw)
        self.violations.append(d)

    def known(self):
        """Open findings of this property: `finding: property=<id> key=<key> <what>`."""
        res = []
        p = os.path.join(VERIF, "known_findings.txt")
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == self.prop:
                res.append({"key": m.group(2), "what": m.group(3).strip()})
        return res

    def finish(self, level="model_checking", extra=None):
        known = self.known()
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        evid = os.path.join(VERIF, "evidence")
        os.makedirs(evid, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "trace_events": self.events, "samples": self.samples[:5] or ["none"],
               "design_models": self.models, "action_counts": self.cover}
        cov.update(extra or {})
        if self.notes:
            cov["notes"] = self.notes
        doc = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
               "coverage": cov, "assumptions": self.assumptions,
               "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(evid, self.prop + ".json"), "w") as f:
            json.dump(doc, f, indent=1, default=str)
        if not self.violations:
            print("OK property=%s states=%d transitions=%d traces=%d events=%d wall=%.1fs"
                  % (self.prop, self.states, self.transitions, self.traces, self.events,
                     time.time() - self.t0))
            return 0
        rdir = os.path.join(evid, "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(self.violations[:3]):
            rp = os.path.join(rdir, "%s-%d.json" % (self.prop, i))
            with open(rp, "w") as f:
                json.dump(v, f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            print("  clause: %s" % v["clause"])
        return 1

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


def play(c, work, driver="codec_driver.py", procs=4, timeout=600):
    """Run histories through the Jython driver (several JVMs); return the events."""
    procs = max(1, min(procs, len(work)))
    parts = [work[i::procs] for i in range(procs)]

    def one(i):
        src, dst = c.path("hist-%d.json" % i), c.path("events-%d.ndjson" % i)
        with open(src, "w") as f:
            json.dump(parts[i], f)
        rc, out = c.jython(driver, [src, dst], timeout)
        if rc is None:
            raise Machinery("driver timed out")
        evs = read_ndjson(dst) if os.path.exists(dst) else []
        if "DRIVER-DONE" not in out and rc != 7:
            raise Machinery("driver rc=%s\n%s" % (rc, out[-3000:]))
        return evs
    c.repo()
    with ThreadPoolExecutor(procs) as ex:
        return [e for evs in ex.map(one, range(procs)) for e in evs]


def b(s):
    """bytes of a latin-1 string as a list of ints"""
    return [ord(c) for c in s]


def write_ndjson(path, events):
    with open(path, "w") as f:
        for e in events:
            f.write(json.dumps(e, separators=(",", ":")) + "\n")


def split_traces(events, n, path_prefix, key="new"):
    """Split a list of events at `new` boundaries into <= n files of similar weight."""
    hists, cur = [], []
    for e in events:
        if e.get("ev") == key and cur:
            hists.append(cur)
            cur = []
        cur.append(e)
    if cur:
        hists.append(cur)
    n = max(1, min(n, len(hists)))
    bins = [[0, []] for _ in range(n)]
    weigh = lambda h: sum(len(json.dumps(e)) for e in h)
    for h in sorted(hists, key=weigh, reverse=True):
        t = min(bins, key=lambda x: x[0])
        t[0] += weigh(h)
        t[1].extend(h)
    files = []
    for i, (_, evs) in enumerate(bins):
        if evs:
            p = "%s-%d.ndjson" % (path_prefix, i)
            write_ndjson(p, evs)
            files.append(p)
    return files


def read_ndjson(path):
    with open(path) as f:
        return [json.loads(x) for x in f if x.strip()]
