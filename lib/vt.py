"""Common machinery of the checks: compile harnesses against /repo, run them,
run TLC (design models, generators, trace validation), keep statistics, write
evidence and report violations.

Outcomes: exit 0 (held), exit 1 + VIOLATION line (broken), exit 2 (tool error).
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time, uuid

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TIER = os.environ.get("VERIF_TIER", "quick")
if len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough"):
    TIER = sys.argv[1]
QUICK = TIER != "thorough"
SEED = int(os.environ.get("VERIF_SEED", "1"))
JOBS = int(os.environ.get("VT_JOBS", "8"))


class ToolError(Exception):
    pass


def log(*a):
    print("[vt]", *a, flush=True)


# ---------------------------------------------------------------- harnesses
INCLUDES = [
    "-I" + os.path.join(VERIF, "harness"),
    "-I" + os.path.join(VERIF, "harness", "stubs"),
    "-I" + os.path.join(REPO, "libdiskpp/include"),
    "-I" + os.path.join(REPO, "libdiskpp/contrib/triangle"),
    "-I" + os.path.join(REPO, "libdiskpp/contrib/jburkardt/include"),
    "-I" + os.path.join(REPO, "libdiskpp/contrib/jburkardt"),
    "-isystem", "/usr/include/eigen3",
    "-isystem", "/usr/include/lua5.4",
]
CXXFLAGS = ["-std=c++20", "-O1", "-w", "-fpermissive", "-pthread"]


LIB = ["libdiskpp/src/common/util.cpp", "libdiskpp/src/common/mapped_file.cpp",
       "libdiskpp/contrib/triangle/triangle_mesher.c",
       "libdiskpp/contrib/jburkardt/src/triangle_dunavant_rule.cpp", "libdiskpp/contrib/jburkardt/src/jb_common.cpp",
       "libdiskpp/contrib/jburkardt/src/simplex_gm_rule.cpp", "libdiskpp/contrib/jburkardt/src/tetrahedron_arbq_rule.cpp"]


def compile_many(jobs):
    """compile several harnesses in parallel; jobs: list of (name, kwargs)"""
    with cf.ThreadPoolExecutor(max_workers=JOBS) as ex:
        return list(ex.map(lambda j: compile_harness(j[0], **j[1]), jobs))


def compile_harness(name, extra=(), libs=(), sources=(), tag="", cxxflags=()):
    """Compile harness/<name>.cpp (+sources) against /repo's working tree.
    Cached on the preprocessed text, so an edit in /repo is always seen."""
    src = os.path.join(VERIF, "harness", name + ".cpp")
    objs = []
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    flags = CXXFLAGS + list(cxxflags) + INCLUDES + list(extra)
    def one(s):
        comp = ["gcc", "-O1", "-w", "-DTRILIBRARY", "-DREDUCED", "-DCDT_ONLY"] + INCLUDES if s.endswith(".c") else ["g++"] + flags
        p = subprocess.run(comp + ["-E", "-P", s], capture_output=True)
        if p.returncode != 0:
            raise ToolError("preprocessing %s failed:\n%s" % (s, p.stderr.decode()[-3000:]))
        h = hashlib.sha256(p.stdout + " ".join(comp).encode()).hexdigest()[:24]
        o = os.path.join(BUILD, "obj", os.path.basename(s) + "." + h + ".o")
        if not os.path.exists(o):
            t = time.time()
            tmp = o + "." + uuid.uuid4().hex + ".tmp"
            p = subprocess.run(comp + ["-c", s, "-o", tmp], capture_output=True)
            if p.returncode != 0:
                raise ToolError("compiling %s failed:\n%s" % (s, p.stderr.decode()[:4000]))
            os.replace(tmp, o)
            log("compiled %s in %.1fs" % (os.path.basename(s), time.time() - t))
        return o
    with cf.ThreadPoolExecutor(max_workers=JOBS) as ex:
        objs = list(ex.map(one, [src] + [os.path.join(REPO, x) if not x.startswith("/") else x for x in sources]))
    hh = hashlib.sha256((" ".join(objs) + " ".join(libs)).encode()).hexdigest()[:16]
    binf = os.path.join(BUILD, "bin", "%s%s.%s" % (name, tag, hh))
    if not os.path.exists(binf):
        tmp = binf + "." + uuid.uuid4().hex + ".tmp"
        p = subprocess.run(["g++", "-pthread"] + objs + ["-o", tmp] + list(libs), capture_output=True)
        if p.returncode != 0:
            raise ToolError("linking %s failed:\n%s" % (name, p.stderr.decode()[:4000]))
        os.replace(tmp, binf)
    return binf


def run_harness(binf, args, out, timeout=240, cwd=None, stdin=None):
    """Run a harness that writes ndjson events to `out` (its first argument).
    A crash or hang of the code under test becomes a Crash event, which no
    specification accepts."""
    if os.path.exists(out):
        os.remove(out)
    try:
        p = subprocess.run([binf, out] + [str(a) for a in args], capture_output=True,
                           timeout=timeout, cwd=cwd, input=stdin)
        rc, err = p.returncode, p.stderr.decode(errors="replace")[-2000:]
    except subprocess.TimeoutExpired:
        rc, err = "timeout", ""
    if rc == 97:   # harness-usage problem: a bug of ours
        raise ToolError("harness %s: %s" % (binf, err))
    if rc != 0:
        # drop a partially written last line
        txt = open(out).read() if os.path.exists(out) else ""
        if txt and not txt.endswith("\n"):
            txt = txt[: txt.rfind("\n") + 1]
        txt += json.dumps({"ev": "Crash", "rc": str(rc), "err": err[-400:]}) + "\n"
        open(out, "w").write(txt)
    if not os.path.exists(out) or os.path.getsize(out) == 0:
        raise ToolError("harness %s produced no events (%s)" % (binf, err))
    return out


# ---------------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        m = re.findall(r"The number of states generated: ([\d,]+)", out)
        if m and not self.generated:
            self.generated = int(m[-1].replace(",", ""))
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else 0
        self.ok = (rc == 0)
        self.coverage = re.findall(r"<(\w+) line [^>]*>: (\d+):(\d+)", out)


def tlc(module, cfg=None, env=None, workers=1, extra=(), heap="2g", timeout=600, dfs=False):
    cfg = cfg or module + ".cfg"
    meta = tempfile.mkdtemp(prefix="tlcmeta.", dir=_scratch())
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", "-Xmx" + heap, "-Xss32m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-Djava.io.tmpdir=" + meta]
    if dfs:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-cp", JARS, "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-cleanup",
            "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    t = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, env=e, timeout=timeout, cwd=SPEC)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timeout on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout.decode(errors="replace") + p.stderr.decode(errors="replace")
    return TlcResult(p.returncode, out, time.time() - t)


def _scratch():
    d = os.path.join(BUILD, "scratch")
    os.makedirs(d, exist_ok=True)
    return d


RESOURCE = re.compile(r"OutOfMemory|StackOverflow|GC overhead|No space left|Parsing or semantic analysis failed|"
                      r"Could not find or load|ConfigFileException|Lexical error|Unknown operator|SANY|semantic errors")


class Check:
    """One property check: collects design-model runs, validated traces and rejections."""

    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.violations = []      # (what, replay path)
        self.known = []
        self.extra = {}
        self.assumptions = []
        self.dir = os.path.join(BUILD, "run", pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        self.known_entries = load_known(pid)

    # -- design model: must be accepted by TLC, else our own machinery is wrong
    def design(self, module, cfg=None, workers=4, heap="4g", timeout=700, extra=(), env=None, min_distinct=1):
        r = tlc(module, cfg, env=env, workers=workers, heap=heap, timeout=timeout, extra=extra)
        if not r.ok:
            raise ToolError("design model %s rejected by TLC:\n%s" % (module, r.out[-3000:]))
        if r.distinct < min_distinct and "-simulate" not in extra:
            raise ToolError("design model %s explored only %d states" % (module, r.distinct))
        self.states += r.distinct
        self.transitions += r.generated
        self.extra.setdefault("design_models", []).append(
            {"module": module, "cfg": cfg or module + ".cfg", "distinct": r.distinct, "generated": r.generated,
             "depth": r.depth, "wall_s": round(r.wall, 1)})
        log("design %s: %d distinct states, %.1fs" % (cfg or module, r.distinct, r.wall))
        return r

    # -- run a TLC spec that prints lines "@@ <json>" (behaviours for replay)
    def generate(self, module, cfg=None, env=None, extra=(), workers=1, timeout=600, heap="2g"):
        r = tlc(module, cfg, env=env, workers=workers, extra=extra, timeout=timeout, heap=heap)
        if not r.ok:
            raise ToolError("generator %s failed:\n%s" % (module, r.out[-3000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.extra.setdefault("generators", []).append(
            {"module": module, "cfg": cfg or module + ".cfg", "distinct": r.distinct, "generated": r.generated,
             "wall_s": round(r.wall, 1)})
        seen, res = set(), []
        for line in r.out.splitlines():
            if line.startswith('"@@ '):
                s = json.loads(line)[3:]
            elif line.startswith("@@ "):
                s = line[3:]
            else:
                continue
            if s not in seen:
                seen.add(s)
                res.append(json.loads(s))
        log("generator %s: %d behaviours, %.1fs" % (cfg or module, len(res), r.wall))
        return res, r

    def _validate1(self, module, trace, cfg, heap, timeout, env):
        n = sum(1 for _ in open(trace))
        e = {"TRACE": trace}
        e.update(env or {})
        r = tlc(module, cfg, env=e, workers=1, heap=heap, timeout=timeout, dfs=False)
        return n, r

    def validate(self, module, traces, cfg=None, heap="3g", timeout=600, env=None, jobs=JOBS, sample=True):
        """Validate recorded traces against the trace specification, in parallel."""
        with cf.ThreadPoolExecutor(max_workers=jobs) as ex:
            futs = {ex.submit(self._validate1, module, t, cfg, heap, timeout, env): t for t in traces}
            for f in cf.as_completed(futs):
                trace = futs[f]
                n, r = f.result()
                if r.ok:
                    self.traces += 1
                    self.events += n
                    self.states += r.distinct
                    self.transitions += r.generated
                    if sample and len(self.samples) < 4:
                        first = open(trace).readline().strip()
                        self.samples.append({"trace": os.path.basename(trace), "events": n, "first_event": first[:400]})
                    continue
                self._rejected(module, trace, cfg, n, r, heap, timeout, env)
        return not self.violations

    def _rejected(self, module, trace, cfg, n, r, heap, timeout, env):
        if RESOURCE.search(r.out) :
            raise ToolError("TLC failed on %s:\n%s" % (trace, r.out[-3000:]))
        # a rejection counts only if a re-run repeats it
        _, r2 = self._validate1(module, trace, cfg, heap, timeout, env)
        if r2.ok:
            raise ToolError("unstable TLC result on %s" % trace)
        why = explain(r2.out)
        keep = os.path.join(BUILD, "replay")
        os.makedirs(keep, exist_ok=True)
        dst = os.path.join(keep, "%s-%s" % (self.pid, os.path.basename(trace)))
        shutil.copy(trace, dst)
        open(dst + ".tlc.txt", "w").write(r2.out)
        self.violations.append((why, dst))

    def run(self, binf, args, name=None, **kw):
        """run a harness into this check's directory; returns the trace path"""
        name = name or "-".join(str(a).replace("/", "_") for a in args)
        return run_harness(binf, args, os.path.join(self.dir, name[-80:] + ".ndjson"), **kw)

    def run_many(self, binf, argslist, jobs=JOBS, **kw):
        with cf.ThreadPoolExecutor(max_workers=jobs) as ex:
            return list(ex.map(lambda a: self.run(binf, a, **kw), argslist))

    def run_jobs(self, joblist, jobs=JOBS, **kw):
        """joblist: (binary, arguments)"""
        with cf.ThreadPoolExecutor(max_workers=jobs) as ex:
            return list(ex.map(lambda j: self.run(j[0], j[1], **kw), joblist))

    def violation(self, why, payload, name="replay"):
        keep = os.path.join(BUILD, "replay")
        os.makedirs(keep, exist_ok=True)
        dst = os.path.join(keep, "%s-%s.json" % (self.pid, name))
        with open(dst, "w") as f:
            json.dump({"property": self.pid, "why": why, "payload": payload}, f, indent=1)
        self.violations.append((why, dst))

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["(none)"]}
        cov["trace_events"] = self.events
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": cov, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        for why, path in self.violations[:20]:
            print("  why:", why[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        log("%s: %d traces (%d events), %d states, %.1fs, violations=%d" %
            (self.pid, self.traces, self.events, self.states, time.time() - self.t0, len(self.violations)))
        sys.stdout.flush()
        return 1 if self.violations else 0


def explain(out):
    m = re.findall(r'"?REJECT(?:ED)?[^\n]*', out)
    if m:
        return "; ".join(x.strip('"') for x in m[-3:])
    m = re.findall(r"Error: [^\n]*(?:\n[^\n]*){0,4}", out)
    return (m[0] if m else out[-500:]).replace("\n", " | ")


def load_known(pid):
    p = os.path.join(VERIF, "known-findings.txt")
    res = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


def write_ndjson(path, events):
    with open(path, "w") as f:
        for e in events:
            f.write(json.dumps(e) + "\n")
    return path


def read_ndjson(path):
    return [json.loads(l) for l in open(path) if l.strip()]


def main(fn):
    try:
        rc = fn()
    except ToolError as e:
        print("TOOL-ERROR:", e)
        rc = 2
    sys.exit(rc)
