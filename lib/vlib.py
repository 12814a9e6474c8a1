"""Shared runner: builds harnesses from /repo's working tree, runs TLC, writes evidence."""
import json, os, random, re, shutil, subprocess, sys, time, tempfile, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ECL_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CXXFLAGS = ["-std=c++14", "-O1", "-g0", "-w", "-DECL_STANDALONE", "-I" + VERIF + "/shim", "-I" + REPO,
            "-I" + REPO + "/EKF", "-I" + VERIF + "/harness"]


class Check:
    """One run of one property's check."""

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random(self.seed * 7919 + sum(map(ord, prop)))
        self.t0 = time.time()
        # several checks may share a family script: the work directory is per property
        self.work = os.path.join(os.environ.get("VERIF_WORK", os.path.join(VERIF, "work")), prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.violations = []
        self.assumptions = ["PX4/Matrix is replaced by /verif/shim/matrix (not available offline); "
                            "the repository's full gtest suite passes against it",
                            "TLC 1.8 and the C++ compiler are trusted"]

    @property
    def thorough(self):
        return self.tier == "thorough"

    def path(self, *a):
        return os.path.join(self.work, *a)

    # ---- building ----------------------------------------------------------------------------
    def build(self, harness, repo_sources=(), flags=(), out=None):
        """Compile harness/<harness>.cpp with the listed /repo sources. Returns the binary path or exits."""
        out = out or self.path(harness)
        srcs = [os.path.join(VERIF, "harness", harness + ".cpp")]
        for s in repo_sources:
            full = os.path.join(REPO, s)
            if os.path.isdir(full):
                srcs += sorted(os.path.join(full, f) for f in os.listdir(full) if f.endswith(".cpp"))
            else:
                srcs.append(full)
        objd = out + ".obj"
        os.makedirs(objd, exist_ok=True)
        objs = []

        def one(i_s):
            i, s = i_s
            o = os.path.join(objd, "%d_%s.o" % (i, os.path.basename(s)))
            p = subprocess.run(["g++"] + CXXFLAGS + list(flags) + ["-c", s, "-o", o], capture_output=True, text=True)
            return s, o, p
        with cf.ThreadPoolExecutor(8) as ex:
            for s, o, p in ex.map(one, enumerate(srcs)):
                if p.returncode != 0:
                    self.broken("compiling %s failed:\n%s" % (s, p.stderr[-3000:]))
                objs.append(o)
        p = subprocess.run(["g++"] + objs + list(f for f in flags if f.startswith("-fsan")) + ["-o", out], capture_output=True, text=True)
        if p.returncode != 0:
            self.broken("linking failed:\n" + p.stderr[-3000:])
        shutil.rmtree(objd, ignore_errors=True)
        return out

    # ---- TLC ---------------------------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, args=(), heap="3g", timeout=700, workers=1, tag=None, count=True):
        """Run TLC on spec/<module>.tla with spec/<cfg>. Returns a dict."""
        tag = tag or module
        meta = self.path("tlc_" + tag)
        os.makedirs(meta, exist_ok=True)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-cp", JAR, "tlc2.TLC",
               "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE", "-config",
               os.path.join(SPEC, cfg or module + ".cfg")] + list(args) + [os.path.join(SPEC, module + ".tla")]
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=SPEC)
        except subprocess.TimeoutExpired:
            self.broken("TLC timed out on " + module)
        out = p.stdout + p.stderr
        open(self.path("tlc_" + tag + ".log"), "w").write(out)
        shutil.rmtree(meta, ignore_errors=True)
        r = {"rc": p.returncode, "out": out, "states": 0, "generated": 0, "depth": 0}
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        if m:
            r["generated"], r["states"] = (int(x.replace(",", "")) for x in m[-1])
        else:
            m = re.findall(r"The number of states generated: ([\d,]+)", out)
            if m:
                r["generated"] = int(m[-1].replace(",", ""))
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        if m:
            r["depth"] = int(m[-1])
        r["ok"] = p.returncode == 0
        # 10..14 are property/assumption/deadlock/... failures; anything else is an error of the tool
        r["violation"] = p.returncode in (10, 11, 12, 13, 14)
        if count:
            self.states += r["states"]
            self.transitions += r["generated"]
        return r

    def exhaustive(self, module, cfg=None, **kw):
        """Model-check the design; a failure here is a broken check, not a violation of the code."""
        r = self.tlc(module, cfg, workers=kw.pop("workers", 4), **kw)
        if not r["ok"]:
            self.broken("design check of %s failed:\n%s" % (module, r["out"][-4000:]))
        return r

    def simulate(self, module, cfg=None, num=100, depth=30, **kw):
        """TLC -simulate; returns the JSON values printed as TRACE lines."""
        r = self.tlc(module, cfg, args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed)], **kw)
        if not r["ok"]:
            self.broken("simulation of %s failed:\n%s" % (module, r["out"][-4000:]))
        res = []
        for line in r["out"].splitlines():
            m = re.match(r'<<"TRACE", "(.*)">>$', line)
            if m:
                res.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
        return res

    def validate(self, module, trace, cfg=None, tag=None, ntraces=1, **kw):
        """Trace validation: trace is an ndjson path. Returns None if accepted, else a description."""
        n = sum(1 for _ in open(trace))
        r = self.tlc(module, cfg, env={"TRACE": trace}, tag=tag, **kw)
        if r["ok"]:
            self.traces += ntraces
            return None
        out = r["out"]
        if not r["violation"] and "evaluating the nested" in out and re.search(r"[1-9]\d* states generated", out):
            pass  # a recorded value lies outside what the step can even be evaluated with (NaN, overflow): a rejection
        elif not r["violation"]:
            self.broken("TLC failed on %s (%s):\n%s" % (module, trace, out[-4000:]))
        m = re.search(r"Invariant (\w+) is violated|The invariant of (\w+)|property (\w+) (?:is|was) violated|Action property (\w+)", out)
        line = None
        d = re.findall(r"depth of the complete state graph search is (\d+)", out)
        if d:
            line = int(d[-1])
        ls = re.findall(r"^/\\ l = (\d+)", out, re.M)
        if ls and m:
            line = int(ls[-1]) - 1
        what = "invariant %s" % next(x for x in m.groups() if x) if m else "no specification step matches"
        why = re.findall(r'^<<\s*"not:",\s*(.*?)>>\s*$', out, re.M | re.S)
        if why:
            what += " (%s)" % " ".join(why[-1].split())[:300]
        ev = ""
        if line is not None and 1 <= line <= n:
            with open(trace) as f:
                for i, x in enumerate(f, 1):
                    if i == line:
                        ev = x.strip()[:600]
                        break
        return {"what": what, "line": line, "event": ev, "log": out[-2500:]}

    def validate_many(self, module, traces, cfg=None, ntraces=None, jobs=6, **kw):
        """Validate several trace files in parallel TLC runs; returns list of (trace, result)."""
        with cf.ThreadPoolExecutor(jobs) as ex:
            futs = [(t, ex.submit(self.validate, module, t, cfg, "%s_%d" % (module, i), (ntraces or {}).get(t, 1), **kw)) for i, t in enumerate(traces)]
            return [(t, f.result()) for t, f in futs]

    # ---- verdicts ----------------------------------------------------------------------------
    def violation(self, replay, text):
        self.violations.append((replay, text))

    def save_replay(self, name, content):
        d = os.path.join(os.environ.get("VERIF_WORK", os.path.join(VERIF, "work")), "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s_%s" % (self.prop, name))
        if isinstance(content, str) and os.path.exists(content) and "\n" not in content:
            shutil.copy(content, p)
        else:
            open(p, "w").write(content)
        return p

    def broken(self, msg):
        print("CHECK-ERROR property=%s %s" % (self.prop, msg), flush=True)
        os._exit(2)

    def finish(self, **cov):
        self.extra.update(cov)
        c = {"states": self.states, "transitions": self.transitions,
             "traces_validated_against_impl": self.traces, "samples": self.samples[:5]}
        c.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": c,
              "wall_s": round(time.time() - self.t0, 2), "assumptions": self.assumptions}
        if self.violations:
            ev["violations"] = len(self.violations)
        evd = os.path.join(VERIF, "evidence") if "VERIF_WORK" not in os.environ else self.work
        os.makedirs(evd, exist_ok=True)
        json.dump(ev, open(os.path.join(evd, self.prop + ".json"), "w"), indent=1)
        if self.violations:
            for rp, t in self.violations[:5]:
                print(t)
                print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            sys.exit(1)
        print("property %s held: %d states, %d transitions, %d traces, %.1fs" %
              (self.prop, self.states, self.transitions, self.traces, time.time() - self.t0))
        shutil.rmtree(self.work, ignore_errors=True)
        sys.exit(0)


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def trace_check(c, binary, scripts, module, nfiles=3, newmark='"e":"new"', cfg=None, confirm=True, jobs=6, args=(), timeout=300, heap="3g"):
    """Run scripts (lists of lines) through a harness, validate the recorded traces with TLC.
    A rejection is reported only if running the same script again is rejected again."""
    files, counts, parts = [], {}, {}
    nfiles = max(1, min(nfiles, len(scripts)))

    def record(k, sc):
        tr = c.path("trace_%s_%s.ndjson" % (module, k))
        txt = "\n".join("\n".join(s) for s in sc) + "\n"
        p = subprocess.run([binary] + list(args), input=txt, stdout=open(tr, "w"), stderr=subprocess.PIPE, text=True, timeout=timeout)
        return tr, p
    with cf.ThreadPoolExecutor(jobs) as ex:
        jobsl = [(k, scripts[k::nfiles]) for k in range(nfiles)]
        for (k, sc), (tr, p) in zip(jobsl, ex.map(lambda a: record(*a), jobsl)):
            if p.returncode != 0:
                if p.returncode == 3:
                    c.broken("harness rejected its input: " + p.stderr[-500:])
                c.violation(c.save_replay("script.txt", "\n".join("\n".join(s) for s in sc) + "\n"),
                            "the code under test crashed (rc %d) %s" % (p.returncode, p.stderr[-300:]))
                continue
            files.append(tr)
            counts[tr] = len(sc)
            parts[tr] = (k, sc)
    for tr, res in c.validate_many(module, files, cfg=cfg, ntraces=counts, jobs=jobs, heap=heap):
        if not res:
            continue
        lines = open(tr).read().splitlines()[:res["line"]]
        starts = [i for i, x in enumerate(lines) if newmark in x]
        k = starts[-1] if starts else 0
        idx = len(starts) - 1
        k0, sc = parts[tr]
        sub = sc[idx:idx + 1] if 0 <= idx < len(sc) else sc
        if confirm:
            tr2, p2 = record("confirm", sub)
            if p2.returncode == 0:
                res2 = c.validate(module, tr2, cfg, tag=module + "_confirm", ntraces=0)
                if not res2:
                    # depends on what ran before in the same process: still real if the whole file repeats it
                    tr3, p3 = record("confirm_all", sc)
                    if p3.returncode == 0 and not c.validate(module, tr3, cfg, tag=module + "_confirm_all", ntraces=0):
                        c.broken("unrepeatable rejection: %s" % res)
        rp = c.save_replay("script.txt", "\n".join("\n".join(s) for s in sub) + "\n")
        c.save_replay("trace.ndjson", "\n".join(lines[k:]) + "\n")
        c.violation(rp, "%s: %s at %s" % (module, res["what"], res["event"]))


def known_finding(c, binary, script, module, strict_cfg, ident, args=()):
    """The script shows a recorded defect: under the strict configuration it is rejected.  Reported as known only while listed."""
    tr = c.path("known_%s.ndjson" % ident)
    p = subprocess.run([binary] + list(args), input="\n".join(script) + "\n", stdout=open(tr, "w"), stderr=subprocess.PIPE, text=True, timeout=300)
    if p.returncode != 0:
        c.violation(c.save_replay("script.txt", "\n".join(script) + "\n"), "the code under test crashed (rc %d)" % p.returncode)
        return
    res = c.validate(module, tr, strict_cfg, tag=module + "_known", ntraces=0)
    if not res:
        return
    pre = "known: property=%s %s: " % (c.prop, ident)
    hit = [x for x in open(os.path.join(VERIF, "known-findings.txt")).read().splitlines() if x.startswith(pre)]
    if hit:
        print("KNOWN-FINDING: property=%s %s: %s" % (c.prop, ident, hit[0][len(pre):]))
    else:
        c.violation(c.save_replay("script.txt", "\n".join(script) + "\n"), "%s: %s at %s" % (module, res["what"], res["event"]))
