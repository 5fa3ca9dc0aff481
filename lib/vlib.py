"""Common machinery of the checks: scratch space, building drivers, running TLC, validating traces, evidence."""
import atexit, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("EISVOGEL_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DRV = os.path.join(VERIF, "drivers")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CPUS = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself could not do its work (neither a pass nor a violation)."""


def find_classpath():
    base = "/opt/veriftools/tla"
    jars = [os.path.join(base, f) for f in sorted(os.listdir(base)) if f.endswith(".jar")]
    if not jars:
        raise CheckError("tla2tools.jar not found")
    jars.sort(key=lambda p: (not p.endswith("tla2tools.jar"), p))
    return ":".join(jars)


class Check:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.thorough = tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        self.dir = tempfile.mkdtemp(prefix="eisv_%s_" % pid, dir=base)
        os.chmod(self.dir, 0o755)
        atexit.register(self.cleanup)
        self.out = os.path.join(VERIF, "out", pid)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.extra = {}
        self.assumptions = []
        self.level = "model_checking"
        self.pool = ThreadPoolExecutor(max_workers=CPUS * 2)
        self.violation = None
        self.known = []

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def log(self, *a):
        print("[%s %.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------------ building
    def sources_hash(self, src, flags):
        h = hashlib.sha256()
        for root, dirs, files in sorted(os.walk(os.path.join(REPO, "eisvogel"))) + sorted(os.walk(os.path.join(REPO, "extern"))):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
        for root, dirs, files in sorted(os.walk(DRV)):
            for f in sorted(files):
                with open(os.path.join(root, f), "rb") as fh:
                    h.update(f.encode() + fh.read())
        h.update(src.encode() + " ".join(flags).encode())
        return h.hexdigest()[:24]

    def build(self, src, defs=(), fast_math=True, opt="-O1", extra=()):
        flags = ["-std=c++20", opt, "-march=native"] + (["-ffast-math"] if fast_math else []) + list(defs) + list(extra)
        inc = ["-I" + os.path.join(REPO, "eisvogel/core"), "-I" + os.path.join(REPO, "eisvogel/core/impl"), "-I" + DRV]
        key = self.sources_hash(src, flags)
        cache = os.path.join(VERIF, ".build")
        cached = os.path.join(cache, os.path.splitext(src)[0] + "-" + key)
        out = os.path.join(self.dir, os.path.splitext(src)[0] + "-" + key)
        if os.path.exists(cached):
            shutil.copy(cached, out)
        else:
            cmd = ["g++"] + flags + inc + [os.path.join(DRV, src), "-o", out, "-luuid", "-ltbb"]
            r = subprocess.run(cmd, capture_output=True, text=True, cwd=self.dir)
            if r.returncode != 0:
                sys.stderr.write(r.stderr[-8000:])
                raise CheckError("building %s failed" % src)
            try:
                os.makedirs(cache, exist_ok=True)
                tmp = cached + ".%d" % os.getpid()
                shutil.copy(out, tmp)
                os.replace(tmp, cached)
                olds = sorted((os.path.join(cache, f) for f in os.listdir(cache)), key=os.path.getmtime)
                for f in olds[:-60]:
                    os.unlink(f)
            except OSError:
                pass
        os.chmod(out, 0o755)
        return out

    # ------------------------------------------------------------------ running the driver
    def drive(self, binary, hists, tag, jobs=CPUS, env=None):
        """hists: list of lists of script lines.  Returns per history a list of results (dict), possibly ending with an abort."""
        sc = os.path.join(self.dir, tag + ".script")
        with open(sc, "w") as f:
            for i, h in enumerate(hists):
                f.write("H %d\n" % i)
                f.write("\n".join(h) + "\n")
        scratch = os.path.join(self.dir, tag + ".scratch")
        os.makedirs(scratch, exist_ok=True)
        os.chmod(scratch, 0o777)
        outp = os.path.join(scratch, "res")
        kw = {}
        if os.geteuid() == 0:
            # the code under test removes and moves files: let it do so as a user who owns nothing but the scratch directory
            kw = dict(user=65534, group=65534, extra_groups=[])
            os.chown(scratch, 65534, 65534)
        e = {"PATH": "/usr/bin:/bin", "HOME": scratch, "TMPDIR": scratch, "LC_ALL": "C.UTF-8"}
        e.update(env or {})
        r = subprocess.run([binary, sc, outp, scratch, str(jobs)], cwd=scratch, env=e, capture_output=True, text=True, **kw)
        if r.returncode != 0:
            raise CheckError("driver failed (%d): %s" % (r.returncode, r.stderr[-2000:]))
        res = [[] for _ in hists]
        for j in range(jobs):
            with open(outp + ".%d" % j) as f:
                for line in f:
                    h, k, js = line.split(" ", 2)
                    try:
                        d = json.loads(js)
                    except ValueError:
                        d = {"bad": js.strip()}
                    res[int(h)].append((int(k), d))
        shutil.rmtree(scratch, ignore_errors=True)
        return res

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=1, timeout=840, args=(), heap="2g"):
        md = tempfile.mkdtemp(dir=self.dir, prefix="tlc")
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % (2 if workers == 1 else workers), "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + md,
               "-cp", find_classpath(), "tlc2.TLC", "-metadir", md, "-noGenerateSpecTE", "-workers", str(workers),
               "-config", cfg if os.path.isabs(cfg) else os.path.join(SPEC, cfg)] + list(args) + [os.path.join(SPEC, module)]
        try:
            r = subprocess.run(cmd, env=e, capture_output=True, text=True, timeout=timeout, cwd=md)
        except subprocess.TimeoutExpired as ex:
            raise CheckError("TLC timed out on %s/%s" % (module, cfg))
        finally:
            shutil.rmtree(md, ignore_errors=True)
        return r.returncode, r.stdout + r.stderr

    @staticmethod
    def tlc_counts(text):
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
        if not m:
            return 0, 0
        g, d = m[-1]
        return int(g.replace(",", "")), int(d.replace(",", ""))

    def model_check(self, module, cfg, workers=4, timeout=840, consts=None, must_pass=True, heap="4g"):
        """Check the design specification itself.  Its failure is an error of the specification, not of the implementation."""
        if consts:
            text = open(os.path.join(SPEC, cfg)).read()
            for k, v in consts.items():
                text, n = re.subn(r"(?m)^(\s*%s\s*=\s*).*$" % re.escape(k), r"\g<1>" + str(v), text)
                if n != 1:
                    raise CheckError("constant %s not in %s" % (k, cfg))
            cfg = os.path.join(self.dir, "mc_%s_%d.cfg" % (cfg.replace(".cfg", ""), abs(hash(str(consts))) % 10**8))
            with open(cfg, "w") as f:
                f.write(text)
        rc, text = self.tlc(module, cfg, workers=workers, timeout=timeout, heap=heap)
        if rc != 0 or "No error has been found" not in text:
            sys.stderr.write(text[-6000:])
            raise CheckError("model checking %s failed (%d)" % (module, rc))
        g, d = self.tlc_counts(text)
        self.cov["states"] += d
        self.cov["transitions"] += g
        self.extra.setdefault("model_runs", []).append({"spec": module, "config": os.path.basename(cfg), "constants": consts or {}, "generated": g, "distinct": d})
        return text

    def histories(self, module, cfg, consts, timeout=600):
        """One history per transition of the state graph of a design specification (printed by its Emit action constraint)."""
        c = dict(consts)
        c["EmitOn"] = "TRUE"
        text = self.model_check(module, cfg, workers=1, timeout=timeout, consts=c)
        out = []
        for line in text.splitlines():
            if line.startswith('"{\\"hist\\"'):
                out.append(json.loads(json.loads(line))["hist"])
        if not out:
            raise CheckError("no histories from %s" % module)
        return out

    # ------------------------------------------------------------------ trace validation
    def validate(self, module, cfg, traces, parts=None, timeout=840, env=None, heap="2g"):
        """traces: list of (name, events).  Returns None, or (index of the history, event, position) of the first rejection found."""
        order = sorted(range(len(traces)), key=lambda i: -len(traces[i][1]))
        parts = parts or CPUS
        parts = max(1, min(parts, len(traces)))
        buckets = [[] for _ in range(parts)]
        sizes = [0] * parts
        for i in order:
            b = sizes.index(min(sizes))
            buckets[b].append(i)
            sizes[b] += len(json.dumps(traces[i][1])) + 50
        def run(b):
            return self.validate_part(module, cfg, [traces[i][1] for i in buckets[b]], timeout, env, heap)
        futs = [self.pool.submit(run, b) for b in range(parts)]
        bad = []
        for b, f in enumerate(futs):
            r = f.result()
            if r is not None:
                h, k = r
                bad.append((buckets[b][h], k))
        nev = sum(len(t[1]) for t in traces)
        self.extra["trace_events"] = self.extra.get("trace_events", 0) + nev
        return sorted(bad)

    def validate_part(self, module, cfg, evs, timeout=840, env=None, heap="2g"):
        fd, path = tempfile.mkstemp(dir=self.dir, suffix=".ndjson")
        where = []
        with os.fdopen(fd, "w") as f:
            for h, ev in enumerate(evs):
                f.write('{"op":"Reset"}\n')
                where.append((h, -1))
                for k, e in enumerate(ev):
                    f.write(json.dumps(e, separators=(",", ":")) + "\n")
                    where.append((h, k))
        e = {"TRACE": path}
        e.update(env or {})
        rc, text = self.tlc(module, cfg, env=e, workers=1, timeout=timeout, heap=heap)
        m = re.search(r'<<"REJECTED-AT", (\d+)>>', text)
        if m:
            pos = int(m.group(1)) - 1
            if pos >= len(where):
                raise CheckError("bad position in trace")
            if rc == 0:
                raise CheckError("inconsistent TLC result")
            os.unlink(path)
            return where[pos]
        if rc != 0 or "No error has been found" not in text:
            if os.environ.get("VERIF_DEBUG"):
                shutil.copy(path, "/tmp/failed_trace.ndjson")
            sys.stderr.write(text[-6000:])
            raise CheckError("trace validation with %s failed (%d)" % (module, rc))
        os.unlink(path)
        g, d = self.tlc_counts(text)
        self.cov["transitions"] += g
        self.cov["states"] += d
        return None

    # ------------------------------------------------------------------ conformance: scripts -> driver -> traces -> TLC
    def conform(self, binary, hists, merge, module, cfg, tag, parts=None, env=None, describe=None, heap="2g"):
        """hists: list of op lists.  merge(ops, results) -> events.  On rejection, repeat the failing history alone; report only
        if it is rejected again."""
        scripts = [[o.script() if hasattr(o, "script") else o["script"] for o in h] for h in hists]
        res = self.drive(binary, scripts, tag)
        traces = [("h%d" % i, merge(h, r)) for i, (h, r) in enumerate(zip(hists, res))]
        self.log("%s: %d histories, %d events from the implementation" % (tag, len(traces), sum(len(t[1]) for t in traces)))
        bad = self.validate(module, cfg, traces, parts=parts, env=env, heap=heap)
        if bad is not None:
            for h, k in bad:
                res1 = self.drive(binary, [scripts[h]], tag + "_again", jobs=1)
                ev1 = merge(hists[h], res1[0])
                again = self.validate_part(module, cfg, [ev1], env=env, heap=heap)
                if again is None:
                    self.log("history %d was rejected once but accepted when repeated; not reported" % h)
                    if any(r.get("abort") == "killed" for _, r in res[h]):
                        continue
                    raise CheckError("unrepeatable rejection (history %d of %s)" % (h, tag))
                if any(r.get("abort") == "killed" for _, r in res1[0]):
                    pass
                self.report(tag, h, scripts[h], ev1, again[1], binary, module)
                return False
        self.cov["traces_validated_against_impl"] += len(traces)
        if len(self.cov["samples"]) < 4 and hists:
            h = hists[len(hists) // 2]
            s = scripts[len(hists) // 2]
            self.cov["samples"].append({"tag": tag, "script": [x if len(x) < 200 else x[:200] + "..." for x in s[:12]]})
        return True

    def report(self, tag, h, script, events, k, binary, module):
        os.makedirs(self.out, exist_ok=True)
        path = os.path.join(self.out, "replay_%s_%d.txt" % (tag, h))
        with open(path, "w") as f:
            f.write("property %s violated: the recorded execution below is not a behaviour of %s\n" % (self.pid, module))
            f.write("run: %s, history %d, seed %d, tier %s\n" % (tag, h, self.seed, self.tier))
            f.write("rejected event (number %d): %s\n" % (k, json.dumps(events[k]) if 0 <= k < len(events) else "start"))
            f.write("\nscript (input of drivers/%s):\nH 0\n" % os.path.basename(binary).rsplit("-", 1)[0])
            f.write("\n".join(script) + "\n\nrecorded events:\n")
            for e in events:
                f.write(json.dumps(e) + "\n")
        self.log("rejected: %s" % (json.dumps(events[k])[:600] if 0 <= k < len(events) else "start"))
        self.violation = path
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)

    # ------------------------------------------------------------------ evidence
    def evidence(self):
        cov = dict(self.cov)
        cov.update(self.extra)
        if self.level in ("exploration", "fault_enumeration"):
            cov.setdefault("evaluations", cov.get("traces_validated_against_impl", 0))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": 1 if self.violation else 0}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, ".%s.%d" % (self.pid, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(d, self.pid + ".json"))


def merge_ops(ops, res):
    """ops: list of dicts with 'ev' (event without results) and 'need' (names of the result fields).  res: [(k, dict)]."""
    got = dict((k, d) for k, d in res)
    if -2 in got:
        return []
    out = []
    for k, op in enumerate(ops):
        d = got.get(k)
        if d is None:
            break
        if any(n not in d for n in op["need"]):
            out.append({"op": "Fail", "of": op["ev"]["op"], "res": json.dumps(d)[:200]})
            return out
        e = dict(op["ev"])
        e.update((n, d[n]) for n in op["need"])
        if op.get("post"):
            op["post"](e)
        out.append(e)
    if -1 in got:
        out.append({"op": "Abort", "res": json.dumps(got[-1])})
    elif len(out) < len(ops):
        out.append({"op": "Fail", "of": "missing", "res": ""})
    return out
