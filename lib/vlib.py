"""Common machinery of all checks: build drivers from /repo, run TLC, validate traces, report."""
import concurrent.futures as cf
import glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
NCPU = os.cpu_count() or 4
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def clip(text, n=3000):
    """The first errors of a compiler run, lines shortened."""
    lines = [l[:300] for l in text.split("\n") if "error" in l or "undefined" in l] or [l[:300] for l in text.split("\n")]
    return "\n".join(lines)[:n]


class ToolError(Exception):
    """The check itself could not be carried out (neither held nor violated)."""


def _tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
    return h.hexdigest()


def src_hash():
    return _tree_hash(os.path.join(REPO, "include"), os.path.join(REPO, "src"),
                      os.path.join(VERIF, "drivers"), os.path.join(VERIF, "stubs"))


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.mc = []            # model checking runs
        self.samples, self.violations, self.known, self.notes = [], [], [], []
        self.extra = {}
        self.actions = {}
        self.replays = []
        os.makedirs(BUILD, exist_ok=True)
        for f in glob.glob(os.path.join(BUILD, "replay", prop + "-*.json")):
            os.unlink(f)
        self.work = tempfile.mkdtemp(prefix=prop + "-", dir=BUILD)
        self._src_hash = None
        self.known_list = load_known(prop)

    # ---------------------------------------------------------------- build
    def build(self, sources, name=None, defs=(), flags=(), libs=(), opt="-O1", std="-std=c++17", stubs=True, exact_flags=None):
        """Compile driver sources (paths relative to /verif/drivers or absolute) against /repo."""
        if self._src_hash is None:
            self._src_hash = src_hash()
        own = [(s, ()) if isinstance(s, str) else s for s in sources]     # a source, or (source, its own defines)
        srcs = [s if os.path.isabs(s) else os.path.join(VERIF, "drivers", s) for s, _ in own]
        ds = [["-D" + d for d in o] for _, o in own]
        cmd = ["g++", std, opt, "-w", "-ftemplate-depth=10000"]
        cmd += ["-I" + os.path.join(REPO, "include")]
        cmd += ["-I" + os.path.join(VERIF, "drivers")]
        if stubs:
            cmd += ["-I" + os.path.join(VERIF, "stubs")]
        cmd += ["-D" + d for d in defs] + list(flags)
        key = hashlib.sha256(("%s|%s|%s|%s" % (self._src_hash, cmd, list(zip(srcs, ds)), libs)).encode())
        for s in srcs:
            key.update(open(s, "rb").read())
        cache = os.path.join(BUILD, "cache")
        os.makedirs(cache, exist_ok=True)
        exe = os.path.join(cache, (name or os.path.basename(srcs[0])).replace(".cpp", "") + "-" + key.hexdigest()[:16])
        if os.path.exists(exe):
            return exe
        sub = tempfile.mkdtemp(dir=self.work)
        tmp = os.path.join(sub, os.path.basename(exe))
        if len(srcs) > 1:
            objs = [os.path.join(sub, "o%d.o" % i) for i in range(len(srcs))]
            with cf.ThreadPoolExecutor(NCPU) as ex:
                rs = list(ex.map(lambda so: subprocess.run(cmd + so[2] + ["-c", so[0], "-o", so[1]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), zip(srcs, objs, ds)))
            for r in rs:
                if r.returncode:
                    raise ToolError("compile failed:\n" + clip(r.stdout))
            r = subprocess.run(["g++"] + list(flags) + objs + ["-o", tmp] + list(libs), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        else:
            r = subprocess.run(cmd + ds[0] + srcs + ["-o", tmp] + list(libs), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise ToolError("compile failed:\n" + clip(r.stdout))
        os.replace(tmp, exe)
        return exe

    def build_all(self, *jobs):
        """Several builds at once; each job is a dict of build() arguments."""
        if self._src_hash is None:
            self._src_hash = src_hash()
        with cf.ThreadPoolExecutor(NCPU) as ex:
            return list(ex.map(lambda j: self.build(**j), jobs))

    # ---------------------------------------------------------------- driver
    def run_cases(self, exe, cases, timeout=120, env=None, args=(), parallel=1):
        """cases: list of list of script lines. Returns the list of recorded event lists.
        A crash / hang of the real code becomes an event {"ev":"crash"} no specification admits."""
        if parallel > 1 and len(cases) > parallel:
            step = (len(cases) + parallel - 1) // parallel
            parts = [cases[i:i + step] for i in range(0, len(cases), step)]
            with cf.ThreadPoolExecutor(parallel) as ex:
                return [t for p in ex.map(lambda c: self.run_cases(exe, c, timeout, env, args), parts) for t in p]
        out = [None] * len(cases)
        i = 0
        crashes = 0
        while i < len(cases):
            text = []
            for k in range(i, len(cases)):
                text.append("case %d" % k)
                text.extend(cases[k])
            text.append("quit")
            e = dict(os.environ)
            e.update(env or {})
            try:
                r = subprocess.run([exe] + list(args), input="\n".join(text) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   text=True, errors="replace", timeout=timeout, env=e, cwd=self.work)
                rc, so, se = r.returncode, r.stdout, r.stderr
            except subprocess.TimeoutExpired as ex:
                rc, se = -999, ""
                so = (ex.stdout or b"").decode(errors="replace") if isinstance(ex.stdout, bytes) else (ex.stdout or "")
            cur = None
            done = False
            for line in so.split("\n"):
                if not line.startswith("{"):
                    continue
                try:
                    ev = json.loads(line)
                except ValueError:
                    continue
                if ev.get("ev") == "case":
                    cur = ev["id"]
                    out[cur] = []
                elif ev.get("ev") == "quit":
                    done = True
                elif cur is not None:
                    out[cur].append(ev)
            if rc == 0 and done:
                break
            if rc == 3:
                raise ToolError("driver rejected its script: " + se[-2000:])
            if cur is None:
                raise ToolError("driver died before its first case rc=%d: %s" % (rc, se[-2000:]))
            out[cur].append({"ev": "crash", "rc": rc})
            self.notes.append("driver stopped in case %d (rc=%d): %s" % (cur, rc, se[-400:].strip()))
            crashes += 1
            i = cur + 1
            if crashes >= 12:      # enough evidence; the remaining cases are not run
                break
        return [o for o in out]

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, workers=1, extra=(), timeout=600, heap="3g"):
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JARS, "-Dtlc2.TLC.stopAfter=%d" % timeout,
               "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers), "-config", (cfg or module) + ".cfg"]
        cmd += list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout + 30)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on %s %s" % (module, cfg))
        shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        return r.returncode, r.stdout, gen, dist

    def model_check(self, module, cfg=None, env=None, workers=None, extra=(), timeout=600, collect="@@", must_hold=True, coverage=False):
        """Exhaustive exploration of a bounded configuration. Returns the JSON values it printed."""
        rc, out, gen, dist = self.tlc(module, cfg, env, workers or NCPU, list(extra), timeout, heap="8g")
        if rc != 0 and must_hold:
            raise ToolError("TLC: %s/%s does not check:\n%s" % (module, cfg, out[-4000:]))
        self.states += dist
        self.transitions += gen
        self.mc.append({"module": module, "config": cfg or module, "distinct_states": dist, "states_generated": gen})
        vals = []
        for line in out.split("\n"):
            if line.startswith('"' + collect):
                vals.append(json.loads(json.loads(line)[len(collect):]))
        return vals

    def validate(self, module, cases, cfg=None, env=None, sig=None, chunk_events=2500, max_rej=6, describe=None,
                 scripts=None, count=True, quiet=False, confirm=None, timeout=600):
        """Trace validation. cases: list of event lists. Returns list of (case index, event index)."""
        idx = [i for i, c in enumerate(cases) if c is not None]
        chunks, cur, n = [], [], 0
        per = max(200, min(chunk_events, sum(len(cases[i]) + 1 for i in idx) // NCPU + 1))
        for i in idx:
            cur.append(i)
            n += len(cases[i]) + 1
            if n >= per:
                chunks.append(cur)
                cur, n = [], 0
        if cur:
            chunks.append(cur)
        rejected = []
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for rej, acc, gen, dist in ex.map(lambda ch: self._validate_chunk(module, cfg, env, cases, ch, max_rej, timeout), chunks):
                rejected += rej
                if count:
                    self.traces += acc
                    self.transitions += gen
                    self.states += dist
        if count:
            self.events += sum(len(cases[i]) for i in idx)
            for i in idx:
                for e in cases[i]:
                    k = str(e.get("ev"))
                    self.actions[k] = self.actions.get(k, 0) + 1
        return rejected

    def _validate_chunk(self, module, cfg, env, cases, ch, max_rej, timeout):
        rej, acc, tg, td = [], 0, 0, 0
        todo = list(ch)
        while todo:
            lines, owner = [], []
            for i in todo:
                lines.append(json.dumps({"ev": "case"}))
                owner.append((i, -1))
                for k, e in enumerate(cases[i]):
                    lines.append(json.dumps(e))
                    owner.append((i, k))
            fd, path = tempfile.mkstemp(suffix=".ndjson", dir=self.work)
            os.write(fd, ("\n".join(lines) + "\n").encode())
            os.close(fd)
            e2 = dict(env or {})
            e2["TRACE"] = path
            rc, out, gen, dist = self.tlc(module, cfg, e2, 1, ["-deadlock"], timeout)
            tg += gen
            td += dist
            if rc == 0:
                acc += len(todo)
                os.unlink(path)
                break
            m = re.search(r'<<"REJECTED_AT", (\d+)>>', out)
            if m:
                at = int(m.group(1))          # 1-based line that no action explains
            elif "is violated" in out and re.findall(r"^State (\d+):", out, re.M):
                at = int(re.findall(r"^State (\d+):", out, re.M)[-1]) - 1
            else:
                raise ToolError("TLC failed on trace of %s (%s):\n%s" % (module, path, out[-5000:]))
            os.unlink(path)
            bad = owner[min(at, len(owner)) - 1]
            rej.append(bad)
            pos = todo.index(bad[0])
            acc += pos
            todo = todo[pos + 1:]
            if len(rej) >= max_rej:
                break
        return rej, acc, tg, td

    # ---------------------------------------------------------------- conformance
    def conform(self, module, exe, scripts, label, cfg=None, env=None, denv=None, sig=None, args=(), timeout=120, post=None, parallel=4, tlc_timeout=600, chunk_events=2500):
        """Run scripts on the real code, validate the traces, confirm and report rejections.
        scripts: list of list of lines."""
        cases = self.run_cases(exe, scripts, timeout, denv, args, parallel=parallel)
        if post:
            cases = [None if c is None else post(c) for c in cases]
        rejected = self.validate(module, cases, cfg, env, timeout=tlc_timeout, chunk_events=chunk_events)
        if self.samples is not None and len(self.samples) < 6:
            for c, s in zip(cases, scripts):
                if c:
                    self.samples.append({"source": label, "script": s[:6], "trace": c[:6]})
                    break
        for ci, ei in rejected[:5]:
            again = self.run_cases(exe, [scripts[ci]], timeout, denv, args)
            if post:
                again = [post(c) for c in again]
            r2 = self.validate(module, again, cfg, env, count=False)
            if not r2:
                self.notes.append("rejection of case %d (%s) did not repeat" % (ci, label))
                continue
            ev = again[0][r2[0][1]] if 0 <= r2[0][1] < len(again[0]) else {}
            s = sig(again[0], r2[0][1]) if sig else "%s:%s" % (label, ev.get("ev"))
            if s in self.known_list:
                self.known.append((s, self.known_list[s]))
                continue
            self.report(s, {"property": self.prop, "label": label, "driver": os.path.basename(exe).rsplit("-", 1)[0],
                            "signature": s, "script": scripts[ci], "trace": again[0], "rejected_event": r2[0][1]})
        self.last_cases = cases
        return cases

    def report(self, s, payload):
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations) + 1))
        json.dump(payload, open(path, "w"), indent=1)
        self.violations.append((s, path))

    def demonstrate_binding(self, module, cases, corrupt, cfg=None, env=None, n=3):
        """Corrupt one recorded field of accepted traces; the specification must reject each."""
        done = 0
        pool = [c for c in cases if c]
        self.rng.shuffle(pool)
        muts = []
        for c in pool:
            m = corrupt(json.loads(json.dumps(c)), self.rng)
            if m is not None:
                muts.append(m)
            if len(muts) >= 2 * n:
                break
        for m in muts:              # a corruption may happen to describe another admissible history: most must be rejected
            if self.validate(module, [m], cfg, env, count=False):
                done += 1
            else:
                self.extra["corrupted_traces_accepted"] = self.extra.get("corrupted_traces_accepted", 0) + 1
            if done >= n:
                break
        if muts and 2 * done < min(n, len(muts)):
            raise ToolError("binding demonstration failed: %s accepted corrupted traces, the last one %s" % (module, json.dumps(m)[:1500]))
        self.extra["corrupted_traces_rejected"] = self.extra.get("corrupted_traces_rejected", 0) + done
        if done == 0:
            raise ToolError("binding demonstration found no trace to corrupt")

    # ---------------------------------------------------------------- end
    def finish(self, assumptions=()):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "trace_events": self.events, "events_by_action": dict(sorted(self.actions.items())),
               "model_checking_runs": self.mc, "samples": self.samples[:4], "notes": self.notes[:10]}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        for s, d in sorted(set(self.known)):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, d))
        for s, p in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("  signature:", s)
        print("%s %s: states=%d transitions=%d traces=%d events=%d wall=%.1fs violations=%d" % (
            self.prop, self.tier, self.states, self.transitions, self.traces, self.events, time.time() - self.t0, len(self.violations)))
        return 1 if self.violations else 0


def load_known(prop):
    """known_findings.txt: 'KNOWN-FINDING: property=<id> sig=<signature> -- <description>' and 'fixed: ...' lines."""
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) sig=(.*?) -- (.*)$", line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res
