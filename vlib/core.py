"""Shared machinery of the checks: running TLC on the specification, building
and running the drivers that execute real code, comparing, and reporting.

Endings: exit 0 (held on everything explored), exit 1 with a VIOLATION line
(real code contradicted the specification), exit 2 (the check itself could not
give an answer)."""
import concurrent.futures, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
MODULE = "sigs.k8s.io/instrumentation-tools"
GOROOTS = ["/opt/veriftools/go1.27.3/bin"]
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """The check could not give an answer (never a violation)."""


def goenv():
    env = dict(os.environ)
    env.update(HOME=os.environ.get("HOME", "/root"), LANG="C.UTF-8", TERM="xterm", TZ="UTC",
               GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
               GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
               GOCACHE="/root/.cache/go-build",
               PATH=":".join(GOROOTS) + ":" + os.environ.get("PATH", "/usr/bin:/bin"))
    return env


class TlcResult:
    def __init__(self):
        self.lines = []        # decoded values printed by the specification
        self.generated = 0
        self.distinct = 0
        self.depth = 0
        self.violated = None   # name of the invariant / postcondition that failed
        self.output = ""
        self.rc = None


def tlaval(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v if v.startswith("\\") or v.startswith("{") or v.startswith("<") else '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tlaval(x) for x in v)) + "}"
    raise CheckError("cannot write %r to a TLC configuration" % (v,))


class Check:
    def __init__(self, pid, tier=None, seed=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.quick = self.tier == "quick"
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.level = "model_checking"
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.samples = []
        self.ops = {}
        self.notes = {}
        self.assumptions = []
        self.violations = []
        self.known = load_known(pid)
        self.exhaustive_parts = []
        self._bins = {}
        self._n = 0

    # ---------------------------------------------------------------- misc
    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def newdir(self, name):
        self._n += 1
        d = os.path.join(self.work, "%02d-%s" % (self._n, name))
        os.makedirs(d)
        return d

    def sample(self, x, limit=6):
        if len(self.samples) < limit:
            self.samples.append(x)

    def count_ops(self, names):
        for n in names:
            self.ops[n] = self.ops.get(n, 0) + 1

    def require_ops(self, names):
        """Vacuity guard: every named action must have been exercised."""
        missing = [n for n in names if not self.ops.get(n)]
        if missing:
            raise CheckError("vacuous run: actions never exercised: %s" % missing)

    # ----------------------------------------------------------------- TLC
    def tlc(self, module, constants=None, init=None, next=None, spec=None, view=None,
            action_constraint=None, constraint=None, invariants=(), properties=(),
            postcondition=None, simulate=None, depth=None, workers=1, files=None,
            timeout=600, heap="4g", label=None, count=True, seed=None, want_output=True,
            deadlock=False):
        d = self.newdir(label or module)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        for name, content in (files or {}).items():
            with open(os.path.join(d, name), "w") as fh:
                fh.write(content)
        cfg = []
        if spec:
            cfg.append("SPECIFICATION " + spec)
        else:
            cfg.append("INIT " + (init or "Init"))
            cfg.append("NEXT " + (next or "Next"))
        for k, v in (constants or {}).items():
            cfg.append("CONSTANT %s = %s" % (k, tlaval(v)))
        if view:
            cfg.append("VIEW " + view)
        if action_constraint:
            cfg.append("ACTION_CONSTRAINT " + action_constraint)
        if constraint:
            cfg.append("CONSTRAINT " + constraint)
        for i in invariants:
            cfg.append("INVARIANT " + i)
        for p in properties:
            cfg.append("PROPERTY " + p)
        if postcondition:
            cfg.append("POSTCONDITION " + postcondition)
        cfg.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
        with open(os.path.join(d, "run.cfg"), "w") as fh:
            fh.write("\n".join(cfg) + "\n")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
               "-Djava.io.tmpdir=" + d,
               "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
               "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
               "-config", "run.cfg", "-noGenerateSpecTE"]
        cmd += ["-seed", str(seed if seed is not None else self.seed)]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate]
            if depth:
                cmd += ["-depth", str(depth)]
        cmd += [module + ".tla"]
        outp = os.path.join(d, "out.txt")
        with open(outp, "w") as fh:
            try:
                p = subprocess.run(cmd, cwd=d, stdout=fh, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise CheckError("TLC timed out on %s" % (label or module))
        r = TlcResult()
        r.rc = p.returncode
        rest = []
        with open(outp) as fh:
            for line in fh:
                if line.startswith('"{') or line.startswith('"['):
                    try:
                        r.lines.append(json.loads(json.loads(line)))
                        continue
                    except ValueError:
                        pass
                rest.append(line)
        r.output = "".join(rest)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.output)
        if m:
            r.generated, r.distinct = int(m[-1][0]), int(m[-1][1])
        else:
            m = re.findall(r"The number of states generated: (\d+)", r.output)
            if m:
                r.generated = r.distinct = int(m[-1])
        m = re.findall(r"depth of the complete state graph search is (\d+)", r.output)
        if m:
            r.depth = int(m[-1])
        m = re.search(r"Invariant (\S+) is violated|Postcondition (\S+)|Temporal properties were violated|property (\S+) is violated", r.output)
        if m:
            r.violated = m.group(1) or m.group(2) or m.group(3) or "temporal"
        if p.returncode != 0 and not r.violated:
            raise CheckError("TLC failed on %s (rc %d):\n%s" % (label or module, p.returncode, r.output[-4000:]))
        if count:
            self.states += r.distinct
            self.transitions += r.generated
        self.log("TLC %s: %d states, %d generated, %d lines%s" % (
            label or module, r.distinct, r.generated, len(r.lines),
            (", violated " + r.violated) if r.violated else ""))
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(d, ignore_errors=True)
        return r

    def model_ok(self, r):
        if r.violated:
            raise CheckError("the specification itself violates %s:\n%s" % (r.violated, r.output[-4000:]))
        return r

    # ------------------------------------------------------------- drivers
    def build(self, name, race=False, test=False):
        key = (name, race)
        if key in self._bins:
            return self._bins[key]
        d = self.newdir("build-" + name)
        repl = {}
        for pkg in ("hlib", "rb", "cells", "vt", name):
            src = os.path.join(HARNESS, pkg)
            if not os.path.isdir(src):
                continue
            for f in sorted(os.listdir(src)):
                if f.endswith(".go"):
                    repl["%s/zzverif/%s/%s" % (REPO, pkg, f)] = os.path.join(src, f)
        with open(os.path.join(d, "overlay.json"), "w") as fh:
            json.dump({"Replace": repl}, fh)
        for f in ("go.mod", "go.sum"):
            shutil.copy(os.path.join(REPO, f), os.path.join(d, f))
        binp = os.path.join(d, name)
        cmd = ["go", "build", "-overlay", os.path.join(d, "overlay.json"),
               "-modfile", os.path.join(d, "go.mod")]
        if race:
            cmd.append("-race")
        cmd += ["-o", binp, "./zzverif/" + name]
        p = subprocess.run(cmd, cwd=REPO, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise CheckError("building driver %s failed:\n%s" % (name, p.stdout.decode()[-4000:]))
        self._bins[key] = binp
        self.log("built driver %s%s" % (name, " (race)" if race else ""))
        return binp

    def build_command(self):
        """The repository's own binary."""
        d = self.newdir("build-command")
        for f in ("go.mod", "go.sum"):
            shutil.copy(os.path.join(REPO, f), os.path.join(d, f))
        binp = os.path.join(d, "pq")
        p = subprocess.run(["go", "build", "-modfile", os.path.join(d, "go.mod"), "-o", binp, "."],
                           cwd=REPO, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise CheckError("building the command failed:\n%s" % p.stdout.decode()[-4000:])
        return binp

    def _run_driver(self, binp, mode, tests, args, timeout, env, per_test):
        d = self.newdir("run")
        inp, outp = os.path.join(d, "in"), os.path.join(d, "out")
        with open(inp, "w") as fh:
            for t in tests:
                fh.write(json.dumps(t, separators=(",", ":")) + "\n")
        e = goenv()
        e["VERIF_SEED"] = str(self.seed)
        e["VERIF_TEST_TIMEOUT"] = str(per_test)
        e["GOTRACEBACK"] = "all"
        e["TMPDIR"] = d
        e["HOME"] = d
        e["VERIF_SCRATCH"] = d
        e.update(env or {})
        with open(os.path.join(d, "err"), "w") as eh:
            try:
                p = subprocess.Popen([binp, mode, inp, outp] + [str(a) for a in args],
                                     cwd=d, env=e, stdout=eh, stderr=subprocess.STDOUT,
                                     stdin=subprocess.DEVNULL, start_new_session=True)
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                raise CheckError("driver %s %s did not end within %ds" % (os.path.basename(binp), mode, timeout))
        outs = []
        if os.path.exists(outp):
            with open(outp) as fh:
                for line in fh:
                    if not line.endswith("\n"):
                        break
                    outs.append(json.loads(line))
        with open(os.path.join(d, "err")) as fh:
            err = fh.read()
        shutil.rmtree(d, ignore_errors=True)
        return rc, outs, err

    def drive(self, name, mode, tests, args=(), race=False, timeout=500, env=None,
              per_test=20, shards=None):
        """Run every test in the driver; returns a list of outputs aligned with
        tests.  An output is {"out": ...}, or {"crash": text} / {"hang": text}
        when the real code crashed or did not return."""
        binp = self.build(name, race)
        n = len(tests)
        if n == 0:
            return []
        if shards is None:
            shards = 1 if n < 64 else min(NCPU, 8)
        chunks = [list(range(k, n, shards)) for k in range(shards)]
        res = [None] * n

        def work(idx):
            pending = list(idx)
            crashes = 0
            while pending:
                rc, outs, err = self._run_driver(binp, mode, [tests[i] for i in pending], args, timeout, env, per_test)
                for o in outs:
                    res[pending[o["i"]]] = o
                left = [i for i in pending if res[i] is None]
                if rc == 0 and not left:
                    return
                if rc == 0:
                    raise CheckError("driver %s %s lost tests:\n%s" % (name, mode, err[-2000:]))
                if rc == 3:     # watchdog: the last reported test hung
                    if not left:
                        return
                elif left:
                    # the process died: the first unreported test is to blame
                    if not re.search(r"panic:|fatal error:|SIGSEGV|DATA RACE|signal: killed", err) and rc > 0:
                        raise CheckError("driver %s %s failed (rc %s):\n%s" % (name, mode, rc, err[-3000:]))
                    if rc == -9:
                        raise CheckError("driver %s %s was killed (memory?)" % (name, mode))
                    res[left[0]] = {"crash": "process died (rc %s): %s" % (rc, err[-6000:])}
                    left = left[1:]
                else:
                    if "DATA RACE" in err:
                        res[pending[-1]] = {"crash": err[-6000:]}
                        return
                    raise CheckError("driver %s %s failed at exit (rc %s):\n%s" % (name, mode, rc, err[-3000:]))
                crashes += 1
                pending = left
                if crashes >= 5:
                    for i in pending:
                        res[i] = {"skipped": True}
                    return

        with concurrent.futures.ThreadPoolExecutor(max_workers=shards) as ex:
            for f in [ex.submit(work, c) for c in chunks if c]:
                f.result()
        self.evals += n
        return res

    # ---------------------------------------------------------- comparison
    def compare(self, name, mode, tests, exps, describe, args=(), race=False, eq=None, env=None,
                timeout=500, per_test=20, limit=3, confirm=True, shards=None):
        """Replay specification behaviours into the real code.  tests[i] is the
        driver's input, exps[i] what the specification says it must answer."""
        outs = self.drive(name, mode, tests, args=args, race=race, env=env, timeout=timeout, per_test=per_test, shards=shards)
        bad = []
        for i, o in enumerate(outs):
            if o.get("skipped"):
                continue
            if "out" in o:
                ok = eq(exps[i], o["out"]) if eq else exps[i] == o["out"]
                if ok:
                    continue
            bad.append(i)
        self.traces += len(tests) - len(bad)
        for i in bad[:limit]:
            o = outs[i]
            if confirm and not race:
                # confirm in a process of its own, with more time
                o2 = self.drive(name, mode, [tests[i]], args=args, env=env, timeout=timeout,
                                per_test=per_test * 3, shards=1)[0]
                if "out" in o2 and (eq(exps[i], o2["out"]) if eq else exps[i] == o2["out"]):
                    if "hang" in o:
                        self.log("test timed out once under load but passes alone, ignoring")
                        continue
                    # depends on what ran before in the same process
                    self.log("note: test fails only after others in the same process")
                else:
                    o = o2
            self.violation(describe(tests[i], exps[i], o),
                           dict(driver=name, mode=mode, args=list(args), race=race, test=tests[i],
                                expected=exps[i], observed=o))
        if len(bad) > limit:
            self.log("%d more tests disagree" % (len(bad) - limit))
        return outs

    # ------------------------------------------------------ record checking
    def check_records(self, module, records, describe, constants=None, chunk=None, limit=3,
                      timeout=800, label=None, heap="3g", extra=None, files=None, replay=None):
        """Check records of the real code against the specification: the module
        reads recs.ndjson, and prints {"bad": i} for each record it rejects."""
        if not records:
            return
        n = len(records)
        if chunk is None:
            chunk = max(50, -(-n // NCPU))
        parts = [(k, records[k:k + chunk]) for k in range(0, n, chunk)]
        bad = []

        def work(part):
            base, recs = part
            fs = {"recs.ndjson": "".join(json.dumps(x, separators=(",", ":")) + "\n" for x in recs)}
            fs.update(files or {})
            r = self.tlc(module, constants=constants, files=fs, timeout=timeout,
                         label=(label or module) + "-%d" % base, heap=heap)
            if r.violated:
                raise CheckError("%s: unexpected violation %s\n%s" % (module, r.violated, r.output[-3000:]))
            done = [x for x in r.lines if isinstance(x, dict) and "done" in x]
            if not done or done[0]["done"] != len(recs):
                raise CheckError("%s did not check every record:\n%s" % (module, r.output[-3000:]))
            return [(base + x["bad"] - 1, x) for x in r.lines if isinstance(x, dict) and "bad" in x]

        with concurrent.futures.ThreadPoolExecutor(max_workers=NCPU) as ex:
            for res in ex.map(work, parts):
                bad += res
        self.traces += n - len(bad)
        for i, x in sorted(bad, key=lambda b: b[0])[:limit]:
            rep = dict(module=module, constants=constants, record=records[i], verdict=x)
            if replay:
                rep.update(replay(records[i]))
            self.violation(describe(records[i], x), rep)
        return bad

    # -------------------------------------------------------------- verdict
    def violation(self, what, replay):
        key = what if isinstance(what, str) else json.dumps(what)
        for k in self.known:
            if k.get("match") and re.search(k["match"], key, re.S):
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]), flush=True)
                return
        rdir = os.path.join(VERIF, "replays", self.pid)
        os.makedirs(rdir, exist_ok=True)
        body = dict(property=self.pid, what=what, seed=self.seed, tier=self.tier)
        body.update(replay)
        text = json.dumps(body, indent=1, default=str)
        path = os.path.join(rdir, hashlib.sha1(text.encode()).hexdigest()[:12] + ".json")
        with open(path, "w") as fh:
            fh.write(text)
        self.violations.append((what, path))
        self.log("mismatch: " + key[:1500])
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)

    def evidence(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "evaluations": self.evals, "samples": self.samples or ["none"],
               "actions_exercised": self.ops}
        cov.update(self.notes)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)

    def cleanup(self):
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)


def load_known(pid):
    p = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        return [k for k in json.load(fh)["findings"] if k.get("property") == pid and k.get("status") == "open"]


REGISTRY = {}


def check(pid, assumptions=()):
    def deco(f):
        REGISTRY[pid] = (f, list(assumptions))
        return f
    return deco


def run(pid, argv=()):
    c = Check(pid)
    f, assumptions = REGISTRY[pid]
    c.assumptions = assumptions
    try:
        f(c)
        c.evidence()
    except CheckError as e:
        if c.violations:
            # the real code has already been caught red-handed
            c.log("stopped early: %s" % e)
            c.evidence()
            return 1
        print("ERROR property=%s %s" % (pid, e), flush=True)
        c.evidence()
        return 2
    finally:
        c.cleanup()
    c.log("done: %d states, %d transitions, %d validated, %d violations" % (
        c.states, c.transitions, c.traces, len(c.violations)))
    return 1 if c.violations else 0
