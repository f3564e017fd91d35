"""Common machinery of the checks: building the harness from /repo, running TLC, running cases
against the code, reporting."""
import json, os, random, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_DEV_REPO", "/repo")  # the override is for trying planted bugs on scratch copies
OUT = os.environ.get("VERIF_DEV_OUT", VERIF)
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself cannot answer."""


def go_env():
    e = dict(os.environ)
    e.update(HOME=e.get("HOME", "/root"), GOFLAGS="-mod=mod", GOTOOLCHAIN="local", GOWORK="off",
             GOPROXY="off", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
             GOCACHE=e.get("GOCACHE", "/root/.cache/go-build"), GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_EXTRA="")
    return e


class Run:
    """One run of the check of one property."""

    def __init__(self, prop, level, title=""):
        self.prop, self.level = prop, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.rng = random.Random(self.seed * 1000003 + int(re.sub(r"\D", "", prop) or 0))
        self.dir = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), self.dir)
        self.states = self.transitions = self.traces = self.cases = self.nontrivial = self.distinct = 0
        self.violations = []      # (key, detail, replay data)
        self.known = []
        self.samples = []
        self.notes = {}
        self.lock = threading.Lock()
        self.built = {}
        self.exhaustive = []

    # ---- building -------------------------------------------------------
    def build(self, cmd, race=False, tags=""):
        """Builds harness/cmd/<cmd> against /repo's working tree; returns the binary."""
        key = cmd + ("-race" if race else "")
        with self.lock:
            if key in self.built:
                return self.built[key]
        # a private copy of go.mod and go.sum, so that nothing under /verif is written
        mod = os.path.join(self.dir, "go.mod")
        with self.lock:
            if not os.path.exists(mod):
                with open(mod, "w") as f:
                    f.write(open(os.path.join(HARNESS, "go.mod")).read().replace("=> /repo", "=> " + REPO))
                shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(self.dir, "go.sum"))
        out = os.path.join(self.dir, "bin-" + key)
        args = ["go", "build", "-buildvcs=false", "-modfile", mod, "-o", out]
        if race:
            args.append("-race")
        p = subprocess.run(args + ["./cmd/" + cmd], cwd=HARNESS, env=go_env(), capture_output=True, text=True, timeout=600)
        if p.returncode != 0:
            raise CheckError(f"building {cmd}: {p.stdout}{p.stderr}")
        with self.lock:
            self.built[key] = out
        return out

    def build_cli(self):
        out = os.path.join(self.dir, "cddlc")
        if os.path.exists(out):
            return out
        p = subprocess.run(["go", "build", "-buildvcs=false", "-o", out, "./cmd/cddlc"], cwd=REPO, env=go_env(),
                           capture_output=True, text=True, timeout=600)
        if p.returncode != 0:
            raise CheckError(f"building cddlc: {p.stdout}{p.stderr}")
        return out

    # ---- TLC -------------------------------------------------------------
    def tlc(self, module, consts=(), invariants=(), spec="Spec", name=None, workers=4, env=None, timeout=600,
            simulate=None, depth=None, view=None, constraint=None, action_constraint=None, heap="3g",
            postcondition=None, seed=None, extra=(), exhaustive=None, nocount=False, dfid=None, symmetry=None, props=()):
        """Runs TLC; returns the output file. Raises when TLC reports anything but success."""
        name = name or module
        wd = os.path.join(self.dir, "tlc-" + name)
        os.makedirs(wd, exist_ok=True)
        for f in os.listdir(self.dir):
            if f.endswith(".tla"):
                dst = os.path.join(wd, f)
                if not os.path.exists(dst):
                    os.symlink(os.path.join(self.dir, f), dst)
        cfg = [f"SPECIFICATION {spec}"]
        for c in consts:
            cfg.append(f"CONSTANT {c}")
        for i in invariants:
            cfg.append(f"INVARIANT {i}")
        for i in props:
            cfg.append(f"PROPERTY {i}")
        if view:
            cfg.append(f"VIEW {view}")
        if constraint:
            cfg.append(f"CONSTRAINT {constraint}")
        if action_constraint:
            cfg.append(f"ACTION_CONSTRAINT {action_constraint}")
        if postcondition:
            cfg.append(f"POSTCONDITION {postcondition}")
        cfg.append("CHECK_DEADLOCK FALSE")
        with open(os.path.join(wd, "m.cfg"), "w") as f:
            f.write("\n".join(cfg) + "\n")
        outp = os.path.join(wd, "out.txt")
        t0 = time.time()
        args = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={max(2, min(workers, 4))}",
                f"-Djava.io.tmpdir={wd}", "-cp", CP, "tlc2.TLC",
                "-workers", str(workers), "-metadir", os.path.join(wd, "meta"), "-noGenerateSpecTE", "-config", "m.cfg"]
        if simulate:
            args += ["-simulate", f"num={simulate}", "-depth", str(depth or 100), "-seed", str(seed if seed is not None else self.seed)]
        args += list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        with open(outp, "w") as f:
            try:
                p = subprocess.run(args, cwd=wd, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise CheckError(f"TLC {name} did not end within {timeout} s")
        tail = subprocess.run(["tail", "-n", "40", outp], capture_output=True, text=True).stdout
        ok = p.returncode == 0 and ("No error has been found" in tail or (simulate and "Error:" not in tail))
        if not ok:
            errs = subprocess.run(["grep", "-v", "-e", "^\"CASE", outp], capture_output=True, text=True).stdout
            raise CheckError(f"TLC {name} (exit {p.returncode}):\n{errs[-6000:]}")
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct", tail)
        if m and not nocount:
            with self.lock:
                g, d = (int(x.replace(",", "")) for x in m.groups())
                self.states += d
                self.transitions += g
                self.notes.setdefault("tlc", {})[name] = {"generated": g, "distinct": d, "s": round(time.time() - t0, 1)}
        elif simulate:
            m = re.findall(r"([\d,]+) states checked", subprocess.run(["grep", "states checked", outp], capture_output=True, text=True).stdout)
            m2 = re.search(r"states generated: ([\d,]+)", tail)
            g = int((m2.group(1) if m2 else (m[-1] if m else "0")).replace(",", ""))
            with self.lock:
                self.states += g
                self.transitions += g
                self.notes.setdefault("tlc", {})[name] = {"simulated_states": g, "s": round(time.time() - t0, 1)}
        if exhaustive:
            self.exhaustive.append(exhaustive)
        return outp

    # ---- running cases ---------------------------------------------------
    def harness(self, binary, args, stdin_paths, records=None, workers=8, timeout=850, env=None, count=True):
        """Feeds the case files to a harness binary; returns findings."""
        e = go_env()
        e["VH_WORKERS"] = str(workers)
        if env:
            e.update(env)
        if records:
            e["VH_RECORDS"] = records
        cat = subprocess.Popen(["cat"] + list(stdin_paths), stdout=subprocess.PIPE)
        p = subprocess.run([binary] + list(args), stdin=cat.stdout, capture_output=True, text=True, env=e, timeout=timeout)
        cat.stdout.close()
        cat.wait()
        if p.returncode != 0:
            raise CheckError(f"harness {args}: exit {p.returncode}: {p.stderr[-3000:]}")
        findings, summary = [], None
        for line in p.stdout.split("\n")[:-1]:
            d = json.loads(line)
            if "finding" in d:
                findings.append(d)
            elif "summary" in d:
                summary = d
        if summary is None:
            raise CheckError(f"harness {args}: no summary: {p.stderr[-2000:]}")
        s = summary["summary"]
        if count:
            with self.lock:
                self.cases += s["cases"]
                self.nontrivial += s["nontrivial"]
                self.distinct += s["distinct"]
                for x in summary.get("samples") or []:
                    if len(self.samples) < 6:
                        self.samples.append(x["case"])
        findings.sort(key=lambda d: d["idx"])
        return findings, s

    def take(self, findings, props, panics=True):
        """Turns findings about the given properties into violations."""
        n = 0
        for d in findings:
            p = d["finding"]["prop"]
            if p in props or (panics and p == "panic"):
                self.violation(d["finding"]["detail"], d)
                n += 1
        return n

    def violation(self, detail, data=None, key=None):
        with self.lock:
            self.violations.append((key, detail, data))

    def parallel(self, jobs, width=None):
        """Runs functions at the same time; returns their results in order."""
        res, err = [None] * len(jobs), []
        sem = threading.Semaphore(width or len(jobs) or 1)

        def work(i):
            with sem:
                try:
                    res[i] = jobs[i]()
                except BaseException as ex:  # noqa
                    err.append(ex)
        ths = [threading.Thread(target=work, args=(i,)) for i in range(len(jobs))]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        if err:
            raise err[0]
        return res

    def path(self, name):
        return os.path.join(self.dir, name)

    def write_cases(self, name, cases):
        p = self.path(name)
        with open(p, "w") as f:
            for c in cases:
                f.write(json.dumps(c) + "\n")
        return p

    # ---- ending ----------------------------------------------------------
    def finish(self, assumptions=(), rule="", extra=None):
        listed = load_known(self.prop)
        fresh, known = [], []
        for key, detail, data in self.violations:
            if key is not None and key in listed:
                known.append((key, detail))
            else:
                fresh.append((detail, data))
        for key, detail in sorted(set(known)):
            print(f"KNOWN-FINDING: property={self.prop} {key} {detail}")
        rdir = os.path.join(OUT, "replays")
        shutil.rmtree(os.path.join(rdir, self.prop), ignore_errors=True)
        for n, (detail, data) in enumerate(fresh[:5]):
            os.makedirs(os.path.join(rdir, self.prop), exist_ok=True)
            rp = os.path.join(rdir, self.prop, f"{n}.json")
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier, "detail": detail, "data": data}, f, indent=1)
            print(f"VIOLATION property={self.prop} replay={rp}")
            print("  " + detail.replace("\n", "\n  ")[:3000])
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "evaluations": self.cases, "distinct_nontrivial": self.distinct, "rule": rule,
               "samples": [json.dumps(s)[:1500] for s in self.samples] or ["none"]}
        cov.update(self.notes)
        if extra:
            cov.update(extra)
        if self.exhaustive:
            cov["exhaustive_spaces"] = self.exhaustive
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        with open(os.path.join(OUT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{self.prop} {self.tier} seed={self.seed}: {self.states} states, {self.cases} cases, {self.traces} traces, "
              f"{len(fresh)} violations, {ev['wall_s']} s")
        return 1 if fresh else 0

    def cleanup(self):
        if os.environ.get("VERIF_KEEP"):
            print("kept", self.dir)
            return
        shutil.rmtree(self.dir, ignore_errors=True)


def load_known(prop):
    """The keys of the findings listed as known for a property (fixed ones suppress nothing)."""
    keys = set()
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) key=(\S+)", line)
            if m and m.group(1) == prop:
                keys.add(m.group(2))
    except FileNotFoundError:
        pass
    return keys


def tlc_lines(path, prefix):
    """The strings TLC printed that start with prefix."""
    out = []
    with open(path) as f:
        for line in f:
            if line.startswith('"' + prefix):
                out.append(json.loads(line)[len(prefix):].strip())
    return out


def main(checks):
    if len(sys.argv) != 2 or sys.argv[1] not in checks:
        print("usage: check.py", "|".join(sorted(checks)))
        return 2
    prop = sys.argv[1]
    fn, level = checks[prop]
    run = Run(prop, level)
    try:
        return fn(run)
    except (CheckError, subprocess.TimeoutExpired) as e:
        print("CHECK ERROR:", e)
        # what the code was already seen to do wrong stays reported, whatever else could not be run
        listed = load_known(prop)
        if any(k is None or k not in listed for k, _, _ in run.violations):
            return run.finish(rule="this run ended early: " + str(e)[:200])
        return 2
    finally:
        run.cleanup()
