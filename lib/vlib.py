"""Shared machinery of the /verif checks: TLC runs, trace validation, evidence, verdicts."""
import contextlib, io, json, os, re, shutil, subprocess, sys, tempfile, time, traceback, random, logging, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = os.path.join(VERIF, "tla")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NAN = 2000000001        # integer that stands for a NaN in a trace
BIG = 2000000002        # integer that stands for an infinite or out-of-range number
FRAC = 2000000003       # integer that stands for a number off the expected integer grid


class MachineryError(Exception):
    pass


def quiet():
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")


class TLCResult:
    def __init__(self):
        self.generated = self.distinct = 0
        self.out = ""
        self.rc = None
        self.prints = []
        self.json = []
        self.violated = None


_INT = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")
_SIM = re.compile(r"The number of states generated: ([\d,]+)")


def tlc(module, cfg=None, env=None, workers=8, args=(), timeout=600, constants=None, cfgtext=None, seed=1,
        heap="6g"):
    """Run TLC on tla/<module>.tla. cfgtext overrides the cfg file."""
    work = tempfile.mkdtemp(prefix="vtlc.")
    try:
        for f in os.listdir(TLA):
            if f.endswith(".tla"):
                os.symlink(os.path.join(TLA, f), os.path.join(work, f))
        cfgpath = os.path.join(work, "run.cfg")
        if cfgtext is None:
            cfgtext = open(os.path.join(TLA, cfg or module + ".cfg")).read()
        with open(cfgpath, "w") as f:
            f.write(cfgtext)
            for k, v in (constants or {}).items():
                f.write(f"\nCONSTANT {k} = {v}\n")
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["timeout", "-k", "5", str(timeout), "java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m",
               f"-Djava.io.tmpdir={work}",
               "-cp", JARS, "tlc2.TLC", "-config", "run.cfg", "-metadir", os.path.join(work, "states"),
               "-workers", str(workers), "-deadlock", "-seed", str(seed)] + list(args) + [module + ".tla"]
        p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        r = TLCResult()
        r.out, r.rc = p.stdout, p.returncode
        m = None
        for m in _INT.finditer(r.out):
            pass
        if m:
            r.generated, r.distinct = (int(x.replace(",", "")) for x in m.groups())
        else:
            for m in _SIM.finditer(r.out):
                r.generated = r.distinct = int(m.group(1).replace(",", ""))
        for line in r.out.splitlines():
            if line.startswith('"@@') and line.endswith('"'):
                r.json.append(json.loads(json.loads(line)[2:]))
            elif line.startswith("<<"):
                r.prints.append(line)
        mv = re.search(r"Invariant (\S+) is violated|property (\S+) (?:is|was) violated|"
                       r"Temporal properties were violated|Action property (.*) is violated", r.out)
        if mv:
            r.violated = mv.group(0)
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)


def tail(s, n=40):
    first = s.find("Error:")
    head = s[first:first + 1500] + "\n...\n" if first >= 0 else ""
    return head + "\n".join([x for x in s.splitlines() if not x.startswith(("Parsing file", "Semantic processing", "\"@@"))][-n:])


def enc(x, scale=1, tol=1e-4):
    """Encode a float (array) as integers on the grid 1/scale; off-grid values become FRAC."""
    import numpy as np
    a = np.asarray(x, dtype=float)
    out = np.full(a.shape, FRAC, dtype=np.int64)
    nan = np.isnan(a)
    out[nan] = NAN
    fin = np.isfinite(a)
    out[~fin & ~nan] = BIG
    s = np.where(fin, a * scale, 0)
    r = np.rint(s)
    ok = fin & (np.abs(s - r) <= tol * np.maximum(1, np.abs(r) * 1e-3))
    big = fin & (np.abs(r) >= 2e9)
    out[ok & ~big] = r[ok & ~big].astype(np.int64)
    out[big] = BIG
    return out.tolist()


def rnd(x, scale=1):
    """Encode a float (array) as the nearest integer on the grid 1/scale."""
    import numpy as np
    a = np.asarray(x, dtype=float) * scale
    out = np.full(a.shape, BIG, dtype=np.int64)
    nan = np.isnan(a)
    out[nan] = NAN
    fin = np.isfinite(a) & (np.abs(a) < 2e9)
    out[fin] = np.rint(a[fin]).astype(np.int64)
    return out.tolist()


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(f"{pid}-{self.seed}")
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.model_runs = []
        self.samples = []
        self.violations = []
        self.evaluations = 0
        self.extra = {}
        self.assumptions = []
        self.known = load_known(pid)
        self.known_hit = []
        self.max_viol = 5

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, q, t):
        return t if self.thorough else q

    def nprng(self, salt=""):
        import numpy as np
        import zlib
        return np.random.default_rng(zlib.crc32(f"{self.pid}{self.seed}{salt}".encode()))

    # --- the specification itself -------------------------------------------------
    def model(self, module, cfg=None, expect_ok=True, want_json=False, **kw):
        """Check the specification; with want_json return the behaviours it prints."""
        r = tlc(module, cfg, **kw)
        ok = ("Model checking completed. No error has been found." in r.out
              or ("Finished in" in r.out and "Error:" not in r.out))
        if expect_ok and not ok:
            raise MachineryError(f"TLC on {module}/{cfg}: rc={r.rc}\n{tail(r.out)}")
        r.json.sort(key=lambda x: json.dumps(x, sort_keys=True))     # independent of the workers' timing
        self.states += r.distinct
        self.transitions += r.generated
        self.model_runs.append({"module": module, "config": cfg or (module + ".cfg"), "distinct_states": r.distinct,
                                "states_generated": r.generated, "behaviours": len(r.json)})
        return r

    # --- conformance: recorded executions against the specification ---------------
    def validate(self, module, events, cfg="Trace.cfg", label="", env=None, timeout=700, chunk=None, workers=8, only=None,
                 known=None):
        """events: list of dicts, each one recorded step. Every failing clause becomes a violation."""
        if not events:
            return []
        fd, path = tempfile.mkstemp(prefix="vtrace.", suffix=".ndjson")
        try:
            with os.fdopen(fd, "w") as f:
                for ev in events:
                    f.write(json.dumps(ev, separators=(",", ":")) + "\n")
            n = len(events)
            chunk = chunk or max(1, -(-n // 16))
            e = {"TRACE": path, "CHUNK": chunk}
            e.update(env or {})
            r = tlc(module, cfg, env=e, workers=workers, timeout=timeout)
        finally:
            os.unlink(path)
        nchunks = -(-n // chunk)
        bad = [(int(m.group(1)) - 1, sorted(re.findall(r'"([^"]+)"', m.group(2)))) for m in
                         re.finditer(r'<< ?"FAIL", (\d+), \{([^}]*)\} ?>>', re.sub(r"\s+", " ", r.out))]
        whole = "No error has been found" in r.out and r.distinct == n + nchunks
        if only is not None:
            bad = [(i, [x for x in cl if x in only]) for i, cl in bad]
            bad = [(i, cl) for i, cl in bad if cl]
        if not whole and only is None and "Overflow" in r.out:
            # a result that is no number where the specification computes with one: no step of it
            at = re.findall(r"/\\ l = (\d+)\n", r.out)
            if at and re.search(r"\b200000000[123]\b", json.dumps(events[int(at[-1]) - 1])):
                bad.append((int(at[-1]) - 1, ["no number"]))
        if not whole and not bad:
            raise MachineryError(f"trace validation with {module} did not finish: rc={r.rc} "
                                 f"distinct={r.distinct} expected={n + nchunks}\n{tail(r.out, 60)}")
        self.transitions += n
        self.states += r.distinct
        self.traces += n
        self.evaluations += n
        for i, clauses in sorted({i: cl for i, cl in bad}.items()):
            # known: clause -> key of a listed finding; a step that breaks nothing else is that finding again
            key = None
            if known and clauses and all(x in known for x in clauses):
                for x in clauses[1:]:
                    self.violation(label, {"clauses": clauses, "event": events[i], "module": module}, key=known[x])
                key = known[clauses[0]]
            self.violation(f"{label or module}:{','.join(clauses)}", {"clauses": clauses, "event": events[i],
                                                                   "module": module}, key=key)
        if not whole and not self.violations:
            raise MachineryError(f"trace validation with {module} did not finish: rc={r.rc}\n{tail(r.out, 60)}")
        if len(self.samples) < 4:
            s = json.dumps(events[len(events) // 2])
            self.samples.append(json.loads(s) if len(s) < 3000 else s[:3000])
        return bad

    # --- verdicts -----------------------------------------------------------------
    def violation(self, what, replay, key=None):
        for k in self.known:
            if key is not None and k["key"] == key:
                if key not in self.known_hit:
                    self.known_hit.append(key)
                    print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
                return
        self.violations.append((what, replay))

    def sample(self, obj):
        if len(self.samples) < 6:
            self.samples.append(obj)

    def finish(self):
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(self.pid + "-"):
                os.unlink(os.path.join(rdir, f))
        for i, (what, rep) in enumerate(self.violations[: self.max_viol]):
            p = os.path.join(rdir, f"{self.pid}-{i}.json")
            with open(p, "w") as f:
                json.dump({"property": self.pid, "what": what, "replay": rep, "seed": self.seed,
                           "tier": self.tier}, f, indent=1, default=str)
            print(f"# {what}")
            print(f"VIOLATION property={self.pid} replay={p}")
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "evaluations": self.evaluations, "model_runs": self.model_runs, "samples": self.samples or ["-"]}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", f".{self.pid}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, "evidence", f"{self.pid}.json"))
        print(f"{self.pid}: {'VIOLATED' if self.violations else 'held'} "
              f"[{self.tier}] states={self.states} transitions={self.transitions} traces={self.traces} "
              f"violations={len(self.violations)} {time.time() - self.t0:.1f}s")
        return 1 if self.violations else 0


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == pid]


def call(fn, *a, **k):
    """Run code under test; returns (result, None) or (None, 'ErrorName: msg')."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with contextlib.redirect_stdout(io.StringIO()):
                return fn(*a, **k), None
    except Exception as ex:  # noqa: BLE001
        return None, f"{type(ex).__name__}: {ex}"[:300]


def spare(kw, terse=True, **defaults):
    """kw without what equals the documented default (if terse)."""
    return {k: v for k, v in kw.items() if not (terse and k in defaults and type(v) is type(defaults[k]) and v == defaults[k])}


def _listed(r):
    return [r] if isinstance(r, dict) else list(r)


def _job(a):
    fn, seed, n = a
    import numpy as np
    quiet()
    rng = np.random.default_rng(seed)
    return [e for _ in range(n) for e in _listed(fn(rng))]


def spread(c, fn, n, salt, jobs=8):
    """The events of n cases, fn(rng) giving the events of one, made by several processes."""
    import multiprocessing as mp
    per = 5
    seeds = [int(x) for x in c.nprng(salt).integers(0, 2**62, -(-n // per))]
    with mp.get_context("fork").Pool(jobs) as pool:
        return [e for part in pool.map(_job, [(fn, s, per) for s in seeds], chunksize=1) for e in part]


def _one(a):
    quiet()
    fn, x = a
    return _listed(fn(x))


def each(fn, items, jobs=8):
    """The events fn(x) gives for every x of a list, made by several processes."""
    import multiprocessing as mp
    with mp.get_context("fork").Pool(jobs) as pool:
        return [e for part in pool.map(_one, [(fn, x) for x in items], chunksize=8) for e in part]


def main(pid, run):
    quiet()
    c = Check(pid)
    try:
        run(c)
        rc = c.finish()
    except MachineryError as e:
        print(f"MACHINERY ERROR in {pid}: {e}")
        # a violation already established on the real code stands
        rc = c.finish() if c.violations else 3
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        rc = c.finish() if c.violations else 3
    sys.stdout.flush()
    os._exit(rc)
