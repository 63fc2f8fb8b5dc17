"""Infrastructure shared by all checks: scratch space, worker processes, TLC, verdicts, evidence."""
import atexit, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HV_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
PY = "/opt/venv/bin/python"
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = max(1, min(8, os.cpu_count() or 1))
TIER = os.environ.get("VERIF_TIER", "quick")
TIER = TIER if TIER in ("quick", "thorough") else "quick"
THOROUGH = TIER == "thorough"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1


class CheckFailure(Exception):
    """the machinery itself failed: no verdict"""


def scratch_base():
    for d in ("/dev/shm", tempfile.gettempdir()):
        try:
            if os.path.isdir(d) and os.access(d, os.W_OK) and shutil.disk_usage(d).free > 2 << 30:
                return d
        except OSError:
            pass
    return tempfile.gettempdir()


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="hv-", dir=scratch_base())
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


# --------------------------------------------------------------------------- TLC
TLC_STATES = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)


def tlc(module, cfg, env=None, workers=1, timeout=800, extra=(), heap="2g"):
    """runs TLC, returns (returncode, output, seconds)"""
    md = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    tmp = tempfile.mkdtemp(prefix="jt-", dir=scratch())
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + heap,
           "-Djava.io.tmpdir=" + tmp, "-cp", TLA_CP,
           "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", cfg, *extra, module]
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckFailure("TLC timed out on %s %s" % (module, cfg))
    finally:
        shutil.rmtree(md, True)
        shutil.rmtree(tmp, True)
    return p.returncode, p.stdout.decode("utf8", "replace"), time.time() - t


def model_check(module, cfg, **kw):
    """exhaustive check of a specification; a failure here is a failure of the machinery"""
    rc, out, secs = tlc(module, cfg, **kw)
    m = TLC_STATES.findall(out)
    if rc != 0 or not m:
        sys.stderr.write(out[-4000:])
        raise CheckFailure("model checking %s %s failed (exit %d)" % (module, cfg, rc))
    gen, dist = map(int, m[-1])
    return dict(states=dist, transitions=gen, seconds=secs, out=out)


def refuted(module, cfg, **kw):
    """a deliberately wrong variant of a specification has to be refuted by TLC"""
    rc, out, secs = tlc(module, cfg, **kw)
    if rc not in (12, 13):
        sys.stderr.write(out[-3000:])
        raise CheckFailure("%s %s: violation expected (exit %d)" % (module, cfg, rc))


def simulate(module, cfg, num, depth, seed, **kw):
    """random behaviours of a specification"""
    rc, out, secs = tlc(module, cfg, extra=("-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)), **kw)
    if rc != 0:
        sys.stderr.write(out[-4000:])
        raise CheckFailure("simulation of %s %s failed (exit %d)" % (module, cfg, rc))
    return dict(out=out, seconds=secs)


def emitted(out, tag="EMIT "):
    """JSON documents a specification printed"""
    res = []
    for line in out.splitlines():
        if line.startswith('"' + tag):
            res.append(json.loads(json.loads(line)[len(tag):]))
    return res


BAD = re.compile(r'<<\s*"BAD",\s*(\d+),\s*(.*?)\s*>>\s*$', re.S)


def judge(module, cfg, records, env=None, shard=1500, timeout=800):
    """lets TLC judge recorded executions; returns [(record index, clauses)] and statistics"""
    shards = []
    d = tempfile.mkdtemp(prefix="log-", dir=scratch())
    # balance by size so that no shard dominates
    blobs = [json.dumps(r, separators=(",", ":")) for r in records]
    n = max(1, min(CORES, (len(records) + shard - 1) // shard or 1))
    total = sum(map(len, blobs))
    if total > 400000:
        n = max(n, min(CORES, total // 400000 + 1))
    groups = [[] for _ in range(n)]
    load = [0] * n
    for ix in sorted(range(len(blobs)), key=lambda q: -len(blobs[q])):
        g = load.index(min(load))
        groups[g].append(ix)
        load[g] += len(blobs[ix]) + 200
    jobs = []
    for g, ids in enumerate(groups):
        if not ids:
            continue
        ids.sort()
        path = os.path.join(d, "log%d.ndjson" % g)
        with open(path, "w") as f:
            f.write("".join(blobs[ix] + "\n" for ix in ids))
        jobs.append((path, ids))

    def run(job):
        path, ids = job
        rc, out, secs = tlc(module, cfg, env=dict(env or {}, HV_LOG=path), timeout=timeout, heap="3g")
        m = re.search(r'<<"JUDGED", (\d+), (\d+)>>', out)
        if rc != 0 or not m or int(m.group(1)) != len(ids):
            sys.stderr.write(out[-3000:])
            raise CheckFailure("judging with %s failed (exit %d)" % (module, rc))
        bad = []
        for b in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*(\{.*?\})\s*>>', out, re.S):
            bad.append((ids[int(b.group(1)) - 1], sorted(re.findall(r'"([^"]*)"', b.group(2)))))
        if len(bad) != int(m.group(2)):
            sys.stderr.write(out[-3000:])
            raise CheckFailure("verdicts of %s not understood" % module)
        st = TLC_STATES.findall(out)
        return bad, (int(st[-1][1]) if st else 0)
    bad, states = [], 0
    with cf.ThreadPoolExecutor(max_workers=CORES) as ex:
        for b, s in ex.map(run, jobs):
            bad += b
            states += s
    shutil.rmtree(d, True)
    return sorted(bad), dict(judge_states=states)


# --------------------------------------------------------------------------- workers
def worker_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    e.update(PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", HV_REPO=REPO,
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", HDF5_USE_FILE_LOCKING="FALSE",
             XDG_CONFIG_HOME="/nonexistent", HOME=scratch(), MPLBACKEND="agg")
    e.pop("HDF5_USE_FILE_LOCKING")
    return e


def run_jobs(module, jobs, nproc=None, timeout=60, extra_env=None, total=700):
    """executes jobs (JSON documents) by worker processes `python -m module IN OUT SCRATCH`.
    Every job yields one record; jobs whose worker died or hung yield {"out": "crash"/"timeout"}."""
    nproc = nproc or CORES
    chunks = [list(range(k, len(jobs), nproc)) for k in range(nproc)]
    chunks = [c for c in chunks if c]
    results = [None] * len(jobs)
    deadline = time.time() + total

    def run(ids):
        todo = list(ids)
        while todo:
            d = tempfile.mkdtemp(prefix="w-", dir=scratch())
            fin, fout, work = os.path.join(d, "in"), os.path.join(d, "out"), os.path.join(d, "scratch")
            os.mkdir(work)
            with open(fin, "w") as f:
                for ix in todo:
                    f.write(json.dumps(jobs[ix]) + "\n")
            open(fout, "w").close()
            env = worker_env()
            env.update(extra_env or {})
            env["TMPDIR"] = work
            with open(os.path.join(d, "err"), "w") as err:
                p = subprocess.Popen([PY, "-m", module, fin, fout, work], cwd=work, env=env, stdout=err, stderr=err, stdin=subprocess.DEVNULL)
                last, lastn, killed = time.time(), 0, False
                while True:
                    try:
                        p.wait(0.1 if timeout > 5 else 0.02)
                        break
                    except subprocess.TimeoutExpired:
                        n = os.path.getsize(fout)
                        now = time.time()
                        if n != lastn:
                            last, lastn = now, n
                        if now - last > timeout or now > deadline:
                            killed = True
                            p.kill()
                            p.wait()
                            break
            done = []
            with open(fout) as f:
                for line in f:
                    if line.endswith("\n"):
                        done.append(json.loads(line))
            for ix, r in zip(todo, done):
                results[ix] = r
            err_text = open(os.path.join(d, "err"), errors="replace").read()[-3000:]
            shutil.rmtree(d, True)
            if time.time() > deadline and len(done) < len(todo):
                raise CheckFailure("worker %s: time budget used up" % module)
            if len(done) == 0 and p.returncode == 97:
                sys.stderr.write(err_text)
                raise CheckFailure("worker %s could not start" % module)
            if len(done) < len(todo):
                results[todo[len(done)]] = dict(out="timeout" if killed else "crash", rc=p.returncode, err=err_text[-600:])
                done.append(None)
            todo = todo[len(done):]

    with cf.ThreadPoolExecutor(max_workers=nproc) as ex:
        list(ex.map(run, chunks))
    return results


# --------------------------------------------------------------------------- verdicts
FINDINGS = os.path.join(VERIF, "known-findings.txt")


def known_findings(pid):
    """lines `finding: property=<id> key=<regex on case name> <what fails>`"""
    res = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", line.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


class Report:
    def __init__(self, pid, level, technique=""):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.violations = []      # (case name, clauses, replay document)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.extra = {}
        self.assumptions = []

    def model(self, mc, name):
        self.cov["states"] += mc["states"]
        self.cov["transitions"] += mc["transitions"]
        self.extra.setdefault("models", {})[name] = dict(states=mc["states"], transitions=mc["transitions"])

    def judged(self, n, stats=None, name="executions"):
        self.cov["traces_validated_against_impl"] += n
        self.extra[name] = self.extra.get(name, 0) + n
        if stats:
            js = stats.get("judge_states", 0)      # states of the trace specification
            self.extra["judge_states"] = self.extra.get("judge_states", 0) + js
            self.cov["states"] += js
            self.cov["transitions"] += max(0, js - 1)

    def sample(self, *docs):
        self.cov["samples"] += [d for d in docs][:5]

    def violation(self, case, clauses, doc):
        self.violations.append((case, clauses, doc))

    def finish(self):
        known = known_findings(self.pid)
        new, seen = [], set()
        for case, clauses, doc in self.violations:
            key = "%s:%s" % (case, "+".join(clauses))
            for pat, what in known:
                if re.fullmatch(pat, key):
                    seen.add((pat, what))
                    break
            else:
                new.append((case, clauses, doc))
        for pat, what in known:
            if (pat, what) in seen:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level,
                  coverage=dict(self.cov, samples=self.cov["samples"][:8], detail=self.extra),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        rdir = os.path.join(VERIF, "replays")
        if new:
            os.makedirs(rdir, exist_ok=True)
            for case, clauses, doc in new[:20]:
                name = "%s-%s.json" % (self.pid, hashlib.sha1(json.dumps([case, doc], sort_keys=True, default=str).encode()).hexdigest()[:10])
                path = os.path.join(rdir, name)
                with open(path, "w") as f:
                    json.dump(dict(property=self.pid, case=case, clauses=clauses, job=doc, seed=SEED), f, indent=1, default=str)
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
                print("  case %s: %s" % (case, ", ".join(clauses)))
            ev["violation_cases"] = [dict(case=c, clauses=k) for c, k, _ in new[:50]]
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        print("%s: %s, %d executions judged, %d model states, %.1f s" % (
            self.pid, "%d violations" % len(new) if new else "held", self.cov["traces_validated_against_impl"], self.cov["states"], time.time() - self.t0))
        return 1 if new else 0
