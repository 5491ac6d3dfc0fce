"""Monitor infrastructure shared by all checks: verdicts, evidence, replay files, worker pool,
and (for the Python model) exact encoders/decoders of the data the code under test exchanges."""
import faulthandler, json, math, multiprocessing as mp, multiprocessing.connection, os, random, resource, shutil, signal, sys, tempfile, threading, time, traceback, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PYPKG = os.path.join(REPO, "bittrue", "models", "python")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = min(8, os.cpu_count() or 1)
SCALE = float(os.environ.get("VERIF_SCALE", "1"))           # development only: scales the generated workload
FAIL_FAST = bool(os.environ.get("VERIF_FAIL_FAST"))

import fx


class Inconclusive(Exception):
    pass


class Stop(BaseException):
    """A worker that saw violations stops after a while (with VERIF_FAIL_FAST, at the first one)."""


class Mon:
    """Collects what a run observed.  One per worker; merged by the parent."""

    def __init__(self, prop, rng=None):
        self.prop = prop
        self.rng = rng
        self.evals = 0
        self.distinct = set()
        self.counts = {}
        self.samples = []
        self.viol = []
        self.first = None

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def seen(self, key):
        """Record one non-trivial case by a hashable key."""
        if len(self.distinct) < 400000:
            self.distinct.add(hash(key))

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def violation(self, what, **case):
        self.count("violations")
        if len(self.viol) < 5:
            self.viol.append({"what": what, "case": {k: _js(v) for k, v in case.items()}})
        self.first = self.first or time.time()
        if FAIL_FAST or (time.time() - self.first > 20 and threading.current_thread() is threading.main_thread()):
            raise Stop()

    def merge(self, o):
        self.evals += o.evals
        self.distinct |= o.distinct
        for k, v in o.counts.items():
            self.count(k, v)
        for s in o.samples:
            self.sample(s)
        self.viol += o.viol


def _js(v):
    if isinstance(v, (int, str, float, bool)) or v is None:
        return v
    if isinstance(v, (list, tuple)):
        return [_js(x) for x in v]
    if isinstance(v, dict):
        return {str(k): _js(x) for k, x in v.items()}
    return repr(v)


def raised_by_code(e):
    """Whether an exception that reached the harness came out of the code under test (and not of the harness)."""
    tb, last = e.__traceback__, None
    while tb:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        for base in (VERIF, REPO):
            if f.startswith(os.path.realpath(base) + os.sep):
                last = base
        tb = tb.tb_next
    return last == REPO


class NoReturn(Exception):
    """A call of the code under test used 100 s of processor time without returning."""


def _guard(m):
    """Turns a call that never returns, or that eats the memory, into an exception inside that call (the checks
    report exceptions raised by valid use).  Counts processor time, so that a slow machine does not matter."""
    state = {"seen": None, "ticks": 0}

    def tick(sig, frame):
        if _BEAT:
            _BEAT[0].value += 1
        now = (m.evals, len(m.distinct), sum(m.counts.values()))
        state["ticks"] = state["ticks"] + 1 if now == state["seen"] else 0
        state["seen"] = now
        if state["ticks"] >= 20:
            f = frame
            while f:
                if os.path.realpath(f.f_code.co_filename).startswith(os.path.realpath(REPO) + os.sep):
                    state["ticks"] = 0
                    raise NoReturn("no result after 100 s of processor time")
                f = f.f_back

    signal.signal(signal.SIGVTALRM, tick)
    signal.setitimer(signal.ITIMER_VIRTUAL, 5, 5)
    if m.prop in PYTHON_ONLY:
        soft, hard = resource.getrlimit(resource.RLIMIT_AS)
        lim = 3 << 30
        if hard != resource.RLIM_INFINITY:
            lim = min(lim, hard)
        resource.setrlimit(resource.RLIMIT_AS, (lim, hard))


PYTHON_ONLY = {f"C{i:02d}" for i in range(1, 13)}
_BEAT = []
_JOBS = []      # inherited by the forked workers, so that jobs may hold closures


def _work(k):
    fn, prop, sub, tier, n, extra, part, nparts = _JOBS[k]
    m = Mon(prop, random.Random(f"{prop}-{sub}"))
    m.part, m.nparts = part, nparts
    _guard(m)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(m, tier, n, **extra)
    except Stop:
        pass
    except Exception as e:
        if raised_by_code(e) or isinstance(e, NoReturn):
            try:
                m.violation(f"valid use raised {type(e).__name__} in the code under test", trace=traceback.format_exc()[-1500:])
            except Stop:
                pass
        else:
            m.crash = traceback.format_exc()
            return m
    m.crash = None
    return m


def _worker_main(k, conn, beat, dump):
    faulthandler.register(signal.SIGUSR1, file=open(dump, "w"), all_threads=True)
    _BEAT[:] = [beat]
    conn.send(_work(k))
    conn.close()


def _cpu(pid):
    try:
        w = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
        return (int(w[11]) + int(w[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return 0.0


def _run_workers(n):
    """Runs the jobs in forked workers and yields their monitors.  A worker that is stuck inside one C call of the
    code under test (its signal handlers do not run any more) is ended and reported as a violation."""
    ctx = mp.get_context("fork")
    tmp = tempfile.mkdtemp(prefix="verif-w-")
    ws = {}
    bad = None
    try:
        for k in range(n):
            r, w = ctx.Pipe(False)
            beat = ctx.RawValue("d", 0.0)
            p = ctx.Process(target=_worker_main, args=(k, w, beat, os.path.join(tmp, str(k))), daemon=False)
            p.start()
            w.close()
            ws[r] = (p, beat, k, {})
        while ws:
            for r in mp.connection.wait(list(ws), timeout=5):
                p, beat, k, _ = ws.pop(r)
                try:
                    m = r.recv()
                except (EOFError, OSError):
                    p.join()
                    m = Mon(_JOBS[k][1])
                    m.crash = f"worker {k} ended with status {p.exitcode}"
                p.join()
                r.close()
                if m.viol and not bad:
                    bad = time.time()
                yield m
            if bad and time.time() - bad > 60:
                break                           # the verdict is clear: do not wait for the others
            for r, (p, beat, k, st) in list(ws.items()):
                cpu = _cpu(p.pid)
                if st.get("beat") != beat.value:
                    st["beat"], st["cpu"] = beat.value, cpu
                elif cpu - st["cpu"] > 120:
                    os.kill(p.pid, signal.SIGUSR1)
                    time.sleep(2)
                    stack = open(os.path.join(tmp, str(k))).read()
                    p.kill()
                    p.join()
                    del ws[r]
                    r.close()
                    m = Mon(_JOBS[k][1])
                    m.crash = None
                    if os.path.realpath(REPO) + os.sep in stack:
                        m.violation("valid use did not return within 120 s of processor time", stack=stack[:1500])
                    else:
                        m.crash = f"worker {k} stuck:\n{stack}"
                    if m.viol and not bad:
                        bad = time.time()
                    yield m
    finally:
        for p, *_ in ws.values():
            p.kill()
        shutil.rmtree(tmp, ignore_errors=True)


def run_pool(fn, prop, n_quick, n_thorough, extra=None, nproc=None):
    """Runs fn(mon, tier, n) in workers with derived seeds and merges what they observed."""
    nproc = nproc or NPROC
    n = n_quick if TIER == "quick" else n_thorough
    n = max(1, int(n * SCALE))
    per = max(1, (n + nproc - 1) // nproc)
    _JOBS[:] = [(fn, prop, f"{SEED}-{i}", TIER, per, extra or {}, i, nproc) for i in range(nproc)]
    total = Mon(prop)
    for m in _run_workers(nproc):
        if m.crash:
            print("harness crash in worker:\n" + m.crash)
            total.count("crashes")
        total.merge(m)
    return total


def known_findings(prop):
    """KNOWN_FINDINGS.txt: lines 'finding: property=<id> key=<mechanism> <text>' (and 'fixed:' lines,
    which suppress nothing)."""
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            w = line.split(None, 3)
            if len(w) >= 4 and w[0] == "finding:" and w[1] == f"property={prop}" and w[2].startswith("key="):
                out[w[2][4:]] = w[3].strip()
    return out


def finish(mon, t0, rule, level="exploration", min_evals=1, assumptions=(), exhaustive=None, need=()):
    """Writes evidence, prints the verdict and exits."""
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = {"evaluations": mon.evals, "distinct_nontrivial": len(mon.distinct), "rule": rule,
           "samples": mon.samples[:3] or ["none"], "observed": dict(sorted(mon.counts.items()))}
    if exhaustive is not None:
        cov["exhaustive"] = exhaustive
    ev = {"property": mon.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level,
          "coverage": cov, "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2),
          "violations": len(mon.viol)}
    with open(os.path.join(VERIF, "evidence", mon.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, v in sorted(mon.counts.items()):
        print(f"  {k}: {v}")
    print(f"{mon.prop}: {mon.evals} evaluations, {len(mon.distinct)} distinct, {ev['wall_s']} s")
    if mon.viol:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        for i, v in enumerate(mon.viol[:3]):
            p = os.path.join(d, f"{mon.prop}-{i}.json")
            with open(p, "w") as f:
                json.dump({"property": mon.prop, "tier": TIER, "seed": SEED, **v}, f, indent=1)
            print("  " + v["what"][:400] + "  " + json.dumps(v["case"])[:900])
            print(f"VIOLATION property={mon.prop} replay={p}")
        sys.exit(1)
    if mon.counts.get("crashes"):
        print("INCONCLUSIVE: the harness crashed")
        sys.exit(2)
    missing = [k for k in need if not mon.counts.get(k)]
    if mon.evals < min_evals or missing:
        print(f"INCONCLUSIVE: observed too little ({mon.evals} < {min_evals}; never seen: {missing})")
        sys.exit(2)
    print("HELD on what was observed")
    sys.exit(0)


class Scratch:
    """Scratch directory outside /repo and /verif, removed at the end."""

    def __enter__(self):
        base = os.environ.get("TMPDIR") or "/tmp"
        self.path = tempfile.mkdtemp(prefix="verif-", dir=base)
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


# ------------------------------------------------------------------------------------------------
# Python model access
# ------------------------------------------------------------------------------------------------
def load_model():
    sys.dont_write_bytecode = True
    if PYPKG not in sys.path:
        sys.path.insert(0, PYPKG)
    import en_cl_fix_pkg as p
    if not os.path.realpath(p.__file__).startswith(os.path.realpath(REPO)):
        raise Inconclusive("wrong package: " + p.__file__)
    return p


class Bad(Exception):
    """A returned value is not a legal representation."""


def is_wide(f):
    return fx.width(f) > 53


def enc_w(vs):
    import numpy as np
    a = np.empty(len(vs), dtype=object)
    for i, v in enumerate(vs):
        a[i] = int(v)
    return a


def enc_n(vs, f):
    import numpy as np
    return np.array([math.ldexp(v, -f[2]) for v in vs], dtype=np.float64)


def enc(vs, f):
    """Integers -> the raw data array that the cl_fix functions use for format f."""
    return enc_w(vs) if is_wide(f) else enc_n(vs, f)


def dec_w(arr):
    import numpy as np
    if isinstance(arr, int) and not isinstance(arr, bool):
        return [arr]
    if not isinstance(arr, np.ndarray) or arr.dtype != object:
        raise Bad(f"wide data expected (dtype object), got {type(arr).__name__} {getattr(arr, 'dtype', '')} {arr!r}"[:300])
    out = []
    for x in arr.ravel(order="C") if arr.ndim else [arr.item()]:
        if type(x) is not int:
            raise Bad(f"wide data must hold Python int, got {type(x).__name__} {x!r}")
        out.append(x)
    return out


def dec_n(arr, f):
    import numpy as np
    arr = np.asarray(arr)
    if arr.dtype != np.float64:
        raise Bad(f"narrow data expected (float64), got dtype {arr.dtype}")
    out = []
    for x in arr.ravel(order="C"):
        x = float(x)
        if not math.isfinite(x):
            raise Bad(f"narrow value {x}")
        n, d = x.as_integer_ratio()
        if f[2] >= 0:
            n <<= f[2]
        else:
            d <<= -f[2]
        if n % d:
            raise Bad(f"value {x!r} is not on the grid of {f}")
        out.append(n // d)
    return out


def dec(arr, f):
    return dec_w(arr) if is_wide(f) else dec_n(arr, f)


def sat_warnings(ws):
    """Saturation warnings among recorded warnings."""
    return [str(w.message) for w in ws
            if not issubclass(w.category, (RuntimeWarning, DeprecationWarning, PendingDeprecationWarning, FutureWarning, ResourceWarning))
            and "loss of precision" not in str(w.message)]
