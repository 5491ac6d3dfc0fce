"""C21: co-simulation runs exactly once, before anyone proceeds.  C22: generated co-simulation data."""
import importlib.util, json, os, random, re, shutil, subprocess, sys, threading, time, types

import c21log, fx
from pymon import REPO, TIER, SEED, VERIF, Mon, run_pool, finish, Scratch, load_model, Inconclusive

RUNNERS = [("sim/cosim_runner.py", "main"), ("lib/en_tb/sim/cosim_runner.py", "en_tb")]
PY = sys.executable


def load_runner(path):
    """Loads a fresh copy of a cosim_runner module and returns (module, runner class)."""
    spec = importlib.util.spec_from_file_location("cosim_runner", os.path.join(REPO, path))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    cls = [v for v in vars(m).values() if isinstance(v, type) and hasattr(v, "run") and hasattr(v, "get_config")]
    if len(cls) != 1:
        raise Inconclusive(f"{path}: no runner class")
    return m, cls[0]


SCRIPT = '''
import sys, os, time
import c21log
ME = {me!r}
c21log.event("load", ME, dict(file=__file__, path=list(sys.path), name=__name__))
{early}
time.sleep({load_delay})
{sibling}
{config}
c21log.event("loaded", ME)
class Failure(Exception):
    pass
left = [{fails}]
def run():
    c21log.event("start", ME)
    time.sleep({run_delay})
    if left[0] > 0:
        left[0] -= 1
        e = {exc}("failure of " + ME)
        c21log.event("fail", ME, id(e))
        e.verif = ME
        raise e
    c21log.event("end", ME)
    return {ret}
'''


def tracer(rng_seed, fname):
    """Injects delays at the lines of the runner."""
    local = threading.local()

    def line(frame, ev, arg):
        r = local.rng
        x = r.random()
        if x < 0.25:
            time.sleep(0)
        elif x < 0.35:
            time.sleep(r.random() * 0.0008)
        return line

    def tr(frame, ev, arg):
        if frame.f_code.co_filename.endswith(fname):
            if not hasattr(local, "rng"):
                local.rng = random.Random(f"{rng_seed}-{threading.get_ident()}")
            return line
        return None
    return tr


def parallel(fns, trace=None, timeout=90):
    """Runs the functions in threads; returns [(result, exception)] or None on a hang."""
    out = [None] * len(fns)
    gate = threading.Barrier(len(fns))

    def body(i):
        gate.wait()
        if trace:
            sys.settrace(trace)
        try:
            out[i] = (fns[i](), None)
        except BaseException as e:
            out[i] = (None, e)
        finally:
            sys.settrace(None)
    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(fns))]
    for t in ts:
        t.start()
    end = time.time() + timeout
    for t in ts:
        t.join(max(0.0, end - time.time()))
        if t.is_alive():
            return None
    return out


def c21_worker(m, tier, n):
    sys.dont_write_bytecode = True
    sys.setswitchinterval(2e-5)
    rng = m.rng
    from vunit.configuration import Configuration
    with Scratch() as tmp:
        for it in range(n):
            path, label = RUNNERS[it % 2]
            case = {"runner": path, "seed": SEED, "worker": m.part, "iteration": it}
            if c21_case(m, rng, tmp, it, path, label, case, Configuration):
                return          # a hang leaves threads behind: stop here


def c21_case(m, rng, tmp, it, path, label, case, Configuration):
    mod, cls = load_runner(path)
    base = os.path.join(tmp, f"i{it}")
    nscripts = rng.choice([1, 1, 2, 3, 4])
    modname = rng.choice(["cosim", "cosim", "cosim", "gen_data"])
    scripts = []
    shape = rng.choice(["s{}", "s{}", "s{}/cl_fix_add", "s{}/model/", "s{}/model"])
    for k in range(nscripts):
        d = os.path.join(base, shape.format(k))
        os.makedirs(d)
        me = f"{m.part}-{it}-{k}"
        fails = rng.choice([0, 0, 0, 0, 1, 1, 2])
        broken = rng.random() < 0.12 and rng.choice(["raise", "syntax", "missing", "exit"])
        sib = f"sib_{m.part}_{it}_{k}".replace("-", "_")
        has_cfg = rng.random() < 0.5
        early = ""
        if broken == "raise":
            early = 'raise RuntimeError("load " + ME)'
        elif broken == "exit":
            early = 'raise SystemExit(3)'
        elif rng.random() < 0.4:
            early = rng.choice(['sys.path.append(os.path.join(os.path.dirname(__file__), ".."))',
                                'sys.path.insert(1, os.path.join(os.path.dirname(__file__), "extra"))',
                                'sys.path.insert(0, os.path.join(os.path.dirname(__file__), "extra"))'])
        sibling = f"import {sib}; assert {sib}.X == ME" if rng.random() < 0.6 else ""
        src = SCRIPT.format(me=me, early=early, load_delay=rng.choice([0, 0, 0.0005, 0.003]), sibling=sibling,
                            config=f"COSIM_CONFIG = {{'N_TESTS': {k + 3}, 'me': ME}}" if has_cfg else "",
                            fails=fails, run_delay=rng.choice([0, 0.0005, 0.002, 0.006]),
                            exc=rng.choice(["Failure", "RuntimeError", "KeyError", "AssertionError"]),
                            ret=rng.choice(["None", "None", "False", "0", "5"]))
        if broken == "syntax":
            src += "\ndef (\n"
        if broken != "missing":
            open(os.path.join(d, modname + ".py"), "w").write(src)
        open(os.path.join(d, sib + ".py"), "w").write(f"X = {me!r}\n")
        scripts.append(dict(me=me, dir=d, fails=fails, broken=broken, cfg=({"N_TESTS": k + 3, "me": me} if has_cfg else None),
                            disable=rng.random() < 0.15))
    decoy = os.path.join(base, "decoy")
    os.makedirs(decoy)
    open(os.path.join(decoy, modname + ".py"), "w").write(f"import c21log\nc21log.event('decoy', {it})\ndef run(): c21log.event('decoyrun', {it})\n")
    importlib.invalidate_caches()

    # objects: each script gets one runner, sometimes two (they are then independent users of it)
    objs = [s for s in scripts for _ in range(2 if rng.random() < 0.1 else 1)]
    rng.shuffle(objs)
    saved = list(sys.path)
    pre_dup = rng.random() < 0.15
    if any(s["broken"] == "missing" for s in scripts):
        pre_dup = False                # nothing else on the path may provide that module
    elif rng.random() < 0.5:
        sys.path.append(decoy)
    if pre_dup:
        sys.path.append(objs[0]["dir"])
    path0 = list(sys.path)
    c21log.EVENTS.clear()
    trace = tracer(f"{SEED}-{m.part}-{it}", os.path.basename(path)) if rng.random() < 0.8 else None
    case.update(scripts=[{k: v for k, v in s.items() if k != "dir"} for s in scripts], objects=len(objs))

    def maker(s):
        if modname == "cosim" and rng.random() < 0.5:
            return lambda: cls(s["disable"], s["dir"])
        if rng.random() < 0.5:
            return lambda: cls(disable=s["disable"], cosim_path=s["dir"], module_name=modname)
        return lambda: cls(s["disable"], s["dir"], modname)

    def bad(what, **kw):
        m.violation(what, **case, events=[list(map(str, e[:3])) for e in c21log.EVENTS][:80], **kw)

    try:
        # 1. construction, concurrently
        res = parallel([maker(s) for s in objs], trace)
        m.evals += len(objs)
        if res is None:
            bad("constructing the runners does not finish")
            return True
        ev = list(c21log.EVENTS)
        for e in ev:
            if e[1] in ("start", "decoyrun"):
                bad("constructing a runner executed the co-simulation", script=e[2])
            if e[1] == "load":
                s = next(x for x in scripts if x["me"] == e[2])
                if s["dir"] not in e[4]["path"]:
                    bad("a script was loaded without its own directory on the module search path", script=e[2])
        if modname in sys.modules:
            bad("loading a script left a module of that name behind: the next script of that name would not be loaded")
        runners = []
        for s, (r, exc) in zip(objs, res):
            if s["broken"]:
                m.count("scripts failing to load")
                if exc is None:
                    bad("a script that cannot be loaded gave a runner", script=s["me"])
                elif not isinstance(exc, {"raise": RuntimeError, "syntax": SyntaxError, "missing": (ImportError, OSError), "exit": SystemExit}[s["broken"]]):
                    bad(f"a script failing to load ({s['broken']}) is reported as {exc!r}", script=s["me"])
                continue
            if exc is not None:
                bad(f"constructing a runner raised {exc!r}", script=s["me"])
                continue
            loads = [e for e in ev if e[1] == "load" and e[2] == s["me"]]
            if not loads:
                bad("a runner was constructed without loading its own script", script=s["me"])
            m.count("runners constructed")
            c = r.get_config()
            if c != s["cfg"]:
                bad(f"get_config() gives {c!r}, the script says {s['cfg']!r}", script=s["me"])
            runners.append((s, r))
        if any(e[1] == "start" for e in c21log.EVENTS):
            bad("get_config() executed the co-simulation")
        m.count("concurrent constructions", len(objs) > 1)
        # the search path: what was there before is there again, in order, and nothing of ours remains
        now = list(sys.path)
        for s in scripts:
            if now.count(s["dir"]) != path0.count(s["dir"]):
                bad("the module search path still contains (or lost) a script's directory", script=s["me"], path=now)
                break
        it_ = iter(now)
        if not all(any(x == y for y in it_) for x in path0):
            bad("the module search path lost an entry or its order", path=now, before=path0)
        extra = [x for x in now if x not in path0 and not x.startswith(base)]
        if extra:
            bad("the module search path has new entries", extra=extra)
        # sequential second use of the same lock after failures
        if any(s["broken"] for s in objs):
            d = os.path.join(base, "after")
            os.makedirs(d)
            open(os.path.join(d, modname + ".py"), "w").write("def run(): pass\n")
            importlib.invalidate_caches()
            res = parallel([lambda: cls(False, d, modname).run()], None, 60)
            if res is None:
                bad("after a script failed to load, no other script can be loaded")
                return True
            if res[0][1] is not None:
                bad(f"after a script failed to load, another script gives {res[0][1]!r}")
        # 2. concurrent configurations
        c21log.EVENTS.clear()
        calls = []
        for s, r in runners:
            for _ in range(rng.choice([1, 2, 3, 5, 8])):
                calls.append((s, r))
        rng.shuffle(calls)
        if not calls:
            return False

        def caller(k, s, r, style, delay):
            def f():
                time.sleep(delay)
                c21log.event("call", k)
                try:
                    if style == 0:
                        v = r.run()
                    else:
                        v = Configuration.call_pre_config(types.SimpleNamespace(pre_config=r.run), "o", "so")
                except BaseException as e:
                    c21log.event("raise", k, id(e))
                    raise
                c21log.event("ret", k)
                return v
            return f
        fs = [caller(k, s, r, rng.randrange(2), rng.choice([0, 0, 0, 0.0005, 0.002])) for k, (s, r) in enumerate(calls)]
        groups = [fs]
        if rng.random() < 0.3 and len(fs) > 1:
            cut = rng.randrange(1, len(fs))
            groups = [fs[:cut], fs[cut:]]      # a second wave after the first
        res = []
        for g in groups:
            x = parallel(g, trace)
            if x is None:
                bad("configurations do not get past the co-simulation")
                return True
            res += x
        c21_judge(m, bad, runners, calls, res, list(c21log.EVENTS))
        m.count(f"runner {label}")
    finally:
        sys.path[:] = saved
        for k in [k for k in sys.modules if k.startswith("sib_")]:
            del sys.modules[k]
        shutil.rmtree(base, ignore_errors=True)
    return False


def c21_judge(m, bad, runners, calls, res, ev):
    """The oracle over the event log of the concurrent phase."""
    m.evals += len(calls)
    m.seen(tuple((e[1], e[2] if e[1] in ("call", "ret", "raise") else "s") for e in ev))
    m.count("events", len(ev))
    ret = {e[2]: e[0] for e in ev if e[1] == "ret"}
    exc_at = {e[2]: e[0] for e in ev if e[1] == "raise"}
    thread = {e[2]: e[3] for e in ev if e[1] == "call"}
    for s in {id(s): s for s, _ in runners}.values():
        mine = [e for e in ev if e[2] == s["me"]]
        nrun = sum(1 for t, _ in runners if t is s)
        starts = [e for e in mine if e[1] == "start"]
        ends = [e for e in mine if e[1] == "end"]
        fails = [e for e in mine if e[1] == "fail"]
        called = [k for k, (t, _) in enumerate(calls) if t is s]
        m.count("script executions", len(starts))
        m.count("failed executions", len(fails))
        if s["disable"]:
            if starts:
                bad("a disabled co-simulation was executed", script=s["me"])
            for k in called:
                if res[k][1] is not None or res[k][0] is not True:
                    bad(f"a disabled co-simulation gave {res[k]!r}", script=s["me"])
            m.count("disabled runners")
            continue
        if nrun == 1:
            # no overlap, and nothing after the success
            depth = 0
            done = False
            for e in mine:
                if e[1] == "start":
                    depth += 1
                    if depth > 1:
                        bad("two executions of a script at the same time", script=s["me"])
                    if done:
                        bad("the script was executed again after it had generated the data", script=s["me"])
                else:
                    depth -= 1
                    done = done or e[1] == "end"
            if len(ends) > 1:
                bad(f"the script was executed {len(ends)} times", script=s["me"])
        for _, r in [x for x in runners if x[0] is s]:
            ks = [k for k in called if calls[k][1] is r]
            if not ks:
                continue
            for k in ks:
                v, e = res[k]
                own_fail = [x for x in fails if x[3] == thread[k]]
                if e is None:
                    m.count("configurations that proceeded")
                    if v is not True:
                        bad(f"run() returned {v!r}: the configuration does not proceed", script=s["me"])
                    before = [x for x in ends if x[0] < ret[k]]
                    if not before:
                        bad("a configuration proceeded before the script had generated the data", script=s["me"], call=k)
                    if own_fail:
                        bad("a configuration whose script execution failed proceeded", script=s["me"], call=k)
                else:
                    m.count("configurations that got the failure")
                    f = [x for x in fails if x[4] == id(e) and x[0] < exc_at[k]]
                    if getattr(e, "verif", None) != s["me"] or not f:
                        bad(f"a configuration got {e!r}, which its script did not raise", script=s["me"], call=k)
            if len(fails) == 0 and nrun == 1 and len(ends) != 1:
                bad(f"the script was executed {len(ends)} times for {len(ks)} configurations", script=s["me"])
            if len(ks) > 1:
                m.count("runners shared by several configurations")
            if len(ks) > 1 and fails and ends and nrun == 1:
                m.count("retried after a failure")


# ------------------------------------------------------------------------------------------------
# the run scripts themselves, under the real VUnit
# ------------------------------------------------------------------------------------------------
def stage_suite(dst, real_cosim=False):
    """A copy of the repository's simulation environment; co-simulation scripts replaced by recorders."""
    ign = shutil.ignore_patterns("data", "__pycache__", "vunit_out", ".git")
    for d in ("sim", "hdl", "tb", "lib/en_tb/sim", "lib/en_tb/hdl", "lib/en_tb/tb"):
        shutil.copytree(os.path.join(REPO, d), os.path.join(dst, d), ignore=ign)
    for c in ("bittrue", "lib/en_tb/bittrue"):
        if real_cosim:
            shutil.copytree(os.path.join(REPO, c), os.path.join(dst, c), ignore=ign)
            continue
        for name in sorted(os.listdir(os.path.join(REPO, c, "cosim"))):
            if os.path.exists(os.path.join(REPO, c, "cosim", name, "cosim.py")):
                os.makedirs(os.path.join(dst, c, "cosim", name))


RECORDER = '''
import os, sys, time
import c21log
ME = os.path.basename(os.path.dirname(os.path.abspath(__file__)))
c21log.event("load", ME, list(sys.path))
{config}
left = [{fails}]
def run():
    c21log.event("start", ME)
    time.sleep({delay})
    if left[0] > 0:
        left[0] -= 1
        c21log.event("fail", ME)
        raise RuntimeError("failure of " + ME)
    c21log.event("end", ME)
'''


def run_suite(dst, run_py, seed, threads, *args, switch="1e-5"):
    out = os.path.join(dst, "result.json")
    env = dict(os.environ, GHDL_BACKEND="gcc", PYTHONDONTWRITEBYTECODE="1", VURUN_SWITCH=switch)
    for k in ("EN_SIM_NAME", "EN_SIM_BIN", "EN_SIM_LIB"):
        env.pop(k, None)
    p = subprocess.run([PY, os.path.join(VERIF, "lib", "vurun.py"), os.path.join(dst, run_py), out, seed, str(threads),
                        "--no-color", "--simulator=ghdl", "--simulator-path=/usr/bin", "-o", os.path.join(dst, "vunit_out"), *args],
                       cwd=os.path.join(dst, os.path.dirname(run_py)), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
    if not os.path.exists(out):
        raise Inconclusive("VUnit did not come up: " + p.stdout[-1500:])
    return json.load(open(out)), p.stdout


def needed_script(tb_file):
    """The co-simulation directory a test bench reads its data from."""
    src = re.sub(r"--[^\n]*", "", open(tb_file, errors="replace").read())
    return sorted(set(re.findall(r"bittrue/cosim/(\w+)/", src)))


def c21_suites(m, tier, n):
    jobs = [("sim/run.py", "bittrue", [], False), ("lib/en_tb/sim/run.py", "lib/en_tb/bittrue", [], False),
            ("sim/run.py", "bittrue", ["--disable-cosim"], True), ("lib/en_tb/sim/run.py", "lib/en_tb/bittrue", ["--disable-cosim"], True),
            ("lib/en_tb/sim/run.py", "lib/en_tb/bittrue", [], False), ("sim/run.py", "bittrue", [], False)]
    for rep in range(m.part, len(jobs) if tier == "quick" else 3 * len(jobs), m.nparts):
        run_py, bt, args, disabled = jobs[rep % len(jobs)]
        failing = rep % len(jobs) >= 4
        with Scratch() as tmp:
            stage_suite(tmp)
            cdir = os.path.join(tmp, bt, "cosim")
            names = sorted(os.listdir(cdir))
            fails = {}
            for name in names:
                fails[name] = 1 if failing and m.rng.random() < 0.6 else 0
                with open(os.path.join(cdir, name, "cosim.py"), "w") as f:
                    f.write(RECORDER.format(config="COSIM_CONFIG = {'N_TESTS': 9}" if "en_tb" in bt else "", fails=fails[name], delay=m.rng.choice([0.001, 0.02])))
            res, log = run_suite(tmp, run_py, f"{SEED}-{rep}", m.rng.choice([4, 8, 16]), *args)
            case = {"run": run_py, "args": args, "fails": fails, "seed": SEED}
            if res["error"]:
                m.violation("the run script failed: " + res["error"][-600:], **case)
                continue
            if res.get("hung"):
                m.violation("the run script's configurations hang", **case)
                continue
            cfgs, ev = res["configs"], res["events"]
            m.count("VUnit configurations driven", len(cfgs))
            m.evals += len(cfgs)
            if not cfgs:
                raise Inconclusive("no configurations")
            if any(cdir in p for p in map(str, res["sys_path"])):
                m.violation("after listing the configurations the module search path contains a script directory", **case)
            used = set()
            for c in cfgs:
                need = needed_script(c["file"])
                need = [x for x in need if x in names]
                used |= set(need)
                for name in need:
                    m.count("configurations with a co-simulation")
                    ends = [e[0] for e in ev if e[1] == "end" and e[2] == name]
                    cc = dict(case, config=f"{c['tb']}.{c['name']}", script=name)
                    if disabled:
                        if c["result"] is not True:
                            m.violation(f"with the co-simulation disabled, the configuration gives {c['result']} {c['exc']}", **cc)
                    elif c["result"] is True:
                        if not any(e < c["ret"] for e in ends):
                            m.violation("a configuration proceeded before its data was generated", **cc)
                    elif not c["exc"] or name not in c["exc"] or not fails[name]:
                        m.violation(f"a configuration did not proceed: {c['result']} {c['exc']}", **cc)
                    else:
                        m.count("suite configurations that got the failure")
            for name in names:
                st = [e for e in ev if e[1] == "start" and e[2] == name]
                en = [e for e in ev if e[1] == "end" and e[2] == name]
                if disabled and st:
                    m.violation("a disabled co-simulation was executed", script=name, **case)
                if not disabled and name in used:
                    if len(en) > 1 or (not fails[name] and len(st) != 1):
                        m.violation(f"the script was executed {len(st)} times, {len(en)} to the end", script=name, **case)
                    m.count("suite scripts executed", len(st))
            m.seen(tuple((e[1], e[2]) for e in ev))


def c21_all(m, tier, n):
    c21_worker(m, tier, n)
    c21_suites(m, tier, n)


def c21():
    t0 = time.time()
    m = run_pool(c21_all, "C21", 4000, 100000)
    finish(m, t0, "generated co-simulation scripts (same-named, slow, failing, not loadable, changing sys.path) driven by concurrent constructors and "
                  "configurations with delays injected at every line of both runners, and both run.py under the real VUnit with recording scripts; "
                  "oracle: event log of loads, executions, returns and exceptions; distinct = different interleavings of the event log",
           min_evals=1000,
           assumptions=["A script's own additions to the module search path may stay (the shipped scripts make some)",
                        "Two runner objects of the same script are independent runs of it"],
           need=["scripts failing to load", "concurrent constructions", "failed executions", "configurations that got the failure", "retried after a failure",
                 "disabled runners", "runners shared by several configurations", "runner main", "runner en_tb", "VUnit configurations driven",
                 "configurations with a co-simulation", "suite scripts executed", "suite configurations that got the failure"])


# ------------------------------------------------------------------------------------------------
# C22
# ------------------------------------------------------------------------------------------------
RND = ["Trunc_s", "NonSymPos_s", "NonSymNeg_s", "SymInf_s", "SymZero_s", "ConvEven_s", "ConvOdd_s"]
SCRIPTS = {"cl_fix_abs": "a", "cl_fix_add": "ab", "cl_fix_addsub": "abs", "cl_fix_compare": "cmp", "cl_fix_from_real": "fr",
           "cl_fix_mult": "ab", "cl_fix_neg": "a", "cl_fix_resize": "a", "cl_fix_round": "a", "cl_fix_saturate": "a",
           "cl_fix_shift": "sh", "cl_fix_sub": "ab"}
CMPS = {"eq": "__eq__", "neq": "__ne__", "less": "__lt__", "greater": "__gt__", "leq": "__le__", "geq": "__ge__"}


def v_round(x, drop, mode):
    """Integer array x (LSB 2^-f) to LSB 2^-(f-drop), all in int64; independent of the code under test."""
    import numpy as np
    if drop <= 0:
        return x << -drop
    one = 1 << drop
    q = x >> drop
    r = x - (q << drop)
    if mode == "Trunc_s":
        return q
    half = one >> 1
    up = r > half
    tie = r == half
    t = {"NonSymPos_s": np.ones_like(tie), "NonSymNeg_s": np.zeros_like(tie), "SymInf_s": x > 0, "SymZero_s": x < 0,
         "ConvEven_s": (q & 1) == 1, "ConvOdd_s": (q & 1) == 0}[mode]
    return q + (up | (tie & t))


def v_sat(x, f, sat):
    import numpy as np
    lo, hi = (fx.vmin(f), fx.vmax(f))
    if sat in ("Sat_s", "SatWarn_s"):
        return np.clip(x, lo, hi)
    w = fx.width(f)
    x = x & ((1 << w) - 1)
    return np.where(x > hi, x - (1 << w), x)


def expected(name, fa, fb, shift, rf, rnd, sat):
    """The exact responses for all stimuli of one test, in the order in which the test bench applies them."""
    import numpy as np
    alo, ahi = (fx.vmin(fa), fx.vmax(fa))
    a = np.arange(alo, ahi + 1, dtype=np.int64)
    kind = SCRIPTS[name]
    if kind in ("ab", "abs", "cmp"):
        blo, bhi = (fx.vmin(fb), fx.vmax(fb))
        b = np.arange(blo, bhi + 1, dtype=np.int64)
        A, B = np.meshgrid(a, b)           # a runs fast, b slow
        A, B = A.ravel(), B.ravel()
        F = max(fa[2], fb[2])
        As, Bs = A << (F - fa[2]), B << (F - fb[2])
    if kind == "cmp":
        return {k: getattr(As, op)(Bs).astype(np.int64) for k, op in CMPS.items()}
    if name == "cl_fix_add":
        x = As + Bs
    elif name == "cl_fix_sub":
        x = As - Bs
    elif name == "cl_fix_addsub":
        x = np.concatenate((As - Bs, As + Bs))
    elif name == "cl_fix_mult":
        x, F = A * B, fa[2] + fb[2]
    elif name == "cl_fix_neg":
        x, F = -a, fa[2]
    elif name == "cl_fix_abs":
        x, F = np.abs(a), fa[2]
    elif name == "cl_fix_shift":
        x, F = a, fa[2] - shift
    else:
        x, F = a, fa[2]
    return {"output": v_sat(v_round(x, F - rf[2], rnd), rf, sat)}


def read_ints(path, base=10):
    """Data of a text file below its header line."""
    with open(path) as f:
        head = f.readline()
        rest = f.read()
    if not head.startswith("#"):
        raise ValueError("no header line")
    if base == 10:
        return [[int(x) for x in l.split()] for l in rest.splitlines()]
    return [l.split() for l in rest.splitlines()]


def read_fmts(path):
    out = []
    with open(path) as f:
        head = f.readline()
        if not head.startswith("#"):
            raise ValueError("no header line")
        for l in f.read().splitlines():
            mt = re.fullmatch(r"\s*\(\s*([01])\s*,\s*(-?\d+)\s*,\s*(-?\d+)\s*\)\s*", l)
            if not mt:
                raise ValueError(f"not a format: {l!r}")
            out.append(tuple(int(x) for x in mt.groups()))
    return out


PARAMS = {"a": ["a_fmt", "r_fmt", "rnd", "sat"], "ab": ["a_fmt", "b_fmt", "r_fmt", "rnd", "sat"],
          "abs": ["a_fmt", "b_fmt", "r_fmt", "rnd", "sat"], "cmp": ["a_fmt", "b_fmt"], "fr": ["a_fmt", "r_fmt", "sat"],
          "sh": ["a_fmt", "shift", "r_fmt", "rnd", "sat"]}


def judge_bittrue(m, name, data, variant):
    kind = SCRIPTS[name]
    case = {"script": name, "run": variant, "seed": SEED}
    params = [p for p in PARAMS[kind] if not (name == "cl_fix_round" and p == "sat") and not (name == "cl_fix_saturate" and p == "rnd")]
    P = {}
    for p in params:
        f = os.path.join(data, p + ".txt")
        try:
            P[p] = read_fmts(f) if p.endswith("fmt") else [r[0] for r in read_ints(f)]
        except (OSError, ValueError, IndexError) as e:
            m.violation(f"{p}.txt cannot be used: {e!r}", **case)
            return
    n = len(P["a_fmt"])
    if m.part == 0:
        if any(len(v) != n for v in P.values()):
            m.violation(f"the parameter files have different numbers of entries: { {k: len(v) for k, v in P.items()} }", **case)
            return
        outs = list(CMPS) if kind == "cmp" else ["output"]
        want = {f"test{i}_{o}.txt" for i in range(n) for o in outs} | {p + ".txt" for p in params}
        have = set(os.listdir(data))
        if want - have:
            m.violation(f"{len(want - have)} files are missing, e.g. {sorted(want - have)[:3]}", **case)
            return
        # files of no entry: a response without stimulus (a test bench reading it would use stale data)
        stale = sorted(x for x in have - want if re.fullmatch(r"test\d+_.*\.txt", x))
        if stale:
            m.violation(f"{len(stale)} response files belong to no entry, e.g. {stale[:3]}", **case)
            return
        m.count("parameter sets", 1)
        m.count("tests " + name, n)
        if n < 20:
            m.violation(f"only {n} tests were generated", **case)
            return
    for i in range(m.part, n, m.nparts):
        fa, fb, rf = P["a_fmt"][i], P.get("b_fmt", [None] * n)[i], P.get("r_fmt", [None] * n)[i]
        try:
            rnd = RND[P["rnd"][i]] if "rnd" in P else "NonSymPos_s" if kind == "fr" else "Trunc_s"
            sat = fx.SATS[P["sat"][i]] if "sat" in P else "None_s"
        except IndexError:
            m.violation("unknown mode number", test=i, **case)
            continue
        sh = P["shift"][i] if kind == "sh" else None
        for out, exp in expected(name, fa, fb, sh, rf, rnd, sat).items():
            f = os.path.join(data, f"test{i}_{out}.txt")
            try:
                got = read_ints(f)
            except (OSError, ValueError) as e:
                m.violation(f"test{i}_{out}.txt cannot be used: {e!r}", **case)
                continue
            m.count("response entries", len(exp))
            m.evals += 1
            c = dict(case, test=i, file=out, a=fa, b=fb, r=rf, rnd=rnd, sat=sat, shift=sh)
            if len(got) != len(exp):
                m.violation(f"{len(got)} responses for {len(exp)} stimuli", **c)
            elif any(len(r) != 1 for r in got):
                m.violation("more than one response in a row", **c)
            else:
                bad = [k for k, (r, e) in enumerate(zip(got, exp.tolist())) if r[0] != e]
                if bad:
                    m.violation(f"{len(bad)} wrong responses, first at entry {bad[0]}: {got[bad[0]][0]}, exact {exp[bad[0]]}", **c)
        m.seen((name, fa, fb, rf, rnd, sat, sh))


def judge_fileio(m, data, variant, widths=None, columns=None):
    """The data of the file I/O test bench: the same numbers in every base, complete and in range."""
    case = {"script": "en_tb_fileio", "run": variant, "seed": SEED}
    idx = set()
    for f in os.listdir(data):
        mt = re.match(r"test(\d+)_", f)
        if mt:
            idx.add(int(mt.group(1)))
    if idx != set(range(len(idx))) or not idx:
        m.violation(f"test numbers {sorted(idx)}", **case)
        return None
    seen = []
    for i in sorted(idx):
        p = os.path.join(data, f"test{i}_")
        try:
            w, cols = [x for r in read_ints(p + "config.txt") for x in r]
        except (OSError, ValueError) as e:
            m.violation(f"test{i}_config.txt cannot be used: {e!r}", **case)
            continue
        seen.append((w, cols))
        nrows = set()
        for sign in ("unsigned", "signed"):
            lo, hi = (0, 2 ** w - 1) if sign == "unsigned" else (-2 ** (w - 1), 2 ** (w - 1) - 1)
            c = dict(case, test=i, width=w, columns=cols, sign=sign)
            try:
                dec = read_ints(p + f"ascii_dec_data_{sign}.txt")
                texts = {b: read_ints(p + f"ascii_{b}_data_{sign}.txt", base=0) for b in ("bin", "hex")}
            except (OSError, ValueError) as e:
                m.violation(f"data cannot be used: {e!r}", **c)
                continue
            m.evals += 3
            m.count("file I/O values", sum(map(len, dec)))
            nrows |= {len(dec), *[len(t) for t in texts.values()]}
            if any(len(r) != cols for t in [dec, *texts.values()] for r in t):
                m.violation("a row has another number of columns than configured", **c)
                continue
            flat = [x for r in dec for x in r]
            if min(flat) < lo or max(flat) > hi:
                m.violation("a number lies outside the range of its width", **c)
            if min(flat) != lo or max(flat) != hi:
                m.violation("the limits of the range do not occur", **c)
            for b, digits in (("bin", w), ("hex", (w + 3) // 4)):
                t = [x for r in texts[b] for x in r]
                if len(t) != len(flat):
                    continue
                for k, (s, x) in enumerate(zip(t, flat)):
                    want = format(x % (1 << w), ("0%db" if b == "bin" else "0%dx") % digits)
                    if s.lower() != want:
                        m.violation(f"entry {k} of the {b} file is {s}, the decimal file says {x}", **c)
                        break
            m.seen(("fileio", w, cols, sign))
        if len(nrows) > 1:
            m.violation(f"the files of test {i} have different numbers of rows: {nrows}", **case)
    return seen


GENERATE = '''
import os, sys
d = sys.argv[1]
os.chdir(sys.argv[2])
sys.argv = [os.path.join(d, "cosim.py")]
import runpy
sys.path.insert(0, d)
g = runpy.run_path(os.path.join(d, "cosim.py"), run_name="__main__")
# again in the same process, as a run script that lists two test benches of one co-simulation in turn does
if callable(g.get("run")):
    g["run"]()
'''

PARAMETRIZED = '''
import sys, runpy
sys.path.insert(1, sys.argv[1])
g = runpy.run_module("cosim")["run"].__globals__
if not all(k in g for k in ("DATA_WIDTHS", "FILE_COLUMNS", "N_TESTS")):
    sys.exit(3)
g["DATA_WIDTHS"], g["FILE_COLUMNS"] = eval(sys.argv[2])
g["N_TESTS"] = len(g["DATA_WIDTHS"]) * len(g["FILE_COLUMNS"])
g["run"]()
'''


def stale(data):
    """Leftovers of an earlier run."""
    os.makedirs(os.path.join(data, "old"))
    for f in ("test999999_output.txt", "test0_output.txt", "test3_eq.txt", "test99999_geq.txt", "test40_config.txt"):
        with open(os.path.join(data, f), "w") as h:
            h.write("# old\n1\n2\n")


def differing(a, b):
    """Names of the files that exist in one directory only or have other contents."""
    x, y = set(os.listdir(a)), set(os.listdir(b))
    out = sorted(x ^ y)
    for f in sorted(x & y):
        with open(os.path.join(a, f), "rb") as p, open(os.path.join(b, f), "rb") as q:
            if p.read() != q.read():
                out.append(f)
    return out


def c22_judge(m, tier, n, runs):
    for kind, name, data, variant, ref in runs:
        if kind == "fileio":
            if m.part == 0:
                judge_fileio(m, data, variant)
                if ref and os.path.isdir(ref):
                    diff = differing(data, ref)
                    m.evals += len(os.listdir(data))
                    m.count("file I/O data generated twice")
                    if diff:
                        m.violation("two runs of a co-simulation script generated different data", script=name, files=diff[:6])
        elif kind == "params":
            if m.part == 1 % m.nparts:
                judge_fileio(m, data, variant)
                m.count("parametrized file I/O data")
        elif ref and os.path.isdir(ref):
            # a second run of the same script: identical bytes need no second judgement
            a, b = sorted(os.listdir(data)), sorted(os.listdir(ref))
            same = a == b
            mine = a[m.part::m.nparts]
            for f in mine if same else []:
                with open(os.path.join(data, f), "rb") as x, open(os.path.join(ref, f), "rb") as y:
                    if x.read() != y.read():
                        same = False
                        break
            m.evals += len(mine)
            if same:
                m.count("files identical in a second run", len(mine))
            else:
                m.count("second runs that differ")
                m.violation("two runs of a co-simulation script generated different data", script=name, files=differing(data, ref)[:6])
                judge_bittrue(m, name, data, variant)
        else:
            judge_bittrue(m, name, data, variant)
    c22_helpers(m, 40 if tier == "quick" else 2000)


def c22_helpers(m, n):
    """The helpers all scripts take their stimuli from."""
    import numpy as np
    load_model()
    import en_cl_fix_pkg as ep
    d = os.path.join(REPO, "bittrue", "cosim")
    if d not in sys.path:
        sys.path.append(d)
    try:
        import cosim_utils as u
    except ImportError:
        return
    rng = m.rng
    for _ in range(n):
        if hasattr(u, "get_data"):
            f = fx.rand_fmt(rng, wmax=rng.choice([3, 8, 14]))
            got = u.get_data(ep.FixFormat(*f))
            lo, hi = (fx.vmin(f), fx.vmax(f))
            exp = np.ldexp(np.arange(lo, hi + 1, dtype=np.float64), -f[2])
            m.evals += 1
            if not np.array_equal(np.asarray(got), exp):
                m.violation("the stimulus that covers a format is not the list of its values", fmt=f)
            m.count("formats covered")
            m.seen(("get_data", f))
        x = np.array([rng.randrange(100) for _ in range(rng.choice([1, 1, 2, 5, 17]))], dtype=rng.choice([np.float64, np.int64]))
        k = rng.choice([1, 1, 2, 3, 10])
        if hasattr(u, "repeat_each_value"):
            if not np.array_equal(u.repeat_each_value(x, k), [v for v in x for _ in range(k)]):
                m.violation("repeat_each_value does not repeat each value", x=list(map(int, x)), n=k)
        if hasattr(u, "repeat_whole_array"):
            if not np.array_equal(u.repeat_whole_array(x, k), list(x) * k):
                m.violation("repeat_whole_array does not repeat the array", x=list(map(int, x)), n=k)
    if hasattr(u, "clear_directory"):
        with Scratch() as tmp:
            p = os.path.join(tmp, "data")
            for pre in (False, True):
                if pre:
                    stale(p) if not os.path.isdir(p) else stale2(p)
                u.clear_directory(p)
                if not os.path.isdir(p) or os.listdir(p):
                    m.violation("clear_directory does not leave an empty directory", existed=pre)


def stale2(p):
    os.makedirs(os.path.join(p, "x", "y"))
    open(os.path.join(p, "x", "y", "z"), "w").close()
    open(os.path.join(p, "test0_output.txt"), "w").close()


def c22():
    t0 = time.time()
    rng = random.Random(f"C22-{SEED}")
    pre = Mon("C22", rng)
    pre.part, pre.nparts = 0, 1
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", GHDL_BACKEND="gcc")
    with Scratch() as tmp:
        one, two = os.path.join(tmp, "one"), os.path.join(tmp, "two")
        for d in (one, two):
            os.makedirs(d)
            stage_suite(d, real_cosim=True)
        jobs, runs = [], []
        bt = os.path.join(one, "bittrue", "cosim")
        have = sorted(x for x in os.listdir(bt) if os.path.exists(os.path.join(bt, x, "cosim.py")))
        for name in have:
            if name not in SCRIPTS:
                continue
            d = os.path.join(bt, name)
            if rng.random() < 0.7:
                stale(os.path.join(d, "data"))
                pre.count("runs over leftovers of an earlier run")
            cwd = rng.choice([d, tmp, bt])
            jobs.append((name, [PY, "-c", GENERATE, d, cwd]))
            runs.append(("bt", name, os.path.join(d, "data"), "script", None))
        fio = os.path.join(one, "lib/en_tb/bittrue/cosim/en_tb_fileio")
        jobs.append(("en_tb_fileio", [PY, "-c", GENERATE, fio, tmp]))
        stale(os.path.join(fio, "data"))
        runs.append(("fileio", "en_tb_fileio", os.path.join(fio, "data"), "script", None))
        for k in range(2 if TIER == "quick" else 12):
            d = os.path.join(tmp, f"p{k}")
            shutil.copytree(os.path.join(REPO, "lib/en_tb/bittrue/cosim/en_tb_fileio"), d, ignore=shutil.ignore_patterns("data"))
            ws = sorted({rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 31, 33, 63, 64, 65, 127, 128, 200]) for _ in range(5)})
            cs = sorted({rng.choice([1, 2, 4, 5, 8]) for _ in range(2)})
            jobs.append((f"params{k}", [PY, "-c", PARAMETRIZED, d, repr((ws, cs))]))
            runs.append(("params", "en_tb_fileio", os.path.join(d, "data"), f"widths {ws} columns {cs}", None))
        # the two run scripts, as the suite does it: all co-simulations in one process, from many threads
        suites = [("sim/run.py", "bittrue/cosim"), ("lib/en_tb/sim/run.py", "lib/en_tb/bittrue/cosim")]
        box = {}

        def suite(rp):
            try:
                box[rp] = run_suite(two if rp == "sim/run.py" else os.path.join(tmp, "two_en"), rp, f"{SEED}", 3, switch="1e-4")
            except Exception as e:
                box[rp] = e
        shutil.copytree(two, os.path.join(tmp, "two_en"))
        ths = [threading.Thread(target=suite, args=(rp,)) for rp, _ in suites]
        for t in ths:
            t.start()
        procs, fails = [], {}
        q = list(jobs)
        q.sort(key=lambda j: {"cl_fix_addsub": 0, "cl_fix_compare": 1}.get(j[0], 2))
        while q or procs:
            while q and len(procs) < 7:
                nm, cmd = q.pop(0)
                log = open(os.path.join(tmp, nm + ".log"), "w")
                procs.append((nm, subprocess.Popen(cmd, env=env, stdout=log, stderr=subprocess.STDOUT)))
            for x in procs[:]:
                if x[1].poll() is not None:
                    procs.remove(x)
                    if x[1].returncode:
                        fails[x[0]] = x[1].returncode
            time.sleep(0.05)
        for nm, rc in fails.items():
            if nm.startswith("params"):
                runs = [r for r in runs if r[2] != os.path.join(tmp, nm.replace("params", "p"), "data")]
                pre.count("not parametrizable")
                continue
            log = open(os.path.join(tmp, nm + ".log")).read()
            pre.violation(f"the co-simulation script {nm} failed: " + log[-700:], script=nm)
            runs = [r for r in runs if r[1] != nm]
        for t in ths:
            t.join()
        t1 = time.time()
        for rp, cd in suites:
            if isinstance(box[rp], Exception):
                raise box[rp]
            res, log = box[rp]
            root = two if rp == "sim/run.py" else os.path.join(tmp, "two_en")
            if res["error"] or res.get("hung"):
                pre.violation(f"the run script failed: {res['error']}"[:900], run=rp)
                continue
            by = {}
            for c in res["configs"]:
                pre.count("configurations listed")
                case = dict(run=rp, config=f"{c['tb']}.{c['name']}")
                need = [x for x in needed_script(c["file"])]
                for name in need:
                    if c["result"] is not True:
                        pre.violation(f"the co-simulation of a configuration failed: {c['exc']}", **case)
                        continue
                    if not os.path.isdir(os.path.join(root, cd, name, "data")):
                        pre.violation("a configuration is listed for which no data was generated", needs=name, **case)
                        continue
                    by.setdefault(name, []).append(c)
            for name, cs in by.items():
                data = os.path.join(root, cd, name, "data")
                if name == "en_tb_fileio":
                    idx = sorted({int(x) for f in os.listdir(data) for x in re.findall(r"^test(\d+)_", f)})
                    got = sorted(int(c["generics"].get("test_index_g", -1)) for c in cs)
                    if idx != got:
                        pre.violation(f"configurations {got} are listed, data was generated for {idx}", run=rp)
                    pre.count("indexed configurations", len(got))
                    runs.append(("fileio", name, data, "run.py", os.path.join(fio, "data")))
                elif name in SCRIPTS:
                    runs.append(("bt", name, data, "run.py", os.path.join(bt, name, "data")))
            for name in sorted(os.listdir(os.path.join(root, cd))):
                if os.path.isdir(os.path.join(root, cd, name, "data")) and name not in by:
                    pre.violation("data was generated for which no configuration is listed", script=name, run=rp)
        print(f"  generation took {t1 - t0:.1f} s")
        m = run_pool(c22_judge, "C22", 1, 1, extra={"runs": runs})
        pre.merge(m)
    finish(pre, t0, "every co-simulation script run as a script (from several directories, over leftovers of earlier runs) and all together from many threads by the real "
                    "run scripts; every entry of every generated file against exact integer arithmetic; distinct = test cases (formats and modes) judged",
           min_evals=10000, exhaustive="all files and entries generated by the scripts as shipped",
           assumptions=["The stimulus order is the one the test benches apply: all values of a (fast) for every value of b, subtraction before addition"],
           need=["parameter sets", "configurations listed", "indexed configurations", "file I/O values", "formats covered", "files identical in a second run", "file I/O data generated twice"])
