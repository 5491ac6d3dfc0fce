"""Helper process: executes a run.py exactly as the command line does, but stops VUnit at main() and
then plays the simulator's part: it calls the pre_config of every configuration from many threads.
usage: vurun.py RUN_PY OUT_JSON SEED THREADS [run.py arguments...]"""
import json, os, random, runpy, sys, threading, time

run_py, out_json, seed, nthreads = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import c21log
sys.path[0] = os.path.dirname(run_py)          # what python run.py has as its first entry
sys.argv = [run_py] + sys.argv[5:]
sys.dont_write_bytecode = True
import vunit

res = {"configs": [], "error": None}


def all_configs(vu):
    out = []
    for lib in vu.get_libraries():
        for tb in lib.get_test_benches(allow_empty=True):
            t = tb._test_bench
            dicts = []
            if t.get_configuration_dicts():
                dicts += [c for tc in getattr(t, "_test_cases", []) for c in [tc._get_configurations_to_run()]]
            if not dicts:
                dicts = [t._get_configurations_to_run()]
            for d in dicts:
                for c in d:
                    out.append((tb.name, t.design_unit.file_name, c))
    return out


def fake_main(self, post_run=None):
    cfgs = all_configs(self)
    path0 = list(sys.path)
    rng = random.Random(seed)
    work = list(range(len(cfgs)))
    rng.shuffle(work)
    lock = threading.Lock()
    recs = [None] * len(cfgs)

    def worker():
        while True:
            with lock:
                if not work:
                    return
                k = work.pop()
            tb, fn, c = cfgs[k]
            r = {"tb": tb, "file": str(fn), "name": c.name, "generics": {a: str(b) for a, b in c.generics.items()},
                 "pre": c.pre_config is not None}
            c21log.event("call", k)
            try:
                r["result"] = c.call_pre_config("out", "simout")
                r["exc"] = None
            except BaseException as e:
                r["result"], r["exc"] = None, f"{type(e).__name__}: {e}"
            r["ret"] = c21log.event("ret", k)
            recs[k] = r
    ts = [threading.Thread(target=worker, daemon=True) for _ in range(nthreads)]
    sys.setswitchinterval(float(os.environ.get("VURUN_SWITCH", "1e-5")))
    for t in ts:
        t.start()
    for t in ts:
        t.join(300)
    res["hung"] = any(t.is_alive() for t in ts)
    res["configs"] = recs
    res["events"] = c21log.EVENTS
    res["path_changed"] = sys.path != path0
    res["sys_path"] = list(sys.path)


vunit.VUnit.main = fake_main
sys.modules["vunit.ui"].VUnit.main = fake_main
sys.modules.setdefault("c21log", c21log)
try:
    runpy.run_path(run_py, run_name="__main__")
except SystemExit as e:
    res["error"] = f"SystemExit {e.code}"
except BaseException as e:
    import traceback
    res["error"] = traceback.format_exc()
json.dump(res, open(out_json, "w"), default=str)
os._exit(0)
