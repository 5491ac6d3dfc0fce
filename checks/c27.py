"""C27, C28: the run scripts drive the chosen simulator over the whole suite and report every failure.

The real run scripts are executed under the real VUnit with stand-in simulators (lib/fakesim.py): programs that
record every call they get.  The recorded calls, the report and the exit code are judged afterwards."""
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time
import xml.etree.ElementTree as ET

from c21_c22 import needed_script, stage_suite
from pymon import REPO, SEED, TIER, VERIF, Inconclusive, Scratch, finish, run_pool

PY = "/opt/venv/bin/python"
TOOLS = ["ghdl", "nvc", "vsim", "vcom", "vlog", "vlib", "vmap", "vopt", "vcover"]
SUITES = {"sim/run.py": "bittrue/cosim", "lib/en_tb/sim/run.py": "lib/en_tb/bittrue/cosim"}

STANDIN = '''
import json, os, time
HERE = os.path.dirname(os.path.abspath(__file__))
ME = os.path.basename(HERE)
{config}
def note(kind):
    with open(os.environ["FAKE_LOG"], "a") as f:
        f.write(json.dumps(dict(kind=kind, tool="cosim", name=ME, t=time.monotonic())) + "\\n")
def run():
    note("cosim start")
    time.sleep({delay})
    if {fails}:
        note("cosim fail")
        raise {exc}("failure of " + ME)
    os.makedirs(os.path.join(HERE, "data"))
    open(os.path.join(HERE, "data", "complete"), "w").close()
    note("cosim end")
if {norun}:
    del run
if {noload}:
    raise RuntimeError("loading " + ME)
'''


def toolchain(d):
    """A directory of stand-in programs."""
    b = os.path.join(d, "bin")
    os.makedirs(b)
    src = open(os.path.join(VERIF, "lib", "fakesim.py")).read()
    src = src.replace("/usr/bin/python3", os.path.realpath(sys.executable), 1)
    for t in TOOLS:
        p = os.path.join(b, t)
        with open(p, "w") as f:
            f.write(src)
        os.chmod(p, 0o755)
    with open(os.path.join(d, "modelsim.ini"), "w") as f:
        f.write("[Library]\n")
    return b


def tests_of(path):
    src = re.sub(r"--[^\n]*", "", open(path, errors="replace").read())
    ent = re.search(r"\bentity\s+(\w+)\s+is", src, re.I)
    return ent and ent.group(1).lower(), re.findall(r'\brun\s*\(\s*"([^"]+)"', src), re.search(r"\bmeta_width_g\b", src) is not None


def decl_uses(path):
    """Design units a file declares, and the names it takes from libraries."""
    src = re.sub(r"--[^\n]*", "", open(path, errors="replace").read()).lower()
    decl = set(re.findall(r"^\s*(?:package|entity|context)\s+(\w+)\s+is", src, re.M))
    uses = set(re.findall(r"\b(?:work|lib|en_tb)\.(\w+)", src))
    return decl, uses - decl


EXTERNAL = '''
import os
import common, run
HERE = os.path.dirname(os.path.abspath(__file__))
if __name__ == "__main__":
    vu = common.VUnit.from_args(args=common.args)
    vu.add_vhdl_builtins()
    vu.add_library("en_tb").add_source_files(os.path.join(HERE, {hdl!r}, "*.vhd"), vhdl_standard=common.vhdl_standard_tb)
    run.create_test_suite(vu, common.args)
    vu.main(post_run=common.post_run)
'''


class Run:
    """One execution of a run script."""

    def __init__(self, tmp, rng, run_py, sim, opts=(), env=None, how="option", spaces=False):
        self.tmp, self.rng, self.run_py, self.sim, self.opts, self.env, self.how = tmp, rng, run_py, sim, list(opts), dict(env or {}), how
        self.root = os.path.join(tmp, "my repo" if spaces else "repo")
        self.good = toolchain(os.path.join(tmp, "good tools" if spaces == "tools" else "good"))
        self.decoy = toolchain(os.path.join(tmp, "decoy"))
        stage_suite(self.root)
        self.log = os.path.join(tmp, "log")
        self.conf = {"fail_compile": [], "fail_sim": [], "delay": 0.01, "data": {}}
        self.cosim_fail = set()
        self.cosim_noload = set()
        self.external = False
        self.ntests = rng.choice([1, 2, 3, 9, 17, 40])

    def stage(self):
        """Stand-in co-simulation scripts."""
        cdir = os.path.join(self.root, SUITES[self.run_py])
        self.names = sorted(os.listdir(cdir))
        for n in self.names:
            with open(os.path.join(cdir, n, "cosim.py"), "w") as f:
                f.write(STANDIN.format(config=f"COSIM_CONFIG = {{'N_TESTS': {self.ntests}}}" if "en_tb" in self.run_py else "",
                                       delay=self.rng.choice([0, 0.02, 0.2]), fails=n in self.cosim_fail, exc=self.rng.choice(["RuntimeError", "KeyError", "AssertionError", "OSError"]),
                                       norun=n in self.cosim_fail and self.rng.random() < 0.35, noload=n in self.cosim_noload))
        base = os.path.join(self.root, os.path.dirname(os.path.dirname(self.run_py)))
        self.tb = {}
        for p in sorted(glob.glob(os.path.join(base, "tb", "*.vhd"))):
            ent, tests, meta = tests_of(p)
            if ent and tests:
                self.tb[ent] = dict(file=p, tests=tests, meta=meta, need=[x for x in needed_script(p) if x in self.names])
        self.conf["data"] = {e: {n: os.path.join(cdir, n) for n in t["need"]} for e, t in self.tb.items()}
        main = self.run_py == "sim/run.py"
        self.files = {os.path.realpath(p): (lib, tb) for lib, tb, pat in
                      ([("lib", False, "hdl/*.vhd"), ("lib", True, "tb/util/*.vhd"), ("lib", True, "tb/*.vhd")] if main else
                       [("lib", True, "lib/en_tb/tb/*.vhd")]) + [("en_tb", True, "lib/en_tb/hdl/*.vhd")]
                      for p in glob.glob(os.path.join(self.root, pat))}

    def execute(self, name, path, timeout=300):
        env = {k: v for k, v in os.environ.items() if not k.startswith(("EN_SIM", "VUNIT", "VERIF", "FAKE"))}
        env.update(PYTHONDONTWRITEBYTECODE="1", FAKE_LOG=self.log, FAKE_CONF=os.path.join(self.tmp, "conf.json"),
                   PATH=self.decoy + os.pathsep + env.get("PATH", "/usr/bin:/bin"), **self.env)
        json.dump(self.conf, open(env["FAKE_CONF"], "w"))
        self.xml = os.path.join(self.tmp, "report.xml")
        args = []
        if name is not None:
            if self.how == "env":
                env["EN_SIM_NAME"] = name
            else:
                args += self.rng.choice([["--simulator", name], ["--simulator=" + name]])
                if self.how == "both":
                    env["EN_SIM_NAME"] = self.rng.choice(["ghdl", "nvc", "modelsim", "questa", "xsim"])
        if path is not None:
            if self.how == "env":
                env["EN_SIM_BIN"] = path
            else:
                args += self.rng.choice([["--simulator-path", path], ["-s", path], ["--simulator-path=" + path]])
                if self.how == "both":
                    env["EN_SIM_BIN"] = self.decoy
        script = os.path.join(self.root, self.run_py)
        if self.external:
            script = os.path.join(os.path.dirname(script), "my_run.py")
            with open(script, "w") as f:
                f.write(EXTERNAL.format(hdl="../lib/en_tb/hdl" if self.run_py == "sim/run.py" else "../hdl"))
        cwd = self.rng.choice([os.path.dirname(script), self.tmp, self.root])
        self.cmd = args + self.opts
        try:
            p = subprocess.run([PY, self.rng.choice([script, os.path.relpath(script, cwd)]), "--no-color", "-o", os.path.join(self.tmp, "vunit_out"),
                                "-x", self.xml, "-u", *args, *self.opts],
                               cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            self.rc, self.out = None, ""
        else:
            self.rc, self.out = p.returncode, p.stdout
        self.events = [json.loads(x) for x in open(self.log)] if os.path.exists(self.log) else []
        self.report = {}
        if os.path.exists(self.xml):
            for c in ET.parse(self.xml).getroot().iter("testcase"):
                st = "skipped" if c.find("skipped") is not None else "failed" if c.find("failure") is not None or c.find("error") is not None else "passed"
                self.report[c.get("classname") + "." + c.get("name")] = st


def invalid_case(m, rng, run_py):
    """A run script without a usable simulator stops before anything runs."""
    kinds = ["none", "no name", "no path", "unknown", "unknown env", "empty"]
    kind = rng.choice(kinds)
    with Scratch() as tmp:
        r = Run(tmp, rng, run_py, None)
        r.stage()
        name, path = "ghdl", r.good
        if kind == "none":
            name = path = None
        elif kind == "no name":
            name = None
        elif kind == "no path":
            name, path = rng.choice(["ghdl", "nvc", "questa", "modelsim"]), None
        elif kind in ("unknown", "unknown env"):
            name = rng.choice(["xsim", "rivierapro", "activehdl", "incisive", "icarus", "vcs", "ghdl2", "nv"])
            r.how = "env" if kind == "unknown env" else "option"
        else:
            name = ""
        r.execute(name, path)
        case = dict(run=run_py, kind=kind, name=name, seed=SEED, out=r.out[-500:])
        m.evals += 1
        m.count("runs without a usable simulator")
        m.seen(("invalid", run_py, kind, name))
        if r.rc == 0:
            m.violation("a run without a usable simulator reports success", **case)
        elif r.rc is None:
            m.violation("a run without a usable simulator does not end", **case)
        if r.events:
            m.violation(f"a run without a usable simulator called {r.events[0]['tool']}", **case)
        if kind in ("none", "no name", "no path", "unknown") and "--simulator" not in r.out:
            m.violation("a run without a usable simulator does not say which option is missing", **case)


def wrong_path_case(m, rng, run_py):
    """A path without the simulator: no other simulator is used instead."""
    with Scratch() as tmp:
        sim = rng.choice(["ghdl", "nvc", "modelsim", "questa"])
        r = Run(tmp, rng, run_py, sim)
        r.stage()
        empty = os.path.join(tmp, "empty", "bin")
        os.makedirs(empty)
        r.execute(sim, empty)
        m.evals += 1
        m.count("runs with a path without simulator")
        m.seen(("path", run_py, sim))
        case = dict(run=run_py, sim=sim, seed=SEED, out=r.out[-500:])
        if r.rc == 0:
            m.violation("a run with a path that has no simulator reports success", **case)
        used = [e for e in r.events if e["tool"] != "cosim"]
        if used:
            m.violation(f"a run with a path that has no simulator used {used[0]['bin']}", **case)


def suite_case(m, rng, run_py, sim, mode, cov, how, external=False):
    opts = ["-p", str(rng.choice([1, 2, 4, 8]))]
    if cov:
        opts.append(rng.choice(["--coverage", "-c"]))
    disabled = mode == "disable"
    if disabled:
        opts.append("--disable-cosim")
    env = {}
    if rng.random() < 0.5:
        env = {"VUNIT_SIMULATOR": rng.choice(["ghdl", "nvc", "modelsim", "rivierapro"])}
    # a space in the simulator's path; in the path of the repository only where VUnit itself bears it
    spaces = rng.random() < 0.4 and "tools"
    with Scratch() as tmp:
        r = Run(tmp, rng, run_py, sim, opts, env, how, spaces)
        if env:
            r.env.update({f"VUNIT_{x}_PATH": r.decoy for x in ("GHDL", "NVC", "MODELSIM")})
        r.stage()
        nocov = os.path.join(r.root, os.path.dirname(run_py), "coverage")
        os.makedirs(nocov, exist_ok=True)
        for f in os.listdir(nocov):
            if f.endswith(".ucdb"):
                os.remove(os.path.join(nocov, f))
        ents = sorted(r.tb)
        keys = {}                                              # expected simulations
        for e, t in r.tb.items():
            if "en_tb" in run_py and t["need"]:
                keys[e] = [f"{e} test_index_g={i}" for i in range(r.ntests)]
            elif t["meta"]:
                keys[e] = [f"{e} meta_width_g=0", f"{e} meta_width_g=8"]
            else:
                keys[e] = [e]
        if mode == "simfail":
            flat = [k for ks in keys.values() for k in ks]
            for k in rng.sample(flat, min(len(flat), rng.choice([1, 1, 2, 4]))):
                r.conf["fail_sim"].append([k, rng.choice(["last", "crash"])])
        elif mode == "cosimfail":
            with_need = sorted({n for t in r.tb.values() for n in t["need"]})
            r.cosim_fail = set(rng.sample(with_need, min(len(with_need), rng.choice([1, 1, 2, 3]))))
            r.stage()
        elif mode == "loadfail":
            r.cosim_noload = {rng.choice(sorted({n for t in r.tb.values() for n in t["need"]}))}
            r.stage()
        elif mode == "compilefail":
            r.conf["fail_compile"] = [os.path.basename(rng.choice(sorted(r.files)))]
        # another project's run script, which has the library en_tb already, using the suite
        r.external = external
        if r.external:
            m.count("suites used by another run script")
        r.execute(sim, r.good)
        case = dict(run=run_py, external=r.external, sim=sim, mode=mode, coverage=cov, how=how, cmd=r.cmd, env=sorted(env), seed=SEED, n_tests=r.ntests,
                    fails=r.conf["fail_sim"] or sorted(r.cosim_fail | r.cosim_noload) or r.conf["fail_compile"], tools=os.path.basename(os.path.dirname(r.good)))
        m.seen((run_py, sim, mode, cov, how, tuple(map(str, case["fails"]))))
        m.count(f"suite runs with {sim}")
        m.count("suite runs, " + {"plain": "all well", "disable": "co-simulation disabled", "simfail": "failing simulations",
                                  "cosimfail": "failing co-simulations", "compilefail": "a file that does not compile", "loadfail": "a co-simulation that cannot be loaded"}[mode])
        m.count("selection by " + how)
        judge(m, r, case, keys, disabled, cov, mode)


def judge(m, r, case, keys, disabled, cov, mode):
    ev = r.events

    def bad(what, **kw):
        m.violation(what, **case, **kw, out=r.out[-600:])

    m.evals += len(ev) + 1
    m.count("files compiled", sum(e["kind"] == "compile" and e["file"] in r.files for e in ev))
    m.count("simulations", sum(e["kind"] == "simulate" for e in ev))
    if r.rc is None:
        return bad("the run does not end")
    if m.prop == "C27":
        judge_setup(m, r, case, cov, mode, ev, bad)
    else:
        judge_suite(m, r, case, keys, disabled, mode, ev, bad)


def judge_setup(m, r, case, cov, mode, ev, bad):
    tools = [e for e in ev if e["tool"] != "cosim"]
    wrong = [e for e in tools if os.path.realpath(e["bin"]) != os.path.realpath(r.good)]
    if wrong:
        return bad(f"a program outside the chosen simulator path was called: {wrong[0]['bin']}/{wrong[0]['tool']}")
    family = {"ghdl": {"ghdl"}, "nvc": {"nvc"}}.get(r.sim, {"vsim", "vcom", "vlib", "vmap", "vlog", "vopt", "vcover"})
    other = {e["tool"] for e in tools} - family
    if other:
        return bad(f"programs of another simulator were called: {sorted(other)}")
    # 1. compilation
    comp = [e for e in ev if e["kind"] == "compile" and e["file"] in r.files]
    seen = {}
    for e in comp:
        rel = os.path.relpath(e["file"], os.path.realpath(r.root))
        lib, tb = r.files[e["file"]]
        want = "2008" if tb or r.sim in ("ghdl", "nvc") else "93"
        if e["std"] != want:
            bad(f"{rel} was compiled as VHDL-{e['std']}, {r.sim} needs {want}")
            return
        if e["lib"] != lib:
            return bad(f"{rel} was compiled into library {e['lib']}")
        if e["file"] in seen:
            return bad(f"{rel} was compiled twice")
        seen[e["file"]] = len(seen)
    left = sorted(os.path.relpath(f, r.root) for f in set(r.files) - set(seen))
    if left:
        return bad(f"{len(left)} source files were not compiled, e.g. {left[:3]}")
    du = {f: decl_uses(f) for f in r.files}
    for f, (d, u) in du.items():
        for x in u:
            for g, (d2, _) in du.items():
                if x in d2 and seen[g] > seen[f]:
                    return bad(f"{os.path.basename(f)} was compiled before {os.path.basename(g)}, which it uses")
    # 2. coverage
    sims = [e for e in ev if e["kind"] == "simulate"]
    view = [e for e in ev if e["kind"] == "viewcov"]
    merged = [e for e in ev if e["kind"] == "vcover"]
    here = os.path.realpath(os.path.join(r.root, os.path.dirname(r.run_py)))
    if r.sim in ("modelsim", "questa"):
        flags = [("-coverage" in s["flags"]) for s in sims]
        if any(f != cov for f in flags):
            return bad("coverage is collected by %d of %d simulations, %srequested" % (sum(flags), len(flags), "" if cov else "not "))
        if cov:
            m.count("coverage reports")
            ok = len(merged) == 1 and len(merged[0]["inputs"]) == len(sims) and merged[0]["target"].startswith(here + os.sep)
            if not ok:
                return bad("the coverage of the simulations was not merged", merged=merged, simulations=len(sims))
            if len(view) != 1 or view[0]["data"] != merged[0]["target"] or not view[0]["exists"] or view[0]["t"] < merged[0]["t"]:
                return bad("no coverage report was generated from the merged data", view=view)
            if os.path.realpath(view[0]["cwd"]) != here:
                return bad("the coverage report is generated in another directory", view=view)
        opt = {e["design"].lower() for e in ev if e["kind"] == "optimize"}
        if r.sim == "modelsim" and opt:
            return bad("the design was optimised separately, which is a flow of Questa only")
        if r.sim == "questa":
            m.count("designs optimised", len(opt))
            if {s["entity"].lower() for s in sims} - opt:
                return bad("a design was simulated in Questa without having been optimised")
    if (not cov or r.sim in ("ghdl", "nvc")) and (view or merged):
        return bad("a coverage report was generated that was not asked for")


def judge_suite(m, r, case, keys, disabled, mode, ev, bad):
    comp = [e for e in ev if e["kind"] == "compile" and e["file"] in r.files]
    if mode == "loadfail":
        if r.rc == 0:
            bad("a run in which a co-simulation could not be loaded reports success")
        if any(e["kind"] == "simulate" for e in ev):
            bad("a simulation was started although a co-simulation could not be loaded")
        return
    if mode == "compilefail":
        if r.rc == 0:
            bad("a run in which a file did not compile reports success")
        if not any(not e["ok"] for e in comp):
            bad("the file that does not compile was never compiled")
        if any(e["kind"] == "simulate" for e in ev):
            bad("a simulation was started although a file did not compile")
        return
    sims = [e for e in ev if e["kind"] == "simulate"]
    got = {}
    for e in sims:
        k = e["entity"].lower() + "".join(f" {a}={b}" for a, b in sorted(e["generics"].items()))
        got.setdefault(k, []).append(e)
        if e["lib"] != "lib":
            return bad(f"{k} was simulated from library {e['lib']}")
    failing_tb = {e for e, t in r.tb.items() if set(t["need"]) & r.cosim_fail} if not disabled else set()
    for e, ks in keys.items():
        t = r.tb[e]
        for k in ks:
            runs = got.pop(k, [])
            tests = [x for s in runs for x in s["tests"]]
            if e in failing_tb:
                if runs:
                    return bad(f"{k} was simulated although its co-simulation failed")
                continue
            if sorted(tests) != sorted(t["tests"]):
                return bad(f"of the tests {t['tests']} of {k}, {tests} were simulated")
            for s in runs:
                m.count("simulations judged")
                if not disabled and not all(s["data"].values()):
                    return bad(f"{k} was simulated before its data was generated")
    if got:
        return bad(f"unexpected simulations: {sorted(got)[:3]}")
    if disabled and any(e["tool"] == "cosim" for e in ev):
        return bad("a co-simulation was executed although it is disabled")
    # the report and the exit code
    broken = {k for k, _ in r.conf["fail_sim"]} | {k for e in failing_tb for k in keys[e]}
    nfail = sum(1 for v in r.report.values() if v == "failed")
    npass = sum(1 for v in r.report.values() if v == "passed")
    ntotal = sum(len(r.tb[e]["tests"]) * len(ks) for e, ks in keys.items())
    m.count("failures reported", nfail)
    if bool(broken) != (r.rc != 0):
        return bad(f"{len(broken)} configurations failed, the exit code is {r.rc}")
    if npass + nfail != ntotal or bool(nfail) != bool(broken) or nfail < len(broken):
        return bad(f"the report has {npass} passed and {nfail} failed of {ntotal} tests; {len(broken)} configurations failed")
    for k in broken:
        e = k.split()[0]
        mine = [n for n, v in r.report.items() if v == "failed" and n.lower().startswith(f"lib.{e}.")]
        if not mine:
            return bad(f"{k} failed, the report says {[(n, v) for n, v in r.report.items() if e in n.lower()][:4]}")


def worker(m, tier, n):
    rng = m.rng
    jobs = []
    master = random.Random(f"{m.prop}-{SEED}")
    reps = (2 if m.prop == "C27" else 1) if tier == "quick" else 12
    for rep in range(reps):
        for rp in SUITES:
            for sim in ("ghdl", "nvc", "modelsim", "questa"):
                if m.prop == "C27":
                    jobs.append((suite_case, rp, sim, "plain", False))
                    if sim in ("modelsim", "questa") or rep % 2:
                        jobs.append((suite_case, rp, sim, "plain", True))
                else:
                    for mode in ("simfail", "cosimfail", "disable", "compilefail"):
                        if rep or mode in ("simfail", "cosimfail") or master.random() < 0.5:
                            jobs.append((suite_case, rp, sim, mode, mode == "simfail" and sim in ("modelsim", "questa") or mode not in ("compilefail", "simfail") and master.random() < 0.3))
            if m.prop == "C27":
                jobs += [(invalid_case, rp)] * 8 + [(wrong_path_case, rp)] * 3
            else:
                jobs.append((suite_case, rp, master.choice(["ghdl", "nvc", "modelsim", "questa"]), "loadfail", False))
                jobs.append((suite_case, rp, master.choice(["ghdl", "nvc", "modelsim", "questa"]), "plain", master.random() < 0.3))
    hows = [("option", False), ("env", False), ("both", False), ("option", m.prop == "C27")]
    k = master.randrange(4)
    for i, j in enumerate(jobs):
        if j[0] is suite_case:
            jobs[i] = j + hows[(i + k) % 4]
    master.shuffle(jobs)
    for j in jobs[m.part::m.nparts]:
        j[0](m, rng, *j[1:])


ASSUME = ["The stand-in simulators behave as VUnit expects of the real ones", "Coverage reports go to a directory 'coverage' beside the run script, which exists"]


def c27():
    t0 = time.time()
    m = run_pool(worker, "C27", 1, 1)
    finish(m, t0, "both run scripts under the real VUnit with recording stand-in simulators: four simulators, selected by option, environment or both against decoys, with and "
                  "without coverage, from another run script, and without a usable simulator; distinct = (script, simulator, kind of run, selection)",
           min_evals=1500, assumptions=ASSUME,
           need=["simulations", "files compiled", "coverage reports", "designs optimised", "runs without a usable simulator", "runs with a path without simulator",
                 "selection by env", "selection by both", "suite runs, all well", "suites used by another run script"])


def c28():
    t0 = time.time()
    m = run_pool(worker, "C28", 1, 1)
    finish(m, t0, "both run scripts under the real VUnit with recording stand-in simulators and failing simulations, co-simulations and compilations; "
                  "distinct = (script, simulator, kind of run, selection, failures)",
           min_evals=1500, assumptions=ASSUME,
           need=["simulations judged", "files compiled", "failures reported", "suite runs, all well", "suite runs, failing simulations", "suite runs, failing co-simulations",
                 "suite runs, co-simulation disabled", "suite runs, a file that does not compile"])
