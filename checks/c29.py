"""C29: verdicts of the real test benches on generated co-simulation data, with and without one deviation."""
import glob, os, random, re, shutil, subprocess, sys, time
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

import fx, vhdl
from pymon import REPO, SEED, TIER, Stop, Inconclusive, run_pool, finish, Scratch, NPROC
from c13_c17 import round_fmt

OPS = ["add", "sub", "addsub", "mult", "neg", "abs", "shift", "compare", "round", "saturate", "resize", "from_real"]
BLOCKS = ["round", "saturate", "resize"]
CMP = ["eq", "neq", "less", "greater", "leq", "geq"]
CMPF = [lambda a, b: a == b, lambda a, b: a != b, lambda a, b: a < b, lambda a, b: a > b, lambda a, b: a <= b, lambda a, b: a >= b]

RUN = r"""
import glob, os, sys
from vunit import VUnit
out, repo, flt = sys.argv[1:4]
vu = VUnit.from_argv(["--output-path", out, "--compile", "--minimal", "--no-color", "-q"])
vu.add_vhdl_builtins(); vu.add_osvvm(); vu.add_verification_components(); vu.add_random()
vu.add_library("en_tb").add_source_files(repo + "/lib/en_tb/hdl/*.vhd", vhdl_standard="2008")
l = vu.add_library("lib")
l.add_source_files([repo + "/hdl/*.vhd", repo + "/tb/util/*.vhd", repo + "/tb/*.vhd", repo + "/lib/en_tb/tb/*.vhd"], vhdl_standard="2008")
l = vu.add_library("libf")
l.add_source_files(flt + "/*.vhd", vhdl_standard="2008")
vu.set_compile_option("ghdl.a_flags", ["-frelaxed", "--warn-no-hide", "--warn-no-specs"])
vu.main()
"""

# Stands between the test bench and the real block (compiled under the name <block>_real) and disturbs output n_v of the
# instance of test case idx_v.
WRAP = r"""
library ieee; use ieee.std_logic_1164.all;
use std.textio.all;
library work; use work.en_cl_fix_pkg.all;
entity en_cl_fix_{n} is
    generic(in_fmt_g : FixFormat_t; out_fmt_g : FixFormat_t; {mg} reg_mode_g : RegisterMode_t; meta_width_g : natural := 0{xg});
    port(clk : in std_logic; rst : in std_logic; in_valid : in std_logic; in_meta : in std_logic_vector(meta_width_g-1 downto 0);
         in_data : in std_logic_vector(cl_fix_width(in_fmt_g)-1 downto 0);
         out_valid : out std_logic; out_meta : out std_logic_vector(meta_width_g-1 downto 0);
         out_data : out std_logic_vector(cl_fix_width(out_fmt_g)-1 downto 0));
end;
architecture fault of en_cl_fix_{n} is
    type par_t is array (0 to 3) of integer;
    impure function pars return par_t is
        file f : text open read_mode is "fault.txt";
        variable l : line; variable p : par_t;
    begin
        readline(f, l);
        for i in p'range loop read(l, p(i)); end loop;
        return p;
    end function;
    constant p_c : par_t := pars;   -- test case, kind, output, bit
    function has(s : string; sub : string) return boolean is
    begin
        for i in s'low to s'high - sub'length + 1 loop
            if s(i to i + sub'length - 1) = sub then return true; end if;
        end loop;
        return false;
    end function;
    constant here_c : boolean := has(en_cl_fix_{n}'path_name, "(" & integer'image(p_c(0)) & ")");
    signal r_valid : std_logic;
    signal r_meta, p_meta : std_logic_vector(meta_width_g-1 downto 0) := (others => '0');
    signal r_data, p_data : std_logic_vector(cl_fix_width(out_fmt_g)-1 downto 0) := (others => '0');
    signal cnt : natural := 0;
begin
    i_real : entity work.en_cl_fix_{n}_real
        generic map(in_fmt_g => in_fmt_g, out_fmt_g => out_fmt_g, {mm} reg_mode_g => reg_mode_g, meta_width_g => meta_width_g)
        port map(clk => clk, rst => rst, in_valid => in_valid, in_meta => in_meta, in_data => in_data,
                 out_valid => r_valid, out_meta => r_meta, out_data => r_data);
    process(clk) begin
        if rising_edge(clk) and r_valid = '1' then
            cnt <= cnt + 1; p_meta <= r_meta; p_data <= r_data;
        end if;
    end process;
    process(all)
        variable v : std_logic;
        variable m : std_logic_vector(out_meta'range);
        variable d : std_logic_vector(out_data'range);
    begin
        v := r_valid; m := r_meta; d := r_data;
        if here_c and p_c(1) = 4 and cnt = 0 and r_valid /= '1' then
            v := '1';
        end if;
        if here_c and cnt = p_c(2) then
            case p_c(1) is
                when 1 => d(p_c(3)) := not d(p_c(3));
                when 2 => m(p_c(3)) := not m(p_c(3));
                when 3 => v := '0';
                when 5 => d := p_data; m := p_meta;
                when 6 => d(p_c(3)) := 'X';
                when others => null;
            end case;
        end if;
        out_valid <= v; out_meta <= m; out_data <= d;
    end process;
end;
"""


def build(w):
    flt = os.path.join(w, "flt")
    os.mkdir(flt)
    for n in BLOCKS:
        src = open(os.path.join(REPO, "hdl", f"en_cl_fix_{n}.vhd"), errors="replace").read()
        with open(os.path.join(flt, f"real_{n}.vhd"), "w") as f:
            f.write(re.sub(r"(?i)\b(en_cl_fix_(?:round|saturate|resize))\b", r"\1_real", src))
        mg = ("round_g : FixRound_t; " if n != "saturate" else "") + ("saturate_g : FixSaturate_t;" if n != "round" else "")
        mm = ("round_g => round_g, " if n != "saturate" else "") + ("saturate_g => saturate_g," if n != "round" else "")
        with open(os.path.join(flt, f"wrap_{n}.vhd"), "w") as f:
            f.write(WRAP.format(n=n, mg=mg, mm=mm, xg="; fmt_check_g : boolean := true" if n == "round" else ""))
    for p in glob.glob(os.path.join(REPO, "hdl", "*_pkg.vhd")) + glob.glob(os.path.join(REPO, "tb", "util", "*.vhd")) + \
            [os.path.join(REPO, "tb", f"cl_fix_{n}_tb.vhd") for n in BLOCKS]:
        shutil.copy(p, flt)
    rp = os.path.join(w, "run.py")
    with open(rp, "w") as f:
        f.write(RUN)
    out = os.path.join(w, "vu")
    env = dict(vhdl.ENV, VUNIT_SIMULATOR="ghdl", VUNIT_GHDL_PATH="/usr/bin", PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([PY, rp, out, REPO, flt], cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode:
        raise Inconclusive("compilation failed:\n" + r.stdout[-4000:])
    libs = os.path.join(out, "ghdl", "libraries")
    P = [f"-P{os.path.join(libs, d)}" for d in sorted(os.listdir(libs))]
    jobs = [("lib", f"cl_fix_{o}_tb") for o in OPS] + [("lib", "en_tb_fileio_tb"), ("lib", "en_cl_fix_pkg_tb")] + [("libf", f"cl_fix_{o}_tb") for o in BLOCKS]

    def el(j):
        d = os.path.join(w, "el_" + "_".join(j))
        os.mkdir(d)
        return vhdl.run([vhdl.GHDL, "-e", *vhdl.FLAGS, f"--work={j[0]}", f"--workdir={os.path.join(libs, j[0])}", *P, "-o",
                         os.path.join(w, "_".join(j)), j[1]], d)
    with ThreadPoolExecutor(NPROC) as ex:
        for j, r in zip(jobs, ex.map(el, jobs)):
            if r.returncode:
                raise Inconclusive(f"elaboration of {j} failed:\n" + r.stdout[-3000:])


def small_fmt(rng, wmax):
    w = rng.randint(1, wmax)
    S = rng.randint(0, 1)
    n = w - S
    F = rng.choice([rng.randint(0, n), rng.randint(0, n), n + rng.randint(1, 4), -rng.randint(1, 4)])
    return (S, n - F, F)


def res_fmt(rng, F0, F=None):
    while True:
        f = (rng.randint(0, 1), rng.randint(-5, 8), F if F is not None else F0 + rng.choice([-9, -4, -3, -2, -2, -1, -1, 0, 0, 1, 3, 30]))
        if f[1] + f[2] >= 0 and fx.width(f) >= 1:
            return f


def rng_of(f):
    return range(fx.vmin(f), fx.vmax(f) + 1)


def case(rng, op):
    """One test case: dict of parameters and the list(s) of exact responses, in the order in which the benches count."""
    fa = small_fmt(rng, 4 if op in ("add", "sub", "addsub", "mult", "compare") else 6)
    fb = small_fmt(rng, 3)
    mode, sat = rng.choice(fx.MODES), rng.choice(fx.SATS)
    t = {"fa": fa, "fb": fb, "mode": mode, "sat": sat, "shift": rng.randint(-6, 6)}
    A = rng_of(fa)
    if op == "compare":
        F = max(fa[2], fb[2])
        prs = [(a << (F - fa[2]), b << (F - fb[2])) for b in rng_of(fb) for a in A]
        t["resp"] = {k: [int(f(a, b)) for a, b in prs] for k, f in zip(CMP, CMPF)}
        return t
    if op in ("add", "sub", "mult"):
        ex = [fx.op_exact(op, a, fa, b, fb) for b in rng_of(fb) for a in A]
    elif op == "addsub":
        ex = [fx.op_exact(op, a, fa, b, fb, add=bool(d)) for d in (0, 1) for b in rng_of(fb) for a in A]
    elif op in ("neg", "abs"):
        ex = [fx.op_exact(op, a, fa) for a in A]
    elif op == "shift":
        ex = [fx.op_exact(op, a, fa, shift=t["shift"]) for a in A]
    else:
        ex = [(a, fa[2]) for a in A]
    F = ex[0][1]
    if op == "round":
        rf = round_fmt(fa, fa[2] + rng.choice([-4, -3, -2, -2, -1, -1, 0, 1, 5]), mode)
        sat = "None_s"
    elif op == "saturate":
        rf, mode = res_fmt(rng, F, F=fa[2]), "Trunc_s"
    else:
        rf = res_fmt(rng, F)
    if op == "from_real":
        mode, sat = "NonSymPos_s", rng.choice(["Sat_s", "SatWarn_s"])
    t.update(rf=rf, mode=mode, sat=sat)
    if fx.width(rf) > 60 or fx.width(rf) < 1:
        return case(rng, op)
    t["resp"] = {"output": [fx.resize_exact(v, F, rf, mode, sat)[0] for v, F in ex]}
    return t


def write_data(d, op, ts):
    os.makedirs(d)

    def col(name, xs):
        with open(os.path.join(d, name), "w") as f:
            f.write(f"# {name}\n" + "".join(f"{x}\n" for x in xs))
    st = lambda f: "({},{},{})".format(*f)
    col("a_fmt.txt", [st(t["fa"]) for t in ts])
    if op in ("add", "sub", "addsub", "mult", "compare"):
        col("b_fmt.txt", [st(t["fb"]) for t in ts])
    if op != "compare":
        col("r_fmt.txt", [st(t["rf"]) for t in ts])
    col("rnd.txt", [fx.MODES.index(t["mode"]) for t in ts])
    col("sat.txt", [fx.SATS.index(t["sat"]) for t in ts])
    col("shift.txt", [t["shift"] for t in ts])
    for i, t in enumerate(ts):
        for k, v in t["resp"].items():
            col(f"test{i}_{k}.txt", v)


def simulate(exe, w, gen, tests="test"):
    """VUnit's verdict: the suite is reported as done and the simulator exits with 0."""
    o = os.path.join(w, "out")
    os.makedirs(o)
    cfg = f"active python runner : true,enabled_test_cases : {tests},output path : {o}/,seed : 0123456789abcdef,tb path : {w}/tb/,use_color : false"
    try:
        r = subprocess.run([exe, f"-grunner_cfg={cfg}", *gen, "--max-stack-alloc=0"], cwd=w, env=vhdl.ENV, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace", timeout=400)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    try:
        res = open(os.path.join(o, "vunit_results")).read()
    except OSError:
        res = ""
    return r.returncode == 0 and "test_start:" in res and "test_suite_done" in res, r.stdout[-1500:]


def bench_op(mon, rng, W, w, last_drop):
    op = rng.choice(BLOCKS if last_drop else OPS)
    block = op in BLOCKS
    ts = [case(rng, op) for _ in range(1 if last_drop else rng.choice([1, 2, 3, 4, 7]))]
    d = os.path.join(w, "bittrue", "cosim", "cl_fix_" + op, "data")
    os.makedirs(os.path.join(w, "tb"))
    write_data(d, op, ts)
    gen, lib, want, what = [], "lib", True, "none"
    mw = 0
    if block:
        mw = rng.choice([0, 8, 8, 8, 1, 13])
        gen = [f"-gmeta_width_g={mw}"]
    i = rng.choice([0, len(ts) - 1, rng.randrange(len(ts))])
    t = ts[i]
    k = rng.choice(list(t["resp"]))
    v = t["resp"][k]
    n = rng.choice([0, len(v) - 1, rng.randrange(len(v))])
    p = os.path.join(d, f"test{i}_{k}.txt")
    r = rng.random()
    if r < 0.2 and not last_drop:
        pass
    elif block and (r < 0.6 or last_drop):
        lib = "libf"
        kind = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 5, 6]) if not last_drop else 3
        bit = 0
        if kind == 2 and mw == 0:
            kind = 1
        if kind == 3:
            n = len(v) - 1 if last_drop else rng.randrange(len(v))
            if not last_drop and (mw < 8 or n > len(v) - 6):    # must show in the outputs that follow
                kind = 1
        if kind == 5 and (n == 0 or v[n] == v[n - 1]):
            kind = 6
        if kind in (1, 6):
            bit = rng.randrange(fx.width(t["rf"]))
        elif kind == 2:
            bit = rng.randrange(mw)
        with open(os.path.join(w, "fault.txt"), "w") as f:
            f.write(f"{i} {kind} {n} {bit}\n")
        want = kind == 0
        what = ["transparent stand-in", "data bit flipped", "meta bit flipped", "last output missing" if last_drop else "output missing",
                "output without input", "previous output repeated", "undefined bit"][kind]
    elif r < 0.92:
        x = v[n]
        if op == "compare":
            y = 1 - x
        else:
            lo, hi = fx.vmin(t["rf"]), fx.vmax(t["rf"])
            y = rng.choice([x - 1, x + 1, rng.randint(lo, hi), x ^ (1 << rng.randrange(max(1, fx.width(t["rf"]) - t["rf"][0])))])
            if y == x or not lo <= y <= hi:
                y = x + 1 if x < hi else x - 1
        t["resp"][k] = v[:n] + [y] + v[n + 1:]
        shutil.rmtree(d)
        write_data(d, op, ts)
        want, what = False, "response " + ("first" if n == 0 else "last" if n == len(v) - 1 else "inner") + " entry"
    elif r < 0.96:
        lines = open(p).readlines()
        with open(p, "w") as f:
            f.writelines(lines[:-1])
        want, what = False, "response cut short"
    else:
        os.unlink(p)
        want, what = False, "response file missing"
    ok, out = simulate(os.path.join(W, f"{lib}_cl_fix_{op}_tb"), w, gen)
    c = {"bench": op, "cases": len(ts), "deviation": what, "case": i, "file": k, "entry": n, "meta_width": mw, "params": {x: t[x] for x in t if x != "resp"}}
    mon.count(f"{op}: " + ("pass" if ok else "fail" if ok is not None else "timeout"))
    mon.count("deviation " + what)
    mon.count("entries in the data of a run", sum(len(x) for t in ts for x in t["resp"].values()))
    return ok, want, c, out


def fileio_data(rng, d, idx, dev):
    wid = rng.choice([1, 2, 7, 8, 31, 32, 33, 53, 64, 65, 120, 200, rng.randint(1, 130)])
    cols, rows = rng.choice([1, 1, 2, 3, 5]), rng.choice([1, 2, 5, 20])
    fs, fm = rng.choice(["signed", "unsigned"]), rng.choice(["bin", "dec", "hex"])
    with open(os.path.join(d, f"test{idx}_config.txt"), "w") as f:
        f.write(f"# data_width, file_columns\n{wid}\n{cols}\n")
    n = rng.randrange(rows * cols)
    for s in ("signed", "unsigned"):
        lo, hi = (-(1 << (wid - 1)), (1 << (wid - 1)) - 1) if s == "signed" else (0, (1 << wid) - 1)
        vals = [rng.choice([lo, hi, rng.randint(lo, hi)]) for _ in range(rows * cols)]
        for m in ("bin", "dec", "hex"):
            xs = list(vals)
            if dev == "value" and (s, m) == (fs, fm):
                xs[n] = xs[n] - 1 if xs[n] == hi else xs[n] + 1
            u = [x & ((1 << wid) - 1) for x in xs]
            tk = [str(x) for x in xs] if m == "dec" else [format(x, f"0{wid}b") for x in u] if m == "bin" else [format(x, f"0{(wid + 3) // 4}x") for x in u]
            with open(os.path.join(d, f"test{idx}_ascii_{m}_data_{s}.txt"), "w") as f:
                f.write("# data\n" + "".join(" ".join(tk[r * cols:(r + 1) * cols]) + "\n" for r in range(rows)))
    if dev == "missing":
        os.unlink(os.path.join(d, f"test{idx}_ascii_{fm}_data_{fs}.txt"))
    return {"bench": "en_tb_fileio", "width": wid, "columns": cols, "rows": rows, "deviation": dev, "file": [fs, fm], "entry": n}


def bench_fileio(mon, rng, W, w):
    idx = rng.randint(0, 11)
    d = os.path.join(w, "bittrue", "cosim", "en_tb_fileio", "data")
    os.makedirs(d)
    os.makedirs(os.path.join(w, "tb"))
    dev = rng.choice([None, "value", "value", "value", "missing"])
    c = fileio_data(rng, d, idx, dev)
    ok, out = simulate(os.path.join(W, "lib_en_tb_fileio_tb"), w, [f"-gtest_index_g={idx}"])
    mon.count("fileio: " + ("pass" if ok else "fail" if ok is not None else "timeout"))
    return ok, dev is None, c, out


PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


class Suite:
    """One of the two run scripts in a scratch copy of the repository, with the real simulator and without co-simulation."""

    def __init__(self, W, name, sub):
        self.W, self.name = W, name
        self.script = os.path.join(W, "repo", sub, "run.py")
        self.out = os.path.join(W, "suite_" + name)
        self.xml = os.path.join(W, name + ".xml")
        self.env = {k: v for k, v in vhdl.ENV.items() if not k.startswith(("EN_SIM", "VUNIT"))}
        self.env["PYTHONDONTWRITEBYTECODE"] = "1"

    def run(self, *args):
        if os.path.exists(self.xml):
            os.unlink(self.xml)
        r = subprocess.run([PY, self.script, "--no-color", "--simulator", "ghdl", "--simulator-path", "/usr/bin", "-o", self.out,
                            "--disable-cosim", "-x", self.xml, *args], cwd=self.W, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", timeout=600)
        res = {}
        if os.path.exists(self.xml):
            for c in ET.parse(self.xml).getroot().iter("testcase"):
                res[c.get("classname") + "." + c.get("name")] = c.find("failure") is None and c.find("error") is None and c.find("skipped") is None
        return r.returncode, res, r.stdout


def e2e_data(rng, W, clean):
    """Fresh data for every bench; returns the expected verdict per bench."""
    want = {}
    for op in OPS:
        d = os.path.join(W, "repo", "bittrue", "cosim", "cl_fix_" + op, "data")
        shutil.rmtree(d, ignore_errors=True)
        ts = [case(rng, op) for _ in range(rng.choice([1, 3, 5]))]
        bad = not clean and rng.random() < 0.4
        if bad:
            t = rng.choice(ts)
            k = rng.choice(list(t["resp"]))
            v = t["resp"][k]
            n = rng.choice([0, len(v) - 1, rng.randrange(len(v))])
            lo, hi = (0, 1) if op == "compare" else (fx.vmin(t["rf"]), fx.vmax(t["rf"]))
            v[n] = v[n] - 1 if v[n] == hi else v[n] + 1
        write_data(d, op, ts)
        want[f"cl_fix_{op}_tb"] = not bad
    want["en_cl_fix_pkg_tb"] = True
    return want


def e2e_fileio(rng, W, clean):
    d = os.path.join(W, "repo", "lib", "en_tb", "bittrue", "cosim", "en_tb_fileio", "data")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    want = {}
    for i in range(6):
        dev = None if clean or rng.random() < 0.6 else rng.choice(["value", "value", "missing"])
        fileio_data(rng, d, i, dev)
        want[f"en_tb_fileio_tb.TestIndex={i}."] = dev is None
    return want


def e2e(mon, S, rng, rounds):
    for r in range(rounds):
        for s, gen in ((S[0], e2e_data), (S[1], e2e_fileio)):
            want = gen(rng, s.W, r == 0)
            rc, res, out = s.run("-p", str(rng.choice([2, 5, 8])))
            c = {"suite": s.name, "want": want, "report": res, "exit": rc}
            seen = set()
            for t, ok in res.items():
                b = [k for k in want if f".{k}" in t]
                if len(b) != 1:
                    continue                                    # a bench that this check knows nothing about
                seen.add(b[0])
                mon.evals += 1
                mon.count("suite: " + ("pass" if ok else "fail"))
                mon.seen((s.name, r, t))
                if ok != want[b[0]]:
                    mon.violation(f"the suite reports {t} as {'passed' if ok else 'failed'}", output=out[-3000:], **c)
            if seen != set(want):
                mon.violation("a test bench is missing in the report of the suite", output=out[-3000:], **c)
            if (rc == 0) != all(res.values()):
                mon.violation("exit code of the run script does not fit its report", output=out[-3000:], **c)
            mon.count("suite runs")


def work(mon, tier, n, W):
    rng = mon.rng
    slow = mon.part < (3 if tier == "quick" else 8)
    for j in range(n):
        w = os.path.join(W, f"r{mon.part}")
        shutil.rmtree(w, ignore_errors=True)
        os.mkdir(w)
        if j and rng.random() < 0.12:
            ok, want, c, out = bench_fileio(mon, rng, W, w)
        else:
            ok, want, c, out = bench_op(mon, rng, W, w, not j and slow)
        mon.evals += 1; mon.seen(repr(c))
        if j < 1:
            mon.sample(c)
        if ok is None:
            mon.count("timeouts")
        elif want and not ok:
            mon.violation("a test bench fails although every result equals the data", output=out, **c)
        elif ok and not want:
            mon.violation("a test bench passes although a result differs from the data", output=out, **c)


def c29():
    t0 = time.time()
    with Scratch() as W:
        shutil.copytree(REPO, os.path.join(W, "repo"), ignore=shutil.ignore_patterns(".git", "data", "__pycache__"))
        S = [Suite(W, "main", "sim"), Suite(W, "en_tb", os.path.join("lib", "en_tb", "sim"))]
        rng = random.Random(f"C29-e2e-{SEED}")
        # the list of configurations of en_tb needs the number of data sets only
        with ThreadPoolExecutor(3) as ex:
            fs = [ex.submit(s.run, "--compile") for s in S]
            build(W)
            for s, f in zip(S, fs):
                rc, _, out = f.result()
                if rc:
                    raise Inconclusive(f"{s.script} does not compile:\n" + out[-3000:])
        w = os.path.join(W, "pkg")
        os.makedirs(w)
        pkg, out = simulate(os.path.join(W, "lib_en_cl_fix_pkg_tb"), w, [], "__all__")
        m = run_pool(work, "C29", 1000, 8000, {"W": W})
        m.evals += 1
        if not pkg:
            m.violation("the package's test bench fails", output=out)
        try:
            e2e(m, S, rng, 3 if TIER == "quick" else 12)
        except Stop:
            pass
    finish(m, t0, "one evaluation = one simulation of a test bench of the repository on generated data, its verdict (as VUnit forms it, or as the run scripts report it) "
           "compared with the verdict that the injected deviation, or its absence, calls for",
           assumptions=["GHDL", "operands of at most 6 bits, results of at most 60 bits", "outputs behind the last one and data that are not read are no deviation of a result"],
           min_evals=500, need=[f"{o}: {r}" for o in OPS + ["fileio", "suite"] for r in ("pass", "fail")] + ["deviation data bit flipped", "deviation meta bit flipped",
           "deviation last output missing", "deviation output without input", "deviation previous output repeated"])
