"""VHDL-side monitors: build /repo/hdl with GHDL in a scratch directory, run the driver test bench on a
command file, collect results and simulator messages per command."""
import os, re, subprocess, threading

from pymon import REPO, VERIF, Inconclusive, NPROC
import fx

GHDL = "ghdl"
ENV = dict(os.environ, GHDL_BACKEND="gcc")
HDL = [os.path.join(REPO, "hdl", f) for f in
       ("en_cl_fix_private_pkg.vhd", "en_cl_fix_pkg.vhd")]
ENT = [os.path.join(REPO, "hdl", f) for f in
       ("en_cl_fix_round.vhd", "en_cl_fix_saturate.vhd", "en_cl_fix_resize.vhd")]
FLAGS = ["--std=08", "-frelaxed"]

OPS = {"round": 0, "saturate": 1, "resize": 2, "abs": 3, "neg": 4, "add": 5, "sub": 6, "addsub": 7, "mult": 8, "shift": 9,
       "add_fmt": 20, "sub_fmt": 21, "addsub_fmt": 22, "mult_fmt": 23, "neg_fmt": 24, "abs_fmt": 25, "shift_fmt": 26,
       "shift_fmt1": 27, "round_fmt": 28, "choose": 29, "width": 30, "max": 31, "min": 32,
       "compare": 40, "sign": 41, "in_range": 42, "from_real": 50, "to_real": 51, "from_int": 52, "to_int": 53,
       "pipe_round": 60, "pipe_sat": 61, "pipe_resize": 62,
       "str_slv": 70, "str_fmt": 71, "str_rnd": 72, "str_sat": 73, "fmt_of": 74, "rnd_of": 75, "sat_of": 76,
       "pos_rnd": 77, "pos_sat": 78, "fmt_loop": 79, "pos_high": 80}


def run(cmd, cwd, timeout=800):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", timeout=timeout)


def analyse(workdir, files, lib="work", extra=()):
    cmd = [GHDL, "-a", *FLAGS, f"--work={lib}", f"--workdir={workdir}", f"-P{workdir}", *extra, *files]
    r = run(cmd, workdir)
    if r.returncode:
        raise Inconclusive("GHDL analysis failed:\n" + r.stdout[-3000:])


def elaborate(workdir, top, lib="work"):
    r = run([GHDL, "-e", *FLAGS, f"--work={lib}", f"--workdir={workdir}", f"-P{workdir}", top], workdir)
    if r.returncode:
        raise Inconclusive("GHDL elaboration failed:\n" + r.stdout[-3000:])


def build_driver(workdir):
    analyse(workdir, HDL + [os.path.join(VERIF, "vhdl", "drv_tb.vhd")])
    elaborate(workdir, "drv_tb")


MSG = re.compile(r"^(?P<src>[^:\n]*):(?P<line>\d+):(?P<col>\d+):@(?P<t>[0-9]+)(?P<u>[a-z]+):\((?P<kind>assertion|report) (?P<sev>\w+)\): ?(?P<text>.*)$")
UNIT = {"fs": 1e-6, "ps": 1e-3, "ns": 1, "us": 1e3, "ms": 1e6, "sec": 1e9}


def messages(out):
    """Simulator messages as (time in ns, severity, text), without those of the ieee libraries."""
    ms = []
    for line in out.splitlines():
        m = MSG.match(line)
        if m and "ieee" not in m["src"] and "numeric_std" not in m["src"] and "math_real" not in m["src"]:
            ms.append((int(round(int(m["t"]) * UNIT[m["u"]])), m["sev"], m["text"]))
    return ms


def fmts(f):
    return f"{f[0]} {f[1]} {f[2]}" if f else "0 0 1"


def tobits(v, f):
    n = fx.width(f)
    if n == 0:
        return "-"
    return format(v & ((1 << n) - 1), f"0{n}b")


def frombits(s, f):
    """Two's complement value of a result; None if malformed."""
    n = fx.width(f)
    if n == 0:
        return 0 if s == "-" else None
    if len(s) != n or set(s) - set("01"):
        return None
    v = int(s, 2)
    return v - (1 << n) if f[0] and v >> (n - 1) else v


def line(op, a=None, fa=None, b=None, fb=None, rf=None, rnd="Trunc_s", sat="None_s", x=0, y=0, da=0, db=0, txt=""):
    ab = tobits(a, fa) if a is not None else "-"
    bb = tobits(b, fb) if b is not None else "-"
    return (f"{OPS[op]} {da} {db} {fmts(fa)} {fmts(fb)} {fmts(rf)} {fx.MODES.index(rnd)} {fx.SATS.index(sat)} {x} {y} "
            f"{ab} {bb} |{txt}\n")


class Out:
    """results[i]: payload of command i or None; msgs[i]: list of (severity, text); rc; complete."""


def drive(workdir, lines, tag="0", timeout=600, flags=(), exe="drv_tb"):
    cmd = os.path.join(workdir, f"cmd{tag}.txt")
    res = os.path.join(workdir, f"out{tag}.txt")
    with open(cmd, "w") as f:
        f.writelines(lines)
    if os.path.exists(res):
        os.unlink(res)
    r = run([os.path.join(workdir, exe), f"-gcmd_file_g={cmd}", f"-gout_file_g={res}", "--max-stack-alloc=0", *flags], workdir, timeout)
    o = Out()
    o.rc = r.returncode
    o.text = r.stdout
    o.results = [None] * len(lines)
    if os.path.exists(res):
        for l in open(res, errors="replace"):
            k, _, p = l.rstrip("\n").partition(" ")
            if k.isdigit() and int(k) < len(lines):
                o.results[int(k)] = p
    o.msgs = [[] for _ in lines]
    o.complete = False
    for t, sev, text in messages(r.stdout):
        if "driver done" in text:
            o.complete = True
        elif t < len(lines):
            o.msgs[t].append((sev, text))
    return o


def drive_all(workdir, lines, chunks=NPROC, restarts=3, exe="drv_tb"):
    """Runs the commands in parallel simulator processes.  A command on which the simulation stops has no
    result (it is recorded as 'died' with the tail of the simulator's output) and the run resumes behind it."""
    n = len(lines)
    o = Out()
    o.results = [None] * n
    o.msgs = [[] for _ in range(n)]
    o.died = {}
    o.skipped = 0
    errs = []

    def one(k, lo, hi):
        try:
            left = restarts
            while lo < hi:
                r = drive(workdir, lines[lo:hi], tag=f"{k}", exe=exe)
                for i in range(hi - lo):
                    o.results[lo + i] = r.results[i]
                    o.msgs[lo + i] = r.msgs[i]
                if r.complete and r.rc == 0:
                    return
                if "bad op" in r.text or "driver: bad" in r.text:
                    raise Inconclusive("driver rejected a command: " + r.text[-500:])
                # the command executing at the last message / first missing result died
                miss = next((i for i in range(hi - lo) if r.results[i] is None), None)
                if miss is None:
                    raise Inconclusive("simulation ended abnormally without a missing result: " + r.text[-800:])
                # output is buffered: find the exact command by bisection on the missing tail
                d = locate(k, lo + miss, hi)
                if d is None:
                    raise Inconclusive("cannot locate the failing command: " + r.text[-800:])
                i, text = d
                # rerun the part before it for complete results and messages
                if i > lo:
                    r = drive(workdir, lines[lo:i], tag=f"{k}", exe=exe)
                    for j in range(i - lo):
                        o.results[lo + j] = r.results[j]
                        o.msgs[lo + j] = r.msgs[j]
                o.results[i] = None
                o.died[i] = text
                lo = i + 1
                left -= 1
                if left < 0:
                    for j in range(lo, hi):
                        o.results[j] = None
                        o.msgs[j] = []
                    o.skipped += hi - lo
                    return
        except Exception as e:
            errs.append(e)

    def locate(k, lo, hi):
        # smallest i in [lo, hi) such that commands lo..i fail
        a, b = lo, hi - 1
        r = drive(workdir, lines[lo:hi], tag=f"{k}", exe=exe)
        if r.complete and r.rc == 0:
            return None
        while a < b:
            m = (a + b) // 2
            r = drive(workdir, lines[a:m + 1], tag=f"{k}", exe=exe)
            if r.complete and r.rc == 0:
                a = m + 1
            else:
                b = m
        r = drive(workdir, [lines[a]], tag=f"{k}", exe=exe)
        if r.complete and r.rc == 0:
            return None
        return a, r.text[-600:]

    bounds = [n * k // chunks for k in range(chunks + 1)]
    ths = [threading.Thread(target=one, args=(k, bounds[k], bounds[k + 1])) for k in range(chunks) if bounds[k] < bounds[k + 1]]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if errs:
        raise errs[0]
    return o
