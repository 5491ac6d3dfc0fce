"""C18: pipelined blocks, judged from the per-clock log of all ports."""
import os, time

import fx, vhdl
from pymon import VERIF, run_pool, finish, Scratch, Inconclusive
from c13_c17 import round_fmt, boundary_vals

REGS = ["Auto_s", "Yes_s", "No_s"]


def config(rng):
    kind = rng.choice([0, 1, 2, 2])
    while True:
        wmax = rng.choice([6, 12, 40, 100])
        fa = fx.rand_fmt(rng, wmax=wmax)
        mode, sat = rng.choice(fx.MODES), rng.choice(fx.SATS)
        check = 1
        if kind == 0:
            rf = round_fmt(fa, fa[2] - rng.choice([-2, -1, 0, 1, 1, 2, 3, 6, fx.width(fa)]), mode)
            if rng.random() < 0.3:
                check = 0
                rf = (rf[0], rf[1] + rng.choice([-2, -1, 0, 1, 3]), rf[2])
                if rf[1] + rf[2] < 0 or fa[0] + rf[1] + fa[2] < 1:
                    continue
        elif kind == 1:
            rf = fx.near_fmt(rng, fa, F=fa[2])
        else:
            rf = fx.near_fmt(rng, fa)
        if fx.width(rf) >= 1 and fx.width(rf) < 300:
            return kind, fa, rf, mode, sat, check


def stages(kind, fa, rf, mode, sat):
    """Per stage: set of register counts that 'recommended' may give (0 only where no logic is needed)."""
    out = []
    mid = fa
    if kind != 1:
        active = mode != "Trunc_s" and rf[2] < fa[2]
        out.append({1} if active else {0})
        mid = round_fmt(fa, rf[2], mode)
    if kind != 0:
        if sat in ("None_s", "Warn_s") or (rf[1] >= mid[1] and rf[0] == mid[0]):
            out.append({0})
        elif rf[0] >= mid[0] and rf[1] >= mid[1]:
            out.append({0, 1})      # unsigned into signed: nothing can saturate, a register is harmless
        else:
            out.append({1})
    return out


def stimulus(rng, kind, fa, rf, mode, mw, n):
    drop = fa[2] - rf[2]
    vals = fx.rand_vals(rng, fa, 12, drop) + boundary_vals(rng, fa, rf, drop)
    style = rng.choice(["full", "gaps", "rare", "burst"])
    rst_style = rng.choice(["start", "traffic", "traffic", "pulses", "never", "long"])
    cyc = []
    run = 0
    rleft = rng.choice([1, 2, 3]) if rst_style != "never" else 0
    tag = 0
    for c in range(n):
        if rleft > 0:
            rst, rleft = 1, rleft - 1
        else:
            rst = 0
            if rst_style == "traffic" and rng.random() < 0.08:
                rst, rleft = 1, rng.choice([0, 0, 1, 2])
            elif rst_style == "pulses" and rng.random() < 0.3:
                rst = 1
            elif rst_style == "long" and rng.random() < 0.05:
                rst, rleft = 1, rng.randrange(3, 8)
        if style == "full":
            v = 1
        elif style == "gaps":
            v = int(rng.random() < 0.6)
        elif style == "rare":
            v = int(rng.random() < 0.2)
        else:
            if run == 0:
                run = rng.randrange(1, 9) * rng.choice([1, -1])
            v = int(run > 0)
            run -= 1 if run > 0 else -1
        # every sample has its own meta value as long as the width allows it
        tag += 1
        meta = tag % (1 << mw) if mw and rng.random() < 0.8 else rng.randrange(1 << mw) if mw else 0
        cyc.append((rst, v, meta, rng.choice(vals)))
    return cyc


def write_stimulus(st, cyc, fa, mw):
    with open(st, "w") as f:
        for rst, v, meta, a in cyc:
            f.write(f"{rst} {v} {format(meta, f'0{mw}b') if mw else '-'} {vhdl.tobits(a, fa)}\n")


def generics(kind, fa, rf, mode, sat, reg, mw, check, st, lg):
    g = dict(kind_g=kind, s1_g=fa[0], i1_g=fa[1], f1_g=fa[2], s2_g=rf[0], i2_g=rf[1], f2_g=rf[2], rnd_g=fx.MODES.index(mode),
             sat_g=fx.SATS.index(sat), reg_g=reg, meta_g=mw, check_g=check, stim_g=st, log_g=lg)
    return [f"-g{k}={v}" for k, v in g.items()]


def worker(m, tier, n, wd=None):
    rng = m.rng
    exe = os.path.join(wd, "pipe_tb")
    sub = os.path.join(wd, f"p{m.part}")
    os.makedirs(sub, exist_ok=True)
    st, lg = os.path.join(sub, "stim.txt"), os.path.join(sub, "log.txt")
    for _ in range(n):
        if m.viol:
            return
        kind, fa, rf, mode, sat, check = config(rng)
        reg = rng.randrange(3)
        mw = rng.choice([0, 1, 3, 8, 8, 12, 33])
        cyc = stimulus(rng, kind, fa, rf, mode, mw, rng.choice([30, 60, 120]))
        write_stimulus(st, cyc, fa, mw)
        if os.path.exists(lg):
            os.unlink(lg)
        g = generics(kind, fa, rf, mode, sat, reg, mw, check, st, lg)
        r = vhdl.run([exe, *g, "--max-stack-alloc=0", "--ieee-asserts=disable"], sub, 120)
        name = ["round", "saturate", "resize"][kind]
        desc = f"{name} {fa} -> {rf}" + (f" {mode}" if kind != 1 else "") + (f" {sat}" if kind != 0 else "") + f" {REGS[reg]} meta {mw} fmt_check {check}"
        m.count("configurations")
        m.count(f"{name} {REGS[reg]}")
        if r.returncode or "driver done" not in r.stdout:
            m.evals += 1
            m.violation("legal configuration stopped the simulation", case=desc, simulator=r.stdout[-600:])
            return
        lines = open(lg).read().split("\n")
        if lines and lines[-1] == "":
            lines.pop()
        if len(lines) != len(cyc) + 1:
            raise Inconclusive("incomplete log")
        rec = int(lines[0])
        log = [l.split(" ") for l in lines[1:]]
        # number of registers
        st_ = stages(kind, fa, rf, mode, sat)
        sums = {0}
        for s in st_:
            sums = {x + y for x in sums for y in s}
        if rec not in sums:
            m.violation("recommended pipelining is not one per active stage", case=desc, recommended=rec, expected=sorted(sums))
            return
        L = {"Auto_s": rec, "Yes_s": len(st_), "No_s": 0}[REGS[reg]]
        m.count(f"latency {L}")
        # queue model
        bad = None
        killed = delivered = 0
        for c, o in enumerate(log):
            k = c - L
            if k < 0:
                if o[0] == "1":
                    bad = (c, "valid output before any input could arrive")
                    break
                continue
            alive = cyc[k][1] and not any(cyc[j][0] for j in range(k, c))
            if cyc[k][1] and not alive:
                killed += 1
            if o[0] not in "01":
                bad = (c, "out_valid undefined")
                break
            if int(o[0]) != int(bool(alive)):
                bad = (c, "sample lost or late" if alive else "spurious, early, duplicated or unreset sample")
                break
            if not alive:
                continue
            delivered += 1
            m.evals += 1
            want_meta = format(cyc[k][2], f"0{mw}b") if mw else "-"
            if o[1] != want_meta:
                bad = (c, f"side-band data {o[1]} instead of {want_meta}")
                break
            a = cyc[k][3]
            rr = fx.round_exact(a, fa[2], rf[2], mode if kind != 1 else "Trunc_s")
            want = fx.sat_exact(rr, rf, sat if kind != 0 else "None_s")
            if vhdl.frombits(o[2], rf) != want:
                bad = (c, f"data {o[2]} instead of {vhdl.tobits(want, rf)} for input {a}")
                break
            if len(m.distinct) < 400000:
                m.seen((kind, fa, rf, mode, sat, reg, a))
        m.count("samples delivered", delivered)
        m.count("samples removed by reset", killed)
        m.count("idle cycles", sum(1 for x in cyc if not x[1]))
        if bad:
            c, what = bad
            m.violation(what, case=desc, latency=L, cycle=c, inputs=[f"{i}: rst={x[0]} valid={x[1]} meta={x[2]} data={x[3]}" for i, x in enumerate(cyc)][max(0, c - 4):c + 1],
                        outputs=[" ".join(x) for x in log][max(0, c - 4):c + 1])
            return
        m.sample(f"{desc}: latency {L}, {delivered} delivered, {killed} removed by reset in {len(cyc)} cycles")


def c18():
    t0 = time.time()
    with Scratch() as wd:
        vhdl.analyse(wd, vhdl.HDL + vhdl.ENT + [os.path.join(VERIF, "vhdl", "pipe_tb.vhd")])
        vhdl.elaborate(wd, "pipe_tb")
        m = run_pool(worker, "C18", 16000, 600000, {"wd": wd})
    finish(m, t0, "one evaluation = one sample delivered by a block under GHDL with its cycle, data and side-band data checked against the queue model; every cycle of every "
           "configuration is also checked for the presence or absence of a sample; distinct by (block, formats, modes, register setting, data)",
           min_evals=5000, need=["samples removed by reset", "latency 0", "latency 1", "latency 2", "round Auto_s", "saturate Auto_s", "resize Auto_s"],
           assumptions=["GHDL executes VHDL-2008 correctly", "inputs change away from the rising clock edge"])
