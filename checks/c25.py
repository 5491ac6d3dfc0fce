"""C25: the RTL code behaves identically under every VHDL revision (93, 2002, 2008)."""
import os, time

import fx, vhdl
import c13_c17, c18, c19_c24
from pymon import VERIF, REPO, run_pool, finish, Scratch, Inconclusive, Mon, load_model

STDS = ["93", "93c", "02", "08"]
DRIVERS = [os.path.join(VERIF, "vhdl", f) for f in ("drv_tb.vhd", "pipe_tb.vhd")]


def build(wd, m):
    """One build per revision.  Code that only some revision accepts breaks the property; a build that fails
    everywhere decides nothing."""
    bad = {}
    for s in STDS:
        d = os.path.join(wd, s)
        os.makedirs(d)
        flags = [f"--std={s}", f"--workdir={d}", f"-P{d}"]
        r = vhdl.run([vhdl.GHDL, "-a", *flags, *vhdl.HDL, *vhdl.ENT], d)
        m.count("builds")
        m.evals += 1
        if r.returncode:
            bad[s] = r.stdout[-1500:]
            continue
        for a in (["-a", *flags, *DRIVERS], ["-e", *flags, "drv_tb"], ["-e", *flags, "pipe_tb"]):
            r = vhdl.run([vhdl.GHDL, *a], d)
            if r.returncode:
                raise Inconclusive(f"driver does not build under --std={s}:\n" + r.stdout[-1500:])
    if len(bad) == len(STDS):
        raise Inconclusive("RTL code does not build at all:\n" + bad["08"])
    for s, t in bad.items():
        m.violation(f"the RTL code is not legal VHDL-{s}", messages=t)
    return not bad


def work(m, tier, n, wd=None, p=None):
    rng = m.rng
    own = c13_c17.own_table(wd)
    gens = [c13_c17.gen_round, c13_c17.gen_sat, c13_c17.gen_resize, c13_c17.gen_formats(p), c13_c17.gen_compare, c13_c17.gen_in_range,
            c13_c17.gen_from_real, c13_c17.gen_to_real, c13_c17.gen_int] + [c13_c17.gen_math(op, own) for op in c13_c17.MATH]
    text = c19_c24.gen_text(p)
    subs = []
    for s in STDS:
        d = os.path.join(wd, s, f"w{m.part}")
        os.makedirs(d, exist_ok=True)
        for e in ("drv_tb", "pipe_tb"):
            if not os.path.exists(os.path.join(d, e)):
                os.symlink(os.path.join(wd, s, e), os.path.join(d, e))
        subs.append(d)
    todo = n
    while todo > 0 and not m.viol:
        cs = []
        while len(cs) < min(todo, 8000):
            cs += [(c.line, c.desc) for c in rng.choice(gens)(rng, rng.randint(1, 6))]
            if rng.random() < 0.5:
                t = text(rng)
                cs.append((t[0], t[2]))
        todo -= len(cs)
        outs = [vhdl.drive(d, [c[0] for c in cs]) for d in subs]
        for s, o in zip(STDS, outs):
            if "driver: bad" in o.text:
                raise Inconclusive("driver rejected a command: " + o.text[-500:])
        if len({(o.rc == 0, o.complete) for o in outs}) > 1:
            k = {s: next((i for i, r in enumerate(o.results) if r is None), None) for s, o in zip(STDS, outs)}
            m.violation("the same calls stop the simulation in some revisions only", first_missing=k,
                        case=cs[min(x for x in k.values() if x is not None)][1] if any(x is not None for x in k.values()) else "",
                        messages={s: o.text[-400:] for s, o in zip(STDS, outs)})
            return
        ref = outs[-1]
        for i, (ln, desc) in enumerate(cs):
            if ref.results[i] is None:
                m.count("skipped behind a stopped simulation")
                continue
            m.evals += 1
            m.count("op " + desc.split(" ", 1)[0].rstrip(":"))
            m.seen(ln)
            for s, o in zip(STDS[:-1], outs):
                if o.results[i] != ref.results[i]:
                    m.violation(f"result under VHDL-{s} differs from VHDL-2008", case=desc, got=o.results[i], got_2008=ref.results[i])
                elif o.msgs[i] != ref.msgs[i]:
                    m.violation(f"messages under VHDL-{s} differ from VHDL-2008", case=desc, got=o.msgs[i], got_2008=ref.msgs[i])
            m.count("calls with messages", bool(ref.msgs[i]))
        if not m.samples:
            m.sample(f"{cs[1][1]}: {ref.results[1]} under {', '.join(STDS)}")
    # pipelined blocks
    for _ in range(max(1, n // 500)):
        if m.viol:
            return
        kind, fa, rf, mode, sat, check = c18.config(rng)
        reg, mw = rng.randrange(3), rng.choice([0, 1, 8, 33])
        cyc = c18.stimulus(rng, kind, fa, rf, mode, mw, 60)
        logs = []
        for s, d in zip(STDS, subs):
            st, lg = os.path.join(d, "stim.txt"), os.path.join(d, "log.txt")
            g = c18.generics(kind, fa, rf, mode, sat, reg, mw, check, st, lg)
            c18.write_stimulus(st, cyc, fa, mw)
            if os.path.exists(lg):
                os.unlink(lg)
            r = vhdl.run(["./pipe_tb", *g, "--max-stack-alloc=0", "--ieee-asserts=disable"], d, 120)
            logs.append((r.returncode == 0 and "driver done" in r.stdout, open(lg).read() if os.path.exists(lg) else None))
        m.evals += 1
        m.count("pipelined configurations")
        desc = f"{['round', 'saturate', 'resize'][kind]} {fa} -> {rf} {mode} {sat} registers {reg} meta {mw}"
        m.seen(desc)
        for s, l in zip(STDS, logs):
            if l != logs[-1]:
                m.violation(f"pipelined block under VHDL-{s} differs from VHDL-2008", case=desc)


def c25():
    t0 = time.time()
    p = load_model()
    with Scratch() as wd:
        b = Mon("C25")
        ok = build(wd, b)
        if ok:
            m = run_pool(work, "C25", 120000, 3000000, {"wd": wd, "p": p})
            m.merge(b)
            need = ["pipelined configurations", "calls with messages"] + ["op " + o for o in ("round", "saturate", "resize", "add", "sub", "mult", "abs", "neg", "shift", "addsub", "compare", "from_real", "to_real")]
        else:
            m, need = b, []
    finish(m, t0, "random calls of every function and random traffic through the pipelined blocks, run under --std=93, 93c, 02 and 08 builds of the same files; one evaluation = "
           "one call (or block configuration) whose result and messages agree in all builds; distinct by call", min_evals=50000 if ok else 1, need=need,
           assumptions=["GHDL implements the four revisions correctly"])
