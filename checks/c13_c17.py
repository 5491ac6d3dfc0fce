"""C13-C17: the VHDL package, run under GHDL and judged by the exact oracle."""
import time

import fx, vhdl
from pymon import Mon, run_pool, finish, Scratch, load_model, TIER, SEED

WARN_OF = ("Warn_s", "SatWarn_s")


class Case:
    """One driver command with what the oracle expects: kind 'bits' (value in fmt), or 'text' (payload)."""
    __slots__ = ("line", "rf", "val", "text", "warn", "desc", "key")

    def __init__(self, line, rf=None, val=None, text=None, warn=False, desc="", key=None):
        self.line, self.rf, self.val, self.text, self.warn, self.desc, self.key = line, rf, val, text, warn, desc, key


def dirs(rng):
    return rng.choice([0, 0, 1, 2, 3])


def pick_rf(rng, F, lo_hint):
    """Result format near an exact result (lo_hint: its format)."""
    return fx.near_fmt(rng, lo_hint)


def mk_resize_like(rng, op, a, fa, b, fb, rf, mode, sat, y, shift=0, add=True, da=0, db=0):
    """Builds a Case for round/saturate/resize and the arithmetic operations with result format rf
    (None: the operation's own format, taken from the extremes rule of the package via fmt_for)."""
    ev, eF = fx.op_exact(op if op not in ("round", "saturate") else "resize", a, fa, b, fb, shift, add)
    r = fx.round_exact(ev, eF, rf[2], mode)
    warn = sat in WARN_OF and fx.out_of_range(r, rf)
    val = fx.sat_exact(r, rf, sat)
    x = shift if op == "shift" else (1 if add else 0) if op == "addsub" else 0
    ln = vhdl.line(op, a, fa, b, fb, rf, mode, sat, x, y, da, db)
    desc = f"{op} a={a}{fa}" + (f" b={b}{fb}" if fb else "") + f" -> {rf} {mode} {sat} shift={shift} add={add} variant={y} ranges={da},{db}"
    return Case(ln, rf, val, None, warn, desc, (op, fa, fb, rf, mode, sat, a, b, shift, add))


def gen_round(rng, n):
    fa = fx.rand_fmt(rng, wmax=220)
    drop = rng.choice([-3, -1, 0, 1, 1, 2, 3, 4, 6, 9, 30, 31, 32, 33, 53, 64, fx.width(fa), fx.width(fa) + 1, fx.width(fa) + 5])
    Fr = fa[2] - drop
    mode = rng.choice(fx.MODES)
    rf = round_fmt(fa, Fr, mode)
    for a in fx.rand_vals(rng, fa, n, drop):
        r = fx.round_exact(a, fa[2], Fr, mode)
        u = rng.random()
        if u < 0.6:
            y = 1 if rng.random() < 0.5 else 0
            if mode == "Trunc_s" and rng.random() < 0.3:
                y = 2
            yield case_round(a, fa, rf, mode, 0, y, dirs(rng), r)
        else:
            # format check disabled: any integer bits; the rounded value wraps
            I = rf[1] + rng.choice([-9, -3, -2, -1, -1, -1, 0, 1, 4])
            f2 = (rf[0], I, Fr)
            if I + Fr < 0 or fx.width(f2) < 1 or fa[0] + I + fa[2] < 1:
                continue
            yield case_round(a, fa, f2, mode, 1, 0, dirs(rng), r)


def round_fmt(fa, Fr, mode):
    I = fa[1] + (1 if Fr < fa[2] and mode != "Trunc_s" else 0)
    if fa[0] + I + Fr < 1:
        I = 1 - fa[0] - Fr
    return (fa[0], I, Fr)


def case_round(a, fa, rf, mode, nocheck, y, da, r):
    ln = vhdl.line("round", a, fa, rf=rf, rnd=mode, x=nocheck, y=y, da=da)
    return Case(ln, rf, fx.sat_exact(r, rf, "None_s"), None, False,
                f"round a={a}{fa} -> {rf} {mode} fmt_check={not nocheck} variant={y} range={da}", ("round", fa, rf, mode, a))


def gen_sat(rng, n):
    fa = fx.rand_fmt(rng, wmax=220)
    rf = fx.near_fmt(rng, fa, F=fa[2], null=0.02)
    sat = rng.choice(fx.SATS)
    vals = fx.rand_vals(rng, fa, n)
    for b in (fx.vmin(rf), fx.vmax(rf)):
        vals += [v for v in (b - 1, b, b + 1) if not fx.out_of_range(v, fa)]
    for a in vals:
        y = 1 if sat == "Warn_s" and rng.random() < 0.4 else 0
        yield mk_resize_like(rng, "saturate", a, fa, None, None, rf, "Trunc_s", sat, y, da=dirs(rng))


def boundary_vals(rng, fa, rf, drop):
    """Values of fa around the limits of rf, half an LSB of rf each way."""
    out = []
    for b in (fx.vmin(rf), fx.vmax(rf)):
        for k in (-2, -1, 0, 1, 2):
            num = 2 * b + k              # in half LSBs of rf
            sh = fa[2] - rf[2] - 1
            v = num << sh if sh >= 0 else num >> -sh
            for e in (-1, 0, 1):
                if not fx.out_of_range(v + e, fa):
                    out.append(v + e)
    rng.shuffle(out)
    return out


def gen_resize(rng, n):
    fa = fx.rand_fmt(rng, wmax=220)
    rf = fx.near_fmt(rng, fa, null=0.02)
    vals = fx.rand_vals(rng, fa, n, fa[2] - rf[2]) + boundary_vals(rng, fa, rf, fa[2] - rf[2])[:4]
    for a in vals:
        mode, sat = rng.choice(fx.MODES), rng.choice(fx.SATS)
        y = 0
        if sat == "Warn_s" and rng.random() < 0.4:
            y = 2 if mode == "Trunc_s" else 1
        yield mk_resize_like(rng, "resize", a, fa, None, None, rf, mode, sat, y, da=dirs(rng))


def result_like(rng, op, fa, fb, shift):
    """A format around the exact results."""
    lo, hi, F = fx.corners(op if op != "addsub" else rng.choice(["add", "sub"]), fa, fb) if op not in ("shift",) else (fx.vmin(fa), fx.vmax(fa), fa[2] - shift)
    n = fx.int_bits(lo, hi, F, True)
    return fx.near_fmt(rng, (1 if lo < 0 else rng.randint(0, 1), n - F, F), null=0.02)


def gen_math(op, own_fmt):
    """own_fmt(op, fa, fb): the package's own result format, observed beforehand for default-format calls."""
    def gen(rng, n):
        fa = fx.rand_fmt(rng, wmax=140)
        fb = None
        if op in ("add", "sub", "addsub", "mult"):
            fb = fx.rand_fmt(rng, wmax=140) if rng.random() < 0.4 else fx.near_fmt(rng, fa, wmax=140)
        shift = rng.choice([0, 1, -1, 2, -2, 5, -5, 17, -17, 31, -33, 64, -70]) if op == "shift" else 0
        rf0 = result_like(rng, op, fa, fb, shift)
        for k in range(n):
            rf = rf0
            mode, sat = rng.choice(fx.MODES), rng.choice(fx.SATS)
            a = fx.rand_vals(rng, fa, 1, fa[2] - rf[2])[0]
            b = fx.rand_vals(rng, fb, 1, fb[2] - rf[2])[0] if fb else None
            add = rng.random() < 0.5
            y = 0
            u = rng.random()
            if u < 0.15 and op != "shift":
                rf, mode, sat, y = own_fmt(op, fa, fb), "Trunc_s", "Warn_s", 2
            elif sat == "Warn_s" and mode == "Trunc_s":
                y = 1
            if y != 2 and rf == (0, 0, -1):
                continue
            yield mk_resize_like(rng, op, a, fa, b, fb, rf, mode, sat, y, shift, add, dirs(rng), dirs(rng))
    return gen


def small_formats(wmax):
    for w in range(1, wmax + 1):
        for S in (0, 1):
            for F in range(-1, w - S + 2):
                if w - S >= 0:
                    yield (S, w - S - F, F)


def enum_resize(wmax):
    """Exhaustive: every value of every small source format into small result formats, all modes."""
    for fa in small_formats(wmax):
        for rf in small_formats(min(wmax, 3)):
            if abs(rf[2] - fa[2]) > 3 or abs(rf[1] - fa[1]) > 4:
                continue
            for a in range(fx.vmin(fa), fx.vmax(fa) + 1):
                for mode in fx.MODES:
                    for sat in ("None_s", "Sat_s"):
                        yield mk_resize_like(None, "resize", a, fa, None, None, rf, mode, sat, 0, da=(a + rf[1]) % 4)


def enum_math(op, wmax, own_fmt):
    two = op in ("add", "sub", "addsub", "mult")
    for fa in small_formats(wmax):
        for fb in (small_formats(wmax) if two else [None]):
            if fb and abs(fb[2] - fa[2]) > 2:
                continue
            rf = own_fmt(op, fa, fb)
            for a in range(fx.vmin(fa), fx.vmax(fa) + 1):
                for b in (range(fx.vmin(fb), fx.vmax(fb) + 1) if fb else [None]):
                    for add in ((True, False) if op == "addsub" else (True,)):
                        yield mk_resize_like(None, op, a, fa, b, fb, rf, "Trunc_s", "Warn_s", 2, 0, add)


def own_from_oracle(op, fa, fb):
    """Result format by the documented rule, independent of /repo: smallest format of all exact results."""
    def one(o):
        lo, hi, F = fx.corners(o, fa, fb)
        S = 1 if lo < 0 else 0
        return S, fx.int_bits(lo, hi, F, S == 1) - F, F
    return one(op)


# ------------------------------------------------------------------------------------------------
def judge(m, wd, cases, look="value"):
    """Runs the cases in one simulator process and compares what it logged with the oracle."""
    if not cases:
        return
    o = drive_part(wd, cases, m.part)
    m.count("messages observed", sum(len(x) for x in o.msgs))
    for i, c in enumerate(cases):
        if i in o.died:
            m.evals += 1
            m.violation("valid call stopped the simulation", case=c.desc, simulator=o.died[i])
            continue
        got = o.results[i]
        if got is None:
            m.count("skipped behind a stopped simulation")
            continue
        m.evals += 1
        m.count("op " + c.desc.split(" ", 1)[0])
        if len(m.distinct) < 200000:
            m.seen(c.key or c.desc)
        if i % 5000 == 1:
            m.sample(f"{c.desc}: result {got}" + (f", messages {o.msgs[i]}" if o.msgs[i] else ""))
        if look == "value":
            if c.rf is not None:
                v = vhdl.frombits(got, c.rf)
                if v is None:
                    m.violation(f"result is not a {fx.width(c.rf)}-bit vector of 0/1: {got[:300]}", case=c.desc, expected=c.val)
                elif v != c.val:
                    m.violation("wrong result", case=c.desc, got=v, expected=c.val)
            elif got != c.text:
                m.violation("wrong result", case=c.desc, got=got, expected=c.text)
        else:
            ws = [t for s, t in o.msgs[i] if s == "warning"]
            other = [x for x in o.msgs[i] if x[0] not in ("warning", "note")]
            m.count("expected warnings" if c.warn else "expected silence")
            if c.warn and not ws:
                m.violation("no saturation warning although the rounded exact result does not fit", case=c.desc)
            elif not c.warn and (ws or other):
                m.violation("warning although nothing saturates or warnings are off", case=c.desc, messages=o.msgs[i])


def drive_part(wd, cases, part):
    # one process per worker: distinct command files by worker number
    import os
    sub = os.path.join(wd, f"w{part}")
    os.makedirs(sub, exist_ok=True)
    exe = os.path.join(sub, "drv_tb")
    if not os.path.exists(exe):
        os.symlink(os.path.join(wd, "drv_tb"), exe)
    return vhdl.drive_all(sub, [c.line for c in cases], chunks=1, restarts=0)


def batches(it, size=20000):
    out = []
    for c in it:
        out.append(c)
        if len(out) == size:
            yield out
            out = []
    if out:
        yield out


def random_worker(m, tier, n, wd=None, gens=None, look="value"):
    rng = m.rng
    todo = n
    while todo > 0 and not m.viol:
        cases = []
        while len(cases) < min(todo, 20000):
            g = rng.choice(gens)
            cases += list(g(rng, rng.randint(1, 8)))
        judge(m, wd, cases, look)
        todo -= len(cases)


def enum_worker(m, tier, n, wd=None, enums=None, look="value"):
    for e in enums:
        mine = (c for i, c in enumerate(e()) if i % m.nparts == m.part)
        for b in batches(mine):
            judge(m, wd, b, look)
            if m.viol:
                return


MATH = ["abs", "neg", "add", "sub", "addsub", "mult", "shift"]


def own_table(wd):
    """Own result formats as the VHDL reports them (their correctness is C15's subject): a cached lookup
    through one driver call per new format pair would be slow, so pairs are resolved by the Python rule."""
    p = load_model()

    def own(op, fa, fb):
        A = p.FixFormat(*fa)
        if op in ("abs", "neg"):
            r = getattr(p.FixFormat, "for_" + op)(A)
        else:
            r = getattr(p.FixFormat, "for_" + op)(A, p.FixFormat(*fb))
        return (r.S, r.I, r.F)
    return own


def c13():
    t0 = time.time()
    with Scratch() as wd:
        vhdl.build_driver(wd)
        gens = [gen_round, gen_sat, gen_resize, gen_resize]
        m = run_pool(random_worker, "C13", 320000, 4000000, {"wd": wd, "gens": gens})
        w = 3 if TIER == "quick" else 4
        m.merge(run_pool(enum_worker, "C13", 1, 1, {"wd": wd, "enums": [lambda: enum_resize(w)]}))
    finish(m, t0, "random formats up to 220 bits (edges over-weighted), values at ties/limits/carries, four index ranges, plus every value "
           "of every format up to 3 (thorough 4) bits; a case is counted distinct by (operation, formats, modes, value)",
           min_evals=100000, need=["op round", "op saturate", "op resize"],
           assumptions=["vectors hold only '0'/'1'", "GHDL executes VHDL correctly"])


def c14():
    t0 = time.time()
    with Scratch() as wd:
        vhdl.build_driver(wd)
        own = own_table(wd)
        gens = [gen_math(op, own) for op in MATH]
        m = run_pool(random_worker, "C14", 280000, 4000000, {"wd": wd, "gens": gens})
        w = 2 if TIER == "quick" else 3
        m.merge(run_pool(enum_worker, "C14", 1, 1, {"wd": wd, "enums": [(lambda op=op: enum_math(op, w if op in ("add", "sub", "addsub", "mult") else 5, own)) for op in MATH if op != "shift"]}))
    finish(m, t0, "random operand formats up to 140 bits, result formats around the exact result, all modes, omitted result formats, four index "
           "ranges per operand, plus every value pair of all formats up to 2 (thorough 3) bits; distinct by (operation, formats, modes, values)",
           min_evals=100000, need=["op " + o for o in MATH],
           assumptions=["vectors hold only '0'/'1'", "GHDL executes VHDL correctly"])


# ------------------------------------------------------------------------------------------------
def gen_formats(p):
    F = p.FixFormat
    R = {x: getattr(p.FixRound, x) for x in fx.MODES}

    def t(r):
        return f"{r.S} {r.I} {r.F}"

    def fits(op, fa, fb, r):
        """Independent of both languages: the format holds the extremes."""
        for o in (("add", "sub") if op == "addsub" else (op,)):
            lo, hi, FF = fx.corners(o, fa, fb)
            if r.F != FF or hi > fx.vmax((r.S, r.I, r.F)) or lo < fx.vmin((r.S, r.I, r.F)):
                return False
        return True

    def gen(rng, n):
        big = 400 if rng.random() < 0.1 else 90
        fa = fx.rand_fmt(rng, wmax=big)
        fb = fx.rand_fmt(rng, wmax=big) if rng.random() < 0.35 else fx.near_fmt(rng, fa)
        if rng.random() < 0.3:
            fa = rng.choice(SMALL)
            fb = rng.choice(SMALL)
        A, B = F(*fa), F(*fb)
        for op in ("add", "sub", "addsub", "mult"):
            r = getattr(F, "for_" + op)(A, B)
            if not fits(op, fa, fb, r):
                yield Case(vhdl.line(op + "_fmt", None, fa, None, fb), text="a format that holds every exact result", desc=f"{op}_fmt {fa} {fb} (Python: {r})")
            else:
                yield Case(vhdl.line(op + "_fmt", None, fa, None, fb), text=t(r), desc=f"{op}_fmt {fa} {fb}", key=(op, fa, fb))
        for op in ("neg", "abs"):
            r = getattr(F, "for_" + op)(A)
            if not fits(op, fa, None, r):
                yield Case(vhdl.line(op + "_fmt", None, fa), text="a format that holds every exact result", desc=f"{op}_fmt {fa} (Python: {r})")
            else:
                yield Case(vhdl.line(op + "_fmt", None, fa), text=t(r), desc=f"{op}_fmt {fa}", key=(op, fa))
        s0 = rng.randint(-40, 40)
        s1 = s0 + rng.choice([0, 1, 2, 7, 40])
        yield Case(vhdl.line("shift_fmt", None, fa, x=s0, y=s1), text=t(F.for_shift(A, s0, s1)), desc=f"shift_fmt {fa} {s0} {s1}", key=("s", fa, s0, s1))
        yield Case(vhdl.line("shift_fmt1", None, fa, x=s0), text=t(F.for_shift(A, s0)), desc=f"shift_fmt1 {fa} {s0}", key=("s1", fa, s0))
        for mode in fx.MODES:
            Fr = fa[2] - rng.choice([-40, -2, -1, 0, 1, 1, 2, 3, fx.width(fa) - 1, fx.width(fa), fx.width(fa) + 1, fx.width(fa) + 9, 30])
            r = F.for_round(A, Fr, R[mode])
            lo, hi = (fx.round_exact(v, fa[2], Fr, mode) for v in (fx.vmin(fa), fx.vmax(fa)))
            rt = (r.S, r.I, r.F)
            ok = r.F == Fr and not fx.out_of_range(lo, rt) and not fx.out_of_range(hi, rt)
            yield Case(vhdl.line("round_fmt", None, fa, rnd=mode, x=Fr), text=t(r) if ok else "a format that holds every exact result",
                       desc=f"round_fmt {fa} {Fr} {mode}", key=("r", fa, Fr, mode))
        if rng.random() < 0.05:
            fa = (0, fa[1], -fa[1])
        c = rng.randint(0, 1)
        yield Case(vhdl.line("choose", None, fa, None, fb, x=c), text=vhdl.fmts(fa if c else fb), desc=f"choose {c} {fa} {fb}", key=("c", fa, fb, c))
        yield Case(vhdl.line("width", None, fa), text=str(fx.width(fa)), desc=f"width {fa}", key=("w", fa))
        yield Case(vhdl.line("max", None, fa), fa, fx.vmax(fa), desc=f"max_value {fa}", key=("M", fa))
        yield Case(vhdl.line("min", None, fa), fa, fx.vmin(fa), desc=f"min_value {fa}", key=("m", fa))
    return gen


SMALL = list({(S, I, F) for S in (0, 1) for I in range(-5, 6) for F in range(-5, 6) if I + F >= 0 and S + I + F >= 1})
SMALL.sort()


def enum_formats(p, lim):
    F = p.FixFormat
    fs = [f for f in SMALL if abs(f[1]) <= lim and abs(f[2]) <= lim]

    def t(r):
        return f"{r.S} {r.I} {r.F}"
    for fa in fs:
        A = F(*fa)
        for fb in fs:
            B = F(*fb)
            for op in ("add", "sub", "addsub", "mult"):
                yield Case(vhdl.line(op + "_fmt", None, fa, None, fb), text=t(getattr(F, "for_" + op)(A, B)), desc=f"{op}_fmt {fa} {fb}", key=(op, fa, fb))


def c15():
    t0 = time.time()
    p = load_model()
    with Scratch() as wd:
        vhdl.build_driver(wd)
        m = run_pool(random_worker, "C15", 250000, 4000000, {"wd": wd, "gens": [gen_formats(p)]})
        lim = 3 if TIER == "quick" else 5
        m.merge(run_pool(enum_worker, "C15", 1, 1, {"wd": wd, "enums": [lambda: enum_formats(p, lim)]}))
    finish(m, t0, "random format pairs (to 400 bits, edges over-weighted) and all pairs with |I|,|F| up to 3 (thorough 5); every format function of the "
           "VHDL compared with the Python model, and both with the extreme exact results; distinct by (function, arguments)",
           min_evals=80000, need=["op " + o + "_fmt" for o in ("add", "sub", "addsub", "mult", "neg", "abs", "shift", "round")] + ["op choose", "op width", "op max_value", "op min_value"])


# ------------------------------------------------------------------------------------------------
CMP = [("=", lambda c: c == 0), ("!=", lambda c: c != 0), ("<", lambda c: c < 0), (">", lambda c: c > 0), ("<=", lambda c: c <= 0), (">=", lambda c: c >= 0)]


def gen_compare(rng, n):
    fa = fx.rand_fmt(rng, wmax=200)
    fb = fx.rand_fmt(rng, wmax=200) if rng.random() < 0.4 else fx.near_fmt(rng, fa)
    for _ in range(n):
        a = fx.rand_vals(rng, fa, 1)[0]
        b = fx.rand_vals(rng, fb, 1)[0]
        if rng.random() < 0.5:
            # nearly equal operands
            d = fb[2] - fa[2]
            b2 = (a << d if d >= 0 else a >> -d) + rng.choice([-1, 0, 0, 1])
            if not fx.out_of_range(b2, fb):
                b = b2
        M = max(fa[2], fb[2])
        x, y = a << (M - fa[2]), b << (M - fb[2])
        c = (x > y) - (x < y)
        for k, (name, f) in enumerate(CMP):
            yield Case(vhdl.line("compare", a, fa, b, fb, x=k, da=dirs(rng), db=dirs(rng)), text="1" if f(c) else "0",
                       desc=f"compare {a}{fa} {name} {b}{fb}", key=("c", fa, fb, a, b, k))
        yield Case(vhdl.line("sign", a, fa, da=dirs(rng)), text="1" if a < 0 else "0", desc=f"sign {a}{fa}", key=("s", fa, a))


def gen_in_range(rng, n):
    fa = fx.rand_fmt(rng, wmax=200)
    rf = fx.near_fmt(rng, fa, null=0.02)
    vals = fx.rand_vals(rng, fa, n, fa[2] - rf[2]) + boundary_vals(rng, fa, rf, 0)[:5]
    for a in vals:
        mode = rng.choice(fx.MODES)
        ok = not fx.out_of_range(fx.round_exact(a, fa[2], rf[2], mode), rf)
        y = 1 if mode == "Trunc_s" and rng.random() < 0.5 else 0
        yield Case(vhdl.line("in_range", a, fa, rf=rf, rnd=mode, y=y, da=dirs(rng)), text="1" if ok else "0",
                   desc=f"in_range {a}{fa} -> {rf} {mode} variant={y}", key=("i", fa, rf, mode, a))


def rand_real(rng, rf):
    """(mantissa, exponent) of a double: near ties and limits of rf."""
    k = rng.random()
    if k < 0.55:
        # v LSBs + 0, 1/2, 1/4 ... with neighbours
        v = fx.rand_vals(rng, rf, 1)[0]
        num = 4 * v + rng.choice([-2, -1, 0, 1, 2, 2, 2, -2])
        e = -rf[2] - 2
        extra = rng.choice([0, 0, 0, 8, 20, 40, 49])
        num <<= extra
        e -= extra
        num += rng.choice([-1, 0, 0, 1])
    elif k < 0.8:
        b = rng.choice([fx.vmin(rf), fx.vmax(rf), fx.vmax(rf) + 1])
        extra = rng.choice([1, 2, 3, 20, 45])
        num = (b << extra) + rng.choice([-1, 0, 1, 1 << (extra - 1), -(1 << (extra - 1)), (1 << (extra - 1)) - 1, (1 << (extra - 1)) + 1])
        e = -rf[2] - extra
    elif k < 0.95:
        num = rng.getrandbits(53) * rng.choice([-1, 1])
        e = -53 + rng.randint(-rf[2] - 4, rf[1] + 3)
    else:
        num = rng.choice([0, 1, -1, 3, (1 << 53) - 1, -(1 << 53) + 1])
        e = rng.choice([0, -1, 30, -60, 400, -400, rf[1], -rf[2]])
    # make it a double: at most 53 significant bits
    sgn = -1 if num < 0 else 1
    num = abs(num)
    while num and num % 2 == 0 and num.bit_length() > 1:
        num >>= 1
        e += 1
    if num.bit_length() > 53:
        s = num.bit_length() - 53
        num >>= s
        e += s
    return sgn * num, e


def real_to_fix(num, e, rf):
    """Nearest multiple of the LSB, ties up, clipped; and whether the real lies outside the limits."""
    # value = num * 2**e ; in LSBs: num * 2**(e+F)
    s = e + rf[2]
    if s >= 0:
        q = num << s
        out = fx.out_of_range(q, rf)
    else:
        d = -s
        q = (num + (1 << (d - 1))) >> d
        out = num > (fx.vmax(rf) << d) or num < (fx.vmin(rf) << d)
    return min(max(q, fx.vmin(rf)), fx.vmax(rf)), out


def gen_from_real(rng, n):
    rf = fx.rand_fmt(rng, wmax=200)
    for _ in range(n):
        num, e = rand_real(rng, rf)
        if abs(e) > 600:
            continue
        sat = rng.choice(["Sat_s", "SatWarn_s"])
        v, out = real_to_fix(num, e, rf)
        s = -1 if num < 0 else 1
        hi, lo = s * (abs(num) >> 30), s * (abs(num) & ((1 << 30) - 1))
        dflt = 1 if sat == "SatWarn_s" and rng.random() < 0.5 else 0
        yield Case(vhdl.line("from_real", None, None, None, (0, 0, e), rf, sat=sat, x=hi, y=lo, db=dflt), rf, v,
                   warn=out and sat == "SatWarn_s", desc=f"from_real {num}*2**{e} -> {rf} {sat}", key=("f", rf, num, e))


def real_text(v, F):
    """The driver's text of the real v*2**-F (|v| < 2**53)."""
    if v == 0:
        return "+ 0 0 0"
    s = "-" if v < 0 else "+"
    v = abs(v)
    e = -F
    sh = 53 - v.bit_length()
    v <<= sh
    e -= sh
    return f"{s} {v >> 30} {v & ((1 << 30) - 1)} {e}"


def gen_to_real(rng, n):
    fa = fx.rand_fmt(rng, wmax=200)
    for a in fx.rand_vals(rng, fa, n):
        # only values a double can hold
        t = a
        while t and t % 2 == 0:
            t >>= 1
        if abs(t).bit_length() > 53:
            if rng.random() < 0.7:
                k = abs(a).bit_length() - rng.randint(1, 53)
                a = (a >> k) << k
            else:
                continue
        t, sh = a, 0
        while t and t % 2 == 0:
            t >>= 1
            sh += 1
        yield Case(vhdl.line("to_real", a, fa, da=dirs(rng)), text=real_text(t, fa[2] - sh), desc=f"to_real {a}{fa}", key=("t", fa, a))


def gen_int(rng, n):
    fa = fx.rand_fmt(rng, wmax=80)
    for a in fx.rand_vals(rng, fa, n) + [fx.vmin(fa), fx.vmax(fa), -2**31, 2**31 - 1, rng.randint(-2**31, 2**31 - 1)]:
        if fx.out_of_range(a, fa) or not -2**31 <= a < 2**31:
            continue
        if a > -2**31:
            yield Case(vhdl.line("from_int", None, fa, x=a), fa, a, desc=f"from_integer {a}{fa}", key=("I", fa, a))
        yield Case(vhdl.line("to_int", a, fa, da=dirs(rng)), text=str(a), desc=f"to_integer {a}{fa}", key=("J", fa, a))


def c16():
    t0 = time.time()
    with Scratch() as wd:
        vhdl.build_driver(wd)
        gens = [gen_compare, gen_in_range, gen_from_real, gen_from_real, gen_to_real, gen_int]
        m = run_pool(random_worker, "C16", 280000, 4000000, {"wd": wd, "gens": gens})
    finish(m, t0, "random formats up to 200 bits, nearly equal operands, values at limits and rounding ties, doubles next to ties and limits (exchanged "
           "exactly as mantissa and exponent); distinct by (function, formats, values)",
           min_evals=100000, need=["op compare", "op sign", "op in_range", "op from_real", "op to_real", "op from_integer", "op to_integer"],
           assumptions=["reals are normal doubles with |exponent| <= 600", "integers fit VHDL's 32-bit integer"])


# ------------------------------------------------------------------------------------------------
def misuse_cases(rng, n):
    """(line, description): every one of them must stop the simulation with a failure."""
    for _ in range(n):
        fa = fx.rand_fmt(rng, wmax=70)
        a = fx.rand_vals(rng, fa, 1)[0]
        mode = rng.choice(fx.MODES)
        rf = round_fmt(fa, fa[2] - rng.choice([-2, 0, 1, 2, 5]), mode)
        bad = rng.choice([(rf[0], rf[1] + 1, rf[2]), (rf[0], rf[1] - 1, rf[2]), (1 - rf[0], rf[1], rf[2])])
        if bad[1] + bad[2] >= 0 and fx.width(bad) >= 1:
            yield "round format", vhdl.line("round", a, fa, rf=bad, rnd=mode, y=rng.randint(0, 1)), f"round {a}{fa} -> {bad} {mode} (prescribed {rf})"
            yield "pipelining format", vhdl.line("pipe_round", None, fa, rf=bad, rnd=mode, y=rng.randint(0, 1)), f"recommended_pipelining round {fa} -> {bad} {mode}"
        d = rng.choice([-1, 1, 2, -3])
        sf = (fa[0], fa[1] + 2, fa[2] + d)
        if sf[1] + sf[2] >= 0:
            yield "saturate frac bits", vhdl.line("saturate", a, fa, rf=sf, sat=rng.choice(fx.SATS)), f"saturate {a}{fa} -> {sf}"
            yield "pipelining frac bits", vhdl.line("pipe_sat", None, fa, rf=sf, sat=rng.choice(fx.SATS)), f"recommended_pipelining saturate {fa} -> {sf}"
        yield "comparison name", vhdl.line("compare", a, fa, a, fa, x=rng.randint(6, 9)), f"compare with unknown operator {fa}"
        s0 = rng.randint(-9, 9)
        yield "reversed shift", vhdl.line("shift_fmt", None, fa, x=s0, y=s0 - rng.choice([1, 1, 2, 9])), f"shift_fmt {fa} {s0} > max"
        yield "from_real sat", vhdl.line("from_real", None, None, None, (0, 0, 0), fa, sat=rng.choice(["None_s", "Warn_s"]), x=0, y=rng.choice([0, 1, 5])), f"from_real without saturation {fa}"
        S, I, F = rng.randint(0, 1), rng.randint(-20, 40), rng.randint(-20, 40)
        good = f"({S},{I},{F})"
        txt = rng.choice([good[1:], good[:-1], good.replace(",", ";"), good.replace(",", " ", 1), f"({rng.choice('23456789')},{I},{F})",
                          f"(-1,{I},{F})", "", f"({S},{I})", f"{S},{I},{F}", f"[{S},{I},{F}]", f"({S}", "(", f"({S},", f"({S},{I},", "None", f"(x,{I},{F})"])
        yield "format text", vhdl.line("fmt_of", txt=txt), f"format_from_string {txt!r}"
        nm = rng.choice(fx.MODES + fx.SATS)
        txt = rng.choice([nm[:-1], nm + "s", nm[1:], nm[:-2], nm.replace("_", "-"), "", " " + nm, nm + " ", nm.replace("s", "z"), "Round_s", "Sat"])
        yield "rounding text", vhdl.line("rnd_of", txt=txt if txt.lower() not in [x.lower() for x in fx.MODES] else "x"), f"round_from_string {txt!r}"
        fb = fx.rand_fmt(rng, wmax=70)
        op = rng.choice(["round", "saturate", "resize", "abs", "neg", "add", "sub", "addsub", "mult", "shift", "compare", "sign", "in_range", "str_slv"])
        two = op in ("add", "sub", "addsub", "mult", "compare")
        w = [fx.width(fa), fx.width(fb)]
        k = rng.randrange(2) if two else 0
        w[k] = max(1, w[k] + rng.choice([-1, 1, 1, -2, 9])) if w[k] > 1 else w[k] + 1
        wr = fa if op in ("round", "saturate") else fx.near_fmt(rng, fa)
        ln = vhdl.line(op, 0, fa, 0 if two else None, fb, wr, "Trunc_s", rng.choice(fx.SATS), x=rng.randint(0, 1)).split("|")[0].split()
        ln[-2] = "".join(rng.choice("01") for _ in range(w[0]))
        if two:
            ln[-1] = "".join(rng.choice("01") for _ in range(w[1]))
        ln[1], ln[2] = str(dirs(rng)), str(dirs(rng))
        yield "vector width", " ".join(ln) + " |\n", f"{op} with vectors of {w[:1 + two]} bits for {fa}{fb if two else ''}"
        yield "saturation text", vhdl.line("sat_of", txt=txt if txt.lower() not in [x.lower() for x in fx.SATS] else "x"), f"saturate_from_string {txt!r}"


def misuse_worker(m, tier, n, wd=None):
    import os
    sub = os.path.join(wd, f"m{m.part}")
    os.makedirs(sub, exist_ok=True)
    exe = os.path.join(sub, "drv_tb")
    if not os.path.exists(exe):
        os.symlink(os.path.join(wd, "drv_tb"), exe)
    for kind, ln, desc in misuse_cases(m.rng, n):
        o = vhdl.drive(sub, [ln], flags=["--unbuffered"])
        m.evals += 1
        m.count("misuse " + kind)
        m.seen(desc)
        if o.rc == 0 or o.complete:
            m.violation("invalid use did not stop the simulation", case=desc, result=o.results[0])
        elif o.results[0] is not None:
            m.violation("invalid use delivered a result", case=desc, result=o.results[0])
        elif "driver: bad" in o.text:
            raise RuntimeError("driver rejected " + ln)
        elif o.rc < 0:
            m.count("stopped by signal")


def c17():
    t0 = time.time()
    p = load_model()
    with Scratch() as wd:
        vhdl.build_driver(wd)
        own = own_table(wd)
        gens = [gen_sat, gen_resize, gen_resize, gen_round, gen_from_real, gen_in_range, gen_compare, gen_to_real, gen_int] + [gen_math(op, own) for op in MATH]
        m = run_pool(random_worker, "C17", 240000, 3000000, {"wd": wd, "gens": gens, "look": "msg"})
        m.merge(run_pool(misuse_worker, "C17", 72, 6000, {"wd": wd}))
    finish(m, t0, "simulator messages attributed by time stamp to random calls (values one LSB around the limits over-weighted), and single-call "
           "simulations for every kind of invalid use; distinct by (operation, formats, modes, values)",
           min_evals=100000, need=["expected warnings", "expected silence", "misuse round format", "misuse saturate frac bits", "misuse comparison name",
                                   "misuse format text", "misuse rounding text", "misuse saturation text", "misuse from_real sat", "misuse reversed shift", "misuse vector width"],
           assumptions=["messages of the ieee libraries are not counted"])
