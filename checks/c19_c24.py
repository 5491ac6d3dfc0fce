"""C19, C20, C24: text files of the test-bench library, text exchange of formats and modes, array helpers."""
import itertools, os, re, threading, time

import entb, fx, vhdl
from pymon import Mon, run_pool, finish, Scratch, load_model, Inconclusive, TIER, SEED, NPROC, SCALE

SEPS = [" ", "  ", "\t", ",", ", ", "; "]
WIDTHS = [1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 30, 31, 32, 33, 52, 53, 54, 63, 64, 65, 96, 120, 127, 128, 129, 200]


def bits(v, w):
    return format(v & ((1 << w) - 1), f"0{w}b")


def pick_val(rng, w, signed):
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    u = rng.random()
    if u < 0.35:
        return min(max(rng.choice([lo, lo + 1, hi, hi - 1, 0, 1, -1, -2]), lo), hi)
    if u < 0.6:
        k = rng.randrange(w + 1)
        return min(max(rng.choice([1, -1]) * (1 << k) + rng.choice([-1, 0, 1]), lo), hi)
    if u < 0.75:      # powers of ten: digit boundaries
        return min(max(rng.choice([1, -1]) * 10 ** rng.randrange(1 + int(w * 0.302)) + rng.choice([-1, 0, 1]), lo), hi)
    return rng.randint(lo, hi)


def text_of(rng, v, w, signed, mode):
    """Conventional spellings as other tools write them."""
    if mode == 1:
        return str(v) if rng.random() < 0.7 or v < 0 else format(v, f"0{(w + 2) // 3}d")
    if mode == 0:
        return bits(v, w)
    n = (w + 3) // 4
    u = v & ((1 << w) - 1)
    if signed and v < 0 and rng.random() < 0.5:
        u = v & ((1 << 4 * n) - 1)          # sign extended
    s = format(u, f"0{n}x")
    return s if rng.random() < 0.5 else s.upper()


def bad_text(tok, v, w, signed, mode):
    """None if tok is the conventional rendering of v."""
    if mode == 1:
        if not re.fullmatch(r"-?[0-9]+", tok) or int(tok) != v or (tok[0] == "-" and v == 0):
            return "not the decimal rendering"
    elif mode == 0:
        if tok != bits(v, w):
            return "not the two's complement binary rendering"
    else:
        n = (w + 3) // 4
        if not re.fullmatch(r"[0-9A-Fa-f]+", tok) or len(tok) != n or int(tok, 16) != v & ((1 << 4 * n) - 1):
            return "not the hexadecimal rendering"
    return None


class Job:
    """One driver command and how its outcome is judged: want = payload, or a callable payload -> complaint or None."""
    __slots__ = ("line", "want", "desc", "key")

    def __init__(self, line, want, desc, key=None):
        self.line, self.want, self.desc, self.key = line, want, desc, key


def judge(m, wd, jobs):
    sub = os.path.join(wd, f"w{m.part}")
    os.makedirs(sub, exist_ok=True)
    exe = os.path.join(sub, "entb_drv")
    if not os.path.exists(exe):
        os.symlink(os.path.join(wd, "entb_drv"), exe)
    o = vhdl.drive_all(sub, [j.line for j in jobs], chunks=1, restarts=1, exe="entb_drv")
    for i, j in enumerate(jobs):
        if i in o.died:
            m.evals += 1
            m.violation("valid call stopped the simulation", case=j.desc, command=j.line[:600], simulator=o.died[i])
            continue
        got = o.results[i]
        if got is None:
            m.count("skipped behind a stopped simulation")
            continue
        m.evals += 1
        m.count(j.desc.split(":", 1)[0])
        m.seen(j.key or j.desc)
        if i % 500 == 3:
            m.sample(f"{j.desc}: {got[:200]}")
        c = j.want(got) if callable(j.want) else (None if got == j.want else "wrong data")
        if c:
            m.violation(c, case=j.desc, got=got[:1500], expected=None if callable(j.want) else j.want[:1500], command=j.line[:800])


# ------------------------------------------------------------------------------------------------ C19
def scenario(rng, fdir, uid, width=None):
    """Yields jobs that write a file and read it back, or read a file written here. With a width: the extreme decimal numbers of that width."""
    typ = rng.choice(entb.NAMES if width is None else [t[0] for t in entb.TYPES])
    numeric = {"sb": True, "ss": True, "ub": False, "us": False}
    signed = numeric[typ] if typ in numeric else rng.random() < 0.5
    mode = rng.randrange(3)
    w = rng.choice(WIDTHS) if rng.random() < 0.7 else rng.randint(1, 140)
    if width is not None:
        mode, w = 1, width
    fmt = (0, 0, 1)
    if typ == "int":
        signed, w = True, 32
    elif typ in ("sl", "b1"):
        signed, w = False, 1
    elif typ == "fx":
        F = rng.randint(-3, w)
        fmt = (1 if signed else 0, w - (1 if signed else 0) - F, F)
    rows = rng.choice([0, 1, 1, 2, 3, 5, 9])
    cols = rng.choice([1, 1, 2, 3, 4])
    if width is None and rng.random() < 0.006:          # long files, long lines
        rows, cols = rng.choice([(100, 3), (300, 1), (1025, 1), (2500, 1), (2, 50), (3, 130), (1, 400), (40, 20)])
        while rows * cols * w > 100000:
            rows, cols = (rows + 1) // 2, (cols + 1) // 2
    sepi = rng.randrange(6) if mode == 1 else rng.randrange(3)
    d = rng.randrange(3) if typ in ("sb", "ub", "ss", "us", "bv", "lv", "ul") else 0
    vals = [[pick_val(rng, w, signed) for _ in range(cols)] for _ in range(rows)]
    u = rng.random()
    if width is not None:
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        ten = 10 ** (len(str(hi)) - 1)
        vals, u = [[hi], [lo], [ten], [ten - 1]] + ([[-ten], [1 - ten]] if signed and lo else []), 0.0
        vals = [[min(max(v, lo), hi)] for v, in vals]
        rows, cols = len(vals), 1
    enc = (lambda v: str(v)) if typ == "int" else (lambda v: bits(v, w))
    kw = dict(signed=int(signed), mode=mode, wid=w, fmt=fmt)
    what = f"{typ} {'signed' if signed else 'unsigned'} {entb.MODES[mode]} width {w} {rows}x{cols}"
    fn = os.path.join(fdir, f"f{uid}.txt")
    join = lambda vs: ",".join(enc(v) for v in vs)
    flat = [v for r in vals for v in r]
    hdr = 0
    if typ not in ("sl", "b1") and u < 0.55:
        # written by the library, text judged here, then read back
        how = rng.choice(["w_file", "w_file", "w_vals", "w_line", "w_line", "w_def"])
        if how == "w_def" and mode != 1:
            how = "w_file"
        if how == "w_vals" and typ == "int":
            how = "w_line"
        if how in ("w_file", "w_def", "w_vals"):
            cols, flat = 1, flat[:rows] if rows else []
            vals = [[v] for v in flat]
        if how == "w_file":
            hdr = rng.randrange(2)

        def look(got, fn=fn, vals=vals, sep=SEPS[sepi], hdr=hdr):
            with open(fn, newline="") as f:
                t = f.read()
            ls = t.split("\n")
            if ls[-1] != "":
                return "last line is not terminated: " + repr(t[-80:])
            ls = ls[:-1]
            if hdr:
                if not ls or not ls[0].startswith("# header"):
                    return "header missing: " + repr(t[:200])
                ls = ls[1:]
            if len(ls) != len(vals):
                return f"{len(ls)} lines written instead of {len(vals)}: " + repr(t[:300])
            for l, r in zip(ls, vals):
                toks = l.split(sep)
                if len(toks) != len(r):
                    return "values or separators lost on a line: " + repr(l[:300]) + f" for {r}"
                for tok, v in zip(toks, r):
                    b = bad_text(tok, v, w, signed, mode)
                    if b:
                        return f"{b} of {v}: {tok!r}"
            return None

        wk = dict(kw)
        yield Job(entb.cmd(how, typ, fn, rows=rows, cols=cols, hdr=hdr if how != "w_line" else sepi, dir=d, data=[enc(v) for v in flat], **wk),
                  look, f"write {how}: {what}", (how, typ, signed, mode, w, rows, cols, sepi, d, tuple(flat)))
        lead = hdr
    else:
        # written here, as numpy.savetxt and similar tools would
        lead = rng.choice([0, 1, 1, 2, 3])
        stride = 0
        lines = [rng.choice(["# Data (signed)", "# width, columns 7", "1,2,3", "#", "# -5 FF 1010"]) for _ in range(lead)]
        lines += [SEPS[sepi].join(text_of(rng, v, w, signed, mode) for v in r) for r in vals]
        t = "\n".join(lines) + ("\n" if rng.random() < 0.8 or not lines or (lines and lines[-1] == "") else "")
        with open(fn, "w") as f:
            f.write(t if lines else "")
    # read back
    yield Job(entb.cmd("size", typ, fn, skip=lead, **kw), f"{rows + lead} {cols if rows else 0}", f"size: {what} skip {lead}",
              ("size", typ, rows, cols, lead, sepi))
    ways = ["r_proc", "r_func", "r_line"] + (["r_file", "r_file"] if typ not in ("sl", "b1") else [])
    if mode == 1 and lead == 1 and typ not in ("sl", "b1"):
        ways.append("r_def")
    for how in set(rng.choice(ways) for _ in range(3)):
        dd = rng.randrange(3) if typ in ("sb", "ub", "ss", "us", "bv", "lv", "ul") else 0
        key = (how, typ, signed, mode, w, lead, sepi, dd, tuple(flat))
        if how in ("r_file", "r_def", "r_line"):
            if how == "r_line" and not rows:
                continue
            yield Job(entb.cmd(how, typ, fn, rows=rows, cols=cols, skip=lead, dir=dd, **kw), join(flat), f"read {how}: {what} skip {lead}", key)
        else:
            if not rows:
                continue
            first = rng.randrange(rows)
            stride = rng.choice([0, 0, 1, 2])
            idx = list(range(first, rows, 1 + stride))
            yield Job(entb.cmd(how, typ, fn, rows=len(idx), cols=1, skip=lead + first, dir=dd, stride=stride, **kw),
                      join(vals[i][0] for i in idx), f"read {how}: {what} skip {lead + first} stride {stride}", key + (first, stride))


def fio_worker(m, tier, n, wd=None, gen=None):
    fdir = os.path.join(wd, f"files{m.part}")
    os.makedirs(fdir, exist_ok=True)
    uid = itertools.count()
    todo = n
    if gen is scenario and SCALE >= 1:
        for w in range(1 + m.part, (320 if tier == "quick" else 1000) + 1, m.nparts):
            jobs = list(scenario(m.rng, fdir, next(uid), w))
            judge(m, wd, jobs)
            m.count("widths swept")
            for f in os.listdir(fdir):
                os.unlink(os.path.join(fdir, f))
    while todo > 0 and not m.viol:
        jobs = []
        while len(jobs) < min(todo, 1500):
            jobs += list(gen(m.rng, fdir, next(uid)))
        judge(m, wd, jobs)
        todo -= len(jobs)
        for f in os.listdir(fdir):
            os.unlink(os.path.join(fdir, f))


def c19():
    t0 = time.time()
    with Scratch() as wd:
        entb.build(wd)
        m = run_pool(fio_worker, "C19", 40000, 900000, {"wd": wd, "gen": scenario})
    finish(m, t0, "one evaluation = one call group of the library's text I/O in GHDL: a written file judged token by token, or the values read from a file; "
           "distinct by (call, type, signedness, base, width, shape, separator, index direction, values)",
           min_evals=5000, need=["read r_file", "read r_proc", "read r_func", "read r_line", "read r_def", "write w_file", "write w_vals", "write w_line", "size"] + (["widths swept"] if SCALE >= 1 else []),
           assumptions=["GHDL and its ieee/std libraries execute VHDL-2008 correctly", "decimal tables may use space, tab, comma or semicolon; binary and hexadecimal tables white space"])


# ------------------------------------------------------------------------------------------------ C24
def arrays(rng, fdir, uid):
    typ = rng.choice([t[0] for t in entb.TYPES])
    w = rng.choice([1, 2, 3, 5, 8, 9, 31, 32, 33, 64, 70])
    n = rng.choice([0, 1, 2, 3, 4, 7, 12])
    if rng.random() < 0.02:
        n, w = rng.choice([(40, 3), (130, 9), (300, 1), (33, 64), (64, 33), (5, 300)])
    vals = [pick_val(rng, w, False) for _ in range(n)]
    key = (typ, w, tuple(vals))
    if rng.random() < 0.4:
        cat = "".join(bits(v, w) for v in reversed(vals))
        each = [bits(v, w) for v in vals]
        yield Job(entb.cmd("flat", typ, wid=w, rows=n, data=each), ",".join([cat or "-"] + each + each + [str(n * w)]),
                  f"flatten/unflatten: {typ} {n} elements of {w} bits", ("flat",) + key)
    else:
        other = list(vals)
        kind = rng.choice(["same", "same", "one", "bit", "swap", "longer", "all"])
        if kind == "longer" and n:
            other = other[:-1]          # expected is a prefix of what was got
        elif kind == "swap" and n > 1:
            i, j = rng.sample(range(n), 2)
            other[i], other[j] = other[j], other[i]
        elif n:
            i = rng.choice([0, n - 1, rng.randrange(n)])
            if kind == "bit":
                other[i] ^= 1 << rng.choice([0, w - 1, rng.randrange(w)])
            elif kind == "one":
                other[i] = pick_val(rng, w, False)
            elif kind == "all":
                other = [v ^ 1 for v in other]
        same = other == vals

        def look(got, same=same):
            a = got.split()
            if len(a) != 3 or not all(x.isdigit() for x in a):
                return "no statistics"
            c, f, p = map(int, a)
            if c < 1:
                return "the comparison checked nothing"
            if (f == 0) != same:
                return "comparison passed although the arrays differ" if not same else "comparison failed although the arrays are equal"
            return None
        yield Job(entb.cmd(rng.choice(["check", "check_d"]), typ, wid=w, rows=n, cols=len(other), data=[bits(v, w) for v in vals + other]), look,
                  f"check_equal {'equal' if same else 'different'}: {typ} {vals} {other} of {w} bits", ("chk", tuple(other)) + key)


def c24():
    t0 = time.time()
    with Scratch() as wd:
        entb.build(wd)
        m = run_pool(fio_worker, "C24", 60000, 1500000, {"wd": wd, "gen": arrays})
    finish(m, t0, "one evaluation = one flatten/unflatten round trip or one array comparison executed in GHDL with the real VUnit checker; distinct by (type, width, arrays)",
           min_evals=5000, need=["flatten/unflatten", "check_equal equal", "check_equal different"],
           assumptions=["VUnit's check statistics count failed checks correctly"])


# ------------------------------------------------------------------------------------------------ C20
def rand_field(rng):
    u = rng.random()
    if u < 0.3:
        return rng.randint(-12, 40)
    if u < 0.6:
        return rng.choice([1, -1]) * (10 ** rng.randrange(6) + rng.choice([-1, 0, 1]))
    if u < 0.9:
        return rng.randint(-1200, 1200)
    return rng.choice([1, -1]) * rng.randint(0, 10 ** rng.randrange(1, 10))


def any_fmt(rng):
    """Any format the Python class accepts."""
    if rng.random() < 0.02:
        I = rand_field(rng)
        if abs(I) < 2 ** 30:
            return 0, I, -I
    while True:
        S = rng.randrange(2)
        I, F = rand_field(rng), rand_field(rng)
        if S + I + F >= 1 and abs(I) < 2 ** 30 and abs(F) < 2 ** 30:
            return S, I, F


def vec_text(b, f):
    S, I, F = f
    n = S + I
    if n < 0:
        return ".(" + b[:1] * 0 + ext(b, f) * -n + ")" + b
    if F < 0:
        return b + "(" + "0" * -F + ")."
    return b[:n] + "." + b[n:]


def ext(b, f):
    return b[0] if f[0] else "0"


def make_fmt(rng, p, f):
    """The format f as an object of the Python model, in one of the ways user code comes by formats."""
    o = _make_fmt(rng, p, f)
    return o if (o.S, o.I, o.F) == tuple(f) else p.FixFormat(*f)


def _make_fmt(rng, p, f):
    import numpy as np
    how = rng.randrange(5)
    if how == 0:                                # fields of any integer type, sign as a bool
        def num(x):
            fit = [d for d in (np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint64) if np.iinfo(d).min <= x <= np.iinfo(d).max]
            return rng.choice([int] + fit)(x)
        return p.FixFormat(rng.choice([bool, np.bool_, int, np.int64])(f[0]), num(f[1]), num(f[2]))
    if how == 1:                                # shifted
        k = rng.choice([int, np.int64, np.int32])(rng.randint(-9, 9))
        return p.FixFormat.for_shift(p.FixFormat(f[0], f[1] - int(k), f[2] + int(k)), k) if sum(f) > 0 else p.FixFormat(*f)
    if how == 2:                                # union of parts
        return p.FixFormat.union([p.FixFormat(0, f[1], -f[1]), p.FixFormat(f[0], -f[2], f[2])])
    if how == 3 and sum(f) > 0:                 # format of a rounding that drops nothing
        return p.FixFormat.for_round(p.FixFormat(*f), np.int64(f[2]), p.FixRound.Trunc_s)
    return p.FixFormat(*f)


def gen_text(p):
    import numpy as np
    FF = p.FixFormat

    def kinds(rng):
        def fmt_text(rng):
            f = any_fmt(rng)
            o = make_fmt(rng, p, f)
            t = rng.choice([str, p.cl_fix_format_to_string, "{}".format, repr])(o)
            t = " " * rng.choice([0, 0, 0, 1, 3]) + t + " " * rng.choice([0, 0, 0, 1, 3])
            return vhdl.line("fmt_of", txt=t), f"{f[0]} {f[1]} {f[2]}", f"format read by VHDL from Python text: {t!r}", ("p2v", t)

        def fmt_other(rng):
            f = any_fmt(rng)
            sp = [" " * rng.choice([0, 0, 1, 2]) for _ in range(4)]
            t = f"({f[0]}{sp[0]},{sp[1]}{f[1]}{sp[2]},{sp[3]}{f[2]})"
            return vhdl.line("fmt_of", txt=t), f"{f[0]} {f[1]} {f[2]}", f"format read by VHDL from spaced text: {t!r}", ("sp", t)

        def fmt_print(rng):
            f = any_fmt(rng)
            return vhdl.line("str_fmt", fa=f), f, f"format printed by VHDL: {f}", ("v", f)

        def fmt_loop(rng):
            f = any_fmt(rng)
            return vhdl.line("fmt_loop", fa=f), f"{f[0]} {f[1]} {f[2]}", f"format printed and parsed by VHDL: {f}", ("l", f)

        def vec(rng):
            f = fx.rand_fmt(rng, wmax=80)
            v = fx.rand_vals(rng, f, 1)[0]
            d = rng.choice([0, 0, 1, 2, 3])
            b = vhdl.tobits(v, f)
            return vhdl.line("str_slv", v, f, da=d), vec_text(b, f), f"vector printed by VHDL: {b} {f} range {d}", ("s", v, f)

        def mode(rng):
            k = rng.randrange(len(fx.MODES))
            nm = "".join(rng.choice([c.lower(), c.upper()]) for c in p.FixRound(getattr(p.FixRound, fx.MODES[k])).name)
            return vhdl.line("rnd_of", txt=nm), str(k), f"rounding mode read by VHDL: {nm}", ("r", nm)

        def smode(rng):
            k = rng.randrange(len(fx.SATS))
            nm = "".join(rng.choice([c.lower(), c.upper()]) for c in p.FixSaturate(getattr(p.FixSaturate, fx.SATS[k])).name)
            return vhdl.line("sat_of", txt=nm), str(k), f"saturation mode read by VHDL: {nm}", ("sm", nm)
        return rng.choice([fmt_text, fmt_text, fmt_other, fmt_print, fmt_loop, vec, vec, mode, smode])(rng)
    return kinds


FMT_RE = re.compile(r"\s*\(\s*([01])\s*,\s*(-?\d+)\s*,\s*(-?\d+)\s*\)\s*")


def text_judge(m, wd, cases):
    sub = os.path.join(wd, f"d{m.part}")
    os.makedirs(sub, exist_ok=True)
    exe = os.path.join(sub, "drv_tb")
    if not os.path.exists(exe):
        os.symlink(os.path.join(wd, "drv_tb"), exe)
    o = vhdl.drive_all(sub, [c[0] for c in cases], chunks=1, restarts=0)
    for i, (ln, want, desc, key) in enumerate(cases):
        if i in o.died:
            m.evals += 1
            m.violation("valid text or value stopped the simulation", case=desc, simulator=o.died[i])
            continue
        got = o.results[i]
        if got is None:
            m.count("skipped behind a stopped simulation")
            continue
        m.evals += 1
        m.count(desc.split(":", 1)[0])
        m.seen(key)
        if i % 4000 == 1:
            m.sample(f"{desc} -> {got}")
        if isinstance(want, tuple):         # a format printed by VHDL
            r = FMT_RE.fullmatch(got)
            if not r or tuple(map(int, r.groups())) != want:
                m.violation("printed format is not the format", case=desc, got=got)
        elif callable(want):
            c = want(got)
            if c:
                m.violation(c, case=desc, got=got)
        elif got != want:
            m.violation("wrong text or value", case=desc, got=got, expected=want)


def text_worker(m, tier, n, wd=None, gen=None):
    todo = n
    while todo > 0 and not m.viol:
        cases = [gen(m.rng) for _ in range(min(todo, 10000))]
        text_judge(m, wd, cases)
        todo -= len(cases)


def mode_table(m, wd, p):
    """All modes, exhaustively: names and ordinals on both sides."""
    cases = []
    rn, sn = list(p.FixRound), list(p.FixSaturate)
    if sorted(x.name for x in rn) != sorted(fx.MODES) or sorted(x.name for x in sn) != sorted(fx.SATS):
        m.violation("Python mode names differ from the documented ones", names=[x.name for x in rn + sn])
    for k, nm in enumerate(fx.MODES):
        v = p.FixRound[nm].value
        cases.append((vhdl.line("pos_rnd", rnd=nm), str(v), f"ordinal of a rounding mode: {nm} (Python {v})", ("o", nm)))
        cases.append((vhdl.line("str_rnd", rnd=nm), (lambda got, nm=nm: None if got.strip().lower() == nm.lower() else "printed name is not the mode's"), f"name of a rounding mode: {nm}", ("n", nm)))
    for k, nm in enumerate(fx.SATS):
        v = p.FixSaturate[nm].value
        cases.append((vhdl.line("pos_sat", sat=nm), str(v), f"ordinal of a saturation mode: {nm} (Python {v})", ("os", nm)))
        cases.append((vhdl.line("str_sat", sat=nm), (lambda got, nm=nm: None if got.strip().lower() == nm.lower() else "printed name is not the mode's"), f"name of a saturation mode: {nm}", ("ns", nm)))
    cases.append((vhdl.line("pos_high"), f"{len(rn) - 1} {len(sn) - 1}", "number of modes: highest ordinals", ("h",)))
    text_judge(m, wd, cases)


def obj_array(xs):
    """The list as a numpy array of objects (the script's own formats come as such)."""
    import numpy as np
    a = np.empty(len(xs), dtype=object)
    a[:] = xs
    return a


def fmt_files(p):
    def gen(rng, fdir, uid):
        n = rng.choice([0, 1, 1, 2, 3, 10, 40])
        fs = [any_fmt(rng) for _ in range(n)]
        fn = os.path.join(fdir, f"f{uid}.txt")
        out = ",".join(f"{f[0]} {f[1]} {f[2]}" for f in fs)
        key = (tuple(fs),)
        if rng.random() < 0.6:
            os_ = [make_fmt(rng, p, f) for f in fs]
            os_ = rng.choice([os_, os_, os_, tuple(os_), obj_array(os_)])
            if rng.random() < 0.4:              # a file of an earlier run lies there
                with open(fn, "w") as old:
                    old.write("# old\n" + "(1, 22, 333)\n" * rng.choice([1, n, n + 1, n + 9]))
            if n == 1 and rng.random() < 0.5:
                p.cl_fix_write_formats(os_[0], ["a"], fn)
            else:
                p.cl_fix_write_formats(os_, rng.choice([["r_fmt"], ["a", "b"]]), fn)
            lead, src = 1, "Python"
        else:
            how = rng.choice(["wf_file", "wf_vals"])

            def look(got, fn=fn, fs=fs):
                ls = open(fn).read().split("\n")
                if ls[-1] != "" or len(ls) - 1 != len(fs):
                    return f"{len(ls) - 1} lines for {len(fs)} formats"
                for l, f in zip(ls, fs):
                    r = FMT_RE.fullmatch(l)
                    if not r or tuple(map(int, r.groups())) != f:
                        return f"line {l!r} is not {f}"
                return None
            yield Job(entb.cmd(how, "fx", fn, rows=n, data=[f"{f[0]} {f[1]} {f[2]}" for f in fs]), look, f"format file written by VHDL: {how} {fs}", ("w", how) + key)
            lead, src = 0, "VHDL"
        ways = ["rf_file", "rf_vals"] + (["rf_def"] if lead else [])
        for how in set(rng.choice(ways) for _ in range(2)):
            if how == "rf_vals":
                if not n:
                    continue
                first, stride = rng.randrange(n), rng.choice([0, 0, 1])
                idx = list(range(first, n, 1 + stride))
                yield Job(entb.cmd(how, "fx", fn, rows=len(idx), skip=lead + first, stride=stride), ",".join(out.split(",")[i] for i in idx),
                          f"format file written by {src} read by VHDL: {how} {fs} from {first} step {1 + stride}", (how, src, first, stride) + key)
            else:
                yield Job(entb.cmd(how, "fx", fn, rows=n, skip=lead), out, f"format file written by {src} read by VHDL: {how} {fs}", (how, src) + key)
    return gen


def c20():
    t0 = time.time()
    p = load_model()
    with Scratch() as wd:
        err = []

        def bg():
            try:
                entb.build(wd)
            except Exception as e:
                err.append(e)
        th = threading.Thread(target=bg)
        th.start()
        vhdl.build_driver(wd)
        th.join()
        if err:
            raise err[0]
        m = run_pool(text_worker, "C20", 160000, 4000000, {"wd": wd, "gen": gen_text(p)})
        m.part = 99
        mode_table(m, wd, p)
        m.merge(run_pool(fio_worker, "C20", 16000, 300000, {"wd": wd, "gen": fmt_files(p)}))
    finish(m, t0, "one evaluation = one string or file handed from one language to the other (or printed and parsed) and the value that came out; distinct by text/value",
           min_evals=20000, need=["format read by VHDL from Python text", "format printed and parsed by VHDL", "vector printed by VHDL", "ordinal of a rounding mode",
                                  "format file written by Python read by VHDL", "format file written by VHDL read by VHDL"],
           assumptions=["GHDL executes VHDL-2008 correctly", "format fields stay below 2**30 in magnitude"])
