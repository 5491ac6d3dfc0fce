"""Exact fixed-point reference model, codecs and generators.

Everything here works on Python integers: a number is (v, fmt) with fmt = (S, I, F) and real value
v * 2**-F.  Nothing is imported from the code under test.
"""
import random

MODES = ["Trunc_s", "NonSymPos_s", "NonSymNeg_s", "SymInf_s", "SymZero_s", "ConvEven_s", "ConvOdd_s"]
SATS = ["None_s", "Warn_s", "Sat_s", "SatWarn_s"]


def width(f):
    return f[0] + f[1] + f[2]


def vmin(f):
    return -(1 << (f[1] + f[2])) if f[0] else 0


def vmax(f):
    return (1 << (f[1] + f[2])) - 1


def scale(v, F, Fr):
    """Exact change of binary point; None if it would lose bits."""
    if Fr >= F:
        return v << (Fr - F)
    d = F - Fr
    if v & ((1 << d) - 1):
        return None
    return v >> d


def round_exact(v, F, Fr, mode):
    """Round v*2**-F to a multiple of 2**-Fr."""
    if Fr >= F:
        return v << (Fr - F)
    d = F - Fr
    q = v >> d                     # floor
    rem = v - (q << d)             # 0 <= rem < 2**d
    if mode == "Trunc_s":
        return q
    half = 1 << (d - 1)
    if rem < half:
        return q
    if rem > half:
        return q + 1
    # exact tie between q and q+1
    if mode == "NonSymPos_s":
        return q + 1
    if mode == "NonSymNeg_s":
        return q
    if mode == "SymInf_s":          # away from zero
        return q + 1 if v >= 0 else q
    if mode == "SymZero_s":         # towards zero
        return q if v >= 0 else q + 1
    if mode == "ConvEven_s":
        return q if q % 2 == 0 else q + 1
    if mode == "ConvOdd_s":
        return q if q % 2 == 1 else q + 1
    raise ValueError(mode)


def out_of_range(v, f):
    return v > vmax(f) or v < vmin(f)


def sat_exact(v, f, sat):
    """Saturate or wrap integer v (with f's fractional bits) into f."""
    if sat in ("Sat_s", "SatWarn_s"):
        return min(max(v, vmin(f)), vmax(f))
    n = 1 << width(f)
    v %= n
    if f[0] and v >= n >> 1:
        v -= n
    return v


def resize_exact(v, F, rf, mode, sat):
    """Returns (result, warns)."""
    r = round_exact(v, F, rf[2], mode)
    warn = sat in ("Warn_s", "SatWarn_s") and out_of_range(r, rf)
    return sat_exact(r, rf, sat), warn


def op_exact(op, a, fa, b=None, fb=None, shift=0, add=True):
    """Exact result as (v, F)."""
    F = fa[2]
    if op == "resize":
        return a, F
    if op == "abs":
        return abs(a), F
    if op == "neg":
        return -a, F
    if op == "shift":
        return a, F - shift
    if op == "mult":
        return a * b, fa[2] + fb[2]
    m = max(fa[2], fb[2])
    x, y = a << (m - fa[2]), b << (m - fb[2])
    if op == "add" or (op == "addsub" and add):
        return x + y, m
    return x - y, m


# ------------------------------------------------------------------------------------------------
# Reference result formats: derived from the extreme results, not from bit-growth rules.
# ------------------------------------------------------------------------------------------------
def int_bits(lo, hi, F, signed):
    """Least n = I+F >= 0 such that [lo, hi] (integers) fits."""
    n = 0
    while hi > (1 << n) - 1 or (signed and lo < -(1 << n)):
        n += 1
    return n


def corners(op, fa, fb=None):
    if fb is None:
        cs = [op_exact(op, x, fa) for x in {vmin(fa), vmax(fa), 0}]
    else:
        cs = [op_exact(op, x, fa, y, fb) for x in {vmin(fa), vmax(fa), 0} for y in {vmin(fb), vmax(fb), 0}]
    vs = [c[0] for c in cs]
    return min(vs), max(vs), cs[0][1]


# ------------------------------------------------------------------------------------------------
# Generators
# ------------------------------------------------------------------------------------------------
def rand_fmt(rng, wmin=1, wmax=200, kinds=None):
    """Formats over-weighted at the edges: tiny, 53/54-bit boundary, 64-bit boundary, negative I/F."""
    while True:
        k = rng.choice(kinds or ["tiny", "tiny", "small", "mid", "edge53", "edge53", "edge64", "wide", "exact"] + (["huge"] if wmax > 200 and rng.random() < 0.3 else []))
        if k == "tiny":
            w = rng.randint(1, 4)
        elif k == "small":
            w = rng.randint(2, 12)
        elif k == "mid":
            w = rng.randint(8, 50)
        elif k == "edge53":
            w = rng.randint(50, 56)
        elif k == "edge64":
            w = rng.choice([31, 32, 33, 62, 63, 64, 65, 66])
        elif k == "huge":
            w = rng.choice([255, 256, 257, 511, 512, 513, 1023, 1024, 1025, rng.randint(131, 700)])
        elif k == "exact":
            w = rng.choice([1, 2, 30, 31, 32, 52, 53, 54, 60, 61, 64, 90, 127, 128, 129])
        else:
            w = rng.randint(57, 130)
        if not wmin <= w <= wmax:
            continue
        S = rng.randint(0, 1)
        n = w - S
        c = rng.random()
        if c < 0.55:
            F = rng.randint(0, n) if n else 0
        elif c < 0.7:
            F = n + rng.randint(1, 12)            # I < 0
        elif c < 0.85:
            F = -rng.randint(1, 12)               # F < 0
        elif c < 0.95:
            F = rng.choice([0, n])
        else:
            F = rng.choice([n + rng.randint(13, 70), -rng.randint(13, 70)])
        return (S, n - F, F)


def near_fmt(rng, f, wmax=None, F=None, null=0.0):
    """A format related to f: dropped/extra bits on each side, sign flips; with probability `null` a
    null (zero-width, unsigned) format."""
    if null and rng.random() < null:
        Fr = F if F is not None else f[2] + rng.choice([-30, -5, -2, -1, 0, 0, 1, 2, 5, 25])
        return (0, -Fr, Fr)
    wmax = max(wmax or 0, width(f) + 40)
    for _ in range(10000):
        S = rng.choice([0, 1, f[0]])
        I = f[1] + rng.choice([-40, -12, -5, -4, -3, -2, -1, -1, 0, 0, 0, 1, 1, 2, 3, 9, 30])
        Fr = F if F is not None else f[2] + rng.choice([-60, -30, -9, -5, -4, -3, -2, -2, -1, -1, 0, 0, 1, 2, 5, 25])
        if I + Fr >= 0 and 1 <= S + I + Fr <= wmax:
            return (S, I, Fr)
    return f if F is None else (1, max(f[1], -F), F)


def rand_vals(rng, f, n, drop=None):
    """n values of format f, rich in extremes, ties (for `drop` dropped LSBs) and carry patterns."""
    lo, hi = vmin(f), vmax(f)
    out = []
    w = width(f)
    if w == 0:
        return [0] * n
    while len(out) < n:
        k = rng.randint(0, 9)
        if k == 0:
            v = rng.choice([lo, hi, 0, lo + 1, hi - 1, 1, -1, lo // 2, hi // 2, hi // 2 + 1])
        elif k <= 3 and drop and 0 < drop:
            # around a tie or a unit boundary of the dropped bits
            d = drop
            base = rng.randint(lo, hi) >> d
            if rng.random() < 0.4:
                base = rng.choice([lo >> d, hi >> d, 0, -1, 1])
            v = (base << d) + rng.choice([1 << (d - 1), (1 << (d - 1)) - 1, (1 << (d - 1)) + 1, 0, (1 << d) - 1])
        elif k == 4:
            v = 1 << rng.randint(0, max(0, w - 1))
            v += rng.choice([-1, 0, 1])
            if f[0] and rng.random() < 0.5:
                v = -v
        elif k == 5:
            v = rng.getrandbits(rng.randint(1, w))
            if f[0] and rng.random() < 0.5:
                v = -v
        else:
            v = rng.randint(lo, hi)
        if lo <= v <= hi:
            out.append(v)
        elif rng.random() < 0.2:
            out.append(rng.randint(lo, hi))
    return out
