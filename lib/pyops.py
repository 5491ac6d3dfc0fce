"""Drives the Python model: builds cases, calls the real code through one of its interfaces, decodes."""
import warnings
import numpy as np
import fx
from pymon import *

P = load_model()
FF = lambda f: P.FixFormat(*f)
T = lambda f: (f.S, f.I, f.F)
RND = {m: P.FixRound[m] for m in fx.MODES}
SAT = {s: P.FixSaturate[s] for s in fx.SATS}
UN = ("abs", "neg")
BIN = ("add", "sub", "addsub", "mult")


def carrier(rng, arr, kind):
    """Present the same numbers in another container. kind: arr, 2d, 0d, scalar, list"""
    if kind == "2d" and arr.size % 2 == 0:
        return arr.reshape(2, -1)
    if kind == "0d":
        return arr.reshape(-1)[0:1].reshape(())
    if kind == "scalar":
        x = arr.reshape(-1)[0]
        return int(x) if arr.dtype == object else float(x)
    if kind == "npscalar":
        x = arr.reshape(-1)[0]
        return int(x) if arr.dtype == object else np.float64(x)
    if kind == "list" and arr.dtype != object:
        return arr.tolist()
    return arr


KINDS = ["arr"] * 8 + ["2d", "2d", "0d", "scalar", "npscalar", "list"]


def obj(cls, vs, f, kind="arr", rng=None):
    """Number object holding integers vs in format f."""
    if cls == "N":
        return P.NarrowFix(carrier(rng, enc_n(vs, f), kind), FF(f))
    return P.WideFix(carrier(rng, enc_w(vs), kind), FF(f))


def dec_obj(o, cls, f):
    if T(o.fmt) != f:
        raise Bad(f"result object has format {T(o.fmt)}, expected {f}")
    return dec_n(o.data, f) if cls == "N" else dec_w(o.data)


class Case:
    __slots__ = ("op", "fa", "fb", "rf", "mode", "sat", "a", "b", "shift", "add", "iface", "kind", "defaults", "none_fmt", "kw", "alias")

    def __init__(self):
        self.alias = False

    def desc(self):
        return {k: getattr(self, k) for k in self.__slots__}


NPINTS = [np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64]


def np_int(rng, x, p=0.3):
    """An integer (or list of integers), sometimes as a numpy scalar or array of some dtype that holds it."""
    lst = isinstance(x, (list, tuple))
    lo, hi = (min(x), max(x)) if lst else (x, x)
    if rng.random() < p:
        fit = [d for d in NPINTS if np.iinfo(d).min <= lo and hi <= np.iinfo(d).max]
        d = rng.choice(fit)
        return np.array(x, dtype=d) if lst else d(x)
    return np.array(x) if lst else x


def op_fmt(op, fa, fb, shift):
    """The model's own full-precision format of an operation (its rules are the subject of C04)."""
    F = P.FixFormat
    if op == "abs":
        return T(F.for_abs(FF(fa)))
    if op == "neg":
        return T(F.for_neg(FF(fa)))
    if op == "shift":
        s = shift if isinstance(shift, list) else [shift]
        return T(F.for_shift(FF(fa), min(s), max(s)))
    if op == "resize":
        return fa
    return T(getattr(F, "for_" + op)(FF(fa), FF(fb)))


def gen_case(rng, ops, n=6, ifaces=("F", "F", "F", "N", "W"), kinds=None, defaults=True, sats=None):
    c = Case()
    c.op = rng.choice(ops)
    c.iface = rng.choice(ifaces)
    wmax = 1100 if rng.random() < 0.1 else 200
    long = rng.random() < 1e-4              # long arrays: blocks, vector units, thresholds on the size
    if long:
        n = rng.choice([257, 1000, 1025, 2049, 4097, 10001, 20000, 33000])
    else:
        n = rng.choice([1, 2, 3, 5, n, n, n, n, 9]) if rng.random() < 0.97 else 60
    for attempt in range(200):
        if c.iface == "N":
            fk = ["tiny", "small", "mid", "edge53", "edge64"] if c.op in ("round", "saturate", "resize") else \
                 ["tiny", "tiny", "small", "small", "mid"]
            c.fa = fx.rand_fmt(rng, wmax=53, kinds=fk)
            c.fb = fx.rand_fmt(rng, wmax=53, kinds=fk) if rng.random() < 0.5 else fx.near_fmt(rng, c.fa)
        else:
            c.fa = fx.rand_fmt(rng, wmax=wmax, kinds=kinds)
            c.fb = fx.rand_fmt(rng, wmax=wmax, kinds=kinds) if rng.random() < 0.5 else fx.near_fmt(rng, c.fa)
        c.alias = c.op in BIN and rng.random() < 0.04       # one array or object as both operands
        if c.alias:
            c.fb = c.fa
            if c.iface == "F" and rng.random() < 0.5:
                d = rng.choice([0, 1, -1, 4, -9]) if is_wide(c.fa) else 0      # (wide: the same integers, scaled differently)
                g = (1 if c.fa[0] else rng.choice([0, 1]), c.fa[1] + rng.choice([0, 1, 3, 20]) - d, c.fa[2] + d)
                if is_wide(g) == is_wide(c.fa):
                    c.fb = g
        c.shift = 0
        if c.op == "shift":
            big = rng.random() < 0.15
            lim = rng.choice([60, 60, 60, 60, 150, 300]) if big else 9
            if rng.random() < 0.4:
                c.shift = [rng.randint(-lim, lim) for _ in range(n)]
            else:
                c.shift = rng.randint(-lim, lim)
        if c.op == "round":
            c.mode = rng.choice(fx.MODES)
            Fr = c.fa[2] + rng.choice([-70, -54, -53, -52, -30, -10, -6, -5, -4, -3, -3, -2, -2, -2, -1, -1, -1, -1, 0, 1, 3, 20])
            if rng.random() < 0.1:
                Fr = -c.fa[1] + rng.choice([-2, -1, 0, 1])      # everything but the top bits dropped
            c.rf = T(P.FixFormat.for_round(FF(c.fa), Fr, RND[c.mode]))
            mid = c.fa
        elif c.op == "saturate":
            c.mode = "Trunc_s"
            mid = c.fa
            c.rf = fx.near_fmt(rng, c.fa, F=c.fa[2], null=0.02)
        else:
            c.mode = rng.choice(fx.MODES)
            mid = op_fmt(c.op, c.fa, c.fb, c.shift)
            c.rf = fx.near_fmt(rng, mid, null=0.02)
        c.sat = rng.choice(sats or fx.SATS)
        c.none_fmt = c.op in UN + BIN + ("shift",) and defaults and rng.random() < 0.12
        if c.none_fmt:
            c.rf = mid
        c.defaults = defaults and not c.none_fmt and c.op not in ("round", "saturate") and rng.random() < 0.1
        if c.defaults:
            c.mode, c.sat = "Trunc_s", "None_s"
        if fx.width(mid) > 2600:
            continue
        rnd_fmt = T(P.FixFormat.for_round(FF(mid), c.rf[2], RND[c.mode]))
        if any(not is_wide(f) and (abs(f[1]) > 900 or abs(f[2]) > 900) for f in (c.fa, c.fb, mid, rnd_fmt, c.rf)):
            continue                            # beyond the exponent range of a double
        if c.iface == "N":
            rfmt = T(P.FixFormat.for_round(FF(mid), c.rf[2], RND[c.mode]))
            extra = [op_fmt("add", c.fa, c.fb, 0), op_fmt("sub", c.fa, c.fb, 0)] if c.op == "addsub" else []
            if max(fx.width(x) for x in [c.fa, c.fb, mid, rfmt, c.rf] + extra) > 53:
                continue
            if c.op in ("neg", "abs") and fx.width(op_fmt("neg", c.fa, c.fb, 0)) > 53:
                continue
        break
    else:
        return gen_case(rng, ops, n, ("F",), kinds, defaults, sats)
    drop = mid[2] - c.rf[2]
    c.kind = rng.choice(["arr", "arr", "2d", "list"] if long else KINDS)
    if c.kind == "list" and c.iface != "F":
        c.kind = "arr"
    if isinstance(c.shift, list) and c.kind != "2d":
        c.kind = "arr"
    c.a = fx.rand_vals(rng, c.fa, n, drop)
    c.b = fx.rand_vals(rng, c.fb, n, drop)
    if c.alias:
        c.b = list(c.a)
    c.add = [rng.random() < 0.5 for _ in range(n)]
    if rng.random() < 0.1:
        c.add = [c.add[0]] * n
    if c.kind in ("0d", "scalar", "npscalar"):
        c.a, c.b, c.add = c.a[:1], c.b[:1], c.add[:1]
    c.kw = rng.random() < 0.2
    return c


def expected(c):
    """[(result, out_of_range)] per element."""
    out = []
    for i, v in enumerate(c.a):
        s = c.shift[i] if isinstance(c.shift, list) else c.shift
        if c.op in ("round", "saturate"):
            x, F = v, c.fa[2]
        else:
            x, F = fx.op_exact(c.op, v, c.fa, c.b[i], c.fb, s, c.add[i])
        r = fx.round_exact(x, F, c.rf[2], c.mode)
        if c.op == "round":
            out.append((r, False))
        else:
            out.append((fx.sat_exact(r, c.rf, c.sat), fx.out_of_range(r, c.rf)))
    return out


def _args(c):
    if c.none_fmt:
        return (), ({"rnd": RND[c.mode], "sat": SAT[c.sat]} if c.kw else {})
    if c.defaults:
        return (FF(c.rf),), {}
    if c.op == "round":
        return (FF(c.rf), RND[c.mode]), {}
    if c.op == "saturate":
        return (FF(c.rf), SAT[c.sat]), {}
    if c.kw:
        return (), {"r_fmt": FF(c.rf), "rnd": RND[c.mode], "sat": SAT[c.sat]}
    return (FF(c.rf), RND[c.mode], SAT[c.sat]), {}


def execute(c, rng):
    """Calls the real code; returns (decoded result list, recorded warnings, raw result)."""
    args, kw = _args(c)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        if c.iface == "F":
            A = carrier(rng, enc(c.a, c.fa), c.kind)
            B = A if c.alias and c.a == c.b else carrier(rng, enc(c.b, c.fb), c.kind)
            fn = getattr(P, "cl_fix_" + c.op)
            if c.op in ("round", "saturate", "resize") + UN:
                R = fn(A, FF(c.fa), *args, **kw)
            elif c.op == "addsub":
                add = np.array(c.add).reshape(np.shape(A)) if len(c.a) > 1 else bool(c.add[0])
                if len(set(c.add)) == 1 and rng.random() < 0.5:
                    add = bool(c.add[0])
                R = fn(A, FF(c.fa), B, FF(c.fb), add, *args, **kw)
            elif c.op == "shift":
                s = np_int(rng, c.shift)
                s = s.reshape(np.shape(A)) if isinstance(c.shift, list) else s
                if not args and "r_fmt" not in kw:
                    args = (None,)
                R = fn(A, FF(c.fa), s, *args, **kw)
            else:
                R = fn(A, FF(c.fa), B, FF(c.fb), *args, **kw)
            got = dec(R, c.rf)
        else:
            A = obj(c.iface, c.a, c.fa, c.kind, rng)
            B = obj(c.iface, c.b, c.fb, c.kind, rng) if c.op in BIN else None
            if c.alias and c.a == c.b and c.fa == c.fb:
                B = A
            if c.op in ("round", "saturate", "resize") + UN:
                if c.op == "neg" and c.none_fmt and not kw:
                    O = -A
                else:
                    O = getattr(A, c.op)(*args, **kw)
            elif c.op == "addsub":
                add = np.array(c.add).reshape(np.shape(A.data)) if len(c.a) > 1 else bool(c.add[0])
                O = A.addsub(B, add, *args, **kw)
            elif c.op == "shift":
                s = np_int(rng, c.shift)
                s = s.reshape(np.shape(A.data)) if isinstance(c.shift, list) else s
                O = A << s if (c.none_fmt and not kw and rng.random() < 0.5) else A.shift(s, *args, **kw)
            else:
                if c.none_fmt and not kw and rng.random() < 0.5:
                    O = {"add": lambda: A + B, "sub": lambda: A - B, "mult": lambda: A * B}[c.op]()
                else:
                    O = getattr(A, c.op)(B, *args, **kw)
            got, R = dec_obj(O, c.iface, c.rf), O
    return got, ws, R


def check_values(m, c, rng, label):
    """Runs a case and compares values; returns (expected, warnings) or None."""
    exp = expected(c)
    m.evals += len(c.a)
    try:
        got, ws, R = execute(c, rng)
    except Exception as e:
        m.violation(f"{label}: {c.op} raised {type(e).__name__}: {e}", **c.desc())
        return None
    want = [x for x, _ in exp]
    if got != want:
        m.violation(f"{label}: {c.op} returned {got}, exact result is {want}", **c.desc())
        return None
    return exp, ws, R
