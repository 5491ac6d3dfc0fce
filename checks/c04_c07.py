"""C04 result formats, C05 narrow/wide interchangeability, C06 range/compare/limits, C07 warnings."""
from pyops import *
import c01_c03

F = P.FixFormat


# ---------------------------------------------------------------------------------------- C04
def ref_check(m, op, fa, fb, rf, lo, hi, FF_, **case):
    """rf must hold [lo, hi] (integers at FF_ fractional bits), with minimal I and exactly FF_ frac bits."""
    S, I, Fr = rf
    if Fr != FF_:
        m.violation(f"{op} format {rf}: exact result needs {FF_} fractional bits", op=op, fa=fa, fb=fb, **case)
        return
    if lo < vmin_(rf) or hi > fx.vmax(rf):
        m.violation(f"{op} format {rf} cannot hold the exact results [{lo}, {hi}] (LSBs)", op=op, fa=fa, fb=fb, **case)
        return
    n = fx.int_bits(lo, hi, Fr, S)
    if I + Fr > n:
        m.violation(f"{op} format {rf} has {I + Fr - n} integer bit(s) more than needed", op=op, fa=fa, fb=fb, **case)
    if op in ("add", "sub", "addsub", "mult", "shift") and S == 1 and lo >= 0 and not (op == "shift"):
        m.violation(f"{op} format {rf} is signed but no result is negative", op=op, fa=fa, fb=fb, **case)


def vmin_(f):
    return fx.vmin(f)


ALIAS = {"add": "cl_fix_add_fmt", "sub": "cl_fix_sub_fmt", "addsub": "cl_fix_addsub_fmt", "mult": "cl_fix_mult_fmt",
         "neg": "cl_fix_neg_fmt", "abs": "cl_fix_abs_fmt", "shift": "cl_fix_shift_fmt", "round": "cl_fix_round_fmt", "union": "cl_fix_union_fmt"}


def fmt_case(m, op, fa, fb, arg=None):
    rng = m.rng
    A, B = FF(fa), FF(fb)
    if rng.random() < 0.15:                     # fields given as numpy integers
        A, B = (F(*[np_int(rng, x, 0.8) for x in f]) for f in (fa, fb))
    before = (T(A), T(B))
    fn = getattr(F, "for_" + op) if op != "union" else F.union
    if rng.random() < 0.3:
        fn = getattr(P, ALIAS[op])
    m.evals += 1
    m.count("fmt_" + op)
    m.seen((op, fa, fb, str(arg)))
    try:
        if op in ("neg", "abs"):
            R = fn(A)
        elif op == "shift":
            lo_s, hi_s = arg
            if rng.random() < 0.3:
                lo_s, hi_s = np_int(rng, lo_s, 0.8), np_int(rng, hi_s, 0.8)
            R = fn(A, lo_s) if lo_s == hi_s and rng.random() < 0.5 else fn(A, lo_s, hi_s)
        elif op == "round":
            R = fn(A, arg[0], RND[arg[1]])
        elif op == "union":
            if len(arg) == 2 and rng.random() < 0.5:
                As = [FF(x) for x in arg]
                R = fn(As[0], As[1])
            else:
                As = [FF(x) for x in arg]
                R = fn(tuple(As) if rng.random() < 0.5 else list(As))
            if [T(x) for x in As] != list(arg):
                m.violation("union changed its input formats", arg=arg, now=[T(x) for x in As])
            if any(R is x for x in As):
                m.violation("union returned one of its inputs (shared, mutable)", arg=arg)
        else:
            R = fn(A, B)
        rf = T(R)
    except Exception as e:
        m.violation(f"for_{op} raised {type(e).__name__}: {e}", op=op, fa=fa, fb=fb, arg=arg)
        return
    if (T(A), T(B)) != before or R is A or R is B:
        m.violation(f"for_{op} changed or returned an input format", op=op, fa=fa, fb=fb, arg=arg)
    if not all(type(x) is int for x in rf) or rf[0] not in (0, 1) or rf[1] + rf[2] < 0:
        m.violation(f"for_{op} returned a malformed format {rf}", op=op, fa=fa, fb=fb, arg=arg)
        return
    if R.width != sum(rf) or P.cl_fix_width(R) != sum(rf):
        m.violation("width is not S+I+F", fmt=rf, width=R.width)
    if op in ("add", "sub", "mult"):
        lo, hi, Fx = fx.corners(op, fa, fb)
        ref_check(m, op, fa, fb, rf, lo, hi, Fx)
    elif op == "addsub":
        l1, h1, Fx = fx.corners("add", fa, fb)
        l2, h2, _ = fx.corners("sub", fa, fb)
        ref_check(m, op, fa, fb, rf, min(l1, l2), max(h1, h2), Fx)
    elif op in ("neg", "abs"):
        lo, hi, Fx = fx.corners(op, fa)
        if op == "abs":
            lo = 0
        ref_check(m, op, fa, fb, rf, lo, hi, Fx)
    elif op == "shift":
        s1, s2 = arg
        exp = (fa[0], fa[1] + s2, fa[2] - s1)
        if rf != exp:
            m.violation(f"shift format {rf}: a<<[{s1},{s2}] needs exactly {exp}", fa=fa, arg=arg)
    elif op == "round":
        Fr, mode = arg
        grow = 1 if (Fr < fa[2] and mode != "Trunc_s") else 0
        I = max(fa[1] + grow, 1 - fa[0] - Fr)
        vs = [fx.round_exact(v, fa[2], Fr, mode) for v in (fx.vmin(fa), fx.vmax(fa))]
        if rf[0] == fa[0] and rf[2] == Fr and (vs[0] < fx.vmin(rf) or vs[1] > fx.vmax(rf)):
            m.violation(f"rounding format {rf} cannot hold every rounded value", fa=fa, arg=arg)
        if rf != (fa[0], I, Fr):
            m.violation(f"rounding format {rf}: expected {(fa[0], I, Fr)}", fa=fa, arg=arg)
    else:
        exp = tuple(max(x[i] for x in arg) for i in range(3))
        if rf != exp:
            m.violation(f"union is {rf}, smallest common format is {exp}", arg=arg)
    if op == "round" or rng.random() < 0.05:
        # equality of formats
        eq = R == FF(rf)
        k = rng.randrange(3)
        other = list(rf)
        other[k] = 1 - other[k] if k == 0 else other[k] + 1
        if eq is not True and not eq or (R == FF(tuple(other))):
            m.violation("format equality is wrong", fmt=rf, other=other)


def c04_work(m, tier, n):
    rng = m.rng
    small = [(S, I, Fx) for S in (0, 1) for I in range(-4, 6) for Fx in range(-4, 6) if 1 <= S + I + Fx <= 7 and I + Fx >= 0]
    pairs = [(a, b) for a in small for b in small]
    for a, b in pairs[m.part::m.nparts]:
        for op in ("add", "sub", "addsub", "mult"):
            fmt_case(m, op, a, b)
        m.count("exhaustive_pairs")
    for i in range(n):
        fa = fx.rand_fmt(rng, wmax=1100 if rng.random() < 0.2 else 200)
        fb = fx.rand_fmt(rng, wmax=1100 if rng.random() < 0.2 else 200) if rng.random() < 0.6 else fx.near_fmt(rng, fa)
        if rng.random() < 0.15:
            fb = rng.choice([(1, -fb[2], fb[2]), (0, 1 - fb[2], fb[2]), (1, -fa[2], fa[2]), (0, 1 - fa[1], fa[1])])
        if rng.random() < 0.1:
            fa = rng.choice([(1, -fa[2], fa[2]), (0, 1 - fa[2], fa[2])])
        op = rng.choice(["add", "sub", "addsub", "mult", "add", "sub", "mult", "neg", "abs", "shift", "round", "union"])
        arg = None
        if op == "shift":
            s1 = rng.randint(-80, 80)
            s2 = s1 if rng.random() < 0.4 else s1 + rng.randint(0, 50)
            arg = (s1, s2)
        elif op == "round":
            arg = (fa[2] + rng.choice([-200, -40, -9, -5, -4, -3, -2, -1, 0, 1, 4, 30]), rng.choice(fx.MODES))
            if rng.random() < 0.2:
                arg = (-fa[1] - fa[0] + rng.randint(-2, 2), arg[1])
        elif op == "union":
            k = rng.randint(1, 5) if rng.random() < 0.9 else rng.randint(6, 40)
            arg = [fx.rand_fmt(rng) for _ in range(k)]
        fmt_case(m, op, fa, fb, arg)
        if i == 0:
            m.sample({"op": op, "fa": fa, "fb": fb, "arg": arg})


def c04():
    t0 = time.time()
    m = run_pool(c04_work, "C04", 250000, 12000000)
    finish(m, t0, "all pairs of formats with I,F in [-4,5] and width<=7 for the binary operations plus random formats up to 1100 bits; "
           "non-trivial = distinct (operation, formats, argument)", min_evals=50000, need=["fmt_" + o for o in ALIAS])


# ---------------------------------------------------------------------------------------- C05
def c05_work(m, tier, n):
    rng = m.rng
    ops = ["round", "saturate", "resize", "abs", "neg", "add", "sub", "addsub", "mult", "shift"]
    kinds = ["edge53", "edge53", "edge53", "mid", "small", "edge64", "wide", "exact"]
    for i in range(n):
        c = gen_case(rng, ops, 5, ("F",), kinds)
        d = c.desc()
        r = check_values(m, c, rng, "mixed representations")
        if r is None:
            continue
        exp, ws, R = r
        # representation decided by the format alone
        want = object if is_wide(c.rf) else np.float64
        if getattr(R, "dtype", None) != want:
            m.violation(f"result of format {c.rf} has dtype {getattr(R, 'dtype', type(R))}", **d)
        if P.cl_fix_is_wide(FF(c.rf)) != is_wide(c.rf):
            m.violation("cl_fix_is_wide disagrees with the 53-bit rule", fmt=c.rf)
        # same through the wide class, whatever the widths
        c.iface, k = "W", c.kind
        if c.kind in ("list",):
            c.kind = "arr"
        if not c.none_fmt or True:
            check_values(m, c, rng, "forced wide")
        if max(fx.width(x) for x in (c.fa, c.fb, c.rf)) <= 53:
            m.count("all_narrow")
        crossing = len({is_wide(c.fa), is_wide(c.rf)} | ({is_wide(c.fb)} if c.op in BIN else set())) > 1
        m.count("crossing_53" if crossing else "not_crossing")
        m.count("op_" + c.op)
        if crossing:
            m.seen((c.op, c.fa, c.fb, c.rf, c.mode, c.sat, tuple(c.a)))
        # conversions between the two classes
        f = c.fa if not is_wide(c.fa) else (c.fb if not is_wide(c.fb) else None)
        if f:
            vs = fx.rand_vals(rng, f, 4)
            m.evals += 4
            try:
                k = rng.choice(["arr", "arr", "2d", "0d"])
                N = obj("N", vs, f, k, rng)
                W = P.WideFix.from_narrowfix(N)
                ref = dec_n(N.data, f)
                if T(W.fmt) != f or dec_w(W.data) != ref or W.data.shape != N.data.shape:
                    m.violation("narrow to wide conversion changed values", fmt=f, values=vs, got=W.data)
                back = W.to_real()
                if dec_n(back, f) != ref:
                    m.violation("wide to real conversion changed values", fmt=f, values=vs, got=back)
                m.count("conversions")
            except Exception as e:
                m.violation(f"conversion raised {type(e).__name__}: {e}", fmt=f, values=vs)
        # limits, generated data and conversions have the representation of the format too
        f = rng.choice([c.fa, c.rf])
        for nm, fn in (("max", lambda: P.cl_fix_max_value(FF(f))), ("min", lambda: P.cl_fix_min_value(FF(f))),
                       ("zeros", lambda: P.cl_fix_zeros((2,), FF(f))), ("random", lambda: P.cl_fix_random((2,), FF(f))),
                       ("from_real", lambda: P.cl_fix_from_real(np.array([0.0, 1.0]), FF(f), P.FixSaturate.Sat_s)),
                       ("from_integer", lambda: P.cl_fix_from_integer(np.array([0, fx.vmax(f) > 0], dtype=np.int64), FF(f)))):
            if nm == "from_integer" and fx.width(f) == 0:
                continue
            if rng.random() < 0.2:
                try:
                    x = fn()
                    dec(x, f)
                    m.count("repr_" + nm)
                except Exception as e:
                    m.violation(f"{nm} for format {f}: {type(e).__name__}: {e}", fmt=f)
        if i < 1:
            m.sample(d)


def c05():
    t0 = time.time()
    m = run_pool(c05_work, "C05", 160000, 5000000)
    finish(m, t0, "random operations with formats clustered around 53 bits, run through the functions and again with every operand forced into the wide class; "
           "non-trivial = distinct case whose operands/results lie on both sides of 53 bits", min_evals=10000, need=["crossing_53", "all_narrow", "conversions"])


# ---------------------------------------------------------------------------------------- C06
CMP = {"==": lambda x, y: x == y, "!=": lambda x, y: x != y, "<": lambda x, y: x < y,
       "<=": lambda x, y: x <= y, ">": lambda x, y: x > y, ">=": lambda x, y: x >= y}


def c06_work(m, tier, n):
    rng = m.rng
    for i in range(n):
        fa = fx.rand_fmt(rng, wmax=1100 if rng.random() < 0.05 else 200)
        rf = fx.near_fmt(rng, fa, null=0.02) if rng.random() < 0.8 else fx.rand_fmt(rng)
        mode = rng.choice(fx.MODES)
        if any(not is_wide(f) and (abs(f[1]) > 900 or abs(f[2]) > 900) for f in (fa, rf)):
            continue
        N = rng.choice([1, 4, 4, 7]) if rng.random() > 3e-4 else rng.choice([257, 1025, 4097, 10001])
        vs = fx.rand_vals(rng, fa, N, fa[2] - rf[2])
        # values right at the limits of rf
        for j in range(N):
            if rng.random() < 0.5:
                lim = rng.choice([fx.vmax(rf), fx.vmin(rf), fx.vmax(rf) + 1, fx.vmin(rf) - 1])
                v = lim << (fa[2] - rf[2]) if fa[2] >= rf[2] else lim >> (rf[2] - fa[2])
                if fa[2] > rf[2]:
                    v += rng.choice([0, 1, -1, 1 << (fa[2] - rf[2] - 1), (1 << (fa[2] - rf[2] - 1)) - 1, -(1 << (fa[2] - rf[2] - 1)), -(1 << (fa[2] - rf[2] - 1)) - 1, -(1 << (fa[2] - rf[2] - 1)) + 1])
                else:
                    v += rng.choice([0, 0, 1, -1])
                if fx.vmin(fa) <= v <= fx.vmax(fa):
                    vs[j] = v
        exp = [not fx.out_of_range(fx.round_exact(v, fa[2], rf[2], mode), rf) for v in vs]
        kind = rng.choice(KINDS)
        if kind in ("0d", "scalar", "npscalar"):
            vs, exp = vs[:1], exp[:1]
        rfmt = T(F.for_round(FF(fa), rf[2], RND[mode]))
        cls = "N" if (max(map(fx.width, (fa, rf, rfmt))) <= 53 and rng.random() < 0.4) else "F"
        m.evals += len(vs)
        try:
            if cls == "N":
                got = obj("N", vs, fa, kind if kind != "list" else "arr", rng).in_range(FF(rf), RND[mode])
            elif mode == "Trunc_s" and rng.random() < 0.5:
                got = P.cl_fix_in_range(carrier(rng, enc(vs, fa), kind), FF(fa), FF(rf))
            else:
                got = P.cl_fix_in_range(carrier(rng, enc(vs, fa), kind), FF(fa), FF(rf), RND[mode])
            g = [bool(x) for x in np.ravel(np.asarray(got))]
        except Exception as e:
            m.violation(f"in_range raised {type(e).__name__}: {e}", fa=fa, rf=rf, mode=mode, values=vs, cls=cls, kind=kind)
            continue
        if g != exp:
            m.violation(f"in_range returned {g}, exact answer {exp}", fa=fa, rf=rf, mode=mode, values=vs, cls=cls, kind=kind)
        m.count("in_range_" + cls)
        m.count("in_range_true", sum(exp))
        m.count("in_range_false", len(exp) - sum(exp))
        if is_wide(rfmt) != is_wide(rf):
            m.count("in_range_mixed_repr")
        m.seen((fa, rf, mode, tuple(vs)))
        if i < 1:
            m.sample({"fa": fa, "rf": rf, "mode": mode, "values": vs, "in_range": exp})

        # limits
        for f in (fa, rf):
            try:
                hi, lo = P.cl_fix_max_value(FF(f)), P.cl_fix_min_value(FF(f))
                if dec(hi, f) != [fx.vmax(f)] or dec(lo, f) != [fx.vmin(f)]:
                    m.violation(f"limits of {f} are {lo}, {hi}", fmt=f)
                for cl in ("N", "W"):
                    if cl == "N" and is_wide(f):
                        continue
                    C = P.NarrowFix if cl == "N" else P.WideFix
                    if dec_obj(C.max_value(FF(f)), cl, f) != [fx.vmax(f)] or dec_obj(C.min_value(FF(f)), cl, f) != [fx.vmin(f)]:
                        m.violation(f"class limits of {f} are wrong", fmt=f, cls=cl)
                m.evals += 2
                m.count("limits")
            except Exception as e:
                m.violation(f"limits raised {type(e).__name__}: {e}", fmt=f)

        # comparisons
        fb = fx.near_fmt(rng, fa) if rng.random() < 0.7 else fx.rand_fmt(rng)
        cls = "N" if max(fx.width(fa), fx.width(fb)) <= 53 and rng.random() < 0.5 else "W"
        if cls == "N" and any(abs(f[1]) > 900 or abs(f[2]) > 900 for f in (fa, fb)):
            continue
        N = 4 if rng.random() > 3e-4 else rng.choice([257, 1025, 4097, 10001])
        va = fx.rand_vals(rng, fa, N)
        vb = fx.rand_vals(rng, fb, N)
        for j in range(N):
            if rng.random() < 0.6:       # nearly equal real values
                v = fx.round_exact(va[j], fa[2], fb[2], "Trunc_s") + rng.choice([0, 0, 1, -1])
                if fx.vmin(fb) <= v <= fx.vmax(fb):
                    vb[j] = v
        mF = max(fa[2], fb[2])
        xs = [v << (mF - fa[2]) for v in va]
        ys = [v << (mF - fb[2]) for v in vb]
        try:
            A, B = obj(cls, va, fa), obj(cls, vb, fb)
            if rng.random() < 0.04:          # a number object compared with itself
                B, vb, fb, ys = A, va, fa, xs
                m.count("compare_itself")
            for o, fn in CMP.items():
                g = fn(A, B)
                if np.shape(g) != np.shape(A.data):
                    m.violation(f"comparison {o} returned {g!r}: not one answer per element", cls=cls, fa=fa, fb=fb, a=va, b=vb)
                g = [bool(x) for x in np.ravel(g)]
                e = [fn(x, y) for x, y in zip(xs, ys)]
                m.evals += N
                m.count("compare_" + cls)
                if g != e:
                    m.violation(f"comparison {o} returned {g}, exact {e}", cls=cls, fa=fa, fb=fb, a=va, b=vb)
            m.count("compare_equal", sum(x == y for x, y in zip(xs, ys)))
            if N == 4 and rng.random() < 0.1:    # shapes that broadcast
                sa, sb = rng.choice([((4,), ()), ((), (4,)), ((4,), (1,)), ((1,), (4,)), ((4, 1), (4,)), ((4,), (4, 1)), ((2, 2), (2,)), ((2,), (2, 2)), ((2, 1), (1, 2)), ((1, 4), (4,))])
                ka, kb = int(np.prod(sa)), int(np.prod(sb))
                C = P.NarrowFix if cls == "N" else P.WideFix
                e2 = enc_n if cls == "N" else (lambda v, f: enc_w(v))
                A2, B2 = C(e2(va[:ka], fa).reshape(sa), FF(fa)), C(e2(vb[:kb], fb).reshape(sb), FF(fb))
                xo, yo = np.empty(ka, dtype=object), np.empty(kb, dtype=object)
                xo[:], yo[:] = xs[:ka], ys[:kb]
                xo, yo = np.broadcast_arrays(xo.reshape(sa), yo.reshape(sb))
                for o, fn in CMP.items():
                    g = fn(A2, B2)
                    e = [fn(x, y) for x, y in zip(xo.ravel(), yo.ravel())]
                    m.evals += len(e)
                    if np.shape(g) != xo.shape or [bool(x) for x in np.ravel(g)] != e:
                        m.violation(f"comparison {o} of shapes {sa} and {sb} returned {g!r}, exact {e}", cls=cls, fa=fa, fb=fb, a=va[:ka], b=vb[:kb])
                m.count("compare_broadcast")
            if dec_obj(A, cls, fa) != va or dec_obj(B, cls, fb) != vb:
                m.violation("comparison changed an operand", cls=cls, fa=fa, fb=fb, a=va, b=vb)
        except Exception as e:
            m.violation(f"comparison raised {type(e).__name__}: {e}", cls=cls, fa=fa, fb=fb, a=va, b=vb)


def c06():
    t0 = time.time()
    m = run_pool(c06_work, "C06", 60000, 2500000)
    finish(m, t0, "random format pairs with values at, next to and rounding across the limits; nearly equal numbers in different formats for comparisons; "
           "non-trivial = distinct (formats, mode, values) of a range test", min_evals=20000,
           need=["in_range_true", "in_range_false", "in_range_mixed_repr", "compare_N", "compare_W", "compare_equal", "compare_itself", "compare_broadcast", "limits"])


# ---------------------------------------------------------------------------------------- C07
def limit_value(rng, c, i):
    """Move element i so that the rounded exact result sits at or just beyond a limit of rf (unary ops)."""
    lim = rng.choice([fx.vmax(c.rf), fx.vmax(c.rf) + 1, fx.vmin(c.rf), fx.vmin(c.rf) - 1])
    Fm = c.fa[2] if c.op != "shift" else c.fa[2] - (c.shift[i] if isinstance(c.shift, list) else c.shift)
    d = Fm - c.rf[2]
    v = (lim << d) if d >= 0 else (lim >> -d)
    if d > 0:
        h = 1 << (d - 1)
        v += rng.choice([0, h, h - 1, -h, -h - 1, -h + 1, 2 * h - 1, -1])
    if c.op == "neg" or (c.op == "abs" and rng.random() < 0.5):
        v = -v
    if c.op in ("add", "sub", "addsub", "mult"):
        return
    if fx.vmin(c.fa) <= v <= fx.vmax(c.fa):
        c.a[i] = v


def clip_all(rng, c):
    """Make (most) elements in range so that a single offender decides."""
    for _ in range(6):
        bad = [i for i, (_, o) in enumerate(expected(c)) if o]
        if not bad:
            break
        for i in bad:
            c.a[i] = c.a[i] // 2 if abs(c.a[i]) > 1 else (0 if fx.vmin(c.fa) <= 0 else c.a[i])
            c.b[i] = c.b[i] // 2 if abs(c.b[i]) > 1 else 0


def c07_work(m, tier, n):
    rng = m.rng
    ops = ["saturate", "saturate", "resize", "abs", "neg", "add", "sub", "addsub", "mult", "shift"]
    for i in range(n):
        c = gen_case(rng, ops, 5, defaults=False)
        if rng.random() < 0.6:
            clip_all(rng, c)
        if rng.random() < 0.7:
            limit_value(rng, c, rng.randrange(len(c.a)))
        d = c.desc()
        r = check_values(m, c, rng, "values")
        if r is None:
            continue
        exp, ws, R = r
        oor = [o for _, o in exp]
        want = c.sat in ("Warn_s", "SatWarn_s") and any(oor)
        sw = sat_warnings(ws)
        m.count(f"{c.sat}_{'oor' if any(oor) else 'inside'}")
        m.count("single_offender", sum(oor) == 1 and len(oor) > 1)
        m.count("op_" + c.op)
        m.seen((c.op, c.fa, c.fb, c.rf, c.mode, c.sat, tuple(c.a), tuple(c.b)))
        if bool(sw) != want:
            m.violation(f"{c.op} with {c.sat}: {'spurious' if sw else 'missing'} saturation warning (elements out of range: {oor}; messages {sw})", **d)
        if i < 1:
            m.sample(d | {"out_of_range": oor, "warnings": sw})
        # the numeric result must not depend on warnings being enabled
        c.sat = {"None_s": "Warn_s", "Warn_s": "None_s", "Sat_s": "SatWarn_s", "SatWarn_s": "Sat_s"}[c.sat]
        check_values(m, c, rng, "values with warnings toggled")

    for i in range(n // 4):
        f = fx.rand_fmt(rng)
        if rng.random() < 0.01:
            f = (0, f[1], -f[1])
        if abs(f[1]) > 900 or abs(f[2]) > 900:
            continue
        from fractions import Fraction as Fr
        lo, hi = Fr(fx.vmin(f)) / Fr(2) ** f[2], Fr(fx.vmax(f)) / Fr(2) ** f[2]
        k = rng.randint(1, 4) if rng.random() > 3e-4 else rng.choice([257, 1025, 4097, 10001])
        xs = [float(lo) + (float(hi) - float(lo)) * rng.random() for _ in range(k)]
        xs = [x if lo <= Fr(x) <= hi else 0.0 for x in xs]
        how = rng.choice(["in", "in", "edge", "edge", "out", "far"])
        lim = rng.choice([float(lo), float(hi)])
        lsb = math.ldexp(1.0, -f[2])
        if how == "edge":
            xs[rng.randrange(k)] = rng.choice([lim, math.nextafter(lim, math.inf), math.nextafter(lim, -math.inf), lim + lsb / 4, lim - lsb / 4, lim + lsb, lim - lsb])
        elif how == "out":
            xs[rng.randrange(k)] = rng.choice([lim * 1.5 + lsb, -lim * 2 - lsb, -lsb])
        elif how == "far":
            xs[rng.randrange(k)] = rng.choice([1e200, -1e200, 1e15, -1e15])
        want_w = any(not (lo <= Fr(x) <= hi) for x in xs)
        sat = rng.choice(["Sat_s", "SatWarn_s", "SatWarn_s", None])
        arg = rng.choice(["arr", "list", "scalar"])
        a = np.array(xs) if arg == "arr" else xs if arg == "list" else xs[0]
        if arg == "scalar":
            want_w = not (lo <= Fr(xs[0]) <= hi)
        cls = rng.choice(["F", "C"])
        fn = P.cl_fix_from_real if cls == "F" else (P.WideFix.from_real if is_wide(f) else P.NarrowFix.from_real)
        if cls == "C" and arg == "list":
            a = np.array(xs)
        m.evals += 1
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            try:
                fn(a, FF(f), *(() if sat is None else (SAT[sat],)))
            except Exception as e:
                m.violation(f"from_real raised {type(e).__name__}: {e}", fmt=f, x=xs)
                continue
        sw = sat_warnings(ws)
        want = want_w and sat != "Sat_s"
        m.count("from_real_" + ("out" if want_w else "in"))
        if bool(sw) != want:
            m.violation(f"from_real with {sat}: {'spurious' if sw else 'missing'} warning {sw}", fmt=f, x=[x.hex() for x in xs], limits=[str(lo), str(hi)])


def c07():
    t0 = time.time()
    m = run_pool(c07_work, "C07", 100000, 3000000)
    finish(m, t0, "random operations with values steered to sit at, just inside or just outside the result limits, often exactly one offender per array; "
           "non-trivial = distinct (operation, formats, modes, operands)", min_evals=10000,
           need=["Warn_s_oor", "Warn_s_inside", "SatWarn_s_oor", "SatWarn_s_inside", "None_s_oor", "Sat_s_oor", "single_offender", "from_real_in", "from_real_out"])
