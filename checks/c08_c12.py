"""C08 conversions, C09 uint64 packing, C10 purity, C11 generated data, C12 misuse."""
import itertools, operator, random as pyrandom
from fractions import Fraction as Q
from pyops import *

F = P.FixFormat


def q2(k):
    return Q(1 << k) if k >= 0 else Q(1, 1 << -k)


def sane(f):
    return abs(f[1]) <= 900 and abs(f[2]) <= 900


# ---------------------------------------------------------------------------------------- C08
def real_input(rng, f):
    """A double, biased to ties, neighbours of ties, limits, huge and tiny numbers."""
    lsb = math.ldexp(1.0, -f[2])
    k = rng.randint(0, 11)
    if k <= 3:
        n = rng.randint(fx.vmin(f), fx.vmax(f)) if rng.random() < 0.5 else rng.choice([0, 1, -1, 2, -2, 3, rng.randint(-1000, 1000), rng.getrandbits(52), 2 ** 52 - 1, 2 ** 51 + 1, 2 ** 53 - 1])
        if abs(n) < 2 ** 52:
            x = (n + rng.choice([0.5, 0.5, 0.25, 0.0, 0.75])) * lsb
        else:
            x = math.ldexp(float(n), -f[2])
    elif k == 4:
        x = rng.choice([float(fx.vmin(f)), float(fx.vmax(f)), fx.vmax(f) + 0.5, fx.vmin(f) - 0.5]) * lsb
    elif k == 5:
        x = rng.choice([0.0, -0.0, 0.5, -0.5, 5e-324, -5e-324, 1e-300, -1e-300, lsb / 2, -lsb / 2, lsb, -lsb, 1e300, -1e300, 1.7976931348623157e308, 0.49999999999999994 * lsb, -0.49999999999999994 * lsb])
    elif k == 6:
        x = math.ldexp(rng.uniform(-1, 1), rng.randint(-1000, 1000))
    elif k == 7:
        x = math.ldexp(rng.uniform(-1, 1), f[1] + rng.randint(-60, 3))
    else:
        lo, hi = fx.vmin(f) * lsb, fx.vmax(f) * lsb
        x = rng.uniform(lo, hi)
    if rng.random() < 0.4:
        x = math.nextafter(x, rng.choice([math.inf, -math.inf]))
    if not math.isfinite(x):
        return 0.0
    return x


def half_up(x, f):
    v = (Q(x) * q2(f[2]) + Q(1, 2)).__floor__()
    return min(max(v, fx.vmin(f)), fx.vmax(f))


def as_double(v, Fb):
    """v*2**-Fb as a double if one holds it exactly, else None."""
    if v == 0:
        return 0.0
    s = abs(v)
    tz = (s & -s).bit_length() - 1
    if s.bit_length() - tz > 53:
        return None
    return math.ldexp(v >> tz, tz - Fb)


def real_container(rng, xs):
    k = rng.choice(["arr", "arr", "arr", "2d", "0d", "list", "float", "npfloat", "strided", "nested", "tuple", "bigendian", "empty", "ints", "int", "intarr", "f32"])
    a = np.array(xs, dtype=np.float64)
    if k == "tuple":
        return k, tuple(xs), xs, (len(xs),)
    if k == "bigendian":
        return k, a.astype(">f8"), xs, (len(xs),)
    if k == "empty" and len(xs) == 1:
        return k, a[:0], [], (0,)
    if k in ("ints", "int", "intarr"):
        # whole numbers handed over as integers (as long as a double holds them)
        xs = [float(round(x)) if abs(x) < 2.0 ** 53 else float(rng.randint(-100, 100)) for x in xs]
        vs = [int(x) for x in xs]
        if k == "int":
            v = vs[0]
            return k, rng.choice([v, np.int64(v)]), xs[:1], ()
        if k == "ints":
            return k, vs, xs, (len(xs),)
        return k, np.array(vs, dtype=rng.choice([d for d in (np.int8, np.int32, np.int64) if all(np.iinfo(d).min <= v <= np.iinfo(d).max for v in vs)])), xs, (len(xs),)
    if k == "f32":
        with np.errstate(all="ignore"):
            b = a.astype(np.float32)
        if np.all(np.isfinite(b)):
            return k, b, [float(x) for x in b], (len(xs),)
    if k == "2d" and len(xs) % 2 == 0:
        return k, a.reshape(2, -1), xs, (2, len(xs) // 2)
    if k == "nested" and len(xs) % 2 == 0:
        return k, a.reshape(2, -1).tolist(), xs, (2, len(xs) // 2)
    if k == "0d":
        return k, a[0:1].reshape(()), xs[:1], ()
    if k == "float":
        return k, xs[0], xs[:1], ()
    if k == "npfloat":
        return k, np.float64(xs[0]), xs[:1], ()
    if k == "list":
        return k, list(xs), xs, (len(xs),)
    if k == "strided":
        b = np.full(2 * len(xs), 7.5)
        b[::2] = xs
        return k, b[::2], xs, (len(xs),)
    return "arr", a, xs, (len(xs),)


INT_DT = [np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64]


def far_fmt(rng):
    """A wide format with limits or LSB near or beyond the exponent range of a double."""
    S = rng.randint(0, 1)
    k = rng.random()
    edge = rng.choice([1022, 1023, 1024, 1025, 1073, 1074, 1075, 1100, 2000, rng.randint(950, 1300)])
    if k < 0.3:
        Fb, w = edge, rng.choice([54, 64, 65, 100, edge, edge + rng.randint(0, 60), rng.randint(54, 1500)])
    elif k < 0.6:
        I, w = edge, rng.choice([54, 64, 65, 100, edge, edge + rng.randint(0, 60), rng.randint(54, 1500)])
        Fb = w - S - I
    else:                                   # both moderate, the width beyond
        I, Fb = rng.randint(480, 900), rng.randint(480, 900)
        return (S, I, Fb)
    return (S, w - S - Fb, Fb)


def q_double(q):
    """The double nearest to the rational q (None if there is none), and whether it is equal."""
    try:
        x = q.numerator / q.denominator
    except OverflowError:
        return None, False
    return x, Q(x) == q


def c08_far(m, rng):
    """Wide formats whose limits or LSB a double cannot hold: conversions stay exact for the values that it can."""
    f = far_fmt(rng)
    lo, hi, u = fx.vmin(f), fx.vmax(f), q2(-f[2])
    xs = []
    for _ in range(rng.choice([1, 2, 4])):
        k = rng.randint(0, 6)
        if k == 0:
            x = rng.choice([0.0, -0.0, 1.0, -1.0, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 2.0 ** 1000])
        elif k <= 2:
            x = math.ldexp(rng.uniform(-1, 1), rng.randint(-1074, 1024))
        else:
            v = rng.choice([lo, hi, hi // 2, rng.randint(lo, hi), rng.randint(-9, 9), rng.getrandbits(50) - 2 ** 49])
            x, _ = q_double((v + rng.choice([0, Q(1, 2), Q(1, 2), Q(1, 4), Q(3, 4)])) * u)
            if x is None:
                x = 0.0
        if rng.random() < 0.3:
            x = math.nextafter(x, rng.choice([math.inf, -math.inf]))
        xs.append(x if math.isfinite(x) else 1.0)
    exp = [min(max((Q(x) / u + Q(1, 2)).__floor__(), lo), hi) for x in xs]
    kind = rng.choice(["arr", "arr", "list", "float", "0d"])
    if kind in ("float", "0d"):
        xs, exp = xs[:1], exp[:1]
    a = {"arr": np.array(xs), "list": list(xs), "float": xs[0], "0d": np.array(xs[0])}[kind]
    info = dict(fmt=f, x=[x.hex() for x in xs], kind=kind)
    m.evals += 2 * len(xs) + 1
    m.count("far_formats")
    sat = rng.choice(["Sat_s", "SatWarn_s"])
    try:
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            r = P.cl_fix_from_real(a, FF(f), SAT[sat])
        if dec(r, f) != exp or np.shape(r) != np.shape(a):
            m.violation(f"from_real returned {dec(r, f)}, nearest (half up, clipped) is {exp}", **info)
        beyond = any(not lo * u <= Q(x) <= hi * u for x in xs)
        if bool(ws) != (beyond and sat == "SatWarn_s"):
            m.violation(f"from_real warned {len(ws)} times ({[str(w.message)[:200] for w in ws]}), values beyond the limits: {beyond}", sat=sat, **info)
        if rng.random() < 0.3:
            z = P.cl_fix_zeros((2, 1), FF(f))
            if dec(z, f) != [0, 0] or z.shape != (2, 1):
                m.violation(f"zeros returned {z!r}", **info)
    except Exception as e:
        m.violation(f"from_real raised {type(e).__name__}: {e}", **info)
    # back to real: values of every size that a double can hold
    vs = []
    while len(vs) < 3:
        v = rng.choice([rng.randint(lo, hi), hi, lo, 0, 1, rng.getrandbits(rng.randint(1, 53)) << rng.randint(0, fx.width(f)), rng.randint(lo, hi) >> rng.randint(0, fx.width(f))])
        v = min(max(v, lo), hi)
        if q_double(v * u)[0] is not None:
            vs.append(v)
        elif rng.random() < 0.2:
            vs.append(0)
    try:
        for nm, rs in (("to_real", P.cl_fix_to_real(enc_w(vs), FF(f))), ("WideFix.to_real", P.WideFix(enc_w(vs), FF(f)).to_real(False))):
            for v, r in zip(vs, rs):
                x, exact = q_double(v * u)
                m.count("far_to_real_exact", exact)
                if float(r) != x and (exact or not math.isfinite(r) or float(r) not in (math.nextafter(x, math.inf), math.nextafter(x, -math.inf))):
                    m.violation(f"{nm} returned {float(r)!r}, the value is {x!r}", value=v, fmt=f)
    except Exception as e:
        m.violation(f"to_real raised {type(e).__name__}: {e}", fmt=f, values=vs)


def c08_work(m, tier, n):
    rng = m.rng
    for i in range(n):
        if i % 12 == 5:
            c08_far(m, rng)
        f = fx.rand_fmt(rng, wmax=900 if rng.random() < 0.05 else 200)
        if not sane(f):
            continue
        if rng.random() < 0.01:              # a null format holds only zero
            f = (0, f[1], -f[1])
            m.count("null_format")
        # ---- from_real
        xs = [real_input(rng, f) for _ in range(rng.choice([1, 2, 4, 4, 6]) if rng.random() > 2e-4 else rng.choice([257, 1025, 4097, 10001]))]
        kind, a, xs, shape = real_container(rng, xs)
        sat = rng.choice(["Sat_s", "SatWarn_s", None])
        cls = rng.choice(["F", "F", "C"]) if kind in ("arr", "2d", "0d", "float", "npfloat", "strided") else "F"
        exp = [half_up(x, f) for x in xs]
        m.evals += len(xs)
        args = (a, FF(f)) + ((SAT[sat],) if sat else ())
        try:
            if cls == "F":
                r = P.cl_fix_from_real(*args)
                got = dec(r, f)
            else:
                o = (P.WideFix if is_wide(f) else P.NarrowFix).from_real(*args)
                r = o.data
                got = dec_obj(o, "W" if is_wide(f) else "N", f)
            if got != exp:
                m.violation(f"from_real returned {got}, nearest (half up, clipped) is {exp}", fmt=f, x=[x.hex() for x in xs], kind=kind, cls=cls)
            elif np.shape(r) != shape:
                m.violation(f"from_real returned shape {np.shape(r)}", fmt=f, shape=shape, kind=kind)
        except Exception as e:
            m.violation(f"from_real raised {type(e).__name__}: {e}", fmt=f, x=[x.hex() for x in xs], kind=kind, cls=cls)
        m.count("from_real_" + ("wide" if is_wide(f) else "narrow"))
        m.count("from_real_" + kind)
        m.count("ties", sum((Q(x) * q2(f[2] + 1)).denominator == 1 and (Q(x) * q2(f[2])).denominator == 2 for x in xs))
        m.count("clipped", sum(e in (fx.vmin(f), fx.vmax(f)) for e in exp))
        m.seen((f, tuple(xs)))
        if i == 0:
            m.sample({"fmt": f, "x": [x.hex() for x in xs], "from_real": exp})
        if fx.width(f) == 0:
            r = (P.cl_fix_to_integer(np.zeros(2), FF(f)), P.cl_fix_to_real(np.zeros(2), FF(f)))
            if any(np.ravel(x).tolist() != [0, 0] for x in r):
                m.violation("conversion of zeros in a null format", fmt=f, got=r)
            continue
        # ---- integers
        vs = fx.rand_vals(rng, f, rng.choice([1, 2, 4]) if rng.random() > 2e-4 else rng.choice([257, 1025, 4097, 10001]))
        ik = rng.choice(["dt", "dt", "list", "int", "obj", "npint", "2d"])
        shape = (len(vs),)
        if ik == "int":
            vs, shape = vs[:1], ()
            a = vs[0]
        elif ik == "list":
            a = list(vs)
        elif ik == "obj" or ik == "2d":
            a = enc_w(vs)
            if ik == "2d":
                a, shape = a.reshape(1, -1), (1, len(vs))
            if not is_wide(f):
                a = a.astype(np.int64)
        else:
            dts = [d for d in INT_DT if all(np.iinfo(d).min <= v <= np.iinfo(d).max for v in vs)]
            if not dts:
                a = enc_w(vs)
                if not is_wide(f):
                    a = a.astype(np.int64)
            elif ik == "npint":
                vs, shape = vs[:1], ()
                a = rng.choice(dts)(vs[0])
            else:
                a = np.array(vs, dtype=rng.choice(dts))
        m.evals += len(vs)
        m.count("from_integer_" + ik)
        try:
            r = P.cl_fix_from_integer(a, FF(f))
            if dec(r, f) != vs or np.shape(r) != shape:
                m.violation(f"from_integer returned {r!r}", fmt=f, values=vs, kind=ik)
            if not is_wide(f) and rng.random() < 0.3 and not isinstance(a, list):
                if dec_obj(P.NarrowFix.from_integer(a, FF(f)), "N", f) != vs:
                    m.violation("NarrowFix.from_integer differs", fmt=f, values=vs, kind=ik)
            b = P.cl_fix_to_integer(enc(vs, f), FF(f))
            bl = [int(x) for x in np.ravel(b)]
            if bl != vs or not (b.dtype == object or np.issubdtype(b.dtype, np.integer)):
                m.violation(f"to_integer returned {b!r}", fmt=f, values=vs)
            bb = P.cl_fix_to_integer(r, FF(f))
            if [int(x) for x in np.ravel(bb)] != vs or np.shape(bb) != shape:
                m.violation(f"integer round trip returned {bb!r}", fmt=f, values=vs, kind=ik)
            if not is_wide(f):
                b2 = P.NarrowFix(enc_n(vs, f), FF(f)).to_integer()
                if [int(x) for x in b2] != vs:
                    m.violation(f"NarrowFix.to_integer returned {b2!r}", fmt=f, values=vs)
        except Exception as e:
            m.violation(f"integer conversion raised {type(e).__name__}: {e}", fmt=f, values=vs, kind=ik)
        # ---- to_real
        vs = fx.rand_vals(rng, f, 3 if rng.random() > 2e-4 else rng.choice([257, 1025, 4097, 10001]))
        if is_wide(f) and rng.random() < 0.7:      # values a double can hold
            for j in range(len(vs)):
                sh = rng.randint(0, fx.width(f))
                v = rng.getrandbits(rng.randint(1, 53)) << sh
                v = -v if f[0] and rng.random() < 0.5 else v
                if fx.vmin(f) <= v <= fx.vmax(f):
                    vs[j] = v
        if is_wide(f) and rng.random() < 0.15:     # around the limit of 53 bits, or all small
            near = [2**52, -2**52, 2**53, -2**53, 2**54, -2**54]
            small = rng.random() < 0.5
            vs = [rng.randint(-2**52, 2**52 - 1) if small else rng.choice(near) + rng.choice([-2, -1, 0, 1, 2, 3]) for _ in vs]
            vs = [min(max(v, fx.vmin(f)), fx.vmax(f)) for v in vs]
        ex = [as_double(v, f[2]) for v in vs]
        kind = rng.choice(["arr", "arr", "2d", "0d", "scalar", "list"])
        if kind in ("0d", "scalar"):
            vs, ex = vs[:1], ex[:1]
        if kind == "2d":
            vs, ex = vs[:2], ex[:2]
        A = carrier(rng, enc(vs, f), kind)
        m.evals += len(vs)
        try:
            r = P.cl_fix_to_real(A, FF(f))
            rs = [float(x) for x in np.ravel(r)]
            if np.shape(r) != np.shape(A) or len(rs) != len(ex) or any(e is not None and x != e for x, e in zip(rs, ex)):
                m.violation(f"to_real returned {rs}, exact {ex}", fmt=f, values=vs, kind=kind)
            if is_wide(f):
                to_real_close(m, f, vs, rs)
                quiet = rng.random() < 0.4
                with warnings.catch_warnings(record=True) as ws:
                    warnings.simplefilter("always")
                    r = P.WideFix(enc_w(vs), FF(f)).to_real(*([False] if quiet else []))
                    nw = len(ws)
                    if not quiet:
                        P.cl_fix_to_real(A, FF(f))
                rs = [float(x) for x in r]
                if any(e is not None and x != e for x, e in zip(rs, ex)):
                    m.violation(f"WideFix.to_real returned {rs}, exact {ex}", fmt=f, values=vs)
                to_real_close(m, f, vs, rs)
                fits = all(-2**52 <= v < 2**(53 - f[0]) for v in vs)
                if quiet:
                    if nw:
                        m.violation("to_real(warn=False) warned", fmt=f, values=vs)
                elif any(e is None for e in ex):
                    m.count("to_real_lossy")
                    if not nw or len(ws) == nw:
                        m.violation("no warning although to_real lost bits", fmt=f, values=vs, method=nw, function=len(ws) - nw)
                elif fits:
                    m.count("to_real_fits")
                    if ws:
                        m.violation("to_real warned although every value fits 53 bits", fmt=f, values=vs)
            m.count("to_real_exact", sum(e is not None for e in ex))
        except Exception as e:
            m.violation(f"to_real raised {type(e).__name__}: {e}", fmt=f, values=vs, kind=kind)


def to_real_close(m, f, vs, rs):
    for v, r in zip(vs, rs):
        if v and math.isfinite(r):
            x = Q(r) * q2(f[2])
            if abs(x - v) * 2**52 > abs(v):
                m.violation(f"to_real returned {r!r}, which is not the value at double precision", fmt=f, value=v)


def c08():
    t0 = time.time()
    m = run_pool(c08_work, "C08", 120000, 4000000)
    finish(m, t0, "doubles at ties, next to ties, at and beyond the limits, huge and denormal, in every container; integers of every dtype; "
           "non-trivial = distinct (format, reals)", min_evals=20000,
           need=["from_real_wide", "from_real_narrow", "ties", "clipped", "to_real_exact", "to_real_lossy", "to_real_fits", "from_real_float", "from_real_0d", "from_integer_list", "from_integer_dt", "null_format", "far_formats", "far_to_real_exact"])


# ---------------------------------------------------------------------------------------- C09
def c09_work(m, tier, n):
    rng = m.rng
    for i in range(n):
        while True:
            f = fx.rand_fmt(rng, wmin=54, wmax=1100 if rng.random() < 0.1 else 330,
                            kinds=["edge53", "edge64", "wide", "exact", "huge"])
            if rng.random() < 0.3:
                w = 64 * rng.randint(1, 5) + rng.randint(-1, 1)
                Fr = rng.randint(-20, w + 20)
                f = (f[0], w - f[0] - Fr, Fr)
            if fx.width(f) > 53:
                break
        w = fx.width(f)
        k = (w + 63) // 64
        shape = rng.choice([(1,), (3,), (4,), (2, 2), (1, 3), (2, 1, 2), (), (0,), (5,)])
        if rng.random() < 3e-4:
            shape = rng.choice([(257,), (1025,), (4097,), (64, 65)])
        cnt = int(np.prod(shape))
        vs = fx.rand_vals(rng, f, cnt)
        for j in range(cnt):
            if rng.random() < 0.3:           # word boundary patterns
                v = (1 << (64 * rng.randint(0, k))) + rng.choice([-1, 0, 1])
                if f[0] and rng.random() < 0.5:
                    v = -v
                if fx.vmin(f) <= v <= fx.vmax(f):
                    vs[j] = v
        words = [[(v % (1 << (64 * k)) if f[0] == 0 else v % (1 << w)) >> (64 * t) & (2 ** 64 - 1) for t in range(k)] for v in vs]
        lay = rng.choice(["c", "c", "f", "ro", "strided", "scalar"])
        a = enc_w(vs).reshape(shape)
        if lay == "f":
            a = np.asfortranarray(a)
        elif lay == "strided":
            b = np.empty(tuple(2 * s for s in shape), dtype=object)
            b.fill(12345)
            b[tuple(slice(None, None, 2) for _ in shape)] = a
            a = b[tuple(slice(None, None, 2) for _ in shape)]
        elif lay == "scalar" and cnt == 1:
            a, shape = vs[0], ()
        snap = list(np.ravel(a)) if lay != "scalar" or cnt != 1 else None
        if isinstance(a, np.ndarray) and lay == "ro":
            a.flags.writeable = False
        m.evals += max(cnt, 1)
        m.count("words_%s" % min(k, 6))
        m.count("signed" if f[0] else "unsigned")
        m.seen((f, tuple(vs)))
        if i == 0:
            m.sample({"fmt": f, "values": vs, "words": words})
        try:
            fm = FF(f)
            u = P.to_uint64_array(a, fm)
            eshape = (shape or (1,)) + (k,)
            if u.dtype != np.uint64 or u.shape != eshape:
                m.violation(f"packed array has dtype {u.dtype} and shape {u.shape}, expected {eshape}", fmt=f, values=vs, layout=lay)
            elif [[int(x) for x in row] for row in u.reshape(-1, k)] != words:
                m.violation(f"packed words {u.tolist()}, expected {words}", fmt=f, values=vs, layout=lay)
            if snap is not None and (list(np.ravel(a)) != snap or any(type(x) is not int for x in np.ravel(a))):
                m.violation("packing changed its input", fmt=f, values=vs, layout=lay)
            us = u.copy()
            if rng.random() < 0.3:
                u.flags.writeable = False
            if rng.random() < 0.2:
                u = np.asfortranarray(u)
            back = P.from_uint64_array(u, fm)
            if dec_w(back) != vs or back.shape != eshape[:-1]:
                m.violation(f"unpacking returned {back!r}", fmt=f, values=vs)
            if not np.array_equal(u, us):
                m.violation("unpacking changed its input", fmt=f, values=vs)
            if T(fm) != f:
                m.violation("packing changed the format", fmt=f)
            # number class (words along the first axis)
            W = P.WideFix(enc_w(vs).reshape(shape), fm)
            u = W.to_uint64_array()
            if u.dtype != np.uint64 or u.shape != (k,) + shape:
                m.violation(f"WideFix packed shape {u.shape} dtype {u.dtype}", fmt=f, values=vs, shape=shape)
            elif [[int(x) for x in row] for row in np.moveaxis(u, 0, -1).reshape(-1, k)] != words:
                m.violation(f"WideFix packed words {u.tolist()}, expected {words}", fmt=f, values=vs)
            if dec_w(W.data) != vs:
                m.violation("WideFix.to_uint64_array changed the number", fmt=f, values=vs)
            if f[0] == 1 or True:
                B = P.WideFix.from_uint64_array(u, fm)
                if dec_obj(B, "W", f) != vs or B.data.shape != shape:
                    m.violation(f"WideFix unpacking returned {B.data!r}", fmt=f, values=vs, shape=shape)
        except Exception as e:
            m.violation(f"packing raised {type(e).__name__}: {e}", fmt=f, values=vs, layout=lay, shape=shape)
        # refusals
        if i % 4 == 0:
            nf = fx.rand_fmt(rng, wmax=53)
            for nm, call in (("narrow format", lambda: P.to_uint64_array(enc_w([1]), FF(nf))),
                             ("narrow data", lambda: P.to_uint64_array(np.array([1.0]), FF(nf))),
                             ("float data", lambda: P.to_uint64_array(np.array([1.0, 2.0]), FF(f))),
                             ("int64 data", lambda: P.to_uint64_array(np.array([1, 2]), FF(f))),
                             ("float objects", lambda: P.to_uint64_array(np.array([1.0, 2.0], dtype=object), FF(f))),
                             ("float scalar", lambda: P.to_uint64_array(1.0, FF(f))),
                             ("narrow unpack", lambda: P.from_uint64_array(np.zeros((2, 1), dtype=np.uint64), FF(nf))),
                             ("int64 words", lambda: P.from_uint64_array(np.zeros((2, k), dtype=np.int64), FF(f))),
                             ("float words", lambda: P.from_uint64_array(np.zeros((2, k)), FF(f))),
                             ("list words", lambda: P.from_uint64_array([[0] * k], FF(f))),
                             ("class int64 words", lambda: P.WideFix.from_uint64_array(np.zeros((k, 2), dtype=np.int64), FF(f)))):
                m.evals += 1
                try:
                    r = call()
                except Exception:
                    m.count("refused")
                else:
                    m.violation(f"{nm} was accepted: {r!r}", fmt=f, narrow=nf)


def c09():
    t0 = time.time()
    m = run_pool(c09_work, "C09", 60000, 2000000)
    finish(m, t0, "wide formats around multiples of 64 bits with word-boundary values, several shapes and layouts; non-trivial = distinct (format, values)",
           min_evals=10000, need=["words_1", "words_2", "words_3", "signed", "unsigned", "refused"])


# ---------------------------------------------------------------------------------------- C10
def layout(rng, arr, how):
    """Same numbers in another memory layout. Returns (array, base buffer to watch)."""
    if how == "F" and arr.ndim > 1:
        b = np.asfortranarray(arr)
        return b, b
    if how == "strided" and arr.ndim:
        big = np.empty(tuple(2 * s for s in arr.shape), dtype=arr.dtype)
        big.fill(arr.reshape(-1)[0] if arr.size else 0)
        sl = tuple(slice(None, None, 2) for _ in arr.shape)
        big[sl] = arr
        return big[sl], big
    if how == "reversed" and arr.ndim:
        sl = tuple(slice(None, None, -1) for _ in arr.shape)
        b = arr[sl].copy()
        return b[sl], b
    if how == "transposed" and arr.ndim > 1:
        b = np.ascontiguousarray(arr.T)
        return b.T, b
    if how == "readonly":
        b = arr.copy()
        b.flags.writeable = False
        return b, b
    b = arr.copy()
    return b, b


LAYOUTS = ["C", "C", "F", "strided", "reversed", "transposed", "readonly"]
SHAPES = [(4,), (6,), (2, 3), (3, 2), (2, 1, 2), (1,), (), (1, 1), (5,), (2, 2, 2)]
ALL_OPS = ["resize", "abs", "neg", "add", "sub", "addsub", "mult", "shift", "round", "saturate"]


def same(a, b):
    """Identical arrays: shape, dtype, values and element types."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype == object:
        return all(type(x) is type(y) and x == y for x, y in zip(a.ravel(), b.ravel()))
    return bool(np.array_equal(a, b))


def c10_case(rng):
    while True:
        c = gen_case(rng, ALL_OPS, 4, ("F", "F", "N", "W"), sats=["None_s", "Sat_s"])
        if not (c.op == "shift" and isinstance(c.shift, list)):
            break
        c.shift = c.shift[0]
        # gen_case sized the formats for the shift range
        mid = op_fmt("shift", c.fa, c.fb, c.shift)
        if c.none_fmt:
            c.rf = mid
        if c.iface != "N":
            break
    c.kind, c.kw = "arr", False
    return c


def refill(rng, c, shape, bshape):
    """Fresh values for arrays a (shape) and b (bshape)."""
    n, k = int(np.prod(shape)), int(np.prod(bshape))
    c.a, c.b = fx.rand_vals(rng, c.fa, n), fx.rand_vals(rng, c.fb, k)
    out = np.broadcast_shapes(shape, bshape)
    c.add = [rng.random() < 0.5 for _ in range(int(np.prod(out)))]
    return out


def c10_call(c, A, B, add, rng, oneshape=None):
    """Direct call returning the raw result array (function) or (data, fmt)."""
    args = () if c.none_fmt else _c10_args(c)
    if c.iface == "F":
        fn = getattr(P, "cl_fix_" + c.op)
        if c.op == "addsub":
            return fn(A, c.FA, B, c.FB, add, *args)
        if c.op in BIN:
            return fn(A, c.FA, B, c.FB, *args)
        if c.op == "shift":
            return fn(A, c.FA, c.shift, *(args or (None,)))
        return fn(A, c.FA, *args)
    if c.op == "addsub":
        return A.addsub(B, add, *args)
    if c.op in BIN:
        return getattr(A, c.op)(B, *args)
    if c.op == "shift":
        return A.shift(c.shift, *args)
    return getattr(A, c.op)(*args)


def _c10_args(c):
    if c.op == "round":
        return (c.RF, RND[c.mode])
    if c.op == "saturate":
        return (c.RF, SAT[c.sat])
    return (c.RF, RND[c.mode], SAT[c.sat])


class DC:
    """Case with mutable attributes (formats objects attached)."""

    def __init__(self, c):
        for k in Case.__slots__:
            setattr(self, k, getattr(c, k))
        self.FA, self.FB, self.RF = FF(c.fa), FF(c.fb), FF(c.rf)

    def desc(self):
        return {k: getattr(self, k) for k in Case.__slots__}


def raw(R):
    return R if isinstance(R, np.ndarray) or not hasattr(R, "fmt") else R.data


def c10_array(m, rng, history):
    c = DC(c10_case(rng))
    shape = rng.choice(SHAPES)
    if rng.random() < 1e-3:
        shape = rng.choice([(257,), (1025,), (4097,), (64, 65), (2, 3, 800)])
    bshape = shape
    if c.op in BIN and rng.random() < 0.35:
        bshape = rng.choice([(), (1,), shape[-1:] if shape else (), tuple(1 for _ in shape), shape])
        if rng.random() < 0.5:
            shape, bshape = bshape, shape
    out = refill(rng, c, shape, bshape)
    ew = c.iface == "W" or (c.iface == "F" and is_wide(c.fa))
    ewb = c.iface == "W" or (c.iface == "F" and is_wide(c.fb))
    a0 = (enc_w(c.a) if ew else enc_n(c.a, c.fa)).reshape(shape)
    b0 = (enc_w(c.b) if ewb else enc_n(c.b, c.fb)).reshape(bshape)
    la, lb = rng.choice(LAYOUTS), rng.choice(LAYOUTS)
    a, abase = layout(rng, a0, la)
    b, bbase = layout(rng, b0, lb)
    asnap, bsnap = abase.copy(), bbase.copy()
    add = np.array(c.add).reshape(out) if c.op == "addsub" else None
    addsnap = add.copy() if add is not None else None
    info = dict(c.desc(), shape=shape, bshape=bshape, layouts=(la, lb))
    m.evals += int(np.prod(out)) or 1
    m.count("op_" + c.op)
    m.count("layout_" + la)
    m.count("iface_" + c.iface)
    m.count("shape_%dd" % len(out))
    m.seen((c.op, c.fa, c.fb, c.rf, c.mode, c.sat, shape, bshape, la, lb, tuple(c.a)))
    if c.op not in BIN:
        out = shape
    if shape != bshape and c.op in BIN:
        m.count("broadcast")
    cls = P.NarrowFix if c.iface == "N" else P.WideFix
    fsnap = (c.fa, c.fb, c.rf)
    try:
        if c.iface == "F":
            A, B = a, b
        else:
            A, B = cls(a, c.FA), cls(b, c.FB)
        R = c10_call(c, A, B, add, rng)
        r = raw(R)
    except Exception as e:
        m.violation(f"{c.op} on shapes {shape},{bshape} raised {type(e).__name__}: {e}", **info)
        return
    # inputs untouched
    if not same(abase, asnap) or (c.op in BIN and not same(bbase, bsnap)) or (add is not None and not same(add, addsnap)):
        m.violation(f"{c.op} changed an argument array", **info)
    if (T(c.FA), T(c.FB), T(c.RF)) != fsnap:
        m.violation(f"{c.op} changed a format passed to it", now=[T(c.FA), T(c.FB), T(c.RF)], **info)
    if c.iface != "F":
        if not same(A.data, a0) or T(A.fmt) != c.fa or (c.op in BIN and (not same(B.data, b0) or T(B.fmt) != c.fb)):
            m.violation(f"{c.op} changed an operand object", **info)
    # shape and elements
    if np.shape(r) != tuple(out):
        m.violation(f"{c.op}: result shape {np.shape(r)}, expected {tuple(out)}", **info)
        return
    ai = np.broadcast_to(a0, out) if c.op in BIN else a0
    bi = np.broadcast_to(b0, out) if c.op in BIN else None
    flat = np.ravel(r)
    if flat.size > 60:
        idx = sorted({0, flat.size - 1, *(rng.randrange(flat.size) for _ in range(60))})
    else:
        idx = range(flat.size) if rng.random() < 0.5 else [rng.randrange(flat.size)]
    for j in idx:
        x = np.ravel(ai)[j:j + 1]
        y = np.ravel(bi)[j:j + 1] if bi is not None else None
        s = rng.choice(["1d", "0d", "scalar"])
        if s == "0d":
            x, y = x.reshape(()), y.reshape(()) if y is not None else None
        elif s == "scalar":
            x = x.tolist()[0]
            y = y.tolist()[0] if y is not None else None
        try:
            if c.iface == "F":
                one = c10_call(c, x, y, None if add is None else bool(np.ravel(add)[j]), rng)
            else:
                one = c10_call(c, cls(x, c.FA), None if y is None else cls(y, c.FB), None if add is None else bool(np.ravel(add)[j]), rng)
            o = np.ravel(raw(one))[0]
        except Exception as e:
            m.violation(f"{c.op} on one element ({s}) raised {type(e).__name__}: {e}", element=j, **info)
            return
        m.count("elements_compared")
        if o != flat[j] or isinstance(o, int) != isinstance(flat[j], int):
            m.violation(f"{c.op}: element {j} of the array result is {flat[j]!r}, the same operation on that element alone gives {o!r}", **info)
            return
    # a list holding the same numbers (narrow data)
    if c.iface == "F" and not ew and not ewb and rng.random() < 0.3:
        try:
            l = raw(c10_call(c, a0.tolist(), b0.tolist(), add, rng))
            m.count("lists")
            if not np.array_equal(np.asarray(l), np.asarray(r)):
                m.violation(f"{c.op}: lists give {l!r}, arrays {r!r}", **info)
        except Exception as e:
            m.violation(f"{c.op} on lists raised {type(e).__name__}: {e}", **info)
    # results do not share storage with arguments
    rs = r.copy() if isinstance(r, np.ndarray) else r
    if isinstance(R, np.ndarray):
        if np.shares_memory(R, abase) or np.shares_memory(R, bbase):
            m.violation(f"{c.op}: the result shares storage with an argument", **info)
    else:
        # the object hands out copies
        d = R.data
        f = R.fmt
        if d.size and d.flags.writeable:
            d[...] = 0 if d.dtype == object else 0.0
        f.S, f.I, f.F = 0, 77, 3
        if not same(R.data, rs) or T(R.fmt) != (c.rf if not c.none_fmt else c.rf):
            m.violation(f"{c.op}: the result object changed through the values it handed out", **info)
        if np.shares_memory(R._data, abase) if hasattr(R, "_data") else False:
            m.violation(f"{c.op}: the result object shares storage with an argument", **info)
        if c.op in ("resize", "saturate", "round", "abs", "neg", "shift") and hasattr(R, "_data") and hasattr(A, "_data") and np.shares_memory(R._data, A._data):
            m.violation(f"{c.op}: the result object shares storage with its operand", **info)
        m.count("handed_out")
    # what the caller does with a result has no influence on other results
    if rng.random() < 0.2:
        try:
            R2 = c10_call(c, A, B, add, rng)
            d = R2 if isinstance(R2, np.ndarray) else getattr(R2, "_data", None)
            if isinstance(d, np.ndarray) and d.size and d.flags.writeable:
                d[...] = 1 if d.dtype == object else 1.0
                m.count("results_overwritten")
            if not isinstance(R2, np.ndarray) and hasattr(R2, "fmt"):
                g = R2.fmt
                g.S, g.I, g.F = 0, 5, 5
            if not same(raw(R), rs):
                m.violation(f"{c.op}: overwriting the result of a second call changed the result of the first", **info)
            r3 = raw(c10_call(c, A, B, add, rng))
            if not same(r3, rs):
                m.violation(f"{c.op}: gave {r3!r} after an earlier result had been overwritten by the caller, before {rs!r}", **info)
        except Exception as e:
            m.violation(f"{c.op} repeated raised {type(e).__name__}: {e}", **info)
            return
    # results handed out earlier stay what they were
    if isinstance(r, np.ndarray):
        keep = m.__dict__.setdefault("_kept", [])
        if keep:
            m.count("kept_results_looked_at")
            k0, k1, kinfo = rng.choice(keep)
            k0 = raw(k0) if not isinstance(k0, np.ndarray) else k0
            if not same(k0, k1):
                m.violation(f"the result of an earlier call changed from {k1!r} to {k0!r}", latest_call=info, **kinfo)
        if len(keep) < 60:
            keep.append((R, rs, info))
        else:
            keep[rng.randrange(60)] = (R, rs, info)
    if len(history) < 40 or rng.random() < 0.2:
        ent = (c, A, B, add, rs, info)
        if len(history) < 40:
            history.append(ent)
        else:
            history[rng.randrange(40)] = ent


def c10_misc(m, rng):
    """Constructors, limits, conversions, range tests, comparisons."""
    f = fx.rand_fmt(rng)
    if not sane(f):
        return
    wide = is_wide(f)
    shape = rng.choice(SHAPES)
    n = int(np.prod(shape))
    vs = fx.rand_vals(rng, f, n)
    a0 = enc(vs, f).reshape(shape)
    la = rng.choice(LAYOUTS)
    a, base = layout(rng, a0, la)
    snap = base.copy()
    fm = FF(f)
    cls = P.WideFix if wide or rng.random() < 0.3 else P.NarrowFix
    m.evals += 1
    info = dict(fmt=f, values=vs, shape=shape, layout=la)
    try:
        # constructor copies data and format
        if cls is P.NarrowFix or wide:
            X = cls(a, fm)
            b = a.copy()
            Y = cls(b, fm)
            if b.size and b.flags.writeable:
                b[...] = 0
            fm2 = FF(f)
            Z = cls(a0.copy(), fm2)
            fm2.S, fm2.I, fm2.F = 0, 3, 1
            if not same(Y.data, a0) or T(Z.fmt) != f or not same(X.data, a0):
                m.violation("a number object changed when its constructor arguments were changed", cls=cls.__name__, **info)
            m.count("constructors")
            b0 = a0.copy()
            v0 = b0.view()
            v0.flags.writeable = False          # a read-only view of storage that its owner goes on using
            b1, base1 = layout(rng, a0.copy(), rng.choice(LAYOUTS[:-1]))
            V, W1 = cls(v0, fm), cls(b1, fm)
            for q in (b0, base1):
                q[...] = 0
            if not same(V.data, a0) or not same(W1.data, a0):
                m.violation("a number object changed when the storage it was constructed from was overwritten", cls=cls.__name__, **info)
            # operators and comparisons leave operands alone
            X2 = cls(a0.copy(), fm)
            for o in (operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge):
                o(X, X2)
            str(X), repr(X), len(X) if shape else 0
            if not same(X.data, a0) or T(X.fmt) != f:
                m.violation("comparing or printing changed a number object", cls=cls.__name__, **info)
        # other functions
        rf = fx.near_fmt(rng, f)
        RF = FF(rf)
        rnd = RND[rng.choice(fx.MODES)]
        calls = {"in_range": lambda x: P.cl_fix_in_range(x, fm, RF, rnd), "to_integer": lambda x: P.cl_fix_to_integer(x, fm), "to_real": lambda x: P.cl_fix_to_real(x, fm)}
        if cls is P.NarrowFix:
            calls["NarrowFix.in_range"] = lambda x: P.NarrowFix(x, fm).in_range(RF, rnd) if sum(map(int, rf)) <= 53 and fx.width(T(F.for_round(fm, rf[2], rnd))) <= 53 else np.zeros(np.shape(x), bool)
        for nm, fn in calls.items():
            r = fn(a)
            rc = np.array(r, copy=True)
            if np.shape(r) != shape:
                m.violation(f"{nm} returned shape {np.shape(r)}", **info)
            j = rng.randrange(n)
            one = np.ravel(fn(np.ravel(a0)[j:j + 1]))[0]
            if one != np.ravel(r)[j]:
                m.violation(f"{nm}: element {j} is {np.ravel(r)[j]!r} in the array, {one!r} alone", **info)
            if isinstance(r, np.ndarray) and np.shares_memory(r, base):
                m.violation(f"{nm}: the result shares storage with its argument", **info)
            if isinstance(r, np.ndarray) and r.flags.writeable and rng.random() < 0.5:
                r[...] = 1
            if not same(fn(a), rc):
                m.violation(f"{nm}: a repeated call gave something else", **info)
            m.count("fn_" + nm)
        if not wide:
            x = rng.choice([a0, a0 * 1.37])
            xs, xb = layout(rng, np.asarray(x), la)
            sn = xb.copy()
            r = P.cl_fix_from_real(xs, RF, P.FixSaturate.Sat_s) if sane(rf) else None
            if r is not None:
                j = rng.randrange(n)
                one = np.ravel(P.cl_fix_from_real(float(np.ravel(xs)[j]), RF, P.FixSaturate.Sat_s))[0]
                if one != np.ravel(r)[j] or np.shape(r) != shape or not same(xb, sn) or np.shares_memory(r, xb):
                    m.violation(f"from_real: element {j} {np.ravel(r)[j]!r} / alone {one!r}, shape {np.shape(r)}, or input changed", rf=rf, **info)
                m.count("fn_from_real")
        k = np.array(vs, dtype=object if wide else np.int64).reshape(shape)
        ks = k.copy()
        r = P.cl_fix_from_integer(k, fm)
        if not same(k, ks) or not same(r, a0):
            m.violation("from_integer changed its argument or the shape/values", **info)
        if np.shares_memory(r, k):
            m.violation("from_integer: the result shares storage with its argument", **info)
        m.count("fn_from_integer")
        if not same(base, snap):
            m.violation("an argument array was changed", **info)
        if T(fm) != f or T(RF) != rf:
            m.violation("a format was changed", now=[T(fm), T(RF)], **info)
        # limits handed out earlier do not influence later ones
        for fn in (P.cl_fix_max_value, P.cl_fix_min_value):
            v = fn(fm)
            keep = v.copy()
            v[...] = 0
            if not same(fn(fm), keep):
                m.violation("a limit changed after its returned array was overwritten", fmt=f)
        # generated and converted data belongs to the caller
        for nm, fn in (("zeros", lambda: P.cl_fix_zeros(shape, fm)), ("from_integer", lambda: P.cl_fix_from_integer(k, fm)),
                       ("from_real", lambda: P.cl_fix_from_real(np.zeros(shape), fm))):
            v = fn()
            keep = np.array(v, copy=True)
            if not isinstance(v, np.ndarray) and shape == ():
                continue
            if not isinstance(v, np.ndarray) or not v.flags.writeable:
                m.violation(f"{nm} returned {'a read-only array' if isinstance(v, np.ndarray) else type(v).__name__}", **info)
                continue
            if v.size:
                w = np.ravel(keep).copy()
                w[0] = w[0] + 1
                v[np.unravel_index(0, v.shape)] = w[0]
                if np.ravel(v).tolist() != w.tolist():
                    m.violation(f"{nm}: writing one element of the returned array changed others", **info)
            if not same(fn(), keep):
                m.violation(f"{nm}: a repeated call gave something else after the first result had been overwritten", **info)
            m.count("generated_overwritten")
        # operations with no elements
        e = np.array([], dtype=object if wide else np.float64)
        for nm, r in (("neg", P.cl_fix_neg(e, fm)), ("resize", P.cl_fix_resize(e, fm, RF)), ("in_range", P.cl_fix_in_range(e, fm, RF))):
            if np.shape(r) != (0,):
                m.violation(f"{nm} of an empty array has shape {np.shape(r)}", fmt=f)
        m.count("empty")
    except Exception as e:
        m.violation(f"raised {type(e).__name__}: {e}", tb=traceback.format_exc()[-600:], cls=cls.__name__, **info)


def c10_fmts(m, rng):
    """A format that was handed out belongs to the caller: adapting it changes no later answer."""
    fa, fb = fx.rand_fmt(rng), fx.rand_fmt(rng)
    if rng.random() < 0.5:
        fa, fb = [(rng.randrange(2), rng.randrange(1, 4), rng.randrange(0, 4)) for _ in range(2)]
    if not sane(fa) or not sane(fb):
        return
    lo = rng.randrange(-5, 6)
    hi = lo + rng.randrange(0, 5)
    fr, mode = rng.randrange(-4, 12), RND[rng.choice(fx.MODES)]
    al = rng.random() < 0.5
    fn = (lambda n: getattr(P, "cl_fix_%s_fmt" % n)) if al else (lambda n: F.union if n == "union" else getattr(F, "for_" + n))
    calls = {n: (lambda n=n: fn(n)(A, B)) for n in ("add", "sub", "addsub", "mult", "union")}
    calls.update({n: (lambda n=n: fn(n)(A)) for n in ("neg", "abs")})
    calls["shift"] = lambda: fn("shift")(A, lo, hi)
    calls["shift1"] = lambda: fn("shift")(A, lo)
    calls["round"] = lambda: fn("round")(A, fr, mode)
    calls["union1"] = lambda: fn("union")([A, B])
    calls["union_one"] = lambda: fn("union")([A])
    n = rng.choice(sorted(calls))
    info = dict(function=n, fa=fa, fb=fb, shift=(lo, hi), frac=fr, mode=mode.name, alias=al)
    A, B = FF(fa), FF(fb)
    m.evals += 1
    m.count("formats_adapted")
    try:
        r = calls[n]()
        t = T(r)
        if r is A or r is B:
            m.violation("a format function returned its argument object itself", **info)
            return
        r.S, r.I, r.F = 1 - r.S, r.I + 3, r.F + 1
        if (T(A), T(B)) != (fa, fb):
            m.violation("adapting a returned format changed an argument", **info)
        if rng.random() < 0.5:
            A, B = FF(fa), FF(fb)
        t2 = T(calls[n]())
        if t2 != t:
            m.violation(f"a format function returned {t}, and {t2} after the caller had adapted the first one", **info)
        # operations without a result format rely on the same formats
        if n in ("add", "sub", "addsub", "mult", "neg", "abs") and max(map(abs, fa + fb)) < 40:
            xa, xb = (enc([fx.vmax(f) if rng.random() < 0.5 else fx.vmin(f)], f) for f in (fa, fb))
            op = getattr(P, "cl_fix_" + n)
            arg = (xa, A, xb, B) + ((bool(rng.randrange(2)),) if n == "addsub" else ()) if n in BIN else (xa, A)
            if not same(op(*arg), op(*arg, FF(t))):
                m.violation("an operation without a result format gave something else after the caller had adapted a format", **info)
    except Exception as e:
        m.violation(f"raised {type(e).__name__}: {e}", tb=traceback.format_exc()[-500:], **info)


def c10_shift(m, rng):
    """Per-element shifts equal scalar shifts resized to the common format."""
    f = fx.rand_fmt(rng, wmax=120)
    if not sane(f):
        return
    shape = rng.choice([s for s in SHAPES if s])
    n = int(np.prod(shape))
    vs = fx.rand_vals(rng, f, n)
    sh = [rng.randint(-9, 9) for _ in range(n)]
    rf = fx.near_fmt(rng, (f[0], f[1] + max(sh), f[2] - min(sh)))
    if not sane(rf):
        return
    mode = rng.choice(fx.MODES)
    a, base = layout(rng, enc(vs, f).reshape(shape), rng.choice(LAYOUTS))
    s, sbase = layout(rng, np.array(sh).reshape(shape), rng.choice(LAYOUTS))
    sa, ss = base.copy(), sbase.copy()
    m.evals += n
    m.count("array_shift")
    try:
        r = P.cl_fix_shift(a, FF(f), s, FF(rf), RND[mode], P.FixSaturate.Sat_s)
        one = [np.ravel(P.cl_fix_shift(enc([v], f), FF(f), k, FF(rf), RND[mode], P.FixSaturate.Sat_s))[0] for v, k in zip(vs, sh)]
    except Exception as e:
        m.violation(f"shift raised {type(e).__name__}: {e}", fmt=f, rf=rf, values=vs, shifts=sh, shape=shape)
        return
    if np.shape(r) != shape or list(np.ravel(r)) != one:
        m.violation(f"array of shifts gives {r!r}, element by element {one}", fmt=f, rf=rf, values=vs, shifts=sh, mode=mode)
    if not same(base, sa) or not same(sbase, ss):
        m.violation("shift changed an argument array", fmt=f, rf=rf, values=vs, shifts=sh)


def c10_threads(m, rng, history, n):
    """The recorded calls again, from several threads at once (as the co-simulation scripts run), with forced
    thread switches; each must still give what it gave alone."""
    import sys, threading
    old = sys.getswitchinterval()
    sys.setswitchinterval(2e-6)
    out, bar, K = [], threading.Barrier(4), 4

    seeds = [rng.random() for _ in range(K)]

    def run(k):
        r = pyrandom.Random(seeds[k])
        last, switches = None, 0
        bar.wait()
        for _ in range(n // K):
            c, A, B, add, want, info = r.choice(history)
            try:
                x = raw(c10_call(c, A, B, add, r))
                if not same(x, want):
                    out.append((f"{c.op} called while other threads compute gave {x!r}, alone {want!r}", info))
                    return
            except Exception as e:
                out.append((f"{c.op} called while other threads compute raised {type(e).__name__}: {e}", info))
                return
            log.append(k)

    log = []
    try:
        ts = [threading.Thread(target=run, args=(k,)) for k in range(K)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    m.evals += len(log)
    m.count("concurrent_calls", len(log))
    m.count("thread_switches", sum(x != y for x, y in zip(log, log[1:])))
    for w, info in out:
        m.violation(w, **info)


def c10_siblings(rng, ent, k):
    """k calls like a recorded one: same operation, formats and shapes, other values."""
    c, A, B, add, want, info = ent
    def fresh(x, f):
        d = x if c.iface == "F" else x.data
        n = int(np.prod(np.shape(d)))
        vs = fx.rand_vals(rng, f, n)
        w = c.iface == "W" or (c.iface == "F" and is_wide(f))
        d = (enc_w(vs) if w else enc_n(vs, f)).reshape(np.shape(d))
        return d if c.iface == "F" else (P.NarrowFix if c.iface == "N" else P.WideFix)(d, FF(f))
    out = []
    for _ in range(k):
        a2 = fresh(A, c.fa)
        b2 = fresh(B, c.fb) if c.op in BIN else None
        add2 = None if add is None else np.array([rng.random() < 0.5 for _ in range(add.size)]).reshape(add.shape)
        out.append((lambda a2=a2, b2=b2, add2=add2: raw(c10_call(c, a2, b2, add2, rng)), dict(info, a=a2, b=b2, add=add2)))
    return out


def c10_other(rng, k):
    """k sibling calls of the functions that are not arithmetic operations."""
    f = fx.rand_fmt(rng, wmax=120)
    while not sane(f):
        f = fx.rand_fmt(rng, wmax=120)
    g = fx.near_fmt(rng, f)
    rnd, fm, gm = RND[rng.choice(fx.MODES)], FF(f), FF(g)
    what = rng.choice(["in_range", "from_real", "from_integer", "to_integer", "to_real", "compare", "formats", "pack", "limits", "format_text"])
    if what == "pack" and not is_wide(f):
        what = "to_integer"
    from en_cl_fix_pkg import matlab_interface as MI_
    out = []
    n = rng.choice([1, 3, 4, 8])
    for _ in range(k):
        vs = fx.rand_vals(rng, f, n)
        a = enc(vs, f)
        re = np.array([float(Q(v) / q2(f[2])) if abs(v) < 2**900 else 0.0 for v in vs]) * 1.3
        if what == "in_range":
            fn = lambda a=a: P.cl_fix_in_range(a, fm, gm, rnd)
        elif what == "from_real":
            fn = lambda re=re: P.cl_fix_from_real(re, fm, P.FixSaturate.Sat_s)
        elif what == "from_integer":
            fn = lambda vs=vs: P.cl_fix_from_integer(np.array(vs, dtype=object), fm)
        elif what == "to_integer":
            fn = lambda a=a: P.cl_fix_to_integer(a, fm)
        elif what == "to_real":
            fn = lambda a=a: P.cl_fix_to_real(a, fm)
        elif what == "compare":
            h = fx.near_fmt(rng, f)
            us = fx.rand_vals(rng, h, n)
            op = rng.choice([operator.lt, operator.eq, operator.ge])
            x, y = P.WideFix(enc_w(vs), fm), P.WideFix(enc_w(us), FF(h))
            fn = lambda x=x, y=y, op=op: op(x, y)
        elif what == "pack":
            x = P.WideFix(enc_w(vs), fm)
            fn = lambda x=x, a=a: np.concatenate([np.ravel(x.to_uint64_array()), np.ravel(MI_.to_uint64_array(a, fm)), np.ravel(P.WideFix.from_uint64_array(x.to_uint64_array(), fm).data)])
        else:
            h = fx.near_fmt(rng, f)
            if h[0] + h[1] + h[2] < 1:
                h = (1, h[1] + 1, h[2])
            hm = FF(h)
            if fx.width(f) < 1:
                fn = lambda: np.array(0)
            elif what == "formats":
                fn = lambda hm=hm: np.array([T(F.for_add(fm, hm)), T(F.for_sub(fm, hm)), T(F.for_addsub(fm, hm)), T(F.for_mult(fm, hm)), T(F.for_neg(hm)), T(F.for_abs(hm)), T(F.for_shift(hm, -2, 3)), T(F.union([fm, hm, gm]))])
            elif what == "limits":
                fn = lambda hm=hm: np.array([str(P.cl_fix_max_value(hm)), str(P.cl_fix_min_value(hm)), str(P.cl_fix_is_wide(hm)), str(P.cl_fix_width(hm))])
            else:
                fn = lambda hm=hm: np.array([P.cl_fix_format_to_string(hm), str(hm), repr(hm)])
        out.append((fn, {"function": what, "fmt": f, "values": vs}))
    return out


def c10_races(m, rng, history, rounds):
    """Sibling calls from several threads, with thread switches injected at the source lines of the code under test
    (also between two lines that only touch private state); every call must give what it gives alone."""
    import sys, threading
    root = os.path.realpath(os.path.join(REPO, "bittrue")) + os.sep
    known = {}
    for _ in range(rounds):
        K = 3
        calls = c10_siblings(rng, rng.choice(history), K) if rng.random() < 0.7 else c10_other(rng, K)
        try:
            want = [np.array(fn(), copy=True) for fn, _ in calls]
        except Exception as e:
            m.violation(f"raised {type(e).__name__}: {e}", **calls[0][1])
            continue
        p = rng.choice([0.05, 0.2, 0.5])
        out, bar, log = [], threading.Barrier(K), []
        seeds = [rng.random() for _ in range(K)]

        def run(k):
            r = pyrandom.Random(seeds[k])
            pause = [0]

            def local(frame, event, arg):
                if event == "line" and r.random() < p:
                    pause[0] += 1
                    log.append(k)
                    time.sleep(0)
                return local

            def tracer(frame, event, arg):
                fn = frame.f_code.co_filename
                if fn not in known:
                    known[fn] = os.path.realpath(fn).startswith(root)
                return local if known[fn] else None

            fn, info = calls[k]
            bar.wait()
            sys.settrace(tracer)
            try:
                for _ in range(3):
                    x = fn()
                    if not same(np.asarray(x), want[k]):
                        out.append((f"called while other threads run the same operation gave {x!r}, alone {want[k]!r}", info))
                        return
            except Exception as e:
                out.append((f"called while other threads run the same operation raised {type(e).__name__}: {e}", info))
            finally:
                sys.settrace(None)

        ts = [threading.Thread(target=run, args=(k,)) for k in range(K)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        m.evals += 3 * K
        m.count("race_rounds")
        m.count("injected_switches", len(log))
        m.count("race_interleavings", sum(x != y for x, y in zip(log, log[1:])))
        for w, info in out[:1]:
            m.violation(w, **{k: v for k, v in info.items()})


def c10_work(m, tier, n):
    rng = m.rng
    history = []
    err0, filt0 = np.geterr(), list(warnings.filters)
    np.random.seed(5)
    pyrandom.seed(5)
    st0 = (np.random.get_state()[1].tobytes(), pyrandom.getstate())
    for i in range(n):
        k = rng.random()
        if k < 0.6:
            c10_array(m, rng, history)
        elif k < 0.85:
            c10_misc(m, rng)
        elif k < 0.9:
            c10_shift(m, rng)
        elif k < 0.93:
            c10_fmts(m, rng)
        elif history:
            c, A, B, add, want, info = rng.choice(history)
            m.evals += 1
            m.count("repeated")
            try:
                r = raw(c10_call(c, A, B, add, rng))
                if not same(r, want):
                    m.violation(f"{c.op} repeated later on the same inputs gave {r!r}, first time {want!r}", **info)
            except Exception as e:
                m.violation(f"{c.op} repeated later raised {type(e).__name__}: {e}", **info)
    if np.geterr() != err0 or list(warnings.filters) != filt0:
        m.violation("operations changed numpy's error handling or Python's warning filters", before=err0, after=np.geterr())
    if (np.random.get_state()[1].tobytes(), pyrandom.getstate()) != st0:
        m.violation("operations consumed random numbers (results of later random data depend on them)")
    if history:
        c10_threads(m, rng, history, max(200, n // 8))
        c10_races(m, rng, history, max(60, min(n // 25, 6000)))
    m.sample({"history_entries": len(history), "last": history[-1][5] if history else None})


def c10():
    t0 = time.time()
    m = run_pool(c10_work, "C10", 60000, 2000000)
    finish(m, t0, "random operations over shapes, broadcasts and memory layouts, every element compared with the single-element call, inputs snapshotted, "
           "earlier calls repeated later on the same shared inputs; non-trivial = distinct (operation, formats, modes, shape, layout, values)", min_evals=20000,
           need=["op_" + o for o in ALL_OPS] + ["broadcast", "repeated", "handed_out", "constructors", "lists", "empty", "layout_strided", "layout_readonly", "array_shift", "concurrent_calls", "thread_switches", "race_interleavings", "kept_results_looked_at", "results_overwritten", "formats_adapted", "generated_overwritten"])


# ---------------------------------------------------------------------------------------- C11
class Hostile(pyrandom.Random):
    """A random source that only produces extreme bit patterns."""
    calls = 0
    mode = 0

    def getrandbits(self, k):
        self.calls += 1
        if k <= 0:
            return 0
        c = (self.mode + self.calls // 7) % 3
        return 0 if c == 0 else (1 << k) - 1 if c == 1 else (1 << k - 1) - 1

    def random(self):
        self.calls += 1
        return 0.0 if (self.mode + self.calls // 7) % 3 == 0 else 1 - 2.0 ** -53


RAND_FUNCS = ["randrange", "randint", "getrandbits", "random", "uniform", "choice", "choices", "randbytes"]


def c11_work(m, tier, n):
    rng = m.rng
    # --- frequencies: all values of small formats, equally likely
    small = [(S, w - S - Fr, Fr) for S in (0, 1) for w in range(1, 9) for Fr in (0, 1, w - S, w + 3, -2)]
    N = 30000 if tier == "quick" else 300000
    for f in small[m.part::m.nparts]:
        w = fx.width(f)
        np.random.seed(rng.getrandbits(31))
        vs = dec(P.cl_fix_random((N,), FF(f)), f)
        m.evals += N
        m.count("frequency_formats")
        cnt = {}
        for v in vs:
            cnt[v] = cnt.get(v, 0) + 1
        p = 1 / 2 ** w
        tol = 9 * math.sqrt(N * p * (1 - p)) + 1
        for v in range(fx.vmin(f), fx.vmax(f) + 1):
            if abs(cnt.get(v, 0) - N * p) > tol:
                m.violation(f"value {v} of format {f} occurred {cnt.get(v, 0)} times in {N}, expected about {N * p:.0f}", fmt=f)
                break
        if any(v < fx.vmin(f) or v > fx.vmax(f) for v in cnt):
            m.violation("random value outside its format", fmt=f, lo=min(cnt), hi=max(cnt))
        # pairs of neighbours are independent enough
        if w <= 3:
            pc = {}
            for x, y in zip(vs[0::2], vs[1::2]):
                pc[x, y] = pc.get((x, y), 0) + 1
            pp = p * p
            for x in range(fx.vmin(f), fx.vmax(f) + 1):
                for y in range(fx.vmin(f), fx.vmax(f) + 1):
                    if abs(pc.get((x, y), 0) - N / 2 * pp) > 9 * math.sqrt(N / 2 * pp) + 1:
                        m.violation(f"neighbouring values ({x},{y}) occurred {pc.get((x, y), 0)} times", fmt=f)
    # --- medium formats reach both limits
    for w in list(range(9, 15))[m.part % 6:m.part % 6 + 1]:
        f = (rng.randint(0, 1), w, 0)
        Fr = rng.randint(-3, w + 3)
        f = (f[0], w - f[0] - Fr, Fr)
        np.random.seed(rng.getrandbits(31))
        K = 40 << w
        a = P.cl_fix_random((K,), FF(f))
        lo, hi = float(a.min()), float(a.max())
        m.evals += K
        m.count("limit_formats")
        if math.ldexp(lo, f[2]) != fx.vmin(f) or math.ldexp(hi, f[2]) != fx.vmax(f):
            m.violation(f"{K} random values of {f} span [{lo}, {hi}] but not the limits", fmt=f)
    # --- more elements than fit small integer types, and formats of thousands of bits
    if m.part < 4:
        f = fx.rand_fmt(rng, wmin=54, wmax=70, kinds=["edge53", "edge64"]) if m.part % 2 else fx.rand_fmt(rng, wmax=53, kinds=["mid"])
        shape = rng.choice([(70001,), 65536, (257, 256), (33, 1000, 2)])
        r = P.cl_fix_random(shape, FF(f))
        vs = dec(r, f)
        if np.shape(r) != np.zeros(shape).shape or any(fx.out_of_range(v, f) for v in vs) or not is_wide(f) and fx.width(f) < 20 and len(set(vs)) < 2 or is_wide(f) and len(set(vs)) < 60000:
            m.violation(f"many random values: shape {np.shape(r)}, {len(set(vs))} distinct, from {min(vs)} to {max(vs)}", fmt=f, shape=shape)
        m.count("large_shapes")
    # --- successive calls do not repeat themselves
    for f in (fx.rand_fmt(rng, wmin=100, wmax=150), (1, 52 - 20, 20), (0, 60, 4)):
        if not sane(f):
            continue
        calls = 1500 if tier == "quick" else 12000
        shape = rng.choice([(3,), (1,), (2, 2), 1])
        rows = {}
        for k in range(calls):
            row = tuple(dec(P.cl_fix_random(shape, FF(f)), f))
            if row in rows or len(row) > 1 and len(set(row)) < len(row):
                m.violation(f"random call {k} of {calls} gave {row}, as call {rows.get(row, k)} did", fmt=f, shape=shape)
                break
            rows[row] = k
        m.evals += calls
        m.count("successive_calls", calls)
    # --- everything else: grid, range, shape, buckets, seeds, zeros
    for i in range(n):
        f = fx.rand_fmt(rng, wmax=1100 if rng.random() < 0.05 else 200)
        if not sane(f):
            continue
        if rng.random() < 0.01:
            f = (0, f[1], -f[1])
        w = fx.width(f)
        shape = rng.choice([(5,), 4, (2, 3), (), (1,), (0,), (2, 1, 2), 1, [3, 2], (3, 0)])
        eshape = np.zeros(shape).shape
        seed = rng.getrandbits(31)
        try:
            res = []
            for s in (seed, seed, seed + 1):
                np.random.seed(s)
                pyrandom.seed(s)
                r = P.cl_fix_random(shape, FF(f))
                vs = dec(r, f)
                res.append(vs)
                if np.shape(r) != eshape:
                    m.violation(f"random shape {np.shape(r)}, expected {eshape}", fmt=f)
                if any(fx.out_of_range(v, f) for v in vs):
                    m.violation("random value outside its format", fmt=f, values=vs)
            m.evals += 1
            m.count("random_" + ("wide" if is_wide(f) else "narrow"))
            m.seen((f, tuple(eshape), seed))
            if res[0] != res[1]:
                m.violation("the same seeds gave different random data", fmt=f, first=res[0], second=res[1])
            if w * len(res[0]) > 100 and res[0] == res[2]:
                m.violation("different seeds gave the same random data", fmt=f, seed=seed)
            if w > 60 and len(res[0]) > 1 and len(set(res[0])) != len(res[0]):
                m.violation("wide random data repeats itself", fmt=f, values=res[0])
            z = P.cl_fix_zeros(shape, FF(f))
            if any(dec(z, f)) or np.shape(z) != eshape:
                m.violation(f"zeros are {z!r}", fmt=f, shape=eshape)
            m.count("zeros")
        except Exception as e:
            m.violation(f"random/zeros raised {type(e).__name__}: {e}", fmt=f, shape=shape)
            continue
        if i == 0:
            m.sample({"fmt": f, "shape": list(eshape), "values": res[0]})
        if i % 40 == 0:
            if i % 160 == 0:
                f = far_fmt(rng)
                w = fx.width(f)
                m.count("huge_formats")
            # equal likelihood of the top 3, bottom 3 and three middle bits
            K = 4000
            np.random.seed(seed)
            pyrandom.seed(seed)
            vs = [v - fx.vmin(f) for v in dec(P.cl_fix_random((K,), FF(f)), f)]
            for pos in {max(0, w - 3), 0, max(0, w // 2 - 1), rng.randint(0, max(0, w - 3))}:
                b = min(3, w)
                c = [0] * (1 << b)
                for v in vs:
                    c[(v >> pos) & ((1 << b) - 1)] += 1
                p = 1 / (1 << b)
                if max(abs(x - K * p) for x in c) > 9 * math.sqrt(K * p * (1 - p)):
                    m.violation(f"bits {pos}..{pos + b - 1} of random data are not equally likely: {c}", fmt=f)
            m.evals += K
            m.count("bit_uniformity")
        if is_wide(f) and i % 3 == 0:
            # a random source of extreme bit patterns: both limits must come out
            saved = {k: getattr(pyrandom, k) for k in RAND_FUNCS}
            seen = set()
            used = 0
            try:
                for mode in range(3):
                    h = Hostile(1)
                    h.mode = mode
                    for k in RAND_FUNCS:
                        setattr(pyrandom, k, getattr(h, k))
                    seen |= set(dec(P.cl_fix_random((6,), FF(f)), f))
                    used += h.calls
            except Exception as e:
                m.violation(f"random with an extreme source raised {type(e).__name__}: {e}", fmt=f)
                continue
            finally:
                for k in RAND_FUNCS:
                    setattr(pyrandom, k, saved[k])
            if used:
                m.count("extreme_source")
                m.evals += 1
                if any(fx.out_of_range(v, f) for v in seen):
                    m.violation("random value outside its format", fmt=f, values=sorted(seen))
                if fx.vmin(f) not in seen or fx.vmax(f) not in seen:
                    m.violation(f"a limit of {f} cannot be generated (extreme random source gave {sorted(seen)})", fmt=f)


def c11():
    t0 = time.time()
    m = run_pool(c11_work, "C11", 16000, 400000)
    finish(m, t0, "every value's frequency in formats up to 8 bits (9 sigma), limits in formats up to 14 bits, bit uniformity and seed reproducibility in random formats, "
           "an extreme-pattern random source for wide formats; non-trivial = distinct (format, shape, seed)", min_evals=10000,
           need=["frequency_formats", "limit_formats", "large_shapes", "successive_calls", "huge_formats", "random_wide", "random_narrow", "zeros", "bit_uniformity"])


# ---------------------------------------------------------------------------------------- C12
def lib_state():
    """What a library call has no business to change."""
    return np.geterr(), list(warnings.filters), np.get_printoptions(), os.getcwd(), list(sys.path)


def refuse(m, what, call, **info):
    m.evals += 1
    before = lib_state()
    try:
        r = call()
    except Exception:
        m.count("refused:" + what)
        after = lib_state()
        if after != before:
            m.violation(f"{what}: the refused call left the numpy error handling, warning filters or search path changed", before=str(before)[:300], after=str(after)[:300], **info)
            np.seterr(**before[0])
            warnings.filters[:] = before[1]
        return
    m.violation(f"{what}: accepted and returned {getattr(r, 'data', r)!r}"[:400], **info)


def accept(m, what, call, **info):
    m.evals += 1
    try:
        call()
        m.count("accepted")
    except Exception as e:
        m.violation(f"{what}: a valid request raised {type(e).__name__}: {e}", **info)


def c12_work(m, tier, n):
    rng = m.rng
    FS = P.FixSaturate
    for i in range(n):
        f = fx.rand_fmt(rng, wmax=150)
        if not sane(f):
            continue
        w = is_wide(f)
        fm = FF(f)
        vs = fx.rand_vals(rng, f, 2)
        a = enc(vs, f)
        mode = rng.choice(fx.MODES)
        cls = P.WideFix if w else P.NarrowFix
        info = dict(fmt=f, values=vs, mode=mode)
        m.seen((f, tuple(vs), mode))
        # formats
        S, I, Fr = f
        bad = rng.choice([2, 3, -1, 7, -2])
        refuse(m, "sign field", lambda: F(bad, I, Fr), S=bad, **info)
        k = rng.choice([1, 2, 9, 50])
        refuse(m, "negative size", lambda: F(S, -Fr - k, Fr), k=k, **info)
        accept(m, "format", lambda: (F(S, -Fr, Fr), F(S, I, Fr)), **info)
        # rounding result format
        t = Fr + rng.choice([-9, -3, -2, -1, -1, 0, 2])
        rf = T(F.for_round(fm, t, RND[mode]))
        for j in (0, 1):
            g = list(rf)
            g[j] = 1 - g[0] if j == 0 else g[1] + rng.choice([1, 2, -1, -2])
            if g[1] + g[2] < 0 or sum(g) < 1 or abs(g[1]) > 900:
                continue
            g = tuple(g)
            refuse(m, "round format (function)", lambda: P.cl_fix_round(a, fm, FF(g), RND[mode]), rf=g, prescribed=rf, **info)
            if w:
                refuse(m, "round format (WideFix)", lambda: P.WideFix(a, fm).round(FF(g), RND[mode]), rf=g, prescribed=rf, **info)
            else:
                refuse(m, "round format (WideFix)", lambda: P.WideFix(enc_w(vs), fm).round(FF(g), RND[mode]), rf=g, prescribed=rf, **info)
                refuse(m, "round format (NarrowFix)", lambda: P.NarrowFix(a, fm).round(FF(g), RND[mode]), rf=g, prescribed=rf, **info)
        accept(m, "round (function)", lambda: P.cl_fix_round(a, fm, FF(rf), RND[mode]), rf=rf, **info)
        accept(m, "round (class)", lambda: P.WideFix(enc_w(vs), fm).round(FF(rf), RND[mode]), rf=rf, **info)
        if t < Fr:
            for bm in (None, "Trunc_s", 1):
                try:
                    brf = FF(T(F.for_round(fm, t, bm)))
                except Exception:
                    continue
                refuse(m, "rounding mode", lambda: P.cl_fix_round(a, fm, brf, bm), bad=repr(bm), **info)
                if not w and fx.width(T(brf)) <= 53:
                    refuse(m, "rounding mode (class)", lambda: P.NarrowFix(a, fm).round(brf, bm), bad=repr(bm), **info)
                refuse(m, "rounding mode (class)", lambda: P.WideFix(enc_w(vs), fm).round(brf, bm), bad=repr(bm), **info)
        # saturation changing fractional bits
        d = rng.choice([1, 2, -1, -2, 8])
        sat = SAT[rng.choice(fx.SATS)]
        g = (S, I + rng.choice([0, 0, -1, 2]) + abs(d), Fr + d)
        if sane(g) and g[1] + g[2] >= 0 and sum(g) > 0:
            refuse(m, "saturate F (function)", lambda: P.cl_fix_saturate(a, fm, FF(g), sat), rf=g, sat=str(sat), **info)
            refuse(m, "saturate F (WideFix)", lambda: P.WideFix(enc_w(vs), fm).saturate(FF(g), sat), rf=g, sat=str(sat), **info)
            if not w and fx.width(g) <= 53:
                refuse(m, "saturate F (NarrowFix)", lambda: P.NarrowFix(a, fm).saturate(FF(g), sat), rf=g, sat=str(sat), **info)
        g = fx.near_fmt(rng, f, F=Fr)
        if sane(g):
            accept(m, "saturate", lambda: P.cl_fix_saturate(a, fm, FF(g), sat), rf=g, **info)
        # data of the wrong kind
        if w:
            wrong = [np.array([1.0, 0.0]), np.array([1, 0]), np.array([1, 0], dtype=np.int32), np.array([1.0, 0.0], dtype=object), np.array([1, 0], dtype=np.uint64), 0.5]
        else:
            wrong = [enc_w(vs), np.array([1, 0]), np.array([1, 0], dtype=np.int32), np.array([0.0, 0.0], dtype=np.float32), 1]
        other = rng.choice([fx.rand_fmt(rng, wmax=53), fx.rand_fmt(rng, wmin=54, wmax=150)])
        if not sane(other):
            continue
        og = FF(other)
        ob = enc([0, fx.vmax(other)], other)
        x = rng.choice(wrong)
        xi = dict(info, data=repr(x))
        reqs = {"neg": lambda: P.cl_fix_neg(x, fm), "abs": lambda: P.cl_fix_abs(x, fm), "resize": lambda: P.cl_fix_resize(x, fm, og),
                "round": lambda: P.cl_fix_round(x, fm, FF(rf), RND[mode]), "saturate": lambda: P.cl_fix_saturate(x, fm, fm, sat),
                "add": lambda: P.cl_fix_add(x, fm, ob, og), "add2": lambda: P.cl_fix_add(ob, og, x, fm), "sub": lambda: P.cl_fix_sub(x, fm, ob, og),
                "sub2": lambda: P.cl_fix_sub(ob, og, x, fm), "mult": lambda: P.cl_fix_mult(x, fm, ob, og), "mult2": lambda: P.cl_fix_mult(ob, og, x, fm),
                "addsub": lambda: P.cl_fix_addsub(x, fm, ob, og, True), "addsub2": lambda: P.cl_fix_addsub(ob, og, x, fm, False),
                "shift": lambda: P.cl_fix_shift(x, fm, 2, None), "in_range": lambda: P.cl_fix_in_range(x, fm, og), "ctor": lambda: cls(x, fm)}
        for nm in rng.sample(sorted(reqs), 5):
            refuse(m, "data kind", reqs[nm], op=nm, **xi)
        for nm in ("neg", "add", "mult2", "shift", "resize"):
            good = {"neg": lambda: P.cl_fix_neg(a, fm), "add": lambda: P.cl_fix_add(a, fm, ob, og), "mult2": lambda: P.cl_fix_mult(ob, og, a, fm),
                    "shift": lambda: P.cl_fix_shift(a, fm, 2, None), "resize": lambda: P.cl_fix_resize(a, fm, og)}[nm]
            accept(m, nm, good, other=other, **info)
        # narrow class with wide formats
        wf = fx.rand_fmt(rng, wmin=54, wmax=150, kinds=["edge53", "edge64", "wide"])
        refuse(m, "NarrowFix width", lambda: P.NarrowFix(np.array([0.0, 0.0]), FF(wf)), wf=wf)
        nf = fx.rand_fmt(rng, wmax=53, kinds=["edge53", "mid"])
        accept(m, "NarrowFix width", lambda: P.NarrowFix(np.array([0.0, 0.0]), FF(nf)), nf=nf)
        # integers out of range
        beyond = rng.choice([fx.vmax(f) + 1, fx.vmin(f) - 1, fx.vmax(f) + rng.getrandbits(9) + 1, fx.vmin(f) - 1 - rng.getrandbits(9)])
        bi = dict(info, integer=beyond)
        if abs(beyond) < 2 ** 62:
            arr = np.array([0, beyond], dtype=np.int64)
            refuse(m, "integer range", lambda: P.cl_fix_from_integer(rng.choice([arr, arr[::-1], arr.reshape(2, 1)]), fm), **bi)
        if w:
            refuse(m, "integer range", lambda: P.cl_fix_from_integer(enc_w(rng.choice([[beyond, 0], [0, beyond]])), fm), **bi)
        refuse(m, "integer range (scalar)", lambda: P.cl_fix_from_integer(beyond, fm), **bi)
        refuse(m, "integer range (list)", lambda: P.cl_fix_from_integer([vs[0], beyond], fm), **bi)
        if not w:
            refuse(m, "integer range (class)", lambda: P.NarrowFix.from_integer(np.array([beyond, 0]), fm), **bi)
        # numbers that are no integers (half, third, smallest fraction; not-a-number), scalars and within arrays
        k0 = rng.choice([0, vs[0], fx.vmax(f), fx.vmin(f)])
        if abs(k0) < 2 ** 50:
            frac = rng.choice([0.5, 0.25, 1 / 3, 2.0 ** -k0.bit_length(), np.nan])
            bad = float(k0) + rng.choice([-1, 1]) * frac
            if bad != bad or bad != math.floor(bad):
                x = rng.choice([bad, np.array(bad), [0.0, bad], np.array([bad, 0.0]), np.array([[float(k0)], [bad]])])
                refuse(m, "no integer", lambda: P.cl_fix_from_integer(x, fm), x=repr(x), **info)
                if not w and not isinstance(x, list):
                    refuse(m, "no integer (class)", lambda: P.NarrowFix.from_integer(x, fm), x=repr(x), **info)
                if not w:
                    accept(m, "integer as float", lambda: (P.cl_fix_from_integer(float(k0), fm), P.cl_fix_from_integer([float(k0), 0.0], fm)), **info)
        # not-a-number
        x = rng.choice([np.nan, np.array(np.nan), np.array([0.0, np.nan]), np.array([np.nan, 0.0]), np.array([[0.0, -np.nan, 0.0]])])
        for sm in (FS.Sat_s, FS.SatWarn_s):
            refuse(m, "NaN", lambda: P.cl_fix_from_real(x, fm, sm), x=repr(x), sat=str(sm), **info)
            refuse(m, "NaN (class)", lambda: cls.from_real(x, fm, sm), x=repr(x), sat=str(sm), **info)
            refuse(m, "NaN (list)", lambda: P.cl_fix_from_real(np.atleast_1d(x).tolist(), fm, sm), x=repr(x), sat=str(sm), **info)
        accept(m, "from_integer", lambda: P.cl_fix_from_integer([vs[0], fx.vmax(f), fx.vmin(f)], fm), **info)
        # reversed shift range
        s = rng.randint(-20, 20)
        k = rng.choice([1, 1, 2, 10])
        refuse(m, "reversed shift", lambda: F.for_shift(fm, s, s - k), s=s, k=k, **info)
        refuse(m, "reversed shift", lambda: P.cl_fix_shift_fmt(fm, s, s - k), s=s, k=k, **info)
        accept(m, "shift range", lambda: (F.for_shift(fm, s, s), F.for_shift(fm, s - k, s)), **info)
        # real conversion without saturation
        for bs in (FS.None_s, FS.Warn_s):
            x = rng.choice([np.array([0.0, 0.5]), 0.0, [0.0, 0.25], np.array(0.0)])
            refuse(m, "real without saturation", lambda: P.cl_fix_from_real(x, fm, bs), x=repr(x), sat=str(bs), **info)
            if not isinstance(x, list):
                refuse(m, "real without saturation (class)", lambda: cls.from_real(x, fm, bs), x=repr(x), sat=str(bs), **info)
                refuse(m, "real without saturation (class)", lambda: P.WideFix.from_real(x, fm, bs), x=repr(x), sat=str(bs), **info)
        accept(m, "from_real", lambda: (P.cl_fix_from_real([0.0], fm, FS.Sat_s), cls.from_real(np.array([0.0]), fm, FS.SatWarn_s)), **info)
        # formats of zero width
        z = F(0, -Fr, Fr)
        for nm, c in (("add", lambda: F.for_add(z, fm)), ("add", lambda: F.for_add(fm, z)), ("sub", lambda: F.for_sub(z, fm)), ("sub", lambda: F.for_sub(fm, z)),
                      ("addsub", lambda: F.for_addsub(z, fm)), ("addsub", lambda: F.for_addsub(fm, z)), ("mult", lambda: F.for_mult(z, fm)), ("mult", lambda: F.for_mult(fm, z)),
                      ("neg", lambda: F.for_neg(z)), ("abs", lambda: F.for_abs(z)), ("shift", lambda: F.for_shift(z, 1)), ("round", lambda: F.for_round(z, 0, RND[mode]))):
            refuse(m, "zero-width format", c, op=nm, **info)
        accept(m, "formats", lambda: (F.for_add(fm, og), F.for_sub(og, fm), F.for_mult(fm, og), F.for_addsub(fm, og), F.for_neg(fm), F.for_abs(fm), F.for_shift(fm, 1), F.for_round(fm, 0, RND[mode])), **info)
        # numbers of different classes
        f2 = fx.rand_fmt(rng, wmax=50)
        if sane(f2):
            N, W = P.NarrowFix(enc_n([0, 1 if fx.vmax(f2) else 0], f2), FF(f2)), P.WideFix(enc_w(vs), fm)
            for o in (operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge):
                refuse(m, "comparison of different classes", lambda: o(N, W), op=o.__name__, narrow=f2, **info)
                refuse(m, "comparison of different classes", lambda: o(W, N), op=o.__name__, narrow=f2, **info)
                refuse(m, "comparison with a plain array", lambda: o(N, np.array([0.0, 0.0])), op=o.__name__, narrow=f2, **info)
        if i == 0:
            m.sample(info)


def c12():
    t0 = time.time()
    m = run_pool(c12_work, "C12", 10000, 300000)
    finish(m, t0, "per random format every class of invalid request (and its valid twin), in functions and number classes; non-trivial = distinct (format, values, mode)",
           min_evals=20000, need=["accepted"] + ["refused:" + x for x in (
               "sign field", "negative size", "round format (function)", "round format (WideFix)", "round format (NarrowFix)", "rounding mode", "saturate F (function)",
               "saturate F (WideFix)", "saturate F (NarrowFix)", "data kind", "NarrowFix width", "integer range", "integer range (scalar)", "integer range (list)", "no integer", "no integer (class)", "NaN", "NaN (class)",
               "reversed shift", "real without saturation", "zero-width format", "comparison of different classes")])
