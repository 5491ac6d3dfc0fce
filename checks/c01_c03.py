"""C01 rounding, C02 saturation, C03 resize and arithmetic of the Python model."""
from pyops import *


def sweep(m, what, part, nparts):
    """Every format up to 5 bits, every value, every target, every mode (interfaces rotate)."""
    fmts = [(S, I, F) for S in (0, 1) for I in range(-3, 5) for F in range(-3, 5) if 1 <= S + I + F <= 5 and I + F >= 0]
    k = 0
    for fa in fmts:
        vs = list(range(fx.vmin(fa), fx.vmax(fa) + 1))
        for t in range(-5, 6):
            for mode in (fx.MODES if what == "round" else fx.SATS):
                k += 1
                if k % nparts != part:
                    continue
                c = Case()
                c.op, c.fa, c.fb, c.a, c.b, c.shift, c.add = what, fa, fa, vs, vs, 0, [True] * len(vs)
                c.kind, c.none_fmt, c.defaults, c.kw = "arr", False, False, False
                c.iface = "FNW"[(k // nparts) % 3]
                rfs = []
                if what == "round":
                    c.mode, c.sat = mode, "None_s"
                    rfs = [T(P.FixFormat.for_round(FF(fa), fa[2] + t, RND[mode]))]
                else:
                    c.mode, c.sat = "Trunc_s", mode
                    rfs = [(S, fa[1] + t, fa[2]) for S in (0, 1) if fa[1] + t + fa[2] >= 0]
                for rf in rfs:
                    c.rf = rf
                    m.count("sweep_cases")
                    m.seen((what, fa, rf, mode, c.iface))
                    check_values(m, c, m.rng, "small-format sweep")


def work(m, tier, n, ops, what=None, sweep_ops=()):
    for o in sweep_ops:
        sweep(m, o, m.part, m.nparts)
    for i in range(n):
        c = gen_case(m.rng, ops)
        r = check_values(m, c, m.rng, "random")
        m.count("op_" + c.op)
        m.count("iface_" + c.iface)
        m.count("mode_" + c.mode)
        if c.op != "round":
            m.count("sat_" + c.sat)
        if r:
            exp, ws, R = r
            if any(o for _, o in exp):
                m.count("cases_out_of_range")
            w = [fx.width(c.fa) > 53, fx.width(c.rf) > 53]
            m.count("repr_%s_to_%s" % tuple("wide" if x else "narrow" for x in w))
            if any(x for x in c.a):
                m.seen((c.op, c.fa, c.fb if c.op in BIN else 0, c.rf, c.mode, c.sat, tuple(c.a)))
            if i < 2:
                m.sample(c.desc() | {"result": [x for x, _ in exp]})


def c01():
    t0 = time.time()
    m = run_pool(work, "C01", 400000, 12000000, {"ops": ["round"], "sweep_ops": ["round"]})
    finish(m, t0, "random formats/targets/modes with tie-biased values through three interfaces plus an exhaustive sweep of formats up to 5 bits; "
           "non-trivial = distinct (formats, mode, values) with a non-zero value", min_evals=10000,
           need=["iface_F", "iface_N", "iface_W", "repr_wide_to_narrow", "repr_narrow_to_narrow", "sweep_cases"] + ["mode_" + x for x in fx.MODES])


def c02():
    t0 = time.time()
    m = run_pool(work, "C02", 400000, 12000000, {"ops": ["saturate"], "sweep_ops": ["saturate"]})
    finish(m, t0, "random format pairs with equal fractional bits, all saturation modes, three interfaces plus an exhaustive sweep of formats up to 5 bits; "
           "non-trivial = distinct (formats, mode, values) with a non-zero value", min_evals=10000,
           need=["iface_F", "iface_N", "iface_W", "cases_out_of_range", "repr_wide_to_narrow", "repr_narrow_to_wide", "sweep_cases"])


def c03():
    t0 = time.time()
    ops = ["resize", "abs", "neg", "add", "sub", "addsub", "mult", "shift"]
    m = run_pool(work, "C03", 300000, 9000000, {"ops": ops})
    finish(m, t0, "random operation, operand/result formats, modes, values through functions, class methods and operators; "
           "non-trivial = distinct case with a non-zero operand", min_evals=10000,
           need=["op_" + o for o in ops] + ["iface_F", "iface_N", "iface_W", "cases_out_of_range"])
