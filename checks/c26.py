"""C26: the RTL code synthesises, and the synthesised netlist behaves as the simulated source."""
import os, re, shutil, time

import fx, vhdl
import c13_c17, c18
from pymon import run_pool, finish, Scratch, Inconclusive

FUNCS = ["round", "saturate", "resize", "abs", "neg", "add", "sub", "addsub", "mult", "shift", "compare", "sign", "in_range",
         "integer", "limits", "const_real"]
# Errors that are limits of the synthesis tool (symbolic execution of branches that cannot be reached, crashes)
# rather than statements about the source.
TOOL = re.compile(r"out of bounds|bounds of a slice|[Bb]ug occur|internal|exceed|overflow|not (yet )?(supported|handled|implemented)|unsupported", re.I)


def F(f):
    return f"({f[0]}, {f[1]}, {f[2]})"


class Item:
    """One output of the design: VHDL statement(s), inputs [(name, width, values)], output width."""

    def __init__(self, kind, desc):
        self.kind, self.desc, self.ins, self.body, self.decl, self.known = kind, desc, [], "", "", None

    def inp(self, n, width, vals):
        self.ins.append((n, width, vals))


def vec(rng, it, name, f, vals, k):
    """Declares an input of format f and returns the VHDL expression that reads it (other index ranges included)."""
    w = fx.width(f)
    it.inp(name, w, [vhdl.tobits(v, f) for v in vals])
    d = rng.choice([0, 0, 0, 1, 2])
    if d == 0:
        return name
    rng_ = f"0 to {w - 1}" if d == 1 else f"{w + 4} downto 5"
    it.decl += f"  signal x{name} : std_logic_vector({rng_});\n"
    it.body += f"  x{name} <= {name};\n"
    return "x" + name


def func_item(rng, k):
    op = rng.choice(FUNCS)
    wmax = rng.choice([5, 9, 20, 70]) if op != "mult" else rng.choice([4, 8, 20, 40])
    mode, sat = rng.choice(fx.MODES), rng.choice(fx.SATS)
    it = Item(op, "")
    fa = fx.rand_fmt(rng, wmax=wmax)
    fb = fx.rand_fmt(rng, wmax=wmax) if rng.random() < 0.4 else fx.near_fmt(rng, fa, wmax=wmax)
    if fx.width(fb) > 90:
        fb = fa
    shift = rng.choice([0, 1, -1, 2, -2, 5, -5, 17]) if op == "shift" else 0
    o = f"o{k}"
    if op in c13_c17.MATH:
        rf = c13_c17.result_like(rng, op, fa, fb if op in ("add", "sub", "addsub", "mult") else None, shift)
        if rf == (0, 0, -1) or fx.width(rf) < 1:
            rf = fa
    elif op == "round":
        rf = c13_c17.round_fmt(fa, fa[2] - rng.choice([-2, -1, 0, 1, 1, 2, 3, 6]), mode)
    elif op == "saturate":
        rf = fx.near_fmt(rng, fa, F=fa[2])
    else:
        rf = fx.near_fmt(rng, fa)
    if fx.width(rf) < 1 or fx.width(rf) > 150:
        rf = fa
        if op == "round":
            rf = c13_c17.round_fmt(fa, fa[2], mode)
    n = 40
    if op in ("limits", "const_real"):
        it.inp(f"a{k}", 1, ["0", "1"])
        if op == "limits":
            e = rng.choice(["cl_fix_max_value", "cl_fix_min_value"]) + f"({F(rf)})"
        else:
            x = rng.choice([0.0, 0.5, -0.5, 3.25, -7.75, 1e3, -1e3, rng.uniform(-9, 9), rng.uniform(-1, 1) * 2.0 ** rf[1]])
            e = f"cl_fix_from_real({x!r}, {F(rf)}, {rng.choice(['Sat_s', 'SatWarn_s'])})"
        it.decl += f"  constant c{k} : std_logic_vector({fx.width(rf) - 1} downto 0) := {e};\n"
        it.body += f"  {o} <= c{k} when a{k}(0) = '1' else not c{k};\n"
        it.w, it.desc = fx.width(rf), f"{op}: {e}"
        return it
    drop = fa[2] - rf[2]
    vals = fx.rand_vals(rng, fa, n, drop) + c13_c17.boundary_vals(rng, fa, rf, drop)[:8]
    a = vec(rng, it, f"a{k}", fa, vals, k)
    af = F(fa)
    r = f"{F(rf)}"
    text = rng.random() < 0.25         # modes and formats given as text
    if text:
        r = f'cl_fix_format_from_string("({rf[0]},{rf[1]},{rf[2]})")'
        rnd, st = f'cl_fix_round_from_string("{mode}")', f'cl_fix_saturate_from_string("{sat}")'
    else:
        rnd, st = mode, sat
    it.w = fx.width(rf)
    own = None                         # exact result in the operation's own format, then a resize
    two = op in ("add", "sub", "addsub", "mult", "compare")
    if two:
        b = vec(rng, it, f"b{k}", fb, fx.rand_vals(rng, fb, n), k)
    if op == "integer":
        if fx.width(fa) > 30:
            fa = (fa[0], 6, 3)
            it = Item(op, "")
            a = vec(rng, it, f"a{k}", fa, fx.rand_vals(rng, fa, n), k)
            af = F(fa)
        it.w = fx.width(fa)
        e = f"cl_fix_from_integer(cl_fix_to_integer({a}, {af}), {af})"
    elif op == "round":
        e = f"cl_fix_round({a}, {af}, {r}, {rnd})"
    elif op == "saturate":
        e = f"cl_fix_saturate({a}, {af}, {r}, {st})"
    elif op in ("resize", "abs", "neg"):
        if op != "resize" and rng.random() < 0.2:
            e = f"cl_fix_{op}({a}, {af})"
            own = f"cl_fix_{op}_fmt({af})"
        else:
            e = f"cl_fix_{op}({a}, {af}, {r}, {rnd}, {st})"
    elif op == "shift":
        e = f"cl_fix_shift({a}, {af}, {shift}, {r}, {rnd}, {st})"
    elif op in ("add", "sub", "mult", "addsub"):
        x = ""
        if op == "addsub":
            it.inp(f"s{k}", 1, ["0", "1"])
            x = f", s{k}(0)"
        if rng.random() < 0.2:
            e = f"cl_fix_{op}({a}, {af}, {b}, {F(fb)}{x})"
            own = f"cl_fix_{op}_fmt({af}, {F(fb)})"
        else:
            e = f"cl_fix_{op}({a}, {af}, {b}, {F(fb)}{x}, {r}, {rnd}, {st})"
    elif op == "sign":
        it.w = 1
        e = f"(0 downto 0 => cl_fix_sign({a}, {af}))"
    else:
        it.w = 1
        c = rng.choice(["<", "<=", ">", ">=", "=", "!="])
        e = f'cl_fix_compare("{c}", {a}, {af}, {b}, {F(fb)})' if op == "compare" else f"cl_fix_in_range({a}, {af}, {r}, {rnd})"
        it.body += f"  {o} <= \"1\" when {e} else \"0\";\n"
        it.desc = f"{op}: {e}"
        return it
    if own:
        it.decl += f"  constant f{k} : FixFormat_t := {own};\n  signal t{k} : std_logic_vector(cl_fix_width(f{k})-1 downto 0);\n"
        it.body += f"  t{k} <= {e};\n"
        e = f"cl_fix_resize(t{k}, f{k}, {r}, {rnd}, {st})"
        it.desc = f"{op}: {it.body.split('<=')[-1].strip()} then {e}"
    else:
        it.desc = f"{op}: {e}"
    it.body += f"  {o} <= {e};\n"
    return it


def block_item(rng, k):
    while True:
        kind, fa, rf, mode, sat, check = c18.config(rng)
        if fx.width(fa) <= 70 and fx.width(rf) <= 90 and fx.width(c13_c17.round_fmt(fa, rf[2], mode)) <= 150:
            break
    mw = rng.choice([0, 1, 3, 8])
    reg = rng.choice(c18.REGS)
    name = ["round", "saturate", "resize"][kind]
    it = Item("block " + name, f"block {name} {fa} -> {rf} {mode} {sat} {reg} meta {mw} fmt_check {check}")
    drop = fa[2] - rf[2]
    it.inp(f"v{k}", 1, None)
    it.inp(f"a{k}", fx.width(fa), [vhdl.tobits(v, fa) for v in fx.rand_vals(rng, fa, 40, drop) + c13_c17.boundary_vals(rng, fa, rf, drop)[:8]])
    if mw:
        it.inp(f"m{k}", mw, [format(rng.randrange(1 << mw), f"0{mw}b") for _ in range(40)])
    w = fx.width(rf)
    it.w = 1 + mw + w
    g = f"in_fmt_g => {F(fa)}, out_fmt_g => {F(rf)}, reg_mode_g => {reg}, meta_width_g => {mw}"
    if kind != 1:
        g += f", round_g => {mode}"
    if kind != 0:
        g += f", saturate_g => {sat}"
    if kind == 0:
        g += f", fmt_check_g => {'true' if check else 'false'}"
    m = f", in_meta => m{k}, out_meta => o{k}({w + mw - 1} downto {w})" if mw else ""
    it.body = (f"  i{k} : entity work.en_cl_fix_{name} generic map ({g})\n    port map (clk => clk, rst => rst, in_valid => v{k}(0), in_data => a{k}, "
               f"out_valid => o{k}({w + mw}), out_data => o{k}({w - 1} downto 0){m});\n")
    return it


TB = """library ieee;
use ieee.std_logic_1164.all;
use std.textio.all;
entity tb is generic (stim_g : string; log_g : string); end entity;
architecture sim of tb is
  signal clk : std_logic := '0';
  signal rst : std_logic := '0';
  signal x : std_logic_vector(@X@ downto 0) := (others => '0');
  signal y : std_logic_vector(@Y@ downto 0);
  function ch(s : std_logic) return character is
  begin
    case s is
      when '0' => return '0';
      when '1' => return '1';
      when 'U' => return 'U';
      when others => return 'X';
    end case;
  end function;
begin
  dut : entity work.dut port map (clk => clk, rst => rst@MAP@);
  process
    file fi : text open read_mode is stim_g;
    file fo : text open write_mode is log_g;
    variable l, r : line;
    variable s : string(1 to @XN@);
    variable c : character;
  begin
    while not endfile(fi) loop
      readline(fi, l);
      read(l, c);
      if c = '1' then rst <= '1'; else rst <= '0'; end if;
      read(l, s);
      for i in s'range loop
        if s(i) = '1' then x(@X@ + 1 - i) <= '1'; else x(@X@ + 1 - i) <= '0'; end if;
      end loop;
      wait for 4 ns;
      for i in y'range loop write(r, ch(y(i))); end loop;
      writeline(fo, r);
      clk <= '1';
      wait for 4 ns;
      for i in y'range loop write(r, ch(y(i))); end loop;
      writeline(fo, r);
      clk <= '0';
      wait for 2 ns;
    end loop;
    report "driver done" severity note;
    wait;
  end process;
end architecture;
"""


class Design:
    def __init__(self, items):
        self.items = items
        ports, decl, body, maps = "", "", "", ""
        x = y = 0
        self.layout_in, self.layout_out = [], []
        for k, it in enumerate(items):
            if it is None:
                continue
            for n, w, vals in it.ins:
                ports += f";\n    {n} : in std_logic_vector({w - 1} downto 0)"
                self.layout_in.append((x, w, vals))
                maps += f",\n    {n} => x(@X@-{x} downto @X@-{x + w - 1})"
                x += w
            ports += f";\n    o{k} : out std_logic_vector({it.w - 1} downto 0)"
            self.layout_out.append((y, it.w))
            maps += f",\n    o{k} => y(@Y@-{y} downto @Y@-{y + it.w - 1})"
            y += it.w
            decl += it.decl
            body += it.body
        self.nx, self.ny = x, y
        self.src = ("library ieee;\nuse ieee.std_logic_1164.all;\nentity dut is\n  port (\n    clk : in std_logic;\n    rst : in std_logic" + ports +
                    ");\nend entity;\nuse work.en_cl_fix_pkg.all;\narchitecture rtl of dut is\n" + decl + "begin\n" + body + "end architecture;\n")
        self.tb = TB.replace("@MAP@", maps).replace("@XN@", str(x)).replace("@X@", str(x - 1)).replace("@Y@", str(y - 1))


def stimulus(rng, d, n):
    """Rows of input bits.  Every input holds its value now and then, so that single inputs change alone."""
    rows = []
    rleft = rng.randrange(1, 4)
    p, hold = rng.choice([0.3, 0.7, 1.0]), rng.choice([0.0, 0.5, 0.9])
    cur = [None] * len(d.layout_in)
    for c in range(n):
        rleft -= 1
        if rleft < -3 and rng.random() < 0.05:
            rleft = rng.randrange(1, 4)
        for i, (_, w, v) in enumerate(d.layout_in):
            if v is None:
                cur[i] = str(int(rng.random() < p))
            elif cur[i] is None or rng.random() >= hold:
                cur[i] = rng.choice(v)
        rows.append(("1" if rleft >= 0 else "0") + "".join(cur))
    return rows


def ghdl(args, wd, timeout=300):
    return vhdl.run([vhdl.GHDL, *args], wd, timeout)


def flags(wd):
    return [*vhdl.FLAGS, f"--workdir={wd}", f"-P{wd}"]


def simulate(sub, tag, files, d, stim, base=None):
    wd = os.path.join(sub, tag)
    os.makedirs(wd)
    if base:
        for f in os.listdir(base):
            if f.endswith((".o", ".cf")):
                shutil.copy(os.path.join(base, f), wd)
    log = os.path.join(wd, "log.txt")
    for a in (["-a", *flags(wd), *files, os.path.join(sub, "tb.vhd")], ["-e", *flags(wd), "tb"]):
        r = ghdl(a, wd)
        if r.returncode:
            return None, r.stdout[-3000:]
    r = vhdl.run([os.path.join(wd, "tb"), f"-gstim_g={stim}", f"-glog_g={log}", "--max-stack-alloc=0", "--ieee-asserts=disable"], wd, 300)
    if r.returncode or "driver done" not in r.stdout:
        return None, r.stdout[-3000:]
    return open(log).read().split(), ""


ONE = [(re.compile(r"std_logic_vector\(-signed'\(1 => (\w+)\)\)"), r"\1"),
       (re.compile(r"(signed|unsigned)'\(1 => (\w+)\)"), r"\1'(0 => \2)"),
       (re.compile(r"(signed|unsigned)'\(('[01]')\)"), r"\1'(0 => \2)")]


def legal(net):
    """GHDL writes one-bit signed operands in a form that is not VHDL; the meaning is unchanged here."""
    for rx, to in ONE:
        net = rx.sub(to, net)
    return net


def synth(sub, d):
    wd = os.path.join(sub, "syn")
    os.makedirs(wd)
    p = os.path.join(sub, "dut.vhd")
    with open(p, "w") as f:
        f.write(d.src)
    r = vhdl.subprocess.run([vhdl.GHDL, "--synth", *flags(wd), *vhdl.HDL, *vhdl.ENT, p, "-e", "dut"], cwd=wd, env=vhdl.ENV, stdout=vhdl.subprocess.PIPE,
                            stderr=vhdl.subprocess.PIPE, text=True, errors="replace", timeout=300)
    n = os.path.join(sub, "net.vhd")
    with open(n, "w") as f:
        f.write(legal(r.stdout))
    return r.returncode, r.stderr, n


def compare(m, d, rows, rtl, net):
    """Both logs hold all output bits twice per clock cycle (inputs settled, after the clock edge)."""
    bad = set()
    for i, (x, y) in enumerate(zip(rtl, net)):
        for k, (p, w) in enumerate(d.layout_out):
            if k in bad:
                continue
            a, b = x[p:p + w], y[p:p + w]
            it = d.items[k]
            what = None
            block = it.kind.startswith("block")
            live = not block or a[0] == "1"
            if any(g in "01" and h in "01" and g != h for g, h in zip(a, b)):
                what = "netlist and simulated source disagree"
            elif block and i > 1 and a[0] not in "01":
                what = "out_valid is undefined in simulation after reset"
            elif block and i > 1 and b[0] != a[0]:
                what = "out_valid is undefined in the netlist after reset"
            elif live and any(c not in "01" for c in a):
                what = "undefined bits in simulation although all inputs are defined"
            elif live and a != b:
                what = "undefined bits in the netlist although all inputs are defined"
            if live:
                m.evals += 1
                m.count("outputs compared: " + it.kind)
                if i % 7 == 0:
                    m.seen((it.desc, rows[i // 2][1:], a))
            if what:
                bad.add(k)
                m.violation(what, case=it.desc, cycle=i // 2, phase=["before", "after"][i % 2] + " the clock edge", simulation=a, netlist=b,
                            inputs=rows[max(0, i // 2 - 2):i // 2 + 1])


def worker(m, tier, n, wd=None):
    rng = m.rng
    sub = os.path.join(wd, f"w{m.part}")
    for t in range(n):
        if m.viol:
            return
        d = Design([func_item(rng, k) for k in range(9)] + [block_item(rng, k) for k in range(9, 13)])
        shutil.rmtree(sub, ignore_errors=True)
        os.makedirs(sub)
        with open(os.path.join(sub, "tb.vhd"), "w") as f:
            f.write(d.tb)
        rc, err, net = synth(sub, d)
        m.count("designs")
        if rc:
            # which of the calls and blocks cannot be synthesised, and why
            m.count("designs not synthesised")
            for it in d.items:
                one = os.path.join(sub, "one")
                shutil.rmtree(one, ignore_errors=True)
                os.makedirs(one)
                k = d.items.index(it)
                rc1, err1, _ = synth(one, Design([None] * k + [it]) if k else Design([it]))
                es = [l for l in err1.splitlines() if "error:" in l]
                if rc1 and es and not any(TOOL.search(l) for l in es):
                    m.evals += 1
                    m.violation("not synthesizable", case=it.desc, synthesis=es[:6])
                    return
                m.count("calls beyond the synthesis tool", bool(rc1))
            continue
        rows = stimulus(rng, d, 250)
        st = os.path.join(sub, "stim.txt")
        with open(st, "w") as f:
            f.write("\n".join(rows) + "\n")
        rtl, e = simulate(sub, "rtl", [os.path.join(sub, "dut.vhd")], d, st, os.path.join(wd, "base"))
        if rtl is None:
            if "driver done" not in e and re.search(r":(error|fatal)", e):
                raise Inconclusive("simulation of the source failed:\n" + e)
            m.violation("simulation of a legal design stopped", case=[it.desc for it in d.items], simulator=e[-800:])
            return
        nl, e = simulate(sub, "net", [net], d, st)
        if nl is None:
            m.count("netlists the simulator refuses")
            if m.counts["netlists the simulator refuses"] == 1:
                print("netlist not simulated: " + e[:400])
            continue
        m.count("netlists simulated")
        if len(rtl) != 2 * len(rows) or len(nl) != len(rtl):
            raise Inconclusive("incomplete log")
        for it in d.items:
            m.count(it.kind)
        compare(m, d, rows, rtl, nl)
        if not m.samples:
            m.sample(f"design with {len(d.items)} outputs ({d.items[0].desc}; ...; {d.items[-1].desc}): {len(rtl)} samples of {d.ny} bits equal in netlist and source")


def c26():
    t0 = time.time()
    with Scratch() as wd:
        base = os.path.join(wd, "base")
        os.makedirs(base)
        vhdl.analyse(base, vhdl.HDL + vhdl.ENT)
        m = run_pool(worker, "C26", 96, 1600, {"wd": wd})
    finish(m, t0, "random designs made of calls of every vector function (constant formats, modes, also given as text) and of pipelined blocks, synthesised with ghdl --synth; "
           "one evaluation = one output of netlist and source compared at one sampling point under the same stimulus; distinct by (call, inputs, output)",
           min_evals=20000, need=["netlists simulated", "block round", "block saturate", "block resize"] + FUNCS,
           assumptions=["ghdl --synth maps VHDL to netlists correctly", "inputs change away from the rising clock edge"])
