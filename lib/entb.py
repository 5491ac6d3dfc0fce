"""Driver for the test-bench library (lib/en_tb) and tb/util/en_cl_fix_fileio_pkg.vhd: a generated command-file test bench
that calls every overload, built with the real VUnit library in a scratch directory."""
import os, subprocess, sys, threading

import vhdl
from pymon import REPO, VERIF, Inconclusive

# name, array type, element type, takes a signedness argument, bit type
TYPES = [("sb", "SignedBitArray_t", "ieee.numeric_bit.signed", False, "bit"),
         ("ub", "UnsignedBitArray_t", "ieee.numeric_bit.unsigned", False, "bit"),
         ("ss", "SignedArray_t", "ieee.numeric_std.signed", False, "std_logic"),
         ("us", "UnsignedArray_t", "ieee.numeric_std.unsigned", False, "std_logic"),
         ("bv", "BitVectorArray_t", "bit_vector", True, "bit"),
         ("lv", "SlvArray_t", "std_logic_vector", True, "std_logic"),
         ("ul", "SulvArray_t", "std_ulogic_vector", True, "std_ulogic")]
NAMES = [t[0] for t in TYPES] + ["int", "sl", "b1", "fx"]
MODES = ["ascii_bin", "ascii_dec", "ascii_hex"]
OPS = {"w_file": 0, "w_vals": 1, "w_line": 2, "r_file": 3, "r_proc": 4, "r_func": 5, "r_line": 6, "r_def": 7, "flat": 8, "check": 9,
       "size": 10, "w_def": 11, "wf_file": 12, "wf_vals": 13, "rf_file": 14, "rf_vals": 15, "rf_def": 16, "check_d": 17}

VEC = """
        procedure do_{n} is
            variable d, e   : {A}(0 to cnt-1)(wid-1 downto 0);
            variable va     : {E}(wid-1 downto 0);
            variable vb     : {E}(0 to wid-1);
            variable vc     : {E}(wid+6 downto 7);

            -- No dependence on the library: explicit bit by bit.
            procedure emit(x : {E}) is
            begin
                if first then first := false; else pc(','); end if;
                for i in x'range loop
                    if x(i) = '1' then pc('1'); elsif x(i) = '0' then pc('0'); else pc('X'); end if;
                end loop;
                if x'length = 0 then pc('-'); end if;
            end procedure;

            procedure emit(x : {A}) is
            begin
                for i in x'range loop emit(x(i)); end loop;
            end procedure;

            procedure load(variable x : out {A}) is
                variable q : natural;
            begin
                for i in x'range loop
                    get_bits(q);
                    for k in 0 to wid-1 loop
                        if buf(q+k) = '1' then x(i)(wid-1-k) := '1'; else x(i)(wid-1-k) := '0'; end if;
                    end loop;
                end loop;
            end procedure;

            procedure wr(variable KL : inout line; x : {E}) is
            begin
                va := x;
                case dir is
                    when 0 => write(KL, va{sg}, mode);
                    when 1 => for k in 0 to wid-1 loop vb(k) := va(wid-1-k); end loop; write(KL, vb{sg}, mode);
                    when others => for k in 0 to wid-1 loop vc(7+k) := va(k); end loop; write(KL, vc{sg}, mode);
                end case;
            end procedure;

            procedure rd(variable KL : inout line) is
            begin
                case dir is
                    when 0 => read(KL, va{sg}, mode); emit(va);
                    when 1 => read(KL, vb{sg}, mode); emit(vb);
                    when others => read(KL, vc{sg}, mode); emit(vc);
                end case;
            end procedure;

            procedure do_file is
                constant x : {A} := read_file(fname.all, wid{sg}, mode, skip);
            begin
                emit(x);
            end procedure;

            procedure do_def is
                constant x : {A} := read_file(fname.all, wid{sg});
            begin
                emit(x);
            end procedure;

            procedure do_flat is
                constant f  : {E} := Flatten(d);
                variable y  : {A}(0 to cnt-1)(wid-1 downto 0);
                variable g  : {E}(5 to f'length+4);
            begin
                emit(f);
                Unflatten(f, y);
                emit(y);
                g := f;
                y := Unflatten(g, d);
                emit(y);
                if first then first := false; else pc(','); end if;
                pn(Numel(d));
            end procedure;

            procedure do_check(def : boolean) is
                variable s1     : checker_stat_t;
                variable e2     : {A}(0 to cols-1)(wid-1 downto 0);
            begin
                load(e2);
                if def then
                    reset_checker_stat;
                    check_equal(d, e2, "m");
                    s1 := get_checker_stat;
                else
                    reset_checker_stat(chk);
                    check_equal(chk, d, e2, "m");
                    s1 := get_checker_stat(chk);
                end if;
                pn(s1.n_checks); pc(' '); pn(s1.n_failed); pc(' '); pn(s1.n_passed);
            end procedure;
        begin
            case op is
                when 0 =>
                    load(d);
                    if hdr = 1 then write_file(fname.all, d{sg}, mode, "# header, " & integer'image(wid));
                    else write_file(fname.all, d{sg}, mode); end if;
                when 11 =>
                    load(d);
                    write_file(fname.all, d{sg});
                when 1 =>
                    load(d);
                    file_open(f, fname.all, write_mode);
                    for i in d'range loop {wvals} end loop;
                    file_close(f);
                when 2 =>
                    load(d);
                    file_open(f, fname.all, write_mode);
                    for i in 0 to rows-1 loop
                        for j in 0 to cols-1 loop
                            wr(L, d(i*cols+j));
                            if j < cols-1 then write(L, sep(hdr)); end if;
                        end loop;
                        writeline(f, L);
                    end loop;
                    file_close(f);
                when 3 => do_file;
                when 7 => do_def;
                when 4 =>
                    file_open(f, fname.all, read_mode);
                    for i in 0 to cnt-1 loop
                        case dir is
                            when 0 => read(f, va{sg}, mode, skips(i), i = cnt-1); emit(va);
                            when 1 => read(f, vb{sg}, mode, skips(i), i = cnt-1); emit(vb);
                            when others => read(f, vc{sg}, mode, skips(i), i = cnt-1); emit(vc);
                        end case;
                    end loop;
                when 5 =>
                    file_open(f, fname.all, read_mode);
                    for i in 0 to cnt-1 loop
                        va := read(f, {sgf}wid, mode, skips(i), i = cnt-1); emit(va);
                    end loop;
                when 6 =>
                    file_open(f, fname.all, read_mode);
                    skip_lines(f, skip);
                    for i in 0 to rows-1 loop
                        readline(f, L);
                        for j in 0 to cols-1 loop
                            rd(L);
                        end loop;
                    end loop;
                    file_close(f);
                when 8 => load(d); do_flat;
                when 9 => load(d); do_check(false);
                when 17 => load(d); do_check(true);
                when others => report "driver: bad op" severity failure;
            end case;
        end procedure;
"""

INT = """
        procedure do_int is
            variable d      : integer_vector(0 to cnt-1);
            variable v      : integer;

            procedure emit(x : integer) is
            begin
                if first then first := false; else pc(','); end if;
                pn(x);
            end procedure;

            procedure load is
            begin
                for i in d'range loop
                    readline(f_cmd, C);
                    std.textio.read(C, d(i));
                end loop;
            end procedure;

            procedure do_file is
                constant x : integer_vector := read_file(fname.all, mode, skip);
            begin
                for i in x'range loop emit(x(i)); end loop;
            end procedure;

            procedure do_def is
                constant y : integer_vector := read_file(fname.all);
            begin
                for i in y'range loop emit(y(i)); end loop;
            end procedure;
        begin
            case op is
                when 0 =>
                    load;
                    if hdr = 1 then write_file(fname.all, d, mode, "# header, 12");
                    else write_file(fname.all, d, mode); end if;
                when 11 =>
                    load;
                    write_file(fname.all, d);
                when 1 | 2 =>
                    load;
                    file_open(f, fname.all, write_mode);
                    for i in 0 to rows-1 loop
                        for j in 0 to cols-1 loop
                            write(L, d(i*cols+j), mode);
                            if j < cols-1 then write(L, sep(hdr)); end if;
                        end loop;
                        writeline(f, L);
                    end loop;
                    file_close(f);
                when 3 => do_file;
                when 7 => do_def;
                when 4 =>
                    file_open(f, fname.all, read_mode);
                    for i in 0 to cnt-1 loop
                        read(f, v, mode, skips(i), i = cnt-1); emit(v);
                    end loop;
                when 5 =>
                    file_open(f, fname.all, read_mode);
                    for i in 0 to cnt-1 loop
                        v := read(f, mode, skips(i), i = cnt-1); emit(v);
                    end loop;
                when 6 =>
                    file_open(f, fname.all, read_mode);
                    skip_lines(f, skip);
                    for i in 0 to rows-1 loop
                        readline(f, L);
                        for j in 0 to cols-1 loop
                            read(L, v, mode); emit(v);
                        end loop;
                    end loop;
                    file_close(f);
                when others => report "driver: bad op" severity failure;
            end case;
        end procedure;
"""

BIT = """
        procedure do_{n} is
            variable v      : {E};

            procedure emit(x : {E}) is
            begin
                if first then first := false; else pc(','); end if;
                if x = '1' then pc('1'); elsif x = '0' then pc('0'); else pc('X'); end if;
            end procedure;
        begin
            file_open(f, fname.all, read_mode);
            case op is
                when 4 =>
                    for i in 0 to cnt-1 loop
                        read(f, v, mode, skips(i), i = cnt-1); emit(v);
                    end loop;
                when 5 =>
                    for i in 0 to cnt-1 loop
                        v := read(f, sgn, 1, mode, skips(i), i = cnt-1); emit(v);
                    end loop;
                when 6 =>
                    skip_lines(f, skip);
                    for i in 0 to rows-1 loop
                        readline(f, L);
                        for j in 0 to cols-1 loop
                            read(L, v, mode); emit(v);
                        end loop;
                    end loop;
                    file_close(f);
                when others => report "driver: bad op" severity failure;
            end case;
        end procedure;
"""

FIX = """
        procedure do_fx is
            constant fmt    : FixFormat_t := (fs, fi, ff);
            variable d      : SlvArray_t(0 to cnt-1)(wid-1 downto 0);
            variable va     : std_logic_vector(wid-1 downto 0);
            variable fa     : FixFormatArray_t(0 to cnt-1);

            procedure emit(x : std_logic_vector) is
            begin
                if first then first := false; else pc(','); end if;
                for i in x'range loop
                    if x(i) = '1' then pc('1'); elsif x(i) = '0' then pc('0'); else pc('X'); end if;
                end loop;
            end procedure;

            procedure emit(x : FixFormat_t) is
            begin
                if first then first := false; else pc(','); end if;
                pn(x.S); pc(' '); pn(x.I); pc(' '); pn(x.F);
            end procedure;

            procedure load is
                variable q : natural;
            begin
                for i in d'range loop
                    get_bits(q);
                    for k in 0 to wid-1 loop
                        if buf(q+k) = '1' then d(i)(wid-1-k) := '1'; else d(i)(wid-1-k) := '0'; end if;
                    end loop;
                end loop;
            end procedure;

            procedure load_f is
            begin
                for i in fa'range loop
                    readline(f_cmd, C);
                    std.textio.read(C, fa(i).S);
                    std.textio.read(C, fa(i).I);
                    std.textio.read(C, fa(i).F);
                end loop;
            end procedure;

            procedure do_file is
                constant x : SlvArray_t := cl_fix_read_file(fname.all, fmt, mode, skip);
            begin
                for i in x'range loop emit(x(i)); end loop;
            end procedure;

            procedure do_def is
                constant x : SlvArray_t := cl_fix_read_file(fname.all, fmt);
            begin
                for i in x'range loop emit(x(i)); end loop;
            end procedure;

            procedure do_ffile is
                constant x : FixFormatArray_t := cl_fix_read_format_file(fname.all, skip);
            begin
                for i in x'range loop emit(x(i)); end loop;
            end procedure;

            procedure do_fdef is
                constant x : FixFormatArray_t := cl_fix_read_format_file(fname.all);
            begin
                for i in x'range loop emit(x(i)); end loop;
            end procedure;
        begin
            case op is
                when 0 =>
                    load;
                    if hdr = 1 then cl_fix_write_file(fname.all, d, fmt, mode, "# header 7");
                    else cl_fix_write_file(fname.all, d, fmt, mode); end if;
                when 11 =>
                    load;
                    cl_fix_write_file(fname.all, d, fmt);
                when 1 =>
                    load;
                    file_open(f, fname.all, write_mode);
                    for i in d'range loop cl_fix_write(f, d(i), fmt, mode); end loop;
                    file_close(f);
                when 2 =>
                    load;
                    file_open(f, fname.all, write_mode);
                    for i in 0 to rows-1 loop
                        for j in 0 to cols-1 loop
                            cl_fix_write(L, d(i*cols+j), fmt, mode);
                            if j < cols-1 then write(L, sep(hdr)); end if;
                        end loop;
                        writeline(f, L);
                    end loop;
                    file_close(f);
                when 3 => do_file;
                when 7 => do_def;
                when 4 | 5 =>
                    file_open(f, fname.all, read_mode);
                    for i in 0 to cnt-1 loop
                        va := cl_fix_read(f, fmt, mode, skips(i), i = cnt-1); emit(va);
                    end loop;
                when 6 =>
                    file_open(f, fname.all, read_mode);
                    skip_lines(f, skip);
                    for i in 0 to rows-1 loop
                        readline(f, L);
                        for j in 0 to cols-1 loop
                            cl_fix_read(L, va, fmt, mode); emit(va);
                        end loop;
                    end loop;
                    file_close(f);
                when 12 => load_f; cl_fix_write_format_file(fname.all, fa);
                when 13 =>
                    load_f;
                    file_open(f, fname.all, write_mode);
                    for i in fa'range loop cl_fix_write_format(f, fa(i)); end loop;
                    file_close(f);
                when 14 => do_ffile;
                when 16 => do_fdef;
                when 15 =>
                    file_open(f, fname.all, read_mode);
                    for i in 0 to cnt-1 loop
                        emit(cl_fix_read_format(f, skips(i), i = cnt-1));
                    end loop;
                when others => report "driver: bad op" severity failure;
            end case;
        end procedure;
"""

HEAD = """
library std;
    use std.textio.all;
library ieee;
    use ieee.std_logic_1164.all;
library vunit_lib;
    context vunit_lib.vunit_context;
library en_tb;
    use en_tb.en_tb_base_pkg.all;
    use en_tb.en_tb_fileio_text_pkg.all;
    use en_tb.en_tb_fileio_text_private_pkg.text_data_mode_t;
    use en_tb.en_tb_fileio_text_private_pkg.ascii_bin;
    use en_tb.en_tb_fileio_text_private_pkg.ascii_dec;
    use en_tb.en_tb_fileio_text_private_pkg.ascii_hex;
library lib;
    use lib.en_cl_fix_pkg.all;
    use lib.en_cl_fix_fileio_pkg.all;

entity entb_drv is
    generic(cmd_file_g : string := "cmd.txt"; out_file_g : string := "out.txt");
end entity;

architecture sim of entb_drv is
begin
    p_main : process
        file f_cmd, f_out, f : text;
        variable C, R, L, fname, buf : line;
        variable idx    : natural := 0;
        variable op, typ, sg_i, mode_i, wid, rows, cols, skip, hdr, dir, stride, fs, fi, ff : integer;
        variable cnt    : natural;
        variable first  : boolean;
        variable sgn    : Signedness_t;
        variable mode   : text_data_mode_t;
        variable ch     : character;
        variable chk    : checker_t := new_checker("chk");

        procedure get_bits(variable q : out natural) is
        begin
            readline(f_cmd, buf);
            q := buf'low;
        end procedure;

        impure function skips(i : natural) return natural is
        begin
            if i = 0 then return skip; end if;
            return stride;
        end function;

        procedure pc(x : character) is
        begin
            write(R, string'(1 => x));
        end procedure;

        procedure pn(x : integer) is
        begin
            write(R, integer'image(x));
        end procedure;

        function sep(k : natural) return string is
        begin
            case k is
                when 0 => return " ";
                when 1 => return "  ";
                when 2 => return (1 => HT);
                when 3 => return ",";
                when 4 => return ", ";
                when others => return "; ";
            end case;
        end function;
"""
TAIL = """
    begin
        set_stop_level(failure);
        set_stop_level(get_logger(chk), failure);
        disable_stop(get_logger(chk), error);
        disable_stop(get_logger(default_checker), error);
        hide_all(display_handler);
        file_open(f_cmd, cmd_file_g, read_mode);
        file_open(f_out, out_file_g, write_mode);
        while not endfile(f_cmd) loop
            readline(f_cmd, C);
            std.textio.read(C, op); std.textio.read(C, typ); std.textio.read(C, sg_i); std.textio.read(C, mode_i);
            std.textio.read(C, wid); std.textio.read(C, rows); std.textio.read(C, cols); std.textio.read(C, skip);
            std.textio.read(C, hdr); std.textio.read(C, dir); std.textio.read(C, stride);
            std.textio.read(C, fs); std.textio.read(C, fi); std.textio.read(C, ff);
            std.textio.read(C, ch); std.textio.read(C, ch);
            fname := new string'(C.all);
            cnt := rows * cols;
            if op = 9 or op = 17 or op = 8 then
                cnt := rows;
            end if;
            mode := text_data_mode_t'val(mode_i);
            if sg_i = 1 then sgn := Signed_s; else sgn := Unsigned_s; end if;
            first := true;
            pn(idx);
            pc(' ');
            if op = 10 then
                pn(get_file_size_lines(fname.all));
                pc(' ');
                pn(get_file_size_columns(fname.all, skip, mode));
            else
                case typ is
@CASES@
                    when others => report "driver: bad type" severity failure;
                end case;
            end if;
            writeline(f_out, R);
            deallocate(fname);
            idx := idx + 1;
            wait for 1 ns;
        end loop;
        file_close(f_out);
        report "driver done";
        wait;
    end process;
end architecture;
"""


def source():
    s = HEAD
    for n, A, E, sg, bt in TYPES:
        wv = "write(f, d(i){}, mode);".format(", sgn" if sg else "")
        s += VEC.format(n=n, A=A, E=E, sg=", sgn" if sg else "", sgf="sgn, " if sg else "", wvals=wv)
    s += INT + BIT.format(n="sl", E="std_logic") + BIT.format(n="b1", E="bit") + FIX
    cases = "".join(f"                    when {i} => do_{n};\n" for i, n in enumerate(NAMES))
    return s + TAIL.replace("@CASES@", cases)


RUN = r"""
import sys
from vunit import VUnit
out, repo, drv = sys.argv[1:4]
vu = VUnit.from_argv(["--output-path", out, "--compile", "--no-color", "-q"])
vu.add_vhdl_builtins()
l = vu.add_library("en_tb"); l.add_source_files(repo + "/lib/en_tb/hdl/*.vhd", vhdl_standard="2008")
l = vu.add_library("lib")
l.add_source_files([repo + "/hdl/en_cl_fix_private_pkg.vhd", repo + "/hdl/en_cl_fix_pkg.vhd", repo + "/tb/util/en_cl_fix_fileio_pkg.vhd", drv], vhdl_standard="2008")
vu.set_compile_option("ghdl.a_flags", ["-frelaxed"])
vu.main()
"""


def build(workdir):
    """Compiles VUnit, en_tb, the fixed-point packages and the driver; leaves the executable workdir/entb_drv."""
    drv = os.path.join(workdir, "entb_drv.vhd")
    with open(drv, "w") as f:
        f.write(source())
    rp = os.path.join(workdir, "run.py")
    with open(rp, "w") as f:
        f.write(RUN)
    out = os.path.join(workdir, "vu")
    py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
    env = dict(vhdl.ENV, VUNIT_SIMULATOR="ghdl", VUNIT_GHDL_PATH="/usr/bin", PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([py, rp, out, REPO, drv], cwd=workdir, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode:
        raise Inconclusive("VUnit compilation failed:\n" + r.stdout[-4000:])
    libs = os.path.join(out, "ghdl", "libraries")
    P = [f"-P{os.path.join(libs, d)}" for d in sorted(os.listdir(libs))]
    r = vhdl.run([vhdl.GHDL, "-e", *vhdl.FLAGS, "--work=lib", f"--workdir={os.path.join(libs, 'lib')}", *P, "-o", os.path.join(workdir, "entb_drv"), "entb_drv"], workdir)
    if r.returncode:
        raise Inconclusive("elaboration failed:\n" + r.stdout[-3000:])


def cmd(op, typ, fname="", signed=0, mode=1, wid=8, rows=1, cols=1, skip=0, hdr=0, dir=0, stride=0, fmt=(0, 0, 1), data=()):
    s = f"{OPS[op]} {NAMES.index(typ)} {signed} {mode} {wid} {rows} {cols} {skip} {hdr} {dir} {stride} {fmt[0]} {fmt[1]} {fmt[2]} |{fname}\n"
    return s + "".join(x + "\n" for x in data)
