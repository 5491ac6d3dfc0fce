-- Driver test bench: executes a command file, one command per nanosecond, and logs every result.
--
-- Command line:  op da db aS aI aF bS bI bF rS rI rF rnd sat x y  abits bbits [|text]
--   da/db : index range given to vectors a/b (0: n-1 downto 0, 1: 0 to n-1, 2: n+4 downto 5, 3: 3 to n+2)
--   bits  : MSB first, "-" for none.   text: everything behind '|'.
-- Result line: <index> <payload>
library std;
    use std.textio.all;
library ieee;
    use ieee.std_logic_1164.all;
    use ieee.numeric_std.all;
    use ieee.math_real.all;
library work;
    use work.en_cl_fix_pkg.all;

entity drv_tb is
    generic(
        cmd_file_g  : string;
        out_file_g  : string
    );
end entity;

architecture sim of drv_tb is

    function mk(s : string; dir : natural) return std_logic_vector is
        constant n  : natural := s'length;
        variable d  : std_logic_vector(n-1 downto 0);
        variable u  : std_logic_vector(0 to n-1);
        variable od : std_logic_vector(n+4 downto 5);
        variable ou : std_logic_vector(3 to n+2);
        variable c  : std_logic;
    begin
        for i in 0 to n-1 loop
            case s(s'low+i) is
                when '0' => c := '0';
                when '1' => c := '1';
                when others => report "driver: bad bit" severity failure;
            end case;
            d(n-1-i) := c;
            u(i) := c;
            od(n+4-i) := c;
            ou(3+i) := c;
        end loop;
        case dir is
            when 0 => return d;
            when 1 => return u;
            when 2 => return od;
            when others => return ou;
        end case;
    end function;

    function rnd_of(k : integer) return FixRound_t is
    begin
        case k is
            when 0 => return Trunc_s;
            when 1 => return NonSymPos_s;
            when 2 => return NonSymNeg_s;
            when 3 => return SymInf_s;
            when 4 => return SymZero_s;
            when 5 => return ConvEven_s;
            when 6 => return ConvOdd_s;
            when others => report "driver: bad rnd" severity failure;
        end case;
        return Trunc_s;
    end function;

    function rnd_code(k : FixRound_t) return integer is
    begin
        if k = Trunc_s then return 0;
        elsif k = NonSymPos_s then return 1;
        elsif k = NonSymNeg_s then return 2;
        elsif k = SymInf_s then return 3;
        elsif k = SymZero_s then return 4;
        elsif k = ConvEven_s then return 5;
        elsif k = ConvOdd_s then return 6;
        end if;
        return -1;
    end function;

    function sat_of(k : integer) return FixSaturate_t is
    begin
        case k is
            when 0 => return None_s;
            when 1 => return Warn_s;
            when 2 => return Sat_s;
            when 3 => return SatWarn_s;
            when others => report "driver: bad sat" severity failure;
        end case;
        return None_s;
    end function;

    function sat_code(k : FixSaturate_t) return integer is
    begin
        if k = None_s then return 0;
        elsif k = Warn_s then return 1;
        elsif k = Sat_s then return 2;
        elsif k = SatWarn_s then return 3;
        end if;
        return -1;
    end function;

    function cmp_of(k : integer) return string is
    begin
        case k is
            when 0 => return "=";
            when 1 => return "!=";
            when 2 => return "<";
            when 3 => return ">";
            when 4 => return "<=";
            when 5 => return ">=";
            when 6 => return "==";
            when 7 => return "";
            when 8 => return "/=";
            when others => return "=>";
        end case;
    end function;

    -- Bits from left to right (independent of to_string).
    function bits(v : std_logic_vector) return string is
        variable s : string(1 to v'length);
        variable j : natural := 1;
    begin
        for i in v'range loop
            case v(i) is
                when '0' => s(j) := '0';
                when '1' => s(j) := '1';
                when others => s(j) := 'X';
            end case;
            j := j + 1;
        end loop;
        if v'length = 0 then
            return "-";
        end if;
        return s;
    end function;

    function fmt_str(f : FixFormat_t) return string is
    begin
        return integer'image(f.S) & " " & integer'image(f.I) & " " & integer'image(f.F);
    end function;

    function bool_str(b : boolean) return string is
    begin
        if b then return "1"; end if;
        return "0";
    end function;

    -- Exact text form of a real: mantissa (two integers) and binary exponent.
    function real_str(x : real) return string is
        variable r  : real := abs(x);
        variable e  : integer := 0;
        variable hi : real;
        variable sgn : string(1 to 1) := "+";
    begin
        if x < 0.0 then sgn := "-"; end if;
        if r = 0.0 then return sgn & " 0 0 0"; end if;
        while r >= 2.0**53 and e < 2000 loop
            r := r / 2.0;
            e := e + 1;
        end loop;
        while r < 2.0**52 and e > -2200 loop
            r := r * 2.0;
            e := e - 1;
        end loop;
        if e >= 2000 then return sgn & " 0 0 9999"; end if;
        hi := floor(r / 2.0**30);
        return sgn & " " & integer'image(integer(hi)) & " " & integer'image(integer(r - hi * 2.0**30)) & " " & integer'image(e);
    end function;

    function mk_real(hi, lo, e : integer) return real is
        variable r : real;
    begin
        -- Sign is carried by both halves.  The scaling is split so that every factor is a normal number.
        r := real(hi) * 2.0**30 + real(lo);
        return (r * 2.0**(e/2)) * 2.0**(e - e/2);
    end function;

    procedure read_word(variable L : inout line; variable s : out string; variable n : out natural) is
        variable i, j : natural;
    begin
        n := 0;
        i := L'low;
        while i <= L'high and L(i) = ' ' loop
            i := i + 1;
        end loop;
        j := i;
        while j <= L'high and L(j) /= ' ' loop
            s(s'low + j - i) := L(j);
            j := j + 1;
        end loop;
        n := j - i;
    end procedure;

begin

    p_main : process
        file f_cmd      : text;
        file f_out      : text;
        variable L, R   : line;
        variable op, da, db, rnd, sat, x, y : integer;
        variable a_fmt, b_fmt, r_fmt : FixFormat_t;
        variable fs, fi, ff : integer;
        variable idx    : natural := 0;
        variable p, q, i0, i1, j0, j1, t0 : natural;
        variable neg    : boolean;
        variable acc    : integer;
        constant LINE_MAX : positive := 20000;

        type int_arr_t is array(0 to 15) of integer;
        variable n_v    : int_arr_t;

        procedure put(s : string) is
        begin
            write(R, idx);
            write(R, ' ');
            write(R, s);
            writeline(f_out, R);
        end procedure;

        procedure exec(abits : string; bbits : string; txt : string) is
            constant a  : std_logic_vector := mk(abits, da);
            constant b  : std_logic_vector := mk(bbits, db);
            constant rm : FixRound_t := rnd_of(rnd);
            constant sm : FixSaturate_t := sat_of(sat);
            variable sl : std_logic;
        begin
            case op is
                when 0 =>   -- explicit: round
                    case y is
                        when 0 => put(bits(cl_fix_round(a, a_fmt, r_fmt, rm, x = 0)));
                        when 1 => put(bits(cl_fix_round(a, a_fmt, r_fmt, rm)));
                        when others => put(bits(cl_fix_round(a, a_fmt, r_fmt)));
                    end case;
                when 1 =>
                    case y is
                        when 0 => put(bits(cl_fix_saturate(a, a_fmt, r_fmt, sm)));
                        when others => put(bits(cl_fix_saturate(a, a_fmt, r_fmt)));
                    end case;
                when 2 =>
                    case y is
                        when 0 => put(bits(cl_fix_resize(a, a_fmt, r_fmt, rm, sm)));
                        when 1 => put(bits(cl_fix_resize(a, a_fmt, r_fmt, rm)));
                        when others => put(bits(cl_fix_resize(a, a_fmt, r_fmt)));
                    end case;
                when 3 =>
                    case y is
                        when 0 => put(bits(cl_fix_abs(a, a_fmt, r_fmt, rm, sm)));
                        when 1 => put(bits(cl_fix_abs(a, a_fmt, r_fmt)));
                        when others => put(bits(cl_fix_abs(a, a_fmt)));
                    end case;
                when 4 =>
                    case y is
                        when 0 => put(bits(cl_fix_neg(a, a_fmt, r_fmt, rm, sm)));
                        when 1 => put(bits(cl_fix_neg(a, a_fmt, r_fmt)));
                        when others => put(bits(cl_fix_neg(a, a_fmt)));
                    end case;
                when 5 =>
                    case y is
                        when 0 => put(bits(cl_fix_add(a, a_fmt, b, b_fmt, r_fmt, rm, sm)));
                        when 1 => put(bits(cl_fix_add(a, a_fmt, b, b_fmt, r_fmt)));
                        when others => put(bits(cl_fix_add(a, a_fmt, b, b_fmt)));
                    end case;
                when 6 =>
                    case y is
                        when 0 => put(bits(cl_fix_sub(a, a_fmt, b, b_fmt, r_fmt, rm, sm)));
                        when 1 => put(bits(cl_fix_sub(a, a_fmt, b, b_fmt, r_fmt)));
                        when others => put(bits(cl_fix_sub(a, a_fmt, b, b_fmt)));
                    end case;
                when 7 =>
                    if x = 1 then sl := '1'; else sl := '0'; end if;
                    case y is
                        when 0 => put(bits(cl_fix_addsub(a, a_fmt, b, b_fmt, sl, r_fmt, rm, sm)));
                        when 1 => put(bits(cl_fix_addsub(a, a_fmt, b, b_fmt, sl, r_fmt)));
                        when others => put(bits(cl_fix_addsub(a, a_fmt, b, b_fmt, sl)));
                    end case;
                when 8 =>
                    case y is
                        when 0 => put(bits(cl_fix_mult(a, a_fmt, b, b_fmt, r_fmt, rm, sm)));
                        when 1 => put(bits(cl_fix_mult(a, a_fmt, b, b_fmt, r_fmt)));
                        when others => put(bits(cl_fix_mult(a, a_fmt, b, b_fmt)));
                    end case;
                when 9 =>
                    case y is
                        when 0 => put(bits(cl_fix_shift(a, a_fmt, x, r_fmt, rm, sm)));
                        when others => put(bits(cl_fix_shift(a, a_fmt, x, r_fmt)));
                    end case;
                -- Formats
                when 20 => put(fmt_str(cl_fix_add_fmt(a_fmt, b_fmt)));
                when 21 => put(fmt_str(cl_fix_sub_fmt(a_fmt, b_fmt)));
                when 22 => put(fmt_str(cl_fix_addsub_fmt(a_fmt, b_fmt)));
                when 23 => put(fmt_str(cl_fix_mult_fmt(a_fmt, b_fmt)));
                when 24 => put(fmt_str(cl_fix_neg_fmt(a_fmt)));
                when 25 => put(fmt_str(cl_fix_abs_fmt(a_fmt)));
                when 26 => put(fmt_str(cl_fix_shift_fmt(a_fmt, x, y)));
                when 27 => put(fmt_str(cl_fix_shift_fmt(a_fmt, x)));
                when 28 => put(fmt_str(cl_fix_round_fmt(a_fmt, x, rm)));
                when 29 => put(fmt_str(choose(x = 1, a_fmt, b_fmt)));
                when 30 => put(integer'image(cl_fix_width(a_fmt)));
                when 31 => put(bits(cl_fix_max_value(a_fmt)));
                when 32 => put(bits(cl_fix_min_value(a_fmt)));
                -- Comparison, range
                when 40 => put(bool_str(cl_fix_compare(cmp_of(x), a, a_fmt, b, b_fmt)));
                when 41 =>
                    if cl_fix_sign(a, a_fmt) = '1' then put("1");
                    elsif cl_fix_sign(a, a_fmt) = '0' then put("0");
                    else put("X"); end if;
                when 42 =>
                    case y is
                        when 0 => put(bool_str(cl_fix_in_range(a, a_fmt, r_fmt, rm)));
                        when others => put(bool_str(cl_fix_in_range(a, a_fmt, r_fmt)));
                    end case;
                -- Conversions.  from_real: real is (x, y, aF) with r_fmt; db=1: default saturation
                when 50 =>
                    if db = 1 then
                        put(bits(cl_fix_from_real(mk_real(x, y, b_fmt.F), r_fmt)));
                    else
                        put(bits(cl_fix_from_real(mk_real(x, y, b_fmt.F), r_fmt, sm)));
                    end if;
                when 51 => put(real_str(cl_fix_to_real(a, a_fmt)));
                when 52 => put(bits(cl_fix_from_integer(x, a_fmt)));
                when 53 => put(integer'image(cl_fix_to_integer(a, a_fmt)));
                -- Pipelining
                when 60 =>
                    case y is
                        when 0 => put(integer'image(cl_fix_recommended_pipelining(a_fmt, r_fmt, rm, x = 0)));
                        when others => put(integer'image(cl_fix_recommended_pipelining(a_fmt, r_fmt, rm)));
                    end case;
                when 61 => put(integer'image(cl_fix_recommended_pipelining(a_fmt, r_fmt, sm)));
                when 62 => put(integer'image(cl_fix_recommended_pipelining(a_fmt, r_fmt, rm, sm)));
                -- Text
                when 70 => put(to_string(a, a_fmt));
                when 71 => put(to_string(a_fmt));
                when 72 => put(to_string(rm));
                when 73 => put(to_string(sm));
                when 74 => put(fmt_str(cl_fix_format_from_string(txt)));
                when 75 => put(integer'image(rnd_code(cl_fix_round_from_string(txt))));
                when 76 => put(integer'image(sat_code(cl_fix_saturate_from_string(txt))));
                when 77 => put(integer'image(FixRound_t'pos(rm)));
                when 78 => put(integer'image(FixSaturate_t'pos(sm)));
                when 79 => put(fmt_str(cl_fix_format_from_string(to_string(a_fmt))));
                when 80 => put(integer'image(FixRound_t'pos(FixRound_t'high)) & " " & integer'image(FixSaturate_t'pos(FixSaturate_t'high)));
                when others => report "driver: bad op" severity failure;
            end case;
        end procedure;

    begin
        file_open(f_cmd, cmd_file_g, read_mode);
        file_open(f_out, out_file_g, write_mode);
        while not endfile(f_cmd) loop
            readline(f_cmd, L);
            -- 16 integers
            p := L'low;
            for k in 0 to 15 loop
                while L(p) = ' ' loop p := p + 1; end loop;
                neg := L(p) = '-';
                if neg then p := p + 1; end if;
                acc := 0;
                while L(p) /= ' ' loop
                    -- accumulated negatively so that -2**31 is possible
                    acc := acc * 10 - (character'pos(L(p)) - 48);
                    p := p + 1;
                end loop;
                if neg then n_v(k) := acc; else n_v(k) := -acc; end if;
            end loop;
            op := n_v(0); da := n_v(1); db := n_v(2);
            a_fmt := (n_v(3), n_v(4), n_v(5));
            b_fmt := (n_v(6), n_v(7), n_v(8));
            r_fmt := (n_v(9), n_v(10), n_v(11));
            rnd := n_v(12); sat := n_v(13); x := n_v(14); y := n_v(15);
            -- two bit strings
            while L(p) = ' ' loop p := p + 1; end loop;
            i0 := p;
            while L(p) /= ' ' loop p := p + 1; end loop;
            i1 := p - 1;
            while L(p) = ' ' loop p := p + 1; end loop;
            j0 := p;
            while L(p) /= ' ' loop p := p + 1; end loop;
            j1 := p - 1;
            if L(i0) = '-' then i1 := i0 - 1; end if;
            if L(j0) = '-' then j1 := j0 - 1; end if;
            -- text behind '|'
            while L(p) /= '|' loop p := p + 1; end loop;
            t0 := p + 1;
            exec(L(i0 to i1), L(j0 to j1), L(t0 to L'high));
            deallocate(L);
            idx := idx + 1;
            wait for 1 ns;
        end loop;
        file_close(f_out);
        report "driver done";
        wait;
    end process;

end architecture;
