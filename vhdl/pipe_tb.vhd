-- Drives one configuration of a pipelined block from a stimulus file and logs every port on every clock.
-- Stimulus line: <rst> <valid> <meta bits or -> <data bits>; log line: <valid> <meta or -> <data>.
library std;
    use std.textio.all;
library ieee;
    use ieee.std_logic_1164.all;
library work;
    use work.en_cl_fix_pkg.all;

entity pipe_tb is
    generic(
        kind_g : natural := 0;                          -- 0 round, 1 saturate, 2 resize
        s1_g, i1_g, f1_g, s2_g, i2_g, f2_g : integer := 1;
        rnd_g : natural := 0; sat_g : natural := 0; reg_g : natural := 0; meta_g : natural := 0; check_g : natural := 1;
        stim_g : string := "stim.txt"; log_g : string := "log.txt"
    );
end entity;

architecture sim of pipe_tb is
    function rnd_of(k : natural) return FixRound_t is
    begin
        case k is
            when 0 => return Trunc_s;
            when 1 => return NonSymPos_s;
            when 2 => return NonSymNeg_s;
            when 3 => return SymInf_s;
            when 4 => return SymZero_s;
            when 5 => return ConvEven_s;
            when others => return ConvOdd_s;
        end case;
    end function;
    function sat_of(k : natural) return FixSaturate_t is
    begin
        case k is
            when 0 => return None_s;
            when 1 => return Warn_s;
            when 2 => return Sat_s;
            when others => return SatWarn_s;
        end case;
    end function;
    function reg_of(k : natural) return RegisterMode_t is
    begin
        case k is
            when 0 => return Auto_s;
            when 1 => return Yes_s;
            when others => return No_s;
        end case;
    end function;
    constant in_fmt     : FixFormat_t := (s1_g, i1_g, f1_g);
    constant out_fmt    : FixFormat_t := (s2_g, i2_g, f2_g);
    constant rnd        : FixRound_t := rnd_of(rnd_g);
    constant sat        : FixSaturate_t := sat_of(sat_g);
    constant reg        : RegisterMode_t := reg_of(reg_g);

    impure function recommended return natural is
    begin
        case kind_g is
            when 0 => return cl_fix_recommended_pipelining(in_fmt, out_fmt, rnd, check_g = 1);
            when 1 => return cl_fix_recommended_pipelining(in_fmt, out_fmt, sat);
            when others => return cl_fix_recommended_pipelining(in_fmt, out_fmt, rnd, sat);
        end case;
    end function;

    signal clk          : std_logic := '0';
    signal rst          : std_logic := '0';
    signal in_valid     : std_logic := '0';
    signal in_meta      : std_logic_vector(meta_g-1 downto 0) := (others => '0');
    signal in_data      : std_logic_vector(s1_g+i1_g+f1_g-1 downto 0) := (others => '0');
    signal out_valid    : std_logic;
    signal out_meta     : std_logic_vector(meta_g-1 downto 0);
    signal out_data     : std_logic_vector(s2_g+i2_g+f2_g-1 downto 0);
begin
    g_round : if kind_g = 0 generate
        i_dut : entity work.en_cl_fix_round
        generic map(in_fmt_g => in_fmt, out_fmt_g => out_fmt, round_g => rnd, reg_mode_g => reg, meta_width_g => meta_g, fmt_check_g => check_g = 1)
        port map(clk => clk, rst => rst, in_valid => in_valid, in_meta => in_meta, in_data => in_data,
                 out_valid => out_valid, out_meta => out_meta, out_data => out_data);
    end generate;
    g_sat : if kind_g = 1 generate
        i_dut : entity work.en_cl_fix_saturate
        generic map(in_fmt_g => in_fmt, out_fmt_g => out_fmt, saturate_g => sat, reg_mode_g => reg, meta_width_g => meta_g)
        port map(clk => clk, rst => rst, in_valid => in_valid, in_meta => in_meta, in_data => in_data,
                 out_valid => out_valid, out_meta => out_meta, out_data => out_data);
    end generate;
    g_resize : if kind_g = 2 generate
        i_dut : entity work.en_cl_fix_resize
        generic map(in_fmt_g => in_fmt, out_fmt_g => out_fmt, round_g => rnd, saturate_g => sat, reg_mode_g => reg, meta_width_g => meta_g)
        port map(clk => clk, rst => rst, in_valid => in_valid, in_meta => in_meta, in_data => in_data,
                 out_valid => out_valid, out_meta => out_meta, out_data => out_data);
    end generate;

    p_main : process
        file f_stim, f_log  : text;
        variable L, R       : line;
        variable p          : natural;

        function sl(c : character) return std_logic is
        begin
            case c is
                when '0' => return '0';
                when '1' => return '1';
                when others => return 'X';
            end case;
        end function;

        procedure put(x : std_logic) is
        begin
            if x = '1' then write(R, string'("1"));
            elsif x = '0' then write(R, string'("0"));
            else write(R, string'("X")); end if;
        end procedure;

        procedure put(x : std_logic_vector) is
        begin
            if x'length = 0 then write(R, string'("-")); end if;
            for i in x'range loop put(x(i)); end loop;
        end procedure;
    begin
        file_open(f_stim, stim_g, read_mode);
        file_open(f_log, log_g, write_mode);
        write(R, integer'image(recommended));
        writeline(f_log, R);
        while not endfile(f_stim) loop
            readline(f_stim, L);
            p := L'low;
            rst <= sl(L(p));
            in_valid <= sl(L(p+2));
            p := p + 4;
            for i in meta_g-1 downto 0 loop
                in_meta(i) <= sl(L(p));
                p := p + 1;
            end loop;
            if meta_g = 0 then p := p + 1; end if;
            p := p + 1;
            for i in in_data'range loop
                in_data(i) <= sl(L(p));
                p := p + 1;
            end loop;
            deallocate(L);
            wait for 4 ns;
            -- Outputs of this cycle
            put(out_valid); write(R, string'(" ")); put(out_meta); write(R, string'(" ")); put(out_data);
            writeline(f_log, R);
            clk <= '1';
            wait for 5 ns;
            clk <= '0';
            wait for 1 ns;
        end loop;
        file_close(f_log);
        report "driver done";
        wait;
    end process;
end architecture;
