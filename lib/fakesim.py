#!/usr/bin/python3 -SE
"""Stand-in for the simulators' programs (ghdl, nvc, vsim, vcom, vlib, vopt, vmap, vcover): does no work,
records every call in $FAKE_LOG and plays a simulator that executes a VUnit test bench."""
import fcntl, json, os, re, sys, time

me = os.path.abspath(sys.argv[0])
tool, bindir = os.path.basename(me), os.path.dirname(me)
argv = sys.argv[1:]
conf = json.load(open(os.environ["FAKE_CONF"]))


def log(kind, **kw):
    line = json.dumps(dict(kind=kind, tool=tool, bin=bindir, cwd=os.getcwd(), t=time.monotonic(), **kw)) + "\n"
    with open(os.environ["FAKE_LOG"], "a") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        f.write(line)


def leave(rc):
    sys.stdout.flush()
    os._exit(rc)


def compile_file(path, std, lib, flags):
    bad = os.path.basename(path) in conf["fail_compile"]
    log("compile", file=os.path.realpath(path), std=std, lib=lib, flags=flags, ok=not bad)
    if bad:
        print("error: stand-in compile error in", path)
    leave(1 if bad else 0)


def simulate(entity, lib, generics, flags):
    cfg = {}
    for part in re.split(r"(?<!,),(?!,)", generics.pop("runner_cfg", "")):
        k, _, v = part.partition(" : ")
        cfg[k.strip()] = v.replace("::", ":").replace(",,", ",")
    generics.pop("output_path", None)
    generics.pop("tb_path", None)
    tests = [x for x in cfg.get("enabled_test_cases", "").split(",") if x]
    key = entity + "".join(f" {k}={v}" for k, v in sorted(generics.items()))
    how = next((h for k, h in conf["fail_sim"] if k == key), None)
    data = {n: os.path.exists(os.path.join(d, "data", "complete")) for n, d in conf["data"].get(entity, {}).items()}
    log("simulate", entity=entity, lib=lib, generics=generics, tests=tests, flags=flags, data=data, failing=how)
    time.sleep(conf["delay"])
    out = os.path.join(cfg["output path"], "vunit_results")
    with open(out, "w") as f:
        for k, t in enumerate(tests):
            f.write(f"test_start:{t}\n")
            if how == "last" and k == len(tests) - 1 or how == "crash":
                break
        else:
            f.write("test_suite_done\n")
    leave(1 if how else 0)


if tool == "ghdl":
    if argv[:1] == ["--version"]:
        log("version")
        print("GHDL 4.1.0 (stand-in) [Dunoon edition]\n Compiled with GNAT Version: 13.2.0\n GCC 13.2.0 code generator")
        leave(0)
    if argv[:1] in (["--help"], ["-h"]):
        leave(0)
    opt = dict(a[2:].split("=", 1) for a in argv if a.startswith("--") and "=" in a)
    if argv[0] == "-a":
        compile_file(argv[-1], {"93": "93", "02": "2002", "08": "2008"}.get(opt.get("std"), opt.get("std")), opt.get("work"), argv[1:-1])
    if argv[0] in ("--elab-run", "-e", "-r"):
        rest, skip = [], False
        for a in argv[1:]:
            if skip:
                skip = False
            elif a == "-o":
                skip = True
            elif not a.startswith("-"):
                rest.append(a)
        simulate(rest[0], opt.get("work"), dict(a[2:].split("=", 1) for a in argv if a.startswith("-g") and "=" in a), argv)
    log("other", argv=argv)
    leave(0)

if tool == "nvc":
    if argv[:1] == ["--version"]:
        log("version")
        print("nvc 1.14.0 (stand-in)")
        leave(0)
    opt = dict(a[2:].split("=", 1) for a in argv if a.startswith("--") and "=" in a)
    lib = opt.get("work", "").split(":")[0]
    std = {"1993": "93"}.get(opt.get("std"), opt.get("std"))
    if "--init" in argv:
        os.makedirs(opt["work"], exist_ok=True)
        leave(0)
    if "-a" in argv:
        compile_file(argv[-1], std, lib, argv[:-1])
    if "-e" in argv:
        tail = argv[argv.index("-e") + 1:]
        simulate([a for a in tail if not a.startswith("-")][0].split("-")[0], lib,
                 dict(a[2:].split("=", 1) for a in tail if a.startswith("-g") and "=" in a), argv)
    log("other", argv=argv)
    leave(0)

if tool == "vlib":
    os.makedirs(argv[-1], exist_ok=True)
    leave(0)

if tool == "vcom":
    std = next((a[1:] for a in argv if a in ("-93", "-2002", "-2008", "-87", "-2019")), None)
    compile_file(argv[-1], std, argv[argv.index("-work") + 1], argv[:-1])

if tool == "vcover":
    inputs = []
    if "-inputs" in argv:
        inputs = open(argv[argv.index("-inputs") + 1]).read().split("\n")
    log("vcover", argv=argv, target=os.path.realpath(argv[-1]), inputs=[x for x in inputs if x])
    try:
        open(argv[-1], "w").write("merged\n")
    except OSError as e:
        print("** Error: vcover:", e)
        leave(1)
    leave(0)

if tool == "vsim":
    if "-viewcov" in argv:
        d = argv[argv.index("-viewcov") + 1]
        log("viewcov", argv=argv, data=os.path.realpath(d), exists=os.path.exists(d),
            do=os.path.realpath(argv[argv.index("-do") + 1]) if "-do" in argv else None)
        leave(0)
    m = re.fullmatch(r'source "(.*)"', argv[argv.index("-do") + 1]) if "-do" in argv else None
    if m:
        path = m.group(1).replace("\\ ", " ")
        if os.path.basename(path) == "batch_optimize.do":
            opt = open(os.path.join(os.path.dirname(path), "optimize.do")).read()
            log("optimize", design=re.search(r"(\w+)\.(\w+)(\(\w+\))? -work", opt).group(2))
            leave(0)
        common = open(os.path.join(os.path.dirname(path), "common.do")).read()
        load = re.search(r"eval vsim \$\{vsim_extra_args\} \{(.*)\}\n", common).group(1)
        gens, ent = {}, None
        for mt in re.finditer(r'-g/(\w+)/(\w+)=(\{"(.*?)"\}|"(.*?)"|\S+)', load):
            ent = mt.group(1)
            gens[mt.group(2)] = mt.group(4) or mt.group(5) or mt.group(3)
        cov = re.search(r"coverage save .*\{(.*?)\}\n", common)
        if cov:
            open(cov.group(1).replace("\\ ", " "), "w").write("coverage\n")
        simulate(ent, re.search(r"-work (\S+)", load).group(1), gens, load.split())
    log("other", argv=argv)
    leave(0)

log("other", argv=argv)
leave(0)
