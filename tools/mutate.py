"""Mutation campaign (development tool, not a registered check): applies small token mutations to a scratch copy
of the repository and records which checks notice.   python mutate.py OUT.jsonl FILE CHECK,CHECK.. [lo-hi] [step]
Runs from a copy of /verif (it sets VERIF_REPO)."""
import io, json, os, re, shutil, subprocess, sys, tempfile, tokenize

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, rel, checks = sys.argv[1:4]
lo, hi = (int(x) for x in sys.argv[4].split("-")) if len(sys.argv) > 4 else (1, 10**9)
step = int(sys.argv[5]) if len(sys.argv) > 5 else 1
checks = checks.split(",")
SWAP = {"+": ["-"], "-": ["+"], "*": ["+"], ">": [">=", "<"], "<": ["<=", ">"], ">=": [">"], "<=": ["<"], "==": ["!="],
        "!=": ["=="], "and": ["or"], "or": ["and"], "True": ["False"], "False": ["True"], "max": ["min"], "min": ["max"],
        "0": ["1"], "1": ["0", "2"], "2": ["1"], "not": [""], "0.0": ["1.0"], "0.5": ["0.25"], "%": ["//"], "//": ["/"],
        "floor": ["ceil"], ">>": ["<<"], "np.any": ["np.all"], "any": ["all"], "if": [], "53": ["52", "54"], "64": ["63"],
        "/=": ["="], "=": [], "'0'": ["'1'"], "'1'": ["'0'"], "downto": [], "'left": ["'right"], "'high": ["'low"], "'low": ["'high"],
        "'right": ["'left"], "true": ["false"], "false": ["true"], "maximum": ["minimum"], "minimum": ["maximum"],
        "signed": ["unsigned"], "unsigned": ["signed"], "rising_edge": ["falling_edge"], "choose": []}


def py_mutants(src):
    toks = list(tokenize.generate_tokens(io.StringIO(src).readline))
    lines = src.splitlines(keepends=True)
    for t in toks:
        if t.type in (tokenize.OP, tokenize.NAME, tokenize.NUMBER) and t.string in SWAP:
            for r in SWAP[t.string]:
                (y, x), (_, x2) = t.start, t.end
                l = lines[y - 1]
                if l.lstrip().startswith(("import", "from", "def ", "class")) and t.type != tokenize.NUMBER:
                    continue
                yield y, l[:x] + r + l[x2:], f"{t.string}->{r}"
    for y, l in enumerate(lines, 1):
        s = l.strip()
        if re.match(r"(assert|warnings\.warn|[A-Za-z_.\[\], ]+ (=|[+]=|>>=) )", s) and s.count("(") == s.count(")") and s.count("[") == s.count("]"):
            yield y, l[:len(l) - len(l.lstrip())] + "pass" + l[len(l.rstrip()):], "delete"


def vhd_mutants(src):
    rx = re.compile(r"--.*|\"[^\"\n]*\"|'[01]'|'(?:left|right|high|low)\b|/=|>=|<=|=>|:=|\*\*|[-+*<>]|\b\d+\.?\d*\b|\b[A-Za-z_]\w*\b")
    for y, l in enumerate(src.splitlines(keepends=True), 1):
        if re.match(r"\s*(library|use|function|procedure|type|subtype|end\b)", l):
            continue
        for m in rx.finditer(l):
            s = m.group()
            if s.startswith(("--", '"')):
                continue
            if s == "<=" and re.match(r"\s*\w+(\([^)]*\))?\s*<=", l):
                continue
            for r in SWAP.get(s, []) if s != "==" else []:
                yield y, l[:m.start()] + r + l[m.end():], f"{s}->{r}"
        s = l.strip()
        if re.match(r"(\w+(\([^)]*\))?\s*:=|\w+\(.*\);|report|wait)", s) and s.split("--")[0].rstrip().endswith(";"):
            yield y, l[:len(l) - len(l.lstrip())] + "null;" + l[len(l.rstrip()):], "delete"


REPO = os.environ.get("MUT_BASE", "/repo")
work = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
repo = os.path.join(work, "repo")
subprocess.run(["cp", "-a", REPO, repo], check=True)
p = os.path.join(repo, rel)
with open(p, newline="") as f:
    src = f.read()
muts = list((py_mutants if rel.endswith(".py") else vhd_mutants)(src))
muts = [m for m in muts if lo <= m[0] <= hi][::step]
lines = src.splitlines(keepends=True)
print(len(muts), "mutants", flush=True)
env = dict(os.environ, VERIF_REPO=repo)
k = 0
for y, new, how in muts:
    code = lines[y - 1].split("--")[0] if rel.endswith(".vhd") else lines[y - 1]
    if new == lines[y - 1]:
        continue
    with open(p, "w", newline="") as f:
        f.write("".join(lines[:y - 1]) + new + "".join(lines[y:]))
    if rel.endswith(".py"):
        try:
            compile(open(p).read(), p, "exec")
        except SyntaxError:
            continue
    elif not os.environ.get("MUT_NOCOMP"):
        t = tempfile.mkdtemp(dir=work)
        dep = [x for x in os.environ.get("MUT_DEPS", "").split() if x]
        r = subprocess.run(["ghdl", "-a", "--std=08", "-frelaxed", f"--workdir={t}"] + [os.path.join(repo, d) for d in dep] + [p],
                           cwd=t, env=dict(env, GHDL_BACKEND="gcc"), capture_output=True)
        shutil.rmtree(t)
        if r.returncode:
            continue
    res = {}
    for c, sc in [(c, "0.15") for c in checks] + [(c, "1") for c in checks]:
        try:
            r = subprocess.run(["./check", c], cwd=HERE, env=dict(env, VERIF_SCALE=sc, VERIF_FAIL_FAST="1"), capture_output=True, text=True, timeout=900)
            res[c] = r.returncode
        except subprocess.TimeoutExpired:
            res[c] = -1
        if res[c] == 1 or res[c] == 2 and os.environ.get("MUT_NOCOMP"):
            break
    rec = {"file": rel, "line": y, "how": how, "old": lines[y - 1].strip(), "new": new.strip(), "res": res,
           "killed": [c for c in res if res[c] == 1]}
    with open(out, "a") as f:
        f.write(json.dumps(rec) + "\n")
    k += 1
    if not rec["killed"]:
        print("SURVIVED", y, how, "|", new.strip(), res, flush=True)
shutil.rmtree(work)
print("done", k)
