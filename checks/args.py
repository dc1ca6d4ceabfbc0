"""C16: the command line selects the command, the options and the input files it says."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

CORE = ["src/cxy/core/%s.c" % f for f in ("alloc", "args", "array", "format", "hash", "hmap", "htable", "log", "mempool", "sb", "strpool", "utils", "e4c")]
STAGES = "Parse Preprocess Shake Bind ConstCheck TypeCheck Simplify MemoryMgmt Lower Finalize Codegen Collect Compile".split()
WARN = ["MissingStage", "UnusedVariable", "RedundantStmt", "CMacroRedefine", "CUnsupportedField", "MaybeUninitialized"]
WALL = (1 << 63) - 1
WDEF = WALL & ~((1 << 0) | (1 << 3) | (1 << 5))


class Bad(Exception):
    pass


def integer(v):
    m = re.fullmatch(r"\s*[+-]?(0[xX][0-9a-fA-F]+|0[0-7]*|[1-9][0-9]*)", v)
    if not m:
        raise Bad(v)
    n = v.strip()
    n = int(n, 16) if "x" in n.lower() else int(n, 8) if re.fullmatch("[+-]?0[0-7]+", n) else int(n)
    if not -2**63 <= n < 2**63:
        raise Bad(v)
    return n


def enum(names):
    def f(v):
        if v not in names:
            raise Bad(v)
        return names.index(v)
    return f


def stage(v):
    if v not in STAGES:
        raise Bad(v)
    return v


def opt(v):
    m = {"0": "0", "d": "0", "1": "1", "2": "2", "3": "3", "s": "s"}
    if v not in m:
        raise Bad(v)
    return m[v]


def define(v):
    m = re.fullmatch(r"\s*([A-Za-z_][A-Za-z0-9_]*)(=(.*))?", v, re.S)
    if not m:
        raise Bad(v)
    return "%s:%s" % (m.group(1), "-" if m.group(2) is None else m.group(3))


def item(v):
    if not v:
        raise Bad(v)
    return v


def warnings(v):
    w = WDEF
    parts = [x for x in v.split("|")]
    for p in parts:
        p = p.strip()
        neg = p.startswith("~")
        n = p[1:].strip() if neg else p
        if n in ("All", "None"):
            return WALL if n == "All" else 0
        if n not in WARN:
            raise Bad(v)
        w = w & ~(1 << WARN.index(n)) if neg else w | 1 << WARN.index(n)
    return w


FLAG = None
GLOBAL = {  # name: (short, conversion, accumulates)
    "version": ("v", FLAG), "help": ("h", FLAG), "max-errors": ("", integer), "warnings": ("", lambda v: v), "warnings-all": ("", FLAG), "no-color": ("", FLAG),
    "without-builtins": ("", FLAG), "cflags": ("", item, 1), "no-pie": ("", FLAG), "optimization": ("O", opt), "define": ("D", define, 1), "with-mm": ("", FLAG),
    "c-define": ("", item, 1), "c-header-dir": ("", item, 1), "c-lib-dir": ("", item, 1), "c-lib": ("", item, 1), "debug": ("g", FLAG), "debug-pass-manager": ("", FLAG),
    "passes": ("", lambda v: v), "load-pass-plugin": ("", item, 1), "dump-stats": ("", enum(["NONE", "SUMMARY", "FULL"])), "no-progress": ("", FLAG), "stdlib": ("", lambda v: v)}
LOCAL = {"dev": {"last-stage": ("", stage), "dump-ast": ("", enum(["NONE", "JSON", "YAML", "CXY"])), "clean-ast": ("", FLAG), "with-location": ("", FLAG), "without-attrs": ("", FLAG),
                 "with-named-enums": ("", FLAG), "output": ("o", lambda v: v), "print-ir": ("", FLAG), "emit-assembly": ("", FLAG), "emit-bitcode": ("", FLAG)},
         "build": {"output": ("o", lambda v: v), "build-dir": ("", lambda v: v)}, "test": {"build-dir": ("", lambda v: v)}, "help": {}}


def expect(argv, stages):
    """the result line, or None when it is not constrained"""
    a = list(argv)
    cmd = "dev"
    if a and a[0] in LOCAL:
        cmd = a.pop(0)
    flags = dict(GLOBAL)
    flags.update(LOCAL[cmd])
    val, files = {}, []
    i = 0
    while i < len(a):
        x = a[i]
        i += 1
        if x in ("--", "-", ""):
            return None
        v = None
        if x.startswith("--"):
            name = x[2:]
            if "=" in name:
                name, v = name.split("=", 1)
                v = v.lstrip()
            if name not in flags:
                return "error 1"
        elif x.startswith("-"):
            name = [n for n in flags if flags[n][0] == x[1]]
            if not name:
                return "error 1"
            name = name[0]
            v = x[2:] or None
        else:
            files.append(x)
            if cmd == "help" and len(files) > 1:
                return "error 1"
            continue
        f = flags[name]
        if f[1] is FLAG:
            if v is not None:
                return "error 1"
            val[name] = True
            continue
        if v is None:
            if i >= len(a):
                return "error 1"
            v = a[i]
            i += 1
        if v == "" and f[1] not in (item, define, stage, opt):
            return None
        try:
            v = f[1](v)
        except Bad:
            return "error 1"
        if len(f) > 2:
            val.setdefault(name, []).append(v)
        else:
            val[name] = v
    if val.get("version") or val.get("help"):
        return "exit 0"
    if cmd == "help":
        return "error 0"
    w = WALL if val.get("warnings-all") else WDEF
    if "warnings" in val:
        if val.get("warnings-all"):
            return None
        try:
            w = warnings(val["warnings"])
        except Bad:
            return "error 1"
    if not files:
        return "error 1"
    b = lambda n: int(bool(val.get(n)))
    l = lambda n: "[%s]" % ",".join(val.get(n, []))
    r = "ok cmd=%s files=[%s] maxErrors=%d noStyle=%d warnings=%x progress=%d O=%s mm=%d g=%d pie=%d builtins=%d stats=%d stdlib=%s passes=%s dpm=%d cflags=%s cdefs=%s dirs=%s libdirs=%s libs=%s plugins=%s defs=[%s] out=%s dir=%s" % (
        cmd, ",".join(files), val.get("max-errors", 10) % 2**64, b("no-color"), w, 1 - b("no-progress"), val.get("optimization", "0"), b("with-mm"), b("debug"), 1 - b("no-pie"), 1 - b("without-builtins"),
        val.get("dump-stats", 1), val.get("stdlib", "-"), val.get("passes", "-"), b("debug-pass-manager"), l("cflags"), "[%s]" % ",".join(["-D_XOPEN_SOURCE=1", "-D_DEFAULT_SOURCE"] + val.get("c-define", [])), l("c-header-dir"),
        l("c-lib-dir"), l("c-lib"), l("load-pass-plugin"), ",".join(["UNIX:1"] + val.get("define", [])), val.get("output", "app" if cmd == "build" else "-"), val.get("build-dir", "-"))
    if cmd == "dev":
        last, dump = STAGES.index(val.get("last-stage", "Compile")), val.get("dump-ast", 0)
        ir, bc, asm = b("print-ir"), b("emit-bitcode"), b("emit-assembly")
        if bc or asm:
            last, dump, ir, asm = STAGES.index("Compile"), 0, 0, 0 if bc else 1
        elif ir:
            last, dump = STAGES.index("Codegen"), 0
        elif dump:
            last = min(last, STAGES.index("Lower"))
        r += " last=%s dump=%d ir=%d bc=%d asm=%d clean=%d loc=%d attrs=%d" % (stages[last], dump, ir, bc, asm, b("clean-ast"), b("with-location"), b("without-attrs"))
    return r


TOKENS = [["b.cxy"], ["--max-errors=5"], ["--max-errors", "7"], ["--max-errors=x"], ["--no-color"], ["--no-color=1"], ["-O2"], ["-O", "s"], ["--optimization=3"], ["-O9"], ["-DX"], ["-DY=1"], ["-D", "Z=a=b"],
          ["--define=W"], ["-D1"], ["--with-mm"], ["--c-define=Q"], ["--c-lib-dir=/l"], ["--c-lib=m"], ["--c-header-dir", "/i"], ["-g"], ["--dump-stats=FULL"], ["--dump-stats", "NO"], ["--no-progress"],
          ["--stdlib=/s"], ["-o", "out"], ["-oo2"], ["--output=o=3"], ["--build-dir=bd"], ["--last-stage=Parse"], ["--last-stage", "Lower"], ["--dump-ast=CXY"], ["--print-ir"], ["--emit-assembly"], ["--emit-bitcode"],
          ["--warnings=~UnusedVariable"], ["--warnings-all"], ["--unknown"], ["-z"], ["--cflags=-Wall"], ["--cflags", "-g"], ["--load-pass-plugin=p.so"], ["--no-pie"], ["--without-builtins"], ["--help"], ["-v"],
          ["build"], ["--clean-ast"], ["--with-location"], ["--without-attrs"], ["--passes=a,b"], ["--debug-pass-manager"], ["--max-errors"], ["-D"], ["--output"]]


def argvs(thorough):
    for cmd in ([], ["dev"], ["build"], ["test"]):
        for n in (0, 1, 2):
            for seq in itertools.product(TOKENS, repeat=n):
                flat = [x for t in seq for x in t]
                yield cmd + flat
                for k in range(n + 1):
                    yield cmd + [x for t in seq[:k] for x in t] + ["a.cxy"] + [x for t in seq[k:] for x in t]
        for seq in itertools.product(TOKENS, repeat=3):
            yield cmd + [x for t in seq for x in t] + ["a.cxy"]
        if thorough:
            for seq in itertools.product(TOKENS[:28], repeat=4):
                yield cmd + ["a.cxy"] + [x for t in seq for x in t]
    for seq in itertools.product(TOKENS + [["dev"], ["help"], ["test"]], repeat=2):
        yield ["help"] + [x for t in seq for x in t]
    # names: exactly these, no prefix, no extension, for every command
    for cmd in LOCAL:
        names = set(GLOBAL) | {n for l in LOCAL.values() for n in l}
        near = set(names)
        for n in names:
            near |= {n[:k] for k in range(1, len(n))} | {n + "x", n + "s", n.upper(), n.replace("-", "_")} | {n[:k] + n[k + 1:] for k in range(len(n))}
        for n in sorted(near):
            for tail in ([], ["=1"], ["=Parse"], ["=X"]):
                yield [cmd, "a.cxy", "--" + n + "".join(tail)]
            yield [cmd, "a.cxy", "--" + n, "2"]
        for ch in range(33, 127):
            yield [cmd, "a.cxy", "-" + chr(ch)]
            yield [cmd, "a.cxy", "-" + chr(ch) + "1"]
            yield [cmd, "a.cxy", "-" + chr(ch), "d"]
    # values
    for v in ["0", "1", "00", "0x1f", "010", "-1", "2147483647", "1e3", "1.5", "5 ", " 5", "x", "0x", "08", "9223372036854775808", "99999999999999999999", "+3", "1k"]:
        yield ["build", "a.cxy", "--max-errors=" + v]
        yield ["build", "a.cxy", "--max-errors", v]
        yield ["--max-errors=" + v, "a.cxy", "--max-errors=4"]
    for n in "A a _ _a A1 A=1 A= A=b=c A=-x 1A -A A-B A.B =1 =".split() + ["A B", "A=a b", "", "A=\t"]:
        yield ["build", "a.cxy", "-D" + n]
        yield ["build", "a.cxy", "-D", n]
        yield ["build", "a.cxy", "--define=" + n, "-DLAST"]
    for s in STAGES + [x.lower() for x in STAGES] + ["", "Comp", "Compiler", "None", "{s}", "%s", "{"]:
        yield ["a.cxy", "--last-stage=" + s]
        yield ["a.cxy", "--last-stage", s]
        yield ["a.cxy", "--dump-ast=" + s]
        for d in ("NONE", "JSON", "YAML", "CXY"):
            yield ["a.cxy", "--last-stage=" + s, "--dump-ast=" + d]
            yield ["a.cxy", "--last-stage=" + s, "--dump-ast=" + d, "--print-ir"]
    for o in ["0", "1", "2", "3", "s", "d", "4", "z", "", "00", "ss", "S"]:
        yield ["a.cxy", "-O" + o]
        yield ["a.cxy", "-O", o]
        yield ["a.cxy", "--optimization=" + o]
    atoms = WARN[:4] + ["~" + w for w in WARN[1:]] + ["Unknown"]
    for n in (1, 2, 3):
        for seq in itertools.product(atoms, repeat=n):
            yield ["a.cxy", "--warnings=" + "|".join(seq)]
            if n == 2:
                yield ["a.cxy", "--warnings= %s | %s" % seq]
                yield ["a.cxy", "--warnings", "%s |%s" % seq]
    for w in ("All", "None"):
        yield ["a.cxy", "--warnings=" + w]
    # lengths
    for n in list(range(1, 260, 1 if thorough else 5)) + [1000]:
        x = "k" * n
        yield ["a.cxy", "--" + x]
        yield ["a.cxy", "-" + "z" * n]
        for o in ("max-errors", "define", "last-stage", "dump-stats", "optimization", "c-lib", "stdlib", "warnings", "no-color"):
            yield ["a.cxy", "--%s=%s" % (o, x)]
        yield [x, x + "2"]
        yield ["help", x, x]


def body():
    c = Check("C16")
    exe = build_harness("args", os.path.join(VERIF, "checks/c/args.c"), CORE + ["src/cxy/driver/options.c"], ldflags=("-Wl,--wrap=exit", "-Wl,--wrap=popen", "-Wl,--wrap=pclose"))
    # the values of the stages in the compiler, from the parser itself
    probe = run([exe], stdin="".join("a.cxy\1--last-stage=%s\n" % s for s in STAGES).encode())[1].decode()
    nums = re.findall(r" last=(\d+) ", probe)
    if len(nums) != len(STAGES) or [int(x) for x in nums] != sorted({int(x) for x in nums}):
        c.violation("stages", "the stages of --last-stage are not selected in order: %s" % nums, probe)
        c.finish()
    seen, cases = set(), []
    for a in argvs(c.thorough):
        t = tuple(a)
        if t not in seen and not any("\n" in x for x in a):
            seen.add(t)
            cases.append(t)
    size = 20000
    chunks = [cases[i:i + size] for i in range(0, len(cases), size)]

    def job(ch):
        rc, o, e, _ = run([exe], stdin="".join("\1".join(t) + "\n" for t in ch).encode(), timeout=600)
        return ch, rc, o.decode(errors="replace").split("\n")[:-1], e.decode(errors="replace")
    n = kinds = 0
    per = {"ok": 0, "error": 0, "exit": 0, "free": 0}
    for ch, rc, got, err in pmap(job, chunks):
        if rc != 0 or len(got) != len(ch):
            t = ch[min(len(got), len(ch) - 1)]
            c.violation("crash:%s" % " ".join(t)[:60], "the command line parser stopped (rc=%s) near %r" % (rc, [x[:60] for x in t]), "argv: %r\n%s" % (t, err[-3000:]))
        for t, g in zip(ch, got):
            w = expect(t, nums)
            if w is None:
                per["free"] += 1
                continue
            per[w.split()[0]] += 1
            g = re.sub(r" named=\d+$", "", g)
            if g != w:
                gw, ww = g.split(), w.split()
                d = next((i for i in range(min(len(gw), len(ww))) if gw[i] != ww[i]), -1)
                c.violation("args:%s" % " ".join(t)[:80], "%r: %s instead of %s" % ([x[:60] for x in t], gw[d] if len(gw) > 1 else g, ww[d] if len(ww) > 1 else w), "argv: %r\nwant: %s\ngot:  %s" % (t, w, g))
    c.count(states=len(cases), transitions=sum(len(t) for t in cases), traces=len(cases) - per["free"])
    c.cov["command_lines"] = per
    c.assumptions = ["arguments after --, empty arguments and empty values of text options are only required to be handled safely"]
    c.finish()


main(body)
