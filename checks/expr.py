"""C02: expressions are grouped by operator precedence, associativity and parentheses."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
from xv import Values

PREC = {"*": 10, "/": 10, "%": 10, "+": 9, "-": 9, "<<": 8, ">>": 8, "<": 7, "<=": 7, ">": 7, ">=": 7, "==": 6, "!=": 6,
        "&": 5, "^": 4, "|": 3, "&&": 2, "||": 1}
FN = {"*": "MUL", "/": "DIV", "%": "MOD", "+": "ADD", "-": "SUB", "<<": "SHL", ">>": "SHR"}
ARITH = ["+", "-", "*", "/", "%", "<<", ">>", "&", "^", "|"]
REL = ["<", "<=", ">", ">="]
EQ = ["==", "!="]
LOG = ["&&", "||"]
BIN = ARITH + REL + EQ + LOG

REF = """
static i32 DIV(i32 a, i32 b) { if (b == 0 || (a == INT32_MIN && b == -1)) { skip = 1; return 0; } return a / b; }
static i32 MOD(i32 a, i32 b) { if (b == 0 || (a == INT32_MIN && b == -1)) { skip = 1; return 0; } return a % b; }
static i32 ADD(i32 a, i32 b) { return a + b; }
static i32 SUB(i32 a, i32 b) { return a - b; }
static i32 MUL(i32 a, i32 b) { return a * b; }
static i32 SHL(i32 a, i32 b) { if (b < 0 || b > 31) { skip = 1; return 0; } return (i32)((u32)a << b); }
static i32 SHR(i32 a, i32 b) { if (b < 0 || b > 31) { skip = 1; return 0; } return a >> b; }
static i32 FN1(i32 a) { return a * 3 + 1; }
"""


class P:
    """Reference parser: list of tokens -> tree. Trees: ('v', k) leaf, (op, l, r), ('u', op, x), ('?', c, a, b)"""

    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def ternary(self):
        c = self.binary(0)
        if self.peek() == "?":
            self.next()
            a = self.ternary()
            assert self.next() == ":"
            b = self.ternary()
            return ("?", c, a, b)
        return c

    def binary(self, mn):
        l = self.unary()
        while self.peek() in PREC and PREC[self.peek()] > mn:
            op = self.next()
            l = (op, l, self.binary(PREC[op]))
        return l

    def unary(self):
        if self.peek() in ("-", "~", "!", "+"):
            op = self.next()
            return ("u", op, self.unary())
        return self.postfix()

    def postfix(self):
        t = self.next()
        if t == "(":
            x = self.ternary()
            assert self.next() == ")"
        elif t == "fn(":
            x = ("call", self.ternary())
            assert self.next() == ")"
        else:
            x = ("v", t)
        while self.peek() in ("as",):
            self.next()
            x = ("as", self.next(), x)
        return x


class Ill(Exception):
    pass


def ty(t, leaf):
    """type of a tree; leaves get a type by unification: returns 'i', 'b' or None (free leaf)"""
    k = t[0]
    if k == "v":
        return leaf.get(t[1])
    if k == "u":
        want = "b" if t[1] == "!" else "i"
        need(t[2], want, leaf)
        return want
    if k == "call":
        need(t[1], "i", leaf)
        return "i"
    if k == "as":
        need(t[2], "i", leaf)
        return "i"
    if k == "?":
        need(t[1], "b", leaf)
        a, b = ty(t[2], leaf), ty(t[3], leaf)
        r = a or b or "i"
        need(t[2], r, leaf)
        need(t[3], r, leaf)
        return r
    if k in ARITH:
        need(t[1], "i", leaf)
        need(t[2], "i", leaf)
        return "i"
    if k in REL:
        need(t[1], "i", leaf)
        need(t[2], "i", leaf)
        return "b"
    if k in LOG:
        need(t[1], "b", leaf)
        need(t[2], "b", leaf)
        return "b"
    a, b = ty(t[1], leaf), ty(t[2], leaf)
    r = a or b or "i"
    need(t[1], r, leaf)
    need(t[2], r, leaf)
    return "b"


def need(t, want, leaf):
    g = ty(t, leaf)
    if g is None:
        leaf[t[1]] = want
    elif g != want:
        raise Ill()


def cref(t):
    k = t[0]
    if k == "v":
        return t[1]
    if k == "u":
        return "(%s(%s))" % (t[1], cref(t[2]))
    if k == "call":
        return "FN1(%s)" % cref(t[1])
    if k == "as":
        return "((i32)(%s)%s)" % (t[1], cref(t[2]))
    if k == "?":
        return "((%s) ? (%s) : (%s))" % (cref(t[1]), cref(t[2]), cref(t[3]))
    if k in FN:
        return "%s(%s, %s)" % (FN[k], cref(t[1]), cref(t[2]))
    return "((%s) %s (%s))" % (cref(t[1]), k, cref(t[2]))


def text(toks, space=True):
    out = ""
    for a in toks:
        if not space and out and not (re.match(r"\w", a[0]) and re.match(r"\w", out[-1])) and not (a[0] in "+-&|<>=" and out[-1] == a[0]) and a not in "?:":
            out += a
        elif a == ")" or out.endswith("(") or not out:
            out += a
        else:
            out += " " + a
    return out


def case(kind, toks, space=True, stmt=None):
    p = P(toks)
    tree = p.ternary()
    assert p.i == len(toks), toks
    leaf = {}
    try:
        t = ty(tree, leaf)
        if t is None:
            return None
    except Ill:
        return None
    names = sorted(set(x for x in toks if re.fullmatch(r"[a-f]", x)))
    ins = ["small" if leaf.get(n, "i") == "i" else "bool" for n in names]
    src = text(toks, space)
    decl = "".join("var %s = x%s(%d`i32); " % (n, i, k) for k, (n, i) in enumerate(zip(names, ins)))
    rdecl = "".join("%s %s = x%s(%d); " % ("i32" if i == "small" else "bool", n, i, k) for k, (n, i) in enumerate(zip(names, ins)))
    o = "oi(%s as i64); " if t == "i" else "ob(%s); "
    ro = "oi(%s); "
    if stmt is None:
        body = decl + "var r = %s; " % src + o % "r"
        ref = rdecl + "i32 r = %s; SKIP(skip); " % cref(tree) + ro % "r"
    else:
        st = stmt(src, cref(tree), t)
        if st is None:
            return None
        body = decl + st[0]
        ref = rdecl + st[1]
    return dict(key="%s:%s" % (kind, src.replace(" ", "_")), ins=ins, body=body, ref=ref)


V = "abcdef"


def interleave(ops, par=()):
    """operands a, b, ... with ops between; par: (first operand, last operand) groups"""
    toks = []
    for k in range(len(ops) + 1):
        toks += ["("] * sum(1 for s, e in par if s == k)
        toks.append(V[k])
        toks += [")"] * sum(1 for s, e in par if e == k)
        if k < len(ops):
            toks.append(ops[k])
    return toks


PARS = {1: [(), ((0, 1),)], 2: [(), ((0, 1),), ((1, 2),)],
        3: [(), ((0, 1),), ((1, 2),), ((2, 3),), ((0, 2),), ((1, 3),), ((0, 1), (2, 3))]}


def binaries(thorough):
    for n in (1, 2, 3):
        for ops in itertools.product(BIN, repeat=n):
            for par in PARS[n]:
                if n == 3 and par and not thorough:
                    # parenthesised triples: one representative per precedence level
                    if any(o in ("/", "%", "-", ">>", "<=", ">", ">=", "!=") for o in ops):
                        continue
                yield "bin%d" % n, interleave(ops, par), True, None
                if n < 3:
                    yield "tight%d" % n, interleave(ops, par), False, None
    if thorough:
        rep = ["*", "+", "<<", "<", "==", "&", "^", "|", "&&", "||", "-"]
        for ops in itertools.product(rep, repeat=4):
            yield "bin4", interleave(ops), True, None


def unaries(thorough):
    U = ["-", "~", "!", "+"]
    for op in BIN:
        for u in itertools.product(["", "-", "~", "!", "--", "!!", "~-", "-~"], repeat=2):
            if not any(u):
                continue
            toks = list(u[0]) + ["a", op] + list(u[1]) + ["b"]
            yield "un", toks, True, None
            toks = list(u[0]) + ["(", "a", op] + list(u[1]) + ["b", ")"]
            yield "ung", toks, True, None
            if thorough:
                for op2 in BIN:
                    yield "un3", list(u[0]) + ["a", op] + list(u[1]) + ["b", op2, "c"], True, None
        for u in U:
            yield "uncall", [u, "fn(", "a", ")", op, "b"], True, None
            yield "uncall", ["b", op, u, "fn(", "a", ")"], True, None
            yield "uncall", [u, "fn(", "a", op, "b", ")"], True, None
        for t in ("i8", "u8", "i32"):
            yield "as", ["a", op, "b", "as", t], True, None
            yield "as", ["(", "a", op, "b", ")", "as", t], True, None
            if op != "|":  # `a as T | b` reads as the union type T | b
                yield "as", ["a", "as", t, op, "b"], True, None
                yield "as", ["-", "a", "as", t, op, "b"], True, None


def ternaries(thorough):
    for op in BIN:
        for op2 in BIN:
            yield "tern", ["a", op, "b", "?", "c", ":", "d", op2, "e"], True, None
            yield "tern", ["a", op, "b", "?", "c", op2, "d", ":", "e"], True, None
            yield "tern", ["a", "?", "b", op, "c", ":", "d", op2, "e"], True, None
            yield "terng", ["a", op, "(", "b", "?", "c", ":", "d", ")", op2, "e"], True, None
        yield "tern2", ["a", "?", "b", ":", "c", "?", "d", ":", "e", op, "f"], True, None
        yield "tern2", ["a", "?", "b", "?", "c", ":", "d", ":", "e", op, "f"], True, None
        yield "tern2", ["a", op, "b", "?", "c", ":", "d", "?", "e", ":", "f"], True, None


def assigns(thorough):
    def plain(src, ref, t):
        T = "x%s(0`i32)" % ("i32" if t == "i" else "bool")
        o = "oi(r as i64); " if t == "i" else "ob(r); "
        return "var r = %s; r = %s; " % ("0`i32" if t == "i" else "false", src) + o, "i32 r = %s; SKIP(skip); oi(r); " % ref

    def chain(src, ref, t):
        if t != "i":
            return None
        return "var q = 0`i32; var r = 1`i32; q = r = %s; oi(q as i64); oi(r as i64); " % src, "i32 r = %s; SKIP(skip); oi(r); oi(r); " % ref

    def comp(cop):
        def f(src, ref, t):
            if t != "i":
                return None
            return "var r = 7`i32; r %s= %s; oi(r as i64); " % (cop, src), "i32 r = 7; i32 w = %s; SKIP(skip); r = %s; SKIP(skip); oi(r); " % (
                ref, "%s(r, w)" % FN[cop] if cop in FN else "r %s w" % cop)
        return f

    def ret(src, ref, t):
        return None

    def cond(src, ref, t):
        if t != "b":
            return None
        return "if (%s) { oi(1`i64); } else { oi(2`i64); } while (%s) { oi(3`i64); break; } " % (src, src), \
            "i32 r = %s; SKIP(skip); oi(r ? 1 : 2); if (r) oi(3); " % ref

    def arg(src, ref, t):
        if t != "i":
            return None
        return "oi(fn(%s) as i64); oi(fn2(%s, %s) as i64); " % (src, src, src), "i32 r = %s; SKIP(skip); oi(FN1(r)); oi(r - FN1(r)); " % ref

    for op in BIN:
        for st in (plain, chain, cond, arg) + tuple(comp(c) for c in ARITH):
            n = getattr(st, "__name__", "f")
            yield "st_" + n, ["a", op, "b"], True, st
            if st in (plain, chain, cond, arg):
                yield "st_" + n, ["a", "?", "b", ":", "c", op, "d"], True, st
                for op2 in BIN:
                    yield "st_" + n, ["a", op, "b", op2, "c"], True, st
        for c in ARITH:
            yield "st_" + c, ["a", op, "b", "?", "c", ":", "d"], True, comp(c)


FAMS = dict(binaries=binaries, unaries=unaries, ternaries=ternaries, assigns=assigns)


def body():
    c = Check("C02")
    cxy = build_compiler()
    cases = []
    for n, f in FAMS.items():
        if os.environ.get("FAM") and n not in os.environ["FAM"].split(","):
            continue
        k0 = len(cases)
        for kind, toks, sp, st in f(c.thorough):
            k = case(kind, toks, sp, st)
            if k is None:
                continue
            i = k["id"] = len(cases)
            k["decl"] = "func fn_%d(): void { %s}\n" % (i, k["body"])
            cases.append(k)
        c.cov[n] = len(cases) - k0
    Values(c, cxy, refhead=REF, head="func fn(a: i32): i32 { return a * 3`i32 + 1`i32 }\nfunc fn2(a: i32, b: i32): i32 { return a - fn(b) }\n").run_all(cases, size=400)
    c.cov["programs"] = len(cases)
    c.assumptions = ["inputs on which the expression divides by zero, overflows a division or shifts out of range are not constrained"]
    for i in (0, len(cases) // 2, -1):
        c.sample(cases[i]["decl"])
    c.finish()


main(body)
