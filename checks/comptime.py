"""C05: compile-time evaluation computes what the same code would compute."""
import itertools, math, os, sys
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
from xv import Values

I64 = (1 << 63) - 1
INTS = [0, 1, 2, 3, 7, 10, 255, 256, 65535, 2147483647, 2147483648, 4294967295, (1 << 53) + 1, I64, 1 << 63, (1 << 64) - 1]
NEG = [-1, -2, -7, -128, -2147483648, -(1 << 53) - 1, -I64]
FLT = [0.5, 2.25, 3.0, 1e10, 0.1, 100.75]
CHR = ["a", "b", "0", "\u00e9"]
STR = ["", "a", "ab", "b", "z%"]


class Bad(Exception):
    """not constrained"""


class Ch(int):
    pass


def lit(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, Ch):
        return "'%s'" % chr(v)
    if isinstance(v, float):
        return repr(v) if "e" not in repr(v) else "%.1f" % v
    if isinstance(v, str):
        return '"%s"' % v
    return str(v)


def rng(v):
    if not -(1 << 63) <= v < (1 << 64):
        raise Bad()
    return v


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def apply(op, a, b):
    """value of a op b; raises Bad where the language does not say"""
    sa, sb = isinstance(a, str), isinstance(b, str)
    if op in ("&&", "||"):
        if sa or sb:
            raise Bad()
        return bool(a) and bool(b) if op == "&&" else bool(a) or bool(b)
    if sa != sb and not (sa and op == "+"):
        raise Bad()
    if op in ("==", "!=", "<", "<=", ">", ">="):
        if sa:
            x, y = a.encode(), b.encode()
        else:
            x, y = (Fraction(v) if isinstance(v, float) else int(v) for v in (a, b))
        return {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
    if sa:
        if op != "+":
            raise Bad()
        if isinstance(b, float):
            raise Bad()
        if isinstance(b, bool):
            return a + ("true" if b else "false")
        if isinstance(b, Ch):
            return a + chr(b)
        return a + str(b)
    if isinstance(a, bool) or isinstance(b, bool):
        raise Bad()
    if isinstance(a, float) or isinstance(b, float):
        if op not in "+-*/":
            raise Bad()
        x, y = float(a), float(b)
        if isinstance(a, Ch) or isinstance(b, Ch):
            raise Bad()
        if op == "/" and y == 0:
            raise Bad()
        return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y}[op]()
    c = isinstance(a, Ch) and isinstance(b, Ch)
    x, y = int(a), int(b)
    if op in ("/", "%"):
        if y == 0:
            raise Bad()
        v = tdiv(x, y) if op == "/" else x - y * tdiv(x, y)
    elif op in ("<<", ">>"):
        if not 0 <= y < 64 or x < 0 and op == "<<":
            raise Bad()
        v = x << y if op == "<<" else x >> y
    else:
        if op in "&|^" and (x > I64 or y > I64) and (x < 0 or y < 0):
            raise Bad()
        v = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y}[op]()
    rng(v)
    if c:
        if op in ("-", "*", "/", "%", "<<", ">>", "&", "|", "^") or v > 0x10ffff:
            raise Bad()
        return Ch(v)
    return v


def unary(op, a):
    if op == "!":
        if isinstance(a, str):
            return a == ""
        return not a
    if isinstance(a, (str, bool, Ch)):
        raise Bad()
    if op == "-":
        return rng(-a) if not isinstance(a, float) else -a
    if op == "+":
        return a
    if isinstance(a, float) or a < 0 or a > I64:
        raise Bad()
    return ~a


REFH = "void osv(const char *s) { u64 h = 14695981039346656037ull; oi((i64)strlen(s)); for (; *s; s++) h = (h ^ (u8)*s) * 1099511628211ull; oi((i64)h); }\n"
HEAD = "pub extern func osv(s: string): void\n"


def observe(v, e):
    """cxy statement that observes expression text e of value v; C statement for the expected observation"""
    if isinstance(v, bool):
        return "ob(%s); " % e, "ob(%d); " % v
    if isinstance(v, Ch):
        return "oi((%s as u32) as i64); " % e, "oi(%d); " % v
    if isinstance(v, float):
        return "of(%s); " % e, "of(%r); " % v
    if isinstance(v, str):
        return "osv(%s); " % e, 'osv("%s"); ' % "".join("\\%03o" % b for b in v.encode())
    if v > I64:
        return "oi((%s as u64) as i64); of((%s as u64) as f64); " % (e, e), "oi((i64)%dull); of((f64)%dull); " % (v, v)
    if v < 0:
        return "oi((%s) as i64); of((%s) as f64); " % (e, e), "oi(%s); of((f64)(%s)); " % (("(i64)%dull" % (v % (1 << 64)),) * 2)
    return "oi(%s as i64); of(%s as f64); " % (e, e), "oi(%d); of((f64)%dll); " % (v, v)


ARITH = ["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^"]
CMP = ["==", "!=", "<", "<=", ">", ">="]
OPS = ARITH + CMP + ["&&", "||"]
LEAVES = INTS + NEG + FLT + [-x for x in FLT[:3]] + [Ch(ord(c)) for c in CHR] + STR + [True, False]


def kind(v):
    return "b" if isinstance(v, bool) else "c" if isinstance(v, Ch) else "f" if isinstance(v, float) else "s" if isinstance(v, str) else "i"


def ops(thorough):
    for a in LEAVES:
        for b in LEAVES:
            if not thorough and kind(a) == "i" and kind(b) == "i" and (a in INTS[5:10:2] or b in INTS[5:10:2]):
                continue
            for op in OPS:
                try:
                    v = apply(op, a, b)
                except Bad:
                    continue
                yield "op", "%s %s %s" % (lit(a), op, lit(b)), v


def unaries(thorough):
    for a in LEAVES:
        for u in ("-", "+", "~", "!", "!!", "- -", "-~", "~-", "!-"):
            try:
                v = a
                for c in reversed(u.replace(" ", "")):
                    v = unary(c, v)
            except Bad:
                continue
            if (isinstance(a, (int, float)) and not isinstance(a, (bool, Ch)) and a < 0):
                yield "un", "%s(%s)" % (u, lit(a)), v
            else:
                yield "un", "%s%s" % (u, lit(a)), v
        yield "leaf", lit(a), a


def chains(thorough):
    """three operands: grouping and intermediate results"""
    prec = {"*": 5, "/": 5, "%": 5, "+": 4, "-": 4, "<<": 3, ">>": 3, "<": 2.5, "<=": 2.5, ">": 2.5, ">=": 2.5, "==": 2, "!=": 2, "&": 1.5, "^": 1.4, "|": 1.3, "&&": 1, "||": 0.5}
    vals = [(7, 2, 3), (1, 5, 2), (-7, 2, 2), (6, 0, 1), (100, 7, 1)] + ([(255, 3, 4), (I64, 1, 1), (2, 2, 2)] if thorough else [])
    for o1, o2 in itertools.product(OPS, repeat=2):
        for a, b, c in vals:
            for form in (0, 1, 2):
                try:
                    left = form == 1 or form == 0 and prec[o1] >= prec[o2]
                    v = apply(o2, apply(o1, a, b), c) if left else apply(o1, a, apply(o2, b, c))
                except Bad:
                    continue
                if kind(v) == "b" and (o1 in ("&&", "||") or o2 in ("&&", "||")) and False:
                    continue
                t = ["%s %s %s %s %s", "(%s %s %s) %s %s", "%s %s (%s %s %s)"][form] % (lit(a), o1, lit(b), o2, lit(c))
                yield "chain", t, v


def exprs(c, cxy, thorough):
    cases, seen = [], set()
    for gen in (ops, unaries, chains):
        for k, e, v in gen(thorough):
            if (e, k) in seen:
                continue
            seen.add((e, k))
            i = len(cases)
            o, r = observe(v, "#{%s}" % e)
            body = [o]
            ref = [r]
            # through a constant, used twice
            o, r = observe(v, "#{v}")
            body.append("#const v = %s; " % e + o + o)
            ref.append(r + r)
            if not isinstance(v, str):
                body.append("#if (%s) { oi(11`i64); } else { oi(22`i64); } " % e)
                ref.append("oi(%d); " % (11 if v else 22))
            cases.append(dict(id=i, key="%s:%s" % (k, e), ins=[], ref="".join(ref), decl="func fn_%d(): void { %s}\n" % (i, "".join(body))))
    c.cov["expressions"] = len(cases)
    Values(c, cxy, head=HEAD, refhead=REFH).run_all(cases, size=250, label="e")


# ---- statements: every program of a grammar, compared with direct interpretation
def stmts(depth, env, loop):
    """yields statement generators: (text, fn(env, out))"""
    atoms = []
    for n in env:
        atoms.append(("oi(#{%s} as i64); " % n, lambda e, out, n=n: out.append(e[n])))
    atoms.append(("#{k = k + 1} ", lambda e, out: e.__setitem__("k", e["k"] + 1)))
    if loop:
        atoms.append(("#{k = k * 2 + %s} " % loop, lambda e, out, l=loop: e.__setitem__("k", e["k"] * 2 + e[l])))
        atoms.append(("r = r * 3`i64 + #{%s}; " % loop, lambda e, out, l=loop: e.__setitem__("r", e["r"] * 3 + e[l])))
    atoms.append(("k_ ", None))
    return atoms[:-1]


def seqs(depth, env, loop, n):
    """all sequences of up to n statements (size budget), as (text, function)"""
    out = [("", lambda e, o: None)]
    if n == 0:
        return out
    firsts = [(1, s) for s in stmts(depth, env, loop)]
    if depth > 0:
        conds = ["k > 1", "k == 0", "k % 2 == 1"] + (["%s == 1" % loop, "%s > k" % loop] if loop else [])
        for cnd in conds:
            f = eval("lambda e: %s" % "".join("e['%s']" % t if t in ("k", "i", "j") else t for t in re.split(r"\b", cnd)).replace("e['k'] % 2", "int(math.fmod(e['k'], 2))"))
            for na in range(0, n):
                for ta, fa in seqs_exact(depth - 1, env, loop, na):
                    for nb in range(0, n - na):
                        for tb, fb in seqs_exact(depth - 1, env, loop, nb):
                            if nb == 0:
                                txt = "#if (%s) { %s} " % (cnd, ta)
                            else:
                                txt = "#if (%s) { %s} else { %s} " % (cnd, ta, tb)
                            firsts.append((1 + na + nb, (txt, lambda e, o, f=f, fa=fa, fb=fb: fa(e, o) if f(e) else fb(e, o))))
        var = {None: "i", "i": "j"}.get(loop)
        if var:
            for hdr, items in (("0..3", [0, 1, 2]), ("1..2", [1]), ("2..2", []), ("-2..1", [-2, -1, 0]), ("[3, 1]", [3, 1])):
                for na in range(1, n):
                    for ta, fa in seqs_exact(depth - 1, env + [var], var, na):
                        def g(e, o, items=items, fa=fa, var=var):
                            for x in items:
                                e[var] = x
                                fa(e, o)
                        firsts.append((1 + na, ("#for (const %s: %s) { %s} " % (var, hdr, ta), g)))
    for sz, (t, f) in firsts:
        for t2, f2 in seqs_exact(depth, env, loop, n - sz) if sz <= n else []:
            out.append((t + t2, lambda e, o, f=f, f2=f2: (f(e, o), f2(e, o)) and None))
    return out


_memo = {}


def seqs_exact(depth, env, loop, n):
    key = (depth, tuple(env), loop, n)
    if key not in _memo:
        if n == 0:
            _memo[key] = [("", lambda e, o: None)]
        else:
            _memo[key] = [x for x in seqs(depth, env, loop, n) if x[0]]
    return _memo[key]


def programs(c, cxy, thorough):
    cases = []
    for n in range(1, (5 if thorough else 4) + 1):
        for t, f in seqs_exact(3, ["k"], None, n):
            e, o = {"k": 0, "r": 1}, []
            f(e, o)
            if abs(e["k"]) > 1 << 30 or abs(e["r"]) > 1 << 60:
                continue
            i = len(cases)
            o += [e["k"], e["r"]]
            cases.append(dict(id=i, key="prog:" + t, ins=[], ref="".join("oi(%d); " % x for x in o[:60]),
                              decl="func fn_%d(): void { #const k = 0; var r = 1`i64; %soi(#{k} as i64); oi(r); }\n" % (i, t)))
    c.cov["programs"] = len(cases)
    c.sample(cases[-1]["decl"])
    Values(c, cxy, head=HEAD, refhead=REFH).run_all(cases, size=250, label="p")


TDECL = """struct TS { x: i32; y: i64; func f(a: i32) => a; func `init`(x: i32) { } }
struct TD { x: i32; func `deinit`() { } }
struct TP { p: ^i32 }
class TC { x: i32 = 0; func g(): string => "a" }
class TE: TC { y: i32 = 0; type Id = i64 }
class TI { q: i32 = 0 }
struct TH { func a(): i32 { return 1`i32 } const func b(): string { return "" } func c(x: i32): void { } func d(x: i32, y: string): i64 { return 1`i64 } func e() { } }
enum TN { P, Q = 7, R }
enum TM: u8 { P }
@[hello(10, "world"), bye(id: 3, name: "n"), flag]
struct TA {
  `id = 10;
  `label = "World";
  @k(4) z: i32
  w: string
}
type TU = i32 | string
type TUr = string | i32
type TT = (i32, string)
type TT3 = (i32, string, i32)
type TAr = [i32, 3]
type TAr4 = [i32, 4]
type TSl = [i32]
type TF = func(x: i32) -> i32
type TG = func() -> void
type TO = i32?
type TPi = ^i32
type TPs = ^TS
"""

# one row per type: type text, the predicates that hold, and those left open
PREDS = ["isInteger", "isSigned", "isUnsigned", "isFloat", "isNumber", "isPointer", "isReference", "isStruct", "isClass",
         "isTuple", "isUnion", "isString", "isBoolean", "isChar", "isArray", "isSlice", "isEnum", "isVoid", "isFunction",
         "isOptional", "hasBase", "hasDeinit", "isAnonymousStruct", "isResultType", "hasVoidReturnType"]
TYPES = [
    ("i8", "isInteger isSigned isNumber", ""), ("i16", "isInteger isSigned isNumber", ""), ("i32", "isInteger isSigned isNumber", ""),
    ("i64", "isInteger isSigned isNumber", ""), ("u8", "isInteger isUnsigned isNumber", ""), ("u16", "isInteger isUnsigned isNumber", ""),
    ("u32", "isInteger isUnsigned isNumber", ""), ("u64", "isInteger isUnsigned isNumber", ""),
    ("f32", "isFloat isNumber", "isSigned"), ("f64", "isFloat isNumber", "isSigned"),
    ("bool", "isBoolean", "isNumber isInteger"), ("char", "isChar", "isNumber isInteger isUnsigned"), ("wchar", "isChar", "isNumber isInteger isUnsigned"),
    ("string", "isString", "isPointer"), ("String", "isClass", "hasBase hasDeinit isString isStruct"), ("TPi", "isPointer", ""), ("TPs", "isPointer", "isStruct hasDeinit"),
    ("TS", "isStruct", ""), ("TD", "isStruct hasDeinit", ""), ("TP", "isStruct", "hasDeinit"), ("TC", "isClass", "hasDeinit"),
    ("TE", "isClass hasBase", "hasDeinit"), ("TI", "isClass", "hasDeinit"), ("TN", "isEnum", "hasBase isNumber isInteger isSigned isUnsigned"),
    ("TM", "isEnum", "hasBase isNumber isInteger isSigned isUnsigned"),
    ("TA", "isStruct", "hasDeinit"), ("TU", "isUnion", ""), ("TT", "isTuple", ""), ("TT3", "isTuple", ""), ("TAr", "isArray", ""), ("TAr4", "isArray", ""),
    ("TSl", "isSlice", "isArray isStruct"), ("TF", "isFunction", ""), ("TG", "isFunction hasVoidReturnType", ""), ("TO", "isOptional", "isStruct hasDeinit"),
]
SIZES = dict(i8=1, i16=2, i32=4, i64=8, u8=1, u16=2, u32=4, u64=8, f32=4, f64=8, char=1, wchar=4, string=8, TS=16, TD=4, TP=8,
             TN=8, TM=1, TA=16, TT=16, TT3=24, TAr=12, TAr4=16)
# names that mean the same type
ALIASES = [("TT", "TT"), ("TU", "TU")]


def types(c, cxy, thorough):
    cases = []

    def case(key, body, ref, decl=""):
        i = len(cases)
        cases.append(dict(id=i, key="types:" + key, ins=[], ref=ref, decl=decl + "func fn_%d(): void { %s }\n" % (i, body)))

    def generic(key, body, ref, *args):
        """body refers to T (and U) of a generic function"""
        i = len(cases)
        ps = "TU"[:len(args)]
        # type aliases only where the text is not a plain name
        case(key, "gn_%d[%s]()" % (i, ", ".join(args)), ref, decl="func gn_%d[%s](): void { %s }\n" % (i, ", ".join(ps), body))

    def both(key, body, ref, *args):
        """through a generic parameter, and on comptime constants of the type"""
        generic(key + " (parameter)", body, ref, *args)
        case(key + " (constant)", "".join("#const %s = #%s; " % (n, a) for n, a in zip("TU", args)) + body, ref)

    def direct(key, body, ref, t):
        """through a generic parameter, and naming the declaration"""
        generic(key + " (parameter)", body, ref, t)
        case(key + " (direct)", body.replace("T.", t + "."), ref)

    for t, yes, free in TYPES:
        yes, free = set(yes.split()), set(free.split())
        for p in PREDS:
            if p not in free and (p != "hasVoidReturnType" or "isFunction" in yes):
                both("%s.%s" % (t, p), "ob(#{T.%s});" % p, "ob(%d);" % (p in yes), t)
                both("#if %s.%s" % (t, p), "#if (T.%s) { oi(1); } else { oi(2); }" % p, "oi(%d);" % (1 if p in yes else 2), t)
                case("!%s.%s" % (t, p), "#const T = #%s; ob(#{!T.%s});" % (t, p), "ob(%d);" % (p not in yes))
        if t in SIZES:
            both("sizeof %s" % t, "oi(sizeof!(#T) as i64);", "oi(%d);" % SIZES[t], t)
    for t, _, _ in TYPES:
        for u, _, _ in TYPES:
            generic("%s == %s" % (t, u), "#if (#T == #U) { oi(1); } else { oi(0); } #if (#T != #U) { oi(1); } else { oi(0); }", "oi(%d); oi(%d);" % (t == u, t != u), t, u)
            case("constant %s == %s" % (t, u), "#const T = #%s; ob(#{T == #%s}); ob(#{T != #%s}); #if (T == #%s) { oi(1); }" % (t, u, u, u),
                 "ob(%d); ob(%d); %s" % (t == u, t != u, "oi(1);" if t == u else ""))
    # tuples: count, members, index, transforms
    el = ["i32", "string", "bool", "TS"]
    for n in range(2, 5 if not thorough else 6):
        for tup in itertools.product(el, repeat=n):
            d = "#const T = #(%s); " % ", ".join(tup)
            b = "oi(#{T.membersCount}); "
            r = "oi(%d); " % n
            for e in el:
                b += "oi(indexof!(#T, #%s) as i64); " % e
                r += "oi(%d); " % (tup.index(e) if e in tup else -1)
            for i, e in enumerate(tup):
                b += "{ #const M%d = typeat!(#T, %d); ob(#{M%d == #%s}); ob(#{M%d == #%s}); } " % (i, i, i, e, i, el[(el.index(e) + 1) % 4])
                r += "ob(1); ob(0); "
            # the members in a loop
            b += "#for (const i: 0..T.membersCount) { #const M = typeat!(#T, i); oi(#{i}); ob(#{M.isString}); ob(#{M.isStruct}); } "
            r += "".join("oi(%d); ob(%d); ob(%d); " % (i, e == "string", e == "TS") for i, e in enumerate(tup))
            case("tuple (%s)" % ", ".join(tup), d + b, r)
            for name, xf, f in (("reversed", "M, i => typeat!(#T, T.membersCount - i - 1)", lambda t: t[::-1]),
                                ("filter", "M, i => M, !M.isString", lambda t: [x for x in t if x != "string"]),
                                ("keep", "M, i => M", lambda t: t),
                                ("filter by index", "M, i => typeat!(#T, i), !M.isString", lambda t: [x for x in t if x != "string"]),
                                ("mirror filter", "M, i => typeat!(#T, T.membersCount - i - 1), !M.isString", lambda t: [t[len(t) - i - 1] for i, x in enumerate(t) if x != "string"]),
                                ("first", "M, i => M, 2 > i", lambda t: t[:2]),
                                ("constant", "M, i => i64, !M.isString && !M.isStruct", lambda t: ["i64" for x in t if x in ("i32", "bool")])):
                want = list(f(tup))
                if len(want) < 2:
                    continue
                b2 = d + "#const R = #`T as %s`; oi(#{R.membersCount}); " % xf
                r2 = "oi(%d); " % len(want)
                for i, e in enumerate(want):
                    b2 += "{ #const M%d = typeat!(#R, %d); ob(#{M%d == #%s}); } " % (i, i, i, e)
                    r2 += "ob(1); "
                case("%s (%s)" % (name, ", ".join(tup)), b2, r2)
    # members
    for t, ms in (("TS", "x y f"), ("TD", "x"), ("TP", "p"), ("TA", "z w"), ("TN", "P Q R"), ("TM", "P")):
        ms = ms.split()
        fields = [m for m in ms if m != "f"]
        if t not in ("TS", "TD"):
            direct("members of " + t, "#for (const m: T.members) { osv(#{m.name}); }", "".join('osv("%s"); ' % m for m in ms), t)
            direct("fields of " + t, "#const k = 0; #for (const m: T.members) { #{k = k + 1}; } oi(#{k});", "oi(%d);" % len(ms), t)
        if t[1] != "N" and t[1] != "M":
            direct("isField in " + t, "#for (const m: T.members) { #if (m.isField) { osv(#{m.name}); } }", "".join('osv("%s"); ' % m for m in fields), t)
    FT = {("TS", "x"): "i32", ("TS", "y"): "i64", ("TD", "x"): "i32", ("TP", "p"): "^i32", ("TA", "z"): "i32", ("TA", "w"): "string", ("TC", "x"): "i32", ("TI", "q"): "i32", ("TE", "y"): "i32"}
    for t in ("TS", "TD", "TP", "TA", "TC", "TI"):
        for m in ("x", "y", "z", "w", "q", "p", "zz", "X"):
            for ft in ("i32", "i64", "string", "^i32"):
                both("has_member %s %s %s" % (t, m, ft), '#if (has_member!(#T, "%s", #%s)) { oi(1); } else { oi(0); }' % (m, ft), "oi(%d);" % (FT.get((t, m)) == ft), t)
        if t not in ("TC", "TI"):
            direct("Tinfo " + t, "#for (const m: T.members) { #if (m.isField) { #const I = m.Tinfo; ob(#{I == #i32}); ob(#{I.isString}); ob(#{I.isPointer}); } }",
                 "".join("ob(%d); ob(%d); ob(%d); " % (v == "i32", v == "string", v[0] == "^") for (a, _), v in FT.items() if a == t), t)
    sigs = ["func() -> i32", "const func() -> string", "func() -> string", "const func() -> i32", "func(_: i32) -> void", "func(_: i64) -> void", "func() -> void",
            "func(_: i32) -> i32", "func(_: i32, _: string) -> i64", "func(_: i32, _: i32) -> i64", "func(_: string, _: i32) -> i64", "func(_: i32) -> i64"]
    for m, has in (("a", ["func() -> i32"]), ("b", ["const func() -> string"]), ("c", ["func(_: i32) -> void"]), ("d", ["func(_: i32, _: string) -> i64"]), ("e", ["func() -> void"]), ("g", [])):
        for sg in sigs:
            both("has_member TH.%s %s" % (m, sg), 'ob(has_member!(#T, "%s", #%s));' % (m, sg), "ob(%d);" % (sg in has), "TH")
    un = ["i32", "string", "bool", "f64"]
    for n in (2, 3, 4):
        for tup in itertools.permutations(un, n):
            i = len(cases)
            case("union " + " | ".join(tup), "#const T = #UN%d; oi(#{T.membersCount}); " % i + "".join("oi(indexof!(#T, #%s) as i64); " % e for e in un + ["i64"]) +
                 "".join("{ #const M%d = typeat!(#T, %d); " % (k, k) + "".join("ob(#{M%d == #%s}); " % (k, e) for e in un) + "} " for k in range(n)),
                 "oi(%d); " % n + "".join("oi(%d); " % (tup.index(e) if e in tup else -1) for e in un + ["i64"]) + "".join("ob(%d); " % (e == x) for x in tup for e in un),
                 decl="type UN%d = %s\n" % (i, " | ".join(tup)))
    # written-out tuples
    tl = [t for n in (2, 3) for t in itertools.product(["i32", "string", "TS"], repeat=n)]
    for t in tl:
        case("literal tuple (%s)" % ", ".join(t), "#const T = #(%s); " % ", ".join(t) + "".join("#if (T == #(%s)) { oi(1); } else { oi(0); } " % ", ".join(u) for u in tl), "".join("oi(%d); " % (t == u) for u in tl))
    for t, nm, v in (("TE", "Id", 1), ("TE", "Ie", 0), ("TC", "Id", 0), ("TS", "Id", 0)):
        both("has_type %s %s" % (t, nm), "ob(has_type!(#T, :%s));" % nm, "ob(%d);" % v, t)
    for a, b2, v in (("TC", "TE", 1), ("TE", "TC", 0), ("TI", "TE", 0), ("TC", "TI", 0)):
        both("is_base_of %s %s" % (a, b2), "ob(is_base_of!(#T, #U)); #if (is_base_of!(#T, #U)) { oi(1); }", "ob(%d); %s" % (v, "oi(1);" if v else ""), a, b2)
    # element/pointed/target/return types
    for key, t, p, w in (("array", "TAr", "elementType", "i32"), ("pointer", "TPi", "pointedType", "i32"),
                         ("pointer", "TPs", "pointedType", "TS"), ("pointer", "TPi", "strippedType", "i32"), ("optional", "TO", "targetType", "i32"),
                         ("function", "TF", "returnType", "i32"), ("base", "TE", "baseType", "TC")):
        for u in ("i32", "i64", "TS", "TC", "string"):
            both("%s of %s is %s" % (p, t, u), "#const E = #{T.%s}; ob(#{E == #%s});" % (p, u), "ob(%d);" % (u == w), t)
    # names
    for t in ("TS", "TC", "TN", "i32", "u8", "f64", "bool"):
        if t[0] == "T":
            generic("name of " + t, "osv(#{T.name});", 'osv("%s");' % t, t)
        else:
            case("name of " + t, "#const T = #%s; osv(#{T.name});" % t, 'osv("%s");' % t)
    # attributes and annotations
    for key, e, how, want in (
            ("attr index", '#const h = TA.attributes.["hello"]; ', "oi(#{h.[0]}); osv(#{h.[1]});", 'oi(10); osv("world");'),
            ("attr name", '#const h = TA.attributes.["bye"]; ', 'oi(#{h.["id"]}); osv(#{h.["name"]});', 'oi(3); osv("n");'),
            ("attr found", '#const h = TA.attributes.["flag"]; ', '#if (h) { oi(1); } else { oi(2); }', 'oi(1);'),
            ("attr missing", '#const h = TA.attributes.["nope"]; ', '#if (h) { oi(1); } else { oi(2); }', 'oi(2);'),
            ("attr arg missing", '#const h = TA.attributes.["bye"]; #const g = h.["zz"]; ', '#if (g) { oi(1); } else { oi(2); }', 'oi(2);'),
            ("attr names", '', '#for (const a: TA.attributes) { osv(#{a.name}); }', 'osv("hello"); osv("bye"); osv("flag");'),
            ("annotation names", '', '#for (const a: TA.annotations) { osv(#{a.name}); }', 'osv("id"); osv("label");'),
            ("annotation int", '#const a = #{TA.annotations}; #const i = a.["id"]; ', 'oi(#{i});', 'oi(10);'),
            ("annotation str", '#const a = #{TA.annotations}; #const i = a.["label"]; ', 'osv(#{i});', 'osv("World");'),
            ("annotation missing", '#const a = #{TA.annotations}; #const i = a.["zz"]; ', '#if (i) { oi(1); } else { oi(2); }', 'oi(2);'),
            ("member attr", '', '#for (const m: TA.members) { #const k = m.attributes.["k"]; #if (k) { oi(#{k.[0]}); } else { oi(0); } }', 'oi(4); oi(0);')):
        case(key, e + how, want)
    # strings and arrays at compile time
    for n in range(0, 4):
        for tup in itertools.product(["1", "22", "7"], repeat=n):
            if n:
                a = "[%s]" % ", ".join(tup)
                case("array " + a, "#const a = %s; " % a + "".join("oi(#{a.[%d]}); " % i for i in range(n)) + "#for (const e: a) { oi(#{e + 1}); } oi(len!(a) as i64);",
                     "".join("oi(%s); " % x for x in tup) + "".join("oi(%s + 1); " % x for x in tup) + "oi(%d);" % n)
            st = "".join(tup)
            case("mk_str " + st, 'osv(mk_str!("s", %s));' % ", ".join(list(tup) + ['"e"']), 'osv("s%se");' % st)
            case("len " + st, 'oi(len!("%s") as i64);' % st, "oi(%d);" % len(st))
            case("chars " + st, '#for (const ch: "%s") { oi((#{ch} as u32) as i64); }' % st, "".join("oi(%d); " % ord(x) for x in st))
    # types built from types: identity is structural for all of them
    base = ["i32", "i64", "string", "TS", "TC", "TN"]
    wrap = ["^%s", "[%s, 2]", "[%s, 3]", "(%s, i32)", "%s?", "func(_: %s) -> void", "[%s]"]
    names, decls = {}, []

    def build(w, b):
        if w in ("%s?", "(%s, i32)", "[%s]") and (b not in base or b == "TC"):
            return b
        key = w % (b if b in base else "{%s}" % b)
        if key not in names:
            names[key] = "W%d" % len(names)
            decls.append("type %s = %s\n" % (names[key], w % names.get(b, b)))
        return key

    one = [build(w, b) for w in wrap for b in base]
    deep = list(dict.fromkeys(base + one + [build(w, b) for w in wrap for b in (one if thorough else ["^i32", "[i32, 2]", "(i32, i32)", "i32?"])]))
    for t in deep:
        a = names.get(t, t)
        case("identity of " + t, "gn_%d[%s]()" % (len(cases), a), "".join("oi(%d); " % (t == u) for u in deep),
             decl="func gn_%d[T](): void { %s }\n" % (len(cases), " ".join("#if (#T == #%s) { oi(1); } else { oi(0); }" % names.get(u, u) for u in deep)))
    c.cov["type_cases"] = len(cases)
    c.sample(cases[0]["decl"])
    Values(c, cxy, head=HEAD + TDECL + "".join(decls), refhead=REFH).run_all(cases, size=220, label="t", maxviol=40)


FAMS = dict(exprs=exprs, programs=programs, types=types)


def body():
    c = Check("C05")
    cxy = build_compiler()
    for n, f in FAMS.items():
        if os.environ.get("FAM") and n not in os.environ["FAM"].split(","):
            continue
        f(c, cxy, c.thorough)
    c.finish()


main(body)
