"""C04: integer/float arithmetic, comparisons, conversions and literals compute the right values."""
import os, sys, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
from xv import Values

SI = ["i8", "i16", "i32", "i64"]
UI = ["u8", "u16", "u32", "u64"]
INT = SI + UI
FLT = ["f32", "f64"]
NUM = INT + FLT
SIZE = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "u8": 1, "u16": 2, "u32": 4, "u64": 8, "f32": 4, "f64": 8}
RNG = {t: ((-(1 << (8 * SIZE[t] - 1)), (1 << (8 * SIZE[t] - 1)) - 1) if t[0] == "i" else (0, (1 << (8 * SIZE[t])) - 1)) for t in INT}


def promote(a, b):
    if a == b:
        return a
    if a in FLT and b in FLT:
        return a if SIZE[a] >= SIZE[b] else b
    if a in FLT:
        return a
    if b in FLT:
        return b
    return a if SIZE[a] >= SIZE[b] else b


def ccommon(a, b):
    """C's usual arithmetic conversions (what both sides are converted to)."""
    if a in FLT or b in FLT:
        return "f64" if "f64" in (a, b) or False else "f32"
    pa, pb = [t if SIZE[t] >= 4 else "i32" for t in (a, b)]
    if pa == pb:
        return pa
    if pa[0] == pb[0]:
        return pa if SIZE[pa] > SIZE[pb] else pb
    u, s = (pa, pb) if pa[0] == "u" else (pb, pa)
    return u if SIZE[u] >= SIZE[s] else s


def pint(a):
    return a if SIZE[a] >= 4 else "i32"


def skips(op, t1, t2):
    c = ccommon(t1, t2)
    out = ""
    if op in ("/", "%") and not c[0] == "f":
        out += "SKIP(b == 0); "
        if c[0] == "i":
            mn = "INT32_MIN" if c == "i32" else "INT64_MIN"
            out += "SKIP((%s)a == %s && (%s)b == -1); " % (c, mn, c)
    if op in ("<<", ">>"):
        w = 8 * SIZE[pint(t1)]
        out += "SKIP(%s(u64)b >= %d); " % ("b < 0 || " if t2[0] == "i" else "", w)
    return out


def obs(t, v="r"):
    if t == "bool":
        return "ob(%s); " % v
    if t in FLT:
        return "of(%s as f64); " % v if t != "f64" else "of(%s); " % v
    return "oi(%s as i64); of(%s as f64); " % (v, v) if t != "i64" else "oi(%s); of(%s as f64); " % (v, v)


def robs(t, v="r"):
    if t == "bool":
        return "ob(%s); " % v
    if t in FLT:
        return "of((f64)(%s)); " % v
    return "oi((i64)(%s)); of((f64)(%s)); " % (v, v)


def inp(t, n, k, kw="const"):
    return "%s %s = x%s(%d`i32); " % (kw, n, t, k)


def rin(t, n, k):
    return "%s %s = x%s(%d); " % ({"wchar": "u32"}.get(t, t), n, t, k)


def binary():
    for t1 in NUM:
        for t2 in NUM:
            for op in ["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "<", "<=", ">", ">=", "==", "!="]:
                fl = t1 in FLT or t2 in FLT
                if fl and op in ("%", "<<", ">>", "&", "|", "^"):
                    continue
                r = "bool" if op in ("<", "<=", ">", ">=", "==", "!=") else promote(t1, t2)
                cr = r
                yield dict(key="bin:%s:%s:%s" % (t1, op, t2), ins=[t1, t2],
                           body=inp(t1, "a", 0) + inp(t2, "b", 1) + "const r = a %s b; " % op + obs(r),
                           ref=rin(t1, "a", 0) + rin(t2, "b", 1) + skips(op, t1, t2) + "%s r = a %s b; " % (cr, op) + robs(r))


def unary():
    for t in NUM:
        for op in ["-", "+", "~", "- -", "-+", "+ +"]:
            if t in FLT and op == "~":
                continue
            yield dict(key="un:%s%s" % (op.replace(" ", "_"), t), ins=[t], body=inp(t, "a", 0, "var") + "var r = %sa; " % op + obs(t) + obs(t, "a"),
                       ref=rin(t, "a", 0) + "%s r = %sa; " % (t, op) + robs(t) + robs(t, "a"))
        for op in ["++a", "--a", "a++", "a--"]:
            yield dict(key="un:%s:%s" % (op, t), ins=[t], body=inp(t, "a", 0, "var") + "var r = %s; " % op + obs(t) + obs(t, "a"),
                       ref=rin(t, "a", 0) + "%s r = %s; " % (t, op) + robs(t) + robs(t, "a"))
    yield dict(key="un:!bool", ins=["bool"], body=inp("bool", "a", 0) + "const r = !a; " + obs("bool"), ref=rin("bool", "a", 0) + "bool r = !a; " + robs("bool"))
    yield dict(key="un:!!bool", ins=["bool"], body=inp("bool", "a", 0) + "const r = !!a; " + obs("bool"), ref=rin("bool", "a", 0) + "bool r = a; " + robs("bool"))
    for op in ["&&", "||", "==", "!="]:
        yield dict(key="bool:" + op, ins=["bool", "bool"], body=inp("bool", "a", 0) + inp("bool", "b", 1) + "const r = a %s b; " % op + obs("bool"),
                   ref=rin("bool", "a", 0) + rin("bool", "b", 1) + "bool r = a %s b; " % op + robs("bool"))


def assignable(to, fr):
    if to in SI:
        return fr in INT and (SIZE[to] > SIZE[fr] if fr in UI else SIZE[to] >= SIZE[fr])
    if to in UI:
        return fr in INT and SIZE[to] >= SIZE[fr]
    return True


def compound():
    for t1 in NUM:
        for t2 in NUM:
            if not assignable(t1, t2):
                continue
            for op in ["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^"]:
                if (t1 in FLT or t2 in FLT) and op in ("%", "<<", ">>", "&", "|", "^"):
                    continue
                yield dict(key="asg:%s:%s=:%s" % (t1, op, t2), ins=[t1, t2],
                           body=inp(t1, "a", 0, "var") + inp(t2, "b", 1) + "a %s= b; " % op + obs(t1, "a"),
                           ref=rin(t1, "a", 0) + rin(t2, "b", 1) + skips(op, t1, t2) + "a %s= b; " % op + robs(t1, "a"))


def convert():
    CH = ["wchar", "char"]
    cty = {"wchar": "u32", "char": "char", "bool": "bool"}
    for t1 in NUM + ["bool"] + CH:
        for t2 in NUM + CH:
            if t1 == "bool" and t2 not in INT:
                continue
            if t2 in CH and t1 not in ("u8", "u16", "u32", "wchar", "char"):
                continue
            if t1 in CH and t2 in FLT:
                continue
            c1, c2 = cty.get(t1, t1), cty.get(t2, t2)
            if t2 in CH:
                o, ro = "oi(r as i64); ", "oi((i64)r); "
                if t2 == "char":
                    o, ro = "oi((r as u8) as i64); ", "oi((i64)(u8)r); "
            else:
                o, ro = obs(t2), robs(t2)
            sk = ""
            if t1 in FLT and t2 in INT:
                lo, hi = RNG[t2]
                sk = "SKIP(!((f64)a > %d.0 - 1 && (f64)a < %d.0 + 1)); SKIP((f64)a >= %d.0 && %d); " % (lo, hi, hi, SIZE[t2] == 8)
            for f, txt in (("as", "a as %s" % t2), ("lt", "<%s>a" % t2), ("ty", "a !: %s" % t2), ("grp", "(a) as %s" % t2)):
                yield dict(key="cast:%s:%s:%s" % (f, t1, t2), ins=[t1], body=inp(t1, "a", 0) + "const r = %s; " % txt + o,
                           ref=rin(t1, "a", 0) + sk + "%s r = (%s)a; " % (c2, c2) + ro)
    # a cast inside an expression converts there and then
    for t1 in INT:
        for t2 in INT:
            for op in ("/", ">>", "<", "==", "+", "as"):
                for side in (0, 1):
                    c1, c2 = "(a as %s)" % t2, "((%s)a)" % t2
                    if op == "as":
                        for t3 in NUM:
                            yield dict(key="castop:%s:%s:as:%s:%d" % (t1, t2, t3, side), ins=[t1],
                                       body=inp(t1, "a", 0) + ("const r = %s as %s; " % (c1, t3) if not side else "const r: %s = %s; " % (t3, c1) if assignable(t3, t2) else "const r = <%s>%s; " % (t3, c1)) + obs(t3),
                                       ref=rin(t1, "a", 0) + "%s r = (%s)%s; " % (t3, t3, c2) + robs(t3))
                        continue
                    if op == ">>" and side:
                        continue
                    t3 = "sh" if op == ">>" else t2
                    tt3 = "i32" if op == ">>" else t2
                    r = "bool" if op in ("<", "==") else promote(t2, tt3)
                    e, ce = (("%s %s b" % (c1, op), "%s %s b" % (c2, op)) if not side else ("b %s %s" % (op, c1), "b %s %s" % (op, c2)))
                    sk = skips(op, t2, tt3).replace("b == 0", "b == 0" if not side else "a == 0") if op == ">>" or not side else ""
                    if op == "/":
                        sk = "SKIP((%s)%s == 0); SKIP((%s)%s == -1); " % (t2, "b" if not side else "a", t2, "b" if not side else "a") if t2[0] == "i" else "SKIP((%s)%s == 0); " % (t2, "b" if not side else "a")
                    yield dict(key="castop:%s:%s:%s:%d" % (t1, t2, op, side), ins=[t1, t3],
                               body=inp(t1, "a", 0) + "const b = x%s(1`i32); " % t3 + "const r = %s; " % e + obs(r),
                               ref=rin(t1, "a", 0) + "%s b = x%s(1); " % (tt3, t3) + sk + "%s r = %s; " % (r, ce) + robs(r))
    # implicit conversions: parameter, return value, declared variable, assignment, struct field, array element
    for t1 in NUM:
        for t2 in NUM:
            if not assignable(t2, t1):
                continue
            for f in ("var", "asg", "par", "ret", "fld", "fas", "tup"):
                pre, b = "", ""
                if f == "var":
                    b = "const r: %s = a; " % t2
                elif f == "asg":
                    b = "var r = x%s(0`i32); r = a; " % t2
                elif f == "par":
                    pre, b = "func g_@(p: %s): %s { return p }\n" % (t2, t2), "const r = g_@(a); "
                elif f == "ret":
                    pre, b = "func g_@(p: %s): %s { return p }\n" % (t1, t2), "const r = g_@(a); "
                elif f == "fld":
                    pre, b = "struct S@ { x: %s; y: %s }\n" % (t2, t2), "const s = S@{x: a, y: a}; const r = s.x; "
                elif f == "fas":
                    pre, b = "struct S@ { x: %s; y: %s }\n" % (t2, t2), "var s = S@{x: x%s(0`i32), y: x%s(0`i32)}; s.y = a; const r = s.y; " % (t2, t2)
                elif f == "tup":
                    pre, b = "func g_@(p: (%s, %s)): %s { return p.1 }\n" % (t1, t2, t2), "var z = x%s(0`i32); z = a; const r = g_@((a, z)); " % t2
                yield dict(key="conv:%s:%s:%s" % (f, t1, t2), ins=[t1], pre=pre,
                           body=inp(t1, "a", 0, "var" if f == "tup" else "const") + b + obs(t2), ref=rin(t1, "a", 0) + "%s r = a; " % t2 + robs(t2))


def litforms(v):
    m = abs(v)
    s = "-" if v < 0 else ""
    yield s + str(m)
    if v >= 0:
        yield hex(m)
        yield "0x" + ("%x" % m).upper()
        yield bin(m)
        yield "0o%o" % m


BV = sorted({s * (1 << b) + d for b in (0, 3, 7, 8, 15, 16, 31, 32, 62, 63, 64) for s in (1, -1) for d in (-1, 0, 1)})
BV = [v for v in BV if -(1 << 63) <= v < (1 << 64)]


def littype(v):
    for t in SI:
        if RNG[t][0] <= v <= RNG[t][1]:
            return t
    return "u64"


def clit(v, t):
    if t in FLT:
        return "(%s)%s" % (t, clit(v, "i64" if v < (1 << 63) else "u64"))
    if v == -(1 << 63):
        return "(%s)(-9223372036854775807ll-1)" % t
    return "(%s)%d%s" % (t, v, "ull" if v >= 0 else "ll")


def literals():
    for v in BV:
        for i, f in enumerate(litforms(v)):
            t = littype(v)
            yield dict(key="lit:" + f, ins=[], body="const r = %s; " % f + obs(t), ref="%s r = %s; " % (t, clit(v, t)) + robs(t))
            if i:
                continue
            for t in NUM:
                if t in FLT or RNG[t][0] <= v <= RNG[t][1]:
                    yield dict(key="lit:%s`%s" % (f, t), ins=[], body="const r = %s`%s; " % (f, t) + obs(t), ref="%s r = %s; " % (t, clit(v, t)) + robs(t))
                for g, txt in (("as", "(%s) as %s" % (f, t)), ("lt", "<%s>(%s)" % (t, f))):
                    yield dict(key="lcast:%s:%s:%s" % (g, f, t), ins=[], body="const r = %s; " % txt + obs(t), ref="%s r = %s; " % (t, clit(v, t)) + robs(t))
    # typed literals as operands keep their width
    for t in INT:
        for v in (1, 3, RNG[t][1], RNG[t][0]):
            f = "%d`%s" % (v, t)
            for op in ["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "<", "=="]:
                for side in (0, 1):
                    t2 = t if op not in ("<<", ">>") or side else "sh"
                    tt2 = {"sh": "i32"}.get(t2, t2)
                    r = "bool" if op in ("<", "==") else promote(t, tt2)
                    if op in ("<<", ">>") and side:
                        continue
                    e = "(%s) %s b" % (f, op) if not side else "b %s %s" % (op, f)
                    ce = "a %s b" % op if not side else "b %s a" % op
                    sk = skips(op, t, tt2) if not side else ("SKIP(a == 0); SKIP(a == -1 && b != 0 && %s); " % ("1" if t[0] == "i" else "0") if op in "/%" else "")
                    yield dict(key="litop:%s:%s:%d:%s" % (f, op, side, t2), ins=[t2],
                               body="const b = x%s(0`i32); const r = %s; " % (t2, e) + obs(r),
                               ref="%s a = %s; %s b = x%s(0); " % (t, clit(v, t), tt2, t2) + sk + "%s r = %s; " % (r, ce) + robs(r))
            # literal with literal
            for op in ["+", "*", "<<", "-", "/"]:
                for w in (1, 2, 7) + ((40, 63) if SIZE[t] == 8 and op == "<<" else ()):
                    rr = "(%s)(%s %s (%s)%d)" % (t, clit(v, t), op, t, w)
                    yield dict(key="litlit:%s:%s:%d" % (f, op, w), ins=[], body="const r = %s %s %d`%s; " % (f, op, w, t) + obs(t),
                               ref="%s r = %s; " % (t, rr) + robs(t))
    for f in ["0.0", "1.5", "3.14159265358979", "123456789.25", "1.0e10", "2.5e-3", "0.1", "9007199254740993.0", "1.7976931348623157e30",
              "4.9e-32", "100000000.0", "0.333333333333333333", "1.e3", "12.", "1234567.0"]:
        for s in ("", "-"):
            yield dict(key="flit:" + s + f, ins=[], body="const r = %s%s; of(r); " % (s, f), ref="of(%s%s); " % (s, f))
            yield dict(key="flit32:" + s + f, ins=[], body="const r = %s%s`f32; of(r as f64); " % (s, f), ref="of((f64)(f32)%s%s); " % (s, f))
            yield dict(key="flitop:" + s + f, ins=["f64"], body="const b = xf64(0`i32); const r = b * %s%s; of(r); " % (s, f), ref="of(xf64(0) * %s%s); " % (s, f))
    for ch, v in [("a", 97), ("0", 48), (" ", 32), ("\\n", 10), ("\\t", 9), ("\\\\", 92), ("\\'", 39), ("\\\"", 34), ('"', 34), ("\\0", 0), ("\\r", 13),
                  ("\\v", 11), ("\\a", 7), ("\\b", 8), ("é", 0xe9), ("€", 0x20ac), ("😀", 0x1f600), ("~", 126), ("\\x41", 0x41), ("\\x7f", 0x7f), ("\\101", 0x41), ("\\$", 36), ("%", 37), ("?", 63)]:
        yield dict(key="chr:%x:%s" % (v, ch.encode("unicode_escape").decode()), ins=[], body="const r = '%s'; oi(r as i64); " % ch, ref="oi(%d); " % v)
        yield dict(key="chrcast:%x:%s" % (v, ch.encode("unicode_escape").decode()), ins=[], body="const r = '%s' as u32; oi(r as i64); " % ch, ref="oi(%d); " % v)


def tables(thorough):
    """input values per type: every 8-bit value; powers of two and their neighbours for the wider types"""
    out = "#define XV_VALUES 1\n"
    for t in INT:
        lo, hi = RNG[t]
        if SIZE[t] == 1:
            vs = range(lo, hi + 1)
        else:
            bits = range(8 * SIZE[t] + 1) if thorough else [b for b in range(8 * SIZE[t] + 1) if b in (0, 1, 2, 7, 8, 15, 16, 31, 32, 62, 63, 64)]
            vs = {s * (1 << b) + d for b in bits for s in (1, -1) for d in (-1, 0, 1)} | {lo, hi, 5, 6, 7, 100, 1000 % (hi + 1)}
            vs = sorted(v for v in vs if lo <= v <= hi)
        out += "static const %s v_%s[] = {%s};\n" % (t, t, ",".join("(%s)%dull" % (t, v % (1 << 64)) for v in vs))
    fs = [0.0, 1.0, -1.0, 0.5, -2.25, 100.75, 16777216.0, -3e9, 1e10, -123456789.125, 1e-5, 255.0, 256.0, -128.5, 65535.9, 2147483647.0, 2147483648.0, 4294967296.0, 1e18, 0.1]
    if thorough:
        fs += [1e30, -1e30, 3.0, -7.0, 127.99, 128.0, -0.75, 1e-30, 33554431.0, 9007199254740993.0, 1e19]
    out += "static const f32 v_f32[] = {%s};\nstatic const f64 v_f64[] = {%s};\n" % (",".join("%rf" % f for f in fs), ",".join("%r" % f for f in fs))
    return out


FAMS = dict(binary=binary, unary=unary, compound=compound, convert=convert, literals=literals)


def body():
    c = Check("C04")
    cxy = build_compiler()
    cases = []
    for n, f in FAMS.items():
        if os.environ.get("FAM") and n not in os.environ["FAM"].split(","):
            continue
        k0 = len(cases)
        for k in f():
            i = len(cases)
            k["id"] = i
            k["decl"] = k.get("pre", "").replace("@", str(i)) + "func fn_%d(): void { %s}\n" % (i, k["body"].replace("@", str(i)))
            cases.append(k)
        c.cov[n] = len(cases) - k0
    Values(c, cxy, tables=tables(c.thorough)).run_all(cases, size=300)
    c.cov["programs"] = len(cases)
    c.assumptions = ["operands and results are observed through 64-bit integer and double conversions", "division by zero, INT_MIN / -1, over-wide shifts and out-of-range float to integer conversions are not constrained"]
    c.sample(cases[0]["decl"]) if cases else None
    c.sample(cases[-1]["decl"]) if cases else None
    c.finish()


main(body)
