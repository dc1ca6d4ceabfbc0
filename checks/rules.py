"""The typing rules C03 decides: each family yields (key, accepted?, declarations, statements)."""
import itertools, re

HEAD = """enum EN { A, B, C }
enum EM: u8 { P, Q }
struct SA { a: i32 }
struct SB { a: i32 }
class KA {
  n: i32
  func `init`(n: i32) { this.n = n }
}
class KB : KA {
  func `init`(n: i32) { super(n) }
}
class KC {
  n: i32
  func `init`(n: i32) { this.n = n }
}
struct SM { s: String; k: i32 = 1 }
type UA = i32 | string
type UB = i32 | SA
func vi32(): i32 => 1`i32
"""
FAMS = []


def fam(fn):
    FAMS.append(fn)
    return fn


INTS = ["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"]
SIZE = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "u8": 1, "u16": 2, "u32": 4, "u64": 8}
# type -> an expression of exactly that type
VAL = {t: "1`" + t for t in INTS}
VAL.update({"f32": "1.5`f32", "f64": "1.5`f64", "bool": "true", "wchar": "'a'", "string": '"s"', "EN": "EN.A", "EM": "EM.P", "SA": "SA{a: 1}", "SB": "SB{a: 1}",
            "KA": "KA(1`i32)", "KB": "KB(1`i32)", "KC": "KC(1`i32)", "(i32, i64)": "(1`i32, 2`i64)", "(i32, string)": '(1`i32, "s")', "(i32, i32, i32)": "(1`i32, 1`i32, 1`i32)",
            "(string, i32)": '("s", 1`i32)', "(string, i32, i32)": '("s", 1`i32, 1`i32)', "(i32, string, i32)": '(1`i32, "s", 1`i32)', "(i32, i32, string)": '(1`i32, 1`i32, "s")', "(i64, i32)": "(1`i64, 1`i32)",
            "UA": "1`i32", "UB": "1`i32"})
TYPES = list(VAL)


def assignable(to, fr):
    """True, False, or None where nothing is claimed"""
    if to == fr:
        return True
    if fr in ("UA", "UB"):
        return False
    if to in INTS:
        if fr in INTS:
            if to[0] == "i" and fr[0] == "u":
                return SIZE[to] > SIZE[fr]
            return SIZE[to] >= SIZE[fr]
        if fr in ("EN", "EM"):
            return assignable(to, {"EN": "i64", "EM": "u8"}[fr])
        return False
    if to in ("f32", "f64"):
        if fr in INTS or fr in ("f32", "f64"):
            return True
        return None if fr in ("EN", "EM") else False
    if to == "EN" or to == "EM":
        return None if fr in ("EN", "EM") else False
    if to == "KA" and fr == "KB":
        return True
    if to == "UA":
        return fr in ("i32", "string")
    if to == "UB":
        return fr in ("i32", "SA")
    return False


CTX = [
    ("init", "", "var x: {F} = {v}; var y: {T} = x"),
    ("const", "", "const x: {F} = {v}; var y: {T} = x"),
    ("assign", "", "var x: {F} = {v}; var y: {T} = {w}; y = x"),
    ("arg", "func $f(p: {T}): void {{ }}\n", "var x: {F} = {v}; $f(x)"),
    ("arg2", "func $f(k: i32, p: {T}): void {{ }}\n", "var x: {F} = {v}; $f(1`i32, x)"),
    ("method", "struct H$ {{ n: i32\n func f(p: {T}): void {{ }}\n}}\n", "var x: {F} = {v}; var h = H${{n: 1}}; h.f(x)"),
    ("ctor", "class H$ {{\n n: i32\n func `init`(p: {T}) {{ n = 1 }}\n}}\n", "var x: {F} = {v}; var h = H$(x)"),
    ("oper", "struct H$ {{ n: i32\n func `+`(p: {T}): i32 {{ return 1`i32 }}\n}}\n", "var x: {F} = {v}; var h = H${{n: 1}}; var r = h + x"),
    ("ret", "func $f(x: {F}): {T} {{ return x }}\n", ""),
    ("arrow", "func $f(x: {F}): {T} => x\n", ""),
    ("field", "struct H$ {{ p: {T} }}\n", "var x: {F} = {v}; var h = H${{p: x}}"),
    ("fieldset", "struct H$ {{ p: {T} }}\n", "var x: {F} = {v}; var h = H${{p: {w}}}; h.p = x"),
    ("member", "class H$ {{\n p: {T}\n func `init`(x: {F}) {{ p = x }}\n}}\n", ""),
    ("deref", "", "var x: {F} = {v}; var y: {T} = {w}; var p = ptrof y; *p = x"),
    ("elemset", "", "var x: {F} = {v}; var y: [{T}, 2] = [{w}, {w}]; y.[0] = x"),
    ("tupleset", "", "var x: {F} = {v}; var z: {T} = {w}; var y = (z, 1`i32); y.0 = x"),
    ("generic", "struct H$[T] {{ p: T }}\n", "var x: {F} = {v}; var h = H$[{T}]{{p: x}}"),
    ("closure", "", "var x: {F} = {v}; var g = (p: {T}) => {{ }}; g(x)"),
]


CALLS = ("arg", "arg2", "method", "ctor", "oper", "closure")


@fam
def assign(thorough):
    for cn, decl, bdy in CTX:
        for to in TYPES:
            for fr in TYPES:
                a = assignable(to, fr)
                if a is None or (not a and to in ("KA", "KB", "KC") and assignable("i32", fr) and cn in CALLS):
                    continue  # an argument may be made with the class's constructor
                f = dict(F=fr, T=to, v=VAL[fr], w=VAL[to])
                yield "%s:%s:%s" % (cn, to, fr), a, decl.format(**f), bdy.format(**f)


MORE = {"null": "null", "i32?": "1`i32", "[i32]": None}


@fam
def arrays(thorough):
    for to in TYPES:
        for fr in TYPES:
            a = assignable(to, fr)
            if a is None or (a and (to != fr) and not (to in INTS and fr in INTS)):
                continue
            f = dict(F=fr, T=to, v=VAL[fr], w=VAL[to])
            yield "init:%s:%s" % (to, fr), a, "", "var x: {F} = {v}; var y: [{T}, 2] = [x, x]".format(**f)
            if to != fr and fr not in ("UA", "UB") and to not in ("UA", "UB") and not a and not assignable(fr, to):
                yield "mixed:%s:%s" % (to, fr), False, "", "var x: {F} = {v}; var z: {T} = {w}; var y = [z, x]".format(**f)
                yield "slice:%s:%s" % (to, fr), False, "func $f(p: [{T}]): void {{ }}\n".format(**f), "var y: [{F}, 1] = [{v}]; $f(y)".format(**f)
    yield "toolong", False, "", "var y: [i32, 2] = [1`i32, 2`i32, 3`i32]"
    yield "same", True, "", "var y: [i32, 2] = [1`i32, 2`i32]"
    for t in TYPES:
        if t not in ("EN", "EM"):
            yield "index:%s" % t, t in INTS, "", "var x: %s = %s; var y: [i32, 2] = [1`i32, 2`i32]; var z = y.[x]" % (t, VAL[t])
        yield "index:of:%s" % t, False, "", "var x: %s = %s; var z = x.[0]" % (t, VAL[t]) if t != "string" else "var q = 5`i32; var z = q.[0]"
        yield "reassign:%s" % t, False, "", "var y: [%s, 1] = [%s]; var z: [%s, 1] = [%s]; y = z" % (t, VAL[t], t, VAL[t])


NUM = INTS + ["f32", "f64"]


@fam
def operators(thorough):
    for op in ("+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "&&", "||", "<", ">", "<=", ">=", "==", "!="):
        for a in TYPES:
            for b in TYPES:
                an, bn = a in NUM, b in NUM
                if a in ("EN", "EM", "wchar", "KA", "KB", "KC", "string") and b in ("EN", "EM", "wchar", "KA", "KB", "KC", "string") or a == b or a == "bool" or b == "bool":
                    ok = None
                elif op in ("+", "-", "*", "/", "<", ">", "<=", ">=", "==", "!="):
                    ok = an and bn
                elif op in ("&&", "||"):
                    ok = None
                else:
                    ok = a in INTS and b in INTS
                if an and bn and op in ("+", "-", "*", "/", "<", ">", "<=", ">=", "==", "!="):
                    ok = True
                if {a, b} & {"EN", "EM", "wchar"} and ok is not None and (a in NUM or b in NUM):
                    ok = None
                if a in INTS and b in INTS:
                    ok = op not in ("&&", "||") or None
                if {a, b} & {"SA", "SB", "(i32, i64)", "(i32, string)", "(i32, i32, i32)", "UA", "UB"} and a != b:
                    ok = False
                if a == b and a in ("SA", "SB", "(i32, i64)", "(i32, string)", "(i32, i32, i32)", "UA") and op not in ("==", "!="):
                    ok = False
                if op in ("&&", "||") and a == b == "bool":
                    ok = True
                if op in ("%", "&", "|", "^", "<<", ">>") and {a, b} & {"f32", "f64", "string"}:
                    ok = False
                if op in ("+", "-", "*", "/") and "string" in (a, b):
                    ok = False
                if ok is None:
                    continue
                yield "%s:%s:%s" % (op, a, b), ok, "", "var x: %s = %s; var y: %s = %s; var z = x %s y" % (a, VAL[a], b, VAL[b], op)
    for a in TYPES:
        for op, fit in (("-", NUM), ("+", NUM), ("~", INTS)):
            if a in ("EN", "EM", "wchar", "bool"):
                continue
            yield "pre%s:%s" % (op, a), a in fit, "", "var x: %s = %s; var z = %sx" % (a, VAL[a], op)
        for op in ("++", "--"):
            if a in ("EN", "EM", "wchar", "bool"):
                continue
            yield "pre%s:%s" % (op, a), a in NUM, "", "var x: %s = %s; %sx" % (a, VAL[a], op)
            yield "post%s:%s" % (op, a), a in NUM, "", "var x: %s = %s; x%s" % (a, VAL[a], op)
            yield "preconst%s:%s" % (op, a), False, "", "const x: %s = %s; %sx" % (a, VAL[a], op)
            yield "postconst%s:%s" % (op, a), False, "", "const x: %s = %s; x%s" % (a, VAL[a], op)


TRUTHY = {"bool": True, "SA": False, "SB": False, "(i32, i64)": False, "(i32, string)": False, "(i32, i32, i32)": False, "UA": False, "UB": False}


@fam
def conditions(thorough):
    for t in TRUTHY:
        for k, s in (("if", "if (x) { }"), ("while", "while (x) { break }"), ("ternary", "var y = x ? 1`i32 : 2`i32"), ("not", "var y = !x"), ("and", "var y = x && true"), ("or", "var y = true || x")):
            yield "%s:%s" % (k, t), TRUTHY[t], "", "var x: %s = %s; %s" % (t, VAL[t], s)
    for a in TYPES:
        for b in TYPES:
            if a == b or (a in NUM + ["EN", "EM", "wchar", "bool"] and b in NUM + ["EN", "EM", "wchar", "bool"]) or {a, b} & {"UA", "UB"} or {a, b} == {"KA", "KB"}:
                continue
            yield "branches:%s:%s" % (a, b), False, "", "var b = vi32() > 0; var x: %s = %s; var y: %s = %s; var z = b ? x : y" % (a, VAL[a], b, VAL[b])


# everything a statement can write to: (declarations, statements before, place, writable)
PLACES = [
    ("var", "", "var x = 1`i32;", "x", True), ("const", "", "const x = 1`i32;", "x", False),
    ("global", "var g$ = 1`i32;\n", "", "g$", True), ("globalconst", "const g$ = 1`i32;\n", "", "g$", False),
    ("field", "struct H$ { a: i32 }\n", "var h = H${a: 1};", "h.a", True),
    ("constobj", "struct H$ { a: i32 }\n", "const h = H${a: 1};", "h.a", False),
    ("constfield", "struct H$ { const a: i32 }\n", "var h = H${a: 1};", "h.a", False),
    ("nested", "struct H$ { a: SA }\n", "var h = H${a: SA{a: 1}};", "h.a.a", True),
    ("nestedconst", "struct H$ { a: SA }\n", "const h = H${a: SA{a: 1}};", "h.a.a", False),
    ("tuple", "", "var t = (1`i32, 2`i32);", "t.0", True), ("consttuple", "", "const t = (1`i32, 2`i32);", "t.0", False),
    ("tuplestruct", "", "var t = (SA{a: 1}, 2`i32);", "t.0.a", True), ("consttuplestruct", "", "const t = (SA{a: 1}, 2`i32);", "t.0.a", False),
    ("array", "", "var t = [1`i32, 2`i32];", "t.[0]", True), ("constarray", "", "const t = [1`i32, 2`i32];", "t.[0]", False),
    ("arraystruct", "", "var t = [SA{a: 1}];", "t.[0].a", True), ("constarraystruct", "", "const t = [SA{a: 1}];", "t.[0].a", False),
    ("deref", "", "var x = 1`i32; var p = ptrof x;", "(*p)", True), ("derefconst", "", "const x = 1`i32; var p = ptrof x;", "*p", False),
    ("ref", "", "var x = 1`i32; var p: &i32 = &x;", "p", True), ("refconst", "", "var x = 1`i32; var p: &const i32 = &x;", "*p", False),
    ("class", "", "var k = KA(1`i32);", "k.n", True),
    ("constclass", "", "const k = KA(1`i32);", "k.n", False),
    ("literal", "", "", "5", False), ("call", "", "", "vi32()", False), ("sum", "", "var x = 1`i32;", "(x + 1)", False), ("type", "", "", "i32", False), ("func", "", "", "vi32", False),
    ("enum", "", "", "EN.A", False),
]


@fam
def writes(thorough):
    for k, dec, pre, place, ok in PLACES:
        for op, st in (("=", "%s = 7`i32"), ("+=", "%s += 7`i32"), ("-=", "%s -= 7`i32"), ("*=", "%s *= 7`i32"), ("post++", "%s++"), ("pre--", "--%s")):
            yield "%s:%s" % (k, op), ok, dec, pre + " " + st % place
    for t in TYPES:
        f = dict(T=t, v=VAL[t])
        yield "param:%s" % t, True, "func $f(p: {T}): void {{ p = {v} }}\n".format(**f), ""
        yield "constvar:%s" % t, False, "", "const p: {T} = {v}; p = {v}".format(**f)
        yield "var:%s" % t, True, "", "var p: {T} = {v}; p = {v}".format(**f)
        yield "constmethod:%s" % t, False, "struct H$ {{ p: {T}\n const func f(): void {{ p = {v} }}\n}}\n".format(**f), ""
        yield "constmethodthis:%s" % t, False, "struct H$ {{ p: {T}\n const func f(): void {{ this.p = {v} }}\n}}\n".format(**f), ""
        yield "method:%s" % t, True, "struct H$ {{ p: {T}\n func f(): void {{ p = {v} }}\n}}\n".format(**f), ""
        yield "forconst:%s" % t, False, "", "var a: [{T}, 1] = [{v}]; for (const e: a) {{ e = {v} }}".format(**f)
    for kind in ("struct", "class"):
        dec = ("struct H$ { n: i32\n func m(): void { n = 2 }\n const func c(): i32 { return n }\n}\n" if kind == "struct" else
               "class H$ {\n n: i32\n func `init`() { n = 1 }\n func m(): void { n = 2 }\n const func c(): i32 { return n }\n}\n")
        v = "H${n: 1}" if kind == "struct" else "H$()"
        for q in ("var", "const"):
            yield "%s:%s:m" % (kind, q), q == "var", dec, "%s h = %s; h.m()" % (q, v)
            yield "%s:%s:c" % (kind, q), True, dec, "%s h = %s; var z = h.c()" % (q, v)
            yield "%s:%s:ref:m" % (kind, q), q == "var", dec + "func $f(h: &%s H$): void { h.m() }\n" % ("const" if q == "const" else ""), ""
            yield "%s:%s:ref:c" % (kind, q), True, dec + "func $f(h: &%s H$): i32 { return h.c() }\n" % ("const" if q == "const" else ""), ""


@fam
def paths(thorough):
    """every way down through fields (F), constant fields (C), tuples (T), arrays (I) and objects (K) from every kind of root; nothing below a constant can be written"""
    for depth in range(1, 5 if thorough else 4):
        for steps in itertools.product("FCTIK", repeat=depth):
            t, v, dec, place, ok = "i32", "1`i32", "", "", True
            for n, s in enumerate(reversed(steps)):
                if s in "FC":
                    dec += "struct H%d$ { %sa: %s\n n: i32 }\n" % (n, "const " if s == "C" else "", t)
                    t, v, place = "H%d$" % n, "H%d${a: %s, n: 1}" % (n, v), ".a" + place
                elif s == "K":
                    dec += "class H%d$ {\n a: %s\n func `init`(a: %s) { this.a = a }\n}\n" % (n, t, t)
                    t, v, place = "H%d$" % n, "H%d$(%s)" % (n, v), ".a" + place
                elif s == "T":
                    t, v, place = "(%s, i32)" % t, "(%s, 1`i32)" % v, ".0" + place
                else:
                    t, v, place = "[%s, 1]" % t, "[%s]" % v, ".[0]" + place
                if s == "C":
                    ok = False
            if re.search("[KT]I|II", "".join(steps)):
                continue  # arrays are not copied into these
            for root, pre, obj, w in (("var", "var h = %s;", "h", True), ("const", "const h = %s;", "h", False), ("ref", "", "p", True), ("cref", "", "p", False), ("ptr", "var h = %s; var p = ptrof h;", "(*p)", True), ("cptr", "const h = %s; var p = ptrof h;", "(*p)", False)):
                st = obj + place + " = 7`i32"
                if root in ("ref", "cref"):
                    if steps[0] in "I":
                        continue
                    yield "%s:%s" % (root, "".join(steps)), ok and w, dec + "func $f(p: &%s %s): void { %s }\n" % ("const" if root == "cref" else "", t, st), ""
                else:
                    yield "%s:%s" % (root, "".join(steps)), ok and w, dec, (pre % v) + " " + st


@fam
def names(thorough):
    B = dict(alone=True)
    for k, st in (("value", "var x = nope$n"), ("call", "nope$n()"), ("assign", "nope$n = 1"), ("type", "var x: Nope$ = 1"), ("generic", "var x: Nope$[i32] = 1"), ("cast", "var x = 1`i32 as Nope$"),
                  ("arg", "println(nope$n)"), ("member", "var x = nope$n.a"), ("struct", "var x = Nope${a: 1}"), ("new", "var x = Nope$()"), ("after", "{ var y = 1`i32; }\n var x = y"), ("before", "var x = y; var y = 1`i32;"),
                  ("loopvar", "for (const i: 0..3) { }\n var x = i"), ("ifvar", "if (const y = opt$o()) { }\n var x = y"), ("casevar", "var u: UA = 1`i32; match (u) { case i32 as e => { }\n else => { } }\n var x = e"),
                  ("twice", "var x = 1`i32; var x = 2`i32;"), ("twicefn", ""), ("twicetype", ""), ("twiceparam", ""), ("twicefield", ""), ("this", "var x = this"), ("super", "super.f()"),
                  ("closureparam", "var g = (p: i32) => p; var x = p"), ("catchvar", "")):
        dec = {"ifvar": "func $o(): i32? { return null }\n".replace("$o", "opt$o"), "twicefn": "func $f(a: i32) { }\nfunc $f(a: i32) { }\n", "twicetype": "struct H$ { a: i32 }\nstruct H$ { a: i32 }\n", "twiceparam": "func $f(a: i32, a: i32) { }\n",
               "twicefield": "struct H$ { a: i32\n a: i32 }\n"}.get(k, "")
        if k == "catchvar":
            continue
        yield k, False, dec, st, B
    for k, dec, st in (("shadow", "", "var x = 1`i32; { var x = 2`i32; println(x) }\n println(x)"), ("later", "", "var y = 1`i32; var x = y"), ("fwd", "func $f() => $g()\nfunc $g() => 1`i32\n", ""), ("fwdtype", "struct H$ { g: G$ }\nstruct G$ { a: i32 }\n", ""),
                       ("overload", "func $f(a: i32) { }\nfunc $f(a: string) { }\n", "")):
        yield k, True, dec, st
    for t in TYPES:
        yield "nomember:%s" % t, False, "", "var x: %s = %s; var y = x.nope" % (t, VAL[t])
        yield "nomethod:%s" % t, False, "", "var x: %s = %s; x.nope()" % (t, VAL[t])
        yield "setnomember:%s" % t, False, "", "var x: %s = %s; x.nope = 1`i32" % (t, VAL[t])
        if t not in ("EN", "EM"):
            yield "notcallable:%s" % t, False, "", "var x: %s = %s; x()" % (t, VAL[t])
        n = t.count(",") + 1 if t[0] == "(" else 0
        for i in range(4):
            yield "tuple:%s:%d" % (t, i), i < n, "", "var x: %s = %s; var y = x.%d" % (t, VAL[t], i)
    yield "enum:good", True, "", "var x = EN.B"
    yield "enum:nope", False, "", "var x = EN.Nope"
    yield "enum:typed", True, "", "var x: EN = .B"
    yield "enum:typednope", False, "", "var x: EN = .Nope"
    yield "enum:othertype", False, "", "var x: EN = EM.P2"


@fam
def arity(thorough):
    """calls with every number of arguments of functions with every number of parameters and defaults"""
    for kind in ("func", "method", "ctor", "closure", "generic"):
        for n in range(4):
            for d in range(n + 1):
                if kind == "closure" and d:
                    continue
                ps = ", ".join("p%d: i32%s" % (i, " = %d" % i if i >= n - d else "") for i in range(n))
                for k in range(6):
                    args = ", ".join(["1`i32"] * k)
                    ok = n - d <= k <= n
                    if kind == "func":
                        r = "func $f(%s) { }\n" % ps, "$f(%s)" % args
                    elif kind == "method":
                        r = "struct H$ { n: i32\n func f(%s) { }\n}\n" % ps, "var h = H${n: 1}; h.f(%s)" % args
                    elif kind == "ctor":
                        r = "class H$ {\n n: i32\n func `init`(%s) { n = 1 }\n}\n" % ps, "var h = H$(%s)" % args
                    elif kind == "closure":
                        r = "", "var g = (%s) => { }; g(%s)" % (ps, args)
                    else:
                        if n == 0:
                            continue
                        r = "func $f[T](%s) { }\n" % ps.replace("i32", "T", 1), "$f(%s)" % args
                        if k == 0 and d == n:
                            continue
                    yield "%s:%d:%d:%d" % (kind, n, d, k), ok, r[0], r[1]
    # every argument position may have the wrong type
    for kind in ("func", "method", "ctor"):
        for n in (1, 2, 3):
            for w in range(n):
                for a, b in (("i32", "string"), ("string", "i32"), ("SA", "SB"), ("KB", "KA"), ("EN", "string"), ("(i32, i64)", "i32"), ("bool", "i32"), ("i8", "i32"), ("u8", "i8x")):
                    if b == "i8x":
                        continue
                    if kind == "ctor" and False:
                        continue
                    ps = ", ".join("p%d: %s" % (i, a) for i in range(n))
                    args = ", ".join(VAL[b] if i == w else VAL[a] for i in range(n))
                    if a == "KB" and b == "KA":
                        pass
                    if kind == "func":
                        r = "func $f(%s) { }\n" % ps, "$f(%s)" % args
                    elif kind == "method":
                        r = "class H$ {\n n: i32\n func `init`() { n = 1 }\n func f(%s) { }\n}\n" % ps, "var h = H$(); h.f(%s)" % args
                    else:
                        r = "class H$ {\n n: i32\n func `init`(%s) { n = 1 }\n}\n" % ps, "var h = H$(%s)" % args
                    yield "%s:type:%d:%d:%s:%s" % (kind, n, w, a, b), False, r[0], r[1]


@fam
def structs(thorough):
    """struct literals with every subset of the fields, a wrong name, a duplicate, defaults"""
    for n in (1, 2, 3):
        for d in range(2 ** n):
            fs = "abc"[:n]
            dec = "struct H$ {\n" + "".join(" %s: i32%s\n" % (f, " = 5" if d >> i & 1 else "") for i, f in enumerate(fs)) + "}\n"
            for given in range(2 ** n):
                ok = all((given | d) >> i & 1 for i in range(n))
                yield "fields:%d:%d:%d" % (n, d, given), ok, dec, "var h = H${%s}" % ", ".join("%s: 1" % f for i, f in enumerate(fs) if given >> i & 1)
            allf = ", ".join("%s: 1" % f for f in fs)
            yield "extra:%d:%d" % (n, d), False, dec, "var h = H${%s, z: 1}" % allf
            yield "wrong:%d:%d" % (n, d), False, dec, 'var h = H${%s}' % allf.replace("1", '"s"', 1)
    for t in TYPES:
        if t[0] != "(":
            yield "notstruct:%s" % t, t in ("SA", "SB"), "", "var h = %s{a: 1}" % t


@fam
def returns(thorough):
    for t in TYPES:
        f = dict(T=t, v=VAL[t])
        yield "value:%s" % t, True, "func $f(): {T} {{ return {v} }}\n".format(**f), ""
        yield "none:%s" % t, False, "func $f(): {T} {{ return }}\n".format(**f), ""
        yield "void:%s" % t, False, "func $f(): void {{ return {v} }}\n".format(**f), ""
        if t == "i32":
          yield "missing:%s" % t, False, "func $f(): {T} {{ }}\n".format(**f), ""
        if t == "i32":
          yield "ifonly:%s" % t, False, "func $f(b: bool): {T} {{ if (b) return {v} }}\n".format(**f), ""
        yield "ifelse:%s" % t, True, "func $f(b: bool): {T} {{ if (b) return {v} else return {v} }}\n".format(**f), ""
        yield "after:%s" % t, True, "func $f(b: bool): {T} {{ if (b) return {v}\n return {v} }}\n".format(**f), ""
        yield "use:%s" % t, False, "func $f(): void {{ }}\n", "var x: {T} = $f()".format(**f)
        yield "novalue:%s" % t, False, "func $f(): void { }\n", "var x = $f()"
        for u in TYPES:
            if assignable(t, u) is False and assignable(u, t) is False and t[0] != "U" and u[0] != "U":
                yield "two:%s:%s" % (t, u), False, "func $f(b: bool) {{ if (b) return {v}\n return {w} }}\n".format(v=VAL[t], w=VAL[u]), ""
    for k, st, ok in (("break", "break", False), ("continue", "continue", False), ("ifbreak", "if (vi32() > 0) { break }", False), ("loopbreak", "while (true) { break }", True), ("forcontinue", "for (const i: 0..3) { continue }", True),
                      ("closurebreak", "while (true) { var g = () => { break }; g()\n break }", False), ("switchcontinue", "switch (vi32()) { case 1`i32 => continue\n default => { } }", False)):
        yield k, ok, "", st


@fam
def raising(thorough):
    X = "exception X$() => \"x\"\n"
    for callee, ret in (("!void", ""), ("!i32", "return 1`i32"), ("!string", 'return "s"')):
        void = callee == "!void"
        dec = X + "func $f(k: i32): %s { if (k > 0) raise X$();\n %s }\n" % (callee, ret)
        val = {"!i32": "5`i32", "!string": '"v"'}.get(callee)
        other = {"!i32": '"v"', "!string": "5`i32"}.get(callee)
        yield "plain:%s" % callee, False, dec, "$f(1)"
        yield "inraising:%s" % callee, True, dec + "func $g(): !void { $f(1) }\n", ""
        yield "innon:%s" % callee, False, dec + "func $g(): i32 { $f(1)\n return 1`i32 }\n", ""
        yield "catchblock:%s" % callee, void, dec, "$f(1) catch { println(5) }"
        if not void:
            yield "catchvalue:%s" % callee, True, dec, "var x = $f(1) catch %s" % val
            yield "catchwrong:%s" % callee, False, dec, "var x = $f(1) catch %s" % other
            yield "yield:%s" % callee, True, dec, "var x = $f(1) catch { yield %s }" % val
            yield "yieldwrong:%s" % callee, False, dec, "var x = $f(1) catch { yield %s }" % other
            yield "noyield:%s" % callee, False, dec, "var x = $f(1) catch { println(1) }"
            yield "var:%s" % callee, False, dec, "var x = $f(1)"
            yield "arg:%s" % callee, False, dec, "println($f(1))"
            yield "varraising:%s" % callee, True, dec + "func $g(): !void { var x = $f(1) }\n", ""
        else:
            yield "yieldvoid", False, dec, "$f(1) catch { yield 5`i32 }"
    yield "raisenon", False, X + "func $g(): void { raise X$() }\n", ""
    yield "raiseok", True, X + "func $g(): !void { raise X$() }\n", ""
    for t in TYPES:
        yield "raisetype:%s" % t, False, "func $g(): !void { raise %s }\n" % VAL[t], ""
        yield "catchnon:%s" % t, False, "func $g(): %s { return %s }\n" % (t, VAL[t]), "var x = $g() catch %s" % VAL[t]
    yield "closure", False, X + "func $f(k: i32): !void { if (k > 0) raise X$() }\n", "var g = () => { $f(1) }; g()"
    yield "ctor", False, X + "func $f(k: i32): !void { if (k > 0) raise X$() }\nclass H$ {\n n: i32\n func `init`() { n = 1; $f(1) }\n}\n", ""


@fam
def matches(thorough):
    ms = ["i32", "string", "SA", "KA"]
    for k in (2, 3):
        for us in itertools.permutations(ms, k):
            dec = "type U$ = %s\n" % " | ".join(us)
            for t in ms + ["u8", "SB", "KB", "UA"]:
                yield "member:%s:%s" % ("|".join(us), t), t in us, dec, "var u: U$ = %s; match (u) { case %s => { }\n else => { } }" % (VAL[us[0]], t)
            if us == tuple(sorted(us)):
                for m in range(2, 5):
                    for cs in itertools.product(us, repeat=m):
                        yield "cases:%s" % ",".join(cs), len(set(cs)) == m, dec, "var u: U$ = %s; match (u) { %s\n else => { } }" % (VAL[us[0]], "\n".join("case %s => { }" % t for t in cs))
            for t in us:
                yield "dup:%s:%s" % ("|".join(us), t), False, dec, "var u: U$ = %s; match (u) { case %s => { }\n case %s => { }\n else => { } }" % (VAL[us[0]], t, t)
            yield "dupelse:%s" % "|".join(us), False, dec, "var u: U$ = %s; match (u) { else => { }\n else => { } }" % VAL[us[0]]
    for t in TYPES:
        if t not in ("UA", "UB"):
            yield "notunion:%s" % t, False, "", "var u: %s = %s; match (u) { case %s => { }\n else => { } }" % (t, VAL[t], t)
    for t, vs in (("i32", ["1`i32", "2`i32"]), ("string", ['"a"', '"b"']), ("EN", ["EN.A", "EN.B"]), ("u8", ["1`u8", "2`u8"]), ("wchar", ["'a'", "'b'"])):
        yield "switch:%s" % t, True, "", "var x: %s = %s; switch (x) { case %s => { }\n case %s => { }\n default => { } }" % (t, VAL[t], vs[0], vs[1])
        yield "switchdup:%s" % t, False, "", "var x: %s = %s; switch (x) { case %s => { }\n case %s => { }\n default => { } }" % (t, VAL[t], vs[0], vs[0])
        for u, ws in (("i32", "1`i32"), ("string", '"a"'), ("bool", "true")):
            if u != t and (u == "string" or t == "string"):
                yield "switchtype:%s:%s" % (t, u), False, "", "var x: %s = %s; switch (x) { case %s => { }\n default => { } }" % (t, VAL[t], ws)
        yield "switchvar:%s" % t, False, "", "var x: %s = %s; var y: %s = %s; switch (x) { case y => { }\n default => { } }" % (t, VAL[t], t, VAL[t])
    for t in ("SA", "KA", "(i32, i64)", "f32", "UA"):
        yield "switchon:%s" % t, False, "", "var x: %s = %s; switch (x) { case 1`i32 => { }\n default => { } }" % (t, VAL[t])


@fam
def classes(thorough):
    """every subset of up to three abstract functions implemented at each of two levels; a class can be created once nothing is missing"""
    for n in (1, 2, 3):
        dec = "class A$ {\n n: i32\n func `init`() { n = 1 }\n%s}\n" % "".join(" virtual func f%d(): i32\n" % i for i in range(n))
        for b in range(2 ** n):
            for own in (0, 1):
                bd = "class B$ : A$ {\n func `init`() { super() }\n%s%s}\n" % ("".join(" func f%d(): i32 => %d`i32\n" % (i, i) for i in range(n) if b >> i & 1), " virtual func g(): i32\n" if own else "")
                full = b == 2 ** n - 1 and not own
                yield "abstract:2:%d:%d:%d" % (n, b, own), full, dec + bd, "var a = B$()"
                for c in range(2 ** n):
                    cd = "class C$ : B$ {\n func `init`() { super() }\n%s%s}\n" % ("".join(" func f%d(): i32 => %d`i32\n" % (i, i) for i in range(n) if c >> i & 1), "")
                    yield "abstract:3:%d:%d:%d:%d" % (n, b, own, c), (b | c) == 2 ** n - 1 and not own, dec + bd + cd, "var a = C$()"
                    if own:
                        cd = cd[:-2] + " func g(): i32 => 7`i32\n}\n"
                        yield "abstract:3g:%d:%d:%d" % (n, b, c), (b | c) == 2 ** n - 1, dec + bd + cd, "var a = C$()"
        yield "abstract:1:%d" % n, False, dec, "var a = A$()"
        mixed = dec.replace("f0(): i32", "f0(): i32 => 1`i32")
        yield "abstract:mixed:%d" % n, n == 1, mixed, "var a = A$()"
    for t in TYPES:
        if t[0] not in "(U":
            for k in ("class", "struct"):
                ini = " func `init`() { }\n" if k == "class" else " m: i32\n"
                if k == "class" and t[0] == "K":
                    continue
                yield "base:%s:%s" % (k, t), k == "struct" and t in ("SA", "SB"), "%s B$ : %s {\n%s}\n" % (k, t, ini), ""
    yield "final", False, "@final class A$ {\n n: i32 = 1\n}\nclass B$ : A$ {\n m: i32 = 1\n}\n", ""
    yield "supernone", False, "class B$ {\n n: i32\n func `init`() { super() }\n}\n", ""
    yield "noctor", False, "class B$ {\n n: i32\n}\n", "var x: i32 = B$()"


@fam
def casts(thorough):
    for a in TYPES:
        for b in TYPES:
            ok = None
            if a in NUM and b in NUM or a == b:
                ok = True if a in NUM else None
            groups = [NUM + ["EN", "EM", "bool", "wchar"], ["string"], ["SA"], ["SB"], ["KA", "KB"], ["KC"], ["(i32, i64)"], ["(i32, string)"], ["(i32, i32, i32)"], ["(string, i32)"], ["(string, i32, i32)"], ["(i32, string, i32)"], ["(i32, i32, string)"], ["(i64, i32)"]]
            ga = [i for i, g in enumerate(groups) if a in g]
            gb = [i for i, g in enumerate(groups) if b in g]
            if ga and gb and ga != gb:
                ok = False
            if ok is None:
                continue
            yield "%s:%s" % (a, b), ok, "", "var x: %s = %s; var y = x as %s" % (a, VAL[a], b)


@fam
def defaults(thorough):
    for to in TYPES:
        for fr in TYPES:
            a = assignable(to, fr)
            if a is None or a and to != fr or fr[0] == "U":
                continue
            yield "param:%s:%s" % (to, fr), a, "func $f(p: %s = %s) { }\n" % (to, VAL[fr]), ""
            yield "field:%s:%s" % (to, fr), a, "struct H$ { p: %s = %s }\n" % (to, VAL[fr]), "var h = H${}" if a else ""
    yield "order", False, "func $f(a: i32 = 1, b: i32) { }\n", "", dict(alone=True)


@fam
def generics(thorough):
    yield "missing", False, "struct G$[T] { a: T }\n", "var x: G$ = G$[i32]{a: 1}"
    yield "toomany", False, "struct G$[T] { a: T }\n", "var x = G$[i32, i32]{a: 1}"
    yield "ok", True, "struct G$[T] { a: T }\n", "var x = G$[i32]{a: 1}"
    yield "toofew", False, "struct G$[T, U] { a: T\n b: U }\n", "var x = G$[i32]{a: 1, b: 1}"
    for a in TYPES:
        for b in TYPES:
            if a != b and assignable(a, b) is False and assignable(b, a) is False:
                yield "instances:%s:%s" % (a, b), False, "struct G$[T] { a: T }\n", "var x = G$[%s]{a: %s}; var y: G$[%s] = x" % (a, VAL[a], b)
    for t in TYPES:
        yield "body:%s" % t, t in NUM, "func $f[T](a: T) { return a - a }\n", "var x: %s = %s; var y = $f(x)" % (t, VAL[t]) if t not in ("EN", "EM", "wchar", "bool") else "var x = 1`i32; var y = $f(x).nope"
        yield "same:%s" % t, True, "struct G$[T] { a: T }\n", "var x = G$[%s]{a: %s}; var y: G$[%s] = x" % (t, VAL[t], t)


U, A, M, D = "use", "assign", "move", "delete"


def flow(seq, st):
    """-> (state after, is every use of a variable that certainly has a value or may have one?); states: 'a' assigned, 'x' gone, 'm' maybe"""
    ok = True
    for op in seq:
        if op in (U, M, D) and st == "x":
            ok = False
        if op == A:
            st = "a"
        elif op in (M, D):
            st = "x"
        elif isinstance(op, tuple) and op[0] == "if":
            s1, o1 = flow(op[1], st)
            s2, o2 = flow(op[2], st)
            ok = ok and o1 and o2
            st = s1 if s1 == s2 else "m"
    return st, ok


def flowtext(seq, f, n):
    out = []
    for op in seq:
        n[0] += 1
        if isinstance(op, tuple):
            out.append("if (b) { %s } else { %s }" % (flowtext(op[1], f, n), flowtext(op[2], f, n)))
        else:
            out.append({U: f["use"], A: f["assign"], M: "var m%d = &&a" % n[0], D: "delete a"}[op])
    return "; ".join(out)


def flowkey(seq):
    return "".join(op[0] if not isinstance(op, tuple) else "(%s|%s)" % (flowkey(op[1]), flowkey(op[2])) for op in seq)


ITER = {
    "IA": """struct IA$ { n: i32
 func `..`() { var i = 0`i32; return () : i32? => { if (i < n) { return i++ } else return null } }
}
""", "IB": """struct IB$ { n: i32
 func `..`() { var i = 0`i32; return () : (i32, string)? => { if (i < n) { var t = (i++, "s"); return t } else return null } }
}
""", "IC": """struct IC$ { n: i32
 func `..`(): i32 { return 1`i32 }
}
""", "ID": """struct ID$ { n: i32
 func `..`() { return () : i32 => 1`i32 }
}
"""}


@fam
def loops(thorough):
    """what can be looped over, with how many variables, and what ranges are made of"""
    can = {"string": 2}
    for t in TYPES + ["[i32, 2]", "[string, 1]"]:
        v = {"[i32, 2]": "[1`i32, 2`i32]", "[string, 1]": '["s"]'}.get(t) or VAL[t]
        most = 2 if t[0] == "[" else can.get(t, 0)
        for n in (1, 2, 3):
            yield "over:%s:%d" % (t, n), n <= most, "", "var x: %s = %s; for (const %s: x) { }" % (t, v, ", ".join("i%d" % k for k in range(n)))
        if most:
            e = {"string": "string", "[i32, 2]": "i32", "[string, 1]": "string"}[t]
            for u in TYPES:
                ok = {("[i32, 2]", u): assignable(u, "i32"), ("[string, 1]", u): assignable(u, "string")}.get((t, u))
                if ok is not None and u[0] != "U":
                    yield "elem:%s:%s" % (t, u), ok, "", "var x: %s = %s; for (const e: x) { var y: %s = e; }" % (t, v, u)
                ok = assignable(u, "i64")
                if ok is not None and u[0] != "U":
                    yield "pos:%s:%s" % (t, u), ok, "", "var x: %s = %s; for (const e, i: x) { var y: %s = i; }" % (t, v, u)
        for n in (1, 2):
            # ranges
            ok = t in INTS
            if t[0] != "[" and t not in ("EN", "EM", "wchar"):
                yield "start:%s:%d" % (t, n), ok and n == 1, "", "var x: %s = %s; for (const %s: x..%s) { }" % (t, v, "i" if n == 1 else "i, j", v if ok else "5")
                yield "end:%s:%d" % (t, n), ok and n == 1, "", "var x: %s = %s; for (const %s: %s..x) { }" % (t, v, "i" if n == 1 else "i, j", v if ok else "0")
        num = t in NUM
        if t[0] != "[":
            for pos, form in (("from", "range(x, {o})"), ("to", "range({o}, x)"), ("by", "range({o}, {o}, x)")):
                if num:
                    yield "%s:%s" % (pos, t), True, "", "var x: %s = %s; var o: %s = %s; for (const i: %s) { }" % (t, v, t, v, form.format(o="o"))
                elif t not in ("EN", "EM", "wchar", "bool"):
                    yield "%s:%s" % (pos, t), False, "", "var x: %s = %s; var o = 1`i32; for (const i: %s) { }" % (t, v, form.format(o="o"))
    for k, e, nok in (("IA", "IA${n: 1}", 1), ("IB", "IB${n: 1}", 2), ("IC", "IC${n: 1}", 0), ("ID", "ID${n: 1}", 0)):
        for n in (1, 2, 3):
            if k == "IB" and n == 1:
                continue
            yield "iter:%s:%d" % (k, n), n == nok, ITER[k], "var x = %s; for (const %s: x) { }" % (e, ", ".join("i%d" % j for j in range(n)))
    for t in TYPES:
        for k, e, var, et in (("IA", "IA${n: 1}", "e", "i32"), ("IB0", "IB${n: 1}", "e, f", "i32"), ("IB1", "IB${n: 1}", "f, e", "string")):
            ok = assignable(t, et)
            if ok is not None and t[0] != "U":
                yield "itel:%s:%s" % (k, t), ok, ITER[k[:2]], "var x = %s; for (const %s: x) { var y: %s = e; }" % (e, var, t)
    for k, st in (("init", "var r = 1..3"), ("const", "const r = 1..3"), ("typed", "var r: i64 = 1..3"), ("arg", "println(1..3)"), ("assign", "var r = 1`i64; r = 1..3"), ("stmt", "1..3"), ("cond", "if (1..3) { }"), ("while", "while (1..3) { }"),
                  ("oper", "var r = (1..3) + 1"), ("twice", "for (const i: 0..1..2) { }"), ("index", "var a = [1`i32, 2`i32]; a.[0..1]"), ("field", "var r = SA{a: 1..3}"), ("elem", "var r = [1..3]"), ("tuple", "var r = (1..3, 1)"),
                  ("body", "for (const i: 0..1) { var r = 1..3; }"), ("casebody", "switch (vi32()) { case 1`i32 => { var r = 1..3; }\n default => { } }"), ("ternary", "var r = vi32() > 0 ? 1..3 : 2..4"), ("ret", "")):
        yield "value:%s" % k, False, "func $f() { return 1..3 }\n" if k == "ret" else "", st
    for k, st, ok in (("const", "for (const i: 0..3) { i = 1 }", False), ("elemconst", "var a = [1`i32]; for (const e: a) { e = 2`i32 }", False)):
        yield "write:%s" % k, ok, "", st


@fam
def indexing(thorough):
    decl = """struct XI$ { n: i32
 func `[]`(k: i32): string { return "s" }
}
struct XS$ { n: i32
 func `[]`(k: string): i32 { return 1`i32 }
 func `[]=`(k: string, v: i32): void { }
}
struct XN$ { n: i32 }
"""
    ROOT = {"array": ("var a = [1`i32, 2`i32];", "i32"), "string": ('var a = "text";', "char"), "XI": ("var a = XI${n: 1};", "string"), "XS": ("var a = XS${n: 1};", "i32")}
    for r, (pre, et) in ROOT.items():
        for t in TYPES:
            if t[0] == "U" or t in ("EN", "EM", "bool", "wchar"):
                continue
            want = {"XI": assignable("i32", t), "XS": assignable("string", t)}.get(r, t in INTS)
            if want is None or r == "XI" and t in INTS and t != "i32" and not want:
                if want is None:
                    continue
            yield "get:%s:%s" % (r, t), want, decl, pre + " var k: %s = %s; var x = a.[k]" % (t, VAL[t])
            if r in ("array", "XS"):
                yield "set:%s:%s" % (r, t), want, decl, pre + " var k: %s = %s; a.[k] = 1`i32" % (t, VAL[t])
                if et == "i32" and assignable("i32", t) is not None:
                    yield "put:%s:%s" % (r, t), assignable("i32", t), decl, pre + ' var v: %s = %s; a.[%s] = v' % (t, VAL[t], "0" if r == "array" else '"k"')
            if et != "char" and assignable(t, et) is not None:
                yield "as:%s:%s" % (r, t), assignable(t, et), decl, pre + " var x: %s = a.[%s]" % (t, '"k"' if r == "XS" else "0")
    yield "set:XI", False, decl, 'var a = XI${n: 1}; a.[0] = "t"'
    yield "get:XN", False, decl, "var a = XN${n: 1}; var x = a.[0]"
    yield "set:XN", False, decl, "var a = XN${n: 1}; a.[0] = 1`i32"
    for t in TYPES:
        if t == "string":
            continue
        yield "not:%s" % t, False, "", "var a: %s = %s; var x = a.[0]" % (t, VAL[t])
        yield "notset:%s" % t, False, "", "var a: %s = %s; a.[0] = 1`i32" % (t, VAL[t])


@fam
def shorthand(thorough):
    """`.Name` stands for a member of the enum that is expected, and nothing else"""
    for e, good, bad in (("EN", "B", "P"), ("EM", "Q", "A")):
        for name, ok in ((good, True), (bad, False), ("Nope", False)):
            for k, dec, st in (("init", "", "var x: {E} = .{N}"), ("const", "", "const x: {E} = .{N}"), ("assign", "", "var x: {E} = {V}; x = .{N}"), ("eq", "", "var x: {E} = {V}; if (x == .{N}) {{ }}"), ("ne", "", "var x: {E} = {V}; var b = x != .{N}"),
                               ("field", "struct H$ {{ e: {E} }}\n", "var h = H${{e: .{N}}}"), ("case", "", "var x: {E} = {V}; switch (x) {{ case .{N} => {{ }}\n default => {{ }} }}"), ("case2", "", "var x: {E} = {V}; switch (x) {{ case .{G}, .{N} => {{ }}\n default => {{ }} }}"),
                               ("fieldset", "struct H$ {{ e: {E} }}\n", "var h = H${{e: {V}}}; h.e = .{N}")):
                if k == "case2" and ok:
                    continue
                f = dict(E=e, N=name, V=VAL[e], G=good)
                yield "%s:%s:%s" % (k, e, name), ok, dec.format(**f), st.format(**f)
    for t in TYPES:
        if t not in ("EN", "EM"):
            yield "other:%s" % t, False, "", "var x: %s = .A" % t
            yield "othereq:%s" % t, False, "", "var x: %s = %s; var b = x == .A" % (t, VAL[t])
            yield "otherset:%s" % t, False, "", "var x: %s = %s; x = .A" % (t, VAL[t])
    yield "none", False, "", "var x = .A"
    yield "cond", False, "", "if (.A) { }"
    yield "stmt", False, "", ".A"


@fam
def typed(thorough):
    """`<T>value` converts like `as`"""
    for key, ok, dec, st in casts(thorough):
        a, b = key.split(":")
        yield key, ok, "", "var x: %s = %s; var y = <%s>x" % (a, VAL[a], b)
        yield "arg:" + key, ok, "func $f(p: %s) { }\n" % b, "var x: %s = %s; $f(x as %s)" % (a, VAL[a], b)
        yield "ret:" + key, ok, "func $f(x: %s): %s { return x as %s }\n" % (a, b, b), ""


@fam
def voids(thorough):
    """a call of a void function has no value"""
    V = "func $f(): void { }\n"
    for k, st in (("init", "var x = $f()"), ("arg", "println($f())"), ("cond", "if ($f()) { }"), ("while", "while ($f()) { }"), ("not", "var x = !$f()"), ("plus", "var x = $f() + 1"), ("eq", "if ($f() == $f()) { }"), ("and", "var x = true && $f()"),
                  ("ternary", "var x = true ? $f() : 1"), ("cond3", "var x = $f() ? 1 : 2"), ("assign", "var x = 1`i32; x = $f()"), ("compound", "var x = 1`i32; x += $f()"), ("index", "var a = [1`i32]; var x = a.[$f()]"), ("elem", "var a = [$f()]"), ("tuple", "var a = ($f(), 1)"),
                  ("field", "var a = SA{a: $f()}"), ("switch", "switch ($f()) { default => { } }"), ("for", "for (const i: $f()) { }"), ("range", "for (const i: 0..$f()) { }"), ("member", "var x = $f().a"), ("call", "$f()()"), ("cast", "var x = $f() as i32"), ("neg", "var x = -$f()"), ("deref", "var x = *$f()")):
        yield k, False, V, st
    yield "stmt", True, V, "$f()"
    yield "twice", True, V, "$f(); $f()"
    yield "arrow", True, V + "func $g() => $f()\n", "$g()"


@fam
def constness(thorough):
    """what can be done to an object reached through a constant, and through a variable"""
    J = """struct J$ { y: i32
 func w(): i32 { y = 4`i32; return y }
 const func r(): i32 { return y }
 func `+`(v: i32): i32 { y = v; return y }
 const func `-`(v: i32): i32 { return y - v }
 func `()`(v: i32): i32 { y = v; return y }
 func `[]`(v: i32): i32 { y = v; return y }
 func `[]=`(k: i32, v: i32) { y = v }
}
struct H$ { j: J$; k: i32 }
class C$ { j: J$
 func `init`() { j = J${y: 1} }
}
"""
    OPS = [("write", "{o}.y = 4`i32", True), ("add", "{o}.y += 4`i32", True), ("inc", "{o}.y++", True), ("preinc", "++{o}.y", True), ("mutate", "var q = {o}.w()", True), ("read", "var q = {o}.r()", False), ("get", "var q = {o}.y", False),
           ("op", "var q = {o} + 2`i32", True), ("constop", "var q = {o} - 2`i32", False), ("callop", "var q = {o}(3`i32)", True), ("index", "var q = {o}.[3`i32]", True), ("setindex", "{o}.[3`i32] = 4`i32", True), ("replace", "{o} = J${{y: 2}}", True)]
    # how the object is reached: declarations holding the operation, statements, the path to the object
    ROOTS = [("local", "", "{C} j = J${{y: 1}}; {op}", "j"), ("field", "", "{C} h = H${{j: J${{y: 1}}, k: 2}}; {op}", "h.j"), ("elem", "", "{C} a = [J${{y: 1}}, J${{y: 2}}]; {op}", "a.[1]"),
             ("tuple", "", "{C} a = (J${{y: 1}}, 2`i32); {op}", "a.0"), ("nestelem", "", "{C} h = [H${{j: J${{y: 1}}, k: 2}}]; {op}", "h.[0].j"), ("class", "", "{C} c = C$(); {op}", "c.j"),
             ("ref", "func $f(j: &{K}J$) {{ {op} }}\n", "var j = J${{y: 1}}; $f(&j)", "j"), ("ptr", "func $f(j: ^{K}J$) {{ {op} }}\n", "var j = J${{y: 1}}; $f(ptrof j)", "j"),
             ("this", "struct S$ {{ j: J$\n {K}func m() {{ {op} }}\n }}\n", "var s = S${{j: J${{y: 1}}}}; s.m()", "this.j"), ("own", "struct S$ {{ j: J$\n {K}func m() {{ {op} }}\n }}\n", "var s = S${{j: J${{y: 1}}}}; s.m()", "j"),
             ("thisclass", "class S$ {{ j: J$\n func `init`() {{ j = J${{y: 1}} }}\n {K}func m() {{ {op} }}\n }}\n", "var s = S$(); s.m()", "this.j"),
             ("inherited", "class T$ {{ j: J$\n func `init`() {{ j = J${{y: 1}} }}\n }}\nclass S$ : T$ {{ func `init`() {{ super() }}\n {K}func m() {{ {op} }}\n }}\n", "var s = S$(); s.m()", "this.j"),
             ("loop", "", "var a = [J${{y: 1}}, J${{y: 2}}]; for ({C} j: a) {{ {op} }}", "j"), ("global", "{C} g$ = J${{y: 1}};\n", "{op}", "g$"), ("twofields", "", "{C} h = (H${{j: J${{y: 1}}, k: 2}}, 1`i32); {op}", "h.0.j")]
    for (r, dec, st, o), const, (k, op, mutates) in itertools.product(ROOTS, (True, False), OPS):
        if r in ("ref", "ptr") and k == "replace" or r == "ptr" and k in ("op", "constop", "index", "setindex", "callop"):
            continue  # what is meant is the pointer
        f = dict(C="const" if const else "var", K="const " if const else "", op=op.format(o=o))
        yield "%s:%s:%s" % (r, "const" if const else "var", k), not (const and mutates), J + dec.format(**f), st.format(**f)


@fam
def functypes(thorough):
    """a closure must take and give what the function type says, and is called with that; nothing converts the values on the way"""
    D = "struct S$ { a: i32 }\nclass K$ { n: i32\n func `init`(n: i32) { this.n = n }\n}\n"
    T = {"i8": "1`i8", "i32": "3`i32", "i64": "4`i64", "u32": "4`u32", "u64": "4`u64", "f32": "2.5`f32", "f64": "2.5", "bool": "true", "string": '"s"', "char": "'c'", "S$": "S${a: 1`i32}", "K$": "K$(1`i32)", "(i32, i32)": "(1`i32, 2`i32)", "(i64, i32)": "(1`i64, 2`i32)", "i32?": "null", "^i32": "null"}
    alike = ({"i32", "u32"}, {"i64", "u64"})
    for a, b in itertools.product(T, T):
        if {a, b} in alike:
            continue
        n = "%s:%s" % (a.replace("$", ""), b.replace("$", ""))
        yield "param:" + n, a == b, D + "func $g(f: func(v: %s) -> i32, x: %s): i32 { return f(x) }\n" % (a, a), "var x: %s = %s; var q = $g((v: %s) => 7`i32, x)" % (a, T[a], b)
        if not thorough and a != b and a[0] + b[0] not in ("ii", "if", "fi", "SK", "KS", "(i", "i("):
            continue
        yield "second:" + n, a == b, D + "func $g(x: %s, f: func(u: bool, v: %s) -> i32): i32 { return f(true, x) }\n" % (a, a), "var x: %s = %s; var q = $g(x, (u: bool, v: %s) => 7`i32)" % (a, T[a], b)
        yield "result:" + n, a == b, D + "func $g(f: func() -> %s): void { const y = f() }\n" % a, "$g((): %s => %s)" % (b, T[b])
        yield "through:" + n, a == b, D + "func $h(f: func(v: %s) -> i32, x: %s): i32 { return f(x) }\nfunc $g(f: func(v: %s) -> i32, x: %s): i32 { return $h(f, x) }\n" % (a, a, b, a), "var x: %s = %s; var q = $g((v: %s) => 7`i32, x)" % (a, T[a], b)
    P = ["", "i32", "i32, bool", "i32, bool, i32"]
    for a, b in itertools.product(range(4), range(4)):
        sig = lambda k: ", ".join("%s: %s" % t for t in (("u", "i32"), ("v", "bool"), ("w", "i32"))[:k])
        args = lambda k: ", ".join(("1`i32", "true", "2`i32")[:k])
        yield "arity:%d:%d" % (a, b), a == b, "func $g(f: func(%s) -> i32): i32 { return f(%s) }\n" % (sig(a), args(a)), "var q = $g((%s) => 7`i32)" % sig(b)
        yield "call:%d:%d" % (a, b), a == b, "func $g(f: func(%s) -> i32): i32 { return f(%s) }\n" % (sig(a), args(b)), "var q = $g((%s) => 7`i32)" % sig(a)
    # what the function gives is used as what its type says
    for a, use, ok in (("i32", "i32", True), ("i8", "i32", True), ("i32", "i8", False), ("string", "i32", False), ("i32", "string", False), ("bool", "i32", False), ("K$", "i32", False), ("i32", "f64", True), ("i32?", "i32", False), ("i32", "i32?", True), ("void", "i32", False)):
        yield "use:%s:%s" % (a.replace("$", ""), use), ok, D + "func $g(f: func(v: i32) -> %s): %s { return f(1`i32) }\n" % (a, use), "var q = $g((v: i32): %s => %s)" % (a, T.get(a, "{ }"))
    for arg, ok in (("1`i32", True), ("1`i8", True), ("1`i64", False), ("true", False), ('"s"', False), ("null", False), ("K$(1`i32)", False), ("2.5", False)):
        yield "arg:%s" % arg.replace("$", ""), ok, D + "func $g(f: func(v: i32) -> i32): i32 { return f(%s) }\n" % arg, "var q = $g((v: i32) => v)"
    for v, ok in (("5`i32", False), ('"s"', False), ("true", False), ("(v: i32) => v", True), ("S${a: 1`i32}", False), ("(v: i32) => \"s\"", False), ("(v: i32) => { }", False), ("() => 5`i32", False)):
        yield "value:%s" % v.replace("$", ""), ok, D + "func $g(f: func(v: i32) -> i32): i32 { return f(2`i32) }\n", "var q = $g(%s)" % v


@fam
def pointees(thorough):
    """what is reached through a pointer is read as it was stored"""
    T = {"i8": "1`i8", "i16": "1`i16", "i32": "3`i32", "i64": "4`i64", "u8": "1`u8", "u32": "4`u32", "u64": "4`u64", "f32": "2.5`f32", "f64": "2.5", "bool": "true", "string": '"s"', "(i32, i32)": "(1`i32, 2`i32)", "(i64, i32)": "(1`i64, 2`i32)", "[i32, 2]": "[1`i32, 2`i32]", "^i32": "null", "^i8": "null"}
    alike = ({"i8", "u8"}, {"i32", "u32"}, {"i64", "u64"}, {"i8", "bool"}, {"u8", "bool"})
    for a, b in itertools.product(T, T):
        if {a, b} in alike or a != b and "[" in a + b or "^i8" in (a, b) and a != b and "^i32" not in (a, b):
            continue
        n = "%s:%s" % (a, b)
        v = "var x: %s = %s; " % (b, T[b])
        yield "init:" + n, a == b, "", v + "var p: ^%s = ptrof x" % a
        if not thorough and a != b and not (a[0] in "iuf" and b[0] in "iuf"):
            continue
        yield "var:" + n, a == b, "", v + "var p = ptrof x; var q: ^%s = p" % a
        yield "param:" + n, a == b, "func $g(p: ^%s): void { }\n" % a, v + "$g(ptrof x)"
        yield "field:" + n, a == b, "struct H$ { p: ^%s }\n" % a, v + "var h = H${p: ptrof x}"
        yield "assign:" + n, a == b, "", v + "var p: ^%s = null; p = ptrof x" % a
        yield "result:" + n, a == b, "func $g(p: ^%s): ^%s { return p }\n" % (b, a), v + "var q = $g(ptrof x)"
        yield "double:" + n, a == b, "", v + "var p = ptrof x; var q: ^^%s = ptrof p" % a
        yield "optional:" + n, a == b, "type P$ = ^%s\nfunc $g(p: P$?): void { }\n" % a, v + "$g(ptrof x)"
        yield "tooptional:" + n, False, "func $g(p: ^%s?): void { }\n" % a, v + "$g(ptrof x)"
        if "[" not in a + b and "(" not in a + b and "^" not in a + b:
            yield "array:" + n, a == b, "", "var x: [%s, 2] = [%s, %s]; var p: ^%s = x" % (b, T[b], T[b], a)
            yield "arrayarg:" + n, a == b, "func $g(p: ^%s): void { }\n" % a, "var x: [%s, 2] = [%s, %s]; $g(x)" % (b, T[b], T[b])
    vals = {k: v for k, v in dict(VAL, **OPTVAL).items()}
    for t, v in vals.items():
        for c in ("var", "const"):
            yield "deref:%s:%s" % (c, t), t in OPTVAL, "", "%s x: %s = %s; var q = *x" % (c, t, v)
            if t not in OPTVAL:
                b = t
                for how, st, ok in (("ptr", "%s p = ptrof x; const q: %s = *p" % (c, b), True), ("alias", "%s p: P$ = ptrof x; const q: %s = *p" % (c, b), True), ("ref", "%s p = ptrof x; const r = &p; const q: %s = *r" % (c, b), True), ("twice", "%s p = ptrof x; %s q = ptrof p; const r: %s = **q" % (c, c, b), True), ("once", "%s p = ptrof x; %s q = ptrof p; const r: %s = *q" % (c, c, b), False), ("thrice", "%s p = ptrof x; const r = **p" % c, False),
                                    ("elem", "%s p = ptrof x; const q: %s = p.[0]" % (c, b), True), ("field", "%s h = (ptrof x, 1`i32); const q: %s = *h.0" % (c, b), True), ("array", "%s h = [ptrof x]; const q: %s = *h.[0]" % (c, b), True), ("raw", "%s p = ptrof x; const q: %s = p" % (c, b), False)):
                    yield "read%s:%s:%s" % (how, c, t), ok, "type P$ = ^%s\n" % t, "var x: %s = %s; %s" % (t, v, st)
        yield "derefarray:%s" % t, False, "", "var x: [%s, 1] = [%s]; var q = *x" % (t, v)
    for d, u in (("struct A$ { a: i32 }\nstruct B$ { b: i32 }\n", "var b = B${b: 1}; var p: ^A$ = ptrof b"), ("class A$ { a: i32 }\nclass B$ { b: i32 }\n", "var b: B$ = null; var p: ^A$ = ptrof b"), ("enum A$ { X, Y }\nenum B$ { Z }\n", "var b = B$.Z; var p: ^A$ = ptrof b")):
        if d[0] != "e":
            yield "named:" + d.split()[0], False, d, u


OPTVAL = {"i32?": "1`i32", "string?": '"s"', "bool?": "true", "f64?": "2.5", "SA?": "SA{a: 1}", "KA?": "KA(1`i32)", "EN?": "EN.B", "(i32, i64)?": "(1`i32, 2`i64)"}


@fam
def compound(thorough):
    """compound assignment is for numbers"""
    vals = dict(VAL, **OPTVAL)
    for op in ("+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"):
        for a, b in itertools.product(vals, vals):
            if not thorough and a != b and a not in ("i32", "string", "SA", "KA", "(i32, i64)", "UA", "i32?", "SA?") and b not in ("i32", "i32?"):
                continue
            if a in NUM + ["EN", "EM", "wchar", "bool"] and b in NUM + ["EN", "EM", "wchar", "bool"]:
                continue
            for st in ("var x: %s = %s; var y: %s = %s; x %s= y", "var x: [%s, 1] = [%s]; var y: %s = %s; x.[0] %s= y", "var q: %s = %s; var x = (q, 1`i32); var y: %s = %s; x.0 %s= y"):
                if st[0:5] != "var x" and a == b:
                    continue
                yield "%s:%s:%s:%s" % (op, a, b, {":": "var", "[": "elem", " ": "member"}[st[5] if st[5] != ":" else ("[" if "[" in st[:9] else ":")]), False, "", st % (a, vals[a], b, vals[b], op)


@fam
def optionals(thorough):
    """what a value that may be missing can be used for"""
    for t, v in OPTVAL.items():
        b = t[:-1]
        pre = "var x: %s = %s; " % (t, v)
        F = "func $f(p: %s): void { }\n" % b
        for key, dec, st, ok in [
            ("if", "", "if (x) { }", True), ("ifnot", "", "if (!x) { }", True), ("while", "", "while (x) { x = null }", True), ("not", "", "var q: bool = !x", True), ("notnot", "", "var q: bool = !!x", True), ("ternary", "", "var q = x ? 1`i32 : 2`i32", True), ("ternarynot", "", "var q = !x ? 1`i32 : 2`i32", True),
            ("ifvar", "", "if (const y = x) { const q: %s = *y }" % b, True), ("ifvarraw", "", "if (const y = x) { const q: %s = y }" % b, False), ("value", "", "const q: %s = *x" % b, True), ("raw", "", "const q: %s = x" % b, False), ("arg", F, "$f(x)", False), ("argvalue", F, "$f(*x)", True),
            ("null", "", "x = null", True), ("set", "", "x = %s" % v, True), ("setother", "", "x = %s" % ('"s"' if b[0] != "s" else "5`i32"), False), ("setvoid", "", "x = println(1)", False), ("copy", "", "var y: %s = x; y = x" % t, True), ("bool", "", "var q: bool = x", None if b == "bool" else False),
            ("deref2", "", "var q = **x", False), ("setvalue", "", "*x = %s" % v, False), ("call", "", "x()", False), ("index", "", "var q = x.[0]", False), ("loop", "", "for (const i: x) { }", False), ("ptr", "", "var p: ^%s = x" % b, False), ("const", "", "const y: %s = %s; y = null" % (t, v), False),
            ("nulltobase", "", "var q: %s = null" % b, None if b in ("KA", "string", "SA") or b[0] == "(" else False), ("missing", "", "var q = x.nope", False), ("return", "func $f(p: %s): %s { return p }\n" % (t, b), "", False), ("returnvalue", "func $f(p: %s): %s { return p }\n" % (b, t), "", True), ("returnnull", "func $f(): %s { return null }\n" % t, "", True), ("returnnothing", "func $f(): %s { return }\n" % t, "", False),
            ("field", "struct H$ { p: %s }\n" % t, "var h = H${p: x}; h.p = null; h.p = %s" % v, True), ("fieldnull", "struct H$ { p: %s }\n" % t, "var h = H${p: null}", True), ("fieldraw", "struct H$ { p: %s }\n" % b, "var h = H${p: x}", False), ("array", "", "var q: [%s, 2] = [x, x]" % t, None), ("generic", "func $f[T](p: T): T { return p }\n", "var q = $f(x); q = null", True),
            ("cast", "", "var q = x as i32", False), ("switch", "", "switch (x) { default => { } }", False), ("paramnull", "func $f(p: %s): void { }\n" % t, "$f(null); $f(x); $f(%s)" % v, True), ("paramother", "func $f(p: %s): void { }\n" % t, "$f(%s)" % ('"s"' if b[0] != "s" else "5`i32"), None if b == "KA" else False),
            ("otheropt", "", "var y: %s = x" % ("string?" if b != "string" else "i32?"), False), ("swap", "", "var y: %s = null; y = x; x = y" % t, True),
        ]:
            if ok is not None:
                yield "%s:%s" % (key, t), ok, dec, pre + st
        for m in {"SA?": ("x.a",), "KA?": ("x.n",), "(i32, i64)?": ("x.0",), "string?": ("x.[0]",)}.get(t, ()):
            yield "member:%s" % t, False, "", pre + "var q = %s" % m
            if m[2] != "[":
                yield "valuemember:%s" % t, True, "", pre + "var q = (*x)%s" % m[1:]
        for op in ("+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", ">", "<=", ">="):
            for o in (t, b):
                yield "op%s:%s:%s" % (op, t, o), False, "", pre + "var y: %s = %s; var q = x %s y" % (o, v, op)
        for op in ("-", "~", "++", "--"):
            yield "pre%s:%s" % (op, t), False, "", pre + ("var q = %sx" % op if len(op) == 1 else op + "x")
        yield "post++:%s" % t, False, "", pre + "x++"


@fam
def owners(thorough):
    """a member function and a field need an object; a static function has none"""
    for kind in ("struct", "class", "derived", "generic"):
        base = "x: i32; %s func m(): i32 { return x }\n @static func s(): i32 { return 8`i32 }\n" % ("func `init`() { x = 1`i32 }\n" if kind in ("class", "derived") else "")
        for use, ok in (("x", False), ("this.x", False), ("m()", False), ("this.m()", False), ("s()", True), ("H$.s()", True), ("H$.m()", False), ("H$.x", False)):
            if kind == "generic" and "H$" in use:
                continue
            t = "@static func t(): i32 { return %s }\n" % use
            if kind == "derived":
                d = "class H$ { %s }\nclass I$ : H$ { func `init`() { super() }\n %s }\n" % (base, t)
            else:
                d = "%s H$%s { %s %s }\n" % ("class" if kind == "class" else "struct", "[T]" if kind == "generic" else "", base, t)
            n = {"derived": "I$", "generic": "H$[i32]"}.get(kind, "H$")
            yield "in:%s:%s" % (kind, use.replace("$", "")), ok, d, "var q = %s.t()" % n
        for use, ok in (("N.x", False), ("N.m()", False), ("N.s()", True), ("k.x", True), ("k.m()", True), ("k.s()", True), ("N.nope", False), ("N.nope()", False), ("k.nope()", False), ("A.x", False), ("A.m()", False), ("A.s()", True)):
            if kind == "derived":
                d = "class H$ { %s }\nclass I$ : H$ { func `init`() { super() }\n }\n" % base
            else:
                d = "%s H$%s { %s }\n" % ("class" if kind == "class" else "struct", "[T]" if kind == "generic" else "", base)
            n = {"derived": "I$", "generic": "H$[i32]"}.get(kind, "H$")
            if kind == "generic" and use[0] == "A":
                continue
            if use[0] == "A":
                d += "type A$ = %s\n" % n
            new = {"struct": "H${x: 1}", "generic": "H$[i32]{x: 1}"}.get(kind, n + "()")
            yield "from:%s:%s" % (kind, use), ok, d, "var k = %s; var q = %s" % (new, use.replace("N.", n + ".").replace("A.", "A$."))


@fam
def moved(thorough):
    """every sequence of uses, assignments, moves and deletes, in straight lines and in the branches of an if"""
    ops = [U, A, M, D]
    br = [()] + [(o,) for o in ops] + [(o, p) for o in ops for p in (ops if thorough else (U, A))]
    seqs = [s for n in range(1, 5) for s in itertools.product(ops, repeat=n)]
    seqs += [pre + (("if", x, y),) + post for x in br for y in br for pre in ((), (M,), (D,), (M, A)) for post in ((), (U,), (A, U), (M,))]
    kinds = {"class": ("a: KA = KA(1`i32)", "println(a.n)", "a = KA(2`i32)"), "struct": ('a: SM = SM{s: String()}', "println(a.k)", 'a = SM{s: String()}')}
    for kn in kinds:
        decl, use, asg = kinds[kn]
        f = dict(use=use, assign=asg)
        for s in seqs:
            if sum(len(flowkey((o,))) for o in s) > (9 if thorough else 8):
                continue
            st, ok = flow(s, "a")
            yield "%s:%s" % (kn, flowkey(s)), ok, "func $f(b: bool) { var %s; %s\n}\n" % (decl, flowtext(s, f, [0])), "", dict(stage="MemoryMgmt")


def items(thorough):
    for fn in FAMS:
        for row in fn(thorough):
            key, ok, decl, bdy = row[:4]
            opts = row[4] if len(row) > 4 else {}
            key = key.replace(" ", "")
            yield dict(dict(fam=fn.__name__, key=key, ok=ok, decl=decl, body="func c$() { " + bdy + " }\n"), **opts)
