"""C18: an imported name is the declaration of that name which the module made public."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from prog import *

# kind: (declaration with name N and value V, statements that observe name X)
KINDS = {
    "func": ("func N(): i32 { return V`i32 }", "ev(X())\n"),
    "arrow": ("func N(x: i32): i32 => x + V`i32", "ev(X(100`i32))\n"),
    "var": ("var N = V`i32;", "ev(X)\n"),
    "const": ("const N = V`i32;", "ev(X)\n"),
    "struct": ("struct N { f: i32\n func get(): i32 { return f + V`i32 } }", "{ var s = X{f: 100`i32}; ev(s.get()) }\n"),
    "class": ("class N { f: i32;\n func `init`() { f = V`i32 }\n func get(): i32 { return f } }", "{ var s = X(); ev(s.get()) }\n"),
    "enum": ("enum N { P = V }", "ev(X.P as i32)\n"),
    "gfunc": ("func N[T](x: T): T { return x + V`i32 }", "ev(X(100`i32)); ev(X[i32](200`i32))\n"),
    "gstruct": ("struct N[T] { f: T\n func get(): T { return f + V`i32 } }", "{ var s = X[i32]{f: 100`i32}; ev(s.get()) }\n"),
    "type": ("type N = [i32, V]", "{ var s: X = []; ev((sizeof!(s) / 4) as i32) }\n"),
}
OBS = {"arrow": [100], "struct": [100], "gfunc": [100, 200], "gstruct": [100]}


class P:
    """A program of several files: main's declarations and statements, the modules beside it, and what it does (None: it is rejected)."""
    def __init__(self, key, imports, decl, body, mods, trace):
        self.key, self.imports, self.decl, self.body, self.mods, self.trace = key, imports, decl, body, mods, trace


def names(thorough):
    """every placing of one name in main and two modules x visibility x form of import, for every kind of declaration"""
    for kind, (decl, use) in KINDS.items():
        D = lambda v, pub: ("pub " if pub else "") + decl.replace("N", "N$").replace("V", str(v)) + "\n"
        U = lambda x: use.replace("X", x)
        O = lambda v: [o + v for o in OBS.get(kind, [0])]
        forms = ("alias", "named", "renamed")
        for m, v1, v2, f1, f2 in itertools.product((0, 1), (0, 1, 2), (0, 1, 2), forms, forms):
            key = "%s:%s:%s.%s:%s.%s" % (kind, "main" if m else "nomain", ("absent", "private", "public")[v1], f1, ("absent", "private", "public")[v2], f2)
            mods, imports, body, tr, bad = {}, "", "", [], []
            cand, fine = [1] if m else [], True
            for n, v, f in ((1, v1, f1), (2, v2, f2)):
                val = 10 * n + 1
                t = "module m%d_$\n" % n + (D(val, v == 2) if v else "")
                if kind == "class" or kind == "struct" or kind == "gstruct":
                    own = U("N$").replace("ev(", "return ").replace("get())", "get()").strip("{} \n")
                elif kind == "gfunc":
                    own = "return N$(100`i32)"
                elif kind == "type":
                    own = "var s: N$ = []; return (sizeof!(s) / 4) as i32"
                else:
                    own = re.sub(r"^ev\((.*)\)\n$", r"return \1", U("N$"))
                t += "pub func own%d$(): i32 { %s }\n" % (n, own if v else "return 0`i32")
                mods["m%d_$.cxy" % n] = t
                imports += 'import "./m%d_$.cxy" as z%d_$\n' % (n, n)
                body += "ev(z%d_$.own%d$())\n" % (n, n)
                tr += O(val)[:1] if v else [0]
                if f == "alias":
                    imports += 'import "./m%d_$.cxy" as q%d_$\n' % (n, n)
                    if v == 2:
                        body += U("q%d_$.N$" % n)
                        tr += O(val)
                    else:
                        bad.append(U("q%d_$.N$" % n))
                else:
                    imports += 'import { N$%s } from "./m%d_$.cxy"\n' % (" as R%d_$" % n if f == "renamed" else "", n)
                    fine &= v == 2
                    if f == "named":
                        cand.append(val)
                    else:
                        body += U("R%d_$" % n)
                        tr += O(val)
            md = D(1, False) if m else ""
            fine &= len(cand) <= 1
            if cand:
                body += U("N$")
                tr += O(cand[0])
            else:
                bad.append(U("N$"))
            if not fine:
                yield P(key, imports, md, body, mods, None)
                continue
            yield P(key, imports, md, body, mods, tr)
            for i, b in enumerate(bad):
                yield P("%s:bad%d" % (key, i), imports, md, body + b, mods, None)


def state(thorough):
    """a module's variable is one variable, whoever reads or writes it and through whichever import"""
    m1 = "module m1_$\npub var g = 0`i32;\nvar h = 0`i32;\npub func inc() { g += 1`i32; h += 10`i32 }\npub func hid(): i32 { return h }\npub func set(v: i32) { g = v; h = v }\n"
    m2 = 'module m2_$\nimport "./m1_$.cxy" as o\nimport { g as gg, inc } from "./m1_$.cxy"\npub func dbl() { o.g *= 2`i32; inc() }\npub func sub() { gg -= 3`i32; o.inc() }\npub func see(): i32 { return gg * 100`i32 + o.hid() }\n'
    imp = 'import "./m1_$.cxy" as a$\nimport "./m1_$.cxy" as b$\nimport { g as c$ } from "./m1_$.cxy"\nimport "./m2_$.cxy" as d$\n'

    def add(n):
        def f(s):
            s[0] += n
        return f

    def both(g, h):
        def f(s):
            s[0], s[1] = g(s[0]), s[1] + h
        return f
    OPS = [("a$.g += 5`i32", both(lambda g: g + 5, 0)), ("b$.g = b$.g * 3`i32", both(lambda g: g * 3, 0)), ("c$ -= 1`i32", both(lambda g: g - 1, 0)),
           ("a$.inc()", both(lambda g: g + 1, 10)), ("d$.dbl()", both(lambda g: g * 2 + 1, 10)), ("d$.sub()", both(lambda g: g - 2, 10))]
    n = 4 if thorough else 3
    body, tr = "", []
    for k, seq in enumerate(itertools.product(OPS, repeat=n)):
        s = [7, 7]
        body += "a$.set(7`i32)\n"
        for t, f in seq:
            f(s)
            body += t + "\n"
        body += "ev(a$.g); ev(b$.g); ev(c$); ev(a$.hid()); ev(d$.see())\n"
        tr += [s[0]] * 3 + [s[1], s[0] * 100 + s[1]]
        if k % 36 == 35:
            yield P("seq:%d" % k, imp, "", body, {"m1_$.cxy": m1, "m2_$.cxy": m2}, tr)
            body, tr = "", []


def identity(thorough):
    """a type is the same type through every import of it, and another type than one of the same name elsewhere"""
    T = {"struct": ("struct T { f: i32\n func get(): i32 { return f * 2`i32 } }", "T{f: 4`i32}", "{x}.get()", 8),
         "class": ("class T { f: i32;\n func `init`(x: i32) { f = x }\n func get(): i32 { return f * 2`i32 } }", "T(4`i32)", "{x}.get()", 8),
         "enum": ("enum T { A, B = 5 }", "T.B", "{x} as i32", 5),
         "gstruct": ("struct G[X] { f: X\n func get(): X { return f * 2`i32 } }\npub type T = G[i32]", "G[i32]{f: 4`i32}", "{x}.get()", 8)}
    for kind, (d, mk, obs, val) in T.items():
        m1 = "module m1_$\npub %s\npub func mk(): T { return %s }\npub func take(x: T): i32 { return %s }\n" % (d, mk, obs.replace("{x}", "x"))
        m2 = 'module m2_$\nimport "./m1_$.cxy" as o\nimport { T } from "./m1_$.cxy"\npub type A = o.T\npub type B = T\npub func mk2(): o.T { return o.mk() }\npub func mk3(): T { return o.mk() }\npub func take2(x: T): i32 { return o.take(x) }\n'
        m3 = "module m3_$\npub %s\npub func mk(): T { return %s }\npub func take(x: T): i32 { return %s }\n" % (d, mk, obs.replace("{x}", "x"))
        imp = 'import "./m1_$.cxy" as a$\nimport "./m1_$.cxy" as b$\nimport { T as c$ } from "./m1_$.cxy"\nimport "./m2_$.cxy" as d$\nimport "./m3_$.cxy" as e$\nimport { B as B$, A as A$ } from "./m2_$.cxy"\n'
        mods = {"m1_$.cxy": m1, "m2_$.cxy": m2, "m3_$.cxy": m3}
        types = ["a$.T", "b$.T", "c$", "d$.A", "d$.B", "A$", "B$"]
        makers = ["a$.mk()", "b$.mk()", "d$.mk2()", "d$.mk3()"]
        takers = ["a$.take", "b$.take", "d$.take2"]
        for t, u in itertools.product(types, repeat=2):
            for m, k in itertools.product(makers, takers):
                yield P("%s:%s=%s=%s>%s" % (kind, t, u, m, k), imp, "", "{ var x: %s = %s; var y: %s = x; ev(%s(y)); ev(%s) }\n" % (t, m, u, k, obs.replace("{x}", "y")), mods, [val, val])
        if kind == "enum":
            continue        # one enumeration converts to another, in one file as well
        yield P(kind + ":other", imp, "", "{ var x: e$.T = e$.mk(); ev(e$.take(x)) }\n", mods, [val])
        for t in types:
            yield P("%s:other:%s" % (kind, t), imp, "", "{ var x: %s = e$.mk() }\n" % t, mods, None)
        for m, k in itertools.product(makers, ["e$.take"]):
            yield P("%s:other:%s>%s" % (kind, m, k), imp, "", "{ var x = %s(%s) }\n" % (k, m), mods, None)
        for k in takers:
            yield P("%s:other>%s" % (kind, k), imp, "", "{ var x = %s(e$.mk()) }\n" % k, mods, None)


def graph(thorough):
    """every graph of imports among modules: circles are rejected, everything else is initialised once, a module after those it imports"""
    n = 3
    pairs = [(i, j) for i in range(n) for j in range(n)]
    for bits in itertools.product((0, 1), repeat=len(pairs)):
        if not thorough and any(b and i == j for b, (i, j) in zip(bits, pairs)) and sum(bits) > 2:
            continue
        E = [p for b, p in zip(bits, pairs) if b]
        for roots in [(0,), (0, 1), (2, 1, 0), (1, 2)] if thorough else [(0,), (2, 1, 0)]:
            order, cyc = [], [False]

            def visit(i, stack):
                if i in stack:
                    cyc[0] = True
                    return
                if i in order:
                    return
                for a, b in E:
                    if a == i and not cyc[0]:
                        visit(b, stack + [i])
                order.append(i)
            for r in roots:
                visit(r, [])
            mods, val = {}, {}
            for i in range(n):
                deps = [b for a, b in E if a == i]
                mods["m%d_$.cxy" % i] = ("module m%d_$\n" % i + "".join('import "./m%d_$.cxy" as o%d\n' % (b, b) for b in deps)
                                         + "func first(): i32 { return %d`i32%s }\n" % (10 ** i, "".join(" + o%d.g" % b for b in deps))
                                         + "pub var g = first();\npub func get(): i32 { return g }\n")
            key = "%s:%s" % (",".join("%d-%d" % e for e in E), ",".join(map(str, roots)))
            imp = "".join('import "./m%d_$.cxy" as r%d_$\n' % (r, r) for r in roots)
            body = "".join("ev(r%d_$.g); ev(r%d_$.get())\n" % (r, r) for r in roots)
            if cyc[0]:
                yield P(key, imp, "", body, mods, None)
                continue
            for i in order:
                val[i] = 10 ** i + sum(val[b] for a, b in E if a == i)
            yield P(key, imp, "", body, mods, [x for r in roots for x in (val[r], val[r])])


def across(thorough):
    """generics, classes, exceptions, overloads and macros whose parts lie in different modules"""
    # a generic made in main's types, using its own module's private parts
    m1 = ("module m1_$\nfunc help(x: i32): i32 { return x * 3`i32 }\nvar seen = 0`i32;\n"
          "pub func gen[T](x: T): i32 { seen += 1`i32; return help(x.val()) }\npub func count(): i32 { return seen }\npub func zero() { seen = 0`i32 }\n"
          "pub struct Box[T] { v: T\n func run(): i32 { return help(v.val()) } }\n")
    imp = 'import "./m1_$.cxy" as o$\nimport { gen as g$, Box as B$ } from "./m1_$.cxy"\n'
    decl = "func help$(x: i32): i32 { return x * 50`i32 }\nstruct S$ { a: i32\n func val(): i32 { return a } }\nstruct U$ { a: i32\n func val(): i32 { return a + 1`i32 } }\n"
    calls = [("o$.gen(S${a: 2`i32})", 6, 1), ("g$(S${a: 2`i32})", 6, 1), ("o$.gen(U${a: 2`i32})", 9, 1), ("g$(U${a: 3`i32})", 12, 1), ("o$.Box[S$]{v: S${a: 5`i32}}.run()", 15, 0), ("B$[U$]{v: U${a: 5`i32}}.run()", 18, 0)]
    for seq in itertools.product(range(len(calls)), repeat=3):
        body, tr, n = "o$.zero()\n", [], 0
        for j, s in enumerate(seq):
            t, v, k = calls[s]
            if ".run()" in t:
                body += "{ var b%d = %s; ev(b%d.run()) }\n" % (j, t[:-6], j)
            else:
                body += "ev(%s)\n" % t
            n += k
            tr += [v, n]
            body += "ev(o$.count())\n"
        yield P("generic:%s" % "".join(map(str, seq)), imp, decl, body, {"m1_$.cxy": m1}, tr)
    # a generic type of one module, of elements of another, held in every way, under every spelling
    m1 = "module m1_$\npub struct S$[T] { x: T\n func get(): T { return x } }\npub struct L$ { v: i32 }\npub enum E$ { A, B = 7 }\npub func mk$[T](x: T) { return S$[T]{x: x} }\n"
    m2 = 'module m2_$\nimport "./m1_$.cxy" as o\nimport { S$ as Z$ } from "./m1_$.cxy"\npub struct W$[T] { s: o.S$[T]\n func get(): T { return s.get() } }\npub func wrap$[T](x: T) { return o.mk$(o.mk$(x)) }\npub func un$[T](x: o.S$[T]): T { return x.get() }\npub func un2$[T](x: Z$[T]): T { return x.x }\n'
    imp = 'import "./m1_$.cxy" as o$\nimport { S$, S$ as R$, mk$ } from "./m1_$.cxy"\nimport "./m2_$.cxy" as p$\n'
    elems = {"i32": ("5`i32", "{}", 5), "L$": ("L${v: 6`i32}", "{}.v", 6), "o$.L$": ("o$.L${v: 8`i32}", "{}.v", 8), "o$.E$": ("o$.E$.B", "({} as i32)", 7), "o$.S$[i32]": ("o$.mk$(9`i32)", "{}.x", 9)}
    decl = "struct L$ { v: i32\n func more(): i32 { return v } }\n"
    for (t, u), (e, (mk, see, v)) in itertools.product(itertools.product(["o$.S$", "S$", "R$"], repeat=2), elems.items()):
        ty, val = "%s[%s]" % (t, e), "%s[%s]{x: %s}" % (u, e, mk)
        for h, (d, st) in {"var": ("", "var a: {t} = {m}; ev(%s)"), "inferred": ("", "var a: {t} = mk$({k}); ev(%s)"), "array": ("", "var b: [{t}, 2] = [{m}, {m}]; var a: {t} = b.[1]; ev(%s)"), "tuple": ("", "var b: ({t}, i32) = ({m}, 1`i32); var a: {t} = b.0; ev(%s)"),
                           "optional": ("", "var b: {t}? = {m}; if (b) { var a = *b; ev(%s) }"), "field": ("struct H$ { f: {t} }\n", "var b = H${f: {m}}; var a = b.f; ev(%s)"), "wide": ("", "var b = p$.W$[{e}]{s: {m}}; var a = b.s; ev(%s)"),
                           "param": ("func g$(a: {t}) { ev(%s) }\n", "g$({m})"), "result": ("func g$(): {t} { return {m} }\n", "var a = g$(); ev(%s)"), "closure": ("", "var c = (a: {t}) => a; var a = c({m}); ev(%s)"), "wrap": ("", "var b = p$.wrap$({k}); var a: {t} = b.get(); ev(%s)"),
                           "pointer": ("", "var b: {t} = {m}; var q = ptrof b; var a = *q; ev(%s)"), "un": ("", "var a = {m}; var r = p$.un$[{e}](a); ev(" + see.format("r") + ")"), "un2": ("", "var a = {m}; var r = p$.un2$[{e}](a); ev(" + see.format("r") + ")")}.items():
            f = lambda x: x.replace("%s", see.format("a.get()")).replace("{t}", ty).replace("{m}", val).replace("{k}", mk).replace("{e}", e)
            yield P("generic:%s:%s:%s" % (ty, u, h), imp, decl + f(d), "{ " + f(st) + " }\n", {"m1_$.cxy": m1, "m2_$.cxy": m2}, [v])
    # every spelling of the base class
    m1 = "module m1_$\npub class A$ { x: i32;\n func `init`(v: i32) { x = v }\n virtual func who(): i32 { return 1`i32 }\n func both(): i32 { return who() * 10`i32 + x } }\npub type Q$ = A$\n"
    m2 = 'module m2_$\nimport "./m1_$.cxy" as o\nimport { A$ } from "./m1_$.cxy"\npub type R$ = o.A$\npub type S$ = A$\n'
    imp = 'import "./m1_$.cxy" as o$\nimport { A$, A$ as N$, Q$ as M$ } from "./m1_$.cxy"\nimport "./m2_$.cxy" as p$\n'
    decl = "type T$ = o$.A$\ntype U$ = N$\ntype V$ = T$\n"
    names = ["o$.A$", "A$", "N$", "o$.Q$", "M$", "p$.R$", "p$.S$", "T$", "U$", "V$"]
    for (i, n), (j, k), ov in itertools.product(enumerate(names), enumerate(names), (0, 1)):
        d = decl + "class B$ : %s { y: i32;\n func `init`(v: i32) { super(v); y = v * 2`i32 }\n%s }\nclass C$ : B$ { func `init`(v: i32) { super(v) } }\n" % (n, " virtual func who(): i32 { return super.who() + 6`i32 }\n" if ov else "")
        w = 7 if ov else 1
        yield P("base:%s:%s:%d" % (n, k, ov), imp, d, "{ var b = B$(4`i32); ev(b.both()); ev(b.y); ev(b.x); var a: %s = b; ev(a.who()); var c = C$(5`i32); ev(c.both()); ev(c.y); a = c; ev(a.who()); ev(a.both()) }\n" % k, {"m1_$.cxy": m1, "m2_$.cxy": m2}, [w * 10 + 4, 8, 4, w, w * 10 + 5, 10, w, w * 10 + 5])
    # a chain of classes, each level in a file of its own or not, overriding or not
    for files in itertools.product((0, 1), repeat=2):
        for ov in itertools.product((0, 1), repeat=2):
            head = "%sclass A%s { x: i32;\n func `init`(v: i32) { x = v }\n virtual func who(): i32 { return 1`i32 }\n func both(): i32 { return who() * 10`i32 + x } }\n"
            cl = lambda pub, n, base, v: "%sclass %s : %s { func `init`(v: i32) { super(v) }\n%s }\n" % (pub, n, base, " virtual func who(): i32 { return %d`i32 }\n" % v if v else "")
            mods = {"m1_$.cxy": "module m1_$\n" + head % ("pub ", "$")}
            imp, decl = 'import "./m1_$.cxy" as o$\n', ""
            A, v = "o$.A$", 1
            if files[0]:
                mods["m2_$.cxy"] = 'module m2_$\nimport "./m1_$.cxy" as o\n' + cl("pub ", "B$", "o.A$", 2 * ov[0])
                imp += 'import "./m2_$.cxy" as p$\n'
                Bn = "p$.B$"
            else:
                decl += cl("", "B$", A, 2 * ov[0])
                Bn = "B$"
            if files[1] and files[0]:
                mods["m3_$.cxy"] = 'module m3_$\nimport "./m2_$.cxy" as o\n' + cl("pub ", "C$", "o.B$", 3 * ov[1])
                imp += 'import { C$ } from "./m3_$.cxy"\n'
            else:
                decl += cl("", "C$", Bn, 3 * ov[1])
            wb = 2 if ov[0] else 1
            wc = 3 if ov[1] else wb
            body, tr = "", []
            for cn, w in ((A, 1), (Bn, wb), ("C$", wc)):
                body += "{ var k = %s(4`i32); ev(k.who()); ev(k.both()); var b: %s = k; ev(b.who()); ev(b.both()) }\n" % (cn, A)
                tr += [w, w * 10 + 4] * 2
            yield P("class:%s:%s" % (files, ov), imp, decl, body, mods, tr)
    # an exception raised, passed on and handled on different sides
    m1 = ("module m1_$\npub exception E1(n: i32) => \"one\"\nexception E2(n: i32) => \"two\"\n"
          "pub func t1(k: i32): !i32 { if (k == 1`i32) { raise E1(k) }\n if (k == 2`i32) { raise E2(k) }\n return k * 10`i32 }\n")
    m2 = 'module m2_$\nimport "./m1_$.cxy" as o\npub func t2(k: i32): !i32 { if (k == 3`i32) { raise o.E1(k) }\n return o.t1(k) + 1`i32 }\npub func safe(k: i32): i32 { var r = o.t1(k) catch { yield 99`i32 }\n return r }\n'
    imp = 'import "./m1_$.cxy" as o$\nimport { t1 as u$, E1 } from "./m1_$.cxy"\nimport "./m2_$.cxy" as p$\n'.replace("E1 }", "E1 as X$ }")
    decl = "func t3$(k: i32): !i32 { if (k == 4`i32) { raise o$.E1(k) }\n if (k == 5`i32) { raise X$(k) }\n return p$.t2(k) + 100`i32 }\n"
    for k in range(7):
        a = None if k in (1, 2) else k * 10
        b = None if a is None or k == 3 else a + 1
        d = None if b is None or k in (4, 5) else b + 100
        for i, (call, v) in enumerate((("o$.t1", a), ("u$", a), ("p$.t2", b), ("t3$", d))):
            yield P("raise:%d:%d" % (k, i), imp, decl, "{ var r = %s(%d`i32) catch { ev(500`i32); yield 77`i32 }; ev(r) }\n" % (call, k), {"m1_$.cxy": m1, "m2_$.cxy": m2}, [v] if v is not None else [500, 77])
        yield P("raise:%d:safe" % k, imp, decl, "ev(p$.safe(%d`i32))\n" % k, {"m1_$.cxy": m1, "m2_$.cxy": m2}, [99 if a is None else a])
    # overloads of one module are one set, whatever the other module and main declare
    sigs = ["i32", "string", "bool"]
    arg = {"i32": "1`i32", "string": '"s"', "bool": "true"}
    for s1, s2 in itertools.product([c for n in (1, 2, 3) for c in itertools.combinations(sigs, n)], repeat=2):
        f = lambda base, ss, pub="pub ": "".join("%sfunc f(x: %s): i32 { return %d`i32 }\n" % (pub, t, base + sigs.index(t)) for t in ss)
        mods = {"m1_$.cxy": "module m1_$\n" + f(10, s1), "m2_$.cxy": "module m2_$\n" + f(20, s2)}
        imp = 'import "./m1_$.cxy" as o$\nimport { f as g$ } from "./m1_$.cxy"\nimport "./m2_$.cxy" as p$\n'
        body, tr = "", []
        for n, ss, base in (("o$.f", s1, 10), ("g$", s1, 10), ("p$.f", s2, 20)):
            for t in ss:
                body += "ev(%s(%s))\n" % (n, arg[t])
                tr.append(base + sigs.index(t))
        yield P("overload:%s:%s" % ("+".join(s1), "+".join(s2)), imp, "", body, mods, tr)
        for n, ss in (("o$.f", s1), ("g$", s1), ("p$.f", s2)):
            for t in set(sigs) - set(ss):
                if t == "i32" and "bool" in ss or t == "bool" and "i32" in ss:
                    continue        # whether these convert is not constrained here
                yield P("overload:%s:%s:%s(%s)" % ("+".join(s1), "+".join(s2), n, t), imp, "", "ev(%s(%s))\n" % (n, arg[t]), mods, None)
    # not modules
    for k, imp, mods in (("missing", 'import "./none_$.cxy" as n\n', {}), ("missing2", 'import { f } from "./none_$.cxy"\n', {}), ("notmodule", 'import "./n_$.cxy" as n\n', {"n_$.cxy": "pub func f(): i32 { return 1`i32 }\n"}),
                         ("notmodule2", 'import { f } from "./n_$.cxy"\n', {"n_$.cxy": "pub func f(): i32 { return 1`i32 }\n"}), ("empty", 'import "" as n\n', {}), ("broken", 'import "./n_$.cxy" as n\n', {"n_$.cxy": "module n\npub func f(): i32 { return \n"}),
                         ("badtype", 'import "./n_$.cxy" as n\n', {"n_$.cxy": "module n\npub func f(): i32 { return \"s\" }\n"}), ("itself", 'import "./a.cxy" as n\n', {}),
                         ("badprivate", 'import "./n_$.cxy" as n\n', {"n_$.cxy": "module n\nfunc f(): i32 { return \"s\" }\npub func g(): i32 { return f() }\n"}),
                         ("samealias", 'import "./n_$.cxy" as n\nimport "./o_$.cxy" as n\n', {"n_$.cxy": "module n\npub func f(): i32 { return 1`i32 }\n", "o_$.cxy": "module o\npub func f(): i32 { return 1`i32 }\n"})):
        yield P("file:" + k, imp, "", "ev(1`i32)\n", mods, None)


def folders(thorough):
    """a path is taken from the folder of the file that names it; one file is one module, however it is named"""
    fs = ["d1_$/x.cxy", "d2_$/x.cxy", "d1_$/y.cxy", "x_$.cxy"]

    def rel(a, b):
        da, db = os.path.dirname(a), os.path.dirname(b)
        n = os.path.basename(b)
        if da == db:
            return ["./" + n] + (["./../%s/%s" % (da, n)] if da else [])
        if not da:
            return ["./" + b, "./%s/../%s" % (db, b)]
        return ["./../" + b]
    n = len(fs)
    edges = [(i, j) for i in range(n) for j in range(i + 1, n)]
    for k in range(3 if not thorough else 5):
        for E in itertools.combinations(edges, k):
            for style in range(2):
                val = {}
                for i in reversed(range(n)):
                    val[i] = 10 ** i + sum(val[b] for a, b in E if a == i)
                mods = {}
                for i in range(n):
                    deps = [b for a, b in E if a == i]
                    mods[fs[i]] = ("module f%d_$\n" % i + "".join('import "%s" as o%d\n' % (rel(fs[i], fs[b])[-style], b) for b in deps)
                                   + "pub func get(): i32 { return %d`i32%s }\npub var n = 0`i32;\npub func inc() { n += 1`i32 }\n" % (10 ** i, "".join(" + o%d.get()" % b for b in deps)))
                imp, body, tr = "", "", []
                for i in range(n):
                    body += "r%d0_$.n = 0`i32\n" % i
                    for j, t in enumerate(rel("a.cxy", fs[i])):
                        imp += 'import "%s" as r%d%d_$\n' % (t, i, j)
                        body += "r%d%d_$.inc(); ev(r%d%d_$.get()); ev(r%d0_$.n)\n" % (i, j, i, j, i)
                        tr += [val[i], j + 1]
                yield P("%s:%d" % (",".join("%d-%d" % e for e in E), style), imp, "", body, mods, tr)


FAMS = dict(folders=folders, names=names, state=state, identity=identity, graph=graph, across=across)


def make(d, files):
    for n in files:
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)


class Files(Batch):
    def source(self, progs):
        return "".join(dict.fromkeys(l + "\n" for p in progs for l in p["imports"].splitlines())) + Batch.source(self, progs).replace(
            '@__cc "px.c"\n', '@__cc "px.c"\n' + "".join('@__cc "%s"\n' % n for n in sorted({n for p in progs for n in p["mods"] if n.endswith(".c")})), 1)

    def compile(self, d, progs):
        nat = {"px.c": "#define PX_L %d\n" % self.limit + open(os.path.join(LIB, "px.c")).read()}
        for p in progs:
            nat.update(p["mods"])
        make(d, nat)
        return cxy_build(self.cxy, d, self.source(progs), nat)


def body():
    c = Check("C18")
    cxy = build_compiler()
    only = os.environ.get("FAM")
    ps, neg, nfam, shared = [], [], {}, {}
    for name, f in FAMS.items():
        if only and name not in only.split(","):
            continue
        for it in f(c.thorough):
            k = (it.imports, it.decl, tuple(sorted(it.mods.items())))
            # programs with the same files share them; the rejected ones are compiled one by one
            first = k not in shared
            i = shared.setdefault(k, len(shared))
            s = lambda t: t.replace("$", str(i))
            g = lambda bits, tr=it.trace: list(tr)
            j = len(ps) + len(neg)
            p = dict(id=j, tdecl={"D%d" % i: s(it.decl)}, decl="func case%d() { %s }\n" % (j, s(it.body)), call="case%d()" % j, imports=s(it.imports), mods={s(n): s(t) for n, t in it.mods.items()}, run=g, key="%s:%s" % (name, it.key))
            nfam[name] = nfam.get(name, 0) + 1
            if it.trace is None:
                neg.append(p)
            else:
                p["sig"] = signature(g)
                ps.append(p)
    c.cov["programs"] = len(ps)
    c.cov["rejected_programs"] = len(neg)
    c.cov["families"] = nfam
    b = Files(c, cxy)
    show = lambda p: p["decl"] + "".join("\n-- %s\n%s" % x for x in p["mods"].items())
    groups = {}
    b.run_all(ps, size=int(os.environ.get("BS", "60")))

    def reject(p):
        d = c.dir("n%d" % p["id"])
        make(d, p["mods"])
        r = cxy_build(cxy, d, p["imports"] + "func ev(k: i32): void { }\n" + p["tdecl"].popitem()[1] + p["decl"] + "func main() { %s }\n" % p["call"], p["mods"], timeout=60)
        shutil.rmtree(d, ignore_errors=True)
        c.count(states=1, transitions=1, traces=1)
        if r.rc == 1 and "error:" in r.out and "compile command failed" not in r.out:
            return None
        return p, r
    bad = [x for x in pmap(reject, neg) if x]
    for p, r in bad[:12]:
        c.violation(p["key"] + ":rejected", "this program must be rejected with an error (rc=%s)" % r.rc, r.out[-1500:] + "\n\nprogram:\n" + p["imports"] + show(p))
    for p in ps[:: max(1, len(ps) // 6)]:
        c.sample(p["key"])
    c.finish()


if __name__ == "__main__":
    main(body)
