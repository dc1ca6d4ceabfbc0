"""Families of C08 about which declaration a use refers to: overloads, virtual methods, operators, default
arguments, match and switch cases, enum members, generic instances, and names in nested scopes."""
import itertools
from prog import *

FORMS = {}


def fam(f):
    FORMS[f.__name__] = f
    return f


# ------------------------------------------------------------------------------------------------ overloads
def universe(m):
    L = m.LEAF
    i, u, s = L["i32"], L["u8"], L["string"]
    P, Q, K = m.Struct(i), m.Struct(u), m.Class(i)
    return [i, u, L["i64"], L["f64"], L["bool"], s, L["wchar"], L["EN"], P, Q, K, m.Tuple(i, s), m.Tuple(s, i), m.Opt(i), m.Union(u, s)]


def need(*ts):
    d = {}
    for t in ts:
        t.alldecl(d)
    return d


def call_in(form, name, params, bodies, args):
    """declare one overload set in one of the places functions can live; text of declarations and of a call"""
    k = 0
    fs = []
    for ps, b in zip(params, bodies):
        fs.append("func %s(%s): void { %s }\n" % (name, ", ".join("p%d: %s" % (j, t) for j, t in enumerate(ps)), b))
    if form == "func":
        return "".join(f.replace("func %s(" % name, "func $f(") for f in fs), "", "$f"
    if form == "smethod":
        return "struct H$ { z: i32\n %s }\n" % " ".join(fs), "var h = H${z: 1}; ", "h.%s" % name
    if form == "cmethod":
        return "class H$ { z: i32\n func `init`() { z = 1 }\n %s }\n" % " ".join(fs), "var h = H$(); ", "h.%s" % name
    if form == "static":
        return "class H$ { z: i32\n func `init`() { z = 1 }\n %s }\n" % " ".join("@static " + f for f in fs), "", "H$.%s" % name
    if form == "init":
        return "class H$ { z: i32\n %s }\n" % " ".join(f.replace("func %s(" % name, "func `init`(").replace("): void {", ") { z = 1;") for f in fs), "", "H$"
    if form == "callop":
        return "struct H$ { z: i32\n %s }\n" % " ".join(f.replace("func %s(" % name, "func `()`(") for f in fs), "var h = H${z: 1}; ", "h"
    assert 0


@fam
def ovl(m, thorough):
    U = universe(m)

    def one(form, ts):
        w = m.W()
        dec, pre, f = call_in(form, "g", [[t.txt] for t in ts], ["tag(%d); %s" % (k, t.dump("p0", w)) for k, t in enumerate(ts)], 1)
        b, tr = pre, []
        for k, t in list(enumerate(ts))[::-1] + list(enumerate(ts))[:1]:
            v = t.vals()[0]
            p, e = w.lit(t, v)
            if form == "init":
                b += "%svar y%d = %s(%s); l32(y%d.z); " % (p, len(tr), f, e, len(tr))
                tr += [m.tg(k)] + t.flat(v) + [1]
            else:
                b += "%s%s(%s); " % (p, f, e)
                tr += [m.tg(k)] + t.flat(v)
        return dec, b, tr, need(*ts)
    for form in ("func", "smethod", "cmethod", "init", "callop"):
        for ts in itertools.permutations(U, 2):
            if form != "func" and not thorough and ts[0].key not in ("i32", "string", "S(i32)", "C(i32)", "u8"):
                continue
            yield ("%s:%s" % (form, "/".join(t.key for t in ts)),) + one(form, ts)
    sub = [U[0], U[1], U[5], U[8], U[10], U[11]]
    for ts in itertools.permutations(sub, 3):
        yield ("three:%s" % "/".join(t.key for t in ts),) + one("func", ts)
    if thorough:
        for ts in itertools.permutations(sub, 4):
            yield ("four:%s" % "/".join(t.key for t in ts),) + one("func", ts)


@fam
def ovl2(m, thorough):
    """two parameters"""
    U = universe(m)
    ts = [U[0], U[5], U[8]]
    sigs = list(itertools.product(ts, repeat=2))
    for form in ("func", "smethod", "cmethod"):
        for n in (2, 3) if form == "func" or thorough else (2,):
            for ss in itertools.permutations(sigs, n):
                if n == 3 and not thorough and sigs.index(ss[0]) % 3:
                    continue
                w = m.W()
                dec, pre, f = call_in(form, "g", [[a.txt, b.txt] for a, b in ss],
                                      ["tag(%d); %s %s" % (k, a.dump("p0", w), b.dump("p1", w)) for k, (a, b) in enumerate(ss)], 2)
                b, tr = pre, []
                for k, s in enumerate(ss):
                    vs = [t.vals()[j] for j, t in enumerate(s)]
                    es = [w.lit(t, v) for t, v in zip(s, vs)]
                    b += "%s%s(%s); " % ("".join(p for p, e in es), f, ", ".join(e for p, e in es))
                    tr += [m.tg(k)] + [x for t, v in zip(s, vs) for x in t.flat(v)]
                yield "%s:%s" % (form, "|".join("/".join(t.key for t in s) for s in ss)), dec, b, tr, need(*ts)


@fam
def arity(m, thorough):
    for form in ("func", "smethod", "cmethod", "init"):
        for n in (2, 3, 4):
            for ar in itertools.permutations(range(4), n):
                dec, pre, f = call_in(form, "g", [["i32"] * a for a in ar],
                                      ["tag(%d); %s" % (a, " ".join("l32(p%d);" % j for j in range(a))) for a in ar], 1)
                b, tr = pre, []
                for k, a in enumerate(sorted(ar)):
                    c = "%s(%s)" % (f, ", ".join("%d`i32" % (10 * a + j) for j in range(a)))
                    b += "var y%d = %s; l32(y%d.z); " % (k, c, k) if form == "init" else c + "; "
                    tr += [m.tg(a)] + [10 * a + j for j in range(a)] + ([1] if form == "init" else [])
                yield "%s:%s" % (form, "".join(map(str, ar))), dec, b, tr, {}


@fam
def defaults(m, thorough):
    """parameters with default values, given and not given"""
    L = m.LEAF
    kinds = [("lit", L["i32"]), ("ev", L["i32"]), ("str", L["string"]), ("st", m.Struct(L["i32"])), ("cls", m.Class(L["i32"])), ("en", L["EN"])]
    for form in ("func", "smethod", "cmethod", "init", "generic"):
        for n in (1, 2, 3):
            for nd in range(1, n + 1):
                for ks in itertools.product(kinds if nd < 3 else kinds[:3], repeat=nd):
                    if nd == 3 and not thorough and form != "func":
                        continue
                    w = m.W()
                    ps, pt, body = [], [], ""
                    for j in range(n - nd):
                        ps.append("p%d: i32" % j)
                        body += "l32(p%d); " % j
                        pt.append(L["i32"])
                    dv = []
                    for j, (kn, t) in enumerate(ks):
                        v = t.vals()[0]
                        e = "evv(%d`i32)" % (900 + j) if kn == "ev" else w.lit(t, v)[1]
                        dv.append((kn, t, v, e))
                        ps.append("p%d: %s = %s" % (n - nd + j, t.txt, e))
                        body += t.dump("p%d" % (n - nd + j), w)
                        pt.append(t)
                    if form == "generic":
                        ps.append("") if 0 else None
                        dec = "func $f[T](q: T, %s): void { tag(0); %s }\n" % (", ".join(ps), body)
                        pre, f = "", "$f"
                    else:
                        fn = "func g(%s): void { tag(0); %s }\n" % (", ".join(ps), body)
                        if form == "func":
                            dec, pre, f = fn.replace("func g(", "func $f("), "", "$f"
                        elif form == "smethod":
                            dec, pre, f = "struct H$ { z: i32\n %s }\n" % fn, "var h = H${z: 1}; ", "h.g"
                        elif form == "cmethod":
                            dec, pre, f = "class H$ { z: i32\n func `init`() { z = 1 }\n %s }\n" % fn, "var h = H$(); ", "h.g"
                        else:
                            dec, pre, f = "class H$ { z: i32\n %s }\n" % fn.replace("func g(", "func `init`(").replace("): void {", ") { z = 1;"), "", "H$"
                    b, tr = pre, []
                    for given in range(n - nd, n + 1):
                        as_, vals = [], []
                        evs = []
                        for j in range(n):
                            if j < given:
                                v = pt[j].vals()[1]
                                as_.append(w.lit(pt[j], v)[1])
                                vals += pt[j].flat(v)
                            else:
                                kn, t, v, e = dv[j - (n - nd)]
                                if kn == "ev":
                                    evs.append(900 + j - (n - nd))
                                    vals.append(900 + j - (n - nd))
                                else:
                                    vals += t.flat(v)
                        if form == "generic":
                            as_ = ["true"] + as_
                        c = "%s(%s)" % (f, ", ".join(as_))
                        b += "var y%d = %s; l32(y%d.z); " % (given, c, given) if form == "init" else c + "; "
                        tr += evs + [m.tg(0)] + vals + ([1] if form == "init" else [])
                    yield "%s:%d:%s" % (form, n, ",".join(k for k, t in ks)), dec, b, tr, need(*pt)


# ------------------------------------------------------------------------------------------------- operators
BOPS = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "!="]
PREC = {"*": 9, "/": 9, "%": 9, "+": 8, "-": 8, "<<": 7, ">>": 7, "<": 6, ">": 6, "<=": 6, ">=": 6, "==": 5, "!=": 5, "&": 4, "^": 3, "|": 2}


@fam
def oper(m, thorough):
    L = m.LEAF
    rhs = [L["i32"], L["string"], L["f64"], m.Struct(L["u8"]), m.Class(L["i32"]), L["EN"]]

    def owner(kind, body):
        if kind == "struct":
            return "struct H$ { n: i32\n %s }\n" % body, "var h = H${n: 3}; ", "H${n: 4}"
        return "class H$ { n: i32\n func `init`(v: i32) { n = v }\n %s }\n" % body, "var h = H$(3); ", "H$(4)"
    for kind in ("struct", "class"):
        # every operator alone, declared together with all others
        for T in rhs:
            w = m.W()
            fs = "".join("func `%s`(b: %s): i32 { tag(%d); %s return n }\n" % (o, T.txt, k, T.dump("b", w)) if PREC[o] not in (5, 6) else
                         "func `%s`(b: %s): bool { tag(%d); %s return true }\n" % (o, T.txt, k, T.dump("b", w)) for k, o in enumerate(BOPS))
            dec, pre, _ = owner(kind, fs)
            b, tr = pre, []
            for k, o in enumerate(BOPS):
                v = T.vals()[k % 2]
                p, e = w.lit(T, v)
                b += "%s%s(h %s %s); " % (p, "lb" if PREC[o] in (5, 6) else "l32", o, e)
                tr += [m.tg(k)] + T.flat(v) + [1 if PREC[o] in (5, 6) else 3]
            yield "%s:all:%s" % (kind, T.key), dec, b, tr, need(T)
        # one operator, two right operand types
        for o in BOPS:
            for A, B in itertools.permutations(rhs, 2):
                if o not in ("+", "==", "<<") and not thorough:
                    continue
                w = m.W()
                r = "bool" if PREC[o] in (5, 6) else "i32"
                fs = "".join("func `%s`(b: %s): %s { tag(%d); %s return %s }\n" % (o, T.txt, r, k, T.dump("b", w), "true" if r == "bool" else "n") for k, T in enumerate((A, B)))
                dec, pre, _ = owner(kind, fs)
                b, tr = pre, []
                for k, T in enumerate((A, B)):
                    v = T.vals()[0]
                    b += "%s(h %s %s); " % ("lb" if r == "bool" else "l32", o, w.lit(T, v)[1])
                    tr += [m.tg(k)] + T.flat(v) + [1 if r == "bool" else 3]
                yield "%s:two:%s:%s/%s" % (kind, o, A.key, B.key), dec, b, tr, need(A, B)
        # precedence and associativity with operators that return the type itself
        five = ["+", "*", "<<", "&", "|", "-", "^"]
        for n in (2, 3) if thorough else (2,):
            for os_ in itertools.product(five if n == 2 else five[:4], repeat=n):
                for par in (None, 0, 1) if n == 2 else (None,):
                    w = m.W()
                    mk = "H${n: %s}" if kind == "struct" else "H$(%s)"
                    fs = "".join("func `%s`(b: %s): H$ { tag(%d); l32(n); l32(b.n); return %s }\n" % (o, "H$" if kind == "struct" else "H$", k, mk % ("n * 3 + b.n + %d" % k)) for k, o in enumerate(five))
                    dec, _, _ = owner(kind, fs)
                    if kind == "class":
                        dec = dec.replace("v: i32) { n = v }", "v: i32) { n = v }")
                    b = "".join("var x%d = %s; " % (i, mk % ("%d`i32" % (i + 1))) for i in range(n + 1))
                    toks = ["x0"]
                    for i, o in enumerate(os_):
                        toks += [o, "x%d" % (i + 1)]
                    tree = shunt(toks)
                    if par == 0:
                        tree = (os_[1], (os_[0], "x0", "x1"), "x2")
                        e = "(x0 %s x1) %s x2" % os_
                    elif par == 1:
                        tree = (os_[0], "x0", (os_[1], "x1", "x2"))
                        e = "x0 %s (x1 %s x2)" % os_
                    else:
                        e = " ".join(toks)
                    tr = []

                    def ev(t):
                        if isinstance(t, str):
                            return int(t[1:]) + 1
                        a, c = ev(t[1]), ev(t[2])
                        k = five.index(t[0])
                        tr.extend([m.tg(k), a, c])
                        return a * 3 + c + k
                    tr2 = ev(tree)
                    b += "var r = %s; l32(r.n); " % e
                    yield "%s:prec:%s:%s" % (kind, " ".join(os_), par), dec, b, tr + [tr2], {}
        # unary, index, call
        dec, pre, _ = owner(kind, "func `!!`(): bool { tag(1); return n == 3 }\n func `[]`(i: i32): i32 { tag(2); l32(i); return n + i }\n func `[]=`(i: i32, v: i32): void { tag(3); l32(i); l32(v); n = n + i * v }\n func `()`(a: i32, b: i32): i32 { tag(4); return n + a - b }\n")
        yield kind + ":misc", dec, pre + "if (h) l32(1) else l32(2); l32(h.[5]); h.[2] = 10; l32(h.n); l32(h(9, 1)); lb(!h); ", [m.tg(1), 1, m.tg(2), 5, 8, m.tg(3), 2, 10, 23, m.tg(4), 31, m.tg(1), 1], {}
        for T in rhs:
            w = m.W()
            vs = T.vals()
            dec, pre, _ = owner(kind, "func `[]`(i: %s): i32 { tag(2); %s return n }\n func `[]=`(i: %s, v: %s): void { tag(3); %s %s n = n + 1 }\n" % (T.txt, T.dump("i", w), T.txt, T.txt, T.dump("i", w), T.dump("v", w)))
            yield "%s:index:%s" % (kind, T.key), dec, pre + "l32(h.[%s]); h.[%s] = %s; l32(h.n); " % (w.lit(T, vs[0])[1], w.lit(T, vs[1])[1], w.lit(T, vs[0])[1]), \
                [m.tg(2)] + T.flat(vs[0]) + [3, m.tg(3)] + T.flat(vs[1]) + T.flat(vs[0]) + [4], need(T)


def shunt(toks):
    out, ops = [toks[0]], []

    def red():
        b, a = out.pop(), out.pop()
        out.append((ops.pop(), a, b))
    for i in range(1, len(toks), 2):
        while ops and PREC[ops[-1]] >= PREC[toks[i]]:
            red()
        ops.append(toks[i])
        out.append(toks[i + 1])
    while ops:
        red()
    return out[0]


# ------------------------------------------------------------------------------------------- class hierarchies
class Cls:
    def __init__(self, name, base, meth, fields):
        self.name, self.base, self.meth, self.fields = name, base, meth, fields  # meth: name -> (virtual, calls super)

    def chain(self):
        return [self] + (self.base.chain() if self.base else [])

    def find(self, name):
        for c in self.chain():
            if name in c.meth:
                return c
        return None


def hier(m, classes, fieldkind):
    """text of a class chain; every method tags its class"""
    out = ""
    for k, c in enumerate(classes):
        s = "class %s%s {\n" % (c.name, ": " + c.base.name if c.base else "")
        if c.fields:
            dflt = fieldkind in ("default", "mixed") and (fieldkind == "default" or k % 2 == 0)
            s += " f%d: i32%s\n" % (k, " = %d" % (70 + k) if dflt else "")
            ini = "" if dflt else "f%d = %d; " % (k, 70 + k)
        else:
            ini = ""
        s += " func `init`() { %stag(%d); %s}\n" % ("super(); " if c.base else "", 30 + k, ini)
        for name, (virt, sup) in c.meth.items():
            s += " %sfunc %s(x: i32): i32 { tag(%d); %s return x + %d }\n" % (
                "virtual " if virt else "", name, 10 * "vw".index(name) + k, "l32(super.%s(x + 1));" % name if sup else "", k + 1)
        s += " func r%d(): i32 { %s return %s }\n" % (
            k, "".join("l32(%s(%d)); " % (n, 5) for n in "vw" if c.find(n)), "f%d" % k if c.fields else "0")
        out += s + "}\n"
    return out


def vcall(m, tr, static, dyn, name, x, direct=False):
    """appends the trace of calling method `name` through static type `static` on an object of class dyn; None if
    unconstrained (an override not itself declared virtual is called directly)"""
    vis = static.find(name)
    if vis is None:
        return None
    tgt = vis
    if not direct:
        roots = [c for c in vis.chain() if name in c.meth and c.meth[name][0]]
        if vis.meth[name][0]:
            tgt = dyn.find(name)
        elif roots and dyn.find(name) is not vis:
            return None

    def run(c, x):
        k = c.index
        tr.append(m.tg(10 * "vw".index(name) + k))
        if c.meth[name][1]:
            b = c.base.find(name)
            r = run(b, x + 1)
            tr.append(r)
        return x + k + 1
    return run(tgt, x)



@fam
def opassign(m, thorough):
    """compound assignment through an index operator reads with `[]`, applies the operator and writes with `[]=`, once each"""
    OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a // b, "%": lambda a, b: a % b, "&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b, "<<": lambda a, b: a << b, ">>": lambda a, b: a >> b}
    body = "func `[]`(i: i32): i32 { tag(2); l32(i); return n + i }\n func `[]=`(i: i32, v: i32): void { tag(3); l32(i); l32(v); n = v - i }\n"
    PLACES = {"var": ("", "var h = NEW; ", "h"), "member": ("struct G$ { h: H$ }\n", "var g = G${h: NEW}; ", "g.h"), "tuple": ("", "var t = (NEW, 1`i32); ", "t.0"), "elem": ("", "var a = [NEW, NEW]; ", "a.[1]"), "group": ("", "var h = NEW; ", "(h)"),
              "ref": ("", "var k = NEW; var h = &k; ", "h"), "ptr": ("", "var k = NEW; var p = ptrof k; ", "(*p)"), "nested": ("struct F$ { h: H$ }\nstruct G$ { f: F$ }\n", "var g = G${f: F${h: NEW}}; ", "g.f.h")}
    for kind in ("struct", "class"):
        own, new = ("struct H$ { n: i32\n %s }\n", "H${n: 40`i32}") if kind == "struct" else ("class H$ { n: i32\n func `init`(v: i32) { n = v }\n %s }\n", "H$(40`i32)")
        for pn, (pd, pre, x) in PLACES.items():
            if kind == "class" and pn in ("elem", "ptr", "ref", "tuple"):
                continue
            for op, f in OPS.items():
                for idx, ip, iv in (("3`i32", "", 3), ("i", "var i = 3`i32; ", 3), ("i + 1`i32", "var i = 3`i32; ", 4), ("q.0", "var q = (2`i32, 5`i32); ", 2)) if pn == "var" or thorough else (("3`i32", "", 3),):
                    for rhs, rv in (("2`i32", 2), ("l2(4`i32)", 4)) if op in "+-<<" or thorough else (("2`i32", 2),):
                        n, tr, b = 40, [], ""
                        d = "func $f(x: i32): i32 { tag(9); return x }\n"
                        for _ in range(2):
                            b += "%s.[%s] %s= %s; " % (x, idx, op, rhs.replace("l2(", "$f("))
                            tr += [m.tg(2), iv] + ([m.tg(9)] if rhs[0] == "l" else [])
                            v = f(n + iv, rv)
                            tr += [m.tg(3), iv, v]
                            n = v - iv
                            if n < 0 and op in "/%>>":
                                break
                        yield "%s:%s:%s:%s:%s" % (kind, pn, op, idx, rhs), own % body + pd + d, ip + pre.replace("NEW", new) + b + "l32(%s.n); " % x, tr + [n], {}

@fam
def chain(m, thorough):
    def opts(k, above):
        """what class k does about a method: absent / plain / virtual, with or without a super call"""
        o = [None, (False, False), (True, False)]
        if above:
            o += [(False, True), (True, True)]
        return o
    combos = []
    for n in (2, 3) + ((4,) if thorough else ()):
        for pv in itertools.product([None, (False, False), (True, False), (False, True), (True, True)], repeat=n):
            combos.append((n, pv, (None,) * n))
    small = [None, (False, False), (True, False)]
    for n in (2, 3):
        for pv in itertools.product(small, repeat=n):
            for pw in itertools.product(small, repeat=n):
                if pv[0] and pw != (None,) * n:
                    combos.append((n, pv, pw))
    seen = set()
    for n, pv, pw in combos:
        classes, ok = [], True
        for k in range(n):
            base = classes[-1] if classes else None
            meth = {}
            for nm, p in (("v", pv[k]), ("w", pw[k])):
                if p is None:
                    continue
                above = base.find(nm) if base else None
                if p[1] and not above:
                    ok = False
                    break
                # a virtual declaration over a plain one is a different method of the same name
                if above and p[0] and not any(nm in c.meth and c.meth[nm][0] for c in base.chain()):
                    ok = False
                    break
                meth[nm] = p
            if not ok:
                break
            c = Cls("K%s$" % "ABCD"[k] if 0 else "%s$" % "ABCD"[k], base, meth, True)
            c.index = k
            classes.append(c)
        if not ok or not any(c.meth for c in classes):
            continue
        # the first virtual method below a base class without a virtual table: see `late`
        late = any(p[0] for c in classes[1:] for p in c.meth.values()) and not any(p[0] for p in classes[0].meth.values())
        if late:
            continue
        for fk in ("init", "default", "mixed") if (thorough or n == 3) and pw == (None,) * n else ("mixed",):
            dec = hier(m, classes, fk)
            # through: a variable of each static type, and a function parameter
            body, tr = "", []
            skipw = False
            for d in classes:
                # `r` methods call v and w on this
                for s in d.chain():
                    calls = []
                    b1 = "{ var x: %s = %s(); " % (s.name, d.name)
                    t1 = [m.tg(30 + c.index) for c in reversed(d.chain())]
                    for nm in "vw":
                        r = vcall(m, t1, s, d, nm, 5)
                        if r is not None:
                            b1 += "l32(x.%s(5)); " % nm
                            t1.append(r)
                    rt, good = [], True
                    for nm in "vw":
                        if s.find(nm):
                            r = vcall(m, rt, s, d, nm, 5)
                            if r is None:
                                good = False
                                break
                            rt.append(r)
                    if good:
                        b1 += "l32(x.r%d()); " % s.index
                        t1 += rt + [70 + s.index]
                    for c in s.chain():
                        b1 += "l32(x.f%d); " % c.index
                        t1.append(70 + c.index)
                    body += b1 + "}\n"
                    tr += t1
            key = "%d:%s:%s" % (n, "/".join(",".join(nm + ("v" if p[0] else "") + ("s" if p[1] else "") for nm, p in c.meth.items()) for c in classes), fk)
            yield key, dec, body, tr, {}


@fam
def late(m, thorough):
    """the first virtual method of a chain declared below a base class without one"""
    for fk in ("init", "default"):
        a = Cls("A$", None, {}, True)
        b = Cls("B$", a, {"v": (True, False)}, True)
        for k, x in enumerate((a, b)):
            x.index = k
        yield fk, hier(m, [a, b], fk), "var x = B$(); l32(x.v(5)); l32(x.f0); l32(x.f1); ", [m.tg(30), m.tg(31), m.tg(1), 7, 70, 71], {}


@fam
def passing(m, thorough):
    """an object of a derived class through every place its base class is expected"""
    def mk():
        a = Cls("A$", None, {"v": (True, False)}, True)
        b = Cls("B$", a, {"v": (True, True)}, True)
        c = Cls("C$", b, {"v": (False, False)}, True)
        for k, x in enumerate((a, b, c)):
            x.index = k
        return [a, b, c]
    ways = {
        "param": ("func $f(p: S0): i32 { return p.v(5) }\n", "l32($f(OBJ)); "),
        "result": ("func $f(): S0 { return OBJ }\n", "var o = $f(); l32(o.v(5)); "),
        "chain": ("func $f(): S0 { return OBJ }\n", "l32($f().v(5)); "),
        "field": ("struct H$ { x: S0 }\n", "var h = H${x: OBJ}; l32(h.x.v(5)); "),
        "cfield": ("class H$ { x: S0\n func `init`(p: S0) { x = p } }\n", "var h = H$(OBJ); l32(h.x.v(5)); "),
        "assign": ("", "var o: S0 = S0(); o = OBJ; l32(o.v(5)); "),
        "fassign": ("struct H$ { x: S0 }\n", "var h = H${x: S0()}; h.x = OBJ; l32(h.x.v(5)); "),
        "closure": ("", "var o: S0 = OBJ; var f = () => o.v(5); l32(f()); "),
        "opt": ("func $f(p: S0?): i32 { if (var y = p) { return (*y).v(5) }\n return 0 }\n", "var o: S0 = OBJ; var q: S0? = o; l32($f(q)); "),
        "generic": ("func $f[T](p: T): i32 { return p.v(5) }\n", "var o: S0 = OBJ; l32($f(o)); "),
        "tuple": ("", "var o: S0 = OBJ; var t = (o, 1`i32); l32(t.0.v(5)); "),
        "cond": ("", "var o: S0 = S0(); if (o.v(1) > 0) { o = OBJ }\n l32(o.v(5)); "),
        "twice": ("", "var o: S0 = OBJ; l32(o.v(5) + o.v(6)); "),
        "nestarg": ("func $f(a: i32, b: i32): i32 { return a * 100 + b }\n", "var o: S0 = OBJ; l32($f(o.v(5), o.v(6))); "),
    }
    for name, (d, b) in ways.items():
        cs = mk()
        for s in cs:
            for o in s.chain()[::-1] and [x for x in cs if s in x.chain()]:
                if s.index == 2 and 0:
                    continue
                for fk in ("init", "mixed"):
                    dec = hier(m, cs, fk) + d.replace("S0", s.name).replace("OBJ", o.name + "()")
                    body = b.replace("S0", s.name).replace("OBJ", o.name + "()")
                    tr = []
                    ini = lambda c: [m.tg(30 + x.index) for x in reversed(c.chain())]

                    def cv(x, dyn=o, st=s):
                        return vcall(m, tr, st, dyn, "v", x)
                    if name in ("assign", "fassign", "cond"):
                        tr += ini(s)
                    if name == "cond":
                        vcall(m, tr, s, s, "v", 1)
                    tr += ini(o)
                    if name == "twice":
                        tr.append(cv(5) + cv(6))
                    elif name == "nestarg":
                        x = cv(5)
                        tr.append(x * 100 + cv(6))
                    else:
                        tr.append(cv(5))
                    yield "%s:%s:%s:%s" % (name, s.name[0], o.name[0], fk), dec, body, tr, {}


# -------------------------------------------------------------------------------------------- match and switch
@fam
def match(m, thorough):
    L = m.LEAF
    i, u, s = L["i32"], L["u8"], L["string"]
    pool = [i, s, m.Struct(i), m.Class(i), L["EN"], m.Tuple(i, s), L["f64"]]
    sets = list(itertools.permutations(pool[:4], 2)) + list(itertools.permutations(pool[:4], 3)) + [tuple(pool[k:k + 3]) for k in range(5)] + [tuple(pool[k:k + 4]) for k in range(4)] + [tuple(pool)]
    for ts in sets:
        if any(isinstance(t, m.Class) for t in ts) and len(ts) > 4:
            continue
        U = m.Union(*ts)
        n = len(ts)
        lists = []
        idx = list(range(n))
        perms = list(itertools.permutations(idx)) if n <= 3 else [tuple(idx), tuple(idx[::-1])]
        for p in perms:
            lists.append(([(k,) for k in p], False))
        for k in range(0, n):
            for p in itertools.permutations(idx, k) if n <= 3 else [tuple(idx[:k]), tuple(idx[::-1][:k])]:
                lists.append(([(x,) for x in p], True))
        if n >= 3:
            for a, b in itertools.combinations(idx, 2):
                rest = [x for x in idx if x not in (a, b)]
                lists.append(([(a, b)] + [(x,) for x in rest], False))
                lists.append(([(x,) for x in rest[:1]] + [(b, a)], True))
                lists.append(([(a, b)], True))
        for cases, els in lists:
            for bind in (True, False):
                w = m.W()
                txt = ""
                for ci, c in enumerate(cases):
                    if bind and len(c) == 1:
                        t = ts[c[0]]
                        txt += "\ncase %s as y => { tag(%d); %s}" % (t.txt, ci, t.dump("y", w))
                    else:
                        txt += "\ncase %s => tag(%d)" % (", ".join(ts[x].txt for x in c), ci)
                if els:
                    txt += "\nelse => tag(99)"
                dec = "func $f(u: %s): void { match (u) {%s }\n tag(50) }\n" % (U.txt, txt)
                body, tr = "", []
                for k, t in enumerate(ts):
                    v = t.vals()[0]
                    body += "{ var u: %s = %s; $f(u); }\n" % (U.txt, w.lit(t, v)[1])
                    hit = [ci for ci, c in enumerate(cases) if k in c]
                    if hit:
                        tr.append(m.tg(hit[0]))
                        if bind and len(cases[hit[0]]) == 1:
                            tr += t.flat(v)
                    elif els:
                        tr.append(m.tg(99))
                    else:
                        raise Exception("not exhaustive")
                    tr.append(m.tg(50))
                yield "%s:%s:%s:%d" % (U.key, "|".join(",".join(ts[x].key for x in c) for c in cases), "else" if els else "", bind), dec, body, tr, need(U)


NEAR = [
    # types that are close to each other: declarations, [(type text, initial value)]
    ("chain", "class A$ {\n v: i32\n func `init`(v: i32) { this.v = v }\n}\nclass B$ : A$ {\n func `init`(v: i32) { super(v) }\n}\nclass C$ : B$ {\n func `init`(v: i32) { super(v) }\n}\n",
     [("A$", "A$(%d)", "y.v"), ("B$", "B$(%d)", "y.v"), ("C$", "C$(%d)", "y.v")]),
    ("struct", "struct S$ { v: i32 }\nstruct T$ { v: i32 }\nstruct R$ { v: i32 }\n", [("S$", "S${v: %d}", "y.v"), ("T$", "T${v: %d}", "y.v"), ("R$", "R${v: %d}", "y.v")]),
    ("int", "", [("i32", "%d`i32", "y"), ("u32", "%d`u32", "y as i32"), ("i64", "%d`i64", "y as i32")]),
    ("small", "", [("i8", "%d`i8", "y as i32"), ("u8", "%d`u8", "y as i32"), ("i16", "%d`i16", "y as i32")]),
    ("enum", "enum E$ { X, Y }\nenum F$ { X, Y }\n", [("E$", "E$.Y", "40 + (y as i32)"), ("F$", "F$.Y", "41 + (y as i32)"), ("i64", "%d`i64", "y as i32")]),
    ("tuple", "", [("(i32, i64)", "(%d`i32, 7`i64)", "y.0"), ("(i64, i32)", "(7`i64, %d`i32)", "y.1"), ("(i32, i32)", "(%d`i32, 7`i32)", "y.0")]),
    ("class", "class A$ {\n v: i32\n func `init`(v: i32) { this.v = v }\n}\nclass B$ {\n v: i32\n func `init`(v: i32) { this.v = v }\n}\nstruct S$ { v: i32 }\n",
     [("A$", "A$(%d)", "y.v"), ("B$", "B$(%d)", "y.v"), ("S$", "S${v: %d}", "y.v")]),
    ("gen", "struct G$[T] { v: T }\n", [("G$[i32]", "G$[i32]{v: %d}", "y.v"), ("G$[i64]", "G$[i64]{v: %d}", "y.v as i32"), ("G$[u8]", "G$[u8]{v: %d}", "y.v as i32")]),
]


@fam
def near(m, thorough):
    """matches and overloads over types that are close to each other: a class and its bases, equal layouts, integer widths"""
    for name, dec0, ts in NEAR:
        val = [40, 41, 42]
        ini = [t[1] % val[k] if "%d" in t[1] else t[1] for k, t in enumerate(ts)]
        val = [41 if name == "enum" and k == 0 else 42 if name == "enum" else v for k, v in enumerate(val)]
        if name == "enum":
            val = [41, 42, 42]
        for k in (2, 3):
            for us in itertools.permutations(range(3), k):
                for cs in itertools.permutations(us):
                    for els in (False, True):
                        use = cs[:-1] if els else cs
                        dec = dec0 + "type U$ = %s\n" % " | ".join(ts[x][0] for x in us)
                        dec += "func $f(u: U$): void { match (u) {" + "".join("\ncase %s as y => { tag(%d); l32(%s) }" % (ts[x][0], ci, ts[x][2]) for ci, x in enumerate(use)) + ("\nelse => tag(99)" if els else "") + " }\n tag(50) }\n"
                        body, tr = "", []
                        for x in us:
                            body += "{ var u: U$ = %s; $f(u); if (u is #%s) tag(60) else tag(61) }\n" % (ini[x], ts[us[0]][0])
                            tr += ([m.tg(use.index(x)), val[x]] if x in use else [m.tg(99)]) + [m.tg(50), m.tg(60 if x == us[0] else 61)]
                        yield "%s:match:%s:%s:%d" % (name, us, cs, els), dec, body, tr, {}
        # overloads, in every order, of functions and methods
        for k in (2, 3):
            for us in itertools.permutations(range(3), k):
                for kind in ("func", "method", "operator", "second", "generic"):
                    def over(x, i):
                        return {"func": "func $f(y: %s) { tag(%d); l32(%s) }\n", "method": " func f(y: %s) { tag(%d); l32(%s) }\n",
                                "operator": " func `+`(y: %s): void { tag(%d); l32(%s) }\n", "second": "func $f(k: i32, y: %s) { tag(%d); l32(%s) }\n",
                                "generic": "func $f(y: %s) { tag(%d); l32(%s) }\n"}[kind] % (ts[x][0], i, ts[x][2])
                    fs = "".join(over(x, i) for i, x in enumerate(us))
                    if kind == "func":
                        dec, calls = dec0 + fs, ["$f(%s); "] * k
                    elif kind == "second":
                        dec, calls = dec0 + fs, ["$f(1`i32, %s); "] * k
                    elif kind == "generic":
                        dec, calls = dec0 + fs + "func $g[T](y: T) { $f(y) }\n", ["$g(%s); "] * k
                    else:
                        dec, calls = dec0 + "struct H$ {\n n: i32\n" + fs + "}\n", ["h.f(%s); " if kind == "method" else "h + %s; "] * k
                    body = "" if "H$" not in dec else "var h = H${n: 1}; "
                    tr = []
                    for i, x in enumerate(us):
                        body += calls[i] % ini[x] if kind == "operator" else "{ var z: %s = %s; %s }\n" % (ts[x][0], ini[x], calls[i] % "z")
                        tr += [m.tg(i), val[x]]
                    yield "%s:%s:%s" % (name, kind, us), dec, body, tr, {}


@fam
def switches(m, thorough):
    """switch over values of every integer-like type, all case lists over four values"""
    kinds = [("i32", ["1`i32", "2`i32", "-3`i32", "70000`i32"]), ("u8", ["0`u8", "1`u8", "200`u8", "255`u8"]), ("i8", ["-1`i8", "0`i8", "1`i8", "127`i8"]),
             ("u64", ["0`u64", "1`u64", "5000000000`u64", "9000000000000000000`u64"]), ("i64", ["-1`i64", "4294967296`i64", "0`i64", "1`i64"]),
             ("u16", ["0`u16", "256`u16", "65535`u16", "1`u16"]), ("wchar", ["'a'", "'b'", "'\u00e9'", "'\u4e16'"]), ("EN", ["EN.A", "EN.B", "EN.C"])]
    for t, vs in kinds:
        idx = range(len(vs))
        lists = []
        for k in range(1, len(vs) + 1):
            for p in itertools.permutations(idx, k):
                if k >= 3 and p[0] > p[-1] and not thorough:
                    continue
                lists.append([(x,) for x in p])
        for a, b in itertools.permutations(idx, 2):
            lists.append([(a, b)])
            for c in idx:
                if c not in (a, b):
                    lists.append([(c,), (a, b)])
        for cases in lists:
            for dflt in (True, False):
                for sh in ([False, True] if t == "EN" else [False]):
                    txt = ""
                    for ci, c in enumerate(cases):
                        txt += "\ncase %s => tag(%d)" % (", ".join(vs[x].replace("EN.", ".") if sh else vs[x] for x in c), ci)
                    if dflt:
                        txt += "\ndefault => tag(99)"
                    dec = "func $f(x: %s): void { switch (x) {%s }\n tag(50) }\n" % (t, txt)
                    body, tr = "", []
                    for k, v in enumerate(vs):
                        hit = [ci for ci, c in enumerate(cases) if k in c]
                        if not (hit or dflt):
                            continue  # no matching case and no default stops the program by design
                        body += "$f(%s); " % v
                        if hit:
                            tr.append(m.tg(hit[0]))
                        elif dflt:
                            tr.append(m.tg(99))
                        tr.append(m.tg(50))
                    yield "%s:%s:%d%d" % (t, "|".join(",".join(map(str, c)) for c in cases), dflt, sh), dec, body, tr, need(m.LEAF["EN"]) if t == "EN" else {}


@fam
def caseranges(m, thorough):
    """switch cases that are ranges (both ends belong to it), alone, in lists, next to each other"""
    for t, lo in (("i32", -2), ("u8", 0), ("i8", -2), ("i64", -2), ("u32", 0), ("i16", -2), ("EN5", 0)):
        dom = list(range(lo, lo + (5 if t == "EN5" else 6)))
        name = (lambda v: "EN5.V%d" % v) if t == "EN5" else (lambda v: "%d`%s" % (v, t))
        rs = [(a, b) for a in dom for b in dom if a <= b]
        items = [(r,) for r in rs]
        for r in rs:
            items += [(r, (x, None)) for x in (dom[0], dom[-1]) if not r[0] <= x <= r[1]] + [((x, None), r) for x in (dom[2],) if not r[0] <= x <= r[1]]
        lists = [[i] for i in items]
        for a, b in itertools.product(rs, repeat=2):
            if a[1] < b[0] or b[1] < a[0]:
                lists.append([(a,), (b,)])
                lists.append([(a, b)])
        if thorough:
            for a, b, c in itertools.permutations(rs, 3):
                if all(x[1] < y[0] or y[1] < x[0] for x, y in itertools.combinations((a, b, c), 2)):
                    lists.append([(a, b), (c,)])
                    lists.append([(a,), (b,), (c,)])
        d = {"EN5": "enum EN5: i32 { V0, V1, V2, V3, V4 }\n"} if t == "EN5" else {}
        for cases in lists:
            txt = ""
            for ci, c in enumerate(cases):
                txt += "\ncase %s => tag(%d)" % (", ".join(name(a) if b is None else "%s..%s" % (name(a), name(b)) for a, b in c), ci)
            dec = "func $f(x: %s): void { switch (x) {%s\ndefault => tag(99) }\n tag(50) }\n" % (t, txt)
            body, tr = "", []
            for v in dom:
                hit = [ci for ci, c in enumerate(cases) if any(v == a if b is None else a <= v <= b for a, b in c)]
                body += "$f(%s); " % name(v)
                tr += [m.tg(hit[0] if hit else 99), m.tg(50)]
            yield "%s:%s" % (t, "|".join(",".join("%d" % a if b is None else "%d..%d" % (a, b) for a, b in c) for c in cases)), dec, body, tr, d
    for cases in ([("true", 0), ("false", 1)], [("false", 1), ("true", 0)], [("true", 0)], [("false", 1)]):
        dec = "func $f(x: bool): void { switch (x) {%s%s }\n tag(50) }\n" % ("".join("\ncase %s => tag(%d)" % c for c in cases), "\ndefault => tag(99)" if len(cases) == 1 else "")
        k = dict(cases)
        yield "bool:%s" % "".join(c[0][0] for c in cases), dec, "$f(true); $f(false); ", [m.tg(k.get("true", 99)), m.tg(50), m.tg(k.get("false", 99)), m.tg(50)], {}


# ---------------------------------------------------------------------------------------------------- spreading
@fam
def spreads(m, thorough):
    """argument lists made of values, spread tuples and spread variadic arguments"""
    N = "func %s(...args: %s): void { #for (const a: args) { l32(#{a} as i32) } tag(len!(args) as i32) }\n"
    ITEMS = ["lit", "lit8", "var", "t2", "t3", "call", "a0", "a1", "a2"]
    CALLEES = {
        "auto": (None, 0, N % ("$g", "auto")),
        "typed": (None, 0, N % ("$g", "i64")),
        "lead": (None, 1, "func $g(x: i64, ...args: auto): void { l32(x as i32); #for (const a: args) { l32(#{a} as i32) } tag(1 + len!(args) as i32) }\n"),
    }
    for n in range(4):
        ps = ["p%d" % j for j in range(n)]
        out = "".join("l32(%s as i32); " % p for p in ps) + "tag(%d)" % n
        CALLEES["fix%d" % n] = (n, 0, "func $g(%s): void { %s }\n" % (", ".join(p + ": i64" for p in ps), out))
        CALLEES["init%d" % n] = (n, 0, "class H$ { z: i32\n func `init`(%s) { z = 1; %s }\n }\n" % (", ".join(p + ": i64" for p in ps), out))
        CALLEES["meth%d" % n] = (n, 0, "struct H$ { z: i32\n func g(%s): void { %s }\n }\n" % (", ".join(p + ": i64" for p in ps), out))
        if n:
            CALLEES["gen%d" % n] = (n, 0, "func $g[%s](%s): void { %s }\n" % (", ".join("T%d" % j for j in range(n)), ", ".join("%s: T%d" % (p, j) for j, p in enumerate(ps)), out))
    CALLEES["tuple"] = (None, 1, "")
    TUP = {"t2": [31, 32], "t3": [41, 42, 43]}
    for cn, (n, least, dec) in CALLEES.items():
        for size in range(4):
            for its in itertools.product(ITEMS, repeat=size):
                if size == 3 and not thorough and (len(set(its)) == 1 or its[1] in ("lit8", "var", "t3", "call", "a1")):
                    continue
                if not any(i[0] in "ta" or i == "call" for i in its):
                    continue
                outer = sorted({i for i in its if i[0] == "a"})
                if len(outer) > 1:
                    continue  # one variadic parameter in scope
                exp, txt = [], []
                typed = False
                for k, i in enumerate(its):
                    if i == "lit":
                        exp.append(k + 1); txt.append("%d`i64" % (k + 1))
                    elif i == "lit8":
                        exp.append(k + 5); txt.append("%d`i8" % (k + 5)); typed = True
                    elif i == "var":
                        exp.append(17); txt.append("v")
                    elif i in TUP:
                        exp += TUP[i]; txt.append("..." + i)
                    elif i == "call":
                        exp += [51, 52]; txt.append("...tup$()")
                    else:
                        exp += [61 + j for j in range(int(i[1]))]; txt.append("...args")
                if len(exp) < least or (n is not None and len(exp) != n):
                    continue
                if cn == "tuple" and (len(its) < 2 or outer):
                    continue
                if cn == "typed" and typed:
                    continue
                pre = "var v = 17`i64; " + "".join("var %s = (%s); " % (t, ", ".join("%d`i64" % x for x in TUP[t])) for t in sorted(set(its) & set(TUP)))
                a = ", ".join(txt)
                if cn == "tuple":
                    use = "var r = (%s); %s" % (a, "".join("l32(r.%d as i32); " % j for j in range(len(exp))))
                    tr = exp
                else:
                    use = ("var h = H$(%s); " if cn[:4] == "init" else "var h = H${z: 1}; h.g(%s); " if cn[:4] == "meth" else "$g(%s); ") % a
                    tr = exp + [m.tg(len(exp))]
                d = dec + ("func tup$(): (i64, i64) { return (51`i64, 52`i64) }\n" if "call" in its else "")
                d = d.replace("tup$", "$tup")
                use, pre = use.replace("tup$", "$tup"), pre.replace("tup$", "$tup")
                if outer:
                    k = int(outer[0][1])
                    d += "func $o(...args: auto): void { %s%s }\n" % (pre, use)
                    body = "$o(%s); " % ", ".join("%d`i64" % (61 + j) for j in range(k))
                else:
                    body = pre + use
                yield "%s:%s" % (cn, "+".join(its)), d, body, tr, {}


@fam
def enums(m, thorough):
    for ty, pool in (("", [None, 0, 5, -2, 300]), ("u8", [None, 0, 1, 120, 100]), ("i64", [None, -1, 5000000000, 0, 7]), ("i16", [None, -300, 2, 300, 0]), ("u64", [None, 0, 5000000000, 3, 9])):
        for n in (1, 2, 3):
            for vals in itertools.product(pool, repeat=n):
                cur, vs = -1, []
                for v in vals:
                    cur = v if v is not None else cur + 1
                    vs.append(cur)
                if len(set(vs)) != n:
                    continue
                names = ["A", "B", "C"][:n]
                dec = "enum E$%s { %s }\n" % (": " + ty if ty else "", ", ".join(x + (" = %d" % v if v is not None else "") for x, v in zip(names, vals)))
                body = "".join("l64(E$.%s as i64); " % x for x in names)
                tr = [y for v in vs for y in (m.s32(v), v >> 32)]
                body += "var x = E$.%s; l64(x as i64); " % names[-1]
                tr += [m.s32(vs[-1]), vs[-1] >> 32]
                for k, x in enumerate(names):
                    body += "lb(x == E$.%s); lb(x != .%s); " % (x, x)
                    tr += [int(k == n - 1), int(k != n - 1)]
                body += "switch (x) {%s\ndefault => tag(9) }\n" % "".join("\ncase .%s => tag(%d)" % (x, k) for k, x in enumerate(names[:2]))
                tr += [m.tg(n - 1 if n <= 2 else 9)]
                if n > 1:
                    body += "x = .A; l64(x as i64); "
                    tr += [m.s32(vs[0]), vs[0] >> 32]
                yield "%s:%s" % (ty, ",".join(map(str, vals))), dec, body, tr, {}


# ---------------------------------------------------------------------------------------------------- generics
@fam
def generics(m, thorough):
    U = [t for t in universe(m)]
    for A, B in itertools.permutations(U, 2):
        w = m.W()
        v, x = A.vals()[0], B.vals()[0]
        y = A.vals()[1]
        p1, e1 = w.lit(A, v)
        p2, e2 = w.lit(B, x)
        p3, e3 = w.lit(A, y)
        key = "%s/%s" % (A.key, B.key)
        if not isinstance(A, (m.Opt, m.Union, m.Class)) and not isinstance(B, (m.Opt, m.Union, m.Class)):
            yield "box:" + key, "struct G$[T] { v: T\n func get(): T { return v }\n func set(p: T): void { v = p }\n }\n", \
                "%s%svar a = G$[%s]{v: %s}; var b = G$[%s]{v: %s}; var c = a; %sa.set(%s); const d = a.get(); %sconst e = b.get(); %s%s" % (
                    p1, p2, A.txt, e1, B.txt, e2, p3, e3, A.dump("d", w), B.dump("e", w), A.dump("c.v", w)), \
                A.flat(y) + B.flat(x) + A.flat(v), need(A, B)
        yield "cbox:" + key, "class G$[T] { v: T\n func `init`(p: T) { v = p }\n func put(p: T): void { v = p }\n }\n", \
            "%s%svar a = G$[%s](%s); var b = G$[%s](%s); %s%s%sa.put(%s); %s%s" % (
                p1, p2, A.txt, e1, B.txt, e2, A.dump("a.v", w), B.dump("b.v", w), p3, e3, A.dump("a.v", w), B.dump("b.v", w)), \
            A.flat(v) + B.flat(x) + A.flat(y) + B.flat(x), need(A, B)
        yield "infer:" + key, "func $f[T, U](a: T, b: U): void { %s }\n" % "tag(1)", "%s%svar a: %s = %s; var b: %s = %s; $f(a, b); $f(b, a); " % (p1, p2, A.txt, e1, B.txt, e2), [m.tg(1)] * 2, need(A, B)
        yield "pick:" + key, "func $f[T, U](a: T, b: U): U { return b }\n", "%s%svar a: %s = %s; var b: %s = %s; const c = $f(a, b); %sconst d = $f(b, a); %s" % (
            p1, p2, A.txt, e1, B.txt, e2, B.dump("c", w), A.dump("d", w)), B.flat(x) + A.flat(v), need(A, B)
    for A in U:
        if isinstance(A, (m.Opt, m.Union, m.Class)):
            continue
        w = m.W()
        v, y = A.vals()[:2]
        yield "nest:" + A.key, "struct G$[T] { v: T }\n", "var a = G$[G$[%s]]{v: G$[%s]{v: %s}}; var b = a; a.v.v = %s; %s%s" % (A.txt, A.txt, w.lit(A, v)[1], w.lit(A, y)[1], A.dump("a.v.v", w), A.dump("b.v.v", w)), \
            A.flat(y) + A.flat(v), need(A)
        yield "two:" + A.key, "struct G$[T, U] { v: T; u: U }\n", "var a = G$[%s, i32]{v: %s, u: 3}; var b = G$[i32, %s]{v: 4, u: %s}; %sl32(a.u); l32(b.v); %s" % (
            A.txt, w.lit(A, v)[1], A.txt, w.lit(A, y)[1], A.dump("a.v", w), A.dump("b.u", w)), A.flat(v) + [3, 4] + A.flat(y), need(A)


# ------------------------------------------------------------------------------- members named from within methods
MEMBERREFS = {  # how a method names a member of its own object: text, value given the field
    "field": ("x", lambda x: x), "this.field": ("this.x", lambda x: x),
    "method": ("m()", lambda x: x + 10), "this.method": ("this.m()", lambda x: x + 10),
    "arg": ("a(x)", lambda x: x + x), "overload": ("o(7`i32) + o(true)", lambda x: x + x + 57), "generic": ("g(\"s\")", lambda x: x + 40),
    "static": ("s()", lambda x: 8), "this.static": ("this.s()", lambda x: 8), "bump": ("b()", None), "chain": ("c()", lambda x: x + 11), "this.bump": ("this.b()", None),
}
MEMBERS = """ func m(): i32 { return x + 10`i32 }
 func a(v: i32): i32 { return x + v }
 func o(v: i32): i32 { return x + 20`i32 + v }
 func o(v: bool): i32 { return x + 30`i32 }
 func g[T](v: T): i32 { return x + 40`i32 }
 @static func s(): i32 { return 8`i32 }
 func b(): i32 { x = x + 100`i32; return x }
 func c(): i32 { return m() + 1`i32 }
"""


@fam
def members(m, thorough):
    """a method names the members of its own object, directly and from closures nested in it"""
    refs = list(MEMBERREFS)
    for owner in ("struct", "class", "derived", "derived2", "generic"):
        for order in ("before", "after"):
            for nest in [n for d in range(0, 4 if thorough else 3) for n in itertools.product("CLB", repeat=d)] + [tuple("CCC"), tuple("LBC")]:
                for r1, r2 in itertools.product(refs, repeat=2):
                    if not thorough and r1 != r2 and (len(nest) != 1 or order == "before"):
                        continue
                    bumped = "bump" in r1 + r2
                    if bumped and any(r in ("field", "arg", "overload") for r in (r1, r2)):
                        continue  # a field named alone is captured by value
                    st = {"x": 3, "tr": []}

                    def ref(r):
                        txt, f = MEMBERREFS[r]
                        if f is None:
                            st["x"] += 100
                            st["tr"].append(st["x"])
                        else:
                            st["tr"].append(f(st["x"]))
                        return "l32(%s); " % txt

                    def body(n, d):
                        t = ref(r1)
                        if not n:
                            return t + ref(r2)
                        if n[0] == "B":
                            t += "if (one > 0) { %s }\n" % body(n[1:], d + 1)
                        elif n[0] == "C":
                            t += "var f%d = (): i32 => { %sreturn 5`i32 }; l32(f%d()); " % (d, body(n[1:], d + 1), d)
                            st["tr"].append(5)
                        else:
                            t += "var y%d = %d`i32; var f%d = (z: i32): i32 => { %sreturn z + y%d + one }; l32(f%d(6`i32)); " % (d, 50 + d, d, body(n[1:], d + 1), d, d)
                            st["tr"].append(6 + 50 + d + 1)
                        return t + (ref(r1) if len(n) == 1 else "")
                    use = " func run(one: i32): void { %s }\n" % body(nest, 0)
                    inner = "x: i32\n" + (" func `init`() { x = 3`i32 }\n" if owner in ("class", "derived", "derived2") else "")
                    if owner in ("derived", "derived2"):
                        if order == "before":
                            continue
                        d = "class H$ { %s%s }\n" % (inner, MEMBERS)
                        up = "H$"
                        if owner == "derived2":
                            d += "class I$ : H$ { func `init`() { super() } }\n"
                            up = "I$"
                        d += "class J$ : %s { func `init`() { super() }\n%s }\n" % (up, use)
                        new = "J$()"
                    else:
                        d = "%s H$%s { %s%s }\n" % ("class" if owner == "class" else "struct", "[T]" if owner == "generic" else "", inner + (" w: T\n" if owner == "generic" else ""),
                                                    MEMBERS + use if order == "before" else use + MEMBERS)
                        new = {"struct": "H${x: 3}", "class": "H$()", "generic": "H$[i64]{x: 3, w: 4}"}[owner]
                    yield "%s/%s/%s:%s/%s" % (owner, order, "".join(nest), r1, r2), d, "var k = %s; k.run(1`i32); l32(k.x); " % new, st["tr"] + [st["x"]], {}


# ---------------------------------------------------------------------------------------------- names and scopes
SCOPES = ["block", "if", "else", "while", "for", "closure", "match", "defer", "catch", "case"]


def trees(size, depth, kinds):
    """statement lists: D declare from a constant, I declare from its own name, A assign, R read, (scope, list)"""
    if size == 0:
        yield ()
        return
    for first in ("D", "I", "A", "R"):
        for rest in trees(size - 1, depth, kinds):
            yield (first,) + rest
    if depth:
        for k in kinds:
            for inner in range(1, size):
                for b in trees(inner, depth - 1, kinds):
                    for rest in trees(size - 1 - inner, depth, kinds):
                        yield ((k, b),) + rest


def scoped(t):
    return any(isinstance(s, tuple) for s in t)


@fam
def scopes(m, thorough):
    """one name, declared again in nested scopes"""
    seen = set()
    for kinds, size, depth in ([(k,), 4, 1] for k in SCOPES):
        pass
    jobs = [((k,), 4 if not thorough else 5, 1) for k in SCOPES] + [((a, b), 4, 2) for a, b in itertools.product(SCOPES, repeat=2)]
    for kinds, size, depth in jobs:
        for n in range(2, size + 1):
            for t in trees(n, depth, kinds):
                if t in seen or not scoped(t):
                    continue
                seen.add(t)
                if depth == 2 and not any(isinstance(s, tuple) and scoped(s[1]) for s in t):
                    continue
                g = gen_scope(m, t)
                if g:
                    yield g


def show(t):
    return "".join(s if isinstance(s, str) else "%s(%s)" % (s[0], show(s[1])) for s in t)


def gen_scope(m, t):
    dec, cnt = [], [0]
    tr = []
    # the outermost x is a parameter; a second declaration in the same scope is an error
    class Bad(Exception):
        pass

    def block(stmts, env, names, out, first=False):
        """env: list of one-element cells, innermost last; returns text"""
        declared = first
        s = ""
        defers = []
        for st in stmts:
            cnt[0] += 1
            c = cnt[0]
            if st in ("D", "I"):
                if declared:
                    raise Bad
                declared = True
                if st == "D":
                    s += "var x = %d`i32; " % (100 + c)
                    env = env + [[100 + c]]
                else:
                    s += "var x = x + %d`i32; " % c
                    env = env + [[env[-1][0] + c]]
            elif st == "A":
                s += "x = x * 2`i32 + %d`i32; " % c
                env[-1][0] = env[-1][0] * 2 + c
            elif st == "R":
                s += "l32(x as i32); "
                out.append(env[-1][0])
            else:
                k, b = st
                if k == "block":
                    s += "{ %s }\n" % block(b, env, names, out)
                elif k == "if":
                    s += "if (x != 0) { %s }\n" % block(b, env, names, out) if 0 else "if (one > 0) { %s }\n" % block(b, env, names, out)
                elif k == "else":
                    s += "if (one > 1) { tag(77) } else { %s }\n" % block(b, env, names, out)
                elif k == "while":
                    s += "{ var once%d = true; while (once%d) { once%d = false; %s }\n }\n" % (c, c, c, block(b, env, names, out))
                elif k == "for":
                    # the loop variable is a new x
                    s += "for (const x: %d`i32..%d`i32) { %s }\n" % (c, c + 1, block(b, env + [[c]], names, out, True))
                    if "A" in b or deepassign(b):
                        raise Bad
                elif k == "closure":
                    # parameter is a new x
                    if capture(b):
                        raise Bad
                    s += "var fn%d = (x: i32): i32 => { %s return 0`i32 }; fn%d(%d`i32); " % (c, block(b, env + [[c]], names, out, True), c, c)
                elif k == "match":
                    s += "{ var u%d: U$ = %d`i32; match (u%d) { case i32 as x => { %s }\n else => tag(78) }\n }\n" % (c, c, c, block(b, env + [[c]], names, out, True))
                    if "A" in b or deepassign(b):
                        raise Bad
                elif k == "defer":
                    raise Bad if False else Skip
                elif k == "catch":
                    s += "rz$(true) catch { %s }\n" % block(b, env, names, out)
                elif k == "case":
                    s += "switch (one) { case 1`i32 => { %s }\n default => tag(79) }\n" % block(b, env, names, out)
        return s
    try:
        txt = block(t, [[7]], None, tr, True)
    except (Bad, Skip):
        return None
    d = "func $f(x: i32, one: i32): void { %s tag(1) }\n" % txt
    if "rz$" in txt:
        d = "class EX$: Exception { func `init`() { super(\"e\") }\n func what(): string { return \"e\" } }\nfunc rz$(b: bool): !void { if (b) { raise EX$() }\n return }\n" + d
    if "U$" in txt:
        d = "type U$ = i32 | string\n" + d
    return show(t), d.replace("rz$", "$rz"), "$f(7`i32, 1`i32)", tr + [m.tg(1)], {}


class Skip(Exception):
    pass


def deepassign(b):
    """an assignment that reaches the binding made by the scope itself"""
    for s in b:
        if s in ("D", "I"):
            return False
        if s == "A":
            return True
        if isinstance(s, tuple) and s[0] not in ("for", "closure", "match") and deepassign(s[1]):
            return True
    return False


def capture(b):
    return False


def families(m, thorough):
    for name, f in FORMS.items():
        for g in f(m, thorough):
            yield (name,) + g
