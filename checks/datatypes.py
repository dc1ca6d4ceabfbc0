#!/usr/bin/env python3
"""C08: values of every data type. Every type built from a small set of constructors up to a depth is combined
with every way a value can travel (copy, assign, mutate a part, parameter, result, pointer, closure, generic,
field, element, ...); the program reports every leaf it can see before and after, and a reference with plain
value semantics says what each must be. Families at the end do the same for how one of several
declarations is selected: union members, enum members, overloads, virtual methods, default arguments."""
import copy, itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from prog import *
import dispatch

NAT = r'''
#include <stdint.h>
#include <stdbool.h>
extern void px_ev(int k);
void l32(int32_t v) { px_ev(v); }
void l64(int64_t v) { px_ev((int32_t)v); px_ev((int32_t)(v >> 32)); }
void lf(double v) { px_ev((int32_t)(v * 16)); }
void lb(bool v) { px_ev(v ? 1 : 0); }
void ls(const char *s) { int h = 0, n = 0; while (s && s[n] && n < 100) h = h * 31 + s[n++]; px_ev(n); px_ev(h); }
void lc(uint32_t v) { px_ev((int32_t)v); }
void tag(int32_t v) { px_ev(-500 - v); }
'''
THEAD = HEAD + """
pub extern func l32(v: i32): void
pub extern func l64(v: i64): void
pub extern func lf(v: f64): void
pub extern func lb(v: bool): void
pub extern func ls(v: string): void
pub extern func lc(v: wchar): void
pub extern func tag(v: i32): void
"""


def tg(n):
    return -500 - n


def strh(s):
    h = 0
    for ch in s.encode():
        h = (h * 31 + ch) & 0xffffffff
    return [len(s), h - (1 << 32) if h >> 31 else h]


def s32(v):
    v &= 0xffffffff
    return v - (1 << 32) if v >> 31 else v


class Obj:
    def __init__(self, f):
        self.f = f


class Ty:
    """txt; vals(): python values; lit(v, pre): text; flat(v); dump(expr, w); parts()"""
    decl = ""
    deps = ()

    def alldecl(self, done=None):
        done = done if done is not None else {}
        for d in self.deps:
            d.alldecl(done)
        if self.decl and self.txt not in done:
            done[self.txt] = self.decl
        return "".join(done.values())

    def copy(self, v):
        return v

    def has(self, cls):
        return isinstance(self, cls) or any(d.has(cls) for d in self.deps)


class Leaf(Ty):
    def __init__(self, txt, fn, vals, lit, flat):
        self.txt, self.fn, self.v, self._lit, self.flat, self.key = txt, fn, vals, lit, flat, txt

    def vals(self):
        return list(self.v)

    def lit(self, v, w):
        return self._lit(v)

    def dump(self, e, w):
        if self.txt in ("i8", "u8", "i16", "u16"):
            e = "%s as i32" % e
        if self.txt in ("u32", "u64"):
            e = "%s as i64" % e
        return "%s(%s); " % (self.fn, e)

    def parts(self, v):
        return []


def tlit(t):
    return lambda v: "%d`%s" % (v, t) if v >= 0 else "-%d`%s" % (-v, t)


LEAF = {
    "i32": Leaf("i32", "l32", [5, -7, 100000], tlit("i32"), lambda v: [v]),
    "u8": Leaf("u8", "l32", [200, 3, 255], tlit("u8"), lambda v: [v]),
    "i8": Leaf("i8", "l32", [-100, 3, 127], tlit("i8"), lambda v: [v]),
    "u16": Leaf("u16", "l32", [40000, 3, 65535], tlit("u16"), lambda v: [v]),
    "i64": Leaf("i64", "l64", [5000000000, -3, 1 << 40], tlit("i64"), lambda v: [s32(v), v >> 32]),
    "u64": Leaf("u64", "l64", [9000000000, 1, 1 << 41], tlit("u64"), lambda v: [s32(v), s32(v >> 32)]),
    "f64": Leaf("f64", "lf", [2.5, -0.5, 1000.25], lambda v: "%r" % v, lambda v: [int(v * 16)]),
    "bool": Leaf("bool", "lb", [True, False, True], lambda v: "true" if v else "false", lambda v: [int(v)]),
    "string": Leaf("string", "ls", ["ab", "", "xyz"], lambda v: '"%s"' % v, strh),
    "wchar": Leaf("wchar", "lc", ["\u00e9", "b", "\u4e16"], lambda v: "'%s'" % v, lambda v: [ord(v)]),
}


class EnumT(Ty):
    txt = key = "EN"
    decl = "enum EN { A, B, C }\n"

    def vals(self):
        return [1, 2, 0]

    def lit(self, v, w):
        return "EN." + "ABC"[v]

    def flat(self, v):
        return [v]

    def dump(self, e, w):
        return "l32(%s as i32); " % e

    def parts(self, v):
        return []


LEAF["EN"] = EnumT()
NAMES = {}


def ident(pfx, key):
    return NAMES.setdefault((pfx, key), "%s%d" % (pfx, len(NAMES)))


class Agg(Ty):
    """fields of types self.deps, values are lists"""

    def vals(self):
        cols = [d.vals() for d in self.deps]
        return [[c[(k + i) % len(c)] for i, c in enumerate(cols)] for k in range(3)]

    def flat(self, v):
        return [x for d, y in zip(self.deps, v) for x in d.flat(y)]

    def dump(self, e, w):
        return "".join(d.dump(e + a, w) for d, a in zip(self.deps, self.acc))

    def copy(self, v):
        return [d.copy(x) for d, x in zip(self.deps, v)]

    def parts(self, v):
        """(access suffix, type, getter, setter)"""
        out = []
        for i, (d, a) in enumerate(zip(self.deps, self.acc)):
            out.append((a, d, lambda v, i=i: v[i], lambda v, x, i=i: v.__setitem__(i, x)))
            for (a2, d2, g, s) in d.parts(None):
                out.append((a + a2, d2, lambda v, i=i, g=g: g(v[i]), lambda v, x, i=i, s=s: s(v[i], x)))
        return out


class Struct(Agg):
    def __init__(self, *fs):
        self.deps = fs
        self.key = "S(%s)" % ",".join(f.key for f in fs)
        self.txt = ident("S", self.key)
        self.acc = [".f%d" % i for i in range(len(fs))]
        self.decl = "struct %s { %s }\n" % (self.txt, "; ".join("f%d: %s" % (i, f.txt) for i, f in enumerate(fs)))

    def lit(self, v, w):
        return "%s{%s}" % (self.txt, ", ".join("f%d: %s" % (i, d.lit(x, w)) for i, (d, x) in enumerate(zip(self.deps, v))))


class Tuple(Agg):
    def __init__(self, *fs):
        self.deps = fs
        self.key = "T(%s)" % ",".join(f.key for f in fs)
        self.txt = "(%s)" % ", ".join(f.txt for f in fs)
        self.acc = [".%d" % i for i in range(len(fs))]

    def lit(self, v, w):
        return "(%s)" % ", ".join(d.lit(x, w) for d, x in zip(self.deps, v))


class Array(Agg):
    def __init__(self, f, n):
        self.deps = (f,) * n
        self.key = "A(%s,%d)" % (f.key, n)
        self.txt = "[%s, %d]" % (f.txt, n)
        self.acc = [".[%d]" % i for i in range(n)]

    def lit(self, v, w):
        return "[%s]" % ", ".join(d.lit(x, w) for d, x in zip(self.deps, v))


class Class(Agg):
    """values are Obj"""

    def __init__(self, *fs):
        self.deps = fs
        self.key = "C(%s)" % ",".join(f.key for f in fs)
        self.txt = ident("C", self.key)
        self.acc = [".f%d" % i for i in range(len(fs))]
        self.decl = "class %s {\n%s func `init`(%s) { %s } }\n" % (
            self.txt, "".join("f%d: %s\n" % (i, f.txt) for i, f in enumerate(fs)),
            ", ".join("p%d: %s" % (i, f.txt) for i, f in enumerate(fs)), "; ".join("f%d = p%d" % (i, i) for i in range(len(fs))))

    def lit(self, v, w):
        return "%s(%s)" % (self.txt, ", ".join(d.lit(x, w) for d, x in zip(self.deps, v.f)))

    def vals(self):
        return [Obj(v) for v in Agg.vals(self)]

    def flat(self, v):
        return Agg.flat(self, v.f)

    def copy(self, v):
        return v

    def parts(self, v):
        return [(a, d, lambda v, g=g: g(v.f), lambda v, x, s=s: s(v.f, x)) for a, d, g, s in Agg.parts(self, None)]


class Opt(Ty):
    def __init__(self, f):
        self.deps = (f,)
        self.f = f
        self.key = "O(%s)" % f.key
        self.txt = ident("O", self.key)
        self.decl = "type %s = %s?\n" % (self.txt, f.txt)

    def vals(self):
        a = self.f.vals()
        return [[a[0]], None, [a[1]]]

    def lit(self, v, w):
        n = w.tmp()
        w.pre.append("var %s: %s = %s; " % (n, self.txt, "null" if v is None else self.f.lit(v[0], w)))
        return n

    def copy(self, v):
        return v and [self.f.copy(v[0])]

    def flat(self, v):
        return [tg(0)] if v is None else [tg(1)] + self.f.flat(v[0])

    def dump(self, e, w):
        n = w.tmp()
        m = w.tmp()
        return "if (const %s = %s) { tag(1); const %s = *%s; %s} else { tag(0) }\n" % (n, e, m, n, self.f.dump(m, w))

    def parts(self, v):
        return []


class Union(Ty):
    def __init__(self, *fs):
        self.deps = fs
        self.key = "U(%s)" % ",".join(f.key for f in fs)
        self.txt = ident("U", self.key)
        self.decl = "type %s = %s\n" % (self.txt, " | ".join(f.txt for f in fs))

    def vals(self):
        n = len(self.deps)
        out = [[i, d.vals()[0]] for i, d in enumerate(self.deps)]
        return out + [[0, self.deps[0].vals()[1]]]

    def lit(self, v, w):
        n = w.tmp()
        w.pre.append("var %s: %s = %s; " % (n, self.txt, self.deps[v[0]].lit(v[1], w)))
        return n

    def copy(self, v):
        return [v[0], self.deps[v[0]].copy(v[1])]

    def flat(self, v):
        return [tg(10 + v[0])] + self.deps[v[0]].flat(v[1])

    def dump(self, e, w):
        n = w.tmp()
        return "match (%s) {%s}\n" % (e, "".join("\ncase %s as %s => { tag(%d); %s}" % (d.txt, n, 10 + i, d.dump(n, w)) for i, d in enumerate(self.deps)))

    def parts(self, v):
        return []


class W:
    def __init__(self):
        self.n, self.pre = 0, []

    def tmp(self):
        self.n += 1
        return "t%d" % self.n

    def lit(self, ty, v):
        """statements that must come first, and the expression"""
        self.pre = []
        e = ty.lit(v, self)
        return "".join(self.pre), e


# ------------------------------------------------------------------------------------ ways a value travels
OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


def D(ty, v):
    return ty.flat(v)


# each yields (variant key, decls, body, trace function or list)
@op
def init(T, w):
    for i, v in enumerate(T.vals()):
        p, e = w.lit(T, v)
        yield "v%d" % i, "", "%svar x: %s = %s; %s" % (p, T.txt, e, T.dump("x", w)), D(T, v)
        p, e = w.lit(T, v)
        yield "infer%d" % i, "", "%svar x = %s; %s" % (p, e, T.dump("x", w)), D(T, v)
        p, e = w.lit(T, v)
        yield "const%d" % i, "", "%sconst x = %s; %s" % (p, e, T.dump("x", w)), D(T, v)


@op
def assign(T, w):
    vs = T.vals()
    for i, j, k in ((0, 1, 2), (1, 0, 1), (1, 2, 0)):
        p, e = w.lit(T, vs[i])
        q, f = w.lit(T, vs[j])
        r, g = w.lit(T, vs[k])
        yield "%d%d%d" % (i, j, k), "", "%svar x: %s = %s; %s %sx = %s; %s %s x = %s; %s" % (p, T.txt, e, T.dump("x", w), q, f, T.dump("x", w), r, g, T.dump("x", w)), \
            D(T, vs[i]) + D(T, vs[j]) + D(T, vs[k])


@op
def copies(T, w):
    vs = T.vals()
    for i, j in ((0, 1), (1, 0), (1, 2)):
        p, e = w.lit(T, vs[i])
        q, f = w.lit(T, vs[j])
        yield "%d%d" % (i, j), "", "%svar x: %s = %s; var y = x; %s x = %s; %s %s y = x; %s" % (p, T.txt, e, q, f, T.dump("x", w), T.dump("y", w), T.dump("y", w)), \
            D(T, vs[j]) + D(T, vs[i]) + D(T, vs[j])


@op
def part(T, w):
    """change one part of a copy: the original keeps its own (unless it is a class object)"""
    vs = T.vals()
    for n, (a, d, g, s) in enumerate(T.parts(None)):
        v = copy.deepcopy(vs[0])
        nv = vs[1]
        newv = g(nv)
        p, e = w.lit(T, v)
        q, f = w.lit(d, newv)
        before = D(T, v)
        c = T.copy(v)
        s(c, copy.deepcopy(newv))
        yield "copy%s" % a, "", "%svar x: %s = %s; %s var y = x; %s y%s = %s; %s%s" % (p, T.txt, e, T.dump("x", w), q, a, f, T.dump("x", w), T.dump("y", w)), before + D(T, v) + D(T, c)
        v = copy.deepcopy(vs[0])
        before = D(T, v)
        s(v, copy.deepcopy(newv))
        p, e = w.lit(T, vs[0])
        q, f = w.lit(d, newv)
        yield "self%s" % a, "", "%svar x: %s = %s; %s %s x%s = %s; %s %s" % (p, T.txt, e, T.dump("x", w), q, a, f, T.dump("x", w), d.dump("x" + a, w)), before + D(T, v) + D(d, newv)
        # take the part out, then change the part in the original
        v = copy.deepcopy(vs[0])
        old = d.copy(g(v))
        p, e = w.lit(T, vs[0])
        q, f = w.lit(d, newv)
        s(v, copy.deepcopy(newv))
        yield "out%s" % a, "", "%svar x: %s = %s; var y = x%s; %s x%s = %s; %s%s" % (p, T.txt, e, a, q, a, f, d.dump("y", w), T.dump("x", w)), D(d, old) + D(T, v)


@op
def param(T, w):
    vs = T.vals()
    p, e = w.lit(T, vs[0])
    q, f = w.lit(T, vs[1])
    yield "val", "func $f(p: %s): void { %s %s p = %s; %s }\n" % (T.txt, T.dump("p", w), q, f, T.dump("p", w)), \
        "%svar x: %s = %s; $f(x); %s" % (p, T.txt, e, T.dump("x", w)), D(T, vs[0]) + D(T, vs[1]) + D(T, vs[0])
    p, e = w.lit(T, vs[0])
    yield "lit", "func $f(n: i32, p: %s, m: i32): void { l32(n); l32(m); %s }\n" % (T.txt, T.dump("p", w)), \
        "%s$f(3, %s, 4)" % (p, e), [3, 4] + D(T, vs[0])
    p, e = w.lit(T, vs[0])
    q, f = w.lit(T, vs[1])
    yield "two", "func $f(p: %s, q: %s): void { %s %s }\n" % (T.txt, T.txt, T.dump("q", w), T.dump("p", w)), \
        "%s%svar x: %s = %s; $f(x, %s); $f(%s, x)" % (p, q, T.txt, e, f, f), (D(T, vs[1]) + D(T, vs[0])) + (D(T, vs[0]) + D(T, vs[1]))
    p, e = w.lit(T, vs[0])
    q, f = w.lit(T, vs[1])
    yield "ptr", "func $f(p: ^%s): void { %s *p = %s; }\n" % (T.txt, q, f), \
        "%svar x: %s = %s; $f(ptrof x); %s" % (p, T.txt, e, T.dump("x", w)), D(T, vs[1])
    for a, d, g, s in T.parts(None):
        v = copy.deepcopy(vs[0])
        before = D(T, v)
        c = T.copy(v)
        newv = g(vs[1])
        p, e = w.lit(T, v)
        q, f = w.lit(d, newv)
        s(c, newv)
        yield "part" + a, "func $f(p: %s): void { %s p%s = %s; %s }\n" % (T.txt, q, a, f, T.dump("p", w)), \
            "%svar x: %s = %s; %s $f(x); %s" % (p, T.txt, e, T.dump("x", w), T.dump("x", w)), before + D(T, c) + D(T, v)
        v = copy.deepcopy(vs[0])
        p, e = w.lit(T, v)
        q, f = w.lit(d, newv)
        s(v, newv)
        yield "ptr" + a, "func $f(p: ^%s): void { %s p%s = %s; }\n" % (T.txt, q, a, f), \
            "%svar x: %s = %s; $f(ptrof x); %s" % (p, T.txt, e, T.dump("x", w)), D(T, v)
        p, e = w.lit(T, vs[0])
        q, f = w.lit(d, newv)
        yield "ref" + a, "func $f(p: &%s): void { %s p%s = %s; }\n" % (T.txt, q, a, f), \
            "%svar x: %s = %s; $f(&x); %s" % (p, T.txt, e, T.dump("x", w)), D(T, v)


@op
def result(T, w):
    vs = T.vals()
    p, e = w.lit(T, vs[0])
    yield "direct", "func $f(): %s { %sreturn %s }\n" % (T.txt, p, e), "var x = $f(); %s" % T.dump("x", w), D(T, vs[0])
    p, e = w.lit(T, vs[0])
    if not p:
        yield "arrow", "func $f(): %s => %s\n" % (T.txt, e), "var x = $f(); %s" % T.dump("x", w), D(T, vs[0])
        yield "expr", "func $f(): %s => %s\n" % (T.txt, e), "%s" % T.dump("$f()", w) if T.key[0] not in "OU" else T.dump("$f()", w), D(T, vs[0])
    p, e = w.lit(T, vs[0])
    q, f = w.lit(T, vs[1])

    def tr(b):
        return D(T, vs[0]) if b.choose(2) else D(T, vs[1])
    yield "branch", "func $f(b: bool): %s { if (b) { %sreturn %s }\n %svar y: %s = %s; return y }\n" % (T.txt, p, e, q, T.txt, f), \
        "var x = $f(bit()); %s" % T.dump("x", w), tr
    p, e = w.lit(T, vs[0])
    yield "param", "func $f(p: %s): %s { return p }\nfunc $g(p: %s): %s => $f($f(p))\n" % ((T.txt,) * 4), \
        "%svar x: %s = %s; var y = $g(x); %s %s" % (p, T.txt, e, T.dump("x", w), T.dump("y", w)), D(T, vs[0]) * 2
    p, e = w.lit(T, vs[0])
    q, f = w.lit(T, vs[1])

    def tr2(b):
        return D(T, vs[0]) if b.choose(2) else D(T, vs[1])
    yield "raise", "exception X$(n: i32) { return \"x\" }\nfunc $f(b: bool): !%s { %sif (!b) raise X$(1)\n return %s }\n" % (T.txt, p, e), \
        "%svar x: %s = $f(bit()) catch %s; %s" % (q, T.txt, f, T.dump("x", w)), tr2


@op
def pointer(T, w):
    vs = T.vals()
    p, e = w.lit(T, vs[0])
    q, f = w.lit(T, vs[1])
    yield "write", "", "%svar x: %s = %s; var p = ptrof x; %s *p = %s; %s var y = *p; %s" % (p, T.txt, e, q, f, T.dump("x", w), T.dump("y", w)), D(T, vs[1]) * 2
    p, e = w.lit(T, vs[0])
    q, f = w.lit(T, vs[1])
    yield "read", "", "%svar x: %s = %s; var p = ptrof x; var y = *p; %s x = %s; %s %s" % (p, T.txt, e, q, f, T.dump("y", w), T.dump("x", w)), D(T, vs[0]) + D(T, vs[1])
    p, e = w.lit(T, vs[0])
    q, f = w.lit(T, vs[1])
    yield "two", "", "%s%svar x: %s = %s; var y: %s = %s; var p = ptrof x; var q = ptrof y; *p = *q; %s %s p = q; *p = x; %s" % (
        p, q, T.txt, e, T.txt, f, T.dump("x", w), T.dump("y", w), T.dump("y", w)), D(T, vs[1]) * 3


@op
def closure(T, w):
    vs = T.vals()
    p, e = w.lit(T, vs[0])
    yield "ret", "", "%svar x: %s = %s; const f = () => x; var y = f(); %s %s" % (p, T.txt, e, T.dump("y", w), T.dump("x", w)), D(T, vs[0]) * 2
    p, e = w.lit(T, vs[0])
    yield "dump", "", "%svar x: %s = %s; const f = (n: i32) => { l32(n); %s }; f(3); f(4); %s" % (p, T.txt, e, T.dump("x", w), T.dump("x", w)), [3] + D(T, vs[0]) + [4] + D(T, vs[0]) * 2
    p, e = w.lit(T, vs[0])
    yield "arg", "func $h(f: func() -> %s): %s { return f() }\n" % (T.txt, T.txt), "%svar x: %s = %s; var y = $h(() => { var z = x; return z }); %s" % (p, T.txt, e, T.dump("y", w)), D(T, vs[0])
    p, e = w.lit(T, vs[0])
    yield "fparam", "func $h(f: func(p: %s) -> void): void { %s f(%s) }\n" % (T.txt, p, e), "$h((p: %s) => { %s })" % (T.txt, T.dump("p", w)), D(T, vs[0])
    p, e = w.lit(T, vs[0])
    yield "fboth", "func $h(f: func(p: %s) -> %s): %s { %s return f(%s) }\n" % (T.txt, T.txt, T.txt, p, e), \
        "var y = $h((p: %s) => { tag(4); return p }); %s" % (T.txt, T.dump("y", w)), [tg(4)] + D(T, vs[0])
    p, e = w.lit(T, vs[0])
    yield "nested", "", "%svar x: %s = %s; const f = () => { const g = () => { %s }; g(); tag(5) }; f(); f()" % (p, T.txt, e, T.dump("x", w)), (D(T, vs[0]) + [tg(5)]) * 2


@op
def generic(T, w):
    vs = T.vals()
    p, e = w.lit(T, vs[0])
    yield "id", "func $f[X](x: X) => x\n", "%svar x: %s = %s; var y = $f(x); %s" % (p, T.txt, e, T.dump("y", w)), D(T, vs[0])
    p, e = w.lit(T, vs[0])
    yield "explicit", "func $f[X](x: X): X { var y = x; return y }\n", "%svar y = $f[%s](%s); %s" % (p, T.txt, e, T.dump("y", w)), D(T, vs[0])
    p, e = w.lit(T, vs[0])
    yield "struct", "struct G$[X, Y] { a: X; b: Y }\n", "%svar g = G$[%s, i32]{a: %s, b: 6}; %s l32(g.b); var h = g; h.b = 7; l32(g.b); %s" % (p, T.txt, e, T.dump("g.a", w), T.dump("h.a", w)), \
        D(T, vs[0]) + [6, 6] + D(T, vs[0])
    p, e = w.lit(T, vs[0])
    q, f = w.lit(T, vs[1])
    yield "class", "class G$[X] { a: X\n func `init`(x: X) { a = x }\n func get() => a\n func set(x: X): void { a = x } }\n", \
        "%s%svar g = G$[%s](%s); var h = g; var y = h.get(); %s g.set(%s); var z = h.get(); %s" % (p, q, T.txt, e, T.dump("y", w), f, T.dump("z", w)), D(T, vs[0]) + D(T, vs[1])
    p, e = w.lit(T, vs[0])
    q, f = w.lit(T, vs[1])
    yield "second", "func $f[X, Y](x: X, y: Y): Y => y\n", "%svar y = $f(1, %s); %s var z = $f(%s, 5`i32); l32(z)" % (p, e, T.dump("y", w), e), D(T, vs[0]) + [5]


@op
def holder(T, w):
    vs = T.vals()
    p, e = w.lit(T, vs[0])
    q, f = w.lit(T, vs[1])
    yield "field", "struct H$ { n: i32; x: %s; m: i32 }\n" % T.txt, \
        "%svar h = H${n: 1, x: %s, m: 2}; l32(h.n); %s l32(h.m); %s h.x = %s; l32(h.n); %s l32(h.m)" % (p, e, T.dump("h.x", w), q, f, T.dump("h.x", w)), [1] + D(T, vs[0]) + [2, 1] + D(T, vs[1]) + [2]
    p, e = w.lit(T, vs[0])
    q, f = w.lit(T, vs[1])
    yield "cfield", "class H$ { n: i32 = 1\n x: %s\n func `init`(x: %s) { this.x = x }\n func get(): %s => x\n func set(v: %s): void { x = v } }\n" % ((T.txt,) * 4), \
        "%svar h = H$(%s); var y = h.get(); %s %s h.set(%s); var z = h.get(); %s l32(h.n)" % (p, e, T.dump("y", w), q, f, T.dump("z", w)), D(T, vs[0]) + D(T, vs[1]) + [1]
    p, e = w.lit(T, vs[0])
    yield "outer", "struct H$ { n: i32; x: %s }\nstruct J$ { h: H$; k: i32 }\n" % T.txt, \
        "%svar j = J${h: H${n: 1, x: %s}, k: 2}; var i = j; i.h.n = 9; l32(j.h.n); %s l32(i.h.n); %s" % (p, e, T.dump("j.h.x", w), T.dump("i.h.x", w)), [1] + D(T, vs[0]) + [9] + D(T, vs[0])
    p, e = w.lit(T, vs[0])
    q, f = w.lit(T, vs[1])
    yield "array", "", "%s%svar a = [%s, %s]; var i = 0`i32; while (i < 2) { %s i = i + 1; }\n a.[0] = a.[1]; %s" % (p, q, e, f, T.dump("a.[i]", w), T.dump("a.[0]", w)), D(T, vs[0]) + D(T, vs[1]) * 2
    p, e = w.lit(T, vs[0])
    q, f = w.lit(T, vs[1])
    yield "for", "", "%s%svar a = [%s, %s]; for (const x, i: a) { l32(i as i32); %s }" % (p, q, e, f, T.dump("x", w)), [0] + D(T, vs[0]) + [1] + D(T, vs[1])
    p, e = w.lit(T, vs[0])
    yield "tuple", "func $f(): (i32, %s, bool) { %s return (4`i32, %s, true) }\n" % (T.txt, p, e), "const a, b, c = $f(); l32(a); %s lb(c)" % T.dump("b", w), [4] + D(T, vs[0]) + [1]
    p, e = w.lit(T, vs[0])
    yield "tuple_", "func $f(): (i32, %s, bool) { %s return (4`i32, %s, true) }\n" % (T.txt, p, e), "const _, b = $f(); %s" % T.dump("b", w), D(T, vs[0])
    p, e = w.lit(T, vs[0])
    q, f = w.lit(T, vs[1])
    yield "nest", "struct H$ { t: (i32, %s) }\n" % T.txt, "%s%svar h = H${t: (3`i32, %s)}; var g = h; g.t.1 = %s; %s l32(g.t.0); %s" % (p, q, e, f, T.dump("h.t.1", w), T.dump("g.t.1", w)), \
        D(T, vs[0]) + [3] + D(T, vs[1])
    p, e = w.lit(T, vs[0])
    q, f = w.lit(T, vs[1])
    yield "swap", "", "%s%svar x: %s = %s; var y: %s = %s; const t = x; x = y; y = t; %s %s" % (p, q, T.txt, e, T.txt, f, T.dump("x", w), T.dump("y", w)), D(T, vs[1]) + D(T, vs[0])


@op
def ternary(T, w):
    vs = T.vals()
    p, e = w.lit(T, vs[0])
    q, f = w.lit(T, vs[1])

    def tr(b):
        return D(T, vs[0]) if b.choose(2) else D(T, vs[1])
    yield "lit", "", "%s%svar x = bit() ? %s : %s; %s" % (p, q, e, f, T.dump("x", w)), tr

    def tr2(b):
        return (D(T, vs[0]) if b.choose(2) else D(T, vs[1])) + D(T, vs[0]) + D(T, vs[1])
    yield "var", "", "%s%svar x: %s = %s; var y: %s = %s; const z = bit() ? x : y; %s %s %s" % (p, q, T.txt, e, T.txt, f, T.dump("z", w), T.dump("x", w), T.dump("y", w)), tr2

    def tr3(b):
        if b.choose(2):
            return D(T, vs[1]) + [7]
        return D(T, vs[0]) + [7]
    p, e = w.lit(T, vs[0])
    q, f = w.lit(T, vs[1])
    yield "if", "", "%svar x: %s = %s; if (bit()) { %sx = %s; }\n %s l32(7)" % (p, T.txt, e, q, f, T.dump("x", w)), tr3

    def tr4(b):
        out, cur = [], vs[0]
        while b.choose(2):
            out += D(T, cur)
            cur = vs[1] if cur is vs[0] else vs[0]
        return out + D(T, cur)
    p, e = w.lit(T, vs[0])
    q, f = w.lit(T, vs[1])
    yield "while", "", "%s%svar x: %s = %s; var y: %s = %s; while (bit()) { %s const z = x; x = y; y = z; }\n %s" % (p, q, T.txt, e, T.txt, f, T.dump("x", w), T.dump("x", w)), tr4


@op
def globl(T, w):
    vs = T.vals()
    p, e = w.lit(T, vs[0])
    q, f = w.lit(T, vs[1])
    yield "late", "var $g: %s;\nfunc $s(v: %s) { $g = v }\nfunc $r() { %s }\n" % (T.txt, T.txt, T.dump("$g", w)), "%s$g = %s; %s %s var x: %s = %s; $s(x); $r(); var y = $g; %s" % (
        p, e, T.dump("$g", w), q, T.txt, f, T.dump("y", w)), D(T, vs[0]) + D(T, vs[1]) * 2
    if not p and not q:
        for kind, dec in (("typed", "var $g: %s = %s;\n" % (T.txt, e)), ("auto", "var $g = %s;\n" % e), ("const", "const $g: %s = %s;\n" % (T.txt, e))):
            if kind == "auto" and isinstance(T, (Opt, Union)):
                continue
            w = W()
            if kind == "const":
                yield kind, dec + "func $r() { %s }\n" % T.dump("$g", w), "$r(); %s" % T.dump("$g", w), D(T, vs[0]) * 2
            else:
                yield kind, dec + "func $r() { %s }\n" % T.dump("$g", w), "$r(); var x = $g; $g = %s; $r(); %s %s" % (f, T.dump("$g", w), T.dump("x", w)), D(T, vs[0]) + D(T, vs[1]) * 2 + (D(T, vs[1]) if isinstance(T, Class) and 0 else D(T, vs[0]))


@op
def deflt(T, w):
    vs = T.vals()
    p, e = w.lit(T, vs[0])
    q, f = w.lit(T, vs[1])
    if not p:
        yield "param", "func $f(n: i32, p: %s = %s): void { l32(n); %s }\n" % (T.txt, e, T.dump("p", w)), "%s$f(3); $f(4, %s)" % (q, f), [3] + D(T, vs[0]) + [4] + D(T, vs[1])
        yield "field", "struct H$ { n: i32; x: %s = %s }\n" % (T.txt, e), "%svar h = H${n: 1}; %s var g = H${n: 2, x: %s}; %s l32(g.n)" % (q, T.dump("h.x", w), f, T.dump("g.x", w)), D(T, vs[0]) + D(T, vs[1]) + [2]
        yield "cfield", "class H$ { x: %s = %s\n func `init`() {} }\n" % (T.txt, e), "var h = H$(); %s %s h.x = %s; var g = H$(); %s %s" % (T.dump("h.x", w), q, f, T.dump("h.x", w), T.dump("g.x", w)), D(T, vs[0]) + D(T, vs[1]) + D(T, vs[0])


@op
def into(T, w):
    """widened into an optional or a union, and taken out again"""
    vs = T.vals()
    p, e = w.lit(T, vs[0])
    yield "opt", "type W$ = %s?\n" % T.txt, "%svar x: %s = %s; var o: W$ = x; if (const y = o) { %s }\n o = null; if (o) tag(1) else tag(0); %s" % (p, T.txt, e, "const z = *y; " + T.dump("z", w), T.dump("x", w)), \
        D(T, vs[0]) + [tg(0)] + D(T, vs[0])
    p, e = w.lit(T, vs[0])
    yield "optderef", "type W$ = %s?\n" % T.txt, "%svar x: %s = %s; var o: W$ = x; var y = *o; %s" % (p, T.txt, e, T.dump("y", w)), D(T, vs[0])
    p, e = w.lit(T, vs[0])
    yield "optarg", "type W$ = %s?\nfunc $f(o: W$): void { if (const y = o) { %s } else tag(0) }\n" % (T.txt, "const z = *y; " + T.dump("z", w)), "%svar x: %s = %s; $f(x); $f(null)" % (p, T.txt, e), D(T, vs[0]) + [tg(0)]
    p, e = w.lit(T, vs[0])

    def tr(b):
        return D(T, vs[0]) if b.choose(2) else [tg(0)]
    yield "optret", "func $f(b: bool): %s? { %sif (b) return %s\n return null }\n" % (T.txt, p, e), "if (const y = $f(bit())) { %s } else tag(0)" % ("const z = *y; " + T.dump("z", w)), tr
    p, e = w.lit(T, vs[0])
    yield "uni", "struct Z$ { z: i32 }\ntype W$ = Z$ | %s\n" % T.txt, "%svar x: %s = %s; var u: W$ = x; match (u) { case %s as y => { %s }\n case Z$ as z => l32(z.z) }\n u = Z${z: 9}; match (u) { case %s as y => { %s }\n case Z$ as z => l32(z.z) }" % (
        p, T.txt, e, T.txt, T.dump("y", w), T.txt, T.dump("y", w)), D(T, vs[0]) + [9]
    p, e = w.lit(T, vs[0])
    yield "unias", "struct Z$ { z: i32 }\ntype W$ = Z$ | %s\n" % T.txt, "%svar x: %s = %s; var u: W$ = x; var y = u as %s; %s" % (p, T.txt, e, T.txt, T.dump("y", w)), D(T, vs[0])
    p, e = w.lit(T, vs[0])
    yield "uniarg", "struct Z$ { z: i32 }\ntype W$ = Z$ | %s\nfunc $f(u: W$): void { match (u) { case %s as y => { %s }\n else => tag(3) } }\n" % (T.txt, T.txt, T.dump("y", w)), \
        "%svar x: %s = %s; $f(x); $f(Z${z: 1})" % (p, T.txt, e), D(T, vs[0]) + [tg(3)]


def types(thorough):
    L = LEAF
    one = list(L.values())
    few = [L[k] for k in ("i32", "u8", "f64", "string", "EN")]
    three = [L[k] for k in ("i32", "u8", "string")]
    d1 = []
    for l in one:
        d1 += [Struct(l), Opt(l), Array(l, 2), Class(l), Tuple(l, L["i32"])]
    for a, b in itertools.product(few, repeat=2):
        d1 += [Struct(a, b), Tuple(a, b)]
        if a is not b:
            d1.append(Union(a, b))
    for a, b, c in itertools.permutations(three, 3):
        d1 += [Union(a, b, c), Struct(a, b, c), Tuple(a, b, c), Class(a, b, c)]
    i, u, s = L["i32"], L["u8"], L["string"]
    mid = [Struct(u, i), Tuple(u, s), Opt(i), Array(u, 3), Class(i, s), Union(i, s), Struct(L["EN"])]
    d2 = []
    for m in mid:
        d2 += [Struct(m), Opt(m), Array(m, 2), Class(m), Struct(u, m, i), Tuple(m, i), Tuple(s, m), Union(m, u), Union(u, m), Class(u, m)]
        for n in mid:
            d2 += [Struct(m, n), Tuple(m, n)]
            if m is not n:
                d2.append(Union(m, n))
    d3 = []
    if thorough:
        for m in mid:
            for x in (Struct(u, m), Tuple(m, i), Opt(m), Array(m, 2), Union(u, m), Class(m)):
                d3 += [Struct(x, u), Opt(x), Array(x, 2), Tuple(u, x), Union(x, i), Class(x)]
    seen = {}
    for t in one + d1 + d2 + d3:
        seen.setdefault(t.key, t)
    return list(seen.values())


def main_families(thorough):
    for T in types(thorough):
        for name, f in OPS.items():
            w = W()
            for key, decl, bdy, tr in f(T, w):
                yield name, "%s:%s" % (T.key, key), T, decl, bdy, tr


def nm(t, n):
    t = re.sub(r"([A-Z])\$", r"\g<1>%d" % n, t)
    return re.sub(r"\$([a-z])", r"q\g<1>%d" % n, t)


def inside(T, cls):
    return any(d.has(cls) for d in T.deps)


def only(T, *cls):
    return (not T.deps or isinstance(T, cls)) and all(only(d, *cls) for d in T.deps)


def optopt(T):
    # an optional cannot be made from an optional (it is not wrapped again)
    return (isinstance(T, Opt) and isinstance(T.f, Opt)) or any(optopt(d) for d in T.deps)


def skip(fam, key, T):
    """combinations the compiler does not support (it rejects them, or the result is a reference)"""
    key = key.split(":", 1)[1]
    if isinstance(T, Array) and (fam in ("assign", "copies", "param", "result", "pointer", "closure", "generic", "ternary", "into", "deflt", "holder", "globl") or (fam == "part" and key.startswith("copy"))):
        return True
    if T.has(Array):
        if not only(T, Struct, Tuple, Array):
            return True
        if fam in ("part", "param") and "." in key:
            # the part is an array itself
            for a, d, g, s in T.parts(None):
                if key.endswith(a) and isinstance(d, Array) and key[:-len(a)] in ("copy", "self", "out", "part", "ptr", "ref"):
                    return True
    if optopt(T):
        return True
    if isinstance(T, Union) and any(isinstance(d, Opt) for d in T.deps):
        return True
    if isinstance(T, Union) and any(isinstance(d, Union) and inside(T, Class) for d in T.deps):
        return True
    if any(isinstance(d, Union) and (any(isinstance(x, Opt) for x in d.deps)) for d in T.deps):
        return True
    if isinstance(T, Opt) and (fam == "into" or (fam == "closure" and key in ("dump", "nested", "ret"))):
        return True
    if isinstance(T, Union) and (fam, key) == ("result", "raise"):
        return True
    if isinstance(T, Class) and fam == "param" and key.startswith("ptr."):
        return True
    if fam == "closure" and key == "arg" and T.deps:
        return True
    return False


def programs(c, only=None, noskip=False):
    n = 0
    for fam, key, T, decl, bdy, tr in main_families(c.thorough):
        if only and not any(("%s:%s" % (fam, key)).startswith(f) for f in only.split(",")):
            continue
        if not noskip and skip(fam, key, T):
            continue
        run = tr if callable(tr) else (lambda bits, tr=tr: list(tr))
        done = {}
        T.alldecl(done)
        yield fam, dict(id=n, tdecl=done, decl=nm(decl, n) + "func c%d() { %s }\n" % (n, nm(bdy, n)), call="c%d()" % n, run=run,
                        sig=signature(run), key="%s:%s" % (fam, key))
        n += 1
    for fam, key, decl, bdy, tr, tdecl in dispatch.families(sys.modules[__name__], c.thorough):
        if only and not any(("%s:%s" % (fam, key)).startswith(f) for f in only.split(",")):
            continue
        if not noskip and skip2(fam, key):
            continue
        yield fam, dict(id=n, tdecl=dict(tdecl), decl=nm(decl, n) + "func c%d() { %s }\n" % (n, nm(bdy, n)), call="c%d()" % n, run=lambda bits, tr=tr: list(tr),
                        sig=signature(lambda bits, tr=tr: list(tr)), key="%s:%s" % (fam, key))
        n += 1


def skip2(fam, key):
    return False


def body():
    c = Check("C08")
    cxy = build_compiler()
    ps, nfam = [], {}
    for fam, p in programs(c, os.environ.get("FAM"), os.environ.get("NOSKIP")):
        ps.append(p)
        nfam[fam] = nfam.get(fam, 0) + 1
    c.cov["programs"] = len(ps)
    c.cov["families"] = nfam
    b = Batch(c, cxy, head=THEAD, natives={"ty.c": NAT}, flags=["-O0"])
    b.run_all(ps, size=int(os.environ.get("BS", "150")))
    for p in ps[:: max(1, len(ps) // 6)]:
        c.sample(p["key"])
    c.finish()


if __name__ == "__main__":
    main(body)
