"""C19: what a C header declares means in cxy what it means in C."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from prog import *
from modules import P, Files

# C type -> (cxy type, values)
I = lambda bits: [0, 1, -1, 2 ** (bits - 1) - 1, -(2 ** (bits - 1)) + 1, 85 << (bits - 8)]
U = lambda bits: [0, 1, 2 ** bits - 1, 2 ** (bits - 1), 170 << (bits - 8)]
T = {"signed char": ("i8", I(8)), "unsigned char": ("u8", U(8)), "short": ("i16", I(16)), "unsigned short": ("u16", U(16)), "int": ("i32", I(32)), "unsigned": ("u32", U(32)),
     "long": ("i64", I(64)), "unsigned long": ("u64", U(64)), "long long": ("i64", I(64)), "unsigned long long": ("u64", U(64)), "float": ("f32", [0.0, 1.5, -2.25, 1048576.5]), "double": ("f64", [0.0, 1.5, -2.25, 1e15]),
     "_Bool": ("bool", [0, 1]), "int8_t": ("i8", I(8)), "uint8_t": ("u8", U(8)), "int16_t": ("i16", I(16)), "uint16_t": ("u16", U(16)), "int32_t": ("i32", I(32)), "uint32_t": ("u32", U(32)), "int64_t": ("i64", I(64)), "uint64_t": ("u64", U(64)), "size_t": ("u64", U(64))}
NAMES = list(T)


def cv(t, v):
    k = T[t][0]
    return repr(float(v)) if k[0] == "f" else "((%s)%s%s)" % (t, v, "ull" if k == "u64" else "ll" if v > 2 ** 31 or v < -2 ** 31 else "")


def xv(t, v):
    k = T[t][0]
    if k == "bool":
        return "true" if v else "false"
    return "((%r) as f32)" % float(v) if k == "f32" else repr(float(v)) if k == "f64" else "(%d`%s)" % (v, k)


def table(t):
    return "static const %s tab[] = { %s };" % (t, ", ".join(cv(t, v) for v in T[t][1]))


G = "#pragma once\n#include <stdint.h>\n#include <stddef.h>\n"
CC = ""
H = 'import "./h_$.h" as c$\n'


def scalars(thorough):
    """every scalar type in every position, at the ends of its range"""
    for t, (x, vals) in T.items():
        h = G + "typedef T my$;\ntypedef my$ my2$;\nstruct S$ { char pad; T v; short tail; };\ntypedef struct { T a[3]; T b; } Q$;\n".replace("T ", t + " ", 3).replace("{ T a", "{ %s a" % t).replace("; T b", "; %s b" % t)
        h = h.replace("typedef T ", "typedef %s " % t).replace("pad; T v", "pad; %s v" % t)
        h += ("int is$(T v, int k);\nT get$(int k);\nvoid set$(T *p, int k);\nint peek$(const T *p, int k);\nint all$(const T a[], int k);\nextern T gl$;\nint isgl$(int k);\nmy2$ same$(my$ v);\nint isc$(const T v, int k);\n"
              "struct S$ mk$(int k);\nint st$(struct S$ s, int k);\nint sp$(const struct S$ *s, int k);\nQ$ mq$(int k);\nint sq$(Q$ q, int k);\nT *ref$(void);\nint mid$(int a, T v, long b, int k);\nvoid nop$(T v);\n").replace("T ", t + " ").replace("(T)", "(%s)" % t)
        # declarations of structures were written with T replaced above
        c = '#include "h_$.h"\n' + table(t) + "\n" + ("T gl$;\nint is$(T v, int k) { return v == tab[k]; }\nT get$(int k) { return tab[k]; }\nvoid set$(T *p, int k) { *p = tab[k]; }\nint peek$(const T *p, int k) { return *p == tab[k]; }\n"
             "int all$(const T a[], int k) { return a[0] == tab[0] && a[1] == tab[k] && a[2] == tab[1]; }\nint isgl$(int k) { return gl$ == tab[k]; }\nmy2$ same$(my$ v) { return v; }\nint isc$(const T v, int k) { return v == tab[k]; }\n"
             "struct S$ mk$(int k) { struct S$ s = { 'p', tab[k], 77 }; return s; }\nint st$(struct S$ s, int k) { return s.pad == 'q' && s.v == tab[k] && s.tail == 78; }\nint sp$(const struct S$ *s, int k) { return st$(*s, k); }\n"
             "Q$ mq$(int k) { Q$ q = { { tab[0], tab[k], tab[1] }, tab[k] }; return q; }\nint sq$(Q$ q, int k) { return q.a[0] == tab[k] && q.a[1] == tab[1] && q.a[2] == tab[0] && q.b == tab[k]; }\nT *ref$(void) { return &gl$; }\nint mid$(int a, T v, long b, int k) { return a == 5 && v == tab[k] && b == 6; }\nvoid nop$(T v) { gl$ = v; }\n").replace("T ", t + " ")
        mods = {"h_$.h": h, "h_$.c": c}
        B = lambda s: "ev((%s) ? 1`i32 : 0`i32)\n" % s
        for k, v in enumerate(vals):
            e, n = xv(t, v), "%d`i32" % k
            z0, z1 = xv(t, vals[0]), xv(t, vals[1])
            for name, body, tr in (("param", "ev(c$.is$(%s, %s))\n" % (e, n), [1]), ("const", "ev(c$.isc$(%s, %s))\n" % (e, n), [1]), ("result", "{ var r: %s = c$.get$(%s); %s }\n" % (x, n, B("r == " + e)), [1]), ("direct", B("c$.get$(%s) == %s" % (n, e)), [1]),
                                   ("out", "{ var r: %s = %s; c$.set$(ptrof r, %s); %s }\n" % (x, z0, n, B("r == " + e)), [1]), ("in", "{ var r: %s = %s; ev(c$.peek$(ptrof r, %s)) }\n" % (x, e, n), [1]),
                                   ("global", "c$.gl$ = %s\nev(c$.isgl$(%s))\n%s" % (e, n, B("c$.gl$ == " + e)), [1, 1]), ("ref", "c$.nop$(%s)\n{ var p = c$.ref$(); %s; *p = %s; %s }\n" % (e, B("*p == " + e).strip(), z1, B("c$.gl$ == " + z1)), [1, 1]),
                                   ("alias", "{ var a: c$.my$ = %s; var b: c$.my2$ = c$.same$(a); %s ev(c$.is$(b, %s)) }\n" % (e, B("b == " + e), n), [1, 1]),
                                   ("middle", "ev(c$.mid$(5`i32, %s, 6`i64, %s))\n" % (e, n), [1]),
                                   ("struct", "{ var s = c$.mk$(%s); %s%s }\n" % (n, B("s.v == " + e), B("s.tail == 77`i16")), [1, 1]),
                                   ("structarg", "{ var s = c$.mk$(0`i32); s.pad = 'q'; s.v = %s; s.tail = 78`i16; ev(c$.st$(s, %s)); ev(c$.sp$(ptrof s, %s)) }\n" % (e, n, n), [1, 1]),
                                   ("structlit", "{ var s = c$.S${pad: 'q', v: %s, tail: 78`i16}; ev(c$.st$(s, %s)); var u: c$.S$ = s; ev(c$.sp$(ptrof u, %s)) }\n" % (e, n, n), [1, 1]),
                                   ("array", "{ var q = c$.mq$(%s); %s%s%s }\n" % (n, B("q.a.[1] == " + e), B("q.a.[2] == " + z1), B("q.b == " + e)), [1, 1, 1]),
                                   ("arrayarg", "{ var q = c$.mq$(0`i32); q.a.[0] = %s; q.a.[1] = %s; q.a.[2] = %s; q.b = %s; ev(c$.sq$(q, %s)) }\n" % (e, z1, z0, e, n), [1])):
                yield P("%s:%s:%s" % (t, name, v), H, CC, body, mods, tr)


def pairs(thorough):
    """two parameters, and structures of two and three members, of every pair of types"""
    ts = NAMES if thorough else NAMES[:13]
    for t in ts:
        h, c, bodies = G, '#include "h_$.h"\n', []
        for i, u in enumerate(ts):
            a, b = T[t][1][-1], T[u][1][-1]
            ca, cb, xa, xb = cv(t, a), cv(u, b), xv(t, a), xv(u, b)
            s = "struct P%d_$" % i
            h += "%s { %s a; %s b; %s c; };\nint f%d_$(%s a, %s b);\n%s m%d_$(void);\nint g%d_$(%s p);\nint h%d_$(%s *p, %s b);\n" % (s, t, u, t, i, t, u, s, i, i, s, i, s, u)
            c += "int f%d_$(%s a, %s b) { return a == %s && b == %s; }\n%s m%d_$(void) { %s p = { %s, %s, %s }; return p; }\nint g%d_$(%s p) { return p.a == %s && p.b == %s && p.c == %s; }\nint h%d_$(%s *p, %s b) { int r = p->b == b && p->a == %s; p->b = 0; p->c = 0; return r; }\n" % (
                i, t, u, ca, cb, s, i, s, ca, cb, ca, i, s, ca, cb, ca, i, s, u, ca)
            z, w = ("false" if T[x][0] == "bool" else xv(x, 0) for x in (u, t))
            bodies.append((u, ("ev(c$.f%d_$(%s, %s))\n{ var p = c$.m%d_$(); ev((p.a == %s && p.b == %s && p.c == %s) ? 1`i32 : 0`i32); ev(c$.g%d_$(p)); ev(c$.h%d_$(ptrof p, %s)); ev((p.a == %s && p.b == %s && p.c == %s) ? 1`i32 : 0`i32) }\n"
                               "{ var p = c$.P%d_${a: %s, b: %s, c: %s}; ev(c$.g%d_$(p)) }\n") % (i, xa, xb, i, xa, xb, xa, i, i, xb, xa, z, w, i, xa, xb, xa, i)))
        for u, b in bodies:
            yield P("%s:%s" % (t, u), H, CC, b, {"h_$.h": h, "h_$.c": c}, [1] * 6)


def enums(thorough):
    """enumerations and macros have C's values"""
    for form in ("tag", "typedef", "both"):
        for vs in itertools.product((None, 0, -1, 5, 1000), repeat=3):
            vals, n = [], 0
            for v in vs:
                n = n if v is None else v
                vals.append(n)
                n += 1
            if len(set(vals)) < 3:
                continue
            lst = ", ".join("%s_$%s" % ("ABC"[k], "" if v is None else " = %d" % v) for k, v in enumerate(vs))
            h = G + {"tag": "enum E$ { %s };\n", "typedef": "typedef enum { %s } E$;\n", "both": "typedef enum E$ { %s } E$;\n"}[form] % lst
            t = "enum E$" if form == "tag" else "E$"
            h += "int val$(%s e);\n%s nth$(int k);\n" % (t, t)
            c = '#include "h_$.h"\nint val$(%s e) { return e; }\n%s nth$(int k) { return k == 0 ? A_$ : k == 1 ? B_$ : C_$; }\n' % (t, t)
            body, tr = "", []
            for k, n in enumerate("ABC"):
                body += "ev(c$.E$.%s_$ as i32)\nev(c$.val$(c$.E$.%s_$))\nev(c$.nth$(%d`i32) as i32)\nev((c$.nth$(%d`i32) == c$.E$.%s_$) ? 1`i32 : 0`i32)\nswitch (c$.nth$(%d`i32)) { case .A_$ => ev(100`i32); case .B_$ => ev(101`i32); default => ev(102`i32); }\n" % (n, n, k, k, n, k)
                tr += [vals[k]] * 3 + [1, 100 + k]
            yield P("%s:%s" % (form, ",".join(map(str, vs))), H, CC, body, {"h_$.h": h, "h_$.c": c}, tr)
            ha = G + "enum { %s };\n" % lst
            if form == "tag":
                yield P("anon:%s" % ",".join(map(str, vs)), H, "", "".join("ev((%s_$!) as i32)\n" % n for n in "ABC"), {"h_$.h": ha}, list(vals))
    for v in (0, 1, 7, 8, 42, 127, 255, 256, 65535, 65536, 2 ** 31 - 1):
        for text in ("%d" % v, "0x%x" % v, "0X%X" % v, "0%o" % v):
            for suf in ("", "u", "U", "l", "L", "ul", "UL", "ll", "ULL"):
                yield P("macro:%s%s" % (text, suf), H, "", "ev((M$!) as i32)\nev((M$! %s) as i32)\nev((N$!) as i32)\n" % ("== M$! ? 3 : 4" if "u" in suf.lower() else "- M$!"), {"h_$.h": G + "#define M$ %s%s\n#define N$ M$\n" % (text, suf)}, [v, 3 if "u" in suf.lower() else 0, v])
    for v in (2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1):
        for text in ("%d" % v, "0x%x" % v, "0%o" % v):
            for suf in ("", "u", "l", "ul", "ll", "ull"):
                if v >= 2 ** 63 and "u" not in suf and not text.startswith("0"):
                    continue
                yield P("wide:%s%s" % (text, suf), H, "", "ev((((M$!) as u64) / 1000000000`u64) as i32)\nev((((M$!) as u64) %% 1000000000`u64) as i32)\n".replace("%%", "%"), {"h_$.h": G + "#define M$ %s%s\n" % (text, suf)}, [(v // 10 ** 9 + 2 ** 31) % 2 ** 32 - 2 ** 31, v % 10 ** 9])
    for s in ("", "a", "two words", "tab\\t", "quote\\\"", "new\\n", "pc%d"):
        n = len(s.encode().decode("unicode_escape"))
        yield P("string:%s" % s, H, "", "{ var s: string = M$!; ev(len!(s) as i32)%s }\n" % "".join("; ev((s.[%d] as i32))" % k for k in range(n)), {"h_$.h": G + '#define M$ "%s"\n' % s}, [n] + list(s.encode().decode("unicode_escape").encode()))
    for f in ("1.5", "0.25", "2e3", "3.5f", "100.", ".5"):
        yield P("float:%s" % f, H, "", "ev((M$! * 4.0) as i32)\n", {"h_$.h": G + "#define M$ %s\n" % f}, [int(float(f.rstrip("f")) * 4)])


def nested(thorough):
    """structures within structures, lists, headers that include one another"""
    leafs = [("int", "i32", 11), ("unsigned char", "u8", 200), ("double", "f64", 2.5), ("long", "i64", -9)]
    for (t, x, v), (u, y, w) in itertools.product(leafs, repeat=2):
        h = G + "struct L$ { %s v; struct L$ *next; };\nstruct In$ { %s a; %s b[2]; };\nstruct Out$ { struct In$ one; struct In$ many[2]; struct In$ *p; struct { %s deep; } inner; };\nstruct Out$ mk$(void);\nint eq$(struct Out$ o);\nstruct L$ *push$(struct L$ *l, struct L$ *n);\nint sum$(const struct L$ *l);\nvoid swap$(struct In$ *a, struct In$ *b);\n" % (t, t, u, u)
        c = '#include "h_$.h"\nstatic struct In$ in = { %s, { %s, 4 } };\nstruct Out$ mk$(void) { struct Out$ o = { in, { in, { 1, { 2, %s } } }, &in, { %s } }; return o; }\nint eq$(struct Out$ o) { return o.one.a == 3 && o.many[0].b[1] == 5 && o.many[1].a == %s && o.p->a == %s && o.inner.deep == 6; }\nstruct L$ *push$(struct L$ *l, struct L$ *n) { n->next = l; return n; }\nint sum$(const struct L$ *l) { int s = 0; while (l) { s = s * 2 + (int)l->v; l = l->next; } return s; }\nvoid swap$(struct In$ *a, struct In$ *b) { struct In$ t = *a; *a = *b; *b = t; }\n' % (v, w, w, w, v, v)
        lit = lambda z, k: {"f64": "%s.0" % k if float(k) == int(k) else "%s" % k}.get(z, "(%s`%s)" % (k, z))
        B = lambda s: "ev((%s) ? 1`i32 : 0`i32)\n" % s
        mods = {"h_$.h": h, "h_$.c": c}
        yield P("read:%s:%s" % (t, u), H, CC, "{ var o = c$.mk$(); " + B("o.one.a == " + lit(x, v)) + B("o.one.b.[0] == " + lit(y, w)) + B("o.many.[0].b.[1] == " + lit(y, 4)) + B("o.many.[1].a == " + lit(x, 1)) + B("o.many.[1].b.[1] == " + lit(y, w)) + B("o.inner.deep == " + lit(y, w)) + B("o.p.a == " + lit(x, v)) + "}\n", mods, [1] * 7)
        yield P("write:%s:%s" % (t, u), H, CC, "{ var o = c$.mk$(); o.one.a = %s; o.many.[0].b.[1] = %s; o.many.[1].a = %s; o.inner.deep = %s; ev(c$.eq$(o)); var p = o; p.one.a = %s; ev(c$.eq$(o)); ev(c$.eq$(p)) }\n" % (lit(x, 3), lit(y, 5), lit(x, v), lit(y, 6), lit(x, 4)), mods, [1, 1, 0])
        yield P("swap:%s:%s" % (t, u), H, CC, "{ var a = c$.mk$().one; var b = a; b.a = %s; b.b.[1] = %s; c$.swap$(ptrof a, ptrof b); %s%s%s%s }\n" % (lit(x, 7), lit(y, 8), B("a.a == " + lit(x, 7)), B("b.a == " + lit(x, v)), B("a.b.[1] == " + lit(y, 8)), B("b.b.[1] == " + lit(y, 4))), mods, [1] * 4)
        yield P("list:%s:%s" % (t, u), H, CC, "{ var n = null as ^c$.L$; var a = c$.L${v: %s, next: null}; var b = c$.L${v: %s, next: null}; var l = c$.push$(ptrof a, ptrof b); ev(c$.sum$(l)); %s%s }\n".replace("var n = null as ^c$.L$; ", "") % (lit(x, 3), lit(x, 5), B("l.v == " + lit(x, 5)), B("l.next.v == " + lit(x, 3))), mods, [13, 1, 1])
    # headers among themselves: which of them includes which, and in which order they are imported
    for inc, order in itertools.product(range(4), itertools.permutations(range(3), 3)):
        pre = ["", "", ""]
        pre[1] = '#include "h_$.h"\n'
        pre[2] = '#include "h_$.h"\n' if inc & 1 else '#include "i_$.h"\n'
        if inc & 2:
            pre[2] += '#include "i_$.h"\n'
        h = G + "struct S$ { int v; };\nenum K$ { K0_$, K1_$ = 6 };\ntypedef struct S$ A$;\nint fs$(struct S$ s);\n"
        i = "#pragma once\n" + pre[1] + "typedef struct S$ B$;\nstruct S$ mk$(int v);\nstruct X$ { struct S$ s; enum K$ k; A$ a; };\n"
        j = "#pragma once\n" + pre[2] + "int fx$(struct X$ x);\nint fj$(B$ b, enum K$ k);\n" if inc != 1 else "#pragma once\n" + pre[2] + "int fj$(A$ b, enum K$ k);\n"
        c = '#include "i_$.h"\n#include "j_$.h"\nint fs$(struct S$ s) { return s.v + 1; }\nstruct S$ mk$(int v) { struct S$ s = { v }; return s; }\nint fj$(A$ b, enum K$ k) { return b.v * 10 + k; }\n' + ("int fx$(struct X$ x) { return x.s.v * 100 + x.k * 10 + x.a.v; }\n" if inc != 1 else "")
        imps = ['import "./h_$.h" as hh_$\n', 'import "./i_$.h" as ii_$\n', 'import "./j_$.h" as jj_$\n']
        body = "{ var s = ii_$.mk$(4`i32); ev(hh_$.fs$(s)); ev(jj_$.fj$(s, hh_$.K$.K1_$)); var t: hh_$.S$ = s; ev(t.v); var u = hh_$.S${v: 7`i32}; u = ii_$.mk$(9`i32); ev(hh_$.fs$(u)); var a: hh_$.A$ = s; ev(hh_$.fs$(a)); var b: ii_$.B$ = a; ev(b.v) }\n"
        tr = [5, 46, 4, 10, 5, 4]
        if inc != 1:
            body += "{ var x = ii_$.X${s: ii_$.mk$(2`i32), k: hh_$.K$.K1_$, a: ii_$.mk$(3`i32)}; ev(jj_$.fx$(x)) }\n"
            tr.append(263)
        yield P("include:%d:%s" % (inc, "".join(map(str, order))), "".join(imps[o] for o in order), CC, body, {"h_$.h": h, "i_$.h": i, "j_$.h": j, "h_$.c": c}, tr)


def layout(thorough):
    """bit-fields and packed structures lie where C puts them"""
    ws = [(1, 0), (3, 1), (8, 0), (13, 1), (31, 0)] + ([(2, 1), (7, 0), (16, 1), (32, 0), (32, 1)] if thorough else [])
    B = lambda s: "ev((%s) ? 1`i32 : 0`i32)\n" % s
    for f in itertools.product(ws, repeat=3):
        vals = [(2 ** (w - 1) - 1 if sg else 2 ** w - 1) if k != 1 else (-(2 ** (w - 1)) if sg and w < 32 else 1) for k, (w, sg) in enumerate(f)]
        t = ["int" if sg else "unsigned" for w, sg in f]
        ty = ["i32" if sg else "u32" for w, sg in f]
        h = G + "struct B$ { char head; %s char tail; };\nstruct B$ mk$(void);\nint eq$(struct B$ b);\nint peq$(const struct B$ *b);\nvoid clr$(struct B$ *b);\n" % "".join("%s %s : %d; " % (t[k], "abc"[k], f[k][0]) for k in range(3))
        c = '#include "h_$.h"\nstruct B$ mk$(void) { struct B$ b = { 1, %s, 2 }; return b; }\nint eq$(struct B$ b) { return b.head == 3 && b.a == %s && b.b == %s && b.c == %s && b.tail == 4; }\nint peq$(const struct B$ *b) { return eq$(*b); }\nvoid clr$(struct B$ *b) { b->b = 0; }\n' % (
            ", ".join(map(str, vals)), vals[2] if False else vals[0], vals[1], vals[2])
        x = ["(%d`%s)" % (v, y) for v, y in zip(vals, ty)]
        body = "{ var b = c$.mk$(); " + "".join(B("b.%s == %s" % ("abc"[k], x[k])) for k in range(3)) + B("b.head == '\\u0001' && b.tail == '\\u0002'").replace("b.head == '\\u0001' && b.tail == '\\u0002'", "(b.head as i32) == 1 && (b.tail as i32) == 2")
        body += "c$.clr$(ptrof b); " + B("b.a == %s && b.b == (0`%s) && b.c == %s" % (x[0], ty[1], x[2])) + "b.b = %s; " % x[1] + B("b.a == %s && b.b == %s && b.c == %s" % tuple(x)) + "b.head = '\\x03'; b.tail = '\\x04'; ev(c$.eq$(b)); ev(c$.peq$(ptrof b)) }\n".replace("'\\x03'", "(3`u8) as char").replace("'\\x04'", "(4`u8) as char")
        yield P("bits:%s" % ",".join("%s%d" % ("us"[sg], w) for w, sg in f), H, CC, body, {"h_$.h": h, "h_$.c": c}, [1] * 8)
    ts = ["signed char", "unsigned short", "int", "long", "float", "double", "_Bool"] + (["short", "unsigned", "uint64_t"] if thorough else [])
    for t, u, w in itertools.product(ts, repeat=3):
        a, b, d = T[t][1][-1], T[u][1][-1], T[w][1][-1]
        s = "struct K$"
        h = G + "%s { %s a; %s b; %s c; } __attribute__((packed));\nstruct W$ { char one; %s k[2]; char two; };\n%s mk$(void);\nint eq$(%s k);\nstruct W$ mw$(void);\nint ew$(const struct W$ *w);\nint size$(void);\n" % (s, t, u, w, s, s, s)
        c = '#include "h_$.h"\n#define V { %s, %s, %s }\n%s mk$(void) { %s k = V; return k; }\nint eq$(%s k) { return k.a == %s && k.b == %s && k.c == %s; }\nstruct W$ mw$(void) { struct W$ w = { 1, { { 0 }, V }, 2 }; return w; }\nint ew$(const struct W$ *w) { return eq$(w->k[0]) && eq$(w->k[1]) && w->two == 2; }\nint size$(void) { return (int)sizeof(%s); }\n' % (
            cv(t, a), cv(u, b), cv(w, d), s, s, s, cv(t, a), cv(u, b), cv(w, d), s)
        xa, xb, xd = xv(t, a), xv(u, b), xv(w, d)
        yield P("packed:%s:%s:%s" % (t, u, w), H, CC, "{ var k = c$.mk$(); " + B("k.a == %s && k.b == %s && k.c == %s" % (xa, xb, xd)) + "ev(c$.eq$(k)); var w = c$.mw$(); " + B("w.k.[1].b == " + xb) + B("w.k.[1].c == " + xd) + B("(w.two as i32) == 2") + "w.k.[0] = k; ev(c$.ew$(ptrof w)); var l = c$.K${a: %s, b: %s, c: %s}; ev(c$.eq$(l)) }\n" % (xa, xb, xd), {"h_$.h": h, "h_$.c": c}, [1] * 7)


def calls(thorough):
    """strings, opaque pointers and variable arguments go through calls"""
    h = G + ("int len$(const char *s);\nint at$(const char *s, int k);\nint cmp$(const char *a, const char *b);\nstruct O$;\ntypedef struct O$ O$;\nO$ *new$(int v);\nint get$(const O$ *o);\nvoid put$(O$ *o, int v);\nO$ *next$(O$ *o);\nvoid del$(O$ *o);\n"
             "int isnull$(const void *p);\nvoid *id$(void *p);\nint vsum$(int n, ...);\nint vfmt$(char *out, int n, const char *f, ...);\n")
    c = ('#include "h_$.h"\n#include <string.h>\n#include <stdlib.h>\n#include <stdarg.h>\n#include <stdio.h>\nint len$(const char *s) { return strlen(s); }\nint at$(const char *s, int k) { return (unsigned char)s[k]; }\nint cmp$(const char *a, const char *b) { int r = strcmp(a, b); return r < 0 ? -1 : r > 0; }\n'
         "struct O$ { int v; struct O$ *n; };\nO$ *new$(int v) { O$ *o = calloc(1, sizeof *o); o->v = v; return o; }\nint get$(const O$ *o) { return o->v; }\nvoid put$(O$ *o, int v) { o->v = v; }\nO$ *next$(O$ *o) { if (!o->n) o->n = new$(o->v + 1); return o->n; }\nvoid del$(O$ *o) { if (o->n) free(o->n); free(o); }\n"
         "int isnull$(const void *p) { return p == 0; }\nvoid *id$(void *p) { return p; }\nint vsum$(int n, ...) { va_list l; va_start(l, n); int s = 0; for (int i = 0; i < n; i++) s = s * 10 + va_arg(l, int); va_end(l); return s; }\n"
         "int vfmt$(char *out, int n, const char *f, ...) { va_list l; va_start(l, f); int r = vsnprintf(out, n, f, l); va_end(l); return r; }\n")
    mods = {"h_$.h": h, "h_$.c": c}
    texts = ["", "a", "ab", "two words", "\\n\\t", "\\\"", "%d%s", "\u00e9\u4e2d"]
    dec = lambda t: t.replace("\\n", "\n").replace("\\t", "\t").replace('\\"', '"').encode()
    for a in texts:
        n = len(dec(a))
        yield P("len:%s" % texts.index(a), H, CC, 'ev(c$.len$("%s" !: ^const char))\n{ var s = "%s"; ev(c$.len$(s !: ^const char)) }\n%s' % (a, a, "".join('ev(c$.at$("%s" !: ^const char, %d`i32))\n' % (a, k) for k in range(n))), mods, [n, n] + list(dec(a)))
        for b in texts:
            yield P("cmp:%d:%d" % (texts.index(a), texts.index(b)), H, CC, '{ var s: string = "%s"; ev(c$.cmp$(s !: ^const char, "%s" !: ^const char)) }\n' % (a, b), mods, [(dec(a) > dec(b)) - (dec(a) < dec(b))])
    # an opaque object: all sequences of operations on it
    ops = {"get": "ev(c$.get$(o))", "put": "c$.put$(o, %d`i32)", "next": "ev(c$.get$(c$.next$(o)))", "same": "ev((c$.next$(o) == c$.next$(o)) ? 1`i32 : 0`i32)", "alias": "{ var q = o; c$.put$(q, %d`i32) }", "void": "ev((c$.id$(o as ^void) == (o as ^void)) ? 1`i32 : 0`i32); ev(c$.isnull$(o as ^void))"}
    for d in range(1, 5 if thorough else 4):
        for seq in itertools.product(ops, repeat=d):
            body, tr, v, nx = "{ var o = c$.new$(7`i32); ", [], 7, None
            for k, op in enumerate(seq):
                t = ops[op]
                if "%d" in t:
                    v = 20 + k
                    t = t % v
                if op in ("next", "same"):
                    nx = v + 1 if nx is None else nx
                tr += {"get": [v], "next": [nx], "same": [1], "void": [1, 0]}.get(op, [])
                body += t + "; "
            yield P("opaque:%s" % ".".join(seq), H, CC, body + "c$.del$(o) }\n", mods, tr)
    args = {"lit": ("%d`i32", None), "var": ("a", 4), "call": ("c$.get$(o)", 7), "expr": ("(a + 1`i32)", 5), "i16": ("(6`i16)", 6), "u8": ("(9`u8)", 9)}
    for d in range(0, 4):
        for seq in itertools.product(args, repeat=d):
            xs, tr = [], 0
            for k, n in enumerate(seq):
                t, v = args[n]
                v = k + 1 if v is None else v
                xs.append(t % v if "%d" in t else t)
                tr = tr * 10 + v
            yield P("variadic:%s" % ".".join(seq), H, CC, "{ var o = c$.new$(7`i32); var a: i32 = 4; ev(c$.vsum$(%s)); c$.del$(o) }\n" % ", ".join(["%d`i32" % d] + xs), mods, [tr])


FAMS = dict(scalars=scalars, pairs=pairs, enums=enums, nested=nested, layout=layout, calls=calls)


def body():
    c = Check("C19")
    cxy = build_compiler()
    only = os.environ.get("FAM")
    ps, nfam, shared = [], {}, {}
    for name, f in FAMS.items():
        if only and name not in only.split(","):
            continue
        for it in f(c.thorough):
            i = shared.setdefault((it.imports, it.decl, tuple(sorted(it.mods.items()))), len(shared))
            s = lambda t: t.replace("$", str(i))
            g = lambda bits, tr=it.trace: list(tr)
            j = len(ps)
            ps.append(dict(id=j, tdecl={"D%d" % i: s(it.decl)}, decl="func case%d() { %s }\n" % (j, s(it.body)), call="case%d()" % j, imports=s(it.imports), mods={s(n): s(t) for n, t in it.mods.items()}, run=g, sig=signature(g), key="%s:%s" % (name, it.key)))
            nfam[name] = nfam.get(name, 0) + 1
    c.cov["programs"] = len(ps)
    c.cov["families"] = nfam
    b = Files(c, cxy)
    b.run_all(ps, size=int(os.environ.get("BS", "90")))
    for p in ps[:: max(1, len(ps) // 6)]:
        c.sample(p["key"])
    c.finish()


if __name__ == "__main__":
    main(body)
