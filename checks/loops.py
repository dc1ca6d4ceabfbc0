"""Families of C06 about loops over ranges, arrays, strings and iterators: how often the body runs, with which values,
and how often each part of the loop header is evaluated."""
import itertools

TYPES = ["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"]


def rng(a, b, s):
    out = []
    while (a < b if s > 0 else a > b) and len(out) < 64:
        out.append(a)
        a += s
    return out


def jumped(seq, jump, k):
    """what the body `if (x == seq[k]) jump; ev(x)` reports"""
    if jump is None:
        return seq
    if k < len(seq):
        return seq[:k] if jump != "continue" else seq[:k] + seq[k + 1:]
    return seq


JUMPS = [(None, 0)] + [(j, k) for j in ("break", "continue", "return") for k in (0, 1, 2)]


def span(a, b, s):
    return "%s..%s" % (a, b) if s is None else "range(%s, %s, %s)" % (a, b, s)


def ranges(thorough):
    N = 4 if thorough else 3
    # literals: every start, end and step
    for a, b in itertools.product(range(-N, N + 1), repeat=2):
        for s in (None, 1, 2, 3, -1, -2, -3):
            want = rng(a, b, s or 1)
            yield "lit:%d,%d,%s" % (a, b, s), "for (const i: %s) { ev(i as i32) }" % span(a, b, s), want
            yield "typed:%d,%d,%s" % (a, b, s), "for (const i: %s) { ev(i as i32) }" % span("%d`i32" % a, "%d`i32" % b, s and "%d`i32" % s), want
            # parts known only at run time, each evaluated once, start first
            ev = [9000 + a, 9000 + b] + ([9000 + s] if s is not None else [])
            yield "calls:%d,%d,%s" % (a, b, s), "for (const i: %s) { ev(i as i32) }" % span("val(%d)" % a, "val(%d)" % b, s and "val(%d)" % s), ev + want
            yield "vars:%d,%d,%s" % (a, b, s), "var a = %d`i32; var b = %d`i32; var s = %d`i32; for (const i: %s) { ev(i as i32); a = 50`i32; b = -b; s = 1`i32 - s }\nev(a)" % (a, b, s or 0, span("a", "b", s and "s")), \
                want + [50 if want else a]
            yield "expr:%d,%d,%s" % (a, b, s), "var a = %d`i32; var b = %d`i32; for (const i: %s) { ev(i as i32) }" % (a, b, span("a + 1`i32", "b * 2`i32", s)), rng(a + 1, b * 2, s or 1)
    # every integer type
    for t in TYPES:
        for a, b in itertools.product((0, 1, 2, 5, 100), repeat=2):
            for s in (None, 1, 2, 7):
                if s in (None, 1) and b - a > 10:
                    continue
                yield "type:%s:%d,%d,%s" % (t, a, b, s), "var a = %d`%s; var b = %d`%s; for (const i: %s) { ev(i as i32) }" % (a, t, b, t, span("a", "b", s and "%d`%s" % (s, t))), rng(a, b, s or 1)
    for t, top in (("u8", 255), ("i8", 127), ("i16", 32767), ("u16", 65535), ("i32", 2147483647), ("u32", 4294967295), ("i64", 2**63 - 1)):
        for d in (0, 1, 3):
            # the last value of the type is an end like any other
            for form in (None, 1):
                yield "top:%s:%d:%s" % (t, d, form), "var b = %d`%s; var a = (b - %d`%s) as %s; var n = 0`i32; for (const i: %s) { n++ }\nev(n)" % (top, t, d, t, t, span("a", "b", form)), [d]
    for t, low in (("i8", -127), ("i16", -32767), ("i32", -2147483647), ("i64", -2**62)):
        for d in (0, 1, 3):
            for s in (None, -1):
                yield "low:%s:%d:%s" % (t, d, s), "var a = %d`%s; var b = (a + %d`%s) as %s; var n = 0`i32; for (const i: %s) { n++ }\nev(n)" % (low, t, d, t, t, span("b" if s else "a", "a" if s else "b", s)), [d]
    # jumps, and the variable is a fresh copy each time round
    for jump, k in JUMPS:
        for a, b, s in ((0, 3, None), (0, 4, 2), (3, 0, -1), (1, 1, None), (2, 9, 3)):
            seq = rng(a, b, s or 1)
            at = seq[k] if k < len(seq) else 77
            sp = span(a, b, s)
            jt = "if (i == %d) { %s } " % (at, jump) if jump else ""
            yield "jump:%d,%d,%s:%s%d" % (a, b, s, jump, k), "for (const i: %s) { %sev(i as i32) }\nev(99)" % (sp, jt), jumped(seq, jump, k) + ([99] if not (jump == "return" and k < len(seq)) else [])
            for jump2, k2 in JUMPS:
                inner = [10, 11, 12]
                got = jumped(inner, jump2, k2)
                exp, stop = [], False
                for n, x in enumerate(seq):
                    if jump and n == k:
                        if jump == "continue":
                            continue
                        stop = jump == "return"
                        break
                    exp.append(x)
                    exp += got
                    if jump2 == "return" and k2 < 3:
                        stop = True
                        break
                exp += [] if stop else [99]
                body = "for (const i: %s) { %sev(i as i32); for (const j: 10..13) { %sev(j as i32) } }\nev(99)" % (sp, jt, "if (j == %d) { %s } " % (10 + k2, jump2) if jump2 else "")
                yield "nest:%d,%d,%s:%s%d:%s%d" % (a, b, s, jump, k, jump2, k2), body, exp
    # dependent nested ranges
    for n in range(5):
        yield "tri:%d" % n, "for (const i: 0..%d) { for (const j: i..%d) { ev((i * 10 + j) as i32) } }" % (n, n), [i * 10 + j for i in range(n) for j in range(i, n)]
        yield "tri2:%d" % n, "for (const i: 0..%d) { for (const j: range(i, -1, -1)) { ev((i * 10 + j) as i32) } }" % n, [i * 10 + j for i in range(n) for j in range(i, -1, -1)]
    # captured and deferred
    yield "capture", "var t = 0`i64; for (const i: 0..4) { const f = () => { ev(i as i32) }; f(); t = t + i }\nev(t as i32)", [0, 1, 2, 3, 6]
    yield "defer", "for (const i: 0..3) { defer ev(100`i32 + (i as i32)); ev(i as i32) }", [0, 100, 1, 101, 2, 102]
    yield "generic", "loopto[i8](3`i8); loopto[i64](2`i64); loopto[u16](1`u16); loopto[i32](0`i32)", [0, 1, 2, 0, 1, 0]
    for ty in ("f64", "f32"):
        for a, b, s in ((0, 2, 0.5), (1, 0, -0.25), (0, 1, 0.75), (1, 1, 0.5), (0.5, 3, 1)):
            out, x = [], a
            while x < b if s > 0 else x > b:
                out.append(int(x * 16))
                x += s
            yield "float:%s:%s,%s,%s" % (ty, a, b, s), "var a = %s`%s; var b = %s`%s; for (const x: %s) { ev((x * 16.0`%s) as i32) }" % (float(a), ty, float(b), ty, span("a", "b", float(s)), ty), out


def elements(thorough):
    """arrays, strings, iterators"""
    for n in range(1, 5):
        arr = [7 + 3 * i for i in range(n)]
        lit = "[%s]" % ", ".join("%d`i32" % x for x in arr)
        for jump, k in JUMPS:
            at = arr[k] if k < n else 77
            j = "if (x == %d`i32) { %s } " % (at, jump) if jump else ""
            e = [99] if not (jump == "return" and k < n) else []
            seq = jumped(list(range(n)), jump, k)
            for form, pre, what in (("var", "var a = %s; " % lit, "a"), ("typed", "var a: [i32, %d] = %s; " % (n, lit), "a"), ("field", "var h = Arr%d{z: 1`i32, a: %s}; " % (n, lit), "h.a")):
                yield "array:%s:%d:%s%d" % (form, n, jump, k), pre + "for (const x: %s) { %sev(x) }\nev(99)" % (what, j), [arr[i] for i in seq] + e
                if jump is None:
                    yield "ignore:%s:%d:first" % (form, n), pre + "for (const _, i: %s) { ev(i as i32) }\nev(99)" % what, seq + [99]
                    yield "ignore:%s:%d:second" % (form, n), pre + "for (const x, _: %s) { ev(x) }\nev(99)" % what, arr + [99]
                    yield "ignore:%s:%d:only" % (form, n), pre + "for (const _: %s) { ev(5) }\nev(99)" % what, [5] * n + [99]
                yield "index:%s:%d:%s%d" % (form, n, jump, k), pre + "for (const x, i: %s) { %sev(x); ev(i as i32) }\nev(99)" % (what, j), [y for i in seq for y in (arr[i], i)] + e
            # the array may be written in the loop itself
            for form, el, use in (("i32", "%d`i32", "x"), ("call", "val(%d`i32)", "x"), ("struct", "El{v: %d`i32}", "x.v"), ("tuple", "(true, %d`i32)", "x.1"), ("text", '"%s"', "x.[0] as i32"), ("float", "%d.5", "x as i32"),
                                  ("class", "Ce(%d`i32)", "x.v"), ("String", 'String("%s")', "x.[0] as i32"), ("sum", "one + %d`i32", "x - 1`i32")):
                v = [65 + i for i in range(n)] if "%s" in el else arr
                lt = "[%s]" % ", ".join(el % (chr(x) if "%s" in el else x) for x in v)
                at = v[k] if k < n else 77
                b = "var q = %s; " % use + ("if (q == %d`i32) { %s } " % (at, jump) if jump else "") + "ev(q)"
                pre = [9000 + x for x in v] if form == "call" else []
                one = "var one = val(1`i32); " if form == "sum" else ""
                if one:
                    pre = [9001]
                yield "literal:%s:%d:%s%d" % (form, n, jump, k), one + "for (const x: %s) { %s }\nev(99)" % (lt, b), pre + [v[i] for i in seq] + e
                yield "literali:%s:%d:%s%d" % (form, n, jump, k), one + "for (const x, i: %s) { %s; ev(i as i32) }\nev(99)" % (lt, b), pre + [y for i in seq for y in (v[i], i)] + e
            yield "string:%d:%s%d" % (n, jump, k), "var s = \"%s\"; for (const x: s) { %sev(x as i32) }\nev(99)" % ("".join("abcd"[i] for i in range(n)), "if ((x as i32) == %d) { %s } " % (97 + k if k < n else 77, jump) if jump else ""), \
                [ord("abcd"[i]) for i in seq] + e
    texts = [""] + ["".join(p) for n in range(1, 5 if thorough else 4) for p in itertools.product("a\u00e9 ", repeat=n)]
    for k, t in enumerate(texts):
        by = t.encode()
        sb = [b - 256 if b > 127 else b for b in by]
        if all(b < 128 for b in by):
            yield "text:%d" % k, 'for (const c: "%s") { ev(c as i32) }\nev(99)' % t, sb + [99]
            yield "texti:%d" % k, 'var s = "%s"; for (const c, i: s) { ev(c as i32); ev(i as i32) }' % t, [y for i, x in enumerate(sb) for y in (x, i)]
            yield "texte:%d" % k, 'for (const c: str("%s")) { ev(c as i32) }\nev(99)' % t, [8000] + sb + [99]
        else:
            yield "textn:%d" % k, 'var n = 0`i32; for (const c: "%s") { n++ }\nev(n)' % t, [len(by)]
    # iterators: a closure that yields optionals
    for n in range(4):
        for jump, k in JUMPS:
            seq = jumped(list(range(n)), jump, k)
            e = [99] if not (jump == "return" and k < n) else []
            j = "if (x == %d`i32) { %s } " % (k, jump) if jump else ""
            # the iterator is asked once for every value it gave, and once more when it was the one to end the loop
            asked = n + 1 if jump in (None, "continue") or k >= n else k + 1
            for o in ("It", "Ci"):
                pre = "var it = It{n: %d`i32}; " % n if o == "It" else "var it = Ci(%d`i32); " % n
                tr, q = [], 0
                for i in range(asked):
                    tr.append(7000 + i)
                    if i < n and i in seq:
                        tr.append(i)
                yield "iter:%s:%d:%s%d" % (o, n, jump, k), pre + "for (const x: it) { %sev(x) }\nev(99)" % j, [6000] + tr + e
                tr = []
                for i in range(asked):
                    tr.append(7000 + i)
                    if i < n and i in seq:
                        tr += [i, 10 * i]
                if jump is None:
                    # fewer variables than members, and variables that are ignored
                    for names in [m for w in (2, 3) for m in itertools.product("v_", repeat=w)]:
                        vs = ["xyz"[i] if m == "v" else "_" for i, m in enumerate(names)]
                        tr3 = [t for i in range(asked) for t in [7000 + i] + ([v for v, m in zip((i, 10 * i, 20 * i), names) if m == "v"] if i < n else [])]
                        yield "iter3:%s:%d:%s" % (o, n, "".join(names)), pre.replace("It{", "It3{").replace("Ci(", "Ci3(") + "for (const %s: it) { %s }\nev(99)" % (", ".join(vs), "; ".join("ev(%s)" % v for v in vs if v != "_")), [6000] + tr3 + [99]
                yield "iter2:%s:%d:%s%d" % (o, n, jump, k), pre.replace("It{", "It2{").replace("Ci(", "Ci2(") + "for (const x, y: it) { %sev(x); ev(y) }\nev(99)" % j, [6000] + tr + e


DECL = """
func val(x: i32): i32 { ev(9000`i32 + x); return x }
func str(s: string): string { ev(8000); return s }
func loopto[T](n: T) { for (const i: 0..n) { ev(i as i32) } }
struct El { v: i32 }
class Ce { v: i32
 func `init`(v: i32) { this.v = v }
}
struct Arr1 { z: i32; a: [i32, 1] }
struct Arr2 { z: i32; a: [i32, 2] }
struct Arr3 { z: i32; a: [i32, 3] }
struct Arr4 { z: i32; a: [i32, 4] }
struct It { n: i32
 func `..`() { ev(6000); var i = 0`i32; return () : i32? => { ev(7000`i32 + i); if (i < n) { return i++ } else return null } }
}
class Ci { n: i32
 func `init`(n: i32) { this.n = n }
 func `..`() { ev(6000); var i = 0`i32; return () : i32? => { ev(7000`i32 + i); if (i < n) { return i++ } else return null } }
}
struct It2 { n: i32
 func `..`() { ev(6000); var i = 0`i32; return () : (i32, i32)? => { ev(7000`i32 + i); if (i < n) { var t = (i, i * 10`i32); i++; return t } else return null } }
}
class Ci2 { n: i32
 func `init`(n: i32) { this.n = n }
 func `..`() { ev(6000); var i = 0`i32; return () : (i32, i32)? => { ev(7000`i32 + i); if (i < n) { var t = (i, i * 10`i32); i++; return t } else return null } }
}
struct It3 { n: i32
 func `..`() { ev(6000); var i = 0`i32; return () : (i32, i32, i32)? => { ev(7000`i32 + i); if (i < n) { var t = (i, i * 10`i32, i * 20`i32); i++; return t } else return null } }
}
class Ci3 { n: i32
 func `init`(n: i32) { this.n = n }
 func `..`() { ev(6000); var i = 0`i32; return () : (i32, i32, i32)? => { ev(7000`i32 + i); if (i < n) { var t = (i, i * 10`i32, i * 20`i32); i++; return t } else return null } }
}
"""


def families(thorough):
    for f in (ranges, elements):
        for k, b, tr in f(thorough):
            yield f.__name__, k, b, tr
