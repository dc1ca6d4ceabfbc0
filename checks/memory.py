"""C07: every object is destroyed exactly once, as soon as nothing owns it any more, never before.

All programs of the families below are generated: straight-line statements that create, copy, move, assign, pass, return,
delete and null values of a class, placed in every control template; the same for values that hold an
object (structs, tuples, classes, nested structs, optionals, unions, vectors). After every statement the program reports
the identity of every object it can still reach and how many objects exist; the reference computes both
from reachability."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from prog import *


class Stop(Exception):
    pass


class Jump(Exception):
    def __init__(self, k, v=None):
        self.k, self.v = k, v


class Raise(Exception):
    pass


# ---------------------------------------------------------------------------------------- holders
# name -> (type text, constructor text, field path, semantics)
HOLD = {
    "S": ("S", "S{{k: {0}}}", "k", "val"),
    "T": ("T", "(7`i32, {0})", "1", "val"),
    "N": ("N", "N{{s: S{{k: {0}}}, n: 3}}", "s.k", "val"),
    "TT": ("TT", "(({0}, 8`i32), true)", "0.0", "val"),
    "TS": ("TS", "(S{{k: {0}}}, 8`i32)", "0.k", "val"),
    "H": ("H", "H({0})", "k", "ref"),
    "HS": ("HS", "HS({0})", "s.k", "ref"),
    "HD": ("HD", "HD({0})", "k", "ref"),
    "ST": ("ST", "ST{{n: 1, t: (7`i32, {0})}}", "t.1", "val"),
    "P2": ("P2", "P2{{a: mk(), k: {0}}}", "k", "val"),
    "PT": ("PT", "(mk(), {0})", "1", "val"),
    "PH": ("PH", "PH(mk(), {0})", "k", "ref"),
    "HT": ("HT", "HT({0})", "t.1", "ref"),
    "OS": ("OS", "S{{k: {0}}}", None, "opt"),
    "OT": ("OT", "(7`i32, {0})", None, "opt"),
    "US": ("US", "S{{k: {0}}}", None, "uni"),
    "UT": ("UT", "(7`i32, {0})", None, "uni"),
    "SO": ("SO", "SO{{o: {0}, n: 1}}", None, "val"),
    "SU": ("SU", "SU{{u: {0}, n: 1}}", None, "val"),
    "O": ("O", "{0}", None, "opt"),
    "U": ("U", "{0}", None, "uni"),
}

EXTRA = ("P2", "PT", "PH")

PRELUDE = """
class K { id: i32 = 0
 func `init`() { this.id = born() }
 @nocopy func `deinit`() { died(id) } }
struct S { k: K }
struct N { s: S; n: i32 = 0 }
type T = (i32, K)
type TT = ((K, i32), bool)
type TS = (S, i32)
type O = K?
type U = i32 | K
struct ST { n: i32 = 0; t: (i32, K) }
struct P2 { a: K; k: K }
type PT = (K, K)
class PH { a: K
 k: K
 func `init`(a: K, k: K) { this.a = a; this.k = k } }
class HT { t: (i32, K)
 func `init`(k: K) { this.t = (7`i32, k) } }
type OS = S?
type OT = (i32, K)?
type US = i32 | S
type UT = i32 | (i32, K)
struct SO { o: K?; n: i32 = 0 }
struct SU { u: U; n: i32 = 0 }
class H { k: K
 func `init`(k: K) { this.k = k } }
class HS { s: S
 func `init`(k: K) { this.s = S{k: k} } }
class HB { k: K
 func `init`(k: K) { this.k = k } }
class HD: HB { j: i32 = 0
 func `init`(k: K) { super(k) } }
exception Err(n: i32) { return "err" }
func mk(): K => K()
func same(k: K): K { return k }
func samemv(k: K): K { return &&k }
func sink(k: K): void { use(k.id) }
func ref(k: &K): void { use(k.id) }
func rk(): !K { var k = K(); if (bit()) raise Err(1); return k }
func rv(): !void { var k = K(); if (bit()) raise Err(1); use(k.id) }
"""
for _n in HOLD:
    PRELUDE += "func same%s(v: %s): %s { return v }\nfunc sink%s(@unused v: %s): void { seen() }\n" % (_n, _n, _n, _n, _n)

NATIVES = r'''
#include <stdint.h>
extern void px_ev(int k);
static unsigned char al[4096]; static int nid, live;
int32_t born(void) { if (nid < 4000) { al[++nid] = 1; live++; } return nid; }
void died(int32_t i) { if (i <= 0 || i > nid || al[i] != 1) { px_ev(77000 + i); return; } al[i] = 2; live--; }
void use(int32_t i) { px_ev(i > 0 && i <= nid && al[i] == 1 ? i : 88000); }
void lv(void) { px_ev(1000 + live); }
void seen(void) {}
void px_reset(void) { nid = 0; live = 0; }
void px_finish(void) { px_ev(2000 + live); }
'''
MHEAD = HEAD + """
pub extern func born(): i32
pub extern func died(i: i32): void
pub extern func use(i: i32): void
pub extern func lv(): void
pub extern func seen(): void
""" + PRELUDE


# ---------------------------------------------------------------------------------------- expressions
# ("mk",) ("c",p) ("m",p) ("sc",p) ("sm",p) ("t",p) ("tt",p,q) ("ct",) ("get",o)
def etext(e, hk):
    t = e[0]
    if t == "mk":
        return "mk()"
    if t == "new":
        return "K()"
    if t == "c":
        return ptext(e[1], hk)
    if t == "m":
        return "&&" + ptext(e[1], hk)
    if t == "sc":
        return "same(%s)" % ptext(e[1], hk)
    if t == "sm":
        return "same(&&%s)" % ptext(e[1], hk)
    if t == "sv":
        return "samemv(%s)" % ptext(e[1], hk)
    if t == "t":
        return "bit() ? %s : mk()" % ptext(e[1], hk)
    if t == "tt":
        return "bit() ? %s : %s" % (ptext(e[1], hk), ptext(e[2], hk))
    if t == "ct":
        return "rk() catch mk()"
    if t == "cc":
        return "rk() catch { yield %s }" % ptext(e[1], hk)
    if t == "bub":
        return "rk()"
    if t == "get":
        return "*%s" % e[1] if hk == "O" else "%s as K" % e[1]
    # holder valued
    if t == "hmk":
        return HOLD[hk][1].format(etext(e[1], hk))
    if t == "hc":
        return e[1]
    if t == "hm":
        return "&&" + e[1]
    if t == "hsc":
        return "same%s(%s)" % (hk, e[1])
    if t == "hsm":
        return "same%s(&&%s)" % (hk, e[1])
    if t == "htt":
        return "bit() ? %s : %s" % (e[1], e[2])
    raise AssertionError(e)


def ptext(p, hk):
    if p.endswith(".k"):
        return p[:-1] + HOLD[hk][2]
    return p


def reads(e):
    if e[0] in ("hmk",):
        return reads(e[1])
    return [p for p in e[1:]]


def moves(e):
    if e[0] in ("m", "sm", "hm", "hsm"):
        return [e[1]]
    if e[0] == "hmk":
        return moves(e[1])
    return []


# ---------------------------------------------------------------------------------------- statements
class Prog:
    """body: tuple of statements over K variables x,y and holder variables h,g of kind hk"""

    def __init__(self, pid, body, hk=None, pre="xy", valued=False, raising=False):
        self.id, self.hk, self.pre, self.valued, self.raising = pid, hk, pre, valued, raising
        st = {"x", "y"} if pre in ("xy", "py") else {"x"} if pre in ("x", "p") else set()
        if hk:
            st |= {"h", "g"}
            if HOLD[hk][2]:
                st |= {"h.k", "g.k"}
        self.vars = ["x", "y"] + (["h", "g"] if hk else [])
        self.decls = set()
        self.loops = []
        self.rets = False
        self.ann, out = self.block(body, frozenset(st), ())
        self.out = out

    # -- static validity and annotation
    def block(self, b, st, local):
        out = []
        declared = []
        for s in b:
            if st is None:
                raise Stop      # unreachable code
            a, st = self.stmt(s, st, declared)
            out.append(a)
            if st is not None:
                out.append(("obs", tuple(p for p in ("x", "y", "z", "h.k", "g.k") if p in st and (p[-1] != "k" or (p[:-2] in st and HOLD[self.hk][2])))))
        if st is not None and declared:
            st = frozenset(p for p in st if p.split(".")[0] not in declared)
        return tuple(out), st

    @staticmethod
    def meet(a, b):
        return b if a is None else a if b is None else a & b

    def need(self, e, st):
        for p in reads(e):
            if p not in st or (p.endswith(".k") and p[:-2] not in st):
                raise Stop
        for p in moves(e):
            st = self.kill(p, st)
        return st

    def kill(self, p, st):
        st = set(st)
        if p.endswith(".k") and HOLD[self.hk][3] == "ref":
            st -= {"h.k", "g.k"}
        st.discard(p)
        st.discard(p + ".k")
        return frozenset(st)

    def stmt(self, s, st, declared):
        t = s[0]
        if t in ("set", "var"):
            p, e = s[1], s[2]
            st = self.need(e, st)
            if t == "var":
                if p in declared or p in self.vars:
                    raise Stop
                declared.append(p)
            if p.endswith(".k"):
                if p[:-2] not in st:
                    raise Stop
            return s, st | {p}
        if t == "hset":
            p, e = s[1], s[2]
            f = e[1] + ".k" in st if e[0] in ("hc", "hm", "hsc", "hsm") else e[0] != "htt" or (e[1] + ".k" in st and e[2] + ".k" in st)
            st = self.need(e, st)
            st = set(st) - {p + ".k"} | {p}
            if f:
                st.add(p + ".k")
            return s, frozenset(st)
        if t in ("sink", "hsink", "disc", "hdisc"):
            return s, self.need(s[1], st)
        if t == "ref":
            self.need(("c", s[1]), st)
            return s, st
        if t in ("del", "null"):
            if t == "null" and s[1] in ("h", "g") and HOLD[self.hk][3] == "val":
                raise Stop
            self.need(("c", s[1]), st) if t == "del" else None
            if s[1].endswith(".k") and s[1][:-2] not in st:
                raise Stop
            if t == "null" and s[1] not in st and not s[1].endswith(".k"):
                raise Stop
            st2 = self.kill(s[1], st)
            if t == "null" and self.hk and HOLD[self.hk][3] == "opt" and s[1] in ("h", "g"):
                st2 |= {s[1]}
            return s, st2
        if t == "num":
            if s[1] not in st:
                raise Stop
            return s, (self.kill(s[1], st) | {s[1]})
        if t == "call":
            return s, st
        if t in ("ret", "raise"):
            if t == "ret" and len(s) > 1:
                self.need(s[1], st)
            return s, None
        if t in ("brk", "cnt"):
            if not self.loops:
                raise Stop
            self.loops[-1][t].append(st)
            return s, None
        if t == "if":
            a, s1 = self.block(s[1], st, ())
            b, s2 = self.block(s[2], st, ()) if len(s) > 2 else (None, st)
            return ("if", a, b), self.meet(s1, s2)
        if t == "switch":
            a, s1 = self.block(s[1], st, ())
            b, s2 = self.block(s[2], st, ())
            return ("switch", a, b), self.meet(s1, s2)
        if t == "block":
            a, s1 = self.block(s[1], st, ())
            return ("block", a), s1
        if t == "catch":
            a, s1 = self.block(s[1], st, ())
            return ("catch", a), self.meet(s1, st)
        if t in ("while", "forr"):
            e = st
            while True:
                self.loops.append({"brk": [], "cnt": []})
                a, s1 = self.block(s[1], e, ())
                l = self.loops.pop()
                n = e
                for o in [s1] + l["cnt"]:
                    n = self.meet(n, o)
                if n == e:
                    break
                e = n
            o = e
            for k in l["brk"]:
                o = self.meet(o, k)
            return (t, a), o
        raise AssertionError(s)

    # -- text
    def text(self):
        hk = self.hk
        o = []
        sig = []
        if self.pre in ("p", "py"):
            sig.append("x: K")
        else:
            o.append("var x = mk()" if self.pre in ("x", "xy") else "var x: K")
        o.append("var y = K()" if self.pre in ("xy", "py") else "var y: K")
        if hk:
            if self.pre in ("p", "py"):
                sig.append("h: %s" % HOLD[hk][0])
            else:
                o.append("var h: %s = %s" % (HOLD[hk][0], HOLD[hk][1].format("mk()")))
            o.append("var g: %s = %s" % (HOLD[hk][0], HOLD[hk][1].format("mk()")))
        ret = "K" if self.valued else "void"
        tail = "\n  return mk()" if self.valued and self.out is not None else ""
        d = "func q%d(%s): %s%s {\n" % (self.id, ", ".join(sig), "!" if self.raising else "", ret) + "".join("  %s;\n" % l for l in o) + "".join(self.lines(self.ann, 1)) + tail + "\n}\n"
        args = ["mk()"] if self.pre in ("p", "py") else []
        if hk and args:
            args.append(HOLD[hk][1].format("mk()"))
        # a named function per program keeps the caller's temporaries out of main
        call = "q%d(%s)" % (self.id, ", ".join(args))
        if self.raising:
            call += " catch mk()" if self.valued else " catch { lv() }"
        d += "func c%d() { %s }\n" % (self.id, ("var r = %s; use(r.id); lv()" % call) if self.valued else call + "; lv()")
        return d

    def lines(self, b, n):
        ind, hk = "  " * n, self.hk
        for s in b:
            t = s[0]
            if t == "obs":
                yield ind + "; ".join(["use(%s.id)" % ptext(p, hk) for p in s[1]] + ["lv();"]) + "\n"
            elif t in ("set", "hset"):
                yield "%s%s = %s;\n" % (ind, ptext(s[1], hk), etext(s[2], hk))
            elif t == "var":
                yield "%svar %s = %s;\n" % (ind, s[1], etext(s[2], hk))
            elif t == "sink":
                yield "%ssink(%s);\n" % (ind, etext(s[1], hk))
            elif t == "hsink":
                yield "%ssink%s(%s);\n" % (ind, hk, etext(s[1], hk))
            elif t in ("disc", "hdisc"):
                yield "%s%s;\n" % (ind, etext(s[1], hk))
            elif t == "ref":
                yield "%sref(&%s);\n" % (ind, ptext(s[1], hk))
            elif t == "del":
                yield "%sdelete %s;\n" % (ind, ptext(s[1], hk))
            elif t == "null":
                yield "%s%s = null;\n" % (ind, ptext(s[1], hk))
            elif t == "num":
                yield "%s%s = 5`i32;\n" % (ind, s[1])
            elif t == "call":
                yield "%srv();\n" % ind
            elif t == "ret":
                yield "%sreturn%s;\n" % (ind, " " + etext(s[1], hk) if len(s) > 1 else "")
            elif t == "raise":
                yield "%sraise Err(2);\n" % ind
            elif t == "brk":
                yield ind + "break;\n"
            elif t == "cnt":
                yield ind + "continue;\n"
            elif t == "if":
                yield ind + "if (bit()) {\n"
                yield from self.lines(s[1], n + 1)
                if s[2] is not None:
                    yield ind + "} else {\n"
                    yield from self.lines(s[2], n + 1)
                yield ind + "}\n"
            elif t == "switch":
                yield ind + "switch (pick3()) {\n%s case 1`i32 => {\n" % ind
                yield from self.lines(s[1], n + 1)
                yield ind + " }\n%s default => {\n" % ind
                yield from self.lines(s[2], n + 1)
                yield ind + " }\n" + ind + "}\n"
            elif t == "block":
                yield ind + "{\n"
                yield from self.lines(s[1], n + 1)
                yield ind + "}\n"
            elif t == "while":
                yield ind + "while (bit()) {\n"
                yield from self.lines(s[1], n + 1)
                yield ind + "}\n"
            elif t == "forr":
                yield ind + "for (const i: 0..2) {\n"
                yield from self.lines(s[1], n + 1)
                yield ind + "}\n"
            elif t == "catch":
                yield ind + "rv() catch {\n"
                yield from self.lines(s[1], n + 1)
                yield ind + "}\n"
            else:
                raise AssertionError(s)

    # -- reference
    def run(self, bits):
        tr = []
        born = [0]
        heap = {}
        hk = self.hk
        sem = HOLD[hk][3] if hk else None
        scopes = [{}]
        temps = []

        def new():
            born[0] += 1
            return born[0]

        def live():
            seen = set()

            def go(v):
                if v is None:
                    return
                if isinstance(v, int):
                    seen.add(v)
                else:
                    for k in v[1] if v[0] == "v" else heap[v[1]]:
                        go(k)
            for sc in scopes:
                for v in sc.values():
                    go(v)
            for v in temps:
                go(v)
            return len(seen)

        def lookup(p):
            for sc in reversed(scopes):
                if p in sc:
                    return sc
            raise AssertionError(p)

        def get(p):
            if p.endswith(".k"):
                v = get(p[:-2])
                return v[1][0] if v[0] == "v" else heap[v[1]][0]
            return lookup(p)[p]

        def put(p, v):
            if p.endswith(".k"):
                h = get(p[:-2])
                if h[0] == "v":
                    h[1][0] = v
                else:
                    heap[h[1]][0] = v
            else:
                lookup(p)[p] = v

        def hmake(k):
            x = new() if hk in EXTRA else None
            l = [k(), x]
            if sem == "ref":
                heap[len(heap)] = l
                return ("r", len(heap) - 1)
            return ("v", l)

        def hcopy(v):
            return v if v[0] == "r" else ("v", list(v[1]))

        def rk():
            k = new()
            if bits.choose(2):
                raise Raise
            return k

        def rv():
            k = new()
            if bits.choose(2):
                raise Raise
            tr.append(k)

        def ev(e):
            t = e[0]
            if t in ("mk", "new"):
                return new()
            if t in ("c", "sc", "sv"):
                return get(e[1])
            if t in ("m", "sm"):
                v = get(e[1])
                put(e[1], None)
                return v
            if t == "t":
                return get(e[1]) if bits.choose(2) else new()
            if t == "tt":
                return get(e[1]) if bits.choose(2) else get(e[2])
            if t == "ct":
                try:
                    return rk()
                except Raise:
                    return new()
            if t == "cc":
                try:
                    return rk()
                except Raise:
                    return get(e[1])
            if t == "bub":
                return rk()
            if t == "get":
                return get(e[1])[1][0]
            if t == "hmk":
                return hmake(lambda: ev(e[1]))
            if t in ("hc", "hsc"):
                return hcopy(get(e[1]))
            if t in ("hm", "hsm"):
                v = get(e[1])
                put(e[1], None)
                return v
            if t == "htt":
                return hcopy(get(e[1]) if bits.choose(2) else get(e[2]))
            raise AssertionError(e)

        def block(b):
            scopes.append({})
            try:
                for s in b:
                    stmt(s)
            finally:
                scopes.pop()

        def loop(cond, b):
            while cond():
                try:
                    block(b)
                except Jump as j:
                    if j.k == "brk":
                        break
                    if j.k != "cnt":
                        raise

        def stmt(s):
            t = s[0]
            if t == "obs":
                for p in s[1]:
                    tr.append(get(p))
                tr.append(1000 + live())
            elif t in ("set", "hset"):
                put(s[1], ev(s[2]))
            elif t == "var":
                scopes[-1][s[1]] = None
                scopes[-1][s[1]] = ev(s[2])
            elif t == "sink":
                v = ev(s[1])
                tr.append(v)
            elif t in ("hsink", "disc", "hdisc"):
                ev(s[1])
            elif t == "ref":
                tr.append(get(s[1]))
            elif t in ("del", "null"):
                if t == "null" and sem == "opt" and s[1] in ("h", "g"):
                    put(s[1], ("v", [None, None]))
                else:
                    put(s[1], None)
            elif t == "num":
                put(s[1], ("v", [None, None]))
            elif t == "call":
                rv()
            elif t == "ret":
                raise Jump("ret", ev(s[1]) if len(s) > 1 else None)
            elif t == "raise":
                raise Raise
            elif t in ("brk", "cnt"):
                raise Jump(t)
            elif t == "if":
                if bits.choose(2):
                    block(s[1])
                elif s[2] is not None:
                    block(s[2])
            elif t == "switch":
                block(s[1] if bits.choose(3) == 1 else s[2])
            elif t == "block":
                block(s[1])
            elif t == "while":
                loop(lambda: bits.choose(2), s[1])
            elif t == "forr":
                n = [0]

                def c():
                    n[0] += 1
                    return n[0] <= 2
                loop(c, s[1])
            elif t == "catch":
                try:
                    rv()
                except Raise:
                    block(s[1])
            else:
                raise AssertionError(s)

        f = {}
        f["x"] = new() if self.pre in ("x", "xy", "p", "py") else None
        if hk and self.pre in ("p", "py"):
            f["h"] = hmake(new)
        f["y"] = new() if self.pre in ("xy", "py") else None
        if hk:
            if "h" not in f:
                f["h"] = hmake(new)
            f["g"] = hmake(new)
        scopes.append(f)
        r = None
        try:
            block(self.ann)
            if self.valued:
                r = new()
        except Jump as j:
            r = j.v
        except Raise:
            scopes.pop()
            if self.valued:
                scopes.append({})
                r = new()
            else:
                tr.append(1000 + live())
                scopes.append({})
        scopes.pop()
        if self.valued:
            scopes.append({"r": r})
            tr.append(r)
            tr.append(1000 + live())
            scopes.pop()
        else:
            tr.append(1000 + live())
        tr.append(2000 + live())
        return tr


# ---------------------------------------------------------------------------------------- families
def kstmts():
    """statements on x and y"""
    s = []
    for p, q in (("x", "y"), ("y", "x")):
        s += [("set", p, ("mk",)), ("set", p, ("c", q)), ("set", p, ("m", q)), ("sink", ("m", p)), ("del", p), ("null", p)]
    s += [("set", "x", ("c", "x")), ("set", "x", ("sc", "x")), ("set", "x", ("sm", "x")), ("set", "x", ("t", "x")), ("set", "x", ("t", "y")),
          ("set", "y", ("tt", "x", "y")), ("sink", ("c", "x")), ("sink", ("t", "x")), ("sink", ("tt", "x", "y")), ("ref", "x"), ("var", "z", ("c", "x")), ("var", "z", ("m", "x")), ("var", "z", ("t", "x")),
          ("set", "x", ("ct",)), ("set", "x", ("cc", "x")), ("set", "y", ("sv", "x")),
          ("disc", ("mk",)), ("disc", ("sc", "x")), ("disc", ("sm", "x"))]
    return s


def hstmts(hk):
    sem = HOLD[hk][3]
    s = [("hset", "h", ("hmk", ("mk",))), ("hset", "h", ("hmk", ("c", "x"))), ("hset", "h", ("hc", "g")), ("hset", "g", ("hc", "h")), ("hset", "h", ("hm", "g")), ("hset", "h", ("hc", "h")),
         ("hset", "h", ("hsc", "h")), ("hset", "h", ("hsm", "h")), ("hset", "h", ("htt", "h", "g")), ("hsink", ("hc", "h")), ("hsink", ("hm", "h")), ("hset", "h", ("hmk", ("m", "x"))),
         ("hset", "h", ("hmk", ("t", "x"))), ("set", "x", ("mk",)), ("sink", ("m", "x")), ("del", "h"),
         ("hdisc", ("hsc", "h")), ("hdisc", ("hsm", "h"))]
    if HOLD[hk][2]:
        s += [("set", "h.k", ("mk",)), ("set", "h.k", ("c", "x")), ("set", "h.k", ("m", "x")), ("set", "h.k", ("c", "g.k")), ("set", "h.k", ("c", "h.k")), ("set", "h.k", ("sc", "h.k")),
              ("set", "h.k", ("t", "h.k")), ("set", "x", ("c", "h.k")), ("set", "x", ("m", "h.k")), ("var", "z", ("c", "h.k")), ("del", "h.k"), ("null", "h.k"), ("sink", ("c", "h.k")), ("sink", ("m", "h.k")),
              ("ref", "h.k"), ("set", "h.k", ("ct",)), ("hset", "h", ("hmk", ("c", "h.k"))), ("hset", "g", ("hmk", ("m", "h.k")))]
    if sem == "ref":
        s += [("null", "h")]
    if sem == "opt":
        s += [("null", "h")]
    if sem == "uni":
        s += [("num", "h")]
    return s


def templates(a, b):
    """control templates around two statements"""
    R = ("ret",)
    yield (a, b)
    yield (("if", (a,)), b)
    yield (a, ("if", (b,)))
    yield (("if", (a,), (b,)),)
    yield (("if", (a, R)), b)
    yield (("if", (a,), (b, R)),)
    yield (("while", (a, b)),)
    yield (("while", (a, ("if", (b, ("brk",))))),)
    yield (("while", (a, ("if", (b, ("cnt",))))),)
    yield (("while", (("if", (a, ("cnt",))), b)),)
    yield (("while", (("if", (a, R)), b)),)
    yield (("while", (("if", (a,), (b,)),)),)
    yield (("while", (a, ("brk",))), b)
    yield (("forr", (("if", (a, ("brk",))), b)),)
    yield (("while", (("while", (a,)), b)),)
    yield (("block", (a,)), b)
    yield (("block", (a, ("block", (b,)))),)
    yield (("switch", (a,), (b,)),)
    yield (("switch", (a,), ()), b)
    yield (("switch", (a, R), ()), b)
    yield (("while", (("switch", (a,), (b,)),)),)
    yield (("if", (("if", (a,)),)), b)
    yield (("if", (("if", (a,), (b,)),)),)
    yield (("catch", (a,)), b)
    yield (("catch", (a, R)), b)
    yield (("while", (("catch", (a, ("brk",))), b)),)
    yield (("while", (("catch", (a,)), b)),)
    yield (("if", (a,), (("if", (b,)),)),)
    yield (("if", (("if", (a,)),), (b,)),)
    yield (("switch", (a,), (("if", (b,)),)),)
    yield (("switch", (("if", (a,)),), (b,)),)
    yield (("if", (("while", (a,)),), (b,)),)
    yield (("if", (a,), (("while", (b, ("brk",))),)),)
    yield (("while", (("if", (a,), (("if", (b, ("brk",))),)),)),)
    yield (("catch", (("if", (a,)),)), b)
    yield (("block", (("if", (a, R)),)), b)
    yield (("while", (("block", (a, ("if", (("brk",),)))), b)),)


HT = (0, 3, 4, 7)
VT = (0, 1, 3, 4, 6, 7, 9, 11, 17, 21, 23, 25, 27, 28, 29, 31, 33, 35)


def rets():
    return [("ret", e) for e in (("mk",), ("c", "x"), ("c", "y"), ("m", "x"), ("t", "x"), ("tt", "x", "y"), ("sc", "x"), ("sm", "x"), ("ct",))]


def rtemplates(a, r, q):
    yield (("if", (a, r)), q)
    yield (a, ("if", (r,)), q)
    yield (("while", (a, ("if", (r,)))), q)
    yield (("while", (("if", (r,)), a)),)
    yield (("switch", (a, r), (q,)),)
    yield (("block", (a, r)),)
    yield (("catch", (a, r)), q)


def xtemplates(a, b):
    C, X = ("call",), ("raise",)
    yield (a, C, b)
    yield (("if", (a, X)), b)
    yield (("while", (a, C, b)),)
    yield (("while", (("if", (a, X)), b)),)
    yield (("block", (a, C)), b)
    yield (("set", "x", ("bub",)), a, b)
    yield (a, ("var", "z", ("bub",)), b)


def families(thorough):
    K = kstmts()
    for pre in ("xy", "p") if not thorough else ("xy", "p", "x", "py", ""):
        for a in K:
            for b in K:
                for i, t in enumerate(templates(a, b)):
                    if thorough or (i in VT if pre == "xy" else i in HT):
                        yield "vars", dict(body=t, pre=pre)
    for hk in HOLD:
        H = hstmts(hk)
        for a in H:
            for b in H:
                for i, t in enumerate(templates(a, b)):
                    if thorough or i in (HT if hk in ("S", "H", "O", "U", "TT") else HT[1:]):
                        yield "hold" + hk, dict(body=t, hk=hk, pre="xy" if not thorough else "x")
    simple = [s for s in K if s[0] != "var"] if thorough else [("set", "x", ("mk",)), ("set", "x", ("c", "y")), ("set", "y", ("m", "x")), ("sink", ("m", "x")), ("del", "x"), ("set", "y", ("tt", "x", "y")), ("var", "z", ("c", "x"))]
    R = rets()
    for pre in ("xy", "py"):
        for a in simple:
            for r in R:
                for q in R:
                    for t in rtemplates(a, r, q):
                        yield "returns", dict(body=t, pre=pre, valued=True)
    for a in K:
        for b in K if thorough else simple:
            for t in xtemplates(a, b):
                yield "raises", dict(body=t, pre="xy", raising=True)
                if thorough:
                    yield "raises", dict(body=t + (("ret", ("c", "x")),), pre="py", raising=True, valued=True)
    if thorough:
        for a in K:
            for b in K:
                for d in simple:
                    yield "three", dict(body=(("if", (a,)), ("while", (b, ("if", (d, ("brk",))))),), pre="xy")
                    yield "three", dict(body=(("while", (("if", (a, ("cnt",))), b)), d), pre="p")


# Single programs for values that never get an owner; (name, body, expected trace).
def one(*tr):
    return lambda bits: list(tr) + [2000]


def catch2(bits):
    bits.choose(2)
    return [1000, 1000, 2000]


SINGLE = [
    ("discarded-call", "mk(); lv()", one(1000, 1000)),
    ("discarded-new", "K(); lv()", one(1000, 1000)),
    ("discarded-holder", "H(mk()); lv()", one(1000, 1000)),
    ("discarded-catch", "rk() catch mk(); lv()", catch2),
    ("discarded-deferred", "{ defer mk(); lv() }; lv()", one(1000, 1000, 1000)),
    ("member-of-call", "use(mk().id); lv()", one(1, 1000, 1000)),
    ("argument-by-value", "sink(mk()); lv()", one(1, 1000, 1000)),
    ("array-of-objects", "var a = [mk(), mk()]; use(a.[0].id); use(a.[1].id); lv()", one(1, 2, 1002, 1000)),
    ("member-moved-into-call", "var h = H(mk()); sink(&&h.k); lv()", one(1, 1000, 1000)),
    ("optional-deref", "var o: O = mk(); use((*o).id); lv()", one(1, 1001, 1000)),
    ("optional-deref-copy", "var o: O = mk(); var z = *o; use(z.id); lv()", one(1, 1001, 1000)),
    ("union-cast-copy", "var u: U = mk(); var z = u as K; use(z.id); lv()", one(1, 1001, 1000)),
    ("closure-result", "const f = () => mk(); var k = f(); use(k.id); lv()", one(1, 1001, 1000)),
    ("closure-capture", "var k = mk(); const f = () => k; f(); lv(); var j = f(); use(j.id); lv()", one(1001, 1, 1001, 1000)),
]


def body():
    c = Check("C07")
    cxy = build_compiler()
    only = os.environ.get("FAM")
    seen, progs, nfam = set(), [], {}
    for fam, kw in families(c.thorough):
        if only and not any(fam.startswith(f) for f in only.split(",")):
            continue
        k = tuple(sorted((a, b) for a, b in kw.items()))
        if k in seen:
            continue
        seen.add(k)
        try:
            p = Prog(len(progs), **kw)
        except Stop:
            continue
        progs.append((fam, p, kw))
        nfam[fam] = nfam.get(fam, 0) + 1

    def mk(ip):
        fam, p, kw = progs[ip]
        return dict(id=p.id, decl=p.text(), call="c%d()" % p.id, run=p.run, sig=signature(p.run), key="%s:%s" % (fam, repr(sorted(kw.items())).replace(" ", "")))
    ps = [mk(i) for i in range(len(progs))]
    c.cov["programs"] = len(ps)
    c.cov["families"] = nfam
    b = Batch(c, cxy, head=MHEAD, natives={"mem.c": NATIVES}, flags=["-O0", "-fsanitize=address", "-fno-omit-frame-pointer"])
    b.run_all(ps, size=int(os.environ.get("BS", "150")))
    if not only or "single" in only:
        sp = []
        for i, (name, text, want) in enumerate(SINGLE):
            n = len(progs) + i
            sp.append(dict(id=n, decl="func q%d() { %s }\nfunc c%d() { q%d(); lv() }\n" % (n, text, n, n), call="c%d()" % n, run=want, sig=signature(want), key="single:" + name))
        b.run_all(sp, size=1, label="s")
        c.cov["programs"] += len(sp)
    for p in ps[:: max(1, len(ps) // 6)]:
        c.sample(p["key"])
    c.assumptions.append("programs of the listed templates only; at most %d branch decisions per path" % PXL)
    c.finish()


if __name__ == "__main__":
    main(body)
