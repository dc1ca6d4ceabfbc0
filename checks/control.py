#!/usr/bin/env python3
"""C06: control flow, defer and exceptions. Every statement tree of a small grammar up to a size bound is
compiled by cxy and run on every sequence of branch outcomes; the trace of every path is compared with a
reference interpreter."""
import functools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from prog import *
import loops

# ---- shapes -----------------------------------------------------------------------------------
JUMPS = ("break", "continue", "return", "raise", "reraise")
LEAF = ("defer", "call", "catchd", "catchv")
CONDS = {
    "b": "bit()", "!b": "!bit()", "b&&b": "bit() && evb(%d, bit())", "b||b": "bit() || evb(%d, bit())",
    "b?b:!b": "bit() ? bit() : !bit()", "(b&&b)||b": "(bit() && bit()) || bit()", "b&&!(b||b)": "bit() && !(bit() || bit())",
    "!(b&&b)": "!(bit() && bit())", "b==b": "bit() == bit()", "rc": "(r2() catch false)", "b&&rc": "bit() && (r2() catch false)", "rc||b": "(r2() catch true) || bit()",
    "r": "r2()", "b&&r": "bit() && r2()", "r||(b&&r)": "r2() || (bit() && r2())",
    "b?e:e": "bit() ? evb(%d, bit()) : evb(6001, !bit())",
    "(b||(b&&b))?b:b&&b": "(bit() || (bit() && evb(%d, bit()))) ? bit() : bit() && evb(6002, evb(6003, bit()))",
}


RAISING = ("r", "b&&r", "r||(b&&r)")
ENDLESS = ("b?e:e", "!b", "b?b:!b", "!(b&&b)", "b==b")


def jumps(s):
    return s[0] in JUMPS or (s[0] == "block" and bool(s[1]) and jumps(s[1][-1]))


class G:
    """blocks of exactly n nodes in context (loop, raising, catch, swtch)"""

    def __init__(self, kinds, conds=("b",)):
        self.kinds, self.conds = set(kinds), conds
        self._b, self._s = {}, {}

    def blocks(self, n, ctx):
        k = (n, ctx)
        if k not in self._b:
            out = []
            if n == 0:
                out.append(())
            for first in range(1, n + 1):
                for s in self.stmts(first, ctx):
                    if jumps(s):          # nothing may follow: unreachable code is not the subject here
                        if first == n:
                            out.append((s,))
                        continue
                    for rest in self.blocks(n - first, ctx):
                        out.append((s,) + rest)
            self._b[k] = out
        return self._b[k]

    def stmts(self, n, ctx):
        k = (n, ctx)
        if k in self._s:
            return self._s[k]
        loop, raising, catch, sw = ctx
        K = self.kinds
        out = []
        if n == 1:
            if loop and not sw:
                out += [("break",)] if "break" in K else []
            if loop:
                out += [("continue",)] if "continue" in K else []
            out += [("return",)] if "return" in K else []
            if raising:
                out += [(x,) for x in ("raise", "call") if x in K]
                if catch:
                    out += [("reraise",)] if "reraise" in K else []
            out += [(x,) for x in ("e", "defer", "deferb", "catchd", "catchv") if x in K]
        inner = n - 1
        same = self.blocks(inner, ctx)
        for c in self.conds:
            if "if" in K:
                out += [("if", c, b) for b in same]
            if "while" in K:
                out += [("while", c, b) for b in self.blocks(inner, (True, raising, catch, False))]
        if "for" in K:
            out += [("for", b) for b in self.blocks(inner, (True, raising, catch, False))]
        if "forever" in K:
            out += [("forever", b) for b in self.blocks(inner, (True, raising, catch, False))]
        if "block" in K:
            out += [("block", b) for b in same]
        if "catchb" in K:
            out += [("catchb", b) for b in self.blocks(inner, (loop, raising, True, sw))
                    if b or not K & {"e", "nonempty"}]      # `catch {}` is not valid, `catch discard` is
        if "catchy" in K:
            out += [("catchy", b) for b in self.blocks(inner, (loop, raising, True, sw)) if not b or not jumps(b[-1])]
        for a in range(inner + 1):
            if "ifelse" in K:
                out += [("ifelse", "b", x, y) for x in self.blocks(a, ctx) for y in self.blocks(inner - a, ctx)]
            cs = (loop, raising, catch, True)
            for kind in ("switch", "switchd"):
                if kind in K:
                    out += [(kind, x, y) for x in self.blocks(a, cs) for y in self.blocks(inner - a, cs)]
        self._s[k] = out
        return out


# ---- annotated programs: text and meaning ---------------------------------------------------------
class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class Ret(Exception):
    pass


class Rse(Exception):
    pass


class Prog:
    def __init__(self, pid, shape, raising, valued, mode):
        self.pid, self.raising, self.valued, self.mode = pid, raising, valued, mode
        self.n = 0
        self.text = []
        self.body = self.block(shape, 1)
        if mode != "full" and not self.ends(shape):
            self.body.append(("ev", self.fresh()))
            self.emit(1, "ev(%d)" % self.n)
        ret = ("!" if raising else "") + ("i32" if valued else "void")
        tail = "  return %d`i32\n" % self.fresh() if valued and not self.ends(shape) else ""
        self.tailv = self.n if tail else 0
        self.decl = "func fn%d(): %s {\n%s%s}\n" % (pid, ret, "".join(self.text), tail)
        if raising:
            self.call = "fn%d() catch { ev(9999) }" % pid if not valued else "const r = fn%d() catch { ev(9999); yield 8888`i32 }; ev(r)" % pid
        else:
            self.call = ("ev(fn%d())" if valued else "fn%d()") % pid

    @staticmethod
    def ends(b):
        return bool(b) and jumps(b[-1])

    def fresh(self):
        self.n += 1
        return self.n

    def emit(self, depth, s):
        self.text.append("  " * depth + s + "\n")

    def block(self, stmts, d):
        full = self.mode == "full"
        out = []
        if full:
            out = [("ev", self.fresh())]
            self.emit(d, "ev(%d)" % out[0][1])
        for s in stmts:
            out.append(self.stmt(s, d))
            if full and not jumps(s):
                k = self.fresh()
                out.append(("ev", k))
                self.emit(d, "ev(%d)" % k)
        return out

    def nested(self, stmts, d, close="}", then=False):
        """the body after a line that ends in ' {'"""
        bare = self.mode == "nobrace" and len(stmts) == 1 and stmts[0][0] not in ("defer", "deferb", "block", "catchy", "catchv")
        bare = bare and not (then and stmts[0][0] in ("if", "while", "for", "ifelse"))     # no dangling else
        if bare:
            assert self.text[-1].endswith(" {\n")
            self.text[-1] = self.text[-1][:-3] + "\n"
        r = self.block(stmts, d + 1)
        if bare:
            if stmts[0][0] in ("return", "reraise", "raise", "break", "continue"):
                self.text[-1] = self.text[-1][:-1] + ";\n"
        else:
            self.emit(d, close)
        return r

    def stmt(self, s, d):
        t = s[0]
        if t in ("break", "continue", "reraise"):
            self.emit(d, {"reraise": "raise"}.get(t, t))
            return s
        if t == "e":
            k = self.fresh()
            self.emit(d, "ev(%d)" % k)
            return ("ev", k)
        if t == "return":
            k = self.fresh()
            self.emit(d, "return %d`i32" % k if self.valued else "return")
            return ("return", k)
        if t == "raise":
            k = self.fresh()
            self.emit(d, "raise Err(%d)" % k)
            return s
        if t == "call":
            self.emit(d, "r0()")
            return s
        if t == "catchd":
            self.emit(d, "r0() catch discard")
            return s
        if t == "catchv":
            k = self.fresh()
            self.emit(d, "const v%d = r1() catch %d`i32;" % (k, k))
            self.emit(d, "ev(v%d)" % k)
            return (t, k)
        if t == "defer":
            k = self.fresh()
            self.emit(d, "defer ev(%d)" % k)
            return (t, [("ev", k)])
        if t == "deferb":
            k = self.fresh()
            self.emit(d, "defer { ev(%d); if (bit()) ev(%d) }" % (k, k + 1))
            self.n += 1
            return (t, k)
        if t in ("if", "while"):
            k = self.fresh()
            c = CONDS[s[1]]
            c = c % k if "%d" in c else c
            if t == "while" and s[1] in ENDLESS:      # true when all bits are 0: guard it
                c = "bit() && (%s)" % c
            self.emit(d, "%s (%s) {" % (t, c))
            b = self.nested(s[2], d)
            return (t, (s[1], k), b)
        if t == "ifelse":
            self.emit(d, "if (bit()) {")
            a = self.nested(s[2], d, then=True)
            self.emit(d, "else {")
            b = self.nested(s[3], d)
            return (t, a, b)
        if t == "for":
            k = self.fresh()
            self.emit(d, "for (const it%d: 0`i32..2`i32) {" % k)
            if self.mode == "full":
                self.emit(d + 1, "ev(<i32>it%d)" % k)
                b = [("evi",)] + self.block(s[1], d + 1)
                self.emit(d, "}")
            else:
                b = self.nested(s[1], d)
            return (t, b)
        if t == "forever":
            self.emit(d, "while {")
            self.emit(d + 1, "if (!bit()) break")
            b = self.block(s[1], d + 1)
            self.emit(d, "}")
            return (t, b)
        if t == "block":
            self.emit(d, "{")
            b = self.block(s[1], d + 1)
            self.emit(d, "}")
            return (t, b)
        if t in ("switch", "switchd"):
            self.emit(d, "switch (pick3()) {")
            self.emit(d + 1, "case %s => {" % ("0`i32" if t == "switchd" else "1`i32"))
            a = self.nested(s[1], d + 1)
            self.emit(d + 1, "%s => {" % ("default" if t == "switchd" else "case 0`i32, 2`i32"))
            b = self.nested(s[2], d + 1)
            self.emit(d, "}")
            return (t, a, b)
        if t == "catchb":
            self.emit(d, "r0() catch {")
            b = self.block(s[1], d + 1)
            self.emit(d, "}")
            return (t, b)
        if t == "catchy":
            k = self.fresh()
            self.emit(d, "const y%d = r1() catch {" % k)
            b = self.block(s[1], d + 1)
            self.emit(d + 1, "yield %d`i32" % k)
            self.emit(d, "};")
            self.emit(d, "ev(y%d)" % k)
            return (t, b, k)
        raise AssertionError(t)

    # ---- reference interpreter
    def run(self, bits):
        tr = []
        ev, it = tr.append, [0]

        def bit():
            return bits.choose(2) == 1

        def r0():          # trace of the callee: see RUNTIME
            ev(7001)
            if bit():
                ev(7002)
                raise Rse()
            ev(7003)

        def r2():
            ev(7005)
            if bit():
                raise Rse()
            return bit()

        def r1():
            r0()
            return 7004

        def cond(c, k):
            if c == "b":
                return bit()
            if c == "!b":
                return not bit()
            if c == "b&&b":
                if not bit():
                    return False
                v = bit()
                ev(k)
                return v
            if c == "b||b":
                if bit():
                    return True
                v = bit()
                ev(k)
                return v
            if c == "b?b:!b":
                return bit() if bit() else not bit()
            if c == "(b&&b)||b":
                return (bit() and bit()) or bit()
            if c == "b&&!(b||b)":
                return bit() and not (bit() or bit())
            if c == "!(b&&b)":
                return not (bit() and bit())
            if "r" in c:
                def rc(dflt):
                    try:
                        return r2()
                    except Rse:
                        return dflt
                return (rc(False) if c == "rc" else bit() and rc(False) if c == "b&&rc" else rc(True) or bit() if c == "rc||b" else
                        r2() if c == "r" else bit() and r2() if c == "b&&r" else r2() or (bit() and r2()))
            if c == "b?e:e":
                if bit():
                    v = bit()
                    ev(k)
                else:
                    v = not bit()
                    ev(6001)
                return v
            if c == "(b||(b&&b))?b:b&&b":
                x = bit()
                if not x and bit():
                    x = bit()
                    ev(k)
                if x:
                    return bit()
                if not bit():
                    return False
                x = bit()
                ev(6003)
                ev(6002)
                return x
            if c == "b==b":
                x = bit()
                return x == bit()

        def block(b):
            defers = []
            try:
                for s in b:
                    stmt(s, defers)
            finally:
                # deferred statements of this block, last one first, however the block is left
                for f in reversed(defers):
                    f()

        def loop(test, b):
            while test():
                try:
                    block(b)
                except Brk:
                    break
                except Cnt:
                    continue

        def deferb(k):
            ev(k)
            if bit():
                ev(k + 1)

        def stmt(s, defers):
            t = s[0]
            if t == "ev":
                ev(s[1])
            elif t == "evi":
                ev(it[0])
            elif t == "break":
                raise Brk()
            elif t == "continue":
                raise Cnt()
            elif t == "return":
                raise Ret(s[1])
            elif t in ("raise", "reraise"):
                raise Rse()
            elif t == "call":
                r0()
            elif t == "catchd":
                try:
                    r0()
                except Rse:
                    pass
            elif t == "catchv":
                try:
                    v = r1()
                except Rse:
                    v = s[1]
                ev(v)
            elif t == "defer":
                k = s[1][0][1]
                defers.append(lambda: ev(k))
            elif t == "deferb":
                defers.append(lambda: deferb(s[1]))
            elif t == "if":
                if cond(*s[1]):
                    block(s[2])
            elif t == "while":
                if s[1][0] in ENDLESS:
                    loop(lambda: bit() and cond(*s[1]), s[2])
                else:
                    loop(lambda: cond(*s[1]), s[2])
            elif t == "ifelse":
                block(s[1] if bit() else s[2])
            elif t == "for":
                for it[0] in range(2):
                    try:
                        block(s[1])
                    except Brk:
                        break
                    except Cnt:
                        continue
            elif t == "forever":
                loop(bit, s[1])
            elif t == "block":
                block(s[1])
            elif t == "switch":
                v = bits.choose(3)
                block(s[1] if v == 1 else s[2])
            elif t == "switchd":
                v = bits.choose(3)
                block(s[1] if v == 0 else s[2])
            elif t == "catchb":
                try:
                    r0()
                except Rse:
                    block(s[1])
            elif t == "catchy":
                try:
                    v = r1()
                except Rse:
                    block(s[1])
                    v = s[2]
                ev(v)
            else:
                raise AssertionError(t)
        try:
            block(self.body)
            if self.valued:
                ev(self.tailv)
        except Ret as r:
            if self.valued:
                ev(r.args[0])
        except Rse:
            ev(9999)
            if self.valued:
                ev(8888)
        return tr


RUNTIME = HEAD + """
exception Err(n: i32) { return "err" }
func r0(): !void {
  ev(7001)
  if (bit()) {
    ev(7002)
    raise Err(1)
  }
  ev(7003)
}
func r2(): !bool {
  ev(7005)
  if (bit()) raise Err(2)
  return bit()
}
func r1(): !i32 {
  r0()
  return 7004`i32
}
"""


def key(shape):
    def f(b):
        out = []
        for s in b:
            xs = [x if isinstance(x, str) else "{%s}" % f(x) for x in s[1:]]
            out.append(s[0] + ("(%s)" % ",".join(xs) if xs else ""))
        return ";".join(out)
    return f(shape).replace(" ", "")


def family(kinds, n, raising, valued, conds=("b",)):
    g = G(kinds, conds)
    for size in range(1, n + 1):
        for b in g.blocks(size, (False, raising, False, False)):
            yield b, raising, valued


FAMILIES = [
    # name, kinds, raising, valued, conds, quick size, thorough size
    ("flow", "if ifelse while for break continue return", False, False, ("b",), 3, 4),
    ("flowv", "if ifelse while return switch switchd", False, True, ("b",), 3, 4),
    ("switch", "if for continue return switch switchd", False, False, ("b",), 3, 4),
    ("defer", "defer if while for break continue return block", False, False, ("b",), 4, 5),
    ("deferb", "deferb ifelse forever break continue return switchd", False, False, ("b",), 3, 4),
    ("conds", "if while", False, False, tuple(c for c in CONDS if c not in RAISING), 2, 3),
    ("rconds", "if while defer", True, False, tuple(RAISING) + ("b&&rc", "b"), 2, 3),
    ("raise", "if while raise call catchd catchb catchv defer return", True, False, ("b",), 3, 4),
    ("raisev", "if for break continue raise call catchy catchv return", True, True, ("b",), 3, 4),
    ("catch", "catchd catchb catchv catchy if for defer break continue return", False, False, ("b",), 3, 4),
    ("reraise", "catchb catchy reraise raise defer block return", True, False, ("b",), 3, 4),
    ("bareflow", "e if ifelse while for break continue return switchd", False, False, ("b",), 3, 4, "bare"),
    ("nobrace", "e if ifelse while for break continue return switch", False, False, ("b",), 3, 4, "nobrace"),
    ("baredefer", "e defer if for break continue return block", False, False, ("b",), 4, 5, "bare"),
    ("deferjump", "defer if while break continue return", False, False, ("b",), 5, 6, "bare"),
    ("deferjumpf", "defer block for ifelse continue return", False, False, ("b",), 4, 5, "bare"),
    ("deferraise", "defer if call raise catchb nonempty", True, False, ("b",), 5, 6, "bare"),
    ("barecatch", "e catchb catchd catchv if for break continue return", False, False, ("b",), 4, 5, "bare"),
    ("bareraise", "e catchb call raise reraise if while return", True, False, ("b",), 4, 5, "bare"),
]


def body():
    c = Check("C06")
    cxy = build_compiler()
    seen, progs = set(), []
    only = os.environ.get("FAM")
    for name, kinds, raising, valued, conds, q, t, *mode in FAMILIES:
        mode = mode[0] if mode else "full"
        if only and name not in only.split(","):
            continue
        for shape, r, v in family(kinds.split(), t if c.thorough else q, raising, valued, conds):
            k = (shape, r, v, mode)
            if k in seen:
                continue
            seen.add(k)
            progs.append((name, shape, r, v, mode))

    def mk(ip):
        i, (name, shape, r, v, mode) = ip
        p = Prog(i, shape, r, v, mode)
        return dict(id=i, decl=p.decl, call=p.call, run=p.run, sig=signature(p.run), key="%s:%s" % (name, key(shape)))
    from multiprocessing import Pool
    global _mk
    _mk = mk
    ps = [mk(x) for x in enumerate(progs)]
    for name, k, text, tr in loops.families(c.thorough):
        if only and name not in only.split(","):
            continue
        i = len(ps)
        f = lambda bits, tr=tr: list(tr)
        ps.append(dict(id=i, decl="func c%d() { %s }\n" % (i, text), call="c%d()" % i, run=f, sig=signature(f), key="%s:%s" % (name, k)))
    c.cov["programs"] = len(ps)
    b = Batch(c, cxy, head=RUNTIME + loops.DECL)
    b.run_all(ps, size=int(os.environ.get("BS", "250")))
    for p in ps[:: max(1, len(ps) // 6)]:
        c.sample(p["key"])
    c.assumptions.append("programs of the listed grammars only; at most %d branch decisions per path" % PXL)
    c.finish()


if __name__ == "__main__":
    main(body)
