"""C17: a macro call means the macro's definition with the arguments in the place of its parameters."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from prog import *

# ---- expressions: ("v", name) ("c", value) ("p", index) ("b", op, l, r) ("u", op, x) ("t", c, l, r) ("f", x)
LEVEL = {"*": 10, "/": 10, "%": 10, "+": 9, "-": 9, "<<": 8, ">>": 8, "<": 7, ">": 7, "<=": 7, ">=": 7, "==": 6, "!=": 6, "&": 5, "^": 4, "|": 3, "&&": 2, "||": 1}
VARS = {"a": 13, "b": 3, "c": 6, "d": 1}
BOOLS = {"p": True, "q": False}


def level(e):
    return {"b": lambda: LEVEL[e[1]], "t": lambda: 0, "u": lambda: 11}.get(e[0], lambda: 12)()


def text(e):
    k = e[0]
    if k == "v":
        return e[1]
    if k == "c":
        return ("true" if e[1] else "false") if isinstance(e[1], bool) else "%d`i32" % e[1]
    if k == "p":
        return "%s!" % "xyz"[e[1]]
    if k == "b":
        l, r = text(e[2]), text(e[3])
        if level(e[2]) < LEVEL[e[1]]:
            l = "(%s)" % l
        if level(e[3]) <= LEVEL[e[1]]:
            r = "(%s)" % r
        return "%s %s %s" % (l, e[1], r)
    if k == "u":
        return e[1] + (text(e[2]) if level(e[2]) > 11 else "(%s)" % text(e[2]))
    if k == "t":
        return "%s ? %s : %s" % tuple(text(x) if level(x) > 0 else "(%s)" % text(x) for x in e[1:])
    return "$f(%s)" % text(e[1])


class Undefined(Exception):
    pass


def ev(e, tr):
    k = e[0]
    if k == "v":
        return BOOLS[e[1]] if e[1] in BOOLS else VARS[e[1]]
    if k == "c":
        return e[1]
    if k == "f":
        n = len(tr)
        v = ev(e[1], tr)
        if len(tr) > n:
            raise Undefined()    # when the inner call runs is not constrained
        tr.append(9000 + v)
        return v
    if k == "t":
        return ev(e[2] if ev(e[1], tr) else e[3], tr)
    if k == "u":
        v = ev(e[2], tr)
        return {"-": lambda: -v, "~": lambda: ~v, "!": lambda: not v}[e[1]]()
    op = e[1]
    l = ev(e[2], tr)
    if op in ("&&", "||"):
        return ev(e[3], tr) if l == (op == "&&") else l
    r = ev(e[3], tr)
    if op in ("/", "%") and (r == 0) or op in ("<<", ">>") and (not 0 <= r < 12 or l < 0):
        raise Undefined()
    q = abs(l) // abs(r) * (1 if (l < 0) == (r < 0) else -1) if op in ("/", "%") else 0
    v = {"+": lambda: l + r, "-": lambda: l - r, "*": lambda: l * r, "/": lambda: q, "%": lambda: l - r * q, "&": lambda: l & r, "|": lambda: l | r, "^": lambda: l ^ r, "<<": lambda: l << r, ">>": lambda: l >> r,
         "<": lambda: l < r, ">": lambda: l > r, "<=": lambda: l <= r, ">=": lambda: l >= r, "==": lambda: l == r, "!=": lambda: l != r}[op]()
    if not isinstance(v, bool) and abs(v) > 2 ** 30:
        raise Undefined()
    return v


def put(e, args):
    if e[0] == "p":
        return args[e[1]]
    return tuple(put(x, args) if isinstance(x, tuple) else x for x in e)


def isbool(e):
    k = e[0]
    if k == "v":
        return e[1] in BOOLS
    if k == "c":
        return isinstance(e[1], bool)
    if k == "b":
        return e[1] in ("<", ">", "<=", ">=", "==", "!=", "&&", "||")
    if k == "u":
        return e[1] == "!"
    if k == "t":
        return isbool(e[2])
    return False


def B(op, l, r):
    return ("b", op, l, r)


def V(n):
    return ("v", n)


X, Y, Z = ("p", 0), ("p", 1), ("p", 2)
NUM = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"]
CMP = ["<", ">=", "==", "!="]
VDECL = "".join("var %s = %d`i32; " % i for i in VARS.items()) + "var p = true; var q = false; "
FDECL = "func $f(x: i32): i32 { ev(9000`i32 + x); return x }\n"


def show(e, tree):
    """statement that reports the value of text e, expected trace"""
    tr = []
    v = ev(tree, tr)
    if isbool(tree):
        return "if (%s) { ev(1`i32) } else { ev(0`i32) }\n" % e, tr + [int(v)]
    return "var r$ = %s; ev(r$)\n" % e, tr + [v]


def used(s):
    """declarations of the variables a text mentions"""
    import re
    names = set(re.findall(r"(?<![A-Za-z_$`])[abcdpq](?![A-Za-z_!(`])", s))
    return "".join("var %s = %s; " % (n, "%d`i32" % VARS[n] if n in VARS else "true" if BOOLS[n] else "false") for n in sorted(names))


FORMS = ["macro $m(%s) %s", "macro $m(%s) = (%s)", "macro $m(%s) (%s)"]


def item(key, body, args, use=None, form=0, undef=False):
    """one macro, one call; use: function of (text, tree) of the call to (text, tree)"""
    n = len(args)
    call = "$m!(%s)" % ", ".join(text(x) for x in args)
    tree = put(body, args)
    t = (call, tree) if use is None else use(call, tree)
    try:
        s, tr = show(*t)
    except Undefined:
        return None
    d = FORMS[form] % (", ".join("xyz"[:n]), text(body)) + "\n"
    return key, d + FDECL, used(s + text(tree)) + s, tr


def wrap(op, other, left):
    return lambda t, e: (("%s %s %s" % (t, op, other[1]) if left else "%s %s %s" % (other[1], op, t)), B(op, e, V(other)) if left else B(op, V(other), e))


def operands(thorough):
    """every operator of the definition, over every kind of argument, used as every kind of operand"""
    args = {"name": V("a"), "const": ("c", 5), "call": ("f", V("b")), "neg": ("u", "-", V("a")), "inv": ("u", "~", V("b")), "cond": ("t", V("p"), V("a"), V("b")), "cond2": ("t", B("<", V("a"), V("b")), V("b"), V("c"))}
    for op in NUM:
        args[op] = B(op, V("a"), V("b"))
    args["mix"] = B("-", V("a"), B("-", V("b"), V("c")))
    uses = {"alone": None}
    for op in NUM + CMP:
        uses["l" + op] = lambda t, e, op=op: ("%s %s c" % (t, op), B(op, e, V("c")))
        uses["r" + op] = lambda t, e, op=op: ("c %s %s" % (op, t), B(op, V("c"), e))
    uses["neg"] = lambda t, e: ("-%s" % t, ("u", "-", e))
    uses["inv"] = lambda t, e: ("~%s" % t, ("u", "~", e))
    uses["call"] = lambda t, e: ("$f(%s)" % t, ("f", e))
    uses["group"] = lambda t, e: ("(%s) * c" % t, B("*", e, V("c")))
    bodies = {"id": X, "neg": ("u", "-", X), "inv": ("u", "~", X), "call": ("f", X)}
    for op in NUM + CMP:
        bodies["l" + op] = B(op, X, V("d"))
        bodies["r" + op] = B(op, V("d"), X)
        bodies["xx" + op] = B(op, X, X)
    for (bk, b), (ak, a), (uk, u) in itertools.product(bodies.items(), args.items(), uses.items()):
        if isbool(b) and uk not in ("alone",):
            continue
        if not thorough and bk not in ("id", "neg", "l*", "r-", "l+", "l<<", "xx&") and ak not in ("name", "+", "cond", "&") and uk != "alone":
            continue
        yield item("%s:%s:%s" % (bk, ak, uk), b, [a], u)
    # two parameters
    for o1, o2 in itertools.product(NUM + CMP, NUM):
        for ak, a in args.items():
            if not thorough and ak not in ("+", "cond", "<<", "neg"):
                continue
            for k, b in (("xy", B(o1, X, Y)), ("yx", B(o1, Y, X))):
                yield item("two:%s:%s:%s:%s" % (k, o1, o2, ak), b, [a, B(o2, V("b"), V("d"))])
    # conditions
    cs = {"p": V("p"), "q": V("q"), "not": ("u", "!", V("q")), "or": B("||", V("q"), V("p")), "and": B("&&", V("p"), V("q")), "cmp": B("<", V("b"), V("a")), "eq": B("==", V("p"), V("q"))}
    cb = {"id": X, "not": ("u", "!", X), "and": B("&&", X, V("p")), "or": B("||", V("q"), X), "eq": B("==", X, V("q")), "tern": ("t", X, V("a"), V("b")), "xy": B("&&", X, Y), "xoy": B("||", X, Y), "tern2": ("t", X, ("f", V("a")), ("f", V("b")))}
    cu = {"alone": None, "not": lambda t, e: ("!%s" % t, ("u", "!", e)), "and": lambda t, e: ("%s && q" % t, B("&&", e, V("q"))), "or": lambda t, e: ("p || %s" % t, B("||", V("p"), e))}
    for (bk, b), (k1, c1), (k2, c2), (uk, u) in itertools.product(cb.items(), cs.items(), cs.items(), cu.items()):
        two = bk in ("xy", "xoy")
        if not two and k2 != "p" or bk.startswith("tern") and uk != "alone":
            continue
        yield item("cond:%s:%s:%s:%s" % (bk, k1, k2, uk), b, [c1, c2][:1 + two], u)
    for ck, c in cs.items():
        for (ak, a), uk in itertools.product(args.items(), ("alone", "l*", "r-", "neg")):
            yield item("ternary:%s:%s:%s" % (ck, ak, uk), ("t", X, Y, Z), [c, a, V("b")], uses[uk])


def forms(thorough):
    """the three ways to write a definition"""
    for f in range(3):
        for bk, b in (("x", X), ("+", B("+", X, ("c", 1))), ("-y", B("-", Y, X)), ("f", ("f", X)), ("neg", ("u", "-", X)), ("t", ("t", B("<", X, Y), X, Y))):
            for uk, u in (("alone", None), ("l*", lambda t, e: (t + " * c", B("*", e, V("c")))), ("r-", lambda t, e: ("c - " + t, B("-", V("c"), e))), ("call", lambda t, e: ("$f(%s)" % t, ("f", e)))):
                for ak, a in (("name", V("a")), ("+", B("+", V("a"), V("b"))), ("call", ("f", V("a")))):
                    yield item("%d:%s:%s:%s" % (f, bk, uk, ak), b, [a, B("-", V("c"), V("d"))], u, f)
    # no parameters
    for v in (0, 1, 7, 100):
        for op in NUM:
            for l in (True, False):
                e = B(op, ("c", v), V("b")) if l else B(op, V("a"), ("c", v))
                try:
                    s, tr = show("$m! %s b" % op if l else "a %s $m!" % op, e)
                except Undefined:
                    continue
                yield "const:%d:%s:%d" % (v, op, l), "macro $m %d`i32\n" % v, used(s) + s, tr
        for op in NUM:
            for w in (1, 3):
                try:
                    s, tr = show("$m! %s $n!" % op, B(op, ("c", v), ("c", w)))
                except Undefined:
                    continue
                yield "consts:%d:%s:%d" % (v, op, w), "macro $m %d`i32\nmacro $n %d`i32\n" % (v, w), s, tr


def nested(thorough):
    """macros that call macros; parameters of the same name at each level are different things"""
    inner = {"+": B("+", X, ("c", 1)), "-": B("-", Y, X), "*": B("*", X, Y), "f": B("+", ("f", X), ("f", Y)), "t": ("t", B("<", X, Y), Y, X)}
    for (ik, i), (jk, j) in itertools.product(inner.items(), inner.items()):
        for args in (("x!", "y!"), ("y!", "x!"), ("x!", "x!"), ("x! + y!", "y!"), ("y!", "x! - c"), ("7`i32", "x!")):
            T = {"x!": X, "y!": Y, "x! + y!": B("+", X, Y), "x! - c": B("-", X, V("c")), "7`i32": ("c", 7)}
            outer = B("-", put(i, [T[args[0]], T[args[1]]]), put(j, [Y, X]))
            for ak, (a1, a2) in (("names", (V("a"), V("b"))), ("sums", (B("+", V("a"), V("b")), B("-", V("c"), V("d")))), ("calls", (("f", V("a")), ("f", V("b"))))):
                tree = put(outer, [a1, a2])
                try:
                    s, tr = show("$o!(%s, %s)" % (text(a1), text(a2)), tree)
                except Undefined:
                    continue
                d = "macro $i(x, y) %s\nmacro $j(x, y) %s\nmacro $o(x, y) $i!(%s, %s) - $j!(y!, x!)\n" % (text(i), text(j), args[0], args[1])
                yield "%s:%s:%s:%s" % (ik, jk, "/".join(args), ak), d + FDECL, used(s + text(tree)) + s, tr
    # calls as arguments of calls
    for (ik, i), (jk, j) in itertools.product(inner.items(), inner.items()):
        for pos in (0, 1):
            a = put(j, [V("a"), B("+", V("b"), V("c"))])
            args = [a, V("b")] if pos == 0 else [V("b"), a]
            tx = ["$j!(a, b + c)", "b"]
            try:
                s, tr = show("$i!(%s)" % ", ".join(tx if pos == 0 else tx[::-1]), put(i, args))
            except Undefined:
                continue
            yield "arg:%s:%s:%d" % (ik, jk, pos), "macro $i(x, y) %s\nmacro $j(x, y) %s\n" % (text(i), text(j)) + FDECL, used(s) + s, tr
    # depth
    for n in range(1, 7 if thorough else 5):
        d = "macro $m0(x) x! * 2`i32\n" + "".join("macro $m%d(x) $m%d!(x! + 1`i32) - x!\n" % (k, k - 1) for k in range(1, n + 1))
        f = lambda k, x: x * 2 if k == 0 else f(k - 1, x + 1) - x
        yield "depth:%d" % n, d, "var a = 13`i32; ev($m%d!(a + 1`i32))\n" % n, [f(n, 14)]


def statements(thorough):
    """definitions of several statements, in every place a statement can be"""
    S = {
        "ev": ("ev(x!);", lambda st: [st["x"]]), "evy": ("ev(y! + 1`i32)", lambda st: [st["y"] + 1]), "two": ("{ ev(x!); ev(y!) }", lambda st: [st["x"], st["y"]]),
        "if": ("if (x! > y!) { ev(x!) } else { ev(y!) }", lambda st: [max(st["x"], st["y"])]), "ifn": ("if (x! < y!) { ev(5`i32) }", lambda st: [5] if st["x"] < st["y"] else []),
        "for": ("for (const i: 0..2) { ev(x! + (i as i32)) }", lambda st: [st["x"], st["x"] + 1]), "while": ("while (n < 2`i32) { ev(n); n += 1`i32 }", lambda st: loopn(st)), "set": ("n = x!;", lambda st: st.__setitem__("n", st["x"]) or []), "add": ("n += y!;", lambda st: st.__setitem__("n", st["n"] + st["y"]) or []),
        "sw": ("switch (y!) { case 3`i32 => ev(33`i32) default => ev(y!) }", lambda st: [33 if st["y"] == 3 else st["y"]]), "mac": ("$k!(y!, x!);", lambda st: [st["y"], st["x"]]), "one": ("$l!(x!);", lambda st: [st["x"]]), "var": ("{ var t = x! + y!; ev(t) }", lambda st: [st["x"] + st["y"]]), "inc": ("n++;", lambda st: st.__setitem__("n", st["n"] + 1) or []),
    }

    def loopn(st):
        o = []
        while st["n"] < 2:
            o.append(st["n"])
            st["n"] += 1
        return o
    pre = "macro $k(x, y) ( ev(x!)\n ev(y!) )\nmacro $l(x) ( ev(x!) )\n" + FDECL
    A = [("a", "b", 13, 3), ("a + b", "c - d", 16, 5), ("2`i32", "b", 2, 3)]

    def run(seq, ax, st=None):
        st = st or {"n": 0}
        st["x"], st["y"] = ax[2], ax[3]
        o = []
        for k in seq:
            if st["x"] == 13 and k in ("set",):
                st["x"] = ax[2]
            o += S[k][1](st)
        return o, st
    for n in (1, 2, 3):
        for seq in itertools.product(S, repeat=n):
            if n == 3 and not thorough and (seq[0] not in ("ev", "if", "mac", "add") or seq[2] not in ("ev", "set", "mac", "for", "var")):
                continue
            for ax in A[:1] if n == 3 else A:
                d = pre + "macro $m(x, y) ( %s )\n" % "\n ".join(S[k][0] for k in seq)
                o, st = run(seq, ax)
                call = "$m!(%s, %s)" % ax[:2]
                key = "%s:%s" % (",".join(seq), ax[0])
                v = used(call) + "var n = 0`i32; "
                yield key + ":block", d, v + "ev(100`i32); %s\n ev(101`i32); ev(n)\n" % call, [100] + o + [101, st["n"]]
                if n == 3 and not thorough and seq[0] != "ev":
                    continue
                if n == 1 and seq[0] in ("if", "ifn"):
                    continue
                yield key + ":if", d, v + "if (n == 0`i32) %s\n ev(101`i32); if (n == 77`i32) %s\n ev(n)\n" % (call, call), o + [101, st["n"]]
                yield key + ":else", d, v + "if (n == 77`i32) %s else %s\n ev(n)\n" % (call, call), o + [st["n"]]
                yield key + ":else2", d, v + "if (n == 77`i32) { ev(1`i32) } else %s\n ev(n)\n" % call, o + [st["n"]]
                o2, st2 = run(seq, ax)
                o3, st3 = run(seq, ax, st2)
                yield key + ":for", d, v + "for (const j$: 0..2) %s\n ev(n)\n" % call, o2 + o3 + [st3["n"]]
                yield key + ":twice", d, v + "%s\n %s\n ev(n)\n" % (call, call), o2 + o3 + [st3["n"]]
                yield key + ":body", d, v + "for (const j$: 0..2) { %s\n ev(8`i32) }\n ev(n)\n" % call, o2 + [8] + o3 + [8, st3["n"]]
                yield key + ":case", d, v + "switch (n) { case 0`i32 => %s\n default => ev(4`i32) }\n ev(n)\n" % call, o + [st["n"]]
                yield key + ":case2", d, v + "switch (n) { case 0`i32 => { ev(7`i32); %s }\n default => ev(4`i32) }\n ev(n)\n" % call, [7] + o + [st["n"]]
                yield key + ":default", d, v + "switch (n) { case 5`i32 => ev(4`i32)\n default => %s }\n ev(n)\n" % call, o + [st["n"]]
                yield key + ":inblock", d, v + "{ %s }\n ev(n)\n" % call, o + [st["n"]]
                yield key + ":through", d + "macro $w(x, y) ( ev(55`i32)\n $m!(x!, y!)\n ev(56`i32) )\n", v + "$w!(%s, %s)\n ev(n)\n" % ax[:2], [55] + o + [56, st["n"]]
                yield key + ":throughonly", d + "macro $w(x, y) $m!(x!, y!)\n", v + "$w!(%s, %s)\n ev(n)\n" % ax[:2], o + [st["n"]]
                yield key + ":braces", d + "macro $w(x, y) { $m!(x!, y!)\n ev(57`i32) }\n", v + "$w!(%s, %s)\n ev(n)\n" % ax[:2], o + [57, st["n"]]
    # jumps belong to the function and the loop the macro is used in
    for k, (b, tr) in {"return": ("return x!", [5]), "retev": ("ev(1`i32)\n return x! + 1`i32", [1, 6])}.items():
        d = "macro $m(x) ( %s )\nfunc $g(a: i32): i32 { if (a == 1`i32) { $m!(5`i32) }\n return 9`i32 }\nfunc $h(): i32 { $m!(5`i32) }\nfunc $e(a: i32): i32 { if (a == 1`i32) $m!(5`i32)\n return 9`i32 }\n" % b
        yield "jump:" + k, d, "ev($g(1`i32)); ev($g(2`i32)); ev($h()); ev($e(1`i32)); ev($e(0`i32))\n", tr + [9] + tr + tr + [9]
    for j in ("break", "continue"):
        d = "macro $m(x) ( ev(x!)\n %s )\n" % j
        yield "jump:" + j, d, "for (const i: 0..3) { if (i == 1) { $m!(7`i32) }\n ev(i as i32) }\n", [0, 7] + ([2] if j == "continue" else [])
        yield "jumpbare:" + j, d, "for (const i: 0..3) { if (i == 1) $m!(7`i32)\n ev(i as i32) }\n", [0, 7] + ([2] if j == "continue" else [])
    # nothing
    d = "macro $m(x) ()\n"
    yield "nothing", d, "var a = 1`i32; ev(1`i32); $m!(a)\n ev(2`i32)\n", [1, 2]


def kinds(thorough):
    """what an argument can be"""
    T = "struct S$ { a: i32; b: i32; func g(x: i32): i32 { return a * x } func `[]`(x: i32): i32 { return a + x } }\nclass K$ { a: i32; func `init`(x: i32) { a = x } func g(x: i32): i32 { return a - x } }\n"
    for k, (m, st, tr) in {
        "set": ("(x, y) ( x! = y! )", "var a = 1`i32; $m!(a, 5`i32)\n ev(a)", [5]), "setelem": ("(x, y) ( x! = y! )", "var a = [1`i32, 2`i32]; $m!(a.[1], 5`i32)\n ev(a.[0] + a.[1])", [6]), "setmember": ("(x, y) ( x! = y! )", "var s = S${a: 1, b: 2}; $m!(s.b, 5`i32)\n ev(s.a + s.b)", [6]),
        "addto": ("(x, y) ( x! += y! )", "var a = 1`i32; var b = 2`i32; $m!(a, b + 3`i32)\n ev(a)", [6]), "mulby": ("(x, y) ( x! *= y! )", "var a = 2`i32; var b = 2`i32; $m!(a, b + 3`i32)\n ev(a)", [10]), "swap": ("(x, y) ( { var t = x!; x! = y!; y! = t } )", "var a = 1`i32; var b = 2`i32; $m!(a, b)\n ev(a * 10`i32 + b)", [21]),
        "member": ("(x) x!.a", "var s = S${a: 4, b: 2}; ev($m!(s) + 1`i32)", [5]), "memberof": ("(x) x!.a", "var k = K$(8`i32); ev($m!(k) * 2`i32)", [16]), "method": ("(x, y) x!.g(y!)", "var s = S${a: 4, b: 2}; ev($m!(s, 2`i32 + s.b))", [16]), "methodk": ("(x, y) x!.g(y! - 1`i32)", "var k = K$(8`i32); ev($m!(k, 3`i32))", [6]),
        "index": ("(x, y) x!.[y!]", "var a = [4`i32, 6`i32, 8`i32]; var i = 1`i32; ev($m!(a, i + 1`i32))", [8]), "overidx": ("(x, y) x!.[y!]", "var s = S${a: 4, b: 2}; ev($m!(s, s.b + 1`i32))", [7]), "deref": ("(x) *x!", "var a = 5`i32; var p = ptrof a; ev($m!(p) + 1`i32)", [6]), "ptr": ("(x) ptrof x!", "var a = 5`i32; var p = $m!(a); ev(*p)", [5]),
        "string": ("(x) x!", "var s: string = $m!(\"abc\"); ev(len!(s) as i32)", [3]), "cast": ("(x) = (((x!) as i8) as i32)", "var a = 300`i32; var b = 5`i32; ev($m!(a + b))", [49]), "castarg": ("(x) x! + 1`i32", "var a = 300`i32; ev($m!(a as i8 as i32))", [45]),
        "tuple": ("(x, y) = (x!, y!)", "var t = $m!(5`i32, 6`i32); ev(t.0 * 10`i32 + t.1)", [56]), "array": ("(x, y) [x!, y!]", "var t = $m!(5`i32, 6`i32); ev(t.[0] * 10`i32 + t.[1])", [56]), "struct": ("(x, y) S${a: x!, b: y!}", "var t = $m!(5`i32, 6`i32); ev(t.a * 10`i32 + t.b)", [56]), "new": ("(x) K$(x!)", "var t = $m!(5`i32 + 1`i32); ev(t.a)", [6]),
        "fstring": ("(x) f\"<${x!}>\"", "var a = 5`i32; var s = $m!(a); ev(s.size() as i32)", [3]), "wide": ("(x) x! + 1`i64", "var a = 5000000000`i64; ev(($m!(a) / 1000000000`i64) as i32)", [5]), "float": ("(x) x! * 2.0", "var a = 2.5; ev($m!(a + 1.0) as i32)", [7]), "neglit": ("(x) 5`i32 - x!", "ev($m!(-3`i32))", [8]), "neglit2": ("(x) -x!", "ev($m!(-3`i32))", [3]),
        "range": ("(x, y) ( for (const i: x!..y!) { ev(i as i32) } )", "var a = 2`i32; $m!(a - 1`i32, a + 1`i32)", [1, 2]), "catch": ("(x) x! + 1`i32", "var a = $m!(($t(3`i32) catch { yield 8`i32 })); ev(a)", [9]), "opt": ("(x) !x!", "var a: i32? = null; if ($m!(a)) { ev(1`i32) } else { ev(2`i32) }", [1]),
    }.items():
        yield k, "macro $m" + m + "\n" + T + FDECL + ("exception E$() => \"e\"\nfunc $t(x: i32): !i32 { if (x == 3`i32) { raise E$() }\n return x }\n" if k == "catch" else ""), st + "\n", tr
    # variadic
    d = "func $s1(a: i32): void { ev(a) }\nfunc $s2(a: i32, b: i32): void { ev(a); ev(b) }\nfunc $s3(a: i32, b: i32, c: i32): void { ev(a); ev(b); ev(c) }\n"
    for n in (1, 2, 3):
        vs = ["a", "b + 1`i32", "c - d"][:n]
        yield "variadic:%d" % n, d + "macro $m(...x) $s%d(x!)\n" % n, used(" ".join(vs)) + "$m!(%s)\n" % ", ".join(vs), [13, 4, 5][:n]
        yield "variadic1:%d" % n, d + "macro $m(y, ...x) ( ev(y! * 2`i32)\n $s%d(x!) )\n" % n, used(" ".join(vs)) + "$m!(d + 1`i32, %s)\n".replace("d + 1`i32", "9`i32") % ", ".join(vs), [18] + [13, 4, 5][:n]
        if n > 1:
            yield "variadicf:%d" % n, d + "macro $m(y, ...x) $s%d(y!, x!)\n" % n, used(" ".join(vs)) + "$m!(%s)\n" % ", ".join(vs), [13, 4, 5][:n]
    # conditions known to the preprocessor
    for a, b in itertools.product((0, 1, 5), repeat=2):
        for op in ("==", "!=", "<", ">", "<=", ">="):
            v = eval("%d %s %d" % (a, op, b))
            d = "macro $m %d\n" % a
            yield "if:%d%s%d" % (a, op, b), d, "ev(1`i32)\n #if ($m! %s %d) { ev(2`i32); ev(3`i32) } else { ev(4`i32); ev(5`i32) }\n ev(6`i32)\n" % (op, b), [1] + ([2, 3] if v else [4, 5]) + [6]
            yield "ifonly:%d%s%d" % (a, op, b), d, "ev(1`i32)\n #if ($m! %s %d) { ev(2`i32); ev(3`i32) }\n ev(6`i32)\n" % (op, b), [1] + ([2, 3] if v else []) + [6]
            yield "sel:%d%s%d" % (a, op, b), d, "ev($m! %s %d ? 7`i32 : 8`i32)\n" % (op, b), [7 if v else 8]
    yield "variadic:0", "func $s0(): void { ev(77`i32) }\nmacro $m(...x) $s0(x!)\n", "$m!()\n", [77]
    yield "variadic1:0", "func $s1(a: i32): void { ev(a) }\nmacro $m(y, ...x) $s1(y!, x!)\n", "$m!(5`i32)\n", [5]
    for v in range(5):
        for ops in itertools.product(("==", "!=", "<", ">="), repeat=3):
            ts = [eval("%d %s %d" % (v, o, k + 1)) for k, o in enumerate(ops)]
            c = ["$m! %s %d" % (o, k + 1) for k, o in enumerate(ops)]
            d = "macro $m %d\n" % v
            w = 10 if ts[0] else 20 if ts[1] else 30 if ts[2] else 40
            yield "chain:%d:%s" % (v, "".join(ops)), d, "ev(%s ? 10`i32 : %s ? 20`i32 : %s ? 30`i32 : 40`i32)\n" % tuple(c), [w]
            w = (10 if ts[2] else 20) if ts[0] and ts[1] else 30 if ts[0] else 40
            yield "inner:%d:%s" % (v, "".join(ops)), d, "ev(%s ? (%s ? (%s ? 10`i32 : 20`i32) : 30`i32) : 40`i32)\n" % tuple(c), [w]
            yield "elseif:%d:%s" % (v, "".join(ops)), d, "#if (%s) { ev(10`i32); ev(11`i32) } else #if (%s) { ev(20`i32); ev(21`i32) } else { #if (%s) { ev(30`i32); ev(31`i32) } }\n" % tuple(c), [10, 11] if ts[0] else [20, 21] if ts[1] else [30, 31] if ts[2] else []
    for a, b, op in itertools.product((0, 1, 3, 7, 12), (1, 2, 3, 5), ("+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^")):
        v = ev(B(op, ("c", a), ("c", b)), [])
        d = "macro $m %d\nmacro $n %d\n" % (a, b)
        for w in (v, v + 1):
            yield "calc:%d%s%d=%d" % (a, op, b, w), d, "#if (($m! %s $n!) == %d) { ev(1`i32); ev(2`i32) } else { ev(3`i32); ev(4`i32) }\n" % (op, w), [1, 2] if v == w else [3, 4]
    for a, b in itertools.product((0, 1), repeat=2):
        t = ("false", "true")
        for op in ("&&", "||"):
            v = (a and b) if op == "&&" else (a or b)
            yield "logic:%d%s%d" % (a, op, b), "macro $m %s\nmacro $n %s\n" % (t[a], t[b]), "#if ($m! %s $n!) { ev(1`i32); ev(2`i32) } else { ev(3`i32); ev(4`i32) }\n#if (!$m! %s $n!) { ev(1`i32); ev(2`i32) } else { ev(3`i32); ev(4`i32) }\n" % (op, op), ([1, 2] if v else [3, 4]) + ([1, 2] if ((not a) and b if op == "&&" else (not a) or b) else [3, 4])
    for n in ("$nope", "$m"):
        yield "undefined:" + n, "", "#if (defined %s) { ev(1`i32); ev(2`i32) } else { ev(3`i32); ev(4`i32) }\n#if (!defined %s) { ev(1`i32); ev(2`i32) } else { ev(3`i32); ev(4`i32) }\n" % (n, n), [3, 4, 1, 2]


def compound(thorough):
    """`x.[i] op= v` through the index operators computes x.[i] op (v)"""
    body = "struct H$ { n: i32\n func `[]`(i: i32): i32 { return n + i } func `[]=`(i: i32, v: i32): void { n = v } }\n"
    for op in NUM:
        for r in [V("b")] + [B(o, V("b"), V("d")) for o in NUM] + [("t", V("q"), V("a"), V("d"))]:
            tr = []
            try:
                v = ev(B(op, ("c", 42), r), tr)
            except Undefined:
                continue
            yield "%s:%s" % (op, text(r)), body, used(text(r)) + "var h = H${n: 40}; h.[2`i32] %s= %s; ev(h.n)\n" % (op, text(r)), [v]


FAMS = dict(operands=operands, forms=forms, nested=nested, statements=statements, kinds=kinds, compound=compound)


def body():
    c = Check("C17")
    cxy = build_compiler()
    only = os.environ.get("FAM")
    ps, nfam = [], {}
    for name, f in FAMS.items():
        if only and name not in only.split(","):
            continue
        for it in f(c.thorough):
            if it is None:
                continue
            k, d, b, tr = it
            i = len(ps)
            sub = lambda s: __import__("re").sub(r"\$(?!\{)(\w*)", lambda m: "%s_%d" % (m.group(1) or "x", i), __import__("re").sub(r"([A-Z])\$", r"\g<1>_%d" % i, s))
            g = lambda bits, tr=tr: list(tr)
            ps.append(dict(id=i, decl=sub(d) + "func case%d() { %s }\n" % (i, sub(b)), call="case%d()" % i, run=g, sig=signature(g), key="%s:%s" % (name, k)))
            nfam[name] = nfam.get(name, 0) + 1
    c.cov["programs"] = len(ps)
    c.cov["families"] = nfam
    b = Batch(c, cxy)
    b.run_all(ps, size=int(os.environ.get("BS", "250")))
    for p in ps[:: max(1, len(ps) // 6)]:
        c.sample(p["key"])
    c.finish()


if __name__ == "__main__":
    main(body)
