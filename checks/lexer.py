"""C01: source text is tokenised as written, and lexing always terminates."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *
from xv import Values

CORE = ["src/cxy/core/%s.c" % f for f in ("alloc", "array", "format", "hash", "hmap", "htable", "log", "mempool", "sb", "strpool", "utils", "e4c") if os.path.exists(os.path.join(REPO, "src/cxy/core/%s.c" % f))]


def lexing(c):
    exe = build_harness("lexer", os.path.join(VERIF, "checks/c/lexer.c"), CORE + ["src/cxy/lang/frontend/lexer.c"])
    jobs = []
    for fam, depth in (("ops", 4 if c.thorough else 3), ("num", 6 if c.thorough else 4), ("str", 6 if c.thorough else 5),
                       ("frag", 5 if c.thorough else 4), ("kw", 0), ("chr", 1 if c.thorough else 97), ("byte", 0), ("int", 0)):
        for s in range(NCPU):
            jobs.append((fam, depth, s))
    out = pmap(lambda j: (j, run([exe, j[0], str(j[1]), str(j[2]), str(NCPU)], timeout=3000, env={"ASAN_OPTIONS": "detect_leaks=0:handle_abort=0:handle_segv=0"})), jobs)
    per = {}
    for (fam, depth, s), (rc, o, e, _) in out:
        o = o.decode(errors="replace")
        for f, why, hx in re.findall(r"^X (\S+) (\S+) ([0-9a-f]*)$", o, re.M):
            text = bytes.fromhex(hx)
            c.violation("%s:%s:%s" % (f, why, hx), "%s on source text %r" % (why, text), "text: %r\nreplay: %s hex %s 0 1" % (text, "lexer harness", hx))
        m = re.search(r"^N (\d+) (\d+)$", o, re.M)
        if m:
            per[fam] = per.get(fam, 0) + int(m.group(1))
            c.count(states=int(m.group(1)), transitions=int(m.group(2)), traces=int(m.group(1)))
        elif not re.search("^X ", o, re.M):
            c.violation("%s:stopped" % fam, "the lexer harness stopped (rc=%s)" % rc, e.decode(errors="replace")[-3000:])
    c.cov["texts"] = per


# ---- literals through the whole compiler: what the program sees
def strvalue(s):
    """value of the source text between the quotes (list of bytes), or None if not constrained"""
    out, b, i = bytearray(), s.encode(), 0
    simple = {ord(k): v for k, v in zip("ntvrab$\"'\\", b"\n\t\v\r\a\b$\"'\\")}
    hexd = b"0123456789abcdefABCDEF"
    while i < len(b):
        if b[i] != 0x5c:
            out.append(b[i])
            i += 1
            continue
        i += 1
        if i >= len(b):
            return None
        if b[i] in simple:
            out.append(simple[b[i]])
            i += 1
        elif b[i] == ord("x"):
            k = i + 1
            while k < len(b) and k < i + 3 and b[k] in hexd:
                k += 1
            if k == i + 1:
                return None
            out.append(int(b[i + 1:k], 16))
            i = k
        elif b[i] in b"01234567":
            k = i
            while k < len(b) and k < i + 3 and b[k] in b"01234567":
                k += 1
            v = int(b[i:k], 8)
            if v > 255:
                return None
            out.append(v)
            i = k
        else:
            return None
    return bytes(out)


def literals(c, cxy):
    import itertools
    atoms = ["a", "7", "\\n", "\\\\", "\\\"", "'", "\\x41", "\\x7", "\\101", "\\'", "%", "?", "é", "\\$", "{", "${", "\\t", " ", "\\xff", "x", "€", "/*", "//"]
    texts = [""] + atoms + ["".join(t) for n in ((2, 3) if c.thorough else (2,)) for t in itertools.product(atoms, repeat=n)]
    texts += ["\\r\\v\\a\\b", "a" * 300, "\\\\" * 9, "\\x00", "\\0", "0" * 40]
    cases = []

    def add(kind, expr, val, pre=""):
        val = val.split(b"\0")[0]
        i = len(cases)
        cases.append(dict(id=i, key="%s:%s" % (kind, expr), ins=[], decl="func fn_%d(): void { %sosv(%s); }\n" % (i, pre, expr),
                          ref="osv(\"%s\");" % "".join("\\%03o" % x for x in val)))
    for t in texts:
        v = strvalue(t)
        if v is None:
            continue
        add("str", '"%s"' % t, v)
        if t and not t.endswith('"') and '"' not in t:
            add("multi", '"""%s"""' % t, v)
    for t in atoms:
        for u in atoms:
            if "\\n" in (t, u) and not u.endswith('"'):
                add("multiline", '"""%s\n%s"""' % (t, u), strvalue(t) + b"\n" + strvalue(u))
    Values(c, cxy, head="pub extern func osv(s: string): void\n",
           refhead="void osv(const char *s) { u64 h = 14695981039346656037ull; oi((i64)strlen(s)); for (; *s; s++) h = (h ^ (u8)*s) * 1099511628211ull; oi((i64)h); }\n"
           ).run_all(cases, size=150, label="s")
    c.cov["string_literals"] = len(cases)
    # formatted strings: text and values in order
    parts = ["a", " ", "\\\"", "\\x41", "$", "é", "\\\\", "}"]
    cases2 = []
    i = 0
    for n in (1, 2, 3):
        for seq in itertools.product(parts[:5] + ["V", "W"] if n == 3 else parts + ["V", "W"], repeat=n):
            src = "".join({"V": "${v}", "W": "${w + 1}"}.get(x, x) for x in seq)
            if "$${" in src or src.endswith("$") and False:
                continue
            val = b"".join({"V": b"42", "W": b"8"}.get(x) or strvalue(x) for x in seq)
            cases2.append(dict(id=i, key="fstr:%s" % src, ins=[], decl="func fn_%d(): void { const v = 42`i32; const w = 7`i32; const s = f\"%s\"; osv(%s); }\n" % (i, src, "s.__str().s" if "${" in src else "s"),
                               ref="osv(\"%s\");" % "".join("\\%03o" % x for x in val)))
            i += 1
    Values(c, cxy, head="pub extern func osv(s: string): void\n",
           refhead="void osv(const char *s) { u64 h = 14695981039346656037ull; oi((i64)strlen(s)); for (; *s; s++) h = (h ^ (u8)*s) * 1099511628211ull; oi((i64)h); }\n"
           ).run_all(cases2, size=100, label="f")
    c.cov["formatted_strings"] = len(cases2)


def body():
    c = Check("C01")
    cxy = build_compiler()
    if os.environ.get("FAM", "lex") == "lex":
        lexing(c)
    if os.environ.get("FAM", "lit") == "lit":
        literals(c, cxy)
    c.assumptions = ["string and character literals that cross a line end, non-UTF-8 character literals and unknown escapes are only required to be handled safely"]
    c.finish()


main(body)
