"""Exhaustive enumeration of small typed programs over all tuples of listed input values, compared with
a reference in C (lib/xv.c)."""
import os, re, shutil
from vf import *

XT = ["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64", "bool", "wchar", "char"]
HEAD = '@__cc "xv.c"\n' + "//NATIVES\n" + "pub extern func xv_next(id: i32): i32\n" + "".join(
    "pub extern func x%s(k: i32): %s\n" % (t, t) for t in XT) + \
    "pub extern func xsmall(k: i32): i32\npub extern func xsh(k: i32): i32\n" \
    "pub extern func oi(v: i64): void\npub extern func of(v: f64): void\npub extern func ob(v: bool): void\n"


class Values:
    """cases: dicts id, key, ins (type names), decl (cxy, defines f<id>), ref (C statements)."""

    def __init__(self, check, cxy, head="", natives=None, refhead="", flags=("-O0", "-fwrapv", "-lm"), args=(), imports="", tables=""):
        self.c, self.cxy, self.head, self.natives, self.refhead = check, cxy, head, natives or {}, refhead
        self.tables = tables
        self.flags, self.args, self.imports = list(flags), list(args), imports

    def source(self, cases):
        h = HEAD.replace("//NATIVES\n", "".join('@__cc "%s"\n' % n for n in self.natives if n.endswith(".c")))
        s = [self.imports, h, self.head] + [c["decl"] for c in cases] + ["func main() {\n"]
        for c in cases:
            s.append("  while (xv_next(%d`i32) != 0) { %s }\n" % (c["id"], c.get("call", "fn_%d()" % c["id"])))
        s.append("}\n")
        return "".join(s)

    def native(self, cases):
        x = open(os.path.join(LIB, "xv.c")).read()
        s = [x.replace("#ifndef XV_VALUES", self.tables + "#ifndef XV_VALUES"), self.refhead]
        for c in cases:
            s.append("static void r%d(void) { %s }\n" % (c["id"], c["ref"]))
        s.append("static const Case cases[] = {\n")
        for c in cases:
            s.append("{%d, r%d, %d, {%s}},\n" % (c["id"], c["id"], len(c["ins"]), ",".join("T_" + t for t in c["ins"]) or "0"))
        s.append("};\nstatic const int ncases = %d;\n" % len(cases))
        return "".join(s)

    def run_batch(self, name, cases, depth=0):
        d = self.c.dir(name)
        nat = dict(self.natives)
        nat["xv.c"] = self.native(cases)
        r = cxy_build(self.cxy, d, self.source(cases), nat, args=self.args)
        if not r.ok:
            shutil.rmtree(d, ignore_errors=True)
            if len(cases) == 1:
                return [(cases[0], "rejected", "cxy does not compile this program (rc=%s)\n%s" % (r.rc, r.out[-1500:]))]
            m = len(cases) // 2
            a = self.run_batch(name + "a", cases[:m])
            return a if len(a) >= 3 and not os.environ.get("VF_ALL") else a + self.run_batch(name + "b", cases[m:])
        app = rebuild_app(d, self.flags) if self.flags else os.path.join(d, "app")
        rc, o, e, _ = run([app], cwd=d, timeout=300)
        o = o.decode(errors="replace")
        res = {int(a): (int(b), s) for a, b, s in re.findall(r"^R (\d+) (\d+) \d+ (\w+)$", o, re.M)}
        why = {int(a): t for a, t in re.findall(r"^X (\d+) (.*)$", o, re.M)}
        bad = []
        for c in cases:
            if c["id"] in res and res[c["id"]][1] == "ok":
                n = res[c["id"]][0]
                self.c.count(states=n, transitions=n, traces=n)
            elif c["id"] in why:
                bad.append((c, why[c["id"]].split()[0], why[c["id"]]))
            elif not bad or bad[-1][1] in ("differs",):
                bad.append((c, "no-result", "no result (rc=%s) %s" % (rc, e.decode(errors="replace")[-800:])))
        shutil.rmtree(d, ignore_errors=True)
        return bad

    def run_all(self, cases, size=200, label="v", maxviol=12):
        for i, c in enumerate(cases):
            c.setdefault("id", i)
        groups = [cases[i:i + size] for i in range(0, len(cases), size)]
        out = pmap(lambda g: self.run_batch("%s%d" % (label, g[0]), g[1]), list(enumerate(groups)))
        n = 0
        for bad in out:
            for c, kind, text in bad:
                n += 1
                if n <= maxviol or os.environ.get("VF_ALL"):
                    self.c.violation(c["key"] + ":" + kind, "%s %s: %s" % (c["key"], kind, text.splitlines()[0]),
                                     text + "\n\nprogram:\n" + c["decl"] + "\nreference: " + c["ref"])
        return n
