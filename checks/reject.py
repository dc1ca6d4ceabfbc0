"""C03: ill-typed programs are rejected with a diagnostic where they go wrong, well-typed ones are accepted.

Every combination of a rule's ingredients (type x type x context, operator x type x type, binding x use, ...) is one
small function with a verdict from the rules below; the real compiler is run on all of them.
"""
import collections, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import *
import rules

ERR = re.compile(r"^error: (.*)\n  in (\S+?):(\d+):", re.M)


def lay(items):
    """-> source, [(first line, last line)]"""
    out, spans, line = [rules.HEAD], [], rules.HEAD.count("\n") + 1
    for k, it in enumerate(items):
        t = re.sub(r"\$([a-z]\w*)", r"\g<1>x%d" % it["id"], it["decl"] + it["body"]).replace("$", "x%d" % it["id"])
        if not t.endswith("\n"):
            t += "\n"
        spans.append((line, line + t.count("\n") - 1))
        line += t.count("\n")
        out.append(t)
    calls = "".join("cx%d(); " % it["id"] for it in items if it["call"])
    out.append("func main() { var k = 0`i32; if (k > 1) { %s} }\n" % calls)
    return "".join(out), spans


class Runner:
    def __init__(self, check, cxy):
        self.c, self.cxy, self.seq = check, cxy, 0

    def go(self, name, items, stage=None):
        d = self.c.dir(name)
        src, spans = lay(items)
        if stage:
            write(os.path.join(d, "a.cxy"), src)
            try:
                r = sh(SETARCH + [self.cxy, "dev", "--no-progress", "--no-color", "--max-errors=100000", "--stdlib", SRC, "--with-mm", "--last-stage=" + stage, "a.cxy"], cwd=d, timeout=120)
                rc, out = r.returncode, r.stdout.decode(errors="replace")
            except subprocess.TimeoutExpired:
                rc, out = -999, "TIMEOUT"
        else:
            r = cxy_build(self.cxy, d, src, args=["--max-errors=100000"])
            rc, out = r.rc, r.out
            if rc == 0 and not r.ok:
                rc = 77
        made = os.path.exists(os.path.join(d, "app"))
        shutil.rmtree(d, True)
        locs = [(m.group(1), int(m.group(3))) for m in ERR.finditer(out) if m.group(2).endswith("a.cxy")]
        return rc, out, locs, spans, made, src

    def single(self, it):
        """'ok' | 'rejected' | other text (what went wrong)"""
        self.seq += 1
        rc, out, locs, spans, made, src = self.go("s%d" % it["id"], [it])
        a, b = spans[0]
        brief = " | ".join(re.findall(r"^error: .*|.*runtime error.*|.*Assert.*|.*error: .*", out, re.M)[:3])[:300]
        if rc == 0:
            return "ok", brief, src
        if rc == 1 and made:
            return "rejected but a program was produced", brief, src
        if rc == 1 and locs:
            if any(a <= l <= b for m, l in locs):
                return "rejected", brief, src
            return "rejected, but no error points at it", brief, src
        if rc in (1, 77):
            # the C compiler or the linker complained
            return "accepted, but the generated C is invalid", brief or out[-300:], src
        return "crashed the compiler (rc=%s)" % rc, brief or out[-300:], src

    def judge(self, it):
        got, brief, src = self.single(it)
        want = "ok" if it["ok"] else "rejected"
        if got != want:
            key = "%s:%s:%s" % (it["fam"], it["key"], {"ok": "accepted", "rejected": "rejected"}.get(got, re.sub(r"[^a-z]+", "-", got.split("(")[0].strip().lower())))
            self.c.violation(key, "should be %s, but is %s: %s" % ("accepted" if it["ok"] else "rejected", got, brief), src[len(rules.HEAD):])


def body():
    c = Check("C03")
    cxy = build_compiler()
    items, n = [], 0
    for it in rules.items(c.thorough):
        if os.environ.get("FAM") and not any(("%s:%s" % (it["fam"], it["key"])).startswith(f) for f in os.environ["FAM"].split(",")):
            continue
        it["id"] = n
        it.setdefault("call", True)
        n += 1
        items.append(it)
    R = Runner(c, cxy)
    groups = collections.OrderedDict()
    for it in items:
        groups.setdefault((it["ok"], it.get("alone", False), it["fam"] if not it["ok"] else ""), []).append(it)
    jobs = []
    for (ok, alone, fam), its in groups.items():
        size = 1 if alone else 120 if ok else 60
        for i in range(0, len(its), size):
            jobs.append((ok, its[i:i + size]))
    doubt = []

    def one(j):
        ok, its = jobs[j]
        if len(its) == 1:
            return list(its)
        rc, out, locs, spans, made, src = R.go("b%d" % j, its, None if ok else its[0].get("stage", "TypeCheck"))
        if ok:
            if rc == 0:
                return []
            if rc == 1 and locs:
                bad = [it for it, (a, b) in zip(its, spans) if any(a <= l <= b for m, l in locs)]
                rest = [it for it in its if it not in bad]
                rc2 = R.go("b%dr" % j, rest)[0] if rest else 0
                return bad if rc2 == 0 else its
            return halve(its, "b%dh" % j)
        if rc != 1:
            return its
        if os.environ.get("REPORT"):
            for it, (a, b) in zip(its, spans):
                m = [re.sub(r"'[^']*'+|`[^`]*`", "Q", x) for x, l in locs if a <= l <= b][:1]
                print("MSG %s:%s => %s" % (it["fam"], re.sub(r":.*", "", it["key"]), m[0] if m else "-"))
        return [it for it, (a, b) in zip(its, spans) if not any(a <= l <= b for m, l in locs)]

    def halve(its, name):
        if len(its) <= 4:
            return its
        out = []
        for k, part in enumerate((its[:len(its) // 2], its[len(its) // 2:])):
            if R.go(name + str(k), part)[0] != 0:
                out += halve(part, name + str(k))
        return out

    for d in pmap(one, range(len(jobs))):
        doubt += d
    doubt = [it for it in doubt]
    fam = collections.Counter(it["fam"] for it in items)
    c.cov["programs"] = len(items)
    c.cov["families"] = dict(fam)
    c.cov["must_be_accepted"] = sum(it["ok"] for it in items)
    c.cov["checked_alone"] = len(doubt)
    lim = 100000 if os.environ.get("VF_ALL") else 400
    pmap(R.judge, doubt[:lim])
    c.count(states=len(items), transitions=len(jobs) + len(doubt), traces=len(items))
    c.sample("%s: %s" % (items[0]["key"], items[0]["body"]) if items else "")
    c.finish()


if __name__ == "__main__":
    main(body)
