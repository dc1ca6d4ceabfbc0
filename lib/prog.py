"""Exhaustive enumeration of small programs, a reference interpreter, and batched comparison with
the code the compiler produces for them."""
import hashlib, itertools, os, re
from vf import *

PXL = 5
M64 = (1 << 64) - 1


class Bits:
    """One path: a prefix of forced choices, then zeros; widths are recorded."""
    __slots__ = ("forced", "pick", "width", "limit")

    def __init__(self, forced, limit):
        self.forced, self.pick, self.width, self.limit = forced, [], [], limit

    def choose(self, k):
        n = len(self.pick)
        if n >= self.limit:
            return 0
        v = self.forced[n] if n < len(self.forced) else 0
        self.pick.append(v)
        self.width.append(k)
        return v


def explore_paths(run, limit=PXL):
    """run(Bits) -> trace (list of ints). Yields (picks, trace) for every path, in the C driver's order."""
    forced = []
    while True:
        b = Bits(forced, limit)
        tr = run(b)
        yield b.pick, tr
        p, w = list(b.pick), b.width
        n = len(p)
        while n > 0 and p[n - 1] + 1 >= w[n - 1]:
            n -= 1
        if n == 0:
            return
        p = p[:n]
        p[-1] += 1
        forced = p


def fnv(h, v):
    v &= 0xffffffff
    for i in range(4):
        h = ((h ^ ((v >> (8 * i)) & 255)) * 0x100000001b3) & M64
    return h


def signature(run, limit=PXL):
    h, n, ops = 0xcbf29ce484222325, 0, 0
    for picks, tr in explore_paths(run, limit):
        n += 1
        ops += len(tr)
        h = fnv(h, -1000 - len(picks))
        for p in picks:
            h = fnv(h, p)
        for t in tr:
            h = fnv(h, t)
    return n, "%016x" % h, ops


HEAD = """@__cc "px.c"
//NATIVES
pub extern func px_begin(id: i32): void
pub extern func px_next(): i32
pub extern func ev(k: i32): void
pub extern func evv(k: i32): i32
pub extern func evb(k: i32, v: bool): bool
pub extern func bit(): bool
pub extern func pick3(): i32
"""


class Batch:
    """programs: list of (id, decls text, call text, expected signature (n, hash, ops), describe)"""

    def __init__(self, check, cxy, head=HEAD, natives=None, flags=None, limit=PXL, args=(), call="{call}"):
        self.c, self.cxy, self.head, self.natives = check, cxy, head, natives or {}
        self.flags = flags if flags is not None else ["-O0"]
        self.limit, self.args = limit, list(args)
        self.crashed = 0

    def source(self, progs):
        h = self.head.replace("//NATIVES", "".join('@__cc "%s"\n' % n for n in self.natives if n.endswith(".c")))
        s, types = [h], {}
        for p in progs:
            types.update({k: v for k, v in p.get("tdecl", {}).items() if k not in types})
        s += list(types.values())
        for p in progs:
            s.append(p["decl"])
        # a function per group keeps main small
        s.append("func main() {\n")
        for p in progs:
            s.append("  px_begin(%d`i32)\n  while (px_next() != 0) { %s }\n" % (p["id"], p["call"]))
        s.append("}\n")
        return "".join(s)

    def compile(self, d, progs):
        nat = dict(self.natives)
        nat["px.c"] = "#define PX_L %d\n" % self.limit + open(os.path.join(LIB, "px.c")).read()
        r = cxy_build(self.cxy, d, self.source(progs), nat, args=self.args)
        return r

    def run_batch(self, name, progs):
        d = self.c.dir(name)
        r = self.compile(d, progs)
        if not r.ok:
            if len(progs) == 1:
                return [(progs[0], "rejected", "cxy does not compile this program (rc=%s)\n%s" % (r.rc, r.out[-1500:]))]
            # find the culprit(s): bisect
            m = len(progs) // 2
            shutil.rmtree(d, ignore_errors=True)
            a = self.run_batch(name + "a", progs[:m])
            if len(a) >= 3:
                return a
            return a + self.run_batch(name + "b", progs[m:])
        app = os.path.join(d, "app")
        if self.flags:
            app = rebuild_app(d, self.flags)
        env = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:handle_segv=0:handle_abort=0:handle_sigfpe=0"}
        rc, o, e, _ = run([app], cwd=d, timeout=300, env=env)
        got = {int(a): (int(b), h) for a, b, h in re.findall(r"^P (\d+) (\d+) ([0-9a-f]{16})$", o.decode(errors="replace"), re.M)}
        bad = []
        self.full = (rc, e.decode(errors="replace")[-3000:])
        for p in progs:
            if p["id"] in got and got[p["id"]] == p["sig"][:2]:
                self.c.count(states=p["sig"][0], transitions=p["sig"][2], traces=p["sig"][0])
                continue
            if len([1 for b in bad if b[1] != "batch"]) >= 5:
                break
            bad.append((p,) + self.explain(d, app, p, env))
        # programs after a crash did not run: those that pass alone are not to blame
        bad = [b for b in bad if b[1] != "batch"] or bad[:1]
        shutil.rmtree(d, ignore_errors=True)
        return bad

    def explain(self, d, app, p, env):
        rc, o, e, _ = run([app], cwd=d, timeout=60, env=dict(env, PX_ID=str(p["id"])))
        got = re.findall(r"^T \d+ (\S+) ?([0-9,]*) :(.*)$", o.decode(errors="replace"), re.M)
        i = 0
        for picks, tr in explore_paths(p["run"], self.limit):
            want = (",".join(map(str, picks)), "".join(" %d" % t for t in tr))
            if i >= len(got):
                err = e.decode(errors="replace")
                m = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
                return ("no-result", "stopped (rc=%s%s) before path [%s], which should do:%s\n%s" % (
                    rc, ", " + m.group(1) if m else "", want[0], want[1], err[-2500:]))
            k, gp, gt = got[i]
            if k != "ok":
                return (k, "%s on path [%s] after:%s\nexpected path [%s]:%s" % (k, gp, gt, want[0], want[1]))
            if (gp, gt) != want:
                return ("trace", "path [%s] should do:%s\nbut path [%s] did:%s" % (want[0], want[1], gp, gt))
            i += 1
        if not got[i:i + 2]:
            return ("batch", "this program behaves differently (rc=%s) when others ran before it in the same process\n%s" % self.full)
        return ("paths", "more paths than the program has: %s" % (got[i:i + 2],))

    def run_all(self, progs, size=250, label="b", maxviol=12):
        groups = [progs[i:i + size] for i in range(0, len(progs), size)]
        out = pmap(lambda g: self.run_batch("%s%d" % (label, g[0]), g[1]), list(enumerate(groups)))
        nviol = 0
        for bad in out:
            for p, kind, text in bad:
                nviol += 1
                if nviol > maxviol:
                    break
                self.c.violation(p["key"] + ":" + kind, "%s: %s" % (kind, text.splitlines()[0]),
                                 text + "\n\nprogram:\n" + p["decl"])
        return nviol
