"""Builds an explorer harness (cxy program + C reference model + vx.c), runs the whole choice tree
under AddressSanitizer (split over the cores) and reports into a Check."""
import os, re
from vf import *

ASAN = ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"]
SEQ = os.path.join(VERIF, "checks", "seq")


def load(name):
    with open(os.path.join(SEQ, name)) as f:
        return f.read()


def prelude(natives=()):
    """extern declarations of the explorer, for cxy harnesses (after the imports)."""
    return """@__cc "vx.c"
""" + "".join('@__cc "%s"\n' % n for n in natives if n.endswith(".c")) + """pub extern func vx_next(): i32
pub extern func vx_choose(n: i32): i32
pub extern func vx_op(t: string, ...args: auto): void
pub extern func vx_fail(t: string, ...args: auto): void
pub extern func vx_soft(k: string, t: string, ...args: auto): void
pub extern func vx_expect_i64(t: string, a: i64, b: i64): void
pub extern func vx_expect_u64(t: string, a: u64, b: u64): void
pub extern func vx_live_delta(): i64
pub extern func vx_leakcheck_begin(): void
pub extern func vx_leakcheck_end(t: string): void
"""


def build(check, cxy, name, source, natives, params=None, flags=None, args=()):
    """Returns the directory holding app2, or None after reporting a violation."""
    d = check.dir(name)
    source = source.replace("//PRELUDE", prelude(natives))
    for k, v in (params or {}).items():
        source = source.replace(k, str(v))
    nat = {f: open(os.path.join(LIB, f)).read() for f in ("vx.c", "vx.h")}
    for n in natives:
        nat[n] = load(n)
    r = cxy_build(cxy, d, source, nat, args=args)
    if not r.ok:
        check.violation("build:" + name, "the harness program %s is no longer accepted/compiled by cxy (rc=%s)" % (name, r.rc),
                        r.out[-4000:])
        return None
    rebuild_app(d, flags if flags is not None else ASAN)
    return d


FAIL = re.compile(rb"VX-FAIL (.*?)\nVX-CHOICES ?(.*?)\nVX-TRACE\n(.*?)\nVX-END", re.S)


def keyof(name, why, trace):
    """Stable identity of a failure: the harness, the last operation (arguments removed) and the failed observation."""
    last = trace.strip().splitlines()[-1] if trace.strip() else "-"
    k = re.sub(r"\d+", "N", last)[:60] + "|" + re.sub(r"-?\d+", "N", why)[:80]
    return name + ":" + re.sub(r"\s+", "_", k)


def explore(check, name, d, split=0, timeout=600, env=None, limit=None, minexecs=2):
    """Runs the exploration; split=1|2: shard over the first one/two choices."""
    app = os.path.join(d, "app2")
    e = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1"}
    e.update(env or {})
    prefixes = [""]
    if split:
        rc, o, er, _ = run([app], cwd=d, env=dict(e, VX_MAX="1"), timeout=60)
        m = re.search(rb"w0=(\d+) w1=(\d+)", o)
        if m:
            w0, w1 = int(m.group(1)), int(m.group(2))
            prefixes = ["%d" % i for i in range(w0)] if split == 1 else ["%d,%d" % (i, j) for i in range(w0) for j in range(w1)]

    def one(p):
        ee = dict(e)
        if p:
            ee["VX_PREFIX"] = p
        if limit:
            ee["VX_MAX"] = str(limit)
        return (p,) + run([app], cwd=d, env=ee, timeout=timeout)

    total = 0
    bad = 0
    for p, rc, o, er, t in pmap(one, prefixes):
        m = re.search(rb"VX-SUMMARY execs=(\d+) nodes=(\d+) ops=(\d+) distinct=(\d+)", o)
        if m:
            ex, nodes, ops, distinct = map(int, m.groups())
            total += ex
            check.count(states=max(distinct, 1) if ex else 0, transitions=ops or nodes, traces=ex)
        for sm in re.finditer(rb"VX-SOFT (\S+)\n+VX-FAIL (.*?)\nVX-CHOICES ?(.*?)\nVX-TRACE\n(.*?)\nVX-END", o, re.S):
            k, why, ch, tr = [x.decode(errors="replace") for x in sm.groups()]
            bad += 1
            check.violation("%s:%s" % (name, k), "%s: %s" % (name, why),
                            "choices: %s\ntrace:\n%s\nreplay: VX_REPLAY=%s ./app2" % (ch, tr, ch))
        o2 = re.sub(rb"VX-SOFT (\S+)\n+VX-FAIL (.*?)VX-END", b"", o, flags=re.S)
        f = FAIL.search(o2)
        if f:
            why, ch, tr = [x.decode(errors="replace") for x in f.groups()]
            asan = re.search(rb"ERROR: AddressSanitizer: (\S+)", er)
            if asan:
                why = "AddressSanitizer: " + asan.group(1).decode()
            bad += 1
            check.violation(keyof(name, why, tr), "%s: %s" % (name, why),
                            "choices: %s\ntrace:\n%s\nreplay: VX_REPLAY=%s ./app2\n%s\n%s" % (
                                ch, tr, ch, o[-1500:].decode(errors="replace"), er[:2500].decode(errors="replace")))
        elif not m:
            if rc == 98:
                raise CheckError("%s: harness diverged: %s" % (name, o[-600:]))
            bad += 1
            check.violation("%s:rc=%s" % (name, rc), "%s: exploration %s" % (name, "timed out" if rc is None else "ended with status %s" % rc),
                            o[-2000:].decode(errors="replace") + er[-3000:].decode(errors="replace"))
        if rc == 0 and len(check.cov["samples"]) < 12 and p == prefixes[-1]:
            # write out the last execution of this tree
            ee = dict(e, VX_REPLAY=(p + "," if p else "") + ",".join(["1"] * 0))
    if not bad and total < minexecs:
        raise CheckError("%s: only %d executions explored" % (name, total))
    # one explored execution written out
    rc, o, er, _ = run([app], cwd=d, env=dict(e, VX_REPLAY="1,0,1,2,0,1"), timeout=60)
    m = re.search(rb"VX-TRACE\n(.*?)\nVX-END", o, re.S)
    if m:
        check.sample({"harness": name, "trace": m.group(1).decode(errors="replace").splitlines()[:12]}, 30)
    check.cov.setdefault("harnesses", {})[name] = {"executions": total, "shards": len(prefixes)}
    return total


def run_all(check, jobs, cxy=None):
    """jobs: list of dict(name, source, natives, params, flags, split, timeout). Builds in parallel, explores in turn."""
    cxy = cxy or build_compiler()
    dirs = pmap(lambda j: build(check, cxy, j["name"], j["source"] if "\n" in j["source"] else load(j["source"]), j.get("natives", ()), j.get("params"),
                                j.get("flags"), j.get("args", ())), jobs, workers=4)
    for j, d in zip(jobs, dirs):
        if d:
            explore(check, j["name"], d, j.get("split", 0), j.get("timeout", 600), j.get("env"), minexecs=j.get("minexecs", 2))
