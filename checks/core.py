"""C10: the compiler's own containers behave like their abstract counterparts for every history of operations."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vf import *

CORE = ["src/cxy/core/%s.c" % f for f in ("alloc", "array", "format", "hash", "hmap", "htable", "mempool", "sb", "strpool", "utils", "e4c")]
FAMS = [("table", 5, 6), ("grow", 9000, 20000), ("hmap", 5, 6), ("hgrow", 6000, 20000), ("array", 6, 7), ("pool", 5, 6), ("str", 3, 4),
        ("strall", 7, 8), ("path", 0, 0), ("long", 0, 0), ("sb", 5, 6), ("utf", 0, 0), ("format", 5, 6)]


def body():
    c = Check("C10")
    exe = build_harness("core", os.path.join(VERIF, "checks/c/core.c"), CORE)
    only = os.environ.get("FAM")
    limit = 2400 if c.thorough else 200
    jobs = [(f, t if c.thorough else q, s) for f, q, t in FAMS for s in range(NCPU) if only in (None, f)]
    out = pmap(lambda j: (j, run([exe, j[0], str(j[1]), str(j[2]), str(NCPU), str(limit)], timeout=limit + 60)), jobs)
    per = {}
    for (fam, depth, s), (rc, o, e, secs) in out:
        o, e = o.decode(errors="replace"), e.decode(errors="replace")
        if os.environ.get("TIMES"):
            print(fam, s, "%.1f" % secs)
        found = re.findall(r"^X (\S+) (\S+) (\S*)$", o, re.M)
        for f, why, h in found:
            c.violation("%s:%s" % (f, why), "%s: %s after %s" % (f, why, h), "history: %s\nreplay: core harness %s %d %d %d\n%s" % (h, f, depth, s, NCPU, e[-3000:]))
        m = re.search(r"^N (\d+) (\d+)$", o, re.M)
        if m:
            per[fam] = per.get(fam, 0) + int(m.group(1))
            c.count(states=int(m.group(1)), transitions=int(m.group(2)), traces=int(m.group(1)))
        elif not found:
            c.violation("%s:stopped" % fam, "the harness stopped (rc=%s)" % rc, e[-3000:])
    c.cov["histories"] = per
    c.assumptions = ["pools are not asked for memory they have given back; a cache is always used with one item size", "joining paths with empty parts is not constrained"]
    c.finish()


main(body)
