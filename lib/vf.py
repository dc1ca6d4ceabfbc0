"""Shared framework for the checks in /verif/checks.

 * builds the compiler from /repo's *current* working tree (never from /repo/_build),
 * compiles and runs cxy programs / C harnesses in scratch directories,
 * known findings, replay files, evidence files, exit codes.
"""
import atexit, fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
LIB = os.path.join(VERIF, "lib")
SRC = os.path.join(REPO, "src/cxy")
BUILD = os.path.join(VERIF, ".build")
NCPU = os.cpu_count() or 4

ENV = {
    "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "HOME": "/tmp", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "TMPDIR": os.environ.get("TMPDIR", "/tmp"),
}
CLANG = "/usr/bin/clang-18"
CLANGXX = "/usr/bin/clang++-18"
SETARCH = ["setarch", "x86_64", "-R"]
if subprocess.run(SETARCH + ["true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode != 0:
    SETARCH = []


class CheckError(Exception):
    """The machinery itself failed (not a verdict about the property)."""


def sh(cmd, **kw):
    kw.setdefault("env", ENV)
    kw.setdefault("stdin", subprocess.DEVNULL)
    kw.setdefault("stdout", subprocess.PIPE)
    kw.setdefault("stderr", subprocess.STDOUT)
    return subprocess.run(cmd, **kw)


# ---------------------------------------------------------------- building
def _tree_files():
    out = [os.path.join(REPO, "CMakeLists.txt")]
    for base in ("src", "cmake", "tests/utils"):
        for d, dirs, files in os.walk(os.path.join(REPO, base)):
            dirs.sort()
            out += [os.path.join(d, f) for f in sorted(files)]
    return out


def tree_hash(extra=""):
    h = hashlib.sha256(extra.encode())
    for p in _tree_files():
        h.update(p.encode())
        try:
            with open(p, "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
        except OSError:
            pass
    return h.hexdigest()[:16]


def _prune(keep):
    """Keep the build cache small."""
    try:
        ents = [(os.path.getmtime(os.path.join(BUILD, e)), e) for e in os.listdir(BUILD)
                if os.path.isdir(os.path.join(BUILD, e)) and e != keep]
    except OSError:
        return
    for _, e in sorted(ents)[:-6]:
        shutil.rmtree(os.path.join(BUILD, e), ignore_errors=True)


def build_compiler():
    """Builds cxy from the working tree; returns the path of the binary."""
    key = "cxy-" + tree_hash("debug")
    d = os.path.join(BUILD, key)
    exe = os.path.join(d, "cxy")
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, "ok")):
            os.utime(d)
            return exe
        shutil.rmtree(d, ignore_errors=True)
        _prune(key)
        r = sh(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug",
                "-DLLVM_ROOT_DIR=/usr/lib/llvm-18", "-DCMAKE_C_COMPILER=" + CLANG,
                "-DCMAKE_CXX_COMPILER=" + CLANGXX])
        if r.returncode == 0:
            r = sh(["ninja", "-C", d, "cxy"])
        if r.returncode != 0:
            sys.stdout.write(r.stdout.decode(errors="replace")[-3000:])
            raise CheckError("the working tree of %s does not build" % REPO)
        open(os.path.join(d, "ok"), "w").close()
    return exe


def build_objects(variant, cflags, sources, skip=False):
    """Compiles repository C sources (paths relative to /repo) with cflags; returns object files.
    Used by harnesses that link the compiler's own translation units."""
    key = "obj-%s-%s" % (variant, tree_hash(repr((cflags, sources))))
    d = os.path.join(BUILD, key)
    os.makedirs(BUILD, exist_ok=True)
    objs = [os.path.join(d, s.replace("/", "__") + ".o") for s in sources]
    with open(os.path.join(BUILD, "lock-" + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, "ok")):
            os.utime(d)
            return [o for o in objs if os.path.exists(o)]
        os.makedirs(d, exist_ok=True)
        _prune(key)

        def one(p):
            s, o = p
            r = sh([CLANG, "-c", "-std=gnu11", "-D_GNU_SOURCE", '-DCXY_VERSION="0"', "-I" + SRC, "-I" + os.path.join(REPO, "src/3rdParty")]
                   + cflags + [os.path.join(REPO, s), "-o", o])
            return r
        with ThreadPoolExecutor(NCPU) as ex:
            for r in ex.map(one, zip(sources, objs)):
                if r.returncode != 0 and not skip:
                    sys.stdout.write(r.stdout.decode(errors="replace")[-3000:])
                    raise CheckError("cannot compile repository sources")
        objs = [o for o in objs if os.path.exists(o)]
        open(os.path.join(d, "ok"), "w").close()
    return objs


ASAN = ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address"]


def build_harness(name, source, repo_sources, cflags=None, ldflags=()):
    """Links a C harness with repository translation units (AddressSanitizer by default)."""
    cflags = ASAN if cflags is None else list(cflags)
    tag = name + "-" + hashlib.sha256(open(source, "rb").read()).hexdigest()[:10]

    def link(objs):
        out = os.path.join(os.path.dirname(objs[0]), tag)
        if os.path.exists(out):
            return out, None
        lib = out + ".a"
        if os.path.exists(lib):
            os.unlink(lib)
        sh(["ar", "rcs", lib] + objs)
        r = sh([CLANG, "-std=gnu11", "-w", "-D_GNU_SOURCE", "-I" + SRC, "-I" + os.path.join(REPO, "src/3rdParty")] + cflags + [source, lib]
               + ["-o", out + ".tmp", "-lm", "-lpthread"] + list(ldflags))
        if r.returncode != 0:
            return None, r.stdout.decode(errors="replace")[-3000:]
        os.rename(out + ".tmp", out)
        return out, None
    present = [s for s in repo_sources if os.path.exists(os.path.join(REPO, s))]
    out, err = link(build_objects(name, cflags, present))
    if out is None:  # code may have moved to other files: take every C source of the compiler
        every = []
        for r, ds, fs in os.walk(SRC):
            ds[:] = [x for x in ds if x not in ("stdlib", "runtime", "plugins", "tests")]
            every += [os.path.relpath(os.path.join(r, f), REPO) for f in fs if f.endswith(".c") and f != "main.c"]
        out, err = link(build_objects(name, cflags, sorted(every), skip=True))
    if out is None:
        sys.stdout.write(err)
        raise CheckError("cannot link harness " + name)
    return out


# ---------------------------------------------------------------- running cxy
class CompileResult:
    def __init__(self, rc, out, d):
        self.rc, self.out, self.dir = rc, out, d
        self.app = os.path.join(d, "app")
        self.app_c = os.path.join(d, "app.c")
        self.ok = rc == 0 and os.path.exists(self.app)


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb" if isinstance(text, bytes) else "w") as f:
        f.write(text)
    return path


def cxy_build(cxy, d, source, natives=None, args=(), cmd="build", timeout=240, mm=True, name="a.cxy"):
    """Compile `source` in directory d (created). natives: {file name: text} laid beside it."""
    os.makedirs(d, exist_ok=True)
    write(os.path.join(d, name), source)
    for n, t in (natives or {}).items():
        write(os.path.join(d, n), t)
    for f in ("app", "app.c"):
        if os.path.exists(os.path.join(d, f)):
            os.unlink(os.path.join(d, f))
    argv = SETARCH + [cxy, cmd, "--no-progress", "--no-color", "--stdlib", SRC]
    if mm:
        argv.append("--with-mm")
    argv += list(args) + [name]
    try:
        r = sh(argv, cwd=d, timeout=timeout)
        return CompileResult(r.returncode, r.stdout.decode(errors="replace"), d)
    except subprocess.TimeoutExpired as e:
        return CompileResult(-999, "TIMEOUT\n" + (e.stdout or b"").decode(errors="replace"), d)


def native_flags(app_c):
    """The flags and native sources of the C compile command cxy recorded at the end of app.c."""
    with open(app_c, errors="replace") as f:
        tail = f.read()[-6000:]
    m = re.search(r"/\* clang (.*?) \*/\s*$", tail, re.S)
    if not m:
        raise CheckError("no compile command recorded in " + app_c)
    return m.group(1).split()


def rebuild_app(d, extra, out="app2", drop=()):
    """Recompile the C that cxy generated with our own flags (sanitizers, wrappers)."""
    toks = native_flags(os.path.join(d, "app.c"))
    args, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t == "-o":
            i += 2
            continue
        if any(x in t for x in drop):
            i += 1
            continue
        args.append(t)
        i += 1
    r = sh([CLANG, "-w"] + args + list(extra) + ["-o", out], cwd=d)
    if r.returncode != 0:
        raise CheckError("cannot recompile generated C: " + r.stdout.decode(errors="replace")[-2000:])
    return os.path.join(d, out)


def run(argv, cwd=None, timeout=300, env=None, stdin=None):
    e = dict(ENV)
    e.update(env or {})
    t = time.time()
    try:
        r = subprocess.run(SETARCH + list(argv), cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, input=stdin) if stdin is not None else \
            subprocess.run(SETARCH + list(argv), cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
        return r.returncode, r.stdout, r.stderr, time.time() - t
    except subprocess.TimeoutExpired as ex:
        return None, ex.stdout or b"", ex.stderr or b"", time.time() - t


def pmap(fn, items, workers=None):
    with ThreadPoolExecutor(workers or NCPU) as ex:
        return list(ex.map(fn, items))


# ---------------------------------------------------------------- verdicts
def known_findings():
    path = os.path.join(VERIF, "known-findings.txt")
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.viol = []
        self.known = known_findings().get(pid, {})
        self.hit = {}
        base = os.path.join(VERIF, ".scratch")
        os.makedirs(base, exist_ok=True)
        self.scratch = tempfile.mkdtemp(prefix=pid + "-", dir=base)
        atexit.register(shutil.rmtree, self.scratch, True)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def dir(self, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        return d

    def count(self, states=0, transitions=0, traces=0):
        self.cov["states"] += states
        self.cov["transitions"] += transitions
        self.cov["traces_validated_against_impl"] += traces

    def sample(self, s, limit=12):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def violation(self, key, what, replay=None):
        """key: stable identity of the failing input/history (no spaces)."""
        key = re.sub(r"\s+", "_", key)
        if key in self.known:
            self.hit.setdefault(key, what)
            return
        self.viol.append((key, what, replay))

    def finish(self, note=None):
        for k, desc in sorted(self.known.items()):
            # A listed finding is announced when this run saw it (or could not look, see check).
            if k in self.hit:
                print("KNOWN-FINDING: property=%s %s (%s)" % (self.pid, k, desc))
        wall = time.time() - self.t0
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(wall, 2),
              "violations": len(self.viol)}
        if self.hit:
            ev["coverage"]["known_findings_seen"] = sorted(self.hit)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        write(os.path.join(VERIF, "evidence", self.pid + ".json"), json.dumps(ev, indent=1, default=str) + "\n")
        if not self.viol:
            print("%s: OK states=%d transitions=%d traces=%d wall=%.1fs" % (
                self.pid, self.cov["states"], self.cov["transitions"],
                self.cov["traces_validated_against_impl"], wall))
            sys.stdout.flush()
            sys.exit(0)
        rd = os.path.join(VERIF, "replay")
        os.makedirs(rd, exist_ok=True)
        for i, (k, what, replay) in enumerate(self.viol[:2000 if os.environ.get("VF_ALL") else 20]):
            p = os.path.join(rd, "%s-%d.txt" % (self.pid, i))
            write(p, "property: %s\nkey: %s\n%s\n\n%s\n" % (self.pid, k, what, replay or ""))
            print("  [%s] %s" % (k, what.splitlines()[0][:400] if what else ""))
            print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(p, VERIF)))
        sys.stdout.flush()
        sys.exit(1)


def main(fn):
    """Runs a check body; an internal error is exit 2 with a message (no verdict)."""
    try:
        fn()
    except SystemExit:
        raise
    except CheckError as e:
        print("CHECK ERROR: %s" % e)
        sys.exit(2)
