"""Shared machinery: builds noise-c's libraries from /repo's working tree into
/verif/build, builds harnesses against them, runs harness shards, merges what
they observed into an evidence file and turns violations into exit codes."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
NCPU = min(8, os.cpu_count() or 4)
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"

SAN = {
    # clang -fsanitize=function objects to the (working, portable in practice)
    # write-function casts in loader.c, which is not what any property is about.
    "asan": ("clang", ["-O1", "-g", "-fno-omit-frame-pointer",
                       "-fsanitize=address,undefined",
                       "-fno-sanitize-recover=all",
                       "-fno-sanitize=function"]),
    "plain": ("gcc", ["-O2", "-g"]),
    "gcc0": ("gcc", ["-O0", "-g"]),
    "gcc3": ("gcc", ["-O3", "-g", "-march=native"]),
    "clang0": ("clang", ["-O0", "-g"]),
    "clang3": ("clang", ["-O3", "-g", "-march=native"]),
    "dbg": ("gcc", ["-O1", "-g", "-fno-omit-frame-pointer"]),
    "tsan": ("clang", ["-O1", "-g", "-fsanitize=thread"]),
    "msan": ("clang", ["-O1", "-g", "-fsanitize=memory", "-fno-omit-frame-pointer",
                       "-fno-sanitize-recover=all"]),
    "fuzz": ("clang", ["-O1", "-g", "-fno-omit-frame-pointer",
                       "-fsanitize=fuzzer-no-link,address,undefined",
                       "-fno-sanitize-recover=all", "-fno-sanitize=function"]),
    # every basic block, load, store and division calls the harness's recorder
    "trace": ("clang", ["-O2", "-g", "-fno-builtin",
                        "-fsanitize-coverage=bb,no-prune,trace-pc,trace-loads,trace-stores,trace-div"]),
}
BACKENDS = ("ref", "sodium", "openssl")
# Builds of the reference backend that take the code other platforms get.
ARCH = {"ref64": "arch_ref64", "ref32": "arch_32"}
ALT = {
    "ref64": ["-DPOLY1305_16BIT=1", "-DED25519_NO_INLINE_ASM=1", "-DFULL_UNROLL=1"],
    "ref32": ["-include", os.path.join(VERIF, "harness", "word32.h"), "-DPOLY1305_32BIT=1", "-DED25519_FORCE_32BIT=1", "-DED25519_NO_INLINE_ASM=1", "-U__SSE2__",
              "-fno-sanitize=shift-base"],   # curve25519-donna.c shifts negative limbs, as every compiler defines it
    "ref8": ["-DPOLY1305_8BIT=1", "-DED25519_SSE2=1"],
}
with open("/proc/cpuinfo") as _f:
    _flags = re.search(r"^flags.*$", _f.read(), re.M)
if _flags and {"avx2", "bmi2"} <= set(_flags.group(0).split()):
    ALT["ref8"] += ["-mavx2", "-mbmi2"]


class BuildError(Exception):
    pass


def automake_sources(path, var, conds):
    """Sources of VAR in a Makefile.am, with the automake conditionals CONDS."""
    out, stack, on_var = [], [], False
    text = open(path).read().replace("\\\n", " ")
    for line in text.split("\n"):
        s = line.strip()
        m = re.match(r"if\s+(!?)(\w+)$", s)
        if m:
            stack.append(conds.get(m.group(2), False) ^ bool(m.group(1)))
            continue
        if re.match(r"else\b", s):
            stack[-1] = not stack[-1]
            continue
        if re.match(r"endif\b", s):
            stack.pop()
            continue
        if not all(stack):
            continue
        m = re.match(re.escape(var) + r"\s*\+?=\s*(.*)$", s)
        if m:
            out += m.group(1).split()
    return out


def repo_sources(backend):
    conds = {"USE_OPENSSL": backend == "openssl", "USE_LIBSODIUM": backend == "sodium"}
    base = os.path.join(REPO, "src/protocol")
    srcs = []
    for s in automake_sources(os.path.join(base, "Makefile.am"),
                              "libnoiseprotocol_a_SOURCES", conds):
        if s.endswith(".c"):
            s = s.replace("@GOLDILOCKS_ARCH@", ARCH.get(backend, "arch_x86_64"))
            srcs.append(os.path.normpath(os.path.join(base, s)))
    for d, v in (("src/protobufs", "libnoiseprotobufs_a_SOURCES"),
                 ("src/keys", "libnoisekeys_a_SOURCES")):
        b = os.path.join(REPO, d)
        for s in automake_sources(os.path.join(b, "Makefile.am"), v, conds):
            if s.endswith(".c"):
                srcs.append(os.path.normpath(os.path.join(b, s)))
    seen = []
    for s in srcs:
        if s not in seen:
            seen.append(s)
    return seen


def repo_flags(backend):
    g = os.path.join(REPO, "src/crypto/goldilocks/src")
    f = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"),
         "-I" + os.path.join(REPO, "src/protocol"),
         "-I" + g + "/include", "-I" + g + "/p448", "-I" + g + "/p448/" + ARCH.get(backend, "arch_x86_64"),
         "-I" + os.path.join(REPO, "include/noise/keys"), "-DHAVE_PTHREAD=1", "-pthread",
         "-w", "-Wno-implicit-function-declaration", "-Wno-int-conversion", "-Wno-incompatible-function-pointer-types", "-Wno-implicit-int"]
    if backend == "openssl":
        f += ["-DUSE_OPENSSL=1"]
    if backend == "sodium":
        f += ["-DUSE_LIBSODIUM=1"]
    else:
        f += ["-DED25519_CUSTOMHASH", "-DED25519_CUSTOMRANDOM"]
    f += ALT.get(backend, [])
    return f


def tree_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    files = []
    for p in paths:
        if os.path.isdir(p):
            for r, _, fs in os.walk(p):
                files += [os.path.join(r, f) for f in fs
                          if f.endswith((".c", ".h", ".hpp", ".cpp", ".inc", ".py",
                                         ".proto", ".am", ".y", ".l"))]
        elif os.path.exists(p):
            files.append(p)
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:24]


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-6000:]))
    return p.stdout


def lock(name):
    os.makedirs(BUILD, exist_ok=True)
    fh = open(os.path.join(BUILD, ".lock-" + name), "w")
    fcntl.flock(fh, fcntl.LOCK_EX)
    return fh


def prune(pattern, keep, age=1800):
    """Removes builds of other trees that nothing has used for a while; marks KEEP as used."""
    if os.path.exists(keep):
        os.utime(keep)
    for old in glob.glob(pattern):
        try:
            if old != keep and time.time() - os.path.getmtime(old) > age:
                shutil.rmtree(old) if os.path.isdir(old) else os.unlink(old)
        except OSError:
            pass


def build_lib(backend, san, extra_flags=(), tag=""):
    """Returns the path of an archive with the three noise-c libraries."""
    name = "lib-%s-%s%s" % (backend, san, tag)
    cc, sf = SAN[san]
    flags = sf + repo_flags(backend) + list(extra_flags)
    key = tree_hash([os.path.join(REPO, "src"), os.path.join(REPO, "include")], repr((cc, flags)))
    d = os.path.join(BUILD, name, key)
    ar = os.path.join(d, "libnoise-%s.a" % key)
    with lock(name):
        prune(os.path.join(BUILD, name, "*"), d)
        if os.path.exists(ar):
            return ar
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        objs = []
        jobs = []
        for s in repo_sources(backend):
            o = os.path.join(d, os.path.relpath(s, REPO).replace("/", "_")[:-2] + ".o")
            objs.append(o)
            jobs.append([cc, "-c", s, "-o", o] + flags)
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(run, jobs))
        run(["ar", "rcs", ar + ".tmp"] + objs)
        for o in objs:
            os.unlink(o)
        os.rename(ar + ".tmp", ar)
    return ar


def build_keytool(backend="ref"):
    """Builds noise-keytool with ASan and UBSan; returns the path of the program."""
    lib = build_lib(backend, "asan")
    src = os.path.join(REPO, "tools/keytool")
    cs = sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith(".c"))
    cc, sf = SAN["asan"]
    d = os.path.join(BUILD, "keytool-" + backend)
    exe = os.path.join(d, "noise-keytool-" + tree_hash([src], os.path.basename(lib)))
    with lock("keytool-" + backend):
        prune(os.path.join(d, "*"), exe)
        if not os.path.exists(exe):
            os.makedirs(d, exist_ok=True)
            run([cc, "-w"] + repo_flags(backend) + sf + cs + [lib] + link_libs(backend) + ["-o", exe + ".tmp"])
            os.rename(exe + ".tmp", exe)
    return exe


def build_echo(backend="ref"):
    """Builds the echo client, server and key generator with ASan and UBSan; returns their directory."""
    lib = build_lib(backend, "asan")
    src = os.path.join(REPO, "examples/echo")
    srv = os.path.join(src, "echo-server")
    cc, sf = SAN["asan"]
    base = os.path.join(BUILD, "echo-" + backend)
    d = os.path.join(base, tree_hash([src], os.path.basename(lib)))
    progs = {"echo-server": [os.path.join(srv, f) for f in sorted(os.listdir(srv)) if f.endswith(".c")]}
    for n in ("echo-client", "echo-keygen"):
        progs[n] = [os.path.join(src, n, f) for f in sorted(os.listdir(os.path.join(src, n))) if f.endswith(".c")]
    with lock("echo-" + backend):
        prune(os.path.join(base, "*"), d)
        if not os.path.exists(d):
            shutil.rmtree(d + ".tmp", ignore_errors=True)
            os.makedirs(d + ".tmp")
            for n, cs in progs.items():
                run([cc, "-w", "-DHAVE_POLL=1", "-I" + srv] + repo_flags(backend) + sf + cs + [lib] + link_libs(backend) +
                    ["-o", os.path.join(d + ".tmp", n)])
            os.rename(d + ".tmp", d)
    return d


def link_libs(backend):
    l = ["-lcrypto", "-lpthread", "-lm", "-ldl"]
    if backend == "sodium":
        l.insert(0, "-lsodium")
    return l


def build_harness(src, backend, san, extra=(), lib=True, libs=None, tag="", cxx=None,
                  lib_flags=(), lib_tag=""):
    """Builds /verif/harness/SRC against the library variant."""
    cc, sf = SAN[san]
    cxx = cxx or ("clang++" if cc == "clang" else "g++")
    path = os.path.join(VERIF, "harness", src)
    ar = build_lib(backend, san, lib_flags, lib_tag) if lib else None
    name = "h-%s-%s-%s%s" % (os.path.splitext(os.path.basename(src))[0], backend, san, tag)
    if san == "trace":
        sf = ["-O1", "-g"]      # the recorder itself is not recorded
    if san in ("gcc0", "gcc3", "clang0", "clang3"):
        sf = ["-O1", "-g"]
    if san == "fuzz":
        sf = [f.replace("fuzzer-no-link", "fuzzer") for f in sf]
    cmd = [cxx, "-x", "c++" if not src.endswith(".c") else "c", path, "-x", "none"]
    if not src.endswith(".c"):
        cmd += ["-std=c++17"]
    cmd += sf + ["-w", "-I" + os.path.join(REPO, "include"),
                 "-I" + os.path.join(VERIF, "harness"), "-pthread",
                 "-DVH_BACKEND=\"%s\"" % backend, "-DVH_SAN=\"%s\"" % san] + list(extra)
    key = tree_hash([path, os.path.join(VERIF, "harness"), os.path.join(REPO, "include")],
                    repr((cmd, ar, libs)))
    out = os.path.join(BUILD, "bin", name + "-" + key)
    with lock(name):
        prune(os.path.join(BUILD, "bin", name + "-*"), out)
        if os.path.exists(out):
            return out
        os.makedirs(os.path.dirname(out), exist_ok=True)
        run(cmd + ([ar] if ar else []) + (libs if libs is not None else link_libs(backend)) +
            ["-o", out + ".tmp"])
        os.rename(out + ".tmp", out)
    return out


# ----------------------------------------------------------------------------

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=1:strict_string_checks=1:max_allocation_size_mb=512",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99",
    "TSAN_OPTIONS": "exitcode=99:halt_on_error=1:second_deadlock_stack=1",
    "MSAN_OPTIONS": "exitcode=99",
}


def known_findings():
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(.*)$", line.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def crash_key(err):
    kind = "crash"
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        kind = "asan-" + m.group(1)
    else:
        m = re.search(r"runtime error: ([^\n]{0,60})", err)
        if m:
            kind = "ubsan-" + re.sub(r"[^a-zA-Z]+", "-", m.group(1))[:40].strip("-")
        elif "ThreadSanitizer" in err:
            m = re.search(r"ThreadSanitizer: ([\w -]+?)(?: \(|\n)", err)
            kind = "tsan-" + (m.group(1).strip().replace(" ", "-") if m else "report")
        elif "MemorySanitizer" in err:
            kind = "msan-uninit"
    fn = "?"
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)", err):
        if "/src/" in m.group(2) or "/tools/" in m.group(2) or "/examples/" in m.group(2):
            fn = m.group(1)
            break
    return "%s@%s" % (kind, fn)


class Report:
    """Collects what the harnesses observed and decides the exit code."""

    def __init__(self, prop, level="exploration"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.evals = 0
        self.sigs = set()
        self.events = {}
        self.samples = []
        self.viol = {}          # key -> (msg, replay payload)
        self.inconclusive = []
        self.notes = {}
        self.assumptions = []
        self.rule = ""
        self.runs = []

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def violation(self, key, msg, payload=None):
        key = re.sub(r"\s+", "_", key)
        if key not in self.viol:
            self.viol[key] = (msg, payload or msg)

    def case(self, sig, sample=None):
        self.evals += 1
        self.sigs.add(hashlib.sha1(sig.encode()).hexdigest()[:16])
        if sample is not None and len(self.samples) < 12:
            self.samples.append(sample)

    def run_shards(self, exe, cases, args=(), shards=None, timeout=800, env=None, label="",
                   base=0, wrapper=()):
        """Splits CASES case numbers over processes of EXE."""
        shards = shards or NCPU
        shards = max(1, min(shards, cases))
        outd = os.path.join(BUILD, "run")
        os.makedirs(outd, exist_ok=True)
        e = dict(os.environ)
        e.update(SAN_ENV)
        if env:
            e.update(env)

        def one(i):
            lo = base + cases * i // shards
            hi = base + cases * (i + 1) // shards
            res, seg, retried = [], 0, False
            while lo < hi and seg < 4:
                out = os.path.join(outd, "%s-%s-%s-%d-%d.out" % (
                    self.prop, os.getpid(), os.path.basename(exe)[:40], i, seg))
                for f in (out, out + ".prog"):
                    if os.path.exists(f):
                        os.unlink(f)
                cmd = list(wrapper) + [exe, "--seed", str(SEED), "--tier", TIER, "--from", str(lo),
                                       "--to", str(hi), "--out", out] + list(args)
                try:
                    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                       timeout=timeout, env=e, stdin=subprocess.DEVNULL)
                    rc, err = p.returncode, p.stderr.decode(errors="replace")
                    so = p.stdout.decode(errors="replace")
                except subprocess.TimeoutExpired:
                    if not retried:
                        retried = True
                        continue
                    rc, err, so = None, "timeout", ""
                prog = ""
                if os.path.exists(out + ".prog"):
                    prog = open(out + ".prog", errors="replace").read().strip("\0 \n")
                res.append((out, cmd, rc, err, so, prog))
                seg += 1
                m = re.match(r"(\d+)", prog)
                if rc in (None, 0, 96, -9) or not m:
                    break
                lo = int(m.group(1)) + 1   # skip the case that ended the process
            return res

        with ThreadPoolExecutor(NCPU) as ex:
            res = [x for l in ex.map(one, range(shards)) for x in l]
        done = 0
        for out, cmd, rc, err, so, prog in res:
            done += self._merge(out, cmd, rc, err, so, prog, label)
            for f in (out, out + ".prog"):
                if os.path.exists(f):
                    os.unlink(f)
        self.runs.append({"label": label or os.path.basename(exe), "cases": cases, "completed": done})
        return res

    def memcheck(self, exe, cases, args=(), label="memcheck", **kw):
        """Runs cases under Valgrind: undefined values that decide or leave, and foreign memory, are violations."""
        log = os.path.join(BUILD, "run", "vg-%s-%s-%d-" % (self.prop, label, os.getpid()))
        os.makedirs(os.path.dirname(log), exist_ok=True)
        self.run_shards(exe, cases, args=tuple(args) + ("--memlog", log), label=label,
                        wrapper=("valgrind", "--error-limit=no", "--leak-check=no", "--log-file=%s%%p" % log), **kw)
        for f in glob.glob(log + "*"):
            os.unlink(f)

    def _merge(self, out, cmd, rc, err, so, prog, label):
        n, ended = 0, False
        if os.path.exists(out):
            for line in open(out, errors="replace"):
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                t = r.get("t")
                if t == "v":
                    self.violation(r["key"], "[%s] %s" % (label, r["msg"]),
                                   {"cmd": cmd, "case": r.get("case"), "msg": r["msg"]})
                elif t == "end":
                    ended = True
                    n = r["evals"]
                    self.evals += r["evals"]
                    for k, v in r["events"].items():
                        self.events[k] = self.events.get(k, 0) + v
                    self.sigs.update(r["sigs"])
                elif t == "s" and len(self.samples) < 12:
                    self.samples.append(("[%s] " % label if label else "") + r["s"])
        if rc is None:
            self.inconclusive.append("timeout of %s" % " ".join(cmd))
        elif rc != 0 or not ended:
            if rc in (96,):
                self.inconclusive.append("harness error: %s\n%s" % (" ".join(cmd), err[-2000:]))
            elif rc == 97:
                self.violation("hang:" + prog.split(" ", 1)[-1][:60],
                               "[%s] a single case used up its CPU budget (case %s)" % (label, prog),
                               {"cmd": cmd, "case": prog, "stderr": err[-3000:]})
            elif rc == -9:
                self.inconclusive.append("killed (memory?): " + " ".join(cmd))
            else:
                self.violation("%s" % crash_key(err),
                               "[%s] process died (rc=%s) in case %s: %s" % (
                                   label, rc, prog, first_line(err)),
                               {"cmd": cmd, "case": prog, "stderr": err[-12000:]})
        return n

    def finish(self, min_events=()):
        for k in min_events:
            if not self.events.get(k) and not self.viol:
                self.inconclusive.append("monitor saw no event '%s'" % k)
        known = known_findings()
        bad = []
        for key, (msg, payload) in sorted(self.viol.items()):
            if (self.prop, key) in known:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, known[(self.prop, key)]))
            else:
                bad.append((key, msg, payload))
        ev = {
            "property": self.prop, "tier": TIER, "seed": SEED, "level": self.level,
            "coverage": {
                "evaluations": self.evals,
                "distinct_nontrivial": len(self.sigs),
                "rule": self.rule,
                "samples": self.samples or ["(none)"],
                "monitor_events": dict(sorted(self.events.items())),
                "runs": self.runs,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(bad),
        }
        ev["coverage"].update(self.notes)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        if bad:
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            for i, (key, msg, payload) in enumerate(bad[:20]):
                p = os.path.join(rd, "%s-%d.json" % (self.prop, i))
                with open(p, "w") as fh:
                    json.dump({"property": self.prop, "key": key, "message": msg,
                               "replay": payload, "seed": SEED, "tier": TIER}, fh, indent=1)
                print("%s: %s" % (key, msg))
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
            sys.stdout.flush()
            return 1
        if self.inconclusive:
            for s in self.inconclusive[:10]:
                print("INCONCLUSIVE: " + s)
            return 2
        print("OK property=%s evaluations=%d distinct=%d wall=%.1fs" % (
            self.prop, self.evals, len(self.sigs), time.time() - self.t0))
        return 0


def first_line(err):
    for l in err.split("\n"):
        if "ERROR: AddressSanitizer" in l or "runtime error:" in l or "Sanitizer" in l:
            return l.strip()[:300]
    l = [x for x in err.split("\n") if x.strip()]
    return (l[-1] if l else "no message")[:300]


def tier(q, t):
    return t if TIER == "thorough" else q
