"""Build and run machinery shared by all checks."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
PROTOC = "/opt/vp/protoc/bin/protoc"
PROTOC_INC = "/opt/vp/protoc/include"
NCPU = min(8, os.cpu_count() or 8)
CLANG = ["clang++-20", "-std=c++23", "-fbracket-depth=512", "-fconstexpr-steps=67108864"]
GCC = ["g++", "-std=c++23", "-fconstexpr-ops-limit=67108864"]
NOUTF8 = "-DHPP_PROTO_NO_UTF8_VALIDATION=1"
ASAN = ["-O0", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"]
ASAN1 = ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"]
AUBSAN = ["-O0", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
TSAN = ["-O1", "-g1", "-fsanitize=thread"]
SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=98:detect_leaks=1:max_allocation_size_mb=2048:allocator_may_return_null=0:detect_stack_use_after_return=0:handle_abort=1:quarantine_size_mb=64",
    "UBSAN_OPTIONS": "exitcode=98:print_stacktrace=1",
    "TSAN_OPTIONS": "exitcode=98:halt_on_error=1:second_deadlock_stack=1",
    "LSAN_OPTIONS": "exitcode=98:max_leaks=5",
}


class HarnessError(Exception):
    pass


class CompileError(HarnessError):
    def __init__(self, src, log):
        super().__init__("compilation of %s failed:\n%s" % (src, log[:3000]))
        self.src, self.log = src, log


_tree = None


def tree_hash():
    """Identifies everything an object can depend on: /repo's sources and /verif's."""
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        roots = [os.path.join(REPO, d) for d in ("include", "src")] + [os.path.join(VERIF, d) for d in ("src", "protos", "shim")]
        for r in roots:
            for dp, dn, fn in os.walk(r):
                dn.sort()
                for f in sorted(fn):
                    p = os.path.join(dp, f)
                    if not f.endswith((".hpp", ".h", ".cpp", ".inc", ".proto", ".hh", ".ipp")):
                        continue
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
        _tree = h.hexdigest()
    return _tree


def sha(*a):
    return hashlib.sha256("\0".join(str(x) for x in a).encode()).hexdigest()[:24]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def compile_obj(src, flags, compiler=None, extra_key=""):
    """Compiles one source file; objects are cached by content."""
    compiler = compiler or CLANG
    if os.path.isfile(src):
        with open(src) as f:
            body = f.read()
    else:
        raise HarnessError("missing source " + src)
    key = sha(tree_hash(), " ".join(compiler), " ".join(flags), src, body, extra_key)
    out = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".tmp%d" % os.getpid()
    r = sh(compiler + flags + ["-c", src, "-o", tmp])
    if r.returncode != 0:
        raise CompileError(src + " " + " ".join(f for f in flags if f.startswith("-DVP_")), "\n".join(l for l in r.stdout.splitlines() if re.search(r"error|note: in instantiation", l))[:3000] or r.stdout[-3000:])
    os.replace(tmp, out)
    return out


def parallel(jobs, n=NCPU):
    """Runs callables in parallel and returns their results in order; the first exception is raised."""
    with cf.ThreadPoolExecutor(n) as ex:
        fs = [ex.submit(j) for j in jobs]
        return [f.result() for f in fs]


def later(job):
    """Starts a callable; .result() waits for it."""
    return cf.ThreadPoolExecutor(1).submit(job)


def link(objs, out, flags, libs=(), compiler=None):
    os.makedirs(os.path.dirname(out), exist_ok=True)
    key = sha(*objs, *flags, *libs)
    final = out + "-" + key[:12]
    if not os.path.exists(final):
        r = sh((compiler or CLANG)[:1] + list(flags) + list(objs) + ["-o", final + ".tmp"] + list(libs))
        if r.returncode != 0:
            raise HarnessError("link of %s failed:\n%s" % (out, r.stdout[-3000:]))
        os.replace(final + ".tmp", final)
    return final


def plugin(san=None):
    """The code generator, built from the working tree (san: extra flags)."""
    flags = (san or ["-O0"]) + ['-DHPP_PROTO_VERSION="vp"', NOUTF8, "-I" + REPO + "/src/protoc-plugin", "-I" + REPO + "/include"]
    srcs = sorted(os.path.join(REPO, "src/protoc-plugin", f) for f in os.listdir(REPO + "/src/protoc-plugin") if f.endswith(".cpp"))
    comp = CLANG
    objs = parallel([lambda s=s: compile_obj(s, flags, comp) for s in srcs])
    return link(objs, os.path.join(BUILD, "bin", "protoc-gen-hpp"), [f for f in flags if f.startswith(("-fsan", "-O"))], compiler=comp)


def gen_headers(protos, include=None, opts="", out=None, plug=None):
    """Runs the generator on protos (names relative to the include dirs); returns the output directory."""
    plug = plug or plugin()
    include = include or [os.path.join(VERIF, "protos")]
    key = sha(plug, opts, *protos, tree_hash(), *include)
    out = out or os.path.join(BUILD, "gen", key)
    mark = os.path.join(out, ".done")
    if os.path.exists(mark):
        return out
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    cmd = [PROTOC, "--plugin=protoc-gen-hpp=" + plug, "--hpp_out=" + (opts + ":" if opts else "") + out]
    cmd += ["-I" + i for i in include] + ["-I" + PROTOC_INC] + list(protos)
    r = sh(cmd)
    if r.returncode != 0:
        raise HarnessError("code generation failed: " + r.stdout[-2000:])
    open(mark, "w").close()
    return out


def gen_wkt(plug=None):
    names = "any duration timestamp field_mask empty wrappers struct api source_context type".split()
    return gen_headers(["google/protobuf/%s.proto" % n for n in names], include=[PROTOC_INC], plug=plug)


def fds(protos, include=None):
    """A FileDescriptorSet written by protoc."""
    include = include or [os.path.join(VERIF, "protos")]
    out = os.path.join(BUILD, "fds", sha(tree_hash(), *protos, *include) + ".bin")
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        r = sh([PROTOC, "--include_imports", "-o", out] + ["-I" + i for i in include] + ["-I" + PROTOC_INC] + list(protos))
        if r.returncode != 0:
            raise HarnessError("protoc failed: " + r.stdout)
    return out


class Ctx:
    """One run of one check."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.work = os.path.join(BUILD, "run", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replay = os.path.join(BUILD, "replay", pid)
        shutil.rmtree(self.replay, ignore_errors=True)
        os.makedirs(self.replay)
        self.evaluations = 0
        self.distinct = set()
        self.extra_distinct = 0
        self.counts = {}
        self.samples = []
        self.violations = []  # (key, detail, path)
        self.notes = []
        self.assumptions = []

    def log(self, *a):
        print("[%5.1fs]" % (time.time() - self.t0), *a, flush=True)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def violation(self, key, detail, path=None):
        if path is None:
            path = os.path.join(self.replay, "v%d.txt" % len(self.violations))
            with open(path, "w") as f:
                f.write(key + "\n" + detail + "\n")
        self.violations.append((key, detail, path))

    def absorb(self, st):
        self.evaluations += st.get("evaluations", 0)
        for k, v in st.get("counts", {}).items():
            self.count(k, v)
        self.distinct.update(st.get("distinct", []))
        for s in st.get("samples", []):
            if len(self.samples) < 12:
                self.samples.append(s)

    def run_driver(self, exe, mode, cases, shards=NCPU, args=(), env=None, timeout=780, tag="", cwd=None):
        """Runs a driver in `shards` processes; collects statistics and violations."""
        e = dict(os.environ); e.update(SAN_ENV); e.update(env or {})
        procs = []
        for i in range(shards):
            procs.append(self._start(exe, mode, cases, i, shards, args, e, tag, cwd))
        deadline = time.time() + timeout
        for i, (p, out, log) in enumerate(procs):
            self._finish(p, out, log, deadline, exe, mode, cases, i, shards, args, e, tag, cwd, first=True)

    def _start(self, exe, mode, cases, i, shards, args, e, tag, cwd):
        out = os.path.join(self.work, "%s%s-%d.json" % (mode, tag, i))
        log = os.path.join(self.work, "%s%s-%d.log" % (mode, tag, i))
        rd = os.path.join(self.replay, tag or "r")
        os.makedirs(rd, exist_ok=True)
        if os.path.exists(out):
            os.unlink(out)
        cmd = [exe, "--mode", mode, "--seed", str(self.seed), "--cases", str(cases), "--shard", str(i), "--nshards", str(shards), "--out", out, "--replay-dir", rd] + (["--thorough"] if self.thorough else []) + list(args)
        with open(log, "w") as f:
            return subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=cwd), out, log

    def _finish(self, p, out, log, deadline, exe, mode, cases, i, shards, args, e, tag, cwd, first):
        try:
            rc = p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill(); p.wait()
            raise HarnessError("%s shard %d did not finish in time (inconclusive)" % (mode, i))
        with open(log, errors="replace") as f:
            text = f.read()
        for m in re.finditer(r"^FAIL\t([^\t]*)\t(.*)$", text, re.M):
            detail = ""
            try:
                with open(m.group(2), errors="replace") as f:
                    detail = f.read()
            except OSError:
                pass
            self.violation(m.group(1), detail, m.group(2))
        if os.path.exists(out):
            try:
                with open(out) as f:
                    self.absorb(json.load(f))
            except ValueError:
                raise HarnessError("unreadable statistics of %s shard %d" % (mode, i))
        if rc in (0, 10):
            return
        if rc == 97 and first:
            self.log("shard %d stopped making progress; running it again" % i)
            q, out, log = self._start(exe, mode, cases, i, shards, args, e, tag, cwd)
            return self._finish(q, out, log, deadline, exe, mode, cases, i, shards, args, e, tag, cwd, False)
        m = re.search(r"^CRASHED-IN (.*)$", text, re.M)
        what, path = "?", log
        if m and os.path.exists(m.group(1)):
            path = m.group(1)
            with open(path, errors="replace") as f:
                body = f.read()
            lines = body.splitlines()
            what = (lines[1].split(" bytes=")[0] if len(lines) > 1 else "?")[:120]
            rep = re.search(r"(==\d+==ERROR.*|.*runtime error:.*|WARNING: ThreadSanitizer.*)", text)
            with open(path, "a") as f:
                f.write("\nexit %d\n%s\n" % (rc, text[rep.start() if rep else -3000:][:6000]))
        elif "LeakSanitizer" in text:
            what = "leak"
        elif rc in (96, 97, 98) or rc < 0:
            pass
        else:
            raise HarnessError("%s shard %d ended with %d:\n%s" % (mode, i, rc, text[-2000:]))
        if rc == -9:
            raise HarnessError("%s shard %d was killed (out of memory?)" % (mode, i))
        kind = "hang" if rc == 97 else "leak" if what == "leak" else "crash"
        with open(path, errors="replace") as f:
            self.violation("%s:%s:%s" % (mode, kind, what), f.read()[-6000:], path)


def known_findings(pid):
    """Lines of KNOWN_FINDINGS.txt: 'known: property=<id> key=<key> :: <what>' and 'fixed: ...' (which suppress nothing)."""
    out = {}
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
        for l in f:
            m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)$", l.rstrip("\n"))
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def finish(ctx, level, rule, require=(), assumptions=()):
    missing = [k for k in require if not ctx.counts.get(k)]
    known = known_findings(ctx.pid)
    new, seen = [], set()
    for k, d, path in ctx.violations:
        if k in known:
            seen.add(k)
        else:
            new.append((k, d, path))
    for k in known:
        if k in seen:
            print("KNOWN-FINDING: property=%s %s" % (ctx.pid, known[k]))
    cov = {"evaluations": ctx.evaluations, "distinct_nontrivial": len(ctx.distinct) + ctx.extra_distinct, "rule": rule,
           "samples": ctx.samples[:12], "observed": {k: ctx.counts[k] for k in sorted(ctx.counts)}, "notes": ctx.notes,
           "known_findings_seen": sorted(seen)}
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
          "assumptions": list(assumptions), "wall_s": round(time.time() - ctx.t0, 1), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        for k, d, path in new[:20]:
            print("  %s\n    %s" % (k, d[:700].replace("\n", "\n    ")))
        print("VIOLATION property=%s replay=%s" % (ctx.pid, new[0][2]))
        return 1
    if missing or ctx.evaluations == 0:
        print("INCONCLUSIVE: nothing observed for " + ", ".join(missing))
        return 2
    print("held: %d evaluations, %d distinct, %.1fs" % (ctx.evaluations, cov["distinct_nontrivial"], time.time() - ctx.t0))
    return 0
