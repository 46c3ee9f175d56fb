"""Shared machinery of the checks: scratch build of /repo, running SPVM programs, running TLC,
evidence files, violations and known findings."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, atexit, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
NCPU = min(8, os.cpu_count() or 4)


CORE_LIBS = ("Fn", "Array", "Hash", "Format", "Sort", "Packer", "Sync::Mutex")


class ToolError(Exception):
    """The machinery itself failed (model error, build environment): not a verdict about the property."""


class BuildFailure(Exception):
    pass


def clean_env(extra=None):
    e = {"HOME": "/root", "LC_ALL": "C.UTF-8", "LANG": "C.UTF-8",
         "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
         "PERL_MM_USE_DEFAULT": "1", "SPVM_CC_QUIET": "1", "TZ": "UTC"}
    if extra:
        e.update({k: str(v) for k, v in extra.items()})
    return e


class Result:
    def __init__(self, rc, out, err, timed_out):
        self.rc, self.out, self.err, self.timed_out = rc, out, err, timed_out

    @property
    def crashed(self):
        return self.rc < 0 or self.rc >= 128


def run(cmd, cwd=None, env=None, timeout=120, input=None, mem_gb=6):
    """Run with a timeout, own process group, memory limit. Output as bytes."""
    def pre():
        import resource
        if mem_gb:
            lim = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, cwd=cwd, env=env or clean_env(), stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, preexec_fn=pre)
    try:
        out, err = p.communicate(input=input, timeout=timeout)
        return Result(p.returncode, out, err, False)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return Result(-9, out, err, True)


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="vp_%s_" % prop.lower(), dir=os.environ.get("VERIF_TMP", "/tmp"))
        atexit.register(self._cleanup)
        for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
            signal.signal(s, lambda *a: sys.exit(3))
        self.viol = []
        self.known_hits = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.build_dir = None
        self.known = load_known(prop)
        self.timing = {}

    def thorough(self):
        return self.tier == "thorough"

    def q(self, quick, thorough):
        return thorough if self.thorough() else quick

    def _cleanup(self):
        if os.environ.get("VERIF_KEEP"):
            print("kept", self.scratch, file=sys.stderr)
            return
        shutil.rmtree(self.scratch, ignore_errors=True)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, file=sys.stderr, flush=True)

    def path(self, *p):
        f = os.path.join(self.scratch, *p)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        return f

    # ---------------------------------------------------------------- build
    def build(self, libs="all", opt="-O1", defines=(), name="repo", env=None, cflags_extra=None):
        """Copy /repo's working tree, build the core and the class libraries named."""
        t = time.time()
        d = os.path.join(self.scratch, name)
        os.makedirs(d)
        r = run(["bash", "-c",
                 "cd %s && tar cf - --exclude=./.git --exclude=./_vp_state --exclude=./blib --exclude=./t/03_precompile "
                 "--exclude='.spvm_build' --exclude='*.o' --exclude=./SPVM.c --exclude=./SPVM.bs --exclude=./pm_to_blib "
                 "--exclude=./Makefile --exclude=./Makefile.old --exclude=./benchmark --exclude=./examples --exclude=./t/04_exe . "
                 "| tar xf - -C %s" % (REPO, d)])
        if r.rc != 0:
            raise ToolError("copy failed: %r" % r.err[-500:])
        e = clean_env(env)
        steps = [["perl", "Makefile.PL", "--no-precompile-tests", "--OPTIMIZE=%s" % opt] + ["--DEFINE=%s" % x for x in defines],
                 ["bash", "-c", "make -j8 pm_to_blib"],
                 ["make", "-j8", "blib/arch/auto/SPVM/SPVM.so"]]
        for s in steps:
            r = run(s, cwd=d, env=e, timeout=400, mem_gb=0)
            if r.rc != 0:
                raise BuildFailure("%s: %s" % (" ".join(s), (r.out + r.err)[-3000:].decode("utf8", "replace")))
        self.build_dir = d
        self._build_libs(d, libs, e)
        self.timing["build"] = round(time.time() - t, 1)
        self.log("built %s in %.1fs" % (name, time.time() - t))
        return d

    def _build_libs(self, d, libs, e):
        mk = open(os.path.join(d, "Makefile")).read()
        rules = re.findall(r"build_dynamic_lib_dist_(native|precompile)\('([\w:]+)'", mk)
        want = [(k, c) for k, c in rules if libs == "all" or c in libs or c.split("::")[0] + "::*" in libs]

        def one(kc):
            k, c = kc
            bd = ".sb_%s_%s" % (k, c.replace("::", "_"))
            r = run(["perl", "-Mblib", "-MSPVM::Builder::API", "-e",
                     "SPVM::Builder::API->new(build_dir => '%s')->build_dynamic_lib_dist_%s('%s', {force => 1})" % (bd, k, c)],
                    cwd=d, env=e, timeout=400, mem_gb=0)
            shutil.rmtree(os.path.join(d, bd), ignore_errors=True)
            return kc, r
        with ThreadPoolExecutor(NCPU) as ex:
            for kc, r in ex.map(one, want):
                if r.rc != 0:
                    raise BuildFailure("lib %s: %s" % (kc, (r.out + r.err)[-3000:].decode("utf8", "replace")))

    def perl(self, args, d=None, cwd=None, env=None, timeout=120, libdirs=(), mem_gb=6, input=None):
        d = d or self.build_dir
        cmd = ["perl", "-I" + d + "/blib/lib", "-I" + d + "/blib/arch"] + ["-I" + x for x in libdirs] + list(args)
        return run(cmd, cwd=cwd or self.scratch, env=clean_env(env), timeout=timeout, mem_gb=mem_gb, input=input)

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, files=None, workers=None, simulate=None, depth=None, timeout=600, heap="3g", extra=(),
            tag=None, props=(), seed=None, allow_violation=False, env=None):
        """Run TLC on SPEC/<module>.tla with the cfg text in a scratch dir. `files` = {name: content} put beside it.
        Returns dict(states, distinct, diameter, out, dir). Raises ToolError unless TLC finished without error."""
        tag = tag or module
        n = 0
        while os.path.exists(os.path.join(self.scratch, "tlc_%s_%d" % (tag, n))):
            n += 1
        d = os.path.join(self.scratch, "tlc_%s_%d" % (tag, n))
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        for k, v in (files or {}).items():
            with open(os.path.join(d, k), "wb") as fh:
                fh.write(v if isinstance(v, bytes) else v.encode())
        with open(os.path.join(d, "M.cfg"), "w") as fh:
            fh.write(cfg)
        cp = TLAJAR + ":" + ":".join(sorted(os.path.join("/opt/veriftools/tla", x) for x in os.listdir("/opt/veriftools/tla")
                                             if x.endswith(".jar") and "tla2tools" not in x))
        cmd = ["java", "-Xmx" + heap, "-Xss512m", "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + d] + ["-D" + p for p in props] + \
              ["-cp", cp, "tlc2.TLC", "-config", "M.cfg", "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-workers", str(workers or 1), "-fp", "0", "-seed", str(seed if seed is not None else self.seed)]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate]
        if depth:
            cmd += ["-depth", str(depth)]
        cmd += list(extra) + [module + ".tla"]
        t = time.time()
        r = run(cmd, cwd=d, env=clean_env(env), timeout=timeout, mem_gb=0)
        out = r.out.decode("utf8", "replace")
        res = {"out": out, "dir": d, "rc": r.rc, "wall": time.time() - t, "timed_out": r.timed_out}
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            res["generated"], res["distinct"] = [int(x.replace(",", "")) for x in m[-1]]
        else:
            m = re.findall(r"The number of states generated: ([\d,]+)", out)
            res["generated"] = res["distinct"] = int(m[-1].replace(",", "")) if m else 0
        if r.timed_out:
            raise ToolError("TLC %s timed out after %ss" % (module, timeout))
        if r.rc != 0 and not allow_violation:
            raise ToolError("TLC %s rc=%d\n%s" % (module, r.rc, out[-4000:] + r.err.decode("utf8", "replace")[-1000:]))
        self.cov["states"] += res["distinct"]
        self.cov["transitions"] += res["generated"]
        self.log("tlc %s: %d distinct, %.1fs" % (tag, res["distinct"], res["wall"]))
        return res

    # ---------------------------------------------------------------- verdicts
    def violation(self, key, what, replay):
        """key: stable identification of the failing input (for known findings)."""
        for k in self.known:
            if k["key"] == key:
                if k not in self.known_hits:
                    self.known_hits.append(k)
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]), flush=True)
                return
        rd = os.path.join(VERIF, "out")
        os.makedirs(rd, exist_ok=True)
        n = len(self.viol)
        p = os.path.join(rd, "%s_%d.json" % (self.prop, n))
        if n < int(os.environ.get("VERIF_MAXV", "5")):
            with open(p, "w") as fh:
                json.dump({"property": self.prop, "key": key, "what": what, "seed": self.seed, "tier": self.tier,
                           "replay": replay}, fh, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
            print("  " + str(what)[:1500], flush=True)
        self.viol.append(key)

    def sample(self, s):
        if len(self.cov["samples"]) < 3:
            self.cov["samples"].append(s)

    def finish(self):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.viol)}
        ev["coverage"]["timing"] = self.timing
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        self.log("done: violations=%d" % len(self.viol))
        sys.stdout.flush()
        sys.exit(1 if self.viol else 0)


def load_known(prop):
    f = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)) if k["property"] == prop and k.get("status") == "known"]


def main(prop, fn, level="model_checking"):
    c = Check(prop, level)
    try:
        fn(c)
        c.finish()
    except BuildFailure as e:
        # The tree does not build with the documented build steps: nothing of the property can hold.
        c.log("build failure: %s" % e)
        sys.exit(2)
    except ToolError as e:
        c.log("tool error: %s" % e)
        sys.exit(2)


# -------------------------------------------------------------------- running SPVM programs
VP_CLASS = """class VP {
  static method mark : void ($s : string) { say $s; eval { } }
}
"""


class ProgOut:
    """What one program did: lines printed, exception that left main, compile error, memory delta, crash."""
    def __init__(self):
        self.lines, self.exc, self.compile_error, self.mem, self.ended, self.crash, self.err = [], None, None, None, False, None, b""

    def brief(self):
        return {"lines": self.lines, "exc": self.exc, "compile_error": self.compile_error, "mem": self.mem,
                "crash": self.crash, "stderr": self.err[-600:].decode("utf8", "replace")}


def write_classes(d, classes):
    for name, src in classes.items():
        f = os.path.join(d, "SPVM", name.replace("::", "/") + ".spvm")
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "wb") as fh:
            fh.write(src if isinstance(src, bytes) else src.encode())


def parse_out(data, enc="latin-1"):
    res, cur, last = {}, None, None
    txt = data.decode(enc)
    for seg in txt.split("\n"):
        if seg.startswith("\x01BEGIN "):
            cur = ProgOut(); res[seg[7:]] = cur; last = None
        elif seg.startswith("\x01COMPILE "):
            cur.compile_error = seg[9:]; last = "c"
        elif seg.startswith("\x01EXC "):
            cur.exc = seg[5:]; last = "e"
        elif seg.startswith("\x01MEM "):
            cur.mem = int(seg[5:]); last = None
        elif seg.startswith("\x01END "):
            cur.ended = True; cur = None
        elif seg.startswith("\x01DONE"):
            res[None] = True
        elif cur is not None:
            if last == "e":
                cur.exc += "\n" + seg
            elif last == "c":
                cur.compile_error += "\n" + seg
            else:
                cur.lines.append(seg)
    return res


def run_programs(c, progs, shared=None, shard=None, timeout=60, mem=False, env=None, build_dir=None, libdirs=(), nproc=None, jit=False):
    """progs: {class name: source}.  Each is loaded and its main called; several per process.  A shard that does not
    run to its end is repeated program by program, so that a crash or hang is pinned on the program that causes it."""
    d = tempfile.mkdtemp(prefix="progs_", dir=c.scratch)
    write_classes(d, {"VP": VP_CLASS})
    write_classes(d, shared or {})
    write_classes(d, progs)
    names = list(progs)
    nproc = nproc or NCPU
    shard = shard or max(1, min(60, (len(names) + nproc - 1) // nproc))
    groups = [names[i:i + shard] for i in range(0, len(names), shard)]
    out = {}
    t_end = time.time() + max(240, timeout)
    ncrash = [0]

    def one(args):
        gi, g, tmo = args
        if time.time() > t_end or ncrash[0] >= 8:        # enough has been seen: do not run into the time limit of the check
            return g, Result(-9, b"", b"not run", True), {}
        lf = os.path.join(d, "list_%s" % gi)
        with open(lf, "w") as fh:
            fh.write("".join(n + "\n" for n in g))
        e = dict(env or {})
        if mem:
            e["VP_MEM"] = "1"
        bd = None
        if jit:
            bd = os.path.join(d, "sb_%s" % gi)
            e["SPVM_BUILD_DIR"] = bd
        r = c.perl([os.path.join(VERIF, "lib", "runner.pl"), d, lf], d=build_dir, env=e, timeout=tmo, libdirs=libdirs, cwd=d)
        if bd:
            shutil.rmtree(bd, ignore_errors=True)
        if r.timed_out or (len(g) == 1 and r.rc != 0):
            ncrash[0] += 1
        return g, r, parse_out(r.out)

    def crash_info(r):
        return "timeout" if r.timed_out else "exit status %d" % r.rc

    with ThreadPoolExecutor(nproc) as ex:
        redo = []
        for g, r, po in ex.map(one, [(i, g, timeout) for i, g in enumerate(groups)]):
            complete = po.get(None) and r.rc == 0
            if complete:
                for n in g:
                    out[n] = po[n]
                    out[n].err = r.err if len(g) == 1 else b""
            elif len(g) == 1:
                p = po.get(g[0]) or ProgOut()
                p.crash = crash_info(r); p.err = r.err
                out[g[0]] = p
            else:
                redo += g
        if redo:
            for g, r, po in ex.map(one, [("r%d" % i, [n], min(timeout, 20)) for i, n in enumerate(redo)]):
                p = po.get(g[0]) or ProgOut()
                p.err = r.err
                if not (po.get(None) and r.rc == 0):
                    p.crash = crash_info(r)
                out[g[0]] = p
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(d, ignore_errors=True)
    return out


def compile_only(c, progs, shared=None, shard=None, timeout=120, build_dir=None):
    """progs: {class name: source}.  {name: None if it compiles, else the error messages ("crash ..." if the compiler died)}."""
    d = tempfile.mkdtemp(prefix="comp_", dir=c.scratch)
    write_classes(d, shared or {})
    write_classes(d, progs)
    names = list(progs)
    shard = shard or max(1, min(400, (len(names) + NCPU - 1) // NCPU))
    out = {}

    def one(args):
        i, g = args
        lf = os.path.join(d, "list_%s" % i)
        with open(lf, "w") as fh:
            fh.write("".join(n + "\n" for n in g))
        r = c.perl([os.path.join(VERIF, "lib", "compile.pl"), d, lf], d=build_dir, timeout=timeout, cwd=d)
        res, cur = {}, None
        for l in r.out.decode("latin-1").split("\n"):
            if l.startswith("\x01O "):
                res[l[3:]] = None; cur = None
            elif l.startswith("\x01C "):
                cur = l[3:]; res[cur] = ""
            elif l == "\x01DONE":
                cur = None
            elif cur is not None:
                res[cur] += l + "\n"
        return g, r, res

    ncrash = [0]

    def group(args):
        i, g = args
        acc, k = {}, 0
        while g:
            _, r, res = one(("%s_%d" % (i, k), g))
            k += 1
            acc.update(res)
            if r.rc == 0 and not r.timed_out:
                break
            g = [n for n in g if n not in res]       # the first one left is the one the compiler died on
            if g:
                acc[g[0]] = "crash %s: %s" % ("timeout" if r.timed_out else "exit status %d" % r.rc, r.err[-300:].decode("latin-1"))
                g = g[1:]
            ncrash[0] += 1
            if ncrash[0] > 60:
                acc.update({n: "crash not run" for n in g})
                break
        return acc

    with ThreadPoolExecutor(NCPU) as ex:
        for acc in ex.map(group, [(i, names[s:s + shard]) for i, s in enumerate(range(0, len(names), shard))]):
            out.update(acc)
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(d, ignore_errors=True)
    return out
