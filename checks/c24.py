"""C24: building again after changes (spec/Build.tla).  Histories of edits of every kind of source, failing builds, lost outputs and runs; every run must show what a build from nothing would."""
import sys, os, json, random, shutil, subprocess, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, langcheck, langgen
from concurrent.futures import ThreadPoolExecutor
# the settings given to spvmcc, as every C source sees them: the arguments of the config, its mode, the optimization
SET = "#ifndef OPT_\n#define OPT_ 0\n#endif\n#ifndef XARG\n#define XARG 0\n#endif\n#ifndef XMODE\n#define XMODE 0\n#endif\n"
# source -> file, contents for version v
S = {
    "own": ("Top.spvm", """class Top { use Used; use Nat; use Par; use Kid; use Face;
  precompile static method own : int () { return %d; }
  precompile static method show : string () { my $u = Used->new; my $k = Kid->new; my $f = (Face)$k;
    return "own=" . &own . " enum=" . Used->A . " cmeth=" . Used->c . " field=" . $u->{x} . " par=" . $k->{p} . " kid=" . $k->{q} . " face=" . $f->num . " acc=" . $u->z . " " . Nat->get; } }"""),
    "used": ("Used.spvm", None), "par": ("Par.spvm", None), "kid": ("Kid.spvm", None),
    "natspvm": ("Nat.spvm", "class Nat { native static method get : string ();  static method v : int () { return %d; } }"),
    "natc": ("Nat.c", SET + """#include "spvm_native.h"
extern int set_res(void); extern int set_src(void);
#include "sub/nath.h"
#include "sub/resh.h"
#include <stdio.h>
extern int natsrc(void); extern int natsrc_h(void); extern int ressrc(void); extern int ressrc_def(void); extern int res_mode(void); extern int ressrc_h(void); extern char linkv;
int32_t SPVM__Nat__get(SPVM_ENV* env, SPVM_VALUE* stack) { int32_t e = 0; char b[500];
  env->call_class_method_by_name(env, stack, "Nat", "v", 0, &e, __func__, __FILE__, __LINE__);
  snprintf(b, sizeof b, "natspvm=%%d natc=%d nath=%%d natsrc=%%d nathin=%%d natcfg=%%d resh=%%d ressrc=%%d rescfg=%%d resmode=%%d reshin=%%d link=%%d nset=%%d sset=%%d rset=%%d", stack[0].ival, NATH, natsrc(), natsrc_h(), NATCFG, RESH, ressrc(), ressrc_def(), res_mode(), ressrc_h(), (int)(intptr_t)&linkv, XARG * 4 + XMODE * 2 + OPT_, set_src(), set_res());
  stack[0].oval = env->new_string_nolen(env, stack, b); return 0; }
"""),
    "nath": ("Nat.native/include/sub/nath.h", "#define NATH %d\n"),
    "natsrc": ("Nat.native/src/sub/natsrc.c", '#include "sub/nath.h"\nint natsrc(void) { return %d; }\nint natsrc_h(void) { return NATH; }\n' + SET + 'int set_src(void) { return XARG * 4 + XMODE * 2 + OPT_; }\n'),
    "natcfg": ("Nat.config", None),
    "resh": ("Res.native/include/sub/resh.h", "#define RESH %d\n"),
    "ressrc": ("Res.native/src/ressrc.c", '#include "sub/resh.h"\nint ressrc(void) { return %d; }\nint ressrc_def(void) { return RESCFG; }\nint res_mode(void) { return RESMODE; }\n' + SET + 'int set_res(void) { return XARG * 4 + XMODE * 2 + OPT_; }\nint ressrc_h(void) { return RESH; }\n'),
    "rescfg": ("Res.config", "use strict; use warnings; use SPVM::Builder::Config;\nmy $c = SPVM::Builder::Config->new_gnu99(file => __FILE__); $c->ext(undef); $c->add_ccflag('-DRESCFG=%d'); $c->add_source_file('ressrc.c'); $c;\n"),
    "resmode": ("Res.fast.config", "use strict; use warnings; use SPVM::Builder::Config;\nmy %%o = @ARGV; my $c = SPVM::Builder::Config->load_base_config(__FILE__, []); $c->add_ccflag('-DRESMODE=%d', '-DXARG=' . (defined $o{XB} ? $o{XB} + 1 : ($o{XA} || 0) =~ /XB (\\d+)$/ ? $1 + 2 : $o{XA} || 0)); $c;\n"),
}
# what a class file shows depends on several numbers: versions are per aspect
ASPECTS = {"used": ["enum", "cmeth", "field", "acc"], "par": ["par"], "kid": ["kid", "face"], "natcfg": ["natcfg", "link"]}


def content(src, v):
    if src == "used": return "class Used { enum { A = %d }\n static method c : int () { return %d; }\n%s has x : public int;\n has z : ro public int;\n static method new : Used () { my $s = new Used; $s->{x} = %d; $s->{z} = %d; return $s; } }" % (v["enum"], v["cmeth"], "".join(" has pad%d : long;" % i for i in range(v["field"] % 4)), v["field"], v["acc"])
    if src == "par": return "class Par { %s has p : public int; method init : void () { $self->{p} = %d; } }" % ("".join("has pad%d : object; " % i for i in range(v["par"] % 3)), v["par"])
    if src == "kid": return "class Kid extends Par { interface Face; has q : public int; static method new : Kid () { my $s = new Kid; $s->init; $s->{q} = %d; return $s; }\n precompile method num : int () { return %d + $self->{q} - $self->{q}; } }" % (v["kid"], v["face"])
    if src == "natcfg": return "use strict; use warnings; use SPVM::Builder::Config;\nmy $c = SPVM::Builder::Config->new_gnu99(file => __FILE__); $c->add_ccflag('-DNATCFG=%d'); $c->add_source_file('sub/natsrc.c'); $c->add_ldflag('-Wl,--defsym=linkv=%d'); $c->use_resource('Res', mode => 'fast'); $c;\n" % (v["natcfg"], v["link"])
    return S[src][1] % v[src]


KEYS = ["own", "enum", "cmeth", "field", "acc", "par", "kid", "face", "natspvm", "natc", "nath", "natsrc", "natcfg", "link", "resh", "ressrc", "rescfg", "resmode"]
SRC = {k: next((s for s, a in ASPECTS.items() if k in a), k) for k in KEYS}
BREAK = ["own", "natc", "nath", "natsrc", "resh", "ressrc"]      # a syntax error in them stops the build
GEN = "Gen.spvm"


def history(rng, n, up, exe=False):
    ops, broken = [], set()
    for _ in range(n):
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            r = rng.random()
            if r < .72: ops.append({"k": "edit", "s": rng.choice(KEYS + ["main1", "main2"] * 2 if exe else KEYS), "v": rng.randrange(1, 90)})
            if exe == "set" and rng.random() < .6:
                ops.append({"k": "edit", "s": "set", "v": rng.randrange(16, 32)})
                if rng.random() < .5 and not broken: s = rng.choice(BREAK[1:]); broken.add(s); ops.append({"k": "break", "s": s, "v": 0})
            elif r < .80: ops.append({"k": "touch", "s": rng.choice(list(S)), "v": 0})
            elif r < .86: ops.append({"k": "lose", "s": rng.choice([".o", ".so", ".c", "all", "Res", "natsrc"]), "v": 0})
            elif r < .94 and not broken: s = rng.choice(BREAK); broken.add(s); ops.append({"k": "break", "s": s, "v": 0})
        if broken and rng.random() < .5: s = broken.pop(); ops.append({"k": "run", "s": "", "v": 0}); ops.append({"k": "edit", "s": s, "v": rng.randrange(1, 90)})
        if up and rng.random() < .3: ops.append({"k": "upgrade", "s": "", "v": 0})
        ops.append({"k": "run", "s": "", "v": 0})
        if rng.random() < .25: ops.append({"k": "run", "s": "", "v": 0})
    for s in broken: ops += [{"k": "edit", "s": s, "v": 5}, {"k": "run", "s": "", "v": 0}]
    ops = [{"k": "run", "s": "", "v": 0}] + ops
    if exe == "set": x = rng.choice(["natc", "natsrc", "ressrc"]); y = rng.randrange(4); ops = [ops[0], {"k": "edit", "s": "set", "v": 20 + y}, {"k": "break", "s": x, "v": 0}, ops[0], {"k": "edit", "s": x, "v": 7}, ops[0], {"k": "edit", "s": "set", "v": 24 + y}, ops[0], {"k": "edit", "s": "set", "v": 20 + y}, ops[0], {"k": "edit", "s": "set", "v": 20 + (y ^ 2)}, ops[0], {"k": "edit", "s": "set", "v": 20 + (y ^ 3)}] + ops
    # objects are shared by the programs of a build directory: only a program built alone there follows its settings
    if exe: ops = [dict(o, s=rng.choice(["main1", "main2"]) if exe != "set" else "main1") if o["k"] == "run" else o for o in ops]
    return {"v": {k: rng.randrange(1, 90) for k in KEYS + (["main1", "main2", "set"] if exe else [])}, "ops": ops, "set": exe == "set"}


def age(dirs, by):
    for d in dirs:
        for p, _, fs in os.walk(d):
            for f in fs:
                q = os.path.join(p, f); t = os.stat(q).st_mtime; os.utime(q, (t - by, t - by))


def replay(c, i, row, want, hdr, base=None):
    d = c.path("h%d" % i); lib, bd = os.path.join(d, "lib/SPVM"), os.path.join(d, "b"); os.makedirs(lib); os.makedirs(bd)
    v = dict(row["v"]); put = lambda s, t: (os.makedirs(os.path.dirname(os.path.join(lib, S[s][0])), exist_ok=True), open(os.path.join(lib, S[s][0]), "w").write(t))
    for s in S: put(s, content(s, v))
    open(os.path.join(lib, "Face.spvm"), "w").write("class Face : interface_t { required method num : int (); }"); open(os.path.join(lib, "Res.spvm"), "w").write("class Res;")
    drv = os.path.join(d, "t.pl"); open(drv, "w").write("use lib '%s/lib'; use SPVM 'Top'; print SPVM::Top->show, \"\\n\";" % d)
    hist, k, last = [], 0, None
    # in an executable the resources and link flags are those of the config of the program
    # the settings of spvmcc (mode, arguments, optimize) are seen by every source that is compiled
    CFG = """use strict; use warnings; use SPVM::Builder::Config::Exe; my %%o = @ARGV; my $c = SPVM::Builder::Config::Exe->new_gnu99(file => __FILE__); $c->use_resource('Res', mode => 'fast', argv => [@ARGV]); $c->add_ldflag('-no-pie', '-Wl,--defsym=linkv=%d');
$c->add_global_after_create_compile_info_cb(sub { my ($config, $info) = @_; $config->add_ccflag('-DXMODE=%d', '-DXARG=' . (defined $o{XB} ? $o{XB} + 1 : ($o{XA} || 0) =~ /XB (\\d+)$/ ? $1 + 2 : $o{XA} || 0)); });
$c;
"""
    def conf(m):
        open(os.path.join(lib, m + ".config"), "w").write(CFG % (v["link"], 0)); [open(os.path.join(lib, m + ".%s.config" % y), "w").write(CFG % (v["link"], 1)) for y in ("fast", "x")]
    mainf = lambda m: open(os.path.join(lib, m + ".spvm"), "w").write('class { use Top; static method main : void () { say "%s=%d " . Top->show; } }' % (m, v[m]))
    if base: shutil.rmtree(bd); subprocess.run(["cp", "-a", base, bd], check=True); mainf("main1"); mainf("main2"); conf("main1"); conf("main2")

    def settings():
        """The options of spvmcc for the setting v: some differ only by where an argument ends."""
        n, k = v["set"] // 4, v["set"] // 2 % 2
        a = {0: ["XA", str(n)], 1: ["XA", "7", "XB", str(n - 1)], 2: ["XA", "7 XB %d" % (n - 2)], 3: ["XA", "8", "XC", str(n), "XA", str(n)]}[n % 4]
        return [x for y in a for x in ("--config-argv", y)] + (["--mode", ["fast", "x"][n % 2]] if k else []) + ["--optimize=-O0%s" % (" -DOPT_=1" if v["set"] % 2 else "")]

    def execute(o):
        """Builds and runs: what the program shows."""
        if not base: return c.perl([drv], env={"SPVM_BUILD_DIR": bd}, timeout=120)
        ex = os.path.join(d, "ex_" + o["s"]); r = spvmcc(c, d, os.path.join(lib, o["s"] + ".spvm"), ex, os.path.dirname(lib), bd, extra=settings() if row["set"] else ())
        return r if r.rc != 0 else vp.run([ex], cwd=d, timeout=60)

    def outs(): return {os.path.relpath(os.path.join(p, f), bd): os.stat(os.path.join(p, f)).st_mtime for p, _, fs in os.walk(bd) for f in fs if not f.endswith(".lds") and not f.endswith(".boot.c")}
    for o in row["ops"]:
        hist.append(o["k"] + (":" + o["s"] if o["s"] else "") + ("=%d" % o["v"] if o["v"] else ""))
        age([d], 10)
        if o["k"] == "edit" and o["s"] in ("main1", "main2"): v[o["s"]] = o["v"]; mainf(o["s"])
        elif o["k"] == "edit" and o["s"] == "set": v["set"] = o["v"]
        elif o["k"] == "edit":
            v[o["s"]] = o["v"]; put(SRC[o["s"]], content(SRC[o["s"]], v))
            if base and o["s"] == "link": conf("main1"); conf("main2")
        elif o["k"] == "break": put(o["s"], content(o["s"], v) + ("\n} }\n" if S[o["s"]][0].endswith("spvm") else "\n#error broken\n"))
        elif o["k"] == "touch": os.utime(os.path.join(lib, S[o["s"]][0]))
        elif o["k"] == "lose":
            for p, _, fs in os.walk(bd):
                for f in fs:
                    q = os.path.join(p, f)
                    if o["s"] == "all" or f.endswith(o["s"]) or (o["s"][0] != "." and o["s"] in q): os.unlink(q)
        elif o["k"] == "upgrade": age([d], 100000); os.utime(hdr[0], (time.time() - 50000,) * 2)
        if o["k"] != "run": continue
        w = want[k]; k += 1; before = outs()
        r = execute(o); got = r.out.decode("latin-1").strip(); after = outs()
        c.cov["traces_validated_against_impl"] += 1
        hd = " ".join(hist); rep = {"files": v, "history": hist}
        if not w["ok"]:
            if r.rc == 0: c.violation("build:accepted", "a program with a broken source was built: %s" % hd, rep); return
            continue
        g = dict(x.split("=") for x in got.split()) if r.rc == 0 and "=" in got else {}
        exp = {x: str(y) for x, y in w["show"].items()}; exp["nathin"] = exp["nath"]; exp["reshin"] = exp["resh"]
        st = exp.pop("set", None)
        if row["set"]: exp.update(nset=st, sset=st, rset=str(int(st) // 4 * 4))
        for m in ("main1", "main2"):
            if m != o["s"]: exp.pop(m, None)
        if not g: c.violation("build:fails", "the run fails: %s\n  %s" % (r.err[-400:].decode("latin-1"), hd), rep); return
        diff = [x for x in exp if g.get(x) != exp[x]]
        if diff: c.violation("build:stale:%s" % diff[0], "%s shows %s, a build from nothing %s\n  after %s" % (diff[0], g.get(diff[0]), exp[diff[0]], hd), rep); return
        if not w["built"] and last == o["s"] and before != after: c.violation("build:again", "built again without a change: %s\n  after %s" % (sorted(x for x in after if after[x] != before.get(x))[:3], hd), rep); return
        last = o["s"]
        if w["all"]:
            old = sorted(x for x in after if after[x] == before.get(x) and (x.endswith(".o") or x.endswith(".so")))
            if old: c.violation("build:upgrade", "not built again after SPVM's version file changed: %s\n  after %s" % (old[:3], hd), rep); return
    shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- executables
HOST = {
    "HostErr.spvm": "class HostErr extends Error : public;",
    "HostNat.spvm": "class HostNat { native static method tag : string ($t : string); }",
    "HostNat.c": """#include "spvm_native.h"
int32_t SPVM__HostNat__tag(SPVM_ENV* env, SPVM_VALUE* stack) { stack[0].oval = env->concat(env, stack, env->new_string_nolen(env, stack, "nat:"), stack[0].oval); return 0; }
""",
    "HostNat.config": "use strict; use warnings; use SPVM::Builder::Config; SPVM::Builder::Config->new_gnu99(file => __FILE__);\n",
    "HostPre.spvm": "class HostPre { precompile static method tag : string ($t : string) { return \"pre:\" . $t; } }",
}


def spvmcc(c, d, main, out, lib, bd, timeout=200, extra=("--no-config",)): return c.perl([c.build_dir + "/script/spvmcc", "-B", bd, "-I", lib, "-o", out, "--optimize=-O0", "-q", *extra, main], cwd=d, timeout=timeout)


def lang_main(progs):
    src = "class {\n  use VP;\n" + "".join("  use %s;\n" % p["name"] for p in progs) + "  static method one : void ($i : int) {\n"
    for i, p in enumerate(progs): src += "    if ($i == %d) { VP->mark(\"\\x{01}BEGIN %s\"); eval { %s->main; }; if (eval_error_id) { VP->mark(\"\\x{01}EXC $@\"); } VP->mark(\"\\x{01}END %s\"); }\n" % (i, p["name"], p["name"], p["name"])
    return src + "  }\n  static method main : void () { for (my $i = 0; $i < %d; $i++) { &one($i); eval { }; } VP->mark(\"\\x{01}DONE\"); }\n}\n" % len(progs)


def exe_lang(c, base):
    """Programs of Lang.tla, some classes precompiled, in an executable."""
    progs = langcheck.generate(c, c.q(30, 250), c.seed, prefix="XE") + langcheck.generate(c, c.q(10, 100), c.seed, {"exc": 1.0, "guard": 1.0}, prefix="XX")
    d = c.path("xlang"); rng = random.Random("x%d" % c.seed); cl = dict(langgen.SHARED)
    for i, p in enumerate(progs): cl.update(langgen.Printer(p, [n for n in (p["name"], p["name"] + "::A", p["name"] + "::B") if i < c.q(8, 40) and rng.random() < .5]).render())
    cl["VP"] = vp.VP_CLASS; vp.write_classes(d, cl); open(os.path.join(d, "main.spvm"), "w").write(lang_main(progs))
    exps = langcheck.spec_run(c, progs, "xlang", workers=2, timeout=c.q(200, 1200))
    r = spvmcc(c, d, "main.spvm", "ex", d, base, c.q(200, 900))
    if r.rc != 0 or not os.path.exists(d + "/ex"): c.violation("exe:build", "spvmcc fails: %s" % r.err[-500:].decode("latin-1"), {"program": lang_main(progs)}); return
    r = vp.run([d + "/ex"], cwd=d, timeout=60); out = vp.parse_out(r.out)
    for p, e in zip(progs, exps):
        if e["halt"] == "big": continue
        o = out.get(p["name"]) or vp.ProgOut(); c.cov["traces_validated_against_impl"] += 1
        if not o.ended: o.crash = "timeout" if r.timed_out else "exit status %d" % r.rc
        df = langcheck.compare(e, o)
        if df: c.violation("exe:lang", "in an executable: %s\n%s" % (df, r.err[-300:].decode("latin-1")), {"program": p["name"], "classes": {k: v for k, v in cl.items() if k.startswith(p["name"])}}); return
    if r.rc != 0: c.violation("exe:exit", "the executable ends with %d: %s" % (r.rc, r.err[-300:].decode("latin-1")), {})


WORDS = [b"", b"a", b"ab c", b"100% %s %d %n", b"%%", b"x" * 250, b"y" * 700, "é日".encode(), b"\xff\xfe", b"a\nb", b"\n", b"-x", b"--help", b"'\"$@", b"\\n", b" ", b"%" * 300, b"0"]


def exe_args(c, base, rng):
    """One program, argument vectors as its program: both hosts against Host.tla."""
    d = c.path("xargs"); os.makedirs(d + "/SPVM")
    for f, t in HOST.items(): open(os.path.join(d, "SPVM", f), "w").write(t)
    src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib", "exe_tool.spvm")).read(); open(d + "/tool.spvm", "w").write(src)
    rows = [[k + w] for k in (b"s", b"d", b"D", b"M", b"w") for w in WORDS] + [[], [b""], [b"", b"", b"#"]]
    for _ in range(c.q(60, 1500)):
        rows.append([x for x in (rng.choice([b"s", b"p", b"w", b"e", b"E", b"#", b"@", b"l", b"i", b"n", b"c", b"?", b"", b"s", b"p"]) + (rng.choice(WORDS) if rng.random() < .6 else b"") for _ in range(rng.choice([1, 2, 4, 8]))) ])
        for j, a in enumerate(rows[-1]):
            if a[:1] == b"@": rows[-1][j] = b"@" * rng.randrange(1, 10)
        if rng.random() < .5: rows[-1].append(rng.choice([b"d", b"D", b"M"]) + rng.choice(WORDS))
        if rng.random() < .2: rows[-1] += [b"", b"sx"]
    ln = {k: next(i + 1 for i, l in enumerate(src.split("\n")) if "'%s'" % k in l) for k in "wdDe"}
    by = lambda s: list(s.encode())
    text = {"trace": {k: by("\n  eval::anon_class::0->main at tool.spvm line %d" % n) for k, n in ln.items()}, "empty": by("(empty)"), "none": by("(none)"), "native": by("nat:"), "pre": by("pre:"), "what": by("?"), "init": by("init"), "eid": by("1"), "zero": by("none"), "start": []}
    t = c.tlc("Host", 'SPECIFICATION Spec\nCONSTANT RowFile = "rows.json"\nCHECK_DEADLOCK FALSE\n', files={"rows.json": json.dumps({"rows": [[list(a) for a in r] for r in rows], "text": text, "dec": [by(str(i)) for i in range(1000)]})}, tag="host", workers=1, timeout=600)
    r = spvmcc(c, d, "tool.spvm", "ex", d, base)
    if r.rc != 0 or not os.path.exists(d + "/ex"): c.violation("exe:build", "spvmcc fails: %s" % r.err[-500:].decode("latin-1"), {"program": src}); return

    def one(i):
        w = json.load(open(os.path.join(t["dir"], "out_%d.json" % (i + 1)))); args = rows[i]; out, err = bytes(w["out"]), bytes(w["err"])
        hosts = [("executable", vp.run([d + "/ex"] + args, cwd=d, timeout=60))]
        if i % c.q(3, 2) == 0: hosts.append(("script", c.perl([c.build_dir + "/script/spvm", "-B", d + "/sb", "-I", d, "tool.spvm"] + args, cwd=d, timeout=100)))
        for h, g in hosts:
            c.cov["traces_validated_against_impl"] += 1
            why = "standard output" if g.out != out else "exit status" if (g.rc == 0) != w["ok"] or g.rc < 0 else "standard error" if not (g.err.startswith(err) if not w["ok"] else g.err == err) else None
            if not why and not w["ok"] and g.rc != 255: why = "exit status"
            if why: c.violation("exe:%s:%s" % (h, why), "%s of the %s with arguments %r: status %d, %r and %r, expected %s, %r and %r" % (why, h, args, g.rc, g.out[-150:], g.err[-150:], w["ok"], out[-150:], err[-150:]), {"args": [list(a) for a in args]}); return
    one(0)
    with ThreadPoolExecutor(vp.NCPU) as e2: list(e2.map(one, range(1, len(rows))))
    c.sample({"arguments": [a.decode("latin-1") for a in rows[-1]], "stdout": (bytes(json.load(open(os.path.join(t["dir"], "out_%d.json" % len(rows))))["out"])).decode("latin-1")[:300]})


def check(c):
    rng = random.Random("c24/%d" % c.seed); ex = ThreadPoolExecutor(2)
    cfg = "SPECIFICATION Spec\nCONSTANTS Mode = \"%s\" RowFile = \"rows.json\" Drop = {}\n%sCHECK_DEADLOCK FALSE\n"
    m = ex.submit(lambda: c.tlc("Build", cfg % ("model", "INVARIANT AsFresh\n"), files={"rows.json": json.dumps({"rows": [], "steps": c.q(7, 9)})}, tag="model", workers=2, timeout=c.q(200, 1500)))
    bd = c.build(libs=vp.CORE_LIBS)
    hdrs = [os.path.join(p, f) for p, _, fs in os.walk(bd) for f in fs if f == "spvm_version.h" and "/blib/" in p + "/"]
    for h in hdrs: os.utime(h, (10 ** 9, 10 ** 9))
    hs = [history(rng, c.q(5, 8), i % 12 == 0) for i in range(c.q(28, 400))]
    nx = c.q(4, 120); hs += [history(rng, c.q(1, 8) if i % 4 == 3 else c.q(4, 8), False, "set" if i % 4 == 3 else True) for i in range(nx)]
    t = c.tlc("Build", cfg % ("rows", ""), files={"rows.json": json.dumps({"rows": hs, "steps": 0})}, tag="rows", workers=1, timeout=600)
    want = [json.load(open(os.path.join(t["dir"], "out_%d.json" % (i + 1))))["runs"] for i in range(len(hs))]
    # histories with an upgrade change the time of a file that all share: they run one after another, at the end
    up = [i for i, h in enumerate(hs) if any(o["k"] == "upgrade" for o in h["ops"])]
    with ThreadPoolExecutor(vp.NCPU) as e2: list(e2.map(lambda i: replay(c, i, hs[i], want[i], hdrs), [i for i in range(len(hs) - nx) if i not in up]))
    for i in up:
        for h in hdrs: os.utime(h, (10 ** 9, 10 ** 9))
        replay(c, i, hs[i], want[i], hdrs)
    # executables: a build directory with the objects of the core serves all
    base = c.path("xbase"); os.makedirs(c.path("xseed")); open(c.path("xseed/m.spvm"), "w").write("class { static method main : void () { } }")
    r = spvmcc(c, c.path("xseed"), "m.spvm", "m", c.path("xseed"), base)
    if r.rc != 0: raise vp.BuildFailure("spvmcc: %s" % r.err[-500:].decode("latin-1"))
    bases = [c.path("xb%d" % i) for i in range(2)]
    for b in bases: subprocess.run(["cp", "-a", base, b], check=True)
    jobs = [ex.submit(exe_lang, c, bases[0]), ex.submit(exe_args, c, bases[1], rng)]
    with ThreadPoolExecutor(vp.NCPU) as e2: list(e2.map(lambda i: replay(c, i, hs[i], want[i], hdrs, base), range(len(hs) - nx, len(hs))))
    for j in jobs: j.result()
    m.result()
    c.cov["bounds"] = "%d histories of about %d builds; 18 kinds of source; the protocol for up to %d steps" % (len(hs), c.q(6, 9), c.q(7, 9))


if __name__ == "__main__": vp.main("C24", check)
