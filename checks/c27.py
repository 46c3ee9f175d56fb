"""C27: a native method does through the native API what the same operation written in SPVM does (spec/Native.tla)."""
import sys, os, json, random
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, "..", "lib")); sys.path.insert(0, os.path.join(H, "..", "lib", "native"))
import vp, heapgen, gen
from concurrent.futures import ThreadPoolExecutor

CFG = """SPECIFICATION %(spec)s
CONSTANTS MaxObj=%(obj)d NV=%(nv)d MaxLen=%(len)d Kinds={%(kinds)s} EveryStep=%(every)s
%(view)sINVARIANTS NoDangling Held FreshZero
%(prop)sCHECK_DEADLOCK FALSE
"""
CONF = [   # tag, kinds, length (quick, thorough), objects, variables
    ("links", ["new", "seto", "geto", "weak", "unw", "isw", "drop"], (3, 4), 2, 2),
    ("globals", ["new", "setg", "getg", "arr", "aset", "aget", "adrop", "ident", "move"], (3, 3), 3, 2),
    ("values", ["new", "setn", "getn", "sets", "gets", "setgs", "getgs", "setgn", "getgn"], (2, 3), 1, 1),
    ("kinds", ["kind", "eisa", "ist", "big", "cpym", "copy", "cpys", "ro", "short", "strs", "box", "muls", "mdim", "ptr", "new", "dump"], (2, 2), 1, 1),
    ("calls", ["new", "virt", "stat", "isa", "die", "boom", "relay", "tmp", "keep", "scope", "deep", "catch", "opt", "ref", "mul", "nums"], (2, 2), 1, 1),
]
LINKS = ["new", "seto", "seto", "weak", "unw", "isw", "drop", "geto", "setg", "getg", "arr", "aset", "adrop", "scope"]
ALL = sorted({k for c in CONF for k in c[1]} | {"cat"})


def cfg(spec, kinds, ln, every, obj, nv):
    return CFG % dict(spec=spec, obj=obj, nv=nv, kinds=heapgen.q(kinds), len=ln, every="TRUE" if every else "FALSE", view="" if every else "VIEW View\n", prop="" if every else "PROPERTY ErrKeeps\n")


def show(o):
    return "|".join([" ".join(str(x) for x in o["r"]), "".join(" %d" % x for x in o["v"]), "%d" % o["g"], "".join(" %d" % x for x in o["e"]), "".join(" %d" % x for x in sorted(o["d"])), "%d" % o["t"], "%d" % o["m"]])


def check(c):
    c.build(libs=vp.CORE_LIBS)
    with ThreadPoolExecutor(4) as ex:
        ms = list(ex.map(lambda x: heapgen.tlc_records(c.tlc("Native", cfg("Spec", x[1], c.q(*x[2]), False, x[3], x[4]), tag=x[0], workers=1, timeout=c.q(300, 3000))), CONF))
    jobs = []
    for (tag, kinds, ln, obj, nv), recs in zip(CONF, ms):
        cap = c.q(1500, 30000)
        jobs += [(tag, nv, False, r) for r in (recs if len(recs) <= cap else random.Random(c.seed).sample(recs, cap))]
        c.log("%s: %d transitions, %d traces run" % (tag, len(recs), min(len(recs), cap)))
    n = c.q(1200, 12000)
    def sim(i):
        return heapgen.tlc_records(c.tlc("Native", cfg("SpecSim", LINKS if i % 2 else ALL, 40, True, 8, 4), simulate=(n + 3) // 4, depth=45, seed=c.seed * 1000 + i, tag="sim%d" % i, timeout=c.q(300, 3000)))
    with ThreadPoolExecutor(4) as ex:
        jobs += [("sim", 4, True, r) for rs in ex.map(sim, range(4)) for r in rs]
    # the native class is compiled once; every program uses it
    bd = c.path("nb"); os.makedirs(bd, exist_ok=True)
    d = c.path("ntlib"); vp.write_classes(d, dict(gen.CLASSES, VP=vp.VP_CLASS, NtOnce="class NtOnce { use NtV; static method main : void () { NtV->start(1); } }"))
    for f, s in (("NtC.c", gen.C), ("NtC.config", gen.CONFIG)):
        with open(os.path.join(d, "SPVM", f), "w") as fh: fh.write(s)
    with open(c.path("once"), "w") as fh: fh.write("NtOnce\n")
    r = c.perl([os.path.join(vp.VERIF, "lib", "runner.pl"), d, c.path("once")], env={"SPVM_BUILD_DIR": bd}, timeout=200, cwd=d)
    if b"DONE" not in r.out or b"COMPILE" in r.out: return c.violation("build", "the native class does not load: %s" % (r.out + r.err)[-1500:].decode("latin-1"), {})
    groups, cur = [], []
    for j in range(len(jobs)):
        cur.append(j)
        if sum(len(jobs[i][3]["tr"]) for i in cur) >= 400: groups.append(cur); cur = []
    if cur: groups.append(cur)
    progs = {}
    for g, idx in enumerate(groups):
        src = ["class Np%d { use NtV; use NtS; use NtC; use Nt_2i; use VP;" % g]
        for i in idx:
            tag, nv, every, rec = jobs[i]
            tr = rec["tr"]; st = [gen.stmt(x[0], x[1], x[2]) for x in tr]
            if not every: st = [s.replace("NtV->obs($ok, eval_error_id);", "NtV->quiet;") for s in st[:-1]] + st[-1:]
            src.append("  static method t%d : void () { NtV->start(%d); eval { }; my $ok = 1; NtV->obs($ok, 0);\n    %s\n  }" % (i, nv, "\n    ".join(st)))
        src.append("  static method main : void () { %s NtV->start(1); }\n}\n" % " ".join('VP->mark("\\x{01}%d"); &t%d;' % (i, i) for i in idx))
        progs["Np%d" % g] = "\n".join(src)
    out = vp.run_programs(c, progs, shared={}, env={"SPVM_BUILD_DIR": bd, "NTLIB": d}, libdirs=[d], timeout=c.q(150, 1500))
    for g, idx in enumerate(groups):
        o = out["Np%d" % g]; got = {}; last = None
        for l in o.lines:
            if l.startswith("\x01"): last = int(l[1:]); got[last] = []
            elif last is not None: got[last].append(l)
        if o.compile_error is not None: c.violation("compile", "%s" % o.compile_error[:400], {"program": progs["Np%d" % g]}); continue
        for i in idx:
            tag, nv, every, rec = jobs[i]; tr = rec["tr"]
            want = [show(x[3][0]) for x in tr] if every else [show(rec["ob"])]
            have = got.get(i)
            c.cov["traces_validated_against_impl"] += 1
            if have == want: continue
            if have is None and o.crash: continue
            k = next((k for k in range(len(want)) if k >= len(have or []) or have[k] != want[k]), 0)
            ops = [[x[0], x[1]] for x in tr][:k + 1 if every else None]
            w = "nothing" + (", the process ended with %s" % o.crash if o.crash else "") if not have or k >= len(have) else have[k]
            c.violation("%s:%s:%s" % (tag, ops[-1][0][0], ops[-1][1]), "after %s\n  expected %s\n  got      %s\n  (result|variables|global|array|destroyed|temporaries|memory)" % (json.dumps(ops), want[k], w), {"trace": ops, "expected": want[k], "got": w})
        if o.crash and not any(i in got for i in idx): c.violation("crash", "%s %s" % (o.crash, progs["Np%d" % g][:600]), {"program": progs["Np%d" % g]})
    c.sample({"trace": [[x[0], x[1]] for x in jobs[-1][3]["tr"]], "observed": show(jobs[-1][3]["tr"][-1][3][0])})
    c.cov["bounds"] = "every transition of four operation sets to depth %s, both sides; %d random histories of 40 operations over all %d operations, 8 objects, 4 variables" % (c.q("2-3", "2-4"), n, len(ALL))


vp.main("C27", check)
