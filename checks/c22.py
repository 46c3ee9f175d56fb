"""C22: references shared by threads (spec/Threads.tla): the protocol is explored exhaustively; histories recorded under controlled schedules must be histories of the specification; free runs under ThreadSanitizer
check that the steps of the specification are atomic in the implementation."""
import sys, os, json, random, re, shutil, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from concurrent.futures import ThreadPoolExecutor
THR = os.path.join(os.path.dirname(vp.__file__), "thr")
NP = 3


def program(rng, racy=True):
    nth = rng.choice([2, 2, 2, 3]); no = rng.choice([2, 3, 3, 4]); nsh = rng.choice([1, 2, 3])
    P = {"nth": nth, "no": no, "nsh": nsh, "f": {}, "s": {}, "p": {}, "ops": [[] for _ in range(nth)], "new": no}
    for o in range(1, no + 1):
        if rng.random() < .45:
            w = rng.random() < .4
            to = rng.choice([x for x in range(1, no + 1) if x != o]) if w else (rng.randrange(o + 1, no + 1) if o < no else 0)
            if to: P["f"][o] = (to, int(w))
    for i in range(nsh):
        if rng.random() < .85: P["s"][i] = (rng.randrange(1, no + 1), int(rng.random() < .45))
    for t in range(nth):
        for i in range(rng.choice([1, 1, 2])): P["p"][(t, i)] = rng.randrange(1, no + 1)
    strong = {x for x, w in list(P["f"].values()) + list(P["s"].values()) if not w} | set(P["p"].values())
    # every object is held from the start by something; weak slots of the others are undef at the start anyway
    for t in range(nth):
        for _ in range(rng.choice([1, 2, 2, 3, 4] if nth == 2 else [1, 1, 2])):
            d = rng.choice([(0, rng.randrange(nsh))] * 3 + [(2, rng.randrange(2))] + [(1, rng.randrange(NP))])
            o = rng.choice("aaaawwui" + ("r" if racy else "") + "n")
            if d[0] == 1 and o in "wui": o = "a"
            v = rng.choice([-1, -1, rng.randrange(NP)]) if o == "a" else 0
            if o == "n": P["new"] += 1; v = P["new"]
            P["ops"][t].append((o, d[0], d[1], v, rng.randrange(NP)))
    return P


def line(P, seed, pct, plan="-", free=0):
    o = "%d %d %d %d %d %s %d" % (P["nth"], P["nsh"], P["no"], seed, pct, plan, free)
    o += "".join(" f %d %d %d" % (a, b, w) for a, (b, w) in P["f"].items()) + "".join(" s %d %d %d" % (i, b, w) for i, (b, w) in P["s"].items()) + "".join(" p %d %d %d" % (t, i, b) for (t, i), b in P["p"].items())
    return o + "".join(" o %d %s %d %d %d %d" % ((t,) + x) for t in range(P["nth"]) for x in P["ops"][t])


def sname(t, dk, dn):
    if dk == 0: return "s%d" % dn
    if dk == 2: return "f%d" % dn
    if dn >= 100: return "p%d_%d" % (dn // 100, dn % 100)
    return "p%s_%d" % (t, dn)


def row(P, out):
    """the recorded history as a row for Threads.tla, and the last line"""
    objs = range(1, P["new"] + 1)
    sl = {"s%d" % i: [0, 0] for i in range(P["nsh"])}; sl.update({"f%d" % o: [0, 0] for o in objs})
    for t in range(P["nth"]): sl.update({"p%d_%d" % (t + 1, i): [0, 0] for i in range(NP)})
    for o, (b, w) in P["f"].items(): sl["f%d" % o] = [b, w]
    for i, (b, w) in P["s"].items(): sl["s%d" % i] = [b, w]
    sl.update({"m%d" % t: [0, 0] for t in range(P["nth"] + 1)})
    for (t, i), b in P["p"].items(): sl["p%d_%d" % (t + 1, i)] = [b, 0]
    # what only weak references refer to is gone before the threads start
    strong = lambda: {v[0] for v in sl.values() if not v[1]}
    while True:
        alive = strong(); z = [k for k, v in sl.items() if (v[0] and v[0] not in alive) or (k[0] == "f" and v[0] and int(k[1:]) not in alive)]
        if not z: break
        for k in z: sl[k] = [0, 0]
    ev, fin, end, started = [], {}, None, False
    for l in out.strip().split("\n"):
        a = l.split()
        if a[0] == "I":
            o = chr(int(a[2])); started = True
            if a[1] == "0" and fin is not None: ev.append({"e": "fin", "sl": fin}); fin = None
            ev.append({"e": "inv", "t": a[1], "x": {"o": o, "d": sname(a[1], int(a[3]), int(a[4])), "v": int(a[5]), "p": "p%s_%d" % (a[1], int(a[6])), "ph": "", "r": 0}})
        elif a[0] == "R": ev.append({"e": "ret", "t": a[1], "r": int(a[2])})
        elif a[0] == "D":
            if started or fin: ev.append({"e": "des", "t": a[1], "o": int(a[2])})
        elif a[0] == "F": fin[sname(str(int(a[2]) + 1), {"s": 0, "p": 1, "f": 2}[a[1]], int(a[3]))] = [int(a[4]), int(a[5])]
        elif a[0] == "E": end = [int(x) for x in a[1:]]
    return {"sl": sl, "pe": {str(t): {"o": "", "ph": "", "r": 0} for t in range(P["nth"] + 1)}, "ev": ev}, end


DRIVER = """use lib $ENV{VTHR}; use SPVM 'CLS'; $| = 1; while (<STDIN>) { chomp; my ($i, $p) = split / /, $_, 2; print "B $i\\n"; print SPVM::CLS->run($p), "--\\n" } print "DONE\\n";
"""


def execute(c, lines, env, timeout, build=None, shards=vp.NCPU, cls="VThr"):
    """-> {index: output}, {index: status of a crash}"""
    drv = c.path("thr%s.pl" % cls); open(drv, "w").write(DRIVER.replace("CLS", cls))
    res, crash = {}, {}

    def one(k):
        left, n = [i for i in range(len(lines)) if i % shards == k], 0
        while left and n < 6:
            r = c.perl([drv], d=build, env=env, timeout=timeout, input="".join("%d %s\n" % (i, lines[i]) for i in left).encode(), mem_gb=0)
            cur, txt = None, r.out.decode("latin-1")
            for m in re.finditer(r"^B (\d+)\n(.*?)^--$", txt, re.M | re.S): res[int(m.group(1))] = m.group(2)
            if "DONE" in txt: return
            left = [i for i in left if i not in res]
            if left: crash[left[0]] = ("does not end: %s" if r.timed_out else "status " + str(r.rc) + ": %s") % r.err[-300:].decode("latin-1"); left = left[1:]
            if r.timed_out: return
            n += 1
    with ThreadPoolExecutor(shards) as ex: list(ex.map(one, range(shards)))
    return res, crash


def setup(c, cls):
    c.build(libs=vp.CORE_LIBS); so = c.path("vsched.so")
    r = vp.run(["gcc", "-O1", "-g", "-shared", "-fPIC", "-o", so, os.path.join(THR, "vsched.c"), "-ldl", "-lpthread"], timeout=100)
    if r.rc: raise vp.ToolError("vsched: %s" % r.err[-500:])
    th = c.path("thr"); shutil.copytree(THR, th)
    env = {"VTHR": th, "SPVM_BUILD_DIR": c.path("thrb")}
    r = c.perl(["-e", "use lib $ENV{VTHR}; use SPVM '%s';" % cls], env=env, timeout=200)
    if r.rc: raise vp.BuildFailure("the thread harness: %s" % r.err[-800:].decode("latin-1"))
    return env, so


def check(c):
    rng = random.Random("c22/%d" % c.seed)
    ex = ThreadPoolExecutor(2)
    cfg = "SPECIFICATION Spec\nCONSTANTS Mode = \"%s\" RowFile = \"rows.json\" Merged = TRUE\n%sCHECK_DEADLOCK FALSE\n"
    m = ex.submit(lambda: c.tlc("Threads", cfg % ("model", "INVARIANT Safe\n"), files={"rows.json": json.dumps({"rows": [], "objs": 2, "ops": c.q(2, 3)})}, tag="model", workers=c.q(3, 6), timeout=c.q(300, 1500)))
    env, so = setup(c, "VThr")
    fr = ex.submit(lambda: free_runs(c, random.Random("c22f/%d" % c.seed), env, tsan_build(c)))
    progs = [DIRECTED[i % len(DIRECTED)] if i < 40 else program(rng) for i in range(c.q(700, 8000))]
    jobs = [(P, line(P, rng.randrange(1, 10 ** 6), rng.choice([15, 35, 60, 90]))) for P in progs for _ in range(c.q(4, 8))]
    res, crash = execute(c, [l for _, l in jobs], dict(env, LD_PRELOAD=so), c.q(120, 1500))
    rows, idx, ends = [], [], {}
    for i, (P, l) in enumerate(jobs):
        if i in res: r, ends[i] = row(P, res[i]); rows.append(r); idx.append(i)
        elif i in crash: rows.append(None); idx.append(i)
    nsh = c.q(6, 8)
    good = [j for j in range(len(rows)) if rows[j] is not None]
    def val(k):
        rr = good[k::nsh]
        if not rr: return {}
        t = c.tlc("Threads", cfg % ("rows", ""), files={"rows.json": json.dumps({"rows": [rows[j] for j in rr], "objs": 0, "ops": 0})}, tag="rows%d" % k, workers=1, timeout=c.q(400, 3000))
        return {j: json.load(open(os.path.join(t["dir"], "out_%d.json" % (q + 1))))["bad"] for q, j in enumerate(rr)}
    bad = {}
    with ThreadPoolExecutor(nsh) as e2:
        for x in e2.map(val, range(nsh)): bad.update(x)
    nud = sw = 0
    for j, i in enumerate(idx):
        P, l = jobs[i]
        c.cov["traces_validated_against_impl"] += 1
        if rows[j] is None: c.violation("history:crash", "%s\n  program %s" % (crash[i], l), {"program": l}); continue
        if bad[j] == -1: nud += 1; continue
        e = ends[i]; sw += e[3]
        if bad[j]:
            ev = rows[j]["ev"]; k = bad[j]
            c.violation("history:%s" % ev[k - 1]["e"], "event %d does not fit: %s\n  program %s\n  history %s" % (k, json.dumps(ev[k - 1]), l, " ".join(short(x) for x in ev[:k])), {"program": l, "events": ev[:k]})
        elif e[0] or e[1] or e[2]: c.violation("history:memory", "%d memory blocks left, %d blocks freed twice, %d written after being freed\n  program %s" % (e[0], e[1], e[2], l), {"program": l})
    c.cov["kinds"] = {"schedules": len(rows), "not defined (unprotected use of a dying object)": nud, "switch points": sw}
    c.log("%d histories, %d not defined, %d switch points" % (len(rows), nud, sw))
    m.result(); fr.result()
    c.cov["bounds"] = "protocol: 2 threads, 2 objects, 5 slots, every start, %d operations each; %d schedules of %d programs, 2-3 threads, up to 4 operations each; free runs of 4 threads" % (c.q(2, 3), len(rows), len(progs))


def short(x):
    if x["e"] == "inv": return "%s:%s(%s,%s)" % (x["t"], x["x"]["o"], x["x"]["d"], x["x"]["v"])
    if x["e"] == "ret": return "%s:->%d" % (x["t"], x["r"])
    if x["e"] == "des": return "%s:DESTROY %d" % (x["t"], x["o"])
    return "fin"


def D(nth, no, nsh, f, s, p, ops): return {"nth": nth, "no": no, "nsh": nsh, "f": f, "s": s, "p": p, "ops": ops, "new": no}
DIRECTED = [
    # a weak reference is overwritten while the last strong one is dropped (a counterexample of the unmerged protocol)
    D(2, 2, 2, {}, {0: (1, 1), 1: (1, 0)}, {(0, 0): 2, (1, 0): 2}, [[("a", 0, 0, -1, 0)], [("a", 0, 1, -1, 0)]]),
    # the weak reference is in an object that is destroyed
    D(2, 3, 1, {1: (2, 1)}, {0: (2, 0)}, {(0, 0): 1, (1, 0): 3}, [[("a", 1, 0, -1, 0)], [("a", 0, 0, -1, 0)]]),
    D(2, 2, 2, {}, {0: (1, 0), 1: (1, 0)}, {(0, 0): 2, (1, 0): 2}, [[("w", 0, 0, 0, 0), ("i", 0, 0, 0, 0)], [("w", 0, 1, 0, 0), ("i", 0, 1, 0, 0)]]),
    D(2, 2, 2, {}, {0: (1, 0), 1: (1, 0)}, {(0, 0): 2, (1, 0): 2}, [[("i", 0, 1, 0, 0), ("w", 0, 0, 0, 0), ("i", 0, 0, 0, 0)], [("a", 0, 1, -1, 0)]]),
    D(3, 2, 3, {}, {0: (1, 0), 1: (1, 0), 2: (1, 1)}, {(0, 0): 2, (1, 0): 2, (2, 0): 1}, [[("a", 0, 0, -1, 0)], [("a", 0, 1, 0, 0)], [("a", 1, 0, -1, 0)]]),
]


def free_program(rng, calls):
    P = program(rng); P["nth"] = 4; P["ops"] = [[] for _ in range(4)]
    P["p"] = {(t, i): rng.randrange(1, P["no"] + 1) for t in range(4) for i in range(2)}; P["new"] = P["no"]
    for t in range(4):
        for _ in range(12):
            d = rng.choice([(0, rng.randrange(P["nsh"]))] * 3 + [(2, rng.randrange(2))])
            o = rng.choice("aaaawwn" + ("cc" if calls else "")); v = rng.choice([-1, 0, 1]) if o == "a" else 0
            if o == "n": P["new"] += 1; v = P["new"]
            if o == "c": v = rng.randrange(9)
            P["ops"][t].append((o, d[0], d[1], v, 0))
    return P


TSAN = "/lib/x86_64-linux-gnu/libtsan.so.2"


def tsan_build(c):
    """a second copy of the build whose core is compiled with -fsanitize=thread"""
    d = c.path("tsan"); shutil.copytree(c.build_dir, d, symlinks=True)
    r = vp.run(["bash", "-c", "find . -name '*.o' -delete; rm -f blib/arch/auto/SPVM/SPVM.so; make -j4 blib/arch/auto/SPVM/SPVM.so OPTIMIZE='-O1 -g -fsanitize=thread' LDDLFLAGS='-shared -fsanitize=thread'"], cwd=d, env=vp.clean_env(), timeout=400, mem_gb=0)
    if r.rc: raise vp.ToolError("thread sanitizer build: %s" % r.err[-500:])
    return d


def free_runs(c, rng, env, build):
    """threads that run freely: what the specification takes as one step must be free of data races, counts must be exact at the end, and code on data of its own must give what it gives alone"""
    progs = [free_program(rng, i % 4 == 0) for i in range(c.q(24, 200))]
    lines = [line(P, 1, 0, "-", c.q(12, 40) if "c" in "".join(x[0] for o in P["ops"] for x in o) else c.q(60, 200)) for P in progs]
    log = c.path("tsanlog"); os.makedirs(log)
    e = dict(env, LD_PRELOAD=TSAN, TSAN_OPTIONS="exitcode=0 detect_deadlocks=0 history_size=4 report_signal_unsafe=0 log_path=%s/r" % log)
    res, crash = execute(c, lines, e, c.q(200, 1500), build=build, shards=3)
    for i in crash: c.violation("free:crash", "%s\n  program %s" % (crash[i], lines[i]), {"program": lines[i]})
    calls = 0
    for i, o in sorted(res.items()):
        P = progs[i]; calls += sum(x[0] == "c" for q in P["ops"] for x in q)
        early = len(re.findall(r"^D 0 ", o, re.M)); m = re.search(r"^M (\d+) (\d+)", o, re.M); en = re.search(r"^E (-?\d+)", o, re.M)
        c.cov["traces_validated_against_impl"] += 1
        for w in re.findall(r"^W (.*)", o, re.M): c.violation("free:result", "a thread got another result than the same call alone (argument, got, alone): %s\n  program %s" % (w, lines[i]), {"program": lines[i]})
        if int(m.group(2)) != int(m.group(1)) + P["no"] - early: c.violation("free:destroyed", "%s objects, %s destructor runs\n  program %s" % (int(m.group(1)) + P["no"] - early, m.group(2), lines[i]), {"program": lines[i]})
        if en.group(1) != "0": c.violation("free:memory", "%s memory blocks left\n  program %s" % (en.group(1), lines[i]), {"program": lines[i]})
    n = races(c, log)
    c.log("free runs: %d programs, %d calls on own data, %d data races" % (len(res), calls, n))


def count_offset(c):
    """where the reference count is in an object"""
    f = c.path("off.c"); open(f, "w").write('#include <stdio.h>\n#include <stddef.h>\n#include "spvm_typedecl.h"\n#include "spvm_object.h"\nint main(void) { printf("%d\\n", (int)offsetof(SPVM_OBJECT, ref_count)); return 0; }\n')
    r = vp.run(["gcc", "-I", os.path.join(c.build_dir, "lib/SPVM/Builder/include"), f, "-o", f + ".x"], timeout=60)
    return int(vp.run([f + ".x"]).out) if r.rc == 0 else None


def races(c, log):
    """data races inside the core.  A reading of the count that is not ordered with a change of it (a return takes its count back outside the big lock) is not one of them: it reads one aligned word, and the
    protocol allows either value."""
    races, off, benign = {}, count_offset(c), 0
    for f in os.listdir(log):
        for rep in open(os.path.join(log, f), errors="replace").read().split("=================="):
            m = re.search(r"WARNING: ThreadSanitizer: data race", rep)
            fr = re.findall(r"#\d+ (SPVM_\w+)", rep)
            if not m or not fr: continue
            a = [(k.lower(), int(n), int(x, 16)) for k, n, x in re.findall(r"(Read|Write|read|write) of size (\d+) at (0x[0-9a-f]+)", rep)]
            b = re.search(r"heap block of size \d+ at (0x[0-9a-f]+)", rep)
            if b and off is not None and a and any(k == "read" for k, _, _ in a) and all(n == 4 and x - int(b.group(1), 16) == off for _, n, x in a): benign += 1; continue
            races.setdefault(fr[0], rep)
    for f, rep in sorted(races.items()): c.violation("free:race:%s" % f, "data race in %s\n%s" % (f, rep[:1500]), {"report": rep[:4000]})
    return len(races)


if __name__ == "__main__": vp.main("C22", check)
