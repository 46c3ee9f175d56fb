"""C23: Sync::Mutex (spec/Mutex.tla): histories of SPVM methods that share data under mutexes, recorded under controlled schedules, are followed by the specification; free runs under ThreadSanitizer."""
import sys, os, json, random, re, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, c22
from concurrent.futures import ThreadPoolExecutor


def program(rng, nth=None, k=None):
    nth = nth or rng.choice([2, 2, 3]); kinds = rng.choice([list(range(11)), [0, 1, 1], [2, 3, 4, 4], [5, 6, 6], [0, 8, 9], [1, 4, 6], [2, 3, 7]])
    ops = []
    for t in range(nth):
        for _ in range(k or rng.choice([1, 2, 3, 4])):
            o = rng.choice(kinds); ops.append((t, o, {0: rng.randrange(1, 5), 4: rng.randrange(2), 6: rng.randrange(2)}.get(o, rng.randrange(1, 9))))
    return nth, ops


def line(P, seed, pct, free=0): return "%d %d %d - %d" % (P[0], seed, pct, free) + "".join(" o %d %d %d" % x for x in P[1])


def events(out):
    ev, end = [], None
    for l in out.strip().split("\n"):
        a = l.split(); v = [int(x) for x in a[1:]]
        if a[0] == "I": ev.append({"e": "I", "t": v[0], "o": v[1], "a": v[2]})
        elif a[0] == "R": ev.append({"e": "R", "t": v[0], "r": v[1]})
        elif a[0] == "L": ev.append({"e": "L", "t": v[0], "k": v[1]})
        elif a[0] == "E": end = v
    return ev, end


def check(c):
    rng = random.Random("c23/%d" % c.seed); ex = ThreadPoolExecutor(2)
    cfg = "SPECIFICATION Spec\nCONSTANTS Mode = \"%s\" RowFile = \"rows.json\" Excl = TRUE\n%s"
    m = ex.submit(lambda: c.tlc("Mutex", cfg % ("model", "INVARIANT Atomic\nPROPERTY Done\n"), files={"rows.json": json.dumps({"rows": [], "threads": c.q(3, 5)})}, tag="model", workers=2, timeout=c.q(300, 1500)))
    env, so = c22.setup(c, "VMtx")

    def free():
        d = c22.tsan_build(c); log = c.path("tsanlog"); os.makedirs(log)
        r2 = random.Random("c23f/%d" % c.seed); progs = [program(r2, 4, 10) for _ in range(c.q(10, 100))]; lines = [line(P, 1, 0, c.q(15, 40)) for P in progs]
        e = dict(env, LD_PRELOAD=c22.TSAN, TSAN_OPTIONS="exitcode=0 detect_deadlocks=0 history_size=4 report_signal_unsafe=0 log_path=%s/r" % log)
        res, crash = c22.execute(c, lines, e, c.q(250, 1500), build=d, shards=3, cls="VMtx")
        for i in crash: c.violation("free:crash", "%s\n  program %s" % (crash[i], lines[i]), {"program": lines[i]})
        for i, o in sorted(res.items()):
            s = re.search(r"^S (-?\d+) (-?\d+) (\d+) (\d)", o, re.M); en = re.search(r"^E (-?\d+)", o, re.M); c.cov["traces_validated_against_impl"] += 1
            if s.groups() != ("0", "0", "0", "1"): c.violation("free:result", "lost or doubled items %s, lost additions %s, torn reads %s, x equals y %s\n  program %s" % (s.groups() + (lines[i],)), {"program": lines[i]})
            if en.group(1) != "0": c.violation("free:memory", "%s memory blocks left\n  program %s" % (en.group(1), lines[i]), {"program": lines[i]})
        n = c22.races(c, log); c.log("free runs: %d programs, %d data races" % (len(res), n))
    fr = ex.submit(free)
    progs = [program(rng) for _ in range(c.q(400, 6000))]
    jobs = [(P, line(P, rng.randrange(1, 10 ** 6), rng.choice([3, 8, 20, 50]))) for P in progs for _ in range(c.q(3, 5))]
    res, crash = c22.execute(c, [l for _, l in jobs], dict(env, LD_PRELOAD=so), c.q(150, 2000), cls="VMtx", shards=5)
    idx = sorted(res); evs = {i: events(res[i]) for i in idx}; nsh = 4

    def val(k):
        rr = idx[k::nsh]
        if not rr: return {}
        t = c.tlc("Mutex", cfg % ("rows", "CHECK_DEADLOCK FALSE\n"), files={"rows.json": json.dumps({"rows": [evs[i][0] for i in rr], "threads": 1})}, tag="rows%d" % k, workers=1, timeout=c.q(400, 3000))
        return {i: json.load(open(os.path.join(t["dir"], "out_%d.json" % (q + 1)))) for q, i in enumerate(rr)}
    v = {}
    with ThreadPoolExecutor(nsh) as e2:
        for x in e2.map(val, range(nsh)): v.update(x)
    ov, sw = {"readers": 0, "independent": 0}, 0
    for i in sorted(crash): c.violation("history:" + ("deadlock" if "DEADLOCK" in crash[i] else "crash"), "%s\n  program %s" % (crash[i], jobs[i][1]), {"program": jobs[i][1]})
    for i in idx:
        c.cov["traces_validated_against_impl"] += 1
        for k in v[i]["ov"]: ov[k] += 1
        e = evs[i][1]; sw += e[3]
        if v[i]["bad"]: c.violation("history:%s" % v[i]["why"], "event %d: %s\n  program %s" % (v[i]["bad"], json.dumps(evs[i][0][v[i]["bad"] - 1]), jobs[i][1]), {"program": jobs[i][1], "events": evs[i][0][:v[i]["bad"]]})
        elif e[0] or e[1] or e[2]: c.violation("history:memory", "%d memory blocks left, %d freed twice, %d written after being freed\n  program %s" % (e[0], e[1], e[2], jobs[i][1]), {"program": jobs[i][1]})
    for k in ov:
        if not ov[k] and len(idx) > 100: c.violation("blocks:" + k, "in %d histories never did %s" % (len(idx), {"readers": "two threads hold the same mutex for reading at the same time", "independent": "two threads hold two different mutexes at the same time"}[k]), {})
    c.cov["kinds"] = {"schedules": len(idx), "with two readers at a time": ov["readers"], "with both mutexes held": ov["independent"], "switch points": sw}
    c.log("%d histories, %s, %d switch points" % (len(idx), ov, sw))
    m.result(); fr.result()
    c.cov["bounds"] = "model: %d threads; %d schedules of %d programs, 2-3 threads, up to 4 operations each; free runs of 4 threads" % (c.q(3, 5), len(jobs), len(progs))


if __name__ == "__main__": vp.main("C23", check)
