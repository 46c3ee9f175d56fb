"""C12: random programs over places of every kind; Store.tla (a flat memory) gives every value read."""
import json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, storegen


def check(c):
    c.build(libs=vp.CORE_LIBS)
    n, npre = c.q(320, 4000), c.q(12, 120)
    ps = []
    for i in range(n + npre):
        rng = random.Random("c12/%d/%d" % (c.seed, i))
        pre = i >= n
        ps.append((storegen.Gen(("Sq%d" if pre else "St%d") % i, rng, rng.choice([20, 40, 60]), many=rng.choice([0, 0, 0, 0, 40, 300]) if i % 4 == 0 else 0), pre))
    r = c.tlc("Store", "CONSTANT RowFile = \"rows.json\"\nINIT Init\nNEXT Next\nINVARIANTS Laws Copies\nCHECK_DEADLOCK FALSE\n", files={"rows.json": json.dumps([p.P for p, _ in ps])}, timeout=c.q(300, 2400), heap="8g")
    total = 0
    for jit in (False, True):
        sel = [(i, p) for i, (p, pre) in enumerate(ps) if pre == jit]
        srcs = {p.name: p.source(jit) for _, p in sel}
        out = vp.run_programs(c, srcs, shared=storegen.SHARED, mem=True, jit=jit, timeout=c.q(200, 900))
        for i, p in sel:
            e = [str(x) for x in json.load(open(os.path.join(r["dir"], "out_%d.json" % (i + 1))))]
            o = out[p.name]
            total += len(e)
            if o.lines != e or o.crash or o.exc is not None or o.compile_error or o.mem:
                j = next((j for j in range(min(len(e), len(o.lines))) if e[j] != o.lines[j]), min(len(e), len(o.lines)))
                c.violation("store %s" % (o.crash or (o.compile_error or "")[:80] or j), "%s%s: read %d: specified %r, got %r; %s" % (p.name, " precompiled" if jit else "", j, e[j:j+1], o.lines[j:j+1], o.crash or o.exc or o.compile_error or "mem %s" % o.mem),
                            {"source": srcs[p.name], "classes": storegen.SHARED, "expected": e})
            else:
                c.cov["traces_validated_against_impl"] += 1
    c.cov["reads"] = total
    c.sample({"program": ps[0][0].P["main"][:6]})
    c.log("%d programs, %d reads" % (len(ps), total))


if __name__ == "__main__":
    vp.main("C12", check)
