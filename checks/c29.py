"""C29: what Native::Runtime and its kin tell about classes is what was declared (spec/Reflect.tla): random declarations, described by the running program."""
import sys, os, json, random, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, reflgen


def check(c):
    rng = random.Random("c29/%d" % c.seed); n = c.q(120, 2000)
    c.build(libs=vp.CORE_LIBS + ("Native::*",))
    rows, progs, names, shared = [], {}, [], {"RfDump": reflgen.DUMP}
    for i in range(n):
        nm, row, src, main = reflgen.program(rng, i); rows.append(row); progs[nm] = main; shared.update(src); names.append(nm)
    t = c.tlc("Reflect", "SPECIFICATION Spec\nCONSTANTS RowFile = \"rows.json\"\nINVARIANT Sound\nCHECK_DEADLOCK FALSE\n", files={"rows.json": json.dumps({"rows": rows})}, workers=1, timeout=c.q(300, 3000))
    out = vp.run_programs(c, progs, shared=shared, timeout=c.q(120, 900), mem=True, jit=True)
    total = 0
    for i, nm in enumerate(names):
        o = out[nm]; want, asks = reflgen.lines(json.load(open(os.path.join(t["dir"], "out_%d.json" % (i + 1)))))
        c.cov["traces_validated_against_impl"] += 1
        if o.compile_error is not None: c.violation("compile", o.compile_error[:300], {"program": progs[nm]}); continue
        got = [re.sub(r"\w+::anon_method::\d+::\d+", "anon", l) for l in o.lines if not l.startswith("\x01")]; total += len(want) + len(asks)
        gasks = [l for l in got if l.startswith("ask ")]; g = sorted(l for l in got if not l.startswith("ask "))
        more = [l for l in g if l not in want]; less = [l for l in sorted(want) if l not in g]
        if more or less or len(g) != len(want) or o.crash or o.mem or o.exc:
            c.violation("describe:%s" % ((less or more or ["end end"])[0].split() + ["", ""])[1], "declared %s\n  told     %s %s" % (less[:2], more[:2], o.crash or o.exc or ("%s memory blocks left" % o.mem if o.mem else "")), {"program": progs[nm], "classes": {x: shared[x] for x in shared if x != "RfDump" and x in progs[nm]}}); continue
        k = next((k for k in range(len(asks)) if k >= len(gasks) or gasks[k] != asks[k]), None)
        if k is not None: c.violation("ask", "%s\n  expected %s\n  got      %s" % (rows[i]["asks"][k], asks[k], gasks[k] if k < len(gasks) else "nothing"), {"program": progs[nm], "classes": {x: shared[x] for x in shared if x != "RfDump" and x in progs[nm]}})
    c.sample({"class": rows[-1]["classes"][-1], "expected": want[-3:]})
    c.cov["bounds"] = "%d programs of 4 to 8 classes, %d facts" % (n, total)


if __name__ == "__main__": vp.main("C29", check)
