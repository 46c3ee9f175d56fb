"""C28: calls by name (Native::MethodCall) bind, call and return as spec/DynCall.tla says: random signatures and histories of calls over shared variables."""
import sys, os, json, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, dyngen


def check(c):
    rng = random.Random("c28/%d" % c.seed); n = c.q(400, 6000)
    c.build(libs=vp.CORE_LIBS + ("Native::*",))
    rows, progs, names = [], {}, []
    for i in range(n):
        nm, row, src = dyngen.program(rng, i, c.q(24, 40)); rows.append(row); progs[nm] = src; names.append(nm)
    t = c.tlc("DynCall", "SPECIFICATION Spec\nCONSTANTS RowFile = \"rows.json\"\nINVARIANT Rejected\nCHECK_DEADLOCK FALSE\n", files={"rows.json": json.dumps({"rows": rows})}, workers=1, timeout=c.q(300, 3000))
    out = vp.run_programs(c, progs, shared=dyngen.shared(), timeout=c.q(120, 900), mem=True)
    kinds = {}
    for i, nm in enumerate(names):
        want = json.load(open(os.path.join(t["dir"], "out_%d.json" % (i + 1))))["runs"]; o = out[nm]; lines = []
        for k, w in enumerate(want[:-1]):
            f = w["ref"] if k % 4 else "-"
            lines.append("%d %s %s %s | %s" % (k, w["r"], f, dyngen.show(w["ret"]), " ".join([w["who"]] * (w["r"] != "bad") + [dyngen.show(x) for x in w["seen"]])))
            kinds[w["r"]] = kinds.get(w["r"], 0) + 1
        lines += ["%s %s" % (v, dyngen.show(want[-1]["final"][v])) for v in rows[i]["pool"]]
        c.cov["traces_validated_against_impl"] += 1
        if o.compile_error is not None: c.violation("compile", o.compile_error[:300], {"program": progs[nm]}); continue
        got = [l for l in o.lines if not l.startswith("\x01")]
        if got == lines and not o.crash and not o.mem: continue
        k = next((k for k in range(len(lines)) if k >= len(got) or got[k] != lines[k]), len(lines))
        op = rows[i]["ops"][k] if k < len(rows[i]["ops"]) else {}
        m = next((m for m in rows[i]["methods"] if op and m["name"] == op["m"]), {})
        c.violation("call:%s" % (op.get("via") or "end"), "%s %s\n  expected %s\n  got      %s %s" % (json.dumps(op)[:300], json.dumps(m.get("params"))[:300], lines[k] if k < len(lines) else "the end", got[k] if k < len(got) else "nothing", o.crash or ("%s memory blocks left" % o.mem if o.mem else "")), {"program": progs[nm], "op": op})
    c.sample({"methods": rows[-1]["methods"][0], "op": rows[-1]["ops"][0], "expected": lines[0]})
    c.cov["bounds"] = "%d programs of %d calls: %s" % (n, c.q(24, 40), ", ".join("%d %s" % (kinds[k], k) for k in sorted(kinds)))


if __name__ == "__main__": vp.main("C28", check)
