"""C06: for every ordered pair of types of Types.tla, and every literal and numeric type, the compiler accepts the
assignment (in every context) and the cast exactly when the specification does, and rejects with a message otherwise."""
import json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, typesgen as g


def check(c):
    c.build(libs=())
    r = c.tlc("Types", "INIT Init\nNEXT Next\nCONSTANTS Depth=%d What=\"static\"\nINVARIANTS Reflexive AssignIsCast Transitive Sound\nCHECK_DEADLOCK FALSE\n" % 3)
    d = json.load(open(os.path.join(r["dir"], "types.json")))
    types = {t["n"]: t for t in d["types"]}
    d = d["d"]
    progs, want = {}, {}

    def add(src, what, ok):
        n = "P%d" % len(progs)
        progs[n], want[n] = "class %s { %s }\n" % (n, src), (what, bool(ok))
    rng = random.Random("c06/%d" % c.seed)
    base = lambda x: x.replace("[]", "")
    for t, f, a, k in d["static"]:
        if not c.thorough and 3 in (types[t]["d"], types[f]["d"]) and base(t) != base(f) and rng.random() > 0.12:
            continue            # quick: pairs with a three-dimensional type are sampled, but for those of one basic type
        for cx, body in g.contexts(t, f, types):
            add(g.uses(t, f) + body, (cx, t, f), a)
        add(g.uses(t, f) + g.cast(t, f), ("cast", t, f), k)
    for t, k, s, p, dd, ok in d["lits"]:
        for cx, body in g.lit_contexts(t, g.lit_text(k, s, p, dd)):
            add(body, (cx, t, g.lit_text(k, s, p, dd)), ok)
    c.log("%d programs" % len(progs))
    out = vp.compile_only(c, progs, shared=g.SHARED)
    for n, (what, ok) in want.items():
        e = out[n]
        if e is None and ok or (e is not None and not ok and not e.startswith("crash") and e.strip() and "(no message)" not in e):
            c.cov["traces_validated_against_impl"] += 1
            continue
        got = "compiles" if e is None else "the compiler says: " + e.strip()[:300]
        c.violation("%s %s<-%s" % what, "%s: %s <- %s: specified %s, but %s" % (what[0], what[1], what[2], "accepted" if ok else "rejected", got),
                    {"context": what[0], "to": what[1], "from": what[2], "specified": ok, "got": got, "source": progs[n], "classes": g.SHARED})
    for n in list(want)[5:15000:5000]:
        c.sample({"source": progs[n], "specified": "accepted" if want[n][1] else "rejected", "messages": out[n]})
    c.cov["scope"] = "%d ordered pairs of types (dimensions up to 3%s) and %d literal/type pairs, each in up to 8 contexts" % (
        len(d["static"]), c.q(", pairs with three dimensions sampled", ""), len(d["lits"]))


if __name__ == "__main__":
    vp.main("C06", check)
