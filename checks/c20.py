"""C20: compilation at run time is all or nothing and repeatable (spec/Compiler.tla)."""
import sys, os, json, random, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from concurrent.futures import ThreadPoolExecutor

NAMES = ["Ka", "Kb", "Kc", "Kd"]
# kinds of faults: lines of a method body ("b"), of the class ("c") or a change of the whole text; the line the message has to name (offset, or None)
B = {
    "syntax": ["my $x = ;"], "assign": ["1 = 2;"], "undefvar": ["$nope = 1;"], "type": ['my $x : int = "s";'], "nomethod": ["&nomethod();"], "noclass": ["NoSuch->m();"],
    "interp": ['my $s = "a $nope b";'], "interp2": ['my $s = "a $x->{";'], "range": ["my $x = 99999999999;"], "escape": ['my $s = "\\q";'], "chr": ["my $c = 'ab';"],
    "last": ["last;"], "ret": ["return 1;"], "dupvar": ["my $x = 1;", "my $x = 2;"], "switchdup": ["switch (1) { case 1: { break; } case 1: { break; } }"], "nofield": ["my $o = new @;", "$o->{nofield} = 1;"],
    "callargs": ["&n(1, 2);"], "anonm": ["my $f = method : int () { return $nope; };"], "inst": ["$self->{x} = 1;"], "opr": ['my $x = "a" * 3;'], "cast": ['my $x = (int[])1;'], "arr": ["my $x = [1, \"a\"];"],
    "undeftype": ["my $x = undef;"], "cond": ["if (new @) { my $y : int = 1.5; }"], "hash": ["my $x : int = {a => 1};"], "weak": ["weaken $nope->{x};"], "longline": ['my $s = "' + "x" * 700 + '"; $nope;'],
    "nul": ['my $s = "ab\\0cd"; my $t = "ab"; my $u = "new literal @\\0x"; $nope;'], "num": ["my $x = 0b12;"], "evalb": ["eval { my $z : byte = 1000000; };"], "foreach": ["for my $e (1) { }"],
}
BO = {"dupvar": 1, "nofield": 1}
U = {"str": ['my $s = "abc;'], "sq": ["my $c = 'a;"], "heredoc": ["my $s = <<'EOS';", "text"], "heredoc2": ["my $s = <<\"EOS\";", "text $x->{"], "brace": ["{"], "paren": ["my $x = (1 + 2;"], "arrow": ["my $x = $self->"],
     "pod": ["", "=pod", "", "text"], "interpeof": ['my $s = "a @{[$x'], "linedir": ["#line 0x"]}
C = {"dupm": ["static method n : int () { return 1; }"], "dupv": ["our $G : long;"], "dupf": ["has f : int;", "has f : long;"], "badname": ["static method a__b : void () { }"], "enum": ["enum { X1, X1 }"], "nointerface": ["interface NoSuch;"],
     "reqif": ["interface @;"], "usebad": ["use lower;"], "useno": ["use NoSuch::Class;"], "allowno": ["allow;"], "fieldtype": ["has ff : NoSuch;"], "rettype": ["static method z1 : NoSuch () { return undef; }"],
     "argdef": ["static method z2 : void ($a : int = 1, $b : int) { }"], "alias": ["use Ka as lower;"], "methbody": ["static method z3 : void ()"], "fieldinit": ["has f3 : int = 1;"], "native": ["native static method z4 : void () { }"],
     "gvtype": ["our $H : void;"], "accessor": ["has f4 : rx int;"], "mulret": ["static method z5 : int () { }", "static method z5 : int ();"]}
CO = {"dupf": 1, "mulret": 1}
FAULTS = list(B) + ["u:" + k for k in U] + ["c:" + k for k in C] + ["empty", "mismatch", "noname", "noclose", "trunc", "trunc", "trunc", "comment"]


def source(name, x, rng):
    """The text of a content; x["fault"] says which fault; -> bytes, line of the fault (None: any), a fault there is"""
    v, u = x["v"], x["u"]
    head = "class %s%s {" % (name, (" extends " + x["e"]) if x["e"] else "")
    sep = rng.choice(["\n", "\n", "\n\n", "\n  # comment }\n", "\n\n=pod\n\nclass { } \"\n\n=cut\n\n"])
    o = [head] + ["  use %s;" % c for c in u] + ["  our $G : int;", "  INIT { $G = $G + %d; }" % (100 * v)]
    o += ["  static method n : int () { return %d; }" % v, "  static method nu : int () { return %d; }" % len(u)]
    o += ["  static method u%d : int () { return %s->n; }" % (i + 1, c) for i, c in enumerate(u)]
    o += ["  static method par : int () { return %s; }" % (x["e"] + "->n" if x["e"] else "0")]
    o += ["  static method rq : int () { if (require %s) { return %s->n; } else { return -1; } }" % (x["r"], x["r"]) if x["r"] else "  static method rq : int () { return 0; }"]
    o += ["  static method get : int () { return $G; }", "  static method set : void ($n : int) { $G = $n; }"]
    o += ['  static method s : string[] () { return ["ab\\0cd", "ab", "new literal %s\\0x", "%s v%d", "\\0-%d", "%s"]; }' % (name or "anon", name or "anon", v, v, "y" * (60 * v))]
    if v % 2: o += ["  static method am : int () { my $f = [$n : int = %d] method : int ($i : int) { my $g = method : int ($j : int) { return $j * 2; }; return $g->($n + $i); }; return $f->(1); }" % v]
    else: o += ["  static method am : int () { return %d; }" % (2 * v + 2)]
    o += ["  method own : string () { my $t = \"v%d\"; return \"$t-@{[$t]}\"; }" % v]
    f, line = x.get("fault"), 0
    if f in B:
        o.append("  static method bad : void () {"); line = len(o) + 1 + BO.get(f, 0)
        o += ["    " + l.replace("@", name or NAMES[0]) for l in B[f]] + ["  }"]
    elif f and f[:2] == "u:":
        o.append("  static method bad : void () {"); o += (["    " + l for l in U[f[2:]]] if f != "u:pod" else U["pod"]) + ["  }"]; line = None
    elif f and f[:2] == "c:":
        line = len(o) + 1 + CO.get(f[2:], 0); o += ["  " + l.replace("@", name or NAMES[0]) for l in C[f[2:]]]
        if f[2:] == "methbody": line = None
    o.append("}")
    if f == "mismatch": o[0] = o[0].replace("class %s" % name, "class Wrong"); line = 1
    if f == "noname": o[0], line = (o[0].replace("class %s" % name, "class", 1), 1) if name else (o[0].replace("class ", "class Named ", 1), 1)
    if f == "noclose": o.pop(); line = None
    t = "\n".join(o) + "\n"
    if sep != "\n":        # blank lines, comments and POD between the members
        t2 = o[0] + sep + "\n".join(o[1:]) + "\n"
        if line: line += t2.count("\n") - t.count("\n") if line > 1 else 0
        t = t2
    if f == "trunc": t, line = t[:rng.randrange(len(o[0]) + 1, len(t) - 3)], None
    if f == "empty": t, line = "", None
    if f == "comment": t, line = "# nothing\n", None
    if name == "": line = None
    return t.encode(), line


def content(rng, classes, name, v):
    p = lambda q: rng.random() < q
    oth = [c for c in classes if c != name]
    x = {"v": v, "e": rng.choice(oth) if p(.3) else "", "u": sorted(rng.sample(classes, rng.choice([0, 0, 1, 1, 2]))), "r": rng.choice(oth) if p(.25) else "", "k": 1 if p(.35) else 0}
    if x["k"]: x["fault"] = rng.choice(FAULTS if name else [f for f in FAULTS if f not in ("mismatch", "empty", "comment", "trunc", "c:reqif", "nofield", "cond")])
    return x


def history(rng, n):
    classes = NAMES[:rng.choice([2, 3, 3, 4])]
    v, ops = 0, []
    for c in rng.sample(classes, rng.randrange(1, len(classes) + 1)):
        v += 1; ops.append({"o": "write", "c": c, "x": content(rng, classes, c, v)})
    last = None
    while len(ops) < n:
        o = rng.choice(["write", "write", "comp", "comp", "comp", "comp", "anon", "init", "set", "rm", "fix", "fix"])
        c = rng.choice(classes)
        if o == "write": v += 1; ops.append({"o": o, "c": c, "x": content(rng, classes, c, v)})
        elif o == "fix":      # the same text without its fault, then compiled
            w = [q for q in ops if q["o"] == "write" and q["x"]["k"]]
            if not w: continue
            q = rng.choice(w); x = {k: y for k, y in q["x"].items() if k != "fault"}; x["k"] = 0
            ops += [{"o": "comp", "c": q["c"]}, {"o": "write", "c": q["c"], "x": x}, {"o": "comp", "c": q["c"]}]
        elif o == "anon": v += 1; ops.append({"o": o, "x": content(rng, classes, "", v)})
        elif o == "init": ops.append({"o": o})
        elif o == "set": ops.append({"o": o, "c": c, "n": rng.randrange(1, 99)})
        else: ops.append({"o": o, "c": c})
    for q in ops:
        if q["o"] in ("write", "anon"):
            q["text"], q["line"] = source(q.get("c", ""), q["x"], rng)
            x = q["x"] = dict(q["x"])
            if x.get("fault") in ("trunc", "empty", "comment"): pass
    ops.append({"o": "init"})
    return classes, ops


def lits(name, v):
    n = name or "anon"
    return "|".join(b.encode().hex() for b in ["ab\0cd", "ab", "new literal %s\0x" % n, "%s v%d" % (n, v), "\0-%d" % v, "y" * (60 * v), str(2 * v + 2)])


def incycle(files, b):
    x, n = b, 0
    while n < 9:
        x = files[x]["x"]["e"] if x in files else ""
        n += 1
        if x == b: return True
    return False


def check(c):
    rng = random.Random("c20/%d" % c.seed)
    hs = [history(rng, rng.choice([6, 10, 16, 24])) for _ in range(c.q(700, 9000))]
    strip = lambda o: {k: ({a: b for a, b in y.items() if a != "fault"} if k == "x" else y) for k, y in o.items() if k in ("o", "c", "x", "n")}
    cfg = "SPECIFICATION Spec\nCONSTANTS Mode = \"%s\" RowFile = \"rows.json\"\nINVARIANTS Closed NoCycle\n%sCHECK_DEADLOCK FALSE\n"
    with ThreadPoolExecutor(2) as ex:
        m = ex.submit(lambda: c.tlc("Compiler", cfg % ("model", "INVARIANT AllOrNothing\nPROPERTY Stable\n"), files={"rows.json": json.dumps({"rows": [], "classes": NAMES[:2], "depth": c.q(4, 5)})}, tag="model", timeout=c.q(300, 1200)))
        t = c.tlc("Compiler", cfg % ("rows", ""), files={"rows.json": json.dumps({"rows": [[strip(o) for o in ops] for _, ops in hs], "classes": NAMES, "depth": 0})}, tag="rows", workers=1, timeout=c.q(300, 3000))
        c.build(libs=vp.CORE_LIBS)
        m.result()
    exp = [json.load(open(os.path.join(t["dir"], "out_%d.json" % (i + 1)))) for i in range(len(hs))]
    d = c.path("ch"); os.makedirs(d, exist_ok=True)
    got = {}

    def shard(k):
        left, n = list(range(k, len(hs), vp.NCPU)), 0
        while left and n < 8:
            f = c.path("ch", "s%d_%d.jsonl" % (k, n)); dd = c.path("ch", "d%d_%d" % (k, n)); os.makedirs(dd)
            with open(f, "w") as fh:
                for i in left:
                    fh.write(json.dumps([i, NAMES, [dict(o=o["o"], c=o.get("c"), n=o.get("n"), src=o["text"].hex() if "text" in o else "", nu=len(o["x"]["u"]) if "x" in o else 0) for o in hs[i][1]]]) + "\n")
            r = c.perl([os.path.join(os.path.dirname(vp.__file__), "compile_hist.pl"), dd, f], timeout=c.q(200, 1500), cwd=d)
            for l in r.out.decode("latin-1").split("\n"):
                a, _, b = l.partition(" ")
                if a.isdigit() and b.endswith("]"): got[int(a)] = json.loads(b)
            if b"DONE" in r.out: return
            left = [i for i in left if i not in got]
            if left: got[left[0]] = "status %d: %s" % (r.rc, r.err[-400:].decode("latin-1")); left = left[1:]
            n += 1
    with ThreadPoolExecutor(vp.NCPU) as ex: list(ex.map(shard, range(vp.NCPU)))
    nk = {}
    for i, (classes, ops) in enumerate(hs):
        g, e = got.get(i, "nothing"), exp[i]
        c.cov["traces_validated_against_impl"] += 1
        bad = None
        files = {}
        if not isinstance(g, list): bad = (len(ops) - 1, "crash", str(g))
        else:
            for j, (o, w, r) in enumerate(zip(ops, e, g)):
                if o["o"] == "write": files[o["c"]] = o
                if o["o"] == "rm": files.pop(o["c"], None)
                kind = o["o"] + (":ok" if w["ok"] else ":refused"); nk[kind] = nk.get(kind, 0) + 1
                if bool(r["ok"]) != w["ok"]: bad = (j, kind, "expected %s, got %s %s" % ("success" if w["ok"] else "a refusal because of %s" % w["bad"], "success" if r["ok"] else "failure", r["msg"])); break
                if not w["ok"] and o["o"] in ("comp", "anon"):
                    # the message names the file and line of one of the faults
                    ok = False
                    for b in w["bad"]:
                        if b == "": ok = ok or bool(r["msg"]); continue
                        q = files.get(b)
                        if q is None:
                            ok = ok or (('"%s"' % b) in r["msg"] and " line " in r["msg"])
                            continue
                        if "Recursive inheritance" in r["msg"] and incycle(files, b): ok = ok or ("%s.spvm line 1" % b) in r["msg"]; continue
                        if not q["x"]["k"]: continue
                        ok = ok or (bool(re.search(r"%s\.spvm line %s(\D|$)" % (b, q["line"]), r["msg"])) if q["line"] is not None else "%s.spvm line " % b in r["msg"] or (not q["text"].strip() or q["x"].get("fault") == "comment") and b in r["msg"])
                    if not ok: bad = (j, "message", "the message does not name a fault of %s (%s): %s" % (w["bad"], [(b, files[b]["x"].get("fault"), files[b]["line"]) for b in w["bad"] if b in files], r["msg"][:600])); break
                if o["o"] == "anon" and w["ok"]: pass
                wl = {n: ([] if not w["obs"]["l"][n] else [dict(w["obs"]["l"][n][0], s=lits(n, w["obs"]["l"][n][0]["v"]))]) for n in NAMES}
                wa = [dict(x, s=lits("", x["v"])) for x in w["obs"]["a"]]
                if wl != r["l"]:
                    z = [n for n in NAMES if wl[n] != r["l"][n]][0]
                    bad = (j, "class", "class %s: expected %s, got %s" % (z, wl[z], r["l"][z])); break
                if wa != r["a"]: bad = (j, "anon", "anonymous classes: expected %s, got %s" % (wa, r["a"])); break
                na = 2 * sum(x["v"] % 2 for x in wa + [y for z in wl.values() for y in z])
                if r["extra"] != na: bad = (j, "types", "%d types more than classes in the runtime, %d expected" % (r["extra"], na)); break
        if bad:
            show = ["%s %s%s" % (o["o"], o.get("c", ""), " " + json.dumps(o["x"]) if "x" in o else "") for o in ops[:bad[0] + 1]]
            c.violation("hist:%s:%s" % (bad[1], ops[bad[0]].get("x", {}).get("fault", "") if bad[1] != "crash" else i), "%s\n  after %s" % (bad[2][:900], "; ".join(show[-6:])),
                        {"ops": [dict(o, text=o["text"].decode()) if "text" in o else o for o in ops[:bad[0] + 1]], "what": bad[2]})
    c.cov["kinds"] = nk
    c.log("operations %s" % nk)
    c.sample({"history": [strip(o) for o in hs[0][1]]})
    c.cov["bounds"] = "model: 2 classes, all contents of 144 shapes, depth 4; %d random histories over 4 classes, up to 24 operations, %d kinds of faults" % (len(hs), len(set(FAULTS)))


vp.main("C20", check)
