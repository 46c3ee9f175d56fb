"""Programs for C28: classes of methods with random signatures and histories of calls by name over shared variables (spec/DynCall.tla)."""
NUM = ["byte", "short", "int", "long", "float", "double"]
BOX = dict(zip(NUM, ["Byte", "Short", "Int", "Long", "Float", "Double"]))
MUL = [("Mc_2i", "int", "xy"), ("Mc_3d", "double", "xyz"), ("Mc_1b", "byte", "x"), ("Mc_2f", "float", "xy"), ("Mc_4l", "long", "xyzw"), ("Mc_2s", "short", "xy")]
OBJ = ["string", "int[]", "object", "object[]", "McA", "McB", "McI", "McC", "McA[]", "McI[]", "Int", "Long", "double[]", "byte[]", "int[][]", "string[]"]
# types a value may have
VALS = list(BOX.values()) + [x + "[]" for x in NUM] * 2 + ["string", "McA", "McB", "McC", "string[]", "McA[]", "McB[]", "McC[]", "Int[]", "int[][]", "object[]", "McI[]"]
MAKE = {"McC": "McC->new", "string[]": '["x"]', "McA[]": "[McA->new(1)]", "McB[]": "new McB[1]", "McC[]": "new McC[2]", "Int[]": "[Int->new(1)]", "int[][]": "[[1], [2, 3]]", "object[]": "[(object)1]", "McI[]": "new McI[1]"}
SUF = {"byte": "(byte)%d", "short": "(short)%d", "int": "%d", "long": "(long)%d", "float": "(float)%d", "double": "(double)%d"}
UNBOX = {v: k for k, v in BOX.items()}


def make(x):
    """The expression that makes a value."""
    t, v = x["t"], x["v"]
    if t == "": return "undef"
    if t in UNBOX: return "%s->new(%s)" % (t, SUF[UNBOX[t]] % v[0])
    if t == "string": return '"%s"' % v[0]
    if t in ("McA", "McB"): return "%s->new(%d)" % (t, v[0])
    if t.endswith("[]") and t[:-2] in NUM: return "[%s]" % ", ".join(SUF[t[:-2]] % k for k in v) if v else "new %s[0]" % t[:-2]
    return MAKE[t]


def show(x):
    if x["t"] == "": return "undef"
    return x["t"] + ":" + ",".join(str(k) for k in x["v"])


def value(rng, t=None, want=None):
    t = t or rng.choice(VALS)
    if t in UNBOX: return {"t": t, "v": [rng.randrange(-50, 100)]}
    if t == "string": return {"t": t, "v": [rng.choice(["", "a", "xyz"])]}
    if t in ("McA", "McB"): return {"t": t, "v": [rng.randrange(40)]}
    if t.endswith("[]") and t[:-2] in NUM: return {"t": t, "v": [rng.randrange(-40, 60) for _ in range(want if want is not None else rng.choice([0, 1, 1, 2, 2, 3, 4]))]}
    return {"t": t, "v": []}


P = lambda c, t, b="", w=0, d=0: {"c": c, "t": t, "b": b, "w": w, "def": d}
SELF = {"McA": P("obj", "McA"), "McB": P("obj", "McB")}


def M(name, cls, params, req, kind, ret=1, const=None, inst=False): return {"name": name, "cls": cls, "params": params, "req": req, "kind": kind, "ret": ret, "const": const or {"t": "", "v": []}, "inst": inst}


# the methods of McA and McB
FIXED = [M("add", "McA", [SELF["McA"], P("num", "int"), P("num", "int", d=3)], 2, "arg", 1, inst=True), M("add", "McB", [SELF["McB"], P("num", "int"), P("num", "int", d=3)], 2, "arg", 1, inst=True),
         M("base", "McA", [SELF["McA"], P("obj", "object")], 1, "arg", 2, inst=True), M("own", "McB", [SELF["McB"], P("num", "double")], 2, "arg", 2, inst=True),
         M("who", "McA", [SELF["McA"]], 1, "const", const={"t": "string", "v": ["A"]}, inst=True), M("who", "McB", [SELF["McB"]], 1, "const", const={"t": "string", "v": ["B"]}, inst=True),
         M("kn", "McA", [P("num", "short")], 1, "arg", 1), M("fail", "McB", [SELF["McB"]], 1, "dieX", inst=True)]


def method(m):
    """A method in SPVM: notes what it sees, changes what it can reach, and returns."""
    ps, seen, eff, names = [], [], [], []
    for j, p in enumerate(m["params"]):
        a = "$a%d" % (j + 1); self_ = m["inst"] and j == 0
        if self_: a = "$self"
        names.append(a)
        t = p["t"] + ("*" if p["c"] in ("ref", "mulref") else "")
        d = "" if j < m["req"] else " = " + ("undef" if p["c"] == "obj" else str(p["def"]))
        if not self_: ps.append("%s : %s%s" % (a, t, d))
        fs = next((f for n, b, f in MUL if n == p["t"]), "")
        if p["c"] in ("obj", "num"): seen.append("McU->show(%s)" % a)
        elif p["c"] == "ref": seen.append('McU->show([$%s])' % a)
        else: seen.append("McU->show([%s])" % ", ".join("%s->{%s}" % (a, f) for f in fs))
        if p["c"] == "ref": eff.append("$%s = (%s)($%s + 1);" % (a, p["t"], a))
        elif p["c"] == "mulref": eff.append("%s->{x} = (%s)(%s->{x} + 1);" % (a, p["b"], a))
        elif p["t"] == "int[]": eff.append("if (%s && @%s > 0) { %s->[0] += 10; }" % (a, a, a))
        elif p["t"] in ("McA", "McB") and p["c"] == "obj": eff.append("if (%s) { %s->{n}++; }" % (a, a))
    k = m["kind"]; ret = "void"; body = ""
    if k == "arg": ret = m["params"][m["ret"] - 1]["t"]; body = "return %s;" % names[m["ret"] - 1]
    elif k == "const": ret = m.get("rt") or m["const"]["t"] or "object"; body = "return %s;" % (SUF[ret] % m["const"]["v"][0] if ret in NUM else make(m["const"]))
    elif k == "die": ret = "int"; body = 'if (McU->ONE == 1) { die "boom"; } return 1;'
    elif k == "dieX": ret = "McA"; body = 'if (McU->ONE == 1) { die McErr "boomX"; } return undef;'
    if m["inst"] and m["cls"] == "McB" and m["name"] == "add": ret = "McA"
    return "  %smethod %s : %s (%s) { McU->note(\"%s\"); %s %s %s }" % ("" if m["inst"] else "static ", m["name"], ret, ", ".join(ps), m["cls"],
            " ".join("McU->note(%s);" % s for s in seen), " ".join(eff), body)


def shared():
    d = {n: "class %s : mulnum_t { %s }" % (n, " ".join("has %s : %s;" % (f, b) for f in fs)) for n, b, fs in MUL}
    d["McErr"] = "class McErr extends Error : public;"
    d["McI"] = "class McI : interface_t { required method who : string (); }"
    for c, e in (("McA", ""), ("McB", " extends McA")):
        d[c] = "class %s%s : public { use McU; use McI; use McErr; %s %s static method new : %s ($n : int) { my $s = new %s; $s->{n} = $n; return $s; }\n%s\n}" % (
            c, e, "interface McI;" if c == "McA" else "", "has n : protected int;" if c == "McA" else "", c, c, "\n".join(method(m) for m in FIXED if m["cls"] == c))
        d[c] = d[c].replace("protected int", "public int")
    d["McC"] = "class McC : public { static method new : McC () { return new McC; } }"
    cases = "".join(' elsif ($o isa %s) { $s = "%s:" . ((%s)$o)->value; }' % (b, b, b) for b in BOX.values())
    for t in NUM: cases += ' elsif ($o isa %s[]) { my $a = (%s[])$o; $s = "%s[]:"; for (my $i = 0; $i < @$a; $i++) { if ($i > 0) { $s .= ","; } $s .= (double)$a->[$i]; } }' % (t, t, t)
    d["McU"] = """class McU : public { use Fn; use McA; use McB; use Native::MethodCall::Error::ExceptionThrown; use McErr;
  our $LOG : string;
  static method ONE : int () { return 1; }
  static method note : void ($s : string) { if ($LOG) { $LOG .= " $s"; } else { $LOG = $s; } }
  static method take : string () { my $s = $LOG; $LOG = undef; unless ($s) { $s = ""; } return $s; }
  static method show : string ($o : object) { my $s : string; unless ($o) { $s = "undef"; }%s elsif ($o isa McB) { $s = "McB:" . ((McB)$o)->{n}; } elsif ($o isa McA) { $s = "McA:" . ((McA)$o)->{n}; } elsif ($o isa string) { $s = "string:" . (string)$o; } else { $s = (type_name $o) . ":"; } return $s; }
  static method ref : string ($r : int) { my $s : string; if ($r == -7) { $s = "same"; } elsif ($r == 0) { $s = "0"; } elsif ($r == basic_type_id McErr) { $s = "McErr"; } elsif ($r == basic_type_id Error) { $s = "Error"; } else { $s = "other"; } return $s; }
  static method end : void ($k : string, $id : int, $ret : object, $ref : int[]) { my $r = "ok"; if ($id == basic_type_id Native::MethodCall::Error::ExceptionThrown) { $r = "thrown"; my $e = $@; if (Fn->index($e, "boom") < 0) { $r = "thrown without the exception"; } } elsif ($id != 0) { $r = "bad"; }
    my $rs = &show($ret); my $f = "-"; if ($ref) { $f = &ref($ref->[0]); } my $l = &take; say "$k $r $f $rs | $l"; }
}""" % cases
    return d


def program(rng, i, nops):
    """One class of methods, variables and a history of calls; the rows of the specification and the source."""
    name = "Mcp%d" % i; ms = []
    for j in range(rng.choice([3, 4, 5])):
        ps, req = [], 0
        for q in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 5])):
            r = rng.random(); n, b, fs = rng.choice(MUL)
            if r < .35: ps.append(P("num", rng.choice(NUM)))
            elif r < .45: ps.append(P("mul", n, b, len(fs)))
            elif r < .56: t = rng.choice(NUM); ps.append(P("ref", t, t, 1))
            elif r < .66: ps.append(P("mulref", n, b, len(fs)))
            else: ps.append(P("obj", rng.choice(OBJ)))
        req = len(ps); k = rng.choice([0, 0, 1, 2, 3])
        while k and req and ps[req - 1]["c"] in ("num", "obj"):
            req -= 1; k -= 1
            if ps[req]["c"] == "num": ps[req]["def"] = rng.randrange(1, 90)
        can = [q + 1 for q, p in enumerate(ps) if p["c"] in ("num", "obj", "mul")]
        kind = rng.choice(["arg"] * 5 + ["const", "void", "die", "dieX"])
        if kind == "arg" and not can: kind = "void"
        m = M("f%d" % j, name, ps, req, kind, rng.choice(can) if kind == "arg" else 1)
        if kind == "const":
            m["const"] = rng.choice([{"t": "", "v": []}, value(rng, "McB"), value(rng, "string"), value(rng, "int[]"), value(rng, "Byte"), value(rng, "Long"), value(rng, "Double"), value(rng, "Float")])
            t = m["const"]["t"]
            if t in UNBOX: m["rt"] = UNBOX[t]
            elif t == "": m["rt"] = rng.choice(["object", "string", "McA", "int[]"])
        ms.append(m)
    nv = rng.choice([3, 4, 5]); pool = {}
    for k in range(nv): pool["p%d" % k] = value(rng)
    # variables that some method takes
    allm = ms + FIXED
    for k in range(3):
        p = rng.choice([p for m in ms + FIXED for p in m["params"]]); pool["q%d" % k] = fit(rng, p)
    ops = []
    for _ in range(nops):
        m = rng.choice(ms if rng.random() < .7 else FIXED); args = []
        for p in m["params"][:rng.choice([m["req"], len(m["params"]), len(m["params"])])]:
            r = rng.random()
            if r < .62: x = {"k": "val", "x": fit(rng, p)}
            else: x = None
            if r > .45:                      # a variable of a type that fits, if there is one
                vs = [n for n in pool if fits(p, pool[n])] if r < .95 else list(pool)
                if vs: x = {"k": "var", "n": rng.choice(vs)}
            args.append(x or {"k": "val", "x": rng.choice([value(rng), {"t": "", "v": []}, fit(rng, p), fit(rng, p), fit(rng, p)])})
        r = rng.random()
        if r < .05 and args: args.pop()
        elif r < .1: args.append({"k": "val", "x": value(rng)})
        via, cls, nm = "class", m["cls"], m["name"]
        if m["inst"]:
            via = rng.choice(["static", "inst", "inst"])
            if via == "static" and rng.random() < .4: cls = rng.choice(["McA", "McB"])
        if rng.random() < .06: via = {"class": "static", "static": "class", "inst": "inst"}[via]
        if rng.random() < .04: nm = rng.choice(["nope", "add", "f0", "kn"])
        if rng.random() < .03 and via != "inst": cls = rng.choice(["McZ", "McC", "McA", name])
        ops.append({"via": via, "cls": cls, "m": nm, "args": args, "how": rng.choice(["now", "now", "keep", "other"])})
    return name, {"methods": allm, "pool": pool, "ops": ops}, source(name, ms, pool, ops)


def fits(p, x):
    """Whether a value is of the type of a parameter, roughly: the specification decides."""
    if p["c"] == "num": return x["t"] == BOX[p["t"]]
    if p["c"] == "obj": return x["t"] == p["t"] or p["t"] == "object" or (p["t"], x["t"]) in (("McA", "McB"), ("McI", "McA"), ("McI", "McB"), ("McA[]", "McB[]"), ("object[]", "string[]"))
    return x["t"] == p["b"] + "[]" and len(x["v"]) == p["w"]


def fit(rng, p):
    if p["c"] == "num": return value(rng, BOX[p["t"]])
    if p["c"] != "obj": return value(rng, p["b"] + "[]", p["w"])
    t = p["t"]; r = rng.random()
    if r < .12: return {"t": "", "v": []}
    if t == "object": return value(rng)
    if t == "McA": t = rng.choice(["McA", "McB"])
    elif t == "McI": t = rng.choice(["McA", "McB"])
    elif t == "object[]": t = rng.choice(["string[]", "McA[]", "int[][]", "object[]", "Int[]"])
    elif t in ("McA[]", "McI[]"): t = rng.choice(["McA[]", "McB[]"])
    return value(rng, t)


def source(name, ms, pool, ops):
    s = ["class %s { use McU; use Native; use Native::MethodCall; use Mc_2i; use Mc_3d; use Mc_1b; use Mc_2f; use Mc_4l; use Mc_2s; use McC; use VP; use McErr;" % name] + [method(m) for m in ms]
    b = ["my $env = Native->get_current_env; my $other = $env->new_stack; my $kept = new Native::MethodCall[%d];" % len(ops)]
    for n in pool: b.append("my $%s : object = %s;" % (n, make(pool[n])))
    keep = {}
    for k, o in enumerate(ops):
        args = ["$" + a["n"] if a["k"] == "var" else "(object)" + make(a["x"]) for a in o["args"]]
        al = "[%s]" % ", ".join("(object)" + a if not a.startswith("(") else a for a in args) if args else ("undef" if k % 2 else "new object[0]")
        ref = "$r" if k % 4 else "undef"
        key = (o["via"], o["cls"], o["m"]) if o["via"] != "inst" else None
        new = {"class": 'new_class_method%s(%s"%s", "%s")', "static": 'new_instance_method_static%s(%s"%s", "%s")', "inst": "new_instance_method%s(%s%s, \"%s\")"}[o["via"]]
        who = o["cls"] if o["via"] != "inst" else "$a->[0]"
        if o["how"] == "other": e = "Native::MethodCall->" + new % ("_with_env_stack", "$env, $other, " if k % 3 else "undef, $other, ", who, o["m"]) + "->call($a, %s)" % ref
        elif o["how"] == "keep" and key:
            if key not in keep: keep[key] = k
            j = keep[key]; e = "$kept->[%d]->call($a, %s)" % (j, ref)
            b.append("eval { unless ($kept->[%d]) { $kept->[%d] = Native::MethodCall->%s; } };" % (j, j, new % ("", "", who, o["m"])))
        elif o["via"] == "inst": e = 'Native::MethodCall->call_instance_method("%s", $a, %s)' % (o["m"], ref)
        else: e = 'Native::MethodCall->call_%s("%s", "%s", $a, %s)' % ("class_method" if o["via"] == "class" else "instance_method_static", o["cls"], o["m"], ref)
        b.append("{ my $r = [-7]; my $a : object[] = %s; my $ret : object; my $id = 0; my $ok = 0; eval { $ret = %s; $ok = 1; }; unless ($ok) { $id = eval_error_id; } McU->end(\"%d\", $id, $ret, %s); }" % (al, e, k, ref))
    for n in pool: b.append('{ my $s = McU->show($%s); say "%s $s"; }' % (n, n))
    s.append("  static method t : void () {\n    %s\n  }" % "\n    ".join(b))
    s.append('  static method main : void () { VP->mark("\\x{01}%s"); McU->take; &t; eval { }; }\n}' % name)
    return "\n".join(s)
