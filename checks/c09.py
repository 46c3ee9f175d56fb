"""C09: every use of a member of every kind and attribute from every class, in every kind of method, compiles exactly if
Access.tla admits it; accessors exist and behave as declared."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp

PAR = {"S1": "D", "S2": "S1", "R": "D", "AC": "A"}
CTXS = ("method", "static", "anon", "INIT", "arg")


def family(n, member, cattr, x, use, extra=""):
    """The classes of one test: {name: source}; class x contains the use."""
    nm = lambda k: "Ac%d%s" % (n, k)
    out = {}
    for k in ("D", "S1", "S2", "R", "U", "A", "AC", "B"):
        u = {"D": "A", "S1": "D B", "S2": "S1", "R": "D", "AC": "A"}.get(k, "").split()
        body = "".join("use %s; " % nm(y) for y in u)
        if k == x:
            body += "".join("use %s; " % nm(y) for y in ("D", "S1", "S2") if y not in u and y != x)
        body += {"D": "allow %s; " % nm("A"), "S1": "allow %s; " % nm("B")}.get(k, "")
        if k == "D":
            body += member
        if k == x:
            body += use.replace("@", "Ac%d" % n)
        ext = " extends " + nm(PAR[k]) if k in PAR else ""
        out[nm(k)] = "class %s%s%s { %s}\n" % (nm(k), ext, " : " + cattr if k == "D" and cattr else "", body)
    return out


def member(k, a):
    a = a + " " if a else ""
    return {"method": a + "method m : int () { return 5; } ", "super": a + "method m : int () { return 5; } ", "qual": a + "method m : int () { return 5; } ", "smethod": a + "static method m : int () { return 5; } ",
            "cvar": "our $X : %sint; " % a, "field": "has x : %sobject; has y : %sint; " % (a, a), "new": "", "enum": "%senum { V = 3 } " % a,
            "getter": "has x : rw %sint; our $Y : rw %sint; " % (a, a), "setter": "has x : rw %sint; our $Y : rw %sint; " % (a, a)}[k]


USES = {"method": ["my $v = $o->m;", "my $v = ($o)->m + 1;"], "super": ["my $v = $o->SUPER::m;"], "qual": ["my $v = $o->@D::m;"], "smethod": ["my $v = @D->m;"],
        "cvar": ["my $v = $@D::X;", "$@D::X = 3;", "$@D::X++;"],
        "field": ["my $v = $o->{x};", "$o->{x} = undef;", "$o->{y} += 3;", "weaken $o->{x};", "my $w = isweak $o->{x};", "$o->{y}--;"],
        "new": ["my $v = new @D;"], "enum": ["my $v = @D->V;"],
        "getter": ["my $v = $o->x;", "my $v = @D->Y;"], "setter": ["$o->set_x(3);", "@D->SET_Y(3);"]}


def wrap(ctx, decl, use):
    return {"method": "method f : void (%s) { %s } " % (decl, use), "static": "static method f : void (%s) { %s } " % (decl, use),
            "anon": "static method f : void () { my $c = method : void (%s) { %s }; } " % (decl, use),
            "INIT": "INIT { %s %s } " % ("".join("my %s; " % d for d in [decl] if d), use), "arg": "static method f : void (%s) { if (1) { for (my $i = 0; $i < 2; $i++) { %s } } } " % (decl, use)}[ctx]


def check(c):
    c.build(libs=vp.CORE_LIBS)
    r = c.tlc("Access", "INIT Init\nNEXT Next\nINVARIANTS Monotone Own Outsider\nCHECK_DEADLOCK FALSE\n")
    d = json.load(open(os.path.join(r["dir"], "access.json")))
    shared, progs, want, info = {}, {}, {}, {}
    n = 0
    for row in sorted(d["rows"], key=lambda r: (r["k"], r["a"], r["x"], r["t"])):
        k, a, x, t = row["k"], row["a"], row["x"], row["t"]
        for ctx in CTXS:
            for u in USES[k]:
                n += 1
                decl = "$o : @%s" % t if "$o" in u else ""
                fam = family(n, member(k, a) if k != "new" else "", a if k == "new" else "", x, wrap(ctx, decl, u))
                main = "Ac%d%s" % (n, x)
                progs[main] = fam.pop(main)
                shared.update(fam)
                want[main] = row["ok"]
                info[main] = "%s %s of D used on a %s from %s in %s: %s" % (a or "plain", k, t, x, ctx, u)
    # accessors
    for row in d["acc"]:
        for kind in ("has x", "our $X"):
            for ty in ("int", "byte", "string", "Int[]", "Complex_2d"):
                if kind == "has x" and ty == "Complex_2d" or kind == "our $X" and ty == "Complex_2d":
                    continue
                n += 1
                nm = "Ac%dM" % n
                shared[nm] = "class %s { %s : %s %s %s; static method new : %s () { return new %s; } }\n" % (nm, kind, row["a"], row["v"], ty, nm, nm)
                rt = "int" if ty == "byte" else ty
                for w, use, ok in (("get", "my $v : %s = %s;" % (rt, "$o->x" if kind[0] == "h" else nm + "->X"), row["get"]),
                                   ("set", "%s(%s);" % ("$o->set_x" if kind[0] == "h" else nm + "->SET_X", {"int": "3", "byte": "300", "string": '"a"', "Int[]": "undef"}[ty]), row["set"]),
                                   ("getbyte", "my $v : byte = %s;" % ("$o->x" if kind[0] == "h" else nm + "->X"), False), ("set2", "%s(1, 2);" % ("$o->set_x" if kind[0] == "h" else nm + "->SET_X"), False),
                                   ("getarg", "%s(1);" % ("$o->x" if kind[0] == "h" else nm + "->X"), False), ("setnone", "%s;" % ("$o->set_x" if kind[0] == "h" else nm + "->SET_X"), False)):
                    p = "Ac%d%s" % (n, w)
                    progs[p] = "class %s { use %s; use Int; static method f : void ($o : %s) { %s } }\n" % (p, nm, nm, use)
                    want[p] = ok; info[p] = "accessor %s of %s : %s %s %s" % (w, kind, row["a"], row["v"], ty)
    # attributes that exclude one another
    for i, (src, ok) in enumerate((("has x : public private int;", 0), ("has x : ro rw int;", 0), ("has x : ro wo int;", 0), ("has x : protected ro int;", 1), ("our $X : public protected int;", 0),
                                   ("our $X : rw wo int;", 0), ("public private method m : void () { }", 0), ("protected static method m : void () { }", 1), ("has x : native int;", 0), ("our $X : static int;", 0),
                                   ("ro method m : void () { }", 0), ("required method m : void () { }", 0))):
        p = "AcX%d" % i
        progs[p] = "class %s { %s }\n" % (p, src); want[p] = bool(ok); info[p] = "attributes " + src
    for i, (a, ok) in enumerate((("public private", 0), ("protected public", 0), ("interface_t mulnum_t", 0), ("pointer interface_t", 0), ("pointer mulnum_t", 0), ("public pointer", 1), ("rw", 0), ("static", 0))):
        p = "AcY%d" % i
        progs[p] = "class %s : %s { }\n" % (p, a); want[p] = bool(ok); info[p] = "class attributes " + a
    if not c.thorough():      # every row always in one context and use, the others sampled by the seed
        import zlib
        keep = [p for i, p in enumerate(progs) if not info[p].split(" ")[0] in ("plain", "public", "private", "protected") or (zlib.crc32(info[p].encode()) + c.seed) % 3 == 0]
        progs = {p: progs[p] for p in keep}
    out = vp.compile_only(c, progs, shared=shared, timeout=c.q(200, 900))
    for p in progs:
        got = out[p] is None
        if got != want[p] or (out[p] or "").startswith("crash"):
            pre = p.rstrip("DSRUABC12getbyarnos")
            c.violation(info[p], "%s: specified %s, got: %s" % (info[p], "accepted" if want[p] else "refused", out[p] or "accepted"),
                        {"source": progs[p], "classes": {k: v for k, v in shared.items() if k[:len(pre)] == pre and not k[len(pre):len(pre) + 1].isdigit()}})
        else:
            c.cov["traces_validated_against_impl"] += 1
    c.log("%d uses compiled" % len(progs))
    # accessors run
    src, w = [], []
    for i, row in enumerate(sorted(d["nar"], key=lambda r: r["v"])):
        v = row["v"]
        src.append("    { my $o = new AcRun; $o->set_b(%d); $o->set_s(%d); $o->set_i(%d); AcRun->SET_B(%d); AcRun->SET_S(%d); my $b = $o->b; my $s = $o->s; my $i = $o->i; my $B = AcRun->B; my $S = AcRun->S; say \"$b $s $i $B $S\"; $o->{b}++; my $k = $o->b; say \"$k\"; }\n" % ((v,) * 5))
        w += ["%d %d %d %d %d" % (row["b"], row["s"], v, row["b"], row["s"]), "%d" % ((row["b"] + 1 + 128) % 256 - 128)]
    prog = "class AcRun { has b : rw byte; has s : rw short; has i : rw int; our $B : rw byte; our $S : rw short; static method main : void () {\n%s  } }\n" % "".join(src)
    for label, q in (("VM", prog), ("precompiled", prog.replace("class AcRun {", "class AcRun : precompile {"))):
        o = vp.run_programs(c, {"AcRun": q}, jit=label != "VM", timeout=120)["AcRun"]
        if o.lines != w:
            c.violation("accessors " + label, "%s: specified %s, got %s" % (label, w, o.brief()), {"source": q, "expected": w, "got": o.brief()})
        else:
            c.cov["traces_validated_against_impl"] += len(w)
    p = sorted(progs)[0]
    c.sample({"use": info[p], "accepted": want[p]})
    c.cov["scope"] = "members of %d kinds x 4 attributes x 8 classes x %d kinds of method" % (len(USES), len(CTXS))


if __name__ == "__main__":
    vp.main("C09", check)
