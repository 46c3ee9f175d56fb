#!/usr/bin/env python3
"""C05: integer arithmetic.  Arith.tla gives the result of every operator for every pair of sample values;
SPVM programs (interpreted and precompiled) compute the same tables."""
import sys, os, json, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp

TYPES = ["byte", "short", "int", "long"]
W = {"byte": 1, "short": 2, "int": 4, "long": 8}


def to_bytes(v, w):
    return list((v & ((1 << (8 * w)) - 1)).to_bytes(w, "little"))


def from_bytes(b):
    return int.from_bytes(bytes(b), "little", signed=True)


def lit(v, t):
    if t == "long":
        return "%dL" % v
    if t in ("byte", "short"):
        return "(%s)%d" % (t, v)
    if t in ("float", "double"):
        return "(%s)%d" % (t, v)
    return "%d" % v


def values(rng, t, n):
    b = 8 * W[t]
    lo, hi = -(1 << (b - 1)), (1 << (b - 1)) - 1
    core = [0, 1, -1, lo, hi, lo + 1, 2, -2]
    extra = [hi - 1, 3, -3, 7, 10, -10, hi // 2 + 1, lo // 2, 1 << (b // 2), -(1 << (b // 2)), (1 << (b // 2)) - 1, 100, -100]
    extra += [rng.randint(lo, hi) for _ in range(6)]
    extra += [rng.randint(lo, hi) >> rng.randint(0, b - 1) for _ in range(6)]
    if b == 64:
        extra += [(1 << 53) + 1, (1 << 53) + 3, -(1 << 53) - 1, (1 << 62) + 1, 0xffffffff, -0x80000000, 0x7fffffff, 0x80000000, (1 << 24) + 1]
    if b == 32:
        extra += [(1 << 24) + 1, (1 << 24) + 3, -(1 << 24) - 1, 32767, -32768, 65536, 0x55555555]
    rng.shuffle(extra)
    out = []
    for v in core + extra:
        v = ((v - lo) % (1 << b)) + lo
        if v not in out:
            out.append(v)
    return out[:n]


def rows(c):
    rng = random.Random(c.seed)
    R = []
    nv = c.q(11, 24)
    vals = {t: values(rng, t, nv) for t in TYPES}
    shifts = {t: sorted(set([0, 1, 8 * max(4, W[t]) - 1, 8 * W[t] - 1, 7, 16] + [rng.randint(0, 8 * max(4, W[t]) - 1) for _ in range(4)])) for t in TYPES}

    def add(kind, op, lt, rt, ls, rs):
        R.append({"kind": kind, "op": op, "lt": lt, "rt": rt, "ls": ls, "rs": rs})
    for lt in TYPES:
        for rt in TYPES:
            for op in ["+", "-", "*", "/", "%", "&", "|", "^", "==", "!=", "<", "<=", ">", ">=", "<=>", "and"]:
                add("bin", op, lt, rt, vals[lt], vals[rt])
            for op in ["+", "-", "*", "/", "%", "&", "|", "^"]:
                add("asg", op, lt, rt, vals[lt], vals[rt])
            if rt != "long":
                sh = [s for s in shifts[lt] if s < 1 << (8 * W[rt] - 1)]
                for op in ["<<", ">>", ">>>"]:
                    add("bin", op, lt, rt, vals[lt], sh)
                    add("asg", op, lt, rt, vals[lt], sh)
    for lt, rt in (("int", "int"), ("long", "long"), ("int", "long"), ("short", "int")):
        for op in ["add_gt", "sub_gt0", "neg_lt", "mul_div"]:
            add("chain", op, lt, rt, vals[lt], vals[rt])
    sm = [0, 1, -1, 2, -3, 7, 12, -100, 127, rng.randint(-128, 127), rng.randint(-128, 127)]
    for lt, rt in [(a, b) for a in TYPES + ["float", "double"] for b in TYPES + ["float", "double"] if "float" in (a, b) or "double" in (a, b)]:
        for op in ["+", "-", "*", "/", "==", "!=", "<", "<=", ">", ">=", "<=>"]:
            add("flt", op, lt, rt, sm, sm)
        for op in ["+", "-", "*"]:
            if lt in ("float", "double"):
                add("fltasg", op, lt, rt, sm, sm)
    for op in ["div_uint", "mod_uint"]:
        add("bin", op, "int", "int", vals["int"], vals["int"])
    for op in ["div_ulong", "mod_ulong"]:
        add("bin", op, "long", "long", vals["long"], vals["long"])
    big = {t: values(rng, t, 40) for t in TYPES}
    # values next to the middle of two neighbouring floats: rounding twice (through double) goes the other way
    for e in range(54, 63):
        for o in (1, -1):
            v = (1 << e) + (1 << (e - 24)) + o
            big["long"] += [v, -v]
    for e in range(26, 31):
        big["int"] += [s_ * ((1 << e) + (1 << (e - 24)) + o) for s_ in (1, -1) for o in (1, 0, -1)]
    for t in TYPES:
        for op in ["neg", "plus", "~", "!", "bool", "preinc", "predec", "cast_byte", "cast_short", "cast_int", "cast_long", "rt_float", "rt_double"]:
            add("un", op, t, t, big[t], [0])
    for r in R:
        r["lsi"], r["rsi"] = r["ls"], r["rs"]
        f = r["kind"].startswith("flt")
        r["ls"] = [to_bytes(v, 8 if f else W[r["lt"]]) for v in r["lsi"]]
        r["rs"] = [to_bytes(v, 8 if f else W[r["rt"]]) for v in r["rsi"]]
    return R


ALLT = TYPES + ["float", "double"]
TARGETS = ["local", "field", "elem", "cvar", "ref"]


def program(name, rs, attr):
    """One class with one method per row."""
    s = ["class %s {" % name, '  use Fn;', '']
    for t in ALLT:
        s.append("  has f_%s : %s;" % (t, t))
        s.append("  our $C_%s : %s;" % (t.upper(), t))
    for k, (i, r) in enumerate(rs):
        lt, rt, op = r["lt"], r["rt"], r["op"]
        s.append("  %s static method r%d : void ($ls : %s[], $rs : %s[]) {" % (attr, i, lt, rt))
        s.append("    my $o = new %s; my $arr = new %s[3];" % (name, lt))
        s.append("    for (my $i = 0; $i < @$ls; $i++) { for (my $j = 0; $j < @$rs; $j++) {")
        s.append("      my $l = $ls->[$i]; my $r = $rs->[$j];")
        tgt = TARGETS[i % len(TARGETS)]
        if r["kind"] == "bin":
            e = {"and": "$l && $r"}.get(op, "$l %s $r" % op)
            if op == "and":
                body = 'my $x = 0; if ($l && $r) { $x = 1; } print "$x ";'
            else:
                body = 'my $x = %s; print "$x ";' % e
        elif r["kind"] == "chain":
            e = {"add_gt": "$l + $r > $l", "sub_gt0": "$l - $r > 0", "neg_lt": "-$l < $r", "mul_div": "($l * $r) / $r"}[op]
            body = 'my $x = %s; print "$x ";' % e
            if op == "mul_div":
                body = 'eval { %s } if ($@) { print "EXC "; }' % body
        elif r["kind"] == "flt":
            body = 'my $x = (long)($l %s $r); print "$x ";' % op
            if op == "/":
                body = 'if ($r == 0) { print "0 "; } else { %s }' % body
        elif r["kind"] in ("asg", "fltasg"):
            body = {"local": "my $x = $l; $x %s= $r; print \"$x \";",
                    "field": "$o->{f_%s} = $l; $o->{f_%s} %%s= $r; my $x = $o->{f_%s}; print \"$x \";" % (lt, lt, lt),
                    "elem": "$arr->[1] = $l; $arr->[1] %s= $r; my $x = $arr->[1]; print \"$x \";",
                    "cvar": "$C_%s = $l; $C_%s %%s= $r; my $x = $C_%s; print \"$x \";" % ((lt.upper(),) * 3),
                    "ref": "my $y = $l; my $p = \\$y; $$p %s= $r; my $x = $y; print \"$x \";"}[tgt] % op
        else:
            if op in ("preinc", "predec"):
                sym = "++" if op == "preinc" else "--"
                body = {"local": "my $x = $l; my $z = S$x;my $w = $l; my $q = $wS; if ($z != $x || $q != $l || $w != $x) { print \"BAD \"; } print \"$x \";",
                        "field": "$o->{F} = $l; my $x = S$o->{F}; $o->{F} = $l; my $q = $o->{F}S; if ($q != $l || $o->{F} != $x) { print \"BAD \"; } print \"$x \";",
                        "elem": "$arr->[1] = $l; my $x = S$arr->[1]; $arr->[1] = $l; my $q = $arr->[1]S; if ($q != $l || $arr->[1] != $x) { print \"BAD \"; } print \"$x \";",
                        "cvar": "$C = $l; my $x = S$C; $C = $l; my $q = $CS; if ($q != $l || $C != $x) { print \"BAD \"; } print \"$x \";",
                        "ref": "my $y = $l; my $p = \\$y; my $x = S$$p; $y = $l; my $q = $$pS; if ($q != $l || $y != $x) { print \"BAD \"; } print \"$x \";"}[tgt]
                body = body.replace("$CS", "$C_%s%s" % (lt.upper(), sym)).replace("S$C", sym + "$C_" + lt.upper()).replace("$C ", "$C_%s " % lt.upper())
                body = body.replace("{F}S", "{f_%s}%s" % (lt, sym)).replace("{F}", "{f_%s}" % lt)
                body = body.replace("S$", sym + "$").replace("$wS", "$w" + sym).replace("]S", "]" + sym).replace("$pS", "$p" + sym)
            else:
                e = {"neg": "-$l", "plus": "+$l", "~": "~$l", "!": "!$l", "bool": "!!$l",
                     "cast_byte": "(byte)$l", "cast_short": "(short)$l", "cast_int": "(int)$l", "cast_long": "(long)$l",
                     "rt_float": "(%s)(float)$l" % lt, "rt_double": "(%s)(double)$l" % lt}[op]
                body = 'my $x = %s; print "$x ";' % e
        if r["kind"] == "fltasg":
            body = body.replace("my $x = $l;", "my $xx = $l;").replace("$x %s= $r" % op, "$xx %s= $r" % op, 1) if tgt == "local" else body
            body = body.replace('print "$x ";', 'my $q = (long)%s; print "$q ";' % ("$xx" if tgt == "local" else "$x"))
        throws = (op in ("/", "%") or op.startswith(("div", "mod"))) and r["kind"] in ("bin", "asg")
        if throws:
            body = 'eval { %s } if ($@) { print "EXC "; }' % body
        s.append("      " + body)
        s.append("    } }")
        s.append('    say "";')
        s.append("  }")
    s.append("  static method main : void () {")
    arrs = {}

    def arr(t, vs):
        key = (t, tuple(vs))
        if key not in arrs:
            n = "$a%d" % len(arrs)
            arrs[key] = n
            s.append("    my %s = new %s[%d];" % (n, t, len(vs)))
            for i, v in enumerate(vs):
                s.append("    %s->[%d] = %s;" % (n, i, lit(v, t)))
        return arrs[key]
    for i, r in rs:
        l, rr = arr(r["lt"], r["lsi"]), arr(r["rt"], r["rsi"])
        s.append("    &r%d(%s, %s);" % (i, l, rr))
    s.append("  }")
    s.append("}")
    return "\n".join(s) + "\n"


def lit_program(name, cases):
    """Operators applied to literal operands (the compiler sees constants)."""
    s = ["class %s {" % name, "  static method main : void () {"]
    for (e, _) in cases:
        s.append('    { my $x = %s; say "$x"; }' % e)
    s += ["  }", "}"]
    return "\n".join(s) + "\n"


def chk(c):
    c.build()
    R = rows(c)
    c.log("rows", len(R))
    slim = [{k: r[k] for k in ("kind", "op", "lt", "rt", "ls", "rs")} for r in R]
    res = c.tlc("Arith", 'SPECIFICATION Spec\nINVARIANT LawsHold\nCHECK_DEADLOCK FALSE\nCONSTANT RowsFile = "rows.json"\n',
                files={"rows.json": json.dumps({"rows": slim})}, workers=8, timeout=800)
    exp = []
    for i, r in enumerate(R):
        t = json.load(open(os.path.join(res["dir"], "out_%d.json" % (i + 1))))
        exp.append([[("EXC" if "exc" in x else None if "skip" in x else str(from_bytes(x["v"]))) for x in row] for row in t])
    npairs = sum(len(r["lsi"]) * len(r["rsi"]) for r in R)
    for mode in ("vm", "precompile"):
        attr = "" if mode == "vm" else "precompile"
        progs = {}
        n = 8
        for g in range(n):
            part = [(i, r) for i, r in enumerate(R) if i % n == g]
            progs["TA%d" % g] = program("TA%d" % g, part, attr)
        t = vp.time.time()
        out = vp.run_programs(c, progs, shard=1, jit=(mode == "precompile"), timeout=200)
        c.log("ran", mode, "%.1f" % (vp.time.time() - t))
        for g in range(n):
            o = out["TA%d" % g]
            part = [(i, r) for i, r in enumerate(R) if i % n == g]
            if o.compile_error or o.exc or o.crash or len(o.lines) != len(part):
                k = len(o.lines)
                r = part[k][1] if k < len(part) else {}
                c.violation("run:%s:%s %s %s" % (mode, r.get("lt"), r.get("op"), r.get("rt")),
                            "program of arithmetic tables did not complete (%s): %s after %d rows; next row %s" % (
                                mode, o.crash or o.exc or o.compile_error, k, {x: r[x] for x in ("kind", "op", "lt", "rt")} if r else None),
                            {"program": progs["TA%d" % g], "out": o.brief()["stderr"]})
                continue
            for (i, r), line in zip(part, o.lines):
                got = line.split()
                want = [x for row in exp[i] for x in row]
                if len(got) != len(want):
                    c.violation("row:%s:%s:%s %s %s" % (mode, r["kind"], r["lt"], r["op"], r["rt"]), "wrong number of results: %s" % line[:300], {"row": slim[i]})
                    continue
                for k, (a, b) in enumerate(zip(got, want)):
                    if b is not None and a != b:
                        l, rr = r["lsi"][k // len(r["rsi"])], r["rsi"][k % len(r["rsi"])]
                        c.violation("%s:%s:%s %s %s" % (mode, r["kind"], r["lt"], r["op"], r["rt"]),
                                    "%s: %s(%s) %s %s(%s): got %s, specification gives %s [%s]" % (mode, l, r["lt"], r["op"], rr, r["rt"], a, b, r["kind"]),
                                    {"mode": mode, "kind": r["kind"], "op": r["op"], "lt": r["lt"], "rt": r["rt"], "l": l, "r": rr, "got": a, "want": b})
                        break
        c.cov["traces_validated_against_impl"] += len(R)
    c.cov["evaluations"] = 2 * npairs
    for i in (0, 30, 60):
        c.sample({k: R[i][k] for k in ("kind", "op", "lt", "rt")} | {"l": R[i]["lsi"][3], "r": R[i]["rsi"][4], "spec": exp[i][3][4]})
    c.cov["rule"] = "every operator x operand type pair x all pairs of %d boundary and random values, interpreted and precompiled" % len(R[0]["lsi"])
    c.assumptions.append("shift counts are within the width of the left operand; float results out of the integer range are not compared (undefined in C)")


vp.main("C05", chk)
