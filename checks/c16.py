"""C16: arrays, ranges and comparators; SortSpec.tla gives the resulting order, the real sort functions are run on them."""
import json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp

TYPES = ["byte", "short", "int", "long", "float", "double", "string", "object", "options"]
STR = sorted([b"", b"\0", b"a", b"a\0", b"aa", b"ab", b"abc", b"b", b"B", b"\x7f", b"\x80", b"\xff", b"\xffa", b"zzzzzzzzzzzzzzzz", b"\xe3\x81\x82"])
NPAR = {"byte": "int", "short": "int"}
EXTREME = {"byte": [-128, 127], "short": [-32768, 32767], "int": [-2147483647, 2147483647], "long": [-2147483647, 2147483647], "float": [-16777216, 16777216], "double": [-2147483647, 2147483647]}
SHARED = {
    "SO": """class SO : public {
  use IntList; use Comparable;
  interface Comparable;
  has k : public int; has t : public int;
  our $DEAD : public int;
  our $LEFT : public int;
  static method mk : SO ($k : int, $t : int) { my $o = new SO; $o->{k} = $k; $o->{t} = $t; return $o; }
  static method k : int ($o : object) { if ($o) { return ((SO)$o)->{k}; } return 0; }
  static method t : int ($o : object) { if ($o) { return ((SO)$o)->{t}; } return 0; }
  static method tick : void () { if ($LEFT-- == 0) { die "comparator"; } }
  method cmp : int ($a : object, $b : object) { return ((SO)$a)->{k} <=> ((SO)$b)->{k}; }
  method DESTROY : void () { $DEAD++; }
  static method sgn : int ($x : long, $y : long, $m : int) {
    if ($x < $y) { return $m == 0 ? -1 : -2147483647; } if ($x > $y) { return 1; } return 0;
  }
  static method abs : long ($x : long) { if ($x < 0) { return -$x; } return $x; }
  static method mod : long ($x : long) { my $m = $x % 3; if ($m < 0) { $m += 3; } return $m; }
  static method half : long ($x : long) { if ($x < 0) { return ($x - 1) / 2; } return $x / 2; }
}
""".replace("return $m == 0 ? -1 : -2147483647;", "if ($m == 0) { return -1; } return -2147483647;").replace("class SO : public {", "class SO {")}


def case(rng):
    t = rng.choice(TYPES)
    n = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 30, 33] + [70] * (rng.random() < .4))
    if t == "options":
        return {"t": t, "a": [rng.randrange(len(STR)) for _ in range(n)], "i": 0, "l": -1, "key": "asc", "tab": [0], "mode": "options"}
    if t == "string":
        vals = list(range(len(STR))); key = rng.choice(["asc", "asc", "desc", "tab", "tabdesc", "zero"])
    elif t == "object":
        vals = list(range(rng.choice([2, 4, 30]))); key = rng.choice(["asc", "desc", "mod3", "zero", "half"])
    else:
        vals = rng.choice([[0, 1], list(range(-5, 6)), list(range(-100, 100)), EXTREME[t] + [0, 1, -1]])
        key = rng.choice(["asc", "asc", "desc", "abs", "mod3", "zero", "half"])
    shape = rng.random()
    a = [rng.choice(vals) for _ in range(n)]
    if shape < .15: a.sort()
    elif shape < .3: a.sort(reverse=True)
    mode = rng.choice(["plain", "plain", "plain", "throw", "crazy", "fn"])
    if key in ("asc", "desc") and mode == "plain" and t != "object" and rng.random() < .6: mode = "named"
    if mode == "fn" and (t == "string" or t != "object" and key not in ("asc", "desc")): mode = "plain"
    r = rng.random()
    if mode == "fn" or r < .4: i, l = 0, -1
    elif r < .85: i = rng.randint(0, n); l = rng.choice([-1, n - i, rng.randint(0, n - i)])
    else: i, l = rng.choice([-1, 0, 1, n, n + 1, 2147483647, -2147483648]), rng.choice([-1, 0, 1, n, n + 1, 2147483647, 2147483646])
    return {"t": t, "a": a, "i": i, "l": l, "key": key, "tab": [len(s) for s in STR] if t == "string" else [0], "mode": mode}


def num(t, x):
    return {"float": "%d.0f", "double": "%d.0", "long": "%dL"}.get(t, "%d") % x if x >= 0 else {"float": "(%d.0f)", "double": "(%d.0)", "long": "(%dL)"}.get(t, "(%d)") % x


def lit(b):
    return '"' + "".join("\\x{%02x}" % x for x in b) + '"'


def stmts(name, rng, r):
    """One method: builds the array, sorts, prints the identities (or values)."""
    t, a, key, mode = r["t"], r["a"], r["key"], r["mode"]
    s = ["  static method %s : void () {" % name]
    if t == "options":
        s.append("    my $o = new object[%d];" % (2 * len(a)))
        for j, x in enumerate(a):
            s.append("    $o->[%d] = %s; $o->[%d] = Int->new(%d);" % (2 * j, lit(STR[x]), 2 * j + 1, j + 1))
        s += ["    Sort->sort_options_asc($o);", '    print "ok"; for (my $i = 0; $i < @$o; $i += 2) { print " " . (int)$o->[$i+1]; }', '    say "";', "  }"]
        return s
    et = "SO" if t == "object" else t
    arrt = rng.choice(["SO", "object"]) if t == "object" else t
    s.append("    my $a = new %s[%d];" % (arrt, len(a)))
    for j, x in enumerate(a):
        v = "SO->mk(%d, %d)" % (x, j + 1) if t == "object" else ("copy " + lit(STR[x]) if t == "string" else "(%s)%s" % (t, num(t, x)))
        if t == "object" and x == 0 and key in ("asc", "mod3", "half") and rng.random() < .0: v = "undef"
        s.append("    $a->[%d] = %s;" % (j, v))
    p = NPAR.get(t, t)
    if t == "string":
        k = {"asc": ("$x", "$y"), "desc": ("$y", "$x"), "tab": ("length $x", "length $y"), "tabdesc": ("length $y", "length $x"), "zero": ("0", "0")}[key]
        c = "$x cmp $y" if key == "asc" else "$y cmp $x" if key == "desc" else "%s <=> %s" % k
        if key in ("tab", "tabdesc") and rng.random() < .5: c = "(%s) - (%s)" % k
    else:
        e = {"object": "SO->k(%s)"}.get(t, "(long)%s")
        kf = {"asc": "%s", "desc": "-%s", "abs": "SO->abs(%s)", "mod3": "SO->mod(%s)", "zero": "0*%s", "half": "SO->half(%s)"}[key]
        kx, ky = kf % (e % "$x"), kf % (e % "$y")
        c = rng.choice(["SO->sgn(%s, %s, %d)" % (kx, ky, rng.choice([0, 1])), "%s <=> %s" % (kx, ky)])
    pre = ""
    if mode == "throw":
        pre = "SO->tick; "
        s.append("    $SO::LEFT = %d;" % rng.choice([0, 1, 2, 3, 5, 9, 20, 50]))
    if mode == "crazy":
        c = rng.choice(["1", "-1", "$SO::LEFT++ % 3 - 1", "-(%s)" % c])
        s.append("    $SO::LEFT = 0;")
    m = "method : int ($x : %s, $y : %s) { %sreturn %s; }" % (("object", "object") if t == "object" else (p, p), ) .__str__() if False else "method : int ($x : %s, $y : %s) { %sreturn %s; }" % ((("object", "object") if t == "object" else (p, p)) + (pre, c))
    if t == "object" and key == "asc" and mode == "plain" and rng.random() < .3:
        m = "Comparator->default_comparator"
    I = {-2147483648: "-2147483648"}.get(r["i"], str(r["i"]))
    args = "" if r["i"] == 0 and r["l"] == -1 and rng.random() < .6 else ", %s" % I if r["l"] == -1 and rng.random() < .6 else ", %s, %s" % (I, r["l"] if r["l"] != -1 else rng.choice([-1, -2]))
    if mode == "named":
        call = "Sort->sort_%s_%s($a%s);" % (t, key, args)
    elif mode == "fn":
        if t == "object":
            call = "$a = (%s[])Fn->sort($a, %s);" % (arrt, m)
        else:
            call = "$a = (%s[])Fn->sort_%s($a);" % (t, key)
        call = "my $b = $a; " + call + " my $c = new %s[%d]; for (my $i = 0; $i < @$b; $i++) { $c->[$i] = $b->[$i]; } $K = $b;" % (arrt, len(a))
    else:
        call = "Sort->sort_%s($a, %s%s);" % (t, m, args)
    s.append("    my $K : %s[];" % arrt)
    s.append("    my $d = $SO::DEAD; eval { %s print \"ok\"; }; if ($@) { if ($SO::LEFT == -1 && length $@ >= 10 && Fn->index($@, \"comparator\") == 0) { print \"thrown\"; } else { print \"dies\"; } } eval { };" % call.replace("print", "print"))
    show = "SO->t(%s)" if t == "object" else "VPS->n(%s)" if t == "string" else "(long)%s"
    s.append('    for (my $i = 0; $i < @$a; $i++) { print " " . %s; }' % (show % "$a->[$i]"))
    s.append('    if ($K) { print " /"; for (my $i = 0; $i < @$K; $i++) { print " " . %s; } }' % (show % "$K->[$i]"))
    s += ['    if ($SO::DEAD != $d) { print " dead"; } say "";', "  }"]
    return s


def program(name, rng, rows):
    s = ["class %s {" % name, "  use Sort; use SO; use VPS; use Fn; use Int; use Array; use Comparator; use Comparator::Int; use Comparator::Long; use Comparator::Float; use Comparator::Double; use Comparator::String;"]
    for j, r in enumerate(rows):
        s += stmts("m%d" % j, rng, r)
    s += ["  static method main : void () { VPS->init; "] + ["    &m%d;" % j for j in range(len(rows))] + ["    VPS->end; }", "}\n"]
    return "\n".join(s)


VPS = """class VPS {
  our $P : string[];
  static method init : void () { $P = [%s]; }
  static method end : void () { $P = undef; }
  static method n : int ($s : string) { for (my $i = 0; $i < @$P; $i++) { if ($P->[$i] eq $s) { return $i; } } return -1; }
}
""" % ", ".join(lit(x) for x in STR)


def check(c):
    c.build(libs=vp.CORE_LIBS)
    rng = random.Random("c16/%d" % c.seed)
    rows = [{"t": "object", "a": [2, 3, 1], "i": 0, "l": -1, "key": "asc", "tab": [0], "mode": "fn"}] + [case(rng) for _ in range(c.q(900, 20000))]
    r = c.tlc("SortSpec", "CONSTANT RowFile = \"rows.json\"\nINIT Init\nNEXT Next\nINVARIANT LawsOnce\nCHECK_DEADLOCK FALSE\n",
              files={"rows.json": json.dumps([dict((k, x[k]) for k in ("a", "i", "l", "key", "tab")) for x in rows])}, timeout=c.q(300, 3000), heap="8g")
    outs = [json.load(open(os.path.join(r["dir"], "out_%d.json" % (i + 1)))) for i in range(len(rows))]
    progs, G = {}, 12
    for g in range(0, len(rows), G):
        progs["Sr%d" % (g // G)] = program("Sr%d" % (g // G), random.Random("c16r/%d/%d" % (c.seed, g)), rows[g:g + G])
    out = vp.run_programs(c, progs, shared=dict(SHARED, VPS=VPS), mem=True, timeout=c.q(200, 900))
    for g in range(0, len(rows), G):
        name = "Sr%d" % (g // G); o = out[name]
        if o.crash or o.exc is not None or o.compile_error or o.mem or len(o.lines) != len(rows[g:g + G]):
            c.violation("sort program", "%s: %s" % (name, o.crash or o.exc or o.compile_error or "memory %s lines %d" % (o.mem, len(o.lines))), {"source": progs[name], "classes": dict(SHARED, VPS=VPS)})
            continue
        for x, e, l in zip(rows[g:g + G], outs[g:g + G], o.lines):
            shown = (lambda p: p) if x["t"] in ("object", "options") else (lambda p: x["a"][p - 1])
            want = [shown(p) for p in e["p"]]
            before = [shown(p + 1) for p in range(len(x["a"]))]
            st, *f = l.split(" "); f = " ".join(f)
            main, _, kept = f.partition("/")
            try:
                got = [int(y) for y in main.split()]
            except ValueError:
                got = main
            ok = got == want and st == ("ok" if e["ok"] else "dies")
            if e["ok"] and x["mode"] in ("throw", "crazy") and st in (("thrown", "ok") if x["mode"] == "throw" else ("ok",)) and isinstance(got, list) and (x["mode"] == "crazy" or st == "thrown"):
                lo, n = x["i"], (len(x["a"]) - x["i"] if x["l"] < 0 else x["l"])
                ok = got[:lo] == before[:lo] and got[lo + n:] == before[lo + n:] and sorted(got[lo:lo + n]) == sorted(before[lo:lo + n]) and len(got) == len(before)
            if not e["ok"]:
                ok = st == "dies" and got == before
            if x["mode"] == "fn" and kept.split() != [str(y) for y in before]:
                ok = False
            if x["mode"] == "fn" and x["t"] == "object" and st == "ok" and got == before and kept.split() == [str(y) for y in want] and want != before:
                c.violation("Fn->sort sorts its argument and returns an unsorted copy", "%r: specified %r, got %r" % (x, want, l), {"source": progs[name], "classes": dict(SHARED, VPS=VPS), "row": x})
            elif not ok:
                c.violation("sort %s %s %s" % (x["t"], x["mode"], x["key"]), "%r: specified %s %r, got %r" % (x, "ok" if e["ok"] else "dies", want, l), {"source": progs[name], "classes": dict(SHARED, VPS=VPS), "row": x})
            else:
                c.cov["traces_validated_against_impl"] += 1
    c.sample({"row": rows[0]})
    c.log("%d sorts" % len(rows))


if __name__ == "__main__":
    vp.main("C16", check)
