"""Programs for the rows of Types.tla: one class per (context, to, from)."""
import re, zlib
SHARED = {
    "TyA": "class TyA { static method new : TyA () { return new TyA; } method m1 : int () { return 1; } }\n",
    "TyB": "class TyB extends TyA { use TyA; static method new : TyB () { return new TyB; } method m2 : int ($x : int) { return $x; } }\n",
    "TyC": "class TyC extends TyB { use TyB; static method new : TyC () { return new TyC; } method m1 : int () { return 3; } }\n",
    "TyD": "class TyD extends TyA { use TyA; static method new : TyD () { return new TyD; } }\n",
    "TyX": "class TyX { static method new : TyX () { return new TyX; } method m1 : int () { return 1; } method m2 : int ($x : int) { return $x; } }\n",
    "TyN": "class TyN { static method new : TyN () { return new TyN; } }\n",
    "TyW": "class TyW { static method new : TyW () { return new TyW; } method m1 : string () { return \"w\"; } }\n",
    "TyI0": "class TyI0 : interface_t { method m1 : int () { return 10; } }\n",
    "TyI1": "class TyI1 : interface_t { required method m1 : int (); }\n",
    "TyI2": "class TyI2 : interface_t { required method m1 : int (); required method m2 : int ($x : int); }\n",
    "TyI3": "class TyI3 : interface_t { required method m2 : int ($x : int); }\n",
}
NUMS = ("byte", "short", "int", "long", "float", "double")


def uses(*ts):
    bs = sorted({re.sub(r"[\[\]*]|mutable ", "", t) for t in ts} - set(NUMS) - {"string", "object", "undef", "void"})
    return "".join("use %s; " % b for b in bs)


def contexts(t, f, types):
    """[(context, class body)] in which a value of type f meets a place of type t."""
    T = types[t]
    ref, mul = T["p"], T["c"] == "mul" and T["d"] == 0
    src = "undef" if f == "undef" else "$s"
    par = "" if f == "undef" else "$s : %s" % f
    r = [("init", "static method t : void (%s) { my $t : %s = %s; }" % (par, t, src)),
         ("arg", "static method m : void ($p : %s) { } static method t : void (%s) { &m(%s); }" % (t, par, src))]
    if not ref:
        r.append(("asg", "static method t : void (%s) { my $t : %s; $t = %s; }" % (par, t, src)))
        r.append(("ret", "static method t : %s (%s) { return %s; }" % (t, par, src)))
    if not ref and not mul:
        r.append(("field", "has x : %s; method t : void (%s) { $self->{x} = %s; }" % (t, par, src)))
        r.append(("cvar", "our $X : %s; static method t : void (%s) { $X = %s; }" % (t, par, src)))
    if not ref and not T["m"] and not (T["c"] == "any" and T["d"] > 0):
        r.append(("elem", "static method t : void ($a : %s[]%s) { $a->[0] = %s; }" % (t, ", " + par if par else "", src)))
    return r


def cast(t, f):
    src = "undef" if f == "undef" else "$s"
    par = "" if f == "undef" else "$s : %s" % f
    return "static method t : void (%s) { (%s)%s; }" % (par, t, src)


def cls(name, t, f, body):
    return "class %s { %s%s }\n" % (name, uses(t, f), body)


def lit_text(k, s, p, d, base=10):
    if p < 0:
        return ("-" if s < 0 else "") + "2.5" + ("f" if k == "float" else "")
    v = (1 << p) + d
    t = {10: "%d", 16: "0x%x", 8: "0%o"}[base] % v + ("L" if k == "long" else "")
    return ("-" if s < 0 else "") + t


def lit_contexts(t, x):
    """[(context, class body)] in which a literal meets a place of the numeric type t."""
    return [("init", "static method t : void () { my $t : %s = %s; }" % (t, x)),
            ("arg", "static method m : void ($p : %s) { } static method t : void () { &m(%s); }" % (t, x)),
            ("opt", "static method t : void ($p : %s = %s) { }" % (t, x)),
            ("asg", "static method t : void () { my $t : %s; $t = %s; }" % (t, x)),
            ("ret", "static method t : %s () { return %s; }" % (t, x)),
            ("field", "has x : %s; method t : void () { $self->{x} = %s; }" % (t, x)),
            ("cvar", "our $X : %s; static method t : void () { $X = %s; }" % (t, x)),
            ("elem", "static method t : void ($a : %s[]) { $a->[0] = %s; }" % (t, x))]


# ------------------------------------------------------------------ run time (C07)
def ident(t):
    return re.sub(r"\W", "", t.replace("[]", "Arr").replace(" ", "")) or "x"


def mk(d, types):
    """An expression that creates an object whose type is d."""
    T = types[d]
    if T["d"] > 0:
        return "new " + re.sub(r"\[\]$", "[2]", d)
    if d == "string":
        return '"abc"'
    if T["c"] == "nobj":
        return "(%s)(%s)7" % (d, d.lower())
    return d + "->new"


def runtime_programs(d, types, pre="", seed=None):
    """{class: source}, {class: expected lines}, and the class Mk with a method for every object type."""
    dyns = sorted({x[1] for x in d["dyn"]})
    shared = dict(SHARED)
    m = "".join("  static method %s : %s () { return %s; }\n" % ("mk" + ident(x), x, mk(x, types)) for x in dyns)
    shared["TyMk"] = "class TyMk {\n  %s\n  use Complex_2d; use Complex_2f; use TyMkS;\n%s}\n" % (uses(*dyns), m)
    shared["TyMkS"] = ("class TyMkS {\n"
                       "  static method p : void ($s : string, $b : int) { say \"$s $b\"; }\n"
                       "  static method t : void ($s : string, $b : string) { say \"$s $b\"; }\n}\n")
    progs, want = {}, {}

    def prog(name, lines):
        """lines: [(statement block, expected line)]; methods of 40 blocks.  With pre, a precompiled class; with seed, a sample."""
        name = pre + name
        if seed is not None:
            lines = [x for x in lines if zlib.crc32(("%d %s" % (seed, x[1])).encode()) % 8 == 0]
            if not lines:
                return
        src, calls = "", ""
        for i in range(0, len(lines), 40):
            src += "  static method m%d : void () {\n%s  }\n" % (i, "".join("    { %s }\n" % b for b, _ in lines[i:i + 40]))
            calls += "&m%d(); " % i
        progs[name] = "class %s %s{\n  use TyMk; use TyMkS; use Fn; use Complex_2d; use Complex_2f; %s\n%s  static method main : void () { %s}\n}\n" % (
            name, ": precompile " if pre else "", uses(*(list(types))), src, calls)
        want[name] = [l for _, l in lines]

    def mkc(x):
        return "TyMk->mk%s" % ident(x)
    # isa, is_type, cast from object, type_name: by target type
    byT = {}
    for t, f, isa, same in d["dyn"]:
        byT.setdefault(t, []).append((f, isa, same))
    for t, rows in sorted(byT.items()):
        if t == "object":
            continue
        ls = []
        for f, isa, same in sorted(rows):
            ls.append(("my $o : object = %s; my $r = 0; if ($o isa %s) { $r = 1; } TyMkS->p(\"isa %s %s\", $r);" % (mkc(f), t, t, f), "isa %s %s %d" % (t, f, isa)))
            ls.append(("my $o : object = %s; my $r : int = $o isa %s; TyMkS->p(\"isav %s %s\", $r);" % (mkc(f), t, t, f), "isav %s %s %d" % (t, f, isa)))
            if types[t]["c"] != "ifc" or types[t]["d"]:
                ls.append(("my $o : object = %s; my $r = 0; if ($o is_type %s) { $r = 1; } TyMkS->p(\"is %s %s\", $r);" % (mkc(f), t, t, f), "is %s %s %d" % (t, f, same)))
        ls.append(("my $o : object = undef; my $r = 0; if ($o isa %s) { $r = 1; } TyMkS->p(\"isa undef\", $r);" % t, "isa undef 0"))
        ls.append(("my $o : object = undef; my $t = (%s)$o; my $r = 0; if ($t == undef) { $r = 1; } TyMkS->p(\"cast undef\", $r);" % t, "cast undef 1"))
        prog("PI" + ident(t), ls)
    prog("PName", [("my $o : object = %s; TyMkS->t(\"name %s\", type_name $o);" % (mkc(x), x), "name %s %s" % (x, x)) for x in dyns] +
         [("my $o : object = undef; my $n = type_name $o; my $r = 0; if ($n) { $r = 1; } TyMkS->p(\"name undef\", $r);", "name undef 0")])
    byT = {}
    for t, s, f, ok, isa, same in d["casts"]:
        byT.setdefault(t, []).append((s, f, ok, isa, same))
    for t, rows in sorted(byT.items()):
        ls = []
        for s, f, ok, isa, same in sorted(rows):
            tag = "%s %s %s" % (t, s, f)
            ls.append(("my $s : %s = %s; my $r = 0; eval { my $t = (%s)$s; my $o : object = $s; my $p : object = $t; if ($o == $p) { $r = 1; } } "
                       "if ($@) { $r = -1; } TyMkS->p(\"cast %s\", $r);" % (s, mkc(f), t, tag), "cast %s %d" % (tag, 1 if ok else -1)))
            if t != "object":
                ls.append(("my $s : %s = %s; my $r = 0; if ($s isa %s) { $r = 1; } TyMkS->p(\"sisa %s\", $r);" % (s, mkc(f), t, tag), "sisa %s %d" % (tag, isa)))
        prog("PC" + ident(t), ls)
    byA = {}
    for a, x, f, ok in d["stores"]:
        byA.setdefault(a, []).append((x, f, ok))
    for a, rows in sorted(byA.items()):
        ls = []
        arr = (a + "[]")
        for x, f, ok in sorted(rows):
            tag = "%s %s %s" % (a, x, f)
            for k, vt in enumerate(sorted({a, f})):
                for l in (0, 1):
                    # an element already there stays when the store is refused
                    ls.append(("my $a : %s = %s; my $v : %s = %s; my $r = 0; eval { $a->[%d] = $v; } if ($@) { $r = 2; } "
                               "my $o : object = $a->[%d]; my $p : object = $v; if ($o == $p) { $r += 1; } TyMkS->p(\"store%d%d %s\", $r);"
                               % (arr, mkc(x + "[]"), vt, mkc(f), l, l, k, l, tag), "store%d%d %s %d" % (k, l, tag, 1 if ok else 2)))
        prog("PS" + ident(a), ls)
    byN = {}
    for n, f, ok in d["unbox"]:
        byN.setdefault(n, []).append((f, ok))
    for n, rows in sorted(byN.items()):
        ls = []
        for f, ok in sorted(rows):
            for k, e in (("c", "(%s)$o" % n), ("a", "$o")):
                ls.append(("my $o : object = %s; my $r = -1; eval { my $x : %s = %s; $r = (int)$x; } TyMkS->p(\"unbox%s %s %s\", $r);"
                           % (mkc(f), n, e, k, n, f), "unbox%s %s %s %d" % (k, n, f, 7 if ok else -1)))
        ls.append(("my $o : object = undef; my $r = -1; eval { my $x = (%s)$o; $r = (int)$x; } TyMkS->p(\"unbox undef\", $r);" % n, "unbox undef -1"))
        ls.append(("my $o : %s = undef; my $r = -1; eval { my $x : %s = $o; $r = (int)$x; } TyMkS->p(\"unbox undef2\", $r);" % (n[0].upper() + n[1:], n), "unbox undef2 -1"))
        prog("PU" + ident(n), ls)
    ls = []
    for t, f, isa, same in sorted(d["errs"]):
        ls.append(("my $id = 0; eval { die %s \"x\"; } $id = eval_error_id; my $r = 0; if ($id isa_error %s) { $r += 1; } if ($id is_error %s) { $r += 2; } "
                   "TyMkS->p(\"err %s %s\", $r);" % (f, t, t, t, f), "err %s %s %d" % (t, f, isa + 2 * same)))
    prog("PErr", ls)
    return shared, progs, want
