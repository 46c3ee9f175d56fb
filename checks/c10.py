"""C10: random and systematic histories of valid and invalid operations on containers of every kind, held in every kind of
place; Checked.tla says of each whether it throws and what the state is afterwards."""
import json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp

OBJ = """class ChO { use ChI; interface ChI; has id : public int; has z : public int; method id : int () { return $self->{id}; } method call : int ($d : int) { return $self->{id} + $d; }
  static method new : ChO ($id : int) { my $o = new ChO; $o->{id} = $id; return $o; } }
"""
ITF = "class ChI : interface_t { required method id : int (); method call : int ($d : int); }\n"
BAD = "class ChW { static method new : ChW () { return new ChW; } }\n"

INTS = ("byte", "short", "int", "long")
#        element type, the three values, how to tell a value's token from v
NUM = {"byte": ("0", "-128", "127"), "short": ("0", "-32768", "32767"), "int": ("0", "-2147483648", "2147483647"), "long": ("0L", "-9223372036854775808L", "4294967296L"),
       "float": ("0.0f", "-3.0e38f", "1.5f"), "double": ("0.0", "1.0e-300", "-2.5")}

MUL = {"Cm_2b": ("byte", "-128", "127", "7"), "Cm_2s": ("short", "32767", "-32768", "258"), "Cm_2i": ("int", "-2147483648", "2147483647", "65537"), "Cm_2l": ("long", "-9223372036854775808L", "4294967296L", "8589934593L"),
       "Cm_2f": ("float", "1.5f", "-2.0e30f", "7f"), "Complex_2d": ("double", "1.5", "-2.0e-300", "7")}
MULC = {"Cm_2" + t[0]: "class Cm_2%s : mulnum_t { has re : %s; has im : %s; }" % (t[0], t, t) for t in ("byte", "short", "int", "long", "float")}
USEM = "".join("use %s; " % m for m in sorted(MUL))


def kinds():
    out = {}
    for t, v in NUM.items():
        out["arr_" + t] = {"k": "arr", "T": t, "A": t + "[]", "v": ["(%s)%s" % (t, x) for x in v], "tok": "if ($v == (%s)%s) { return 1; } if ($v == (%s)%s) { return 2; } if ($v == 0) { return 0; } return 9;" % (t, v[1], t, v[2])}
    # multi-numeric values: one class for each type its fields can have
    for cl, (t, x, y, z) in MUL.items():
        x, y, z = ("(%s)%s" % (t, q) for q in (x, y, z))
        out["mul_" + t] = {"k": "arr", "T": cl, "A": cl + "[]", "v": None, "mk": "my $r : %s; if ($n == 1) { $r->{re} = %s; $r->{im} = %s; } if ($n == 2) { $r->{im} = %s; } return $r;" % (cl, x, y, z),
                           "tok": "if ($v->{re} == %s && $v->{im} == %s) { return 1; } if ($v->{re} == 0 && $v->{im} == %s) { return 2; } if ($v->{re} == 0 && $v->{im} == 0) { return 0; } return 9;" % (x, y, z)}
    for t in ("ChO", "ChI", "object", "string", "int[]", "ChO[]", "long[][]"):
        out["ref_" + t.replace("[]", "s")] = {"k": "ref", "T": t, "A": t + "[]", "v": ["undef", "$O1", "$O2"], "tok": "if ($v == undef) { return 0; } if ($v == $O1) { return 1; } if ($v == $O2) { return 2; } return 9;",
                                              "o": {"ChO": ("ChO->new(1)", "ChO->new(2)"), "ChI": ("ChO->new(1)", "ChO->new(2)"), "object": ("ChO->new(1)", "ChO->new(2)"), "string": ('copy "\\x01"', 'copy "\\x02b"'),
                                                    "int[]": ("[1]", "[2, 2]"), "ChO[]": ("new ChO[1]", "new ChO[2]"), "long[][]": ("new long[][1]", "new long[][2]")}[t]}
    out["str"] = {"k": "str", "T": "byte", "A": "string", "v": ["(byte)0", "(byte)97", "(byte)-1"], "tok": "if ($v == 97) { return 1; } if ($v == -1) { return 2; } if ($v == 0) { return 0; } return 9;"}
    for t in ("short", "double", "string", "ChO"):
        q = out["ref_" + t if t in ("string", "ChO") else "arr_" + t]
        out["obj_" + t] = dict(q, k="obj", A="SELFB")
    return out


KINDS = kinds()
ELEM = {"arr": "arr", "ref": "ref", "str": "str"}


def el(kd):                      # is the element an object
    return kd.get("o") is not None


class Prog:
    def __init__(self, c, name, kn, rng, length, pre=False):
        self.name, self.kn, self.kd, self.rng, self.pre = name, kn, KINDS[kn], rng, pre
        k = self.kd["k"]
        self.A = self.kd["A"].replace("SELFB", name + "B")
        self.place = rng.choice(["loc", "cv", "fld"] + (["el"] if kn != "ref_object" else []))
        self.xplace = rng.choice(["loc", "cv", "fld", "el"] + (["ref"] if not el(self.kd) and self.kd["T"] not in MUL else [])) if self.kd["T"] not in MUL else rng.choice(["loc", "el"])
        self.ops, self.src, self.methods = [], [], []
        self.ln = None                     # the generator's own idea of the length
        for _ in range(length):
            self.ops.append(self.choose())

    def choose(self):
        r, k = self.rng, self.kd["k"]
        names = {"arr": "new lit nil setx get set rmw bad badx len each copy", "ref": "new lit nil setx get set rmw bad badx len each deref derefx",
                 "str": "new lit nil setx get set rmw bad badx len copy mkro isro mcast cat catnil", "obj": "new nil setx get set rmw bad badx call"}[k].split()
        if k == "obj" and el(self.kd):
            names += ["deref", "derefx", "weaken"]
        w = {"get": 4, "set": 5, "setx": 3, "nil": 1, "rmw": 3, "bad": 3}
        if self.ln is None:
            w.update({"new": 4, "lit": 6})
        if k == "obj" and self.ln is None:
            w["new"] = 15
        o = r.choices(names, [w.get(n, 2) for n in names])[0]
        if o == "copy" and self.kn == "x":
            o = "len"
        i, e = 0, []
        n = self.ln or 0
        if o == "new":
            i = r.choice([-1, -2147483648, 0, 1, 2, 3, 5]) if k != "obj" else 0
            self.ln = (i if k != "obj" else 2) if i >= 0 else self.ln
        elif o == "lit":
            e = [r.randint(0, 2) for _ in range(r.choice([0, 1, 2, 3, 4, 17]))]; self.ln = len(e)
        elif o == "nil":
            self.ln = None
        elif o == "setx":
            i = r.randint(0, 2)
        elif o in ("get", "set", "rmw", "bad", "deref"):
            i = (r.randrange(n) if n and r.random() < 0.55 else r.choice([-1] * 4 + [n] * 7 + [n + 1, 0, n - 1, -2147483648, 2147483647, 65536, -256])) if k != "obj" else r.randint(0, 1)
        elif o == "cat":
            e = [r.randint(0, 2) for _ in range(r.randint(0, 3))]
            if self.ln is not None:
                self.ln += len(e)
        elif o == "weaken":
            i = r.randint(0, 1)
        return {"o": o, "i": i, "e": e}

    # ---- rendering
    def idx(self, i):
        r = self.rng
        f = ["%d" % i, "$i", "$i", "&ix(%d)" % i, "$ia->[1]", "$io->{id}", "(%d + 1)" % (i - 1) if i > -2147483648 else "$i", "$$ir"]
        if -128 <= i <= 127:
            f += ["$ib"]
        if -32768 <= i <= 32767:
            f += ["$is"]
        return r.choice(f)

    def render(self, op, j):
        r, kd, k, T = self.rng, self.kd, self.kd["k"], self.kd["T"]
        A = {"loc": "$a", "cv": "$A", "fld": "$h->{a}", "el": "$e->[1]"}[self.place]
        X = {"loc": "$x", "cv": "$X", "fld": "$h->{x}", "el": "$f->[1]", "ref": "$$q"}[self.xplace]
        o, i = op["o"], op["i"]
        obj = el(kd)
        if k == "obj":
            E = "%s->{f%d}" % (A, i)
        else:
            E = "%s->[%s]" % (A, self.idx(i))
        M = E
        if k == "str":
            M = "%s->[%s]" % ("$m" if r.random() < 0.5 else "((mutable string)%s)" % A, self.idx(i))
        bad = ["&thr()"]
        if obj and T not in ("object",):
            bad += ["(%s)$wrong" % T] * 2
        if not obj and T not in MUL:
            box = {"byte": "Byte", "short": "Short", "int": "Int", "long": "Long", "float": "Float", "double": "Double"}[T]
            bad += ["(%s)$nil%s" % (T, box), "(%s)(%s)$wrong" % (T, box)]
            if T in INTS:
                bad += ["(%s)($one / $zero)" % T, "(%s)(7 %% $zero)" % T, "(%s)($onel / 0L)" % T]
        if T == "string":
            bad += ["\"a\" . $nils", "$nils . \"b\"", "new_string_len -1"]
        if T == "int[]":
            bad += ["new int[$minus]"]
        if o == "new":
            if k == "obj":
                return "%s = new %sB;" % (A, self.name)
            n = self.idx(i)
            return "%s = new_string_len %s; $m = (mutable string)%s;" % (A, n, A) if k == "str" else "%s = new %s[%s];" % (A, T, n)
        if o == "lit":
            if k == "str":
                return "%s = \"%s\"; $m = undef;" % (A, "".join({0: "\\0", 1: "a", 2: "\\xff"}[v] for v in op["e"]))
            if obj or T in MUL:
                return "{ my $t = new %s[%d]; %s%s = $t; }" % (T, len(op["e"]), "".join("$t->[%d] = &v(%d); " % (n, v) for n, v in enumerate(op["e"])), A)
            return "%s = [%s];" % (A, ", ".join("&v(%d)" % v for v in op["e"])) if op["e"] else "%s = new %s[0];" % (A, T)
        if o == "nil":
            return "%s = undef;%s" % (A, " $m = undef;" if k == "str" else "")
        if o == "setx":
            return r.choice(["%s = &v(%d);" % (X, i)] + (["%s = %s;" % (X, kd["v"][i])] if kd.get("v") else []))
        if o == "get" and T in MUL and r.random() < 0.7:
            fx = X + "->" if X[-1] not in "]}" else X
            return r.choice(["%s{re} = %s{re}; %s{im} = %s{im};" % (fx, E, fx, E), "my $t = %s{im}; %s{re} = %s{re}; %s{im} = $t;" % (E, fx, E, fx)])
        if o == "set" and T in MUL and r.random() < 0.7:
            fx = X + "->" if X[-1] not in "]}" else X
            return r.choice(["%s{re} = %s{re}; %s{im} = %s{im};" % (E, fx, E, fx), "my $t = %s{im}; %s{im} = $t; %s{re} = %s{re};" % (fx, E, E, fx)])
        if o == "get":
            return r.choice(["%s = %s;" % (X, E), "my $t = %s; %s = $t;" % (E, X), "%s = &id(%s);" % (X, E), "if (1) { %s = %s; }" % (X, E)] + (["my $z = [%s]; %s = $z->[0];" % (E, X)] if T not in MUL else []))
        if o == "set":
            return r.choice(["%s = %s;" % (M, X), "%s = &id(%s);" % (M, X), "my $t = (%s = %s);" % (M, X)])
        if o == "rmw":
            if k == "str":
                return "%s = %s;" % (M, E)
            if obj:
                return r.choice(["%s = %s;" % (E, E), "my $t = %s; %s = $t;" % (E, E), "%s = &id(%s);" % (E, E)])
            if T in MUL:
                return r.choice(["%s{re} += 0;" % E, "%s{im} = %s{im};" % (E, E), "%s{re}++; %s{re}--;" % (E, E), "%s = %s;" % (E, E)])
            f = ["%s += 0;", "%s -= 0;", "%s *= 1;", "%s /= 1;"]
            if T in INTS:
                f += ["%s |= 0;", "%s <<= 0;", "%s ^= 0;", "%s &= -1;"]
            if T in INTS:
                return r.choice(f + ["my $t = ++%s; --%s;", "%s--; %s++;"]).replace("%s", E)
            return (r.choice(f) % E)
        if o == "bad":
            if k == "arr" and T in INTS and r.random() < 0.5 or k == "obj" and T in INTS and r.random() < 0.5:
                return "%s %s= %s;" % (E, r.choice("/%"), r.choice(["$zero", "0", "(byte)0"]) if T != "byte" else "$zero")
            if T == "string" and k != "str" and r.random() < 0.4:
                return "%s .= $nils;" % E
            return "%s = %s;" % (M, r.choice(bad))
        if o == "badx":
            if T in INTS and r.random() < 0.5:
                return "%s %s= $zero;" % (X, r.choice("/%"))
            return "%s = %s;" % (X, r.choice(bad))
        if o in ("deref", "derefx"):
            V = E if o == "deref" else X
            f = {"ChO": ["$r = %s->id;", "$r = %s{id};" if V[-1] in "]}" else "$r = %s->{id};", "%s{z} = 5; $r = %s{id};" if V[-1] in "]}" else "%s->{z} = 5; $r = %s->{id};", "my $t = %s; $r = $t->{id} + 0;", "my $t = %s; $t->{z}++; $r = $t->id;", "my $t = %s; $t->{z} += 2; $r = $t->id;"],
                 "ChI": ["$r = %s->id;", "my $t = %s; $r = $t->id;", "my $t = %s; $r = $t->call(0);"], "object": ["my $t = (ChO)%s; $r = $t->id;", "my $t = (ChI)%s; $r = $t->id;"],
                 "string": ["my $t = %s; $r = $t->[0];", "my $t = %s . \"x\"; $r = length $t - 1;", "my $t = \"x\" . %s; $r = length $t - 1;", "my $t = %s; ((mutable string)$t)->[0] = $t->[0]; $r = length $t;"],
                 "int[]": ["$r = @{%s};", "$r = %s->[0];", "my $t = %s; $t->[0] += 0; $r = $t->[0];", "my $t = %s; $r = $t->[@$t - 1];"], "ChO[]": ["$r = @{%s};", "my $t = %s; $t->[0] = undef; $r = @$t;"],
                 "long[][]": ["$r = @{%s};", "my $t = %s; my $u = $t->[0]; $r = @$t;"]}[T]
            s = r.choice(f)
            return s.replace("%s", V)
        if o == "len":
            if k == "str":
                return "$r = length %s;" % A
            return r.choice(["$r = @{%s};" % A, "my $t = %s; $r = @$t;" % A, "$r = scalar @{%s};" % A])
        if o == "each":
            return "my $c = 0; for my $v (@{%s}) { $c++; } $r = $c;" % A
        if o == "copy":
            return "%s = copy %s;%s" % (A, A, " $m = (mutable string)%s;" % A if k == "str" else "")
        if o == "mkro":
            return "make_read_only %s;" % A
        if o == "isro":
            return "$r = is_read_only %s;" % A
        if o == "mcast":
            return "my $t = (mutable string)%s;" % A
        if o == "cat":
            s = "\"%s\"" % "".join({0: "\\0", 1: "a", 2: "\\xff"}[v] for v in op["e"])
            return r.choice(["%s .= %s;" % (A, s), "%s = %s . %s;" % (A, A, s)]) + " $m = (mutable string)%s;" % A
        if o == "catnil":
            return r.choice(["%s .= $nils;" % A, "%s = %s . $nils;" % (A, A), "%s = $nils . %s;" % (A, A), "%s = %s . &thr_s();" % (A, A)])
        if o == "weaken":
            return r.choice(["my $t = %s; %s $t->{f%d};%s" % (A, w, i, z) for w, z in (("weaken", ""), ("unweaken", ""), ("my $u = isweak", ""))])
        if o == "call":
            return r.choice(["$r = %s->sum;" % A, "$r = %s->sum();" % A])
        raise KeyError(o)

    def source(self):
        kd, T, A, n = self.kd, self.kd["T"], self.A, self.name
        obj = el(kd)
        O = "our $O1 : %s; our $O2 : %s; " % (T, T) if obj else ""
        init = "$O1 = %s; $O2 = %s; " % kd["o"] if obj else ""
        mk = kd.get("mk") or "if ($n == 1) { return %s; } if ($n == 2) { return %s; } return %s;" % (kd["v"][1], kd["v"][2], kd["v"][0])
        stub = "thr : %s () { die \"thrown\"; }" % T
        lenx, at = ("length $a", "$a->[$i]") if kd["k"] == "str" else ("@$a", "$a->[$i]")
        if kd["k"] == "obj":
            show = "if ($a) { $s .= \"d\" . &t($a->{f0}) . &t($a->{f1}); }"
        else:
            show = "if ($a) { $s .= \"d\"; for (my $i = 0; $i < %s; $i++) { $s .= &t(%s); } }" % (lenx, at)
        steps = []
        Ap = {"loc": "$a", "cv": "$A", "fld": "$h->{a}", "el": "$e->[1]"}[self.place]
        Xp = {"loc": "$x", "cv": "$X", "fld": "$h->{x}", "el": "$f->[1]", "ref": "$$q"}[self.xplace]
        callee = self.place == "cv" and self.xplace == "cv"
        for j, op in enumerate(self.ops):
            i = op["i"]
            pre = "$i = %d; $ib = (byte)$i; $is = (short)$i; $ia->[1] = $i; $io->{id} = $i;" % i
            body = self.render(op, j)
            setup = "my $i = %d; my $ib = (byte)$i; my $is = (short)$i; my $ia = [0, $i, 0]; my $io = ChO->new($i); my $ir = \\$i; my $zero = 0; my $one = 1; my $onel = 1L; my $minus = -1; my $nils : string = undef; my $wrong : object = ChW->new;" % i
            setup += " ".join(" my $nil%s : %s = undef;" % (b, b) for b in ("Byte", "Short", "Int", "Long", "Float", "Double") if "$nil" + b in body)
            if callee and self.rng.random() < 0.5 and kd["k"] != "str":
                self.methods.append("  static method s%d : int () { my $r = -1; %s %s return $r; }\n" % (j, setup, body))
                steps.append("    { my $r = -1; my $k = 0; eval { $r = &s%d(); $k = 1; } if ($k) { say \"R $r\"; } else { say \"T s%d\"; say $@; } &st(%s, %s); }\n" % (j, j, Ap, Xp))
            else:
                steps.append("    { my $r = -1; my $k = 0; %s eval { %s $k = 1; } if ($k) { say \"R $r\"; } else { say \"T main\"; say $@; } &st(%s, %s); }\n" % (setup, body, Ap, Xp))
        cvx = T if T not in MUL else "int"
        H = "%sH" % n
        guard = "my $g1 = (byte)-7; my $g2 = (short)-3000; my $g3 = 70000; my $g4 = 5000000000L; my $g5 = 0.25f; my $g6 = -1e200; my $g7 = \"guard\"; my $g8 = ChO->new(77); my $g9 : Complex_2d; $g9->{im} = 3; "
        gchk = "    if ($g1 == -7 && $g2 == -3000 && $g3 == 70000 && $g4 == 5000000000L && $g5 == 0.25f && $g6 == -1e200 && $g7 eq \"guard\" && $g8->id == 77 && $g9->{re} == 0 && $g9->{im} == 3) { say \"G\"; }\n"
        uses = "use ChO; use ChI; use ChW; %suse Byte; use Short; use Int; use Long; use Float; use Double; use %s; use %sB; " % (USEM, H, n)
        ee, fe = "new %s[3]" % (A if self.place == "el" else "string"), "new %s[3]" % T
        loc = "my $a : %s; my $x : %s; my $h = %s->new; my $e = %s; my $f = %s; my $m : mutable string; " % (A, T, H, ee, fe)
        if self.xplace == "ref":
            loc += "my $q = \\$x; "
        p = " : precompile" if self.pre else ""
        B = "class %sB { }" % n if kd["k"] != "obj" else "class %sB%s { %shas f0 : public %s; has f1 : public %s; method sum : int () { return %s->t($self->{f0}) * 10 + %s->t($self->{f1}); } }\n" % (n, "", "use ChO; use ChI; use %s; allow %s; " % (n, n), T if T not in MUL else "int", T if T not in MUL else "int", n, n)
        B = B.replace("class %sB {" % n, "class %sB : public {" % n)
        Hs = "class %s : public { use ChO; use ChI; %suse %sB; has a : public %s; has x : public %s; static method new : %s () { return new %s; } }\n" % (H, USEM, n, A, cvx, H, H)
        src = "class %s%s {\n  %s\n  our $A : %s; our $X : %s; %s\n  static method v : %s ($n : int) { %s }\n  static method t : int ($v : %s) { %s }\n  static method id : %s ($v : %s) { return $v; }\n  static method ix : int ($i : int) { return $i; }\n  static method %s\n  static method thr_s : string () { die \"thrown\"; }\n  static method st : void ($a : %s, $x : %s) { my $s = \"S \"; %s $s .= \" \" . &t($x); say $s; }\n%s  static method main : void () {\n    %s%s%s\n%s%s    $O1X\n  }\n}\n" % (
            n, p, uses, A, cvx, O, T, mk, T, kd["tok"], T, T, stub, A, T, show, "".join(self.methods), init, guard, loc, "".join(steps), gchk)
        src = src.replace("    $O1X\n", "    $A = undef; eval { }%s\n" % (" $O1 = undef; $O2 = undef;%s" % (" $X = undef;") if obj else ""))
        return src, {n + "B": B, H: Hs}


def parse(lines):
    """[(ok, r, state, trace)]"""
    out, i = [], 0
    while i < len(lines):
        l = lines[i]
        if l.startswith("R "):
            out.append((True, int(l[2:]), lines[i + 1] if i + 1 < len(lines) else None, None)); i += 2
        elif l.startswith("T "):
            j = i + 1
            while j < len(lines) and not lines[j].startswith("S "):
                j += 1
            out.append((False, l[2:], lines[j] if j < len(lines) else None, lines[i + 1:j])); i = j + 1
        else:
            break
    return out, lines[i:]


def state(o):
    return "S %s %d" % ("d" + "".join(map(str, o["e"])) if o["d"] else "", o["x"])


def check(c):
    c.build(libs=vp.CORE_LIBS)
    rng = random.Random("c10/%d" % c.seed)
    ps = []
    kn = sorted(KINDS)
    for i in range(c.q(208, 3000)):
        ps.append(Prog(c, "Ck%d" % i, kn[i % len(kn)], rng, c.q(30, 60)))
    npre = c.q(16, 120)
    for i in range(npre):
        ps.append(Prog(c, "Cp%d" % i, kn[(i + c.seed) % len(kn)], rng, 40, pre=True))
    rows = [{"k": p.kd["k"], "ops": [dict(o, i=max(o["i"], -2147483647)) for o in p.ops]} for p in ps]
    rf = c.path("rows.json")
    json.dump(rows, open(rf, "w"))
    r = c.tlc("Checked", "CONSTANT RowFile = \"%s\"\nINIT Init\nNEXT Next\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\n" % rf, timeout=c.q(200, 1500))
    exp = [json.load(open(os.path.join(r["dir"], "out_%d.json" % (i + 1)))) for i in range(len(ps))]
    shared = {"ChO": OBJ, "ChI": ITF, "ChW": BAD, **MULC}
    srcs = {}
    for p in ps:
        s, sh = p.source()
        srcs[p.name] = s; shared.update(sh)
    steps = 0
    for jit in (False, True):
        sel = [p for p in ps if p.pre == jit]
        out = vp.run_programs(c, {p.name: srcs[p.name] for p in sel}, shared=shared, mem=True, jit=jit, timeout=c.q(200, 900))
        for p in sel:
            e, o = exp[ps.index(p)], out[p.name]
            got, rest = parse(o.lines)
            why = None
            for j, x in enumerate(e):
                if j >= len(got):
                    why = "stopped before step %d" % j; break
                g = got[j]
                if g[0] != x["ok"]:
                    why = "step %d %s: specified that it %s" % (j, p.ops[j], "succeeds, but it threw %r" % g[3][:1] if x["ok"] else "throws, but it succeeded")
                elif g[2] != state(x):
                    why = "step %d %s (%s): specified state %r, got %r" % (j, p.ops[j], "succeeds" if x["ok"] else "throws", state(x), g[2])
                elif x["ok"] and x["r"] >= 0 and g[1] != x["r"]:
                    why = "step %d %s: specified value %d, got %d" % (j, p.ops[j], x["r"], g[1])
                elif not x["ok"] and not any(("%s->%s at " % (p.name, g[1])) in t for t in g[3]):
                    why = "step %d %s: the exception does not name the method that threw: %r" % (j, p.ops[j], g[3])
                if why:
                    break
                steps += 1
            if not why and (o.crash or o.exc is not None or o.compile_error or o.mem):
                why = o.crash or o.exc or o.compile_error or "%d memory blocks left" % o.mem
            if not why and rest != ["G"]:
                why = "an unrelated variable changed: %r" % rest
            if o.compile_error or o.crash:
                why = "%s %s" % (o.crash or o.compile_error, why or "")
            if why:
                c.violation("%s %s" % (p.kn, why[:60]), "%s (%s)%s: %s" % (p.kn, p.place, " precompiled" if jit else "", why),
                            {"source": srcs[p.name], "classes": {k: v for k, v in shared.items() if k in ("ChO", "ChI", "ChW", *MULC, p.name + "B", p.name + "H")}, "expected": e})
            else:
                c.cov["traces_validated_against_impl"] += 1
    c.cov["steps"] = steps
    c.sample({"kind": ps[0].kn, "ops": ps[0].ops[:8], "expected": exp[0][:8]})
    c.log("%d histories, %d steps" % (len(ps), steps))


if __name__ == "__main__":
    vp.main("C10", check)
