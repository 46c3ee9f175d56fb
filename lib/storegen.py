"""Random programs for Store.tla and their SPVM form."""
import random

NUM = ["byte", "short", "int", "long", "float", "double"]
SCAL = NUM + ["string", "StO"]
#   tokens 1..4 of each type
CONST = {"byte": ["1", "-128", "127", "-2"], "short": ["258", "-32768", "32767", "-257"], "int": ["16909060", "-2147483648", "2147483647", "-65537"],
         "long": ["72623859790382856L", "-9223372036854775808L", "4294967296L", "-4294967297L"], "float": ["1.5f", "-3.0e38f", "1.0e-30f", "16777217.0f"],
         "double": ["1.0000000000000002", "-1.0e300", "4294967297.0", "3.0e-300"], "string": ["\"a\"", "\"\"", "\"b\\0c\"", "\"long string value\""], "StO": ["$O1", "$O2", "$O3", "$O4"]}
MUL = {"Complex_2d": ["re", "im"], "Complex_2f": ["re", "im"], "StB_3b": ["a", "b", "c"], "StS_2s": ["a", "b"], "StI_4i": ["a", "b", "c", "d"], "StL_2l": ["a", "b"],
       "StD_4d": ["a", "b", "c", "d"], "StF_5f": ["a", "b", "c", "d", "e"], "StB_6b": ["a", "b", "c", "d", "e", "f"], "StS_4s": ["a", "b", "c", "d"], "StL_3l": ["a", "b", "c"]}
MT = {"d": "double", "f": "float", "b": "byte", "s": "short", "i": "int", "l": "long"}
PF = [("b0", "byte"), ("s0", "short"), ("l0", "long"), ("b1", "byte"), ("i0", "int"), ("o0", "StO"), ("f0", "float"), ("b2", "byte"), ("d0", "double"), ("t0", "string"), ("s1", "short")]
SF = [("b3", "byte"), ("l1", "long"), ("s2", "short"), ("o1", "StO"), ("b4", "byte"), ("f1", "float"), ("i1", "int"), ("d1", "double"), ("t1", "string")]
#  StS repeats two fields of StP (same type): they are the inherited ones
SHARED = {
    "StO": "class StO : public { has k : public int; static method new : StO () { return new StO; } }\n",
    "StC": "class StC : interface_t { required method : int ($k : int, $v : int); }\n",
    "StP": "class StP : public { use StO; %s static method new : StP () { return new StP; } }\n" % " ".join("has %s : public %s;" % x for x in PF),
    "StS": "class StS extends StP : public { use StO; use StP; has b3 : public byte; has b1 : public byte; has o0 : public StO; %s static method new : StS () { return new StS; } }\n" % " ".join("has %s : public %s;" % x for x in SF[1:]),
    "StB_3b": "class StB_3b : mulnum_t { has a : byte; has b : byte; has c : byte; }\n", "StS_2s": "class StS_2s : mulnum_t { has a : short; has b : short; }\n",
    "StI_4i": "class StI_4i : mulnum_t { has a : int; has b : int; has c : int; has d : int; }\n", "StL_2l": "class StL_2l : mulnum_t { has a : long; has b : long; }\n",
}
for _m in ("StD_4d", "StF_5f", "StB_6b", "StS_4s", "StL_3l"):
    SHARED[_m] = "class %s : mulnum_t { %s }\n" % (_m, " ".join("has %s : %s;" % (f, MT[_m[-1]]) for f in MUL[_m]))
CLS = {"StP": PF, "StS": PF + SF}


def mulelem(m):
    return MT[m[-1]]


def helpers():
    out = []
    for t in SCAL:
        cmp_ = "eq" if t == "string" else "=="
        und = t in ("string", "StO")
        out.append("  static method t_%s : int ($v : %s) { %s%s %s return 99; }" % (
            t, t, "if (!$v) { return 0; } " if t == "StO" else "if ($v == undef) { return 0; } " if und else "if ($v == 0) { return 0; } ",
            " ".join("if ($v %s %s) { return %d; }" % (cmp_, ("(%s)%s" % (t, x)) if t in ("byte", "short") else x, i + 1) for i, x in enumerate(CONST[t])), ""))
        out.append("  static method p_%s : void ($v : %s) { my $k = &t_%s($v); say \"$k\"; }" % (t, t, t))
        out.append("  static method c_%s : %s ($k : int) { %s return %s; }" % (t, t, " ".join("if ($k == %d) { return %s; }" % (i + 1, x) for i, x in enumerate(CONST[t])), "undef" if und else "0"))
        out.append("  static method id_%s : %s ($v : %s) { return $v; }" % (t, t, t))
    for m in MUL:
        out.append("  static method id_%s : %s ($v : %s) { return $v; }" % (m, m, m))
    return "\n".join(out)


class V:
    def __init__(self, name, kind, ty, w=1, length=0, glob=False):
        self.name, self.kind, self.ty, self.w, self.length, self.glob = name, kind, ty, w, length, glob


class Gen:
    """kinds of variables: s scalar, m multi-numeric, a array of scalars, q array of multi-numerics, o object, r reference to a scalar, u reference to a multi-numeric, c closure"""
    def __init__(self, name, rng, size, nmeth=4, many=0):
        self.name, self.rng, self.size, self.many = name, rng, size, many
        self.nv = 0
        self.globals = []
        genv, gmem, base = {}, [], 9
        for i in range(6):
            t = SCAL[(i * 3 + rng.randrange(2)) % len(SCAL)]
            v = V("G%d" % i, "s", t, glob=True)
            self.globals.append(v); genv[v.name] = base; gmem.append(0); base += 1
        self.meths = {}
        for i in range(nmeth):
            ps = []
            for j in range(rng.randint(0, 6)):
                ps.append(self.param("P%d_%d" % (i, j)))
            self.meths["m%d" % i] = {"params": ps, "ret": rng.choice([None, ("s", rng.choice(SCAL)), ("s", rng.choice(SCAL)), ("m", rng.choice(list(MUL)))]), "static": True}
        self.P = {"genv": genv, "gmem": gmem, "fuel": 3, "methods": {}}
        self.src = []
        for k, m in self.meths.items():
            self.calls = 2
            body, src = self.block([list(m["params"])], size // 2, 2, callees=True)
            sc = [list(m["params"])] + []
            if m["ret"]:
                # the returned place is declared at the method's top level
                st, ss, v = self.declare(m["ret"][0], m["ret"][1])
                body = [st] + body
                src = [ss] + src
                # body may not see v by name clash: names are unique
                b2, s2 = self.assign([[v] + list(m["params"])], v)
                body += b2; src += s2
                body.append({"s": "ret", "p": self.pl(v), "w": v.w}); src.append("return $%s;" % v.name)
            self.P["methods"][k] = {"params": [p.name for p in m["params"]], "body": body}
            self.src.append("  static method %s : %s (%s) {\n%s\n  }" % (k, m["ret"][1] if m["ret"] else "void", ", ".join(["$fuel : int"] + ["$%s : %s" % (p.name, self.typ(p)) for p in m["params"]]), "\n".join("    " + x for x in src)))
        self.calls = 4
        main, src = self.block([[]], size, 3, callees=True, many=many)
        self.P["main"] = main
        tail = " ".join("$%s = %s;" % (g.name, "undef") for g in self.globals if g.ty in ("string", "StO"))
        self.mainsrc = "  static method main : void () {\n    my $fuel = 3; $O1 = StO->new; $O2 = StO->new; $O3 = StO->new; $O4 = StO->new;\n%s\n    %s $O1 = undef; $O2 = undef; $O3 = undef; $O4 = undef;\n  }" % ("\n".join("    " + x for x in src), tail)

    def typ(self, v):
        return {"s": v.ty, "m": v.ty, "a": v.ty + "[]", "q": v.ty + "[]", "o": v.ty, "r": v.ty + "*", "u": v.ty + "*", "c": "StC"}[v.kind]

    def fresh(self, p="v"):
        self.nv += 1
        return "%s%d" % (p, self.nv)

    def param(self, name):
        r = self.rng
        k = r.choice("sssssmmaorru")
        if k == "s":
            return V(name, k, r.choice(SCAL))
        if k == "m":
            m = r.choice(list(MUL)); return V(name, k, m, len(MUL[m]))
        if k == "a":
            return V(name, k, r.choice(SCAL), length=3)
        if k == "o":
            return V(name, k, r.choice(list(CLS)))
        if k == "r":
            return V(name, k, r.choice(NUM))
        return V(name, "u", r.choice(list(MUL)))

    # ---- places: (spec place, source, type, w)
    def pl(self, v, i=0, o=0):
        return {"n": v.name, "i": i, "o": o}

    def scalars(self, sc, ty=None):
        """all scalar places reachable: (place, source) with type ty (or any: adds type)"""
        out = []
        for v in [x for s in sc for x in s] + self.globals:
            n = "$" + v.name
            if v.kind == "s":
                out.append((self.pl(v), n, v.ty))
            elif v.kind == "m":
                for i, f in enumerate(MUL[v.ty]):
                    out.append((self.pl(v, 0, i), "%s->{%s}" % (n, f), mulelem(v.ty)))
            elif v.kind == "u":
                for i, f in enumerate(MUL[v.ty]):
                    out.append((self.pl(v, 1, i), "%s->{%s}" % (n, f), mulelem(v.ty)))
            elif v.kind == "a":
                for i in range(v.length):
                    out.append((self.pl(v, 1, i), "%s->[%s]" % (n, i if self.rng.random() < 0.7 else "%d + $zero" % i), v.ty))
            elif v.kind == "q":
                w = len(MUL[v.ty])
                for i in range(v.length):
                    for j, f in enumerate(MUL[v.ty]):
                        out.append((self.pl(v, 1, i * w + j), "%s->[%d]{%s}" % (n, i, f), mulelem(v.ty)))
            elif v.kind == "o":
                for i, (f, t) in enumerate(CLS[v.ty]):
                    out.append((self.pl(v, 1, i), "%s->{%s}" % (n, f), t))
            elif v.kind == "r":
                out.append((self.pl(v, 1, 0), "$$" + v.name, v.ty))
        return [x for x in out if ty is None or x[2] == ty]

    def mulplaces(self, sc, ty=None):
        out = []
        for v in [x for s in sc for x in s]:
            n = "$" + v.name
            if v.kind == "m":
                out.append((self.pl(v), n, v.ty))
            elif v.kind == "u":
                out.append((self.pl(v, 1, 0), "$" + n, v.ty))
            elif v.kind == "q":
                for i in range(v.length):
                    out.append((self.pl(v, 1, i * len(MUL[v.ty])), "%s->[%d]" % (n, i), v.ty))
        return [x for x in out if ty is None or x[2] == ty]

    def pick(self, sc, ty=None):
        """prefer variables over the many fields"""
        c = self.scalars(sc, ty)
        if not c:
            return None
        vs = [x for x in c if "->" not in x[1]]
        return self.rng.choice(vs) if vs and self.rng.random() < 0.5 else self.rng.choice(c)

    def declare(self, kind, ty, init=None):
        w = 1 if kind == "s" else len(MUL[ty])
        v = V(self.fresh(), kind, ty, w)
        if kind == "s" and init:
            return {"s": "my", "n": v.name, "v": [init]}, "my $%s : %s = %s;" % (v.name, ty, self.const(ty, init)), v
        return {"s": "my", "n": v.name, "v": [0] * w}, "my $%s : %s;" % (v.name, ty), v

    def const(self, ty, k):
        if k == 0:
            return "undef" if ty in ("string", "StO") else "0"
        return CONST[ty][k - 1] if self.rng.random() < 0.6 else "&c_%s(%d)" % (ty, k)

    def viasrc(self, s, ty):
        r = self.rng
        f = [s, s, s, "&id_%s(%s)" % (ty, s)]
        if ty in NUM:
            wider = {"byte": ["short", "int", "long", "double"], "short": ["int", "long", "float"], "int": ["long", "double"], "float": ["double"]}.get(ty, [])
            f += ["(%s)(%s)%s" % (ty, x, s) for x in wider[:2]] + ["(%s)(%s + 0)" % (ty, s) if ty in ("byte", "short") else "%s + 0" % s if ty not in () else s, "[%s]->[0]" % s if False else s]
        if ty == "string":
            f += ["(string)(object)%s" % s]
        if ty == "StO":
            f += ["(StO)(object)%s" % s]
        return r.choice(f)

    def assign(self, sc, v):
        """give variable v (scalar or multi-numeric) some value"""
        r = self.rng
        if v.kind == "s":
            c = self.pick(sc, v.ty)
            if c and r.random() < 0.7:
                return [{"s": "cp", "p": self.pl(v), "q": c[0], "w": 1}], ["$%s = %s;" % (v.name, self.viasrc(c[1], v.ty))]
            k = r.randint(0, 4)
            return [{"s": "set", "p": self.pl(v), "v": k}], ["$%s = %s;" % (v.name, self.const(v.ty, k))]
        c = self.mulplaces(sc, v.ty)
        if c and r.random() < 0.7:
            x = r.choice(c)
            return [{"s": "cp", "p": self.pl(v), "q": x[0], "w": v.w}], ["$%s = %s;" % (v.name, x[1])]
        i = r.randrange(v.w); k = r.randint(0, 4)
        return [{"s": "set", "p": self.pl(v, 0, i), "v": k}], ["$%s->{%s} = %s;" % (v.name, MUL[v.ty][i], self.const(mulelem(v.ty), k))]

    def burst(self, mine, out, src):
        """neighbouring variables of one type, one written through a reference, all read"""
        r = self.rng
        t = r.choice(NUM + ["byte", "short"])
        vs = []
        for _ in range(r.randint(3, 6)):
            st, s, v = self.declare("s", t, r.randint(1, 4)); out.append(st); src.append(s); mine.append(v); vs.append(v)
        for x in r.sample(vs, 2):
            k = r.randint(0, 4); v = V(self.fresh("r"), "r", t)
            out.append({"s": "addr", "n": v.name, "p": self.pl(x)}); src.append("my $%s = \\$%s;" % (v.name, x.name)); mine.append(v)
            out.append({"s": "set", "p": self.pl(v, 1, 0), "v": k}); src.append("$$%s = %s;" % (v.name, self.const(t, k)))
        for x in vs:
            out.append({"s": "say", "p": self.pl(x)}); src.append("&p_%s($%s);" % (t, x.name))

    def block(self, sc, size, depth, callees=False, many=0):
        """statements and their source in a new scope below sc"""
        r = self.rng
        out, src = [], []
        mine = []
        scope = sc + [mine]
        src.append("my $zero = 0;" if len(sc) == 1 else "")
        for _ in range(many):
            t = r.choice(SCAL)
            st, s, v = self.declare("s", t, r.randint(0, 4)); out.append(st); src.append(s); mine.append(v)
        for v in [x for x in sc[0] if len(sc) == 1] if len(sc) == 1 else []:
            pass
        n = 0
        while n < size:
            n += 1
            if r.random() < 0.04: self.churn(scope, out, src)
            if r.random() < 0.03: self.burst(mine, out, src)
            k = r.random()
            if k < 0.16 or not self.scalars(scope):
                kind = r.choice("ssssmmaqoruc")
                st = None
                if kind == "s":
                    t = r.choice(SCAL)
                    st, s, v = self.declare("s", t, r.choice([0, 0, 1, 2, 3, 4]))
                    c = self.pick(scope, t)
                    if c and r.random() < 0.4:
                        out.append(st); st = {"s": "cp", "p": self.pl(v), "q": c[0], "w": 1}; s = "my $%s = %s;" % (v.name, self.viasrc(c[1], t))
                elif kind == "m":
                    st, s, v = self.declare("m", r.choice(list(MUL)))
                elif kind in "aq":
                    t = r.choice(SCAL if kind == "a" else list(MUL)); ln = r.choice([2, 3, 3, 4, 4, 6])
                    v = V(self.fresh(), kind, t, length=ln)
                    out.append({"s": "my", "n": v.name, "v": [0]})
                    st = {"s": "new", "p": self.pl(v), "w": ln * (len(MUL[t]) if kind == "q" else 1)}; s = "my $%s = new %s[%d];" % (v.name, t, ln)
                elif kind == "o":
                    t = r.choice(list(CLS)); v = V(self.fresh(), "o", t)
                    out.append({"s": "my", "n": v.name, "v": [0]})
                    st = {"s": "new", "p": self.pl(v), "w": len(CLS[t])}; s = "my $%s = %s->new;" % (v.name, t)
                elif kind == "r":
                    cs = [x for ss in scope for x in ss if x.kind == "s" and x.ty in NUM]
                    if not cs:
                        continue
                    x = r.choice(cs); v = V(self.fresh("r"), "r", x.ty)
                    st = {"s": "addr", "n": v.name, "p": self.pl(x)}; s = "my $%s = \\$%s;" % (v.name, x.name)
                elif kind == "u":
                    cs = [x for ss in scope for x in ss if x.kind == "m"]
                    if not cs:
                        continue
                    x = r.choice(cs); v = V(self.fresh("r"), "u", x.ty)
                    st = {"s": "addr", "n": v.name, "p": self.pl(x)}; s = "my $%s = \\$%s;" % (v.name, x.name)
                else:
                    ps = [self.pick(scope) for _ in range(r.randint(1, 4))]
                    if None in ps:
                        continue
                    v = V(self.fresh("c"), "c", None); v.caps = [p[2] for p in ps]
                    st = {"s": "cap", "n": v.name, "ps": [p[0] for p in ps]}
                    v.settable = r.random() < 0.6
                    if v.settable:
                        s = "my $%s = (StC)[%s] method : int ($k : int, $v : int) { %s return 98; };" % (v.name, ", ".join("has c%d : %s = %s" % (i, p[2], p[1]) for i, p in enumerate(ps)), " ".join(
                            "if ($k == %d) { if ($v >= 0) { $self->{c%d} = %s->c_%s($v); } return %s->t_%s($self->{c%d}); }" % (i, i, self.name, p[2], self.name, p[2], i) for i, p in enumerate(ps)))
                    else:
                        s = "my $%s = (StC)[%s] method : int ($k : int, $v : int) { %s return 98; };" % (v.name, ", ".join("$c%d : %s = %s" % (i, p[2], p[1]) for i, p in enumerate(ps)), " ".join(
                            "if ($k == %d) { return %s->t_%s($c%d); }" % (i, self.name, p[2], i) for i, p in enumerate(ps)))
                out.append(st); src.append(s); mine.append(v)
            elif k < 0.34:
                c = self.pick(scope); kk = r.randint(0, 4)
                out.append({"s": "set", "p": c[0], "v": kk}); src.append("%s = %s;" % (c[1], self.const(c[2], kk)))
            elif k < 0.52:
                c = self.pick(scope); q = self.pick(scope, c[2])
                if r.random() < 0.2:
                    q2 = self.pick(scope, c[2])
                    out += [{"s": "cp", "p": q[0], "q": q2[0], "w": 1}, {"s": "cp", "p": c[0], "q": q2[0] if False else q[0], "w": 1}]
                    src.append("%s = (%s = %s);" % (c[1], q[1], self.viasrc(q2[1], c[2])) if r.random() < 0.7 else "%s = %s; %s = %s;" % (q[1], q2[1], c[1], q[1]))
                else:
                    out.append({"s": "cp", "p": c[0], "q": q[0], "w": 1}); src.append("%s = %s;" % (c[1], self.viasrc(q[1], c[2])))
            elif k < 0.58:
                ms = self.mulplaces(scope)
                if ms:
                    c = r.choice(ms); q = r.choice(self.mulplaces(scope, c[2]))
                    out.append({"s": "cp", "p": c[0], "q": q[0], "w": len(MUL[c[2]])}); src.append("%s = %s;" % (c[1], q[1] if r.random() < 0.7 else "&id_%s(%s)" % (c[2], q[1])))
            elif k < 0.62:
                # variables holding an object or an array: share it
                vs = [x for ss in scope for x in ss if x.kind in "aqo"]
                pairs = [(x, y) for x in vs for y in vs if x is not y and (x.kind, x.ty, x.length) == (y.kind, y.ty, y.length) or x is not y and x.kind == "o" == y.kind and x.ty == "StP"]
                if pairs:
                    x, y = r.choice(pairs)
                    out.append({"s": "cp", "p": self.pl(x), "q": self.pl(y), "w": 1}); src.append("$%s = $%s;" % (x.name, y.name))
            elif k < 0.78:
                cs = [x for ss in scope for x in ss if x.kind == "c"]
                if cs and r.random() < 0.3:
                    x = r.choice(cs); i = r.randrange(len(x.caps)); val = r.randint(0, 4)
                    if x.settable and r.random() < 0.5:
                        out.append({"s": "set", "p": self.pl(x, 1, i), "v": val})
                    else:
                        val = -1
                    out.append({"s": "say", "p": self.pl(x, 1, i)}); src.append("{ my $k = $%s->(%d, %d); say \"$k\"; }" % (x.name, i, val))
                else:
                    c = self.pick(scope)
                    out.append({"s": "say", "p": c[0]}); src.append("&p_%s(%s);" % (c[2], c[1]))
            elif k < 0.86 and depth > 0:
                b, s = self.block(scope, r.randint(2, 8), depth - 1, callees)
                if r.random() < 0.5:
                    out.append({"s": "blk", "b": b}); src.append(r.choice(["{ %s }" if "".join(s).strip() else "if (1) { %s }", "if (1) { %s }", "eval { %s };", "switch (1) { case 1: { %s } }"]).replace("%s", "\n" + "\n".join("      " + x for x in s) + "\n"))
                else:
                    kk = r.choice([0, 1, 2, 2]); lv = self.fresh("i")
                    out.append({"s": "loop", "k": kk, "b": b}); src.append("for (my $%s = 0; $%s < %d; $%s++) {\n%s\n}" % (lv, lv, kk, lv, "\n".join("      " + x for x in s)))
            elif callees and self.meths and self.calls > 0:
                self.calls -= 1
                m = r.choice(list(self.meths)); mm = self.meths[m]
                args, asrc = [], []
                for p in mm["params"]:
                    a = self.arg(scope, p)
                    if a is None:
                        break
                    args.append(a[0]); asrc.append(a[1])
                else:
                    st = {"s": "call", "m": m, "args": args, "w": 0, "p": {"n": "G0", "i": 0, "o": 0}}
                    call = "&%s(%s)" % (m, ", ".join(["$fuel - 1"] + asrc))
                    if mm["ret"]:
                        cs = [x for ss in scope for x in ss if x.kind == mm["ret"][0] and x.ty == mm["ret"][1]]
                        if cs:
                            x = r.choice(cs); st["w"] = x.w; st["p"] = self.pl(x); call = "$%s = %s" % (x.name, call)
                    out.append(st); src.append("if ($fuel > 0) { %s; }" % call)
        for v in mine:           # everything declared here is read at the end
            if r.random() < 0.5:
                cs = self.scalars([[v]])
                cs = [c for c in cs if c[0]["n"] == v.name]
                for c in r.sample(cs, min(3, len(cs))):
                    out.append({"s": "say", "p": c[0]}); src.append("&p_%s(%s);" % (c[2], c[1]))
        return out, src

    def churn(self, scope, out, src):
        """every cell of one container: all written, a few changed, all read"""
        r = self.rng
        vs = [x for ss in scope for x in ss if x.kind in "aaqmou"]
        if not vs: return
        v = r.choice(vs); cs = [c for c in self.scalars([[v]]) if c[0]["n"] == v.name]
        if len(cs) > 12: cs = r.sample(cs, 12)
        def put(c, kk): out.append({"s": "set", "p": c[0], "v": kk}); src.append("%s = %s;" % (c[1], self.const(c[2], kk)))
        for c in cs: put(c, r.choice([0, 1, 1, 2, 3, 4]))
        for _ in range(r.randint(1, 4)):
            c = r.choice(cs); q = [x for x in cs if x[2] == c[2]]
            if r.random() < 0.5: put(c, r.choice([0, 0, 1, 2, 3, 4]))
            else: q = r.choice(q); out.append({"s": "cp", "p": c[0], "q": q[0], "w": 1}); src.append("%s = %s;" % (c[1], q[1]))
        for c in cs: out.append({"s": "say", "p": c[0]}); src.append("&p_%s(%s);" % (c[2], c[1]))

    def arg(self, sc, p):
        r = self.rng
        allv = [x for s in sc for x in s]
        if p.kind == "s":
            c = self.pick(sc, p.ty)
            return c and ({"k": "val", "p": c[0], "w": 1}, self.viasrc(c[1], p.ty))
        if p.kind == "m":
            c = self.mulplaces(sc, p.ty)
            if not c:
                return None
            x = r.choice(c)
            return {"k": "val", "p": x[0], "w": p.w}, x[1]
        if p.kind in "ao":
            c = [x for x in allv if x.kind == p.kind and (x.ty == p.ty or p.kind == "o" and p.ty == "StP") and (p.kind == "o" or x.length >= p.length)]
            if not c:
                return None
            x = r.choice(c)
            return {"k": "val", "p": self.pl(x), "w": 1}, "$" + x.name
        k1, k2 = ("s", "r") if p.kind == "r" else ("m", "u")
        c = [x for x in allv if x.kind in (k1, k2) and x.ty == p.ty]
        if not c:
            return None
        x = r.choice(c)
        if x.kind == k1:
            return {"k": "ref", "p": self.pl(x), "w": 1}, "\\$" + x.name
        return {"k": "val", "p": self.pl(x), "w": 1}, "$" + x.name

    def source(self, pre=False):
        uses = " ".join("use %s;" % x for x in ("StO", "StC", "StP", "StS") + tuple(MUL))
        return "class %s%s {\n  %s our $O1 : StO; our $O2 : StO; our $O3 : StO; our $O4 : StO;\n  %s\n%s\n%s\n%s\n}\n" % (
            self.name, " : precompile" if pre else "", uses, " ".join("our $%s : %s;" % (g.name, g.ty) for g in self.globals), helpers(), "\n".join(self.src), self.mainsrc)
