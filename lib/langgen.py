"""Random programs of the Lang.tla abstract syntax, and their rendering as SPVM source."""
import random

ERRS = ["Error", "Error::System", "Error::NotSupported", "Error::Compile"]


class Gen:
    def __init__(self, rng, name, opts=None):
        self.r = rng
        self.name = name
        self.o = {"exc": 1.0, "guard": 1.0, "ctl": 1.0, "expr": 1.0}
        self.o.update(opts or {})
        self.nv = 0
        self.ng = 0
        self.nt = 0
        self.methods = []          # {name, cls, params, body, ret, kind}
        self.cvs = ["CV0", "CV1"]

    def fresh(self, p):
        self.nv += 1
        return "%s%d" % (p, self.nv)

    # ------------------------------------------------------------ expressions
    # scope: dict(ints=[..], arrs=[(name)], ctr=set of loop counters not to be changed)
    def const(self):
        return ["c", self.r.choice([0, 1, 2, 3, 4, 5, 7, -1, -2, 10])]

    def traced(self, e):
        self.nt += 1
        return ["t", "e%d" % self.nt, e]

    def expr(self, sc, d, pure=False):
        r = self.r
        if d <= 0 or r.random() < 0.15:
            c = r.random()
            if c < 0.4 and sc["ints"]:
                return ["v", r.choice(sc["ints"])]
            if c < 0.5:
                return ["cv", r.choice(self.cvs)] if pure else self.traced(["cv", r.choice(self.cvs)])
            if c < 0.6 and not pure:
                return self.traced(self.const())
            return self.const()
        k = r.random()
        if k < 0.30:
            op = r.choice(["+", "-", "*", "+", "-", "/", "%"]) if r.random() < 0.7 else r.choice(["==", "!=", "<", "<=", ">", ">=", "<=>"])
            return ["b", op, self.expr(sc, d - 1, pure), self.expr(sc, d - 1, pure), 0]
        if k < 0.36:
            return ["neg", self.expr(sc, d - 1, pure)]
        if pure:
            return self.expr(sc, 0, True)
        if k < 0.48:
            return self.traced(self.expr(sc, d - 1))
        if k < 0.62:
            ms = [m for m in self.callable(sc) if m["ret"]]
            if ms:
                return self.call(r.choice(ms), sc, d - 1)
        if k < 0.72 and sc["arrs"]:
            a = r.choice(sc["arrs"])
            return ["el", a, self.index(sc, d - 1), 0]
        if k < 0.76 and sc["arrs"]:
            return ["len", r.choice(sc["arrs"])]
        if k < 0.9:
            return self.cond(sc, d - 1)
        return ["seq", [self.traced(self.expr(sc, d - 1)) for _ in range(r.randint(2, 3))]]

    def index(self, sc, d):
        r = self.r
        if r.random() < 0.75:
            e = ["c", r.choice([0, 1, 2])]
        elif r.random() < 0.4 * self.o["exc"]:
            e = ["c", r.choice([-1, 5, 3])]
        else:
            e = ["b", "%", self.expr(sc, d, False), ["c", 3], 0]
        return self.traced(e) if r.random() < 0.3 else e

    def cond(self, sc, d):
        r = self.r
        k = r.random()
        if d > 0 and k < 0.25:
            return ["and", self.cond(sc, d - 1), self.cond(sc, d - 1)]
        if d > 0 and k < 0.5:
            return ["or", self.cond(sc, d - 1), self.cond(sc, d - 1)]
        if d > 0 and k < 0.6:
            return ["not", self.cond(sc, d - 1)]
        if k < 0.68:
            return ["err?"] if r.random() < 0.5 else ["erris", r.choice(ERRS)]
        if k < 0.8:
            return self.traced(["c", r.choice([0, 1])])
        return ["b", r.choice(["<", ">", "==", "!=", "<=", ">="]), self.expr(sc, d - 1), self.const(), 0]

    def place(self, sc, d):
        r = self.r
        w = [v for v in sc["ints"] if v not in sc["ctr"]]
        k = r.random()
        if k < 0.5 and w:
            return ["v", r.choice(w)]
        if k < 0.7 and sc["arrs"]:
            # constant index: which of index and right operand comes first is not asked here
            i = ["c", r.choice([0, 1, 2, 0, 1, 2, 5, -1]) if r.random() < self.o["exc"] else r.choice([0, 1, 2])]
            return ["el", r.choice(sc["arrs"]), i, 0]
        return ["cv", r.choice(self.cvs)]

    def side(self, sc, d):
        """An expression evaluated for its side effect on a place.  Its value operands are side-effect free on places."""
        r = self.r
        k = r.random()
        p = self.place(sc, d)
        if k < 0.4:
            return ["asg", p, self.expr(sc, d)]
        if k < 0.75:
            return ["op=", r.choice(["+", "-", "*", "%", "/"]), p, self.expr(sc, d, pure=(p[0] != "v" or True)), 0]
        return ["inc", r.choice(["pre", "post"]), r.choice([1, -1]), p]

    def call(self, m, sc, d):
        args = []
        for p in m["params"]:
            if p == "n":       # recursion budget parameter
                args.append(["b", "-", ["v", "n"], ["c", 1], 0] if sc.get("rec") and m is sc["meth"] else ["c", self.r.randint(0, 3)])
            else:
                args.append(self.expr(sc, d))
        return ["call", m["id"], args, 0]

    def callable(self, sc):
        me = sc["meth"]
        lim = me["idx"] if me else len(self.methods)
        ms = [m for m in self.methods if m["idx"] < lim]
        return ms

    # ------------------------------------------------------------ statements
    def block(self, sc, d, n=None):
        r = self.r
        sc = dict(sc, ints=list(sc["ints"]), arrs=list(sc["arrs"]))
        out = []
        n = n if n is not None else r.randint(1, 3)
        for i in range(n):
            s = self.stmt(sc, d)
            if s is None:
                continue
            out.append(s)
            if s[0] in ("last", "next", "break", "ret", "die"):
                break
        return out

    def stmt(self, sc, d):
        r = self.r
        self.budget -= 1
        if self.budget < 0:
            return ["say", "z", self.const()]
        k = r.random()
        o = self.o
        if k < 0.13:
            self.nt += 1
            return ["say", "q%d" % self.nt, self.expr(sc, 2)]
        if k < 0.22:
            v = self.fresh("v")
            e = self.expr(sc, 2)
            sc["ints"].append(v)
            return ["my", v, e]
        if k < 0.27:
            v = self.fresh("a")
            es = [self.expr(sc, 1) for _ in range(3)]
            sc["arrs"].append(v)
            return ["my", v, ["arr", es]]
        if k < 0.40:
            return ["x", self.side(sc, 2)]
        if k < 0.45 and o["guard"]:
            self.ng += 1
            return ["guard", "g%d" % self.ng, r.choice(["G", "G", "GThrow", "GEval"])]
        if k < 0.52:
            ms = self.callable(sc)
            if ms:
                return ["x", self.call(r.choice(ms), sc, 2)]
        if d > 0:
            if k < 0.60:
                n = r.randint(1, 3)
                return ["if", [[self.cond(sc, 2), self.block(sc, d - 1)] for _ in range(n)], self.block(sc, d - 1) if r.random() < 0.6 else []]
            if k < 0.62:
                return ["unless", self.cond(sc, 2), self.block(sc, d - 1)]
            if k < 0.67:
                v = self.fresh("w")
                sc2 = dict(sc, ints=sc["ints"] + [v], loop=True, sw=False, ctr=sc["ctr"] | {v})
                body = [["x", ["inc", r.choice(["pre", "post"]), 1, ["v", v]]]] + self.block(sc2, d - 1, r.randint(1, 4))
                c = ["b", "<", ["v", v], ["c", r.randint(0, 4)], 0]
                if r.random() < 0.5:
                    c = ["and", c, self.cond(sc2, 1)]
                if r.random() < 0.5:
                    return ["blk", [["my", v, ["c", 0]], ["while", c, body]]]
                sc["ints"].append(v)      # readable afterwards; an assignment to it after the loop is harmless
                return ["multi", [["my", v, ["c", 0]], ["while", c, body]]]
            if k < 0.73:
                v = self.fresh("f")
                sc2 = dict(sc, ints=sc["ints"] + [v], loop=True, sw=False, ctr=sc["ctr"] | {v})
                c = ["b", "<", ["v", v], ["c", r.randint(0, 4)], 0]
                if r.random() < 0.3:
                    c = self.traced(c)
                inc = [["inc", r.choice(["pre", "post"]), 1, ["v", v]]]
                if r.random() < 0.3:
                    inc = [["seq", [inc[0], self.traced(["v", v])]]]
                return ["for", v, [["asg", ["v", v], self.traced(["c", 0]) if r.random() < 0.3 else ["c", 0]]], c, inc, self.block(sc2, d - 1, r.randint(1, 4))]
            if k < 0.77 and sc["arrs"]:
                v = self.fresh("x")
                sc2 = dict(sc, ints=sc["ints"] + [v], loop=True, sw=False)
                return ["each", v, r.choice(sc["arrs"]), self.block(sc2, d - 1)]
            if k < 0.81:
                vals = r.sample([-3, -2, -1, 0, 1, 2, 3, 4, 5, 7, 10, 100], r.randint(1, 6))
                cases = []
                while vals:
                    m = r.randint(1, min(2, len(vals)))
                    cases.append([vals[:m], None])
                    vals = vals[m:]
                sc2 = dict(sc, sw=True)
                for c in cases:
                    c[1] = self.block(sc2, d - 1)
                hasdef = r.random() < 0.6
                return ["sw", self.expr(sc, 1), cases, self.block(sc2, d - 1) if hasdef else [], 1 if hasdef else 0]
            if k < 0.90:
                b = self.block(sc, d - 1, r.randint(1, 4))
                ev = ["eval", b]
                return ["multi", [ev, ["show"]]] if r.random() < 0.8 else ev
            if k < 0.92:
                return ["blk", self.block(sc, d - 1)]
        if k < 0.945 and sc.get("loop"):
            return [r.choice(["last", "next"])]
        if k < 0.955 and sc.get("sw"):
            return ["break"]
        if k < 0.965 and sc["meth"]:
            return ["ret", self.expr(sc, 2)] if sc["meth"]["ret"] else ["ret"]
        if k < 0.985 and r.random() < self.o["exc"]:
            c = r.random()
            if c < 0.1:
                return ["redie", 0]
            self.nt += 1
            return ["die", "m%d" % self.nt, r.choice(ERRS), 0, r.choice(["plain", "cls", "id", "var"])]
        if k < 0.99:
            return ["show"]
        return ["setat", self.r.choice(["none", "set me"])]

    def program(self, size=30, nmeth=4, depth=3):
        r = self.r
        self.cls = [self.name, self.name + "::A", self.name + "::B"]
        for i in range(nmeth):
            self.budget = size // 3
            m = {"idx": i, "id": "m%d" % i, "name": "m%d" % i, "cls": r.choice(self.cls),
                 "params": ["p%d" % j for j in range(r.randint(0, 2))], "ret": r.random() < 0.7, "kind": r.choice(["static", "static", "inst"])}
            sc = {"ints": list(m["params"]), "arrs": [], "ctr": set(), "meth": m}
            m["body"] = self.block(sc, depth, r.randint(2, 4))
            if m["ret"]:
                m["body"].append(["ret", self.expr(sc, 1)])
            self.methods.append(m)
        # a method that recurses and throws at the bottom
        if r.random() < 0.3:
            m = {"idx": nmeth, "id": "m%d" % nmeth, "name": "m%d" % nmeth, "cls": r.choice(self.cls), "params": ["n"], "ret": True, "kind": "static"}
            bottom = ["die", "deep", r.choice(ERRS), 0, "plain"] if r.random() < 0.6 else ["ret", ["c", 5]]
            rec = ["call", m["id"], [["b", "-", ["v", "n"], ["c", 1], 0]], 0]
            self.ng += 1
            body = [["guard", "g%d" % self.ng, "G"]] if r.random() < 0.5 else []
            body += [["if", [[["b", "<=", ["v", "n"], ["c", 0], 0], [bottom]]], []], ["ret", ["b", "+", ["c", 1], rec, 0]]]
            if r.random() < 0.3:
                body = [["eval", [["x", rec]]], ["show"], ["ret", ["v", "n"]]] if False else body
            m["body"] = body
            self.methods.append(m)
        self.budget = size
        main = {"idx": 99, "id": "main", "name": "main", "cls": self.name, "params": [], "ret": False, "kind": "static"}
        sc = {"ints": [], "arrs": [], "ctr": set(), "meth": None}
        body = [["eval", []]]       # $@ and eval_error_id belong to the runtime stack: start from a known state
        while self.budget > 0:
            s = self.stmt(sc, depth)
            k = s[0]
            if (k in ("die", "redie") and r.random() < 0.9) or (k in ("x", "say", "if", "unless", "for", "each", "sw", "blk") and r.random() < 0.6):
                s = ["multi", [["eval", [s]], ["show"]]]
            body.append(s)
        main["body"] = body
        self.methods.append(main)
        for m in self.methods:
            m["body"] = flatten(m["body"])
        return {"name": self.name, "methods": self.methods, "cvs": self.cvs}


def flatten(ss):
    """Splices the 'multi' pseudo statements and recurses into blocks."""
    out = []
    for s in ss:
        if s is None:
            continue
        k = s[0]
        if k == "multi":
            out += flatten(s[1])
            continue
        s = list(s)
        if k == "if":
            s[1] = [[c, flatten(b)] for c, b in s[1]]
            s[2] = flatten(s[2])
        elif k in ("unless", "while"):
            s[2] = flatten(s[2])
        elif k == "for":
            s[5] = flatten(s[5])
        elif k == "each":
            s[3] = flatten(s[3])
        elif k == "sw":
            s[2] = [[v, flatten(b)] for v, b in s[2]]
            s[3] = flatten(s[3])
        elif k in ("eval", "blk"):
            s[1] = flatten(s[1])
        out.append(s)
        if k in ("last", "next", "break", "ret", "die", "redie"):
            break
    return out


class Printer:
    """Renders a program; fills in the line numbers of the abstract syntax as it goes."""

    def __init__(self, prog, precompile=()):
        self.p = prog
        self.pre = precompile      # classes to be precompiled
        self.ms = {m["id"]: m for m in prog["methods"]}

    def render(self):
        files = {}
        classes = [self.p["name"], self.p["name"] + "::A", self.p["name"] + "::B"]
        for cls in classes:
            self.lines = []
            self.cls = cls
            self.emit("class %s%s {" % (cls, " : precompile" if cls in self.pre else ""))
            for c in classes:
                if c != cls:
                    self.emit("  use %s;" % c)
            self.emit("  use VPL; use VPL::G; use VPL::GThrow; use VPL::GEval; use Error::System; use Error::NotSupported; use Error::Compile;")
            if cls == self.p["name"]:
                for v in self.p["cvs"]:
                    self.emit("  our $%s : public int;" % v)
            self.emit("  static method new : %s () { return new %s; }" % (cls, cls))
            for m in self.p["methods"]:
                m["file"] = cls.split("::")[-1] + ".spvm" if m["cls"] == cls else m.get("file", "")
                if m["cls"] != cls:
                    continue
                self.emit("  %smethod %s : %s (%s) {" % ("static " if m["kind"] == "static" else "", m["name"], "int" if m["ret"] else "void",
                                                        ", ".join("$%s : int" % x for x in m["params"])))
                self.stmts(m["body"], 2)
                self.emit("  }")
            self.emit("}")
            files[cls] = "\n".join(self.lines) + "\n"
        return files

    def emit(self, s):
        self.lines.append(s)

    def line(self):
        return len(self.lines) + 1

    def setlines(self, e, ln):
        if not isinstance(e, list) or not e:
            return
        if isinstance(e[0], str):
            if e[0] == "b" or e[0] == "op=":
                e[4] = ln
            elif e[0] == "el":
                e[3] = ln
            elif e[0] == "call":
                e[3] = ln
        for x in e:
            self.setlines(x, ln)

    def ex(self, e):
        k = e[0]
        if k == "c":
            return str(e[1])
        if k == "v":
            return "$" + e[1]
        if k == "cv":
            return "$%s::%s" % (self.p["name"], e[1])
        if k == "t":
            return 'VPL->t("%s", %s)' % (e[1], self.ex(e[2]))
        if k == "b":
            return "(%s %s %s)" % (self.ex(e[2]), e[1], self.ex(e[3]))
        if k == "neg":
            return "(-(%s))" % self.ex(e[1])
        if k == "not":
            return "(!%s)" % self.ex(e[1])
        if k == "and":
            return "(%s && %s)" % (self.ex(e[1]), self.ex(e[2]))
        if k == "or":
            return "(%s || %s)" % (self.ex(e[1]), self.ex(e[2]))
        if k == "seq":
            return "(%s)" % ", ".join(self.ex(x) for x in e[1])
        if k == "asg":
            return "(%s = %s)" % (self.ex(e[1]), self.ex(e[2]))
        if k == "op=":
            return "(%s %s= %s)" % (self.ex(e[2]), e[1], self.ex(e[3]))
        if k == "inc":
            s = "++" if e[2] == 1 else "--"
            return "(%s%s)" % (s, self.ex(e[3])) if e[1] == "pre" else "(%s%s)" % (self.ex(e[3]), s)
        if k == "el":
            return "$%s->[%s]" % (e[1], self.ex(e[2]))
        if k == "len":
            return "(scalar @$%s)" % e[1]
        if k == "arr":
            return "[%s]" % ", ".join(self.ex(x) for x in e[1])
        if k == "call":
            m = self.ms[e[1]]
            args = ", ".join(self.ex(x) for x in e[2])
            if m["kind"] == "inst":
                return "%s->new->%s(%s)" % (m["cls"], m["name"], args)
            if m["cls"] == self.cls:
                return "&%s(%s)" % (m["name"], args)
            return "%s->%s(%s)" % (m["cls"], m["name"], args)
        if k == "err?":
            return "(!!$@)"
        if k == "erris":
            return "(eval_error_id is_error %s)" % e[1]
        raise Exception(k)

    def bare(self, e):
        """A condition or top-level expression without superfluous parentheses half of the time."""
        s = self.ex(e)
        return s

    def stmts(self, ss, d):
        ind = "  " * d
        for s in ss:
            k = s[0]
            ln = self.line()
            if k in ("say", "my", "x", "ret", "unless", "while", "sw"):
                for x in s[1:3]:
                    if isinstance(x, list) and not (k == "sw" and x is s[2]) and not (k in ("while", "unless") and x is s[2]):
                        self.setlines(x, ln)
            if k == "say":
                self.emit(ind + 'say "s %s " . (%s);' % (s[1], self.ex(s[2])))
            elif k == "my":
                self.emit(ind + "my $%s = %s;" % (s[1], self.ex(s[2])))
            elif k == "x":
                self.emit(ind + self.ex(s[1]) + ";")
            elif k == "ret":
                self.emit(ind + ("return %s;" % self.ex(s[1]) if len(s) > 1 else "return;"))
            elif k == "if":
                for i, (c, b) in enumerate(s[1]):
                    self.setlines(c, self.line())
                    self.emit(ind + "%s (%s) {" % ("if" if i == 0 else "elsif", self.ex(c)))
                    self.stmts(b, d + 1)
                    self.emit(ind + "}")
                if s[2]:
                    self.emit(ind + "else {")
                    self.stmts(s[2], d + 1)
                    self.emit(ind + "}")
            elif k == "unless":
                self.emit(ind + "unless (%s) {" % self.ex(s[1]))
                self.stmts(s[2], d + 1)
                self.emit(ind + "}")
            elif k == "while":
                self.emit(ind + "while (%s) {" % self.ex(s[1]))
                self.stmts(s[2], d + 1)
                self.emit(ind + "}")
            elif k == "for":
                for x in (s[2], s[3], s[4]):
                    self.setlines(x, ln)
                self.emit(ind + "for (my $%s = %s; %s; %s) {" % (s[1], self.ex(s[2][0][2]), self.ex(s[3]), self.ex(s[4][0])))
                self.stmts(s[5], d + 1)
                self.emit(ind + "}")
            elif k == "each":
                self.emit(ind + "for my $%s (@$%s) {" % (s[1], s[2]))
                self.stmts(s[3], d + 1)
                self.emit(ind + "}")
            elif k == "sw":
                self.emit(ind + "switch (%s) {" % self.ex(s[1]))
                for vals, b in s[2]:
                    for v in vals[:-1]:
                        self.emit(ind + "  case %d:" % v)
                    self.emit(ind + "  case %d: {" % vals[-1])
                    self.stmts(b, d + 2)
                    self.emit(ind + "  }")
                if s[4]:
                    self.emit(ind + "  default: {")
                    self.stmts(s[3], d + 2)
                    self.emit(ind + "  }")
                self.emit(ind + "}")
            elif k in ("last", "next", "break"):
                self.emit(ind + k + ";")
            elif k == "die":
                s[3] = ln
                how = s[4]
                if how == "plain" and s[2] == "Error":
                    self.emit(ind + 'die "%s";' % s[1])
                elif how == "var" and s[2] == "Error":
                    self.emit(ind + 'die "%s" . VPL->empty;' % s[1])
                elif how == "id":
                    self.emit(ind + 'die basic_type_id %s, "%s";' % (s[2], s[1]))
                else:
                    self.emit(ind + 'die %s "%s";' % (s[2], s[1]))
            elif k == "redie":
                s[1] = ln
                self.emit(ind + "die $@;")
            elif k == "eval":
                self.emit(ind + "eval {")
                self.stmts(s[1], d + 1)
                self.emit(ind + "}")
            elif k == "blk":
                self.emit(ind + "{")
                self.stmts(s[1], d + 1)
                self.emit(ind + "}")
            elif k == "guard":
                self.emit(ind + 'my $%s = VPL::%s->new("%s");' % (s[1], s[2], s[1]))
            elif k == "show":
                self.emit(ind + "VPL->show($@, eval_error_id);")
            elif k == "setat":
                self.emit(ind + ("$@ = undef;" if s[1] == "none" else '$@ = "%s";' % s[1]))
            else:
                raise Exception(k)


SHARED = {
    "VPL": """class VPL {
  use Error::System; use Error::NotSupported; use Error::Compile;
  static method t : int ($l : string, $v : int) { say "t $l $v"; return $v; }
  static method empty : string () { return ""; }
  static method show : void ($at : string, $id : int) {
    if ($at) { say "@[" . $at . "]"; } else { say "@" . "undef"; }
    my $n = "0";
    if ($id is_error Error) { $n = "Error"; }
    elsif ($id is_error Error::System) { $n = "Error::System"; }
    elsif ($id is_error Error::NotSupported) { $n = "Error::NotSupported"; }
    elsif ($id is_error Error::Compile) { $n = "Error::Compile"; }
    elsif ($id != 0) { $n = "?"; }
    say "eid $n";
  }
}
""",
    "VPL::G": """class VPL::G {
  has n : string;
  static method new : VPL::G ($n : string) { my $s = new VPL::G; $s->{n} = $n; return $s; }
  method DESTROY : void () { say "D " . $self->{n}; }
}
""",
    "VPL::GThrow": """class VPL::GThrow {
  has n : string;
  static method new : VPL::GThrow ($n : string) { my $s = new VPL::GThrow; $s->{n} = $n; return $s; }
  method DESTROY : void () { say "D " . $self->{n}; die "thrown in destructor"; }
}
""",
    "VPL::GEval": """class VPL::GEval {
  use Error::System;
  has n : string;
  static method new : VPL::GEval ($n : string) { my $s = new VPL::GEval; $s->{n} = $n; return $s; }
  method DESTROY : void () { eval { die Error::System "inside"; } say "D " . $self->{n}; }
}
""",
}
