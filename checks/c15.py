"""C15: histories over every list class and StringBuffer; Seq.tla gives every result, Capacity.tla judges the recorded capacities."""
import json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp

NUM = {"Byte": ("byte", 8), "Short": ("short", 16), "Int": ("int", 0), "Long": ("long", 0), "Float": ("float", 0), "Double": ("double", 0)}
BIG = [2147483647, -2147483648, -1, -2, 1000]
HO = {"SQ::O": """class SQ::O {
  use IntList;
  has id : public int;
  our $LOG : public IntList;
  static method start : void () { $LOG = IntList->new; }
  static method stop : void () { $LOG = undef; }
  static method mk : SQ::O ($id : int) { my $o = new SQ::O; $o->{id} = $id; return $o; }
  static method id : int ($o : object) { if ($o) { if ($o is_type SQ::O) { return ((SQ::O)$o)->{id}; } return -7; } return 0; }
  static method str : int ($s : string) { unless ($s) { return 0; } return length $s; }
  method DESTROY : void () { if ($LOG) { $LOG->push($self->{id}); } }
  static method end : void ($n : int, $c : int) {
    print " | $n $c |";
    my $a = $LOG->to_array;
    for (my $i = 0; $i < @$a; $i++) { print " " . $a->[$i]; }
    $LOG->resize(0); say "";
  }
}
"""}


def history(rng, kind, w, n):
    ops, ln = [], {1: 0, 2: 0}

    def ix(h):
        return rng.choice([0, ln[h], ln[h] - 1, ln[h] + 1, rng.choice(BIG)] + [rng.randint(0, max(0, ln[h])) for _ in range(8)])

    def v():
        if kind == "obj": return rng.choice([0, 1, 1, 2, 2, 3])
        if kind == "str": return rng.choice([0, 1, 2, 3, 4, 5])
        if kind == "buf": return rng.choice([0, 1, 65, 66, 97, 127, 128, 255])
        return rng.choice([0, 1, -1, 5, 100, 127] + ([200, -129, 40000, -70000] if w else [100000]))

    for _ in range(n):
        h = rng.choice([1, 1, 2])
        op = {"o": "array", "h": h, "i": 0, "v": 0, "e": [], "bad": 0, "x": 0}
        x = rng.random()
        es = lambda: [v() for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 9]))]
        bad = kind == "obj" and rng.random() < 0.06
        if kind == "buf":
            if x < 0.25:
                op.update(o="add", e=es(), i=0, v=-1)
                m = rng.random()
                if m < 0.5: op.update(i=rng.choice([0, 0, 1, len(op["e"]), rng.choice(BIG)]), v=rng.choice([-1, 0, 1, len(op["e"]), rng.choice(BIG)]))
                elif m < 0.55: op.update(bad=1)
            elif x < 0.4: op.update(o="push", v=v())
            elif x < 0.62: op.update(o="replace", i=ix(h), v=rng.choice([0, 1, 2, ix(h)]), e=es())
            elif x < 0.67: op.update(o="reserve", i=rng.choice([0, ln[h], ln[h] + 3, 40, -1, -2147483648]))
            elif x < 0.77: op.update(o="resize", i=rng.choice([0, 1, ln[h], ln[h] - 1, ln[h] + 1, ln[h] + 4, 30, -1]))
            elif x < 0.82: op.update(o="assign", e=es(), bad=1 if rng.random() < 0.15 else 0)
            elif x < 0.86: op.update(o="clone", v=rng.choice([1, 2]))
            elif x < 0.92: op.update(o="cmp", v=rng.choice([1, 2]))
            elif x < 0.95: op.update(o="new", e=es(), x=rng.choice([-2, -1, 0, 3, 20]))
            elif x < 0.97: op.update(o="new_len", i=rng.choice([0, 1, 5, 9, -1]), x=rng.choice([-2, -1, 0, 3, 20]))
        elif kind == "obj" and x < 0.12: op.update(o="obj", i=rng.randint(1, 3))
        elif kind == "obj" and x < 0.15: op.update(o="drop", i=rng.randint(1, 3))
        elif x < 0.30: op.update(o="push", v=v(), bad=int(bad))
        elif x < 0.40: op.update(o="unshift", v=v(), bad=int(bad))
        elif x < 0.47: op.update(o="pop")
        elif x < 0.55: op.update(o="shift")
        elif x < 0.61: op.update(o="insert", i=ix(h), v=v(), bad=int(bad))
        elif x < 0.67: op.update(o="remove", i=ix(h))
        elif x < 0.77: op.update(o="replace", i=ix(h), v=rng.choice([0, 1, 2, ix(h)]), e=es(), bad=int(bad))
        elif x < 0.80: op.update(o="reserve", i=rng.choice([0, ln[h], ln[h] + 1, ln[h] + 2, ln[h] + 5, 40, -1, -2147483648]))
        elif x < 0.85: op.update(o="resize", i=rng.choice([0, 1, ln[h], ln[h] - 1, ln[h] + 1, ln[h] + 4, 30, -1]))
        elif x < 0.90: op.update(o="get", i=ix(h))
        elif x < 0.93: op.update(o="set", i=ix(h), v=v(), bad=int(bad))
        elif x < 0.95: op.update(o="new", e=es(), x=rng.choice([-2, -1, 0, 3, 20]))
        elif x < 0.965: op.update(o="new_len", i=rng.choice([0, 1, 5, 9, -1]), x=rng.choice([-2, -1, 0, 3, 20]))
        elif x < 0.98 and kind != "obj": op.update(o="imm")
        # a rough length, to steer the indexes
        d = {"push": 1, "unshift": 1, "pop": -1, "shift": -1, "insert": 1, "remove": -1, "add": len(op["e"]), "replace": len(op["e"]) - 1}.get(op["o"], 0)
        if not op["bad"]:
            ln[h] = max(0, ln[h] + d)
            if op["o"] in ("new", "assign"): ln[h] = len(op["e"])
            if op["o"] in ("resize", "new_len") and op["i"] >= 0: ln[h] = op["i"]
        ops.append(op)
        if rng.random() < 0.3:
            ops.append({"o": "array", "h": h, "i": 0, "v": 0, "e": [], "bad": 0, "x": 0})
    for h in (1, 2):
        ops.append({"o": "array", "h": h, "i": 0, "v": 0, "e": [], "bad": 0, "x": 0})
    if kind == "obj":
        ops += [{"o": "drop", "h": 1, "i": i, "v": 0, "e": [], "bad": 0, "x": 0} for i in (1, 2, 3)]
    return ops


class Render:
    def __init__(self, cls, kind, et, rng, proto):
        self.cls, self.kind, self.et, self.rng, self.proto = cls, kind, et, rng, proto

    def el(self, v):
        if self.kind == "obj": return "$s%d" % v if v else "undef"
        if self.kind == "str": return self.rng.choice(['"%s"', 'copy "%s"']) % ("x" * v) if v else "undef"
        if self.kind == "buf": return str(v)
        return {"float": "%d.0f", "double": "%d.0", "long": "%dL"}.get(self.et, "%d") % v

    def arr(self, es):
        if self.kind == "buf": return '"' + "".join("\\x{%02x}" % x for x in es) + '"'
        if self.kind == "obj":
            t = {"HO": "SQ::O[]", "ob": "object[]"}[self.proto]
            if not es: return "new %s[0]" % t[:-2]
            return "(%s)[%s]" % (t, ", ".join(("(object)" if self.proto == "ob" else "(SQ::O)") + self.el(v) for v in es))
        if not es: return self.rng.choice(["new %s[0]" % self.et, "new %s[0]" % self.et])
        if self.kind == "str": return "[%s]" % ", ".join("(string)" + self.el(v) for v in es)
        return "[%s]" % ", ".join("(%s)%s" % (self.et, self.el(v)) for v in es)

    def show(self, e):
        if self.kind == "obj": return 'print " " . SQ::O->id(%s);' % e
        if self.kind == "str": return 'print " " . SQ::O->str(%s);' % e
        if self.kind == "buf": return 'print " " . ((int)%s & 255);' % e
        if self.et in ("float", "double"): return 'print " " . (int)%s;' % e
        return 'print " " . (%s)%s;' % ("long" if self.et == "long" else "int", e)

    def slack(self, h):
        """Documented: the elements from the length to the capacity are 0."""
        if self.kind == "num":
            return 'my $u = %s->get_array_unsafe; unless (@$u == %s->capacity) { print " cap"; } for (my $i = %s->length; $i < @$u; $i++) { if ($u->[$i] != 0) { print " slack"; } }' % (h, h, h)
        if self.kind == "buf":
            return 'my $u = %s->get_string_unsafe; for (my $i = %s->length; $i < length $u; $i++) { if ($u->[$i] != 0) { print " slack"; } }' % (h, h)
        return ""

    def stmt(self, op):
        o, h, i, v, r = op["o"], "$l%d" % op["h"], op["i"], op["v"], self.rng
        wrong = r.choice(["\"wrong\"", "Int->new(3)", "new SQ::O[1]"]) if op["bad"] else None
        if i == -2147483648: i = "-2147483648"
        if v == -2147483648: v = "-2147483648"
        cap = lambda: ", %d" % op["x"] if op["x"] != -1 or r.random() < .5 else ""
        if o == "obj": return "$s%d = SQ::O->mk(ID);" % i
        if o == "drop": return "$s%d = undef;" % i
        if o == "new":
            a = "undef" if not op["e"] and self.proto != "HO" and r.random() < 0.3 else self.arr(op["e"])
            if self.kind == "buf": return "%s = StringBuffer->new(%s%s);" % (h, a, cap())
            return "my $a = %s; %s = %s->new($a%s); %s" % (a if a != "undef" else "(%s[])undef" % self.et, h, self.cls, cap(), self.spoil("$a") if a != "undef" else "")
        if o == "new_len":
            p = {"HO": "new SQ::O[0], ", "ob": r.choice(["undef, ", "new object[2], "]), None: ""}[self.proto]
            return "%s = %s->new_len(%s%s%s);" % (h, self.cls, p, i, cap())
        if o == "get": return "my $x = %s->get(%s); %s" % (h, i, self.show("$x"))
        if o == "set": return "%s->set(%s, %s);" % (h, i, wrong or self.el(v))
        if o == "insert": return "%s->insert(%s, %s);" % (h, i, wrong or self.el(v))
        if o in ("push", "unshift"): return "%s->%s(%s);" % (h, "push_char" if self.kind == "buf" else o, wrong or self.el(v))
        if o in ("pop", "shift"): return "my $x = %s->%s; %s" % (h, o, self.show("$x"))
        if o == "remove": return "my $x = %s->remove(%s); %s" % (h, i, self.show("$x"))
        if o == "replace":
            a = self.arr(op["e"])
            if op["bad"]: a = r.choice(["[(object)%s, %s]" % (self.el(1), wrong), "[(object)%s]" % wrong])
            elif not op["e"] and r.random() < .4: a = "undef"
            return "%s->replace(%s, %s, %s);" % (h, i, v, a)
        if o == "reserve": return "%s->reserve(%s);" % (h, i)
        if o == "resize": return "%s->%s(%s);" % (h, "set_length" if self.kind == "buf" else "resize", i)
        if o == "array":
            if self.kind == "buf": return "my $a = (mutable string)%s->to_string; for (my $i = 0; $i < length $a; $i++) { %s } for (my $i = 0; $i < length $a; $i++) { $a->[$i] = 'z'; } %s" % (h, self.show("$a->[$i]"), self.slack(h))
            t = {"HO": "SQ::O[]", "ob": "object[]", None: self.et + "[]"}[self.proto]
            return "my $a = (%s)%s->to_array; for (my $i = 0; $i < @$a; $i++) { %s } %s %s" % (t, h, self.show("$a->[$i]"), self.spoil("$a"), self.slack(h))
        if o == "imm":
            I = "Immutable::" + self.cls
            return "my $a = %s->to_array; my $m = %s->new($a); %s my $b = $m->to_array; unless ($m->length == @$b) { print \" len\"; } %s for (my $i = 0; $i < $m->length; $i++) { my $x = $m->get($i); %s } for (my $j = -1; $j < 2; $j += 2) { my $z = $j < 0; my $t = 0; eval { $m->get($z ? -1 : 0); }; }".split(" for (my $j")[0] % (
                h, I, self.spoil("$a"), self.spoil("$b"), self.show("$x")) + " foreach_bad".replace("foreach_bad", "my $t = 0; eval { $m->get(-1); $t = 1; }; eval { $m->get($m->length); $t = 1; }; eval { %s->new_len(-1); $t = 1; }; if ($t) { print \" lived\"; } my $z = %s->new_len(2); %s" % (I, I, 'if ($z->length != 2) { print " len"; }'))
        if o == "add":
            a = "undef" if op["bad"] else self.arr(op["e"])
            if op["i"] == 0 and op["v"] == -1 and r.random() < .7: return "%s->push(%s);" % (h, a)
            if op["v"] == -1 and r.random() < .5: return "%s->push(%s, %s);" % (h, a, i)
            return "%s->push(%s, %s, %s);" % (h, a, i, v)
        if o == "assign": return "%s->set(%s);" % (h, "undef" if op["bad"] else self.arr(op["e"]))
        if o == "clone": return "$l%d = %s->clone;" % (op["v"], h)
        if o == "cmp": return "my $x = %s->cmp(%s, $l%d); print \" $x\"; $x = %s->eq(%s, $l%d); print \" $x\";" % (h, h, op["v"], h, h, op["v"])
        raise AssertionError(o)

    def spoil(self, a):
        z = {"num": "3", "str": '"spoilt"', "obj": "undef", "buf": ""}[self.kind]
        if self.kind == "num": z = "(%s)3" % self.et
        return "for (my $i = 0; $i < @%s; $i++) { %s->[$i] = %s; }" % (a, a, z)


def plans(c):
    for i in range(c.q(26, 500)):
        for cls in ["Byte", "Short", "Int", "Long", "Float", "Double"]:
            if i % 2 == 0 or cls in ("Byte", "Int"):
                yield cls + "List", "num", NUM[cls][0], NUM[cls][1], None
        yield "List", "obj", "object", 0, "HO" if i % 2 else "ob"
        yield "List", "obj", "object", 0, "ob" if i % 2 else "HO"
        yield "StringList", "str", "string", 0, None
        yield "StringBuffer", "buf", "byte", 0, None
        yield "StringBuffer", "buf", "byte", 0, None


def check(c):
    c.build(libs=vp.CORE_LIBS)
    ps = []
    for i, (cls, kind, et, w, proto) in enumerate(plans(c)):
        rng = random.Random("c15/%d/%d" % (c.seed, i))
        ops = history(rng, kind, w, rng.choice([30, 60, 90]))
        if proto == "ob":
            for o in ops:
                o["bad"] = 0        # every object fits
        ps.append((cls, kind, et, w, proto, ops))
    r = c.tlc("Seq", "CONSTANT RowFile = \"rows.json\"\nINIT Init\nNEXT Next\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\n",
              files={"rows.json": json.dumps([{"w": p[3], "k": p[1], "ops": p[5]} for p in ps])}, timeout=c.q(300, 3000), heap="8g")
    srcs, exp = {}, {}
    for i, (cls, kind, et, w, proto, ops) in enumerate(ps):
        outs = json.load(open(os.path.join(r["dir"], "out_%d.json" % (i + 1))))
        R = Render(cls, kind, et, random.Random("c15r/%d/%d" % (c.seed, i)), proto)
        name = "Sq%d" % i
        s = ["class %s {" % name, "  use SQ::O; use %s; use IntList; use Int; use Long; use Byte;%s" % (cls, " use Immutable::%s;" % cls if kind in ("num", "str") else ""),
             "  static method main : void () {", "    SQ::O->start;"]
        init = "->new(new SQ::O[0])" if proto == "HO" else "->new"
        s += ["    my $l1 = %s%s; my $l2 = %s%s; my $s1 : SQ::O; my $s2 : SQ::O; my $s3 : SQ::O;" % (cls, init, cls, init)]
        ids, e = 1, []
        for op, x in zip(ops, outs):
            t = R.stmt(op)
            if op["o"] == "obj":
                t = t.replace("ID", str(ids)); ids += 1
            if not x["ok"]:
                t = "eval { %s print \" lived\"; }; if ($@) { print \" dies\"; }" % t
            s.append("    { %s } SQ::O->end($l%d->length, $l%d->capacity);" % (t, op["h"], op["h"]))
            e.append(" ".join([""] + (["dies"] if not x["ok"] else [str(y) for y in (x["r"] + x["r"] if op["o"] == "imm" and 0 else x["r"])])) + " | %d" % x["n"] + " |" + "".join(" %d" % y for y in x["d"]))
        s.append("    $l1 = undef; $l2 = undef; SQ::O->stop; eval { };\n  }\n}\n")
        srcs[name], exp[name] = "\n".join(s), e
    out = vp.run_programs(c, srcs, shared=HO, mem=True, timeout=c.q(200, 900))
    steps, origin = {}, {}
    for i, (cls, kind, et, w, proto, ops) in enumerate(ps):
        name = "Sq%d" % i
        o, e, got, caps = out[name], exp[name], [], {1: None, 2: None}
        for op, l in zip(ops, o.lines):
            f = l.split(" | ")
            if len(f) == 3 - (not l.rstrip().count(" | ") == 2) or True:
                p = l.split("|")
                nc = p[1].split() if len(p) == 3 else ["?", "?"]
                d = sorted(int(x) for x in p[2].split()) if len(p) == 3 else []
                got.append("%s| %s |%s" % (p[0], nc[0], "".join(" %d" % x for x in d)))
                if len(p) == 3:
                    n2, c2, prev = int(nc[0]), int(nc[1]), caps[op["h"]]
                    ok = " dies" not in p[0]
                    kind2 = "create" if op["o"] in ("new", "new_len") and ok else "reserve" if op["o"] == "reserve" else "clone" if op["o"] == "clone" else "same"
                    if prev:
                        st = json.dumps([kind2, op["x"] if kind2 == "create" else op["i"], int(ok), prev[0], prev[1], n2, c2])
                        if st not in steps:
                            steps[st] = len(steps); origin[st] = (name, len(got) - 1)
                    caps[op["h"]] = (n2, c2)
                    if op["o"] == "clone":
                        caps[op["v"]] = None
        if got != e or o.crash or o.exc is not None or o.compile_error or o.mem:
            j = next((j for j in range(min(len(e), len(got))) if e[j] != got[j]), min(len(e), len(got)))
            c.violation("%s %s" % (cls, ops[j]["o"] if j < len(ops) else "end"), "%s %s operation %d %r: specified %r, got %r; %s" % (name, cls, j, ops[j] if j < len(ops) else None, e[j:j+1], got[j:j+1], o.crash or o.exc or o.compile_error or "mem %s" % o.mem),
                        {"source": srcs[name], "classes": HO, "expected": e})
        else:
            c.cov["traces_validated_against_impl"] += 1
    rows = [dict(zip(("o", "i", "ok", "n", "c", "n2", "c2"), json.loads(s))) for s in steps]
    if rows:
        r2 = c.tlc("Capacity", "CONSTANT RowFile = \"rows.json\"\nINIT Init\nNEXT Next\nINVARIANT AllLegal\nCHECK_DEADLOCK FALSE\n", files={"rows.json": json.dumps(rows)}, timeout=300)
        for k in sorted(json.load(open(os.path.join(r2["dir"], "bad.json")))["bad"])[:20]:
            s = list(steps)[k - 1]
            c.violation("capacity %s" % rows[k-1]["o"], "capacity step %s of %s operation %d" % (rows[k-1], *origin[s]), {"source": srcs[origin[s][0]], "classes": HO, "step": rows[k-1]})
    c.cov["operations"] = sum(len(p[5]) for p in ps); c.cov["capacity_steps"] = len(rows)
    c.sample({"class": ps[0][0], "history": ps[0][5][:6]})
    c.log("%d histories, %d operations, %d capacity steps" % (len(ps), c.cov["operations"], len(rows)))


if __name__ == "__main__":
    vp.main("C15", check)
