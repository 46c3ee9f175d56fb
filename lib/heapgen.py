"""Renders Heap.tla traces as SPVM test methods and compares the observations."""
import json, re
import vp

SHARED = {
    "HN": """class HN {
  use Fn;
  use HN::T; use HN::E; use HN::U;
  has id : public int;
  has a : public HN;
  has b : public HN;
  has l : public HN[];
  has o : public object;
  our $G : public HN;
  our $K : public HN;
  our $H : public HN[];
  static method mk : HN ($id : int, $c : string) {
    my $n : HN;
    if ($c eq "P") { $n = new HN; }
    elsif ($c eq "T") { $n = HN::T->mk; }
    elsif ($c eq "E") { $n = HN::E->mk; }
    else { $n = HN::U->mk; }
    $n->{id} = $id;
    return $n;
  }
  method dead : void () {
    my $a = 0; my $b = 0;
    if ($self->{a} && !isweak $self->{a}) { $a = $self->{a}{id}; }
    if ($self->{b} && !isweak $self->{b}) { $b = $self->{b}{id}; }
    say "D " . $self->{id} . " $a $b";
  }
  method DESTROY : void () { $self->dead; }
  static method clear : void () { $HN::G = undef; $HN::K = undef; $HN::H = undef; }
}
""",
    "HN::T": """class HN::T extends HN { static method mk : HN () { return new HN::T; } method DESTROY : void () { $self->dead; die "in destructor"; } }
""",
    "HN::E": """class HN::E extends HN { static method mk : HN () { return new HN::E; } method DESTROY : void () { eval { die "in destructor"; } $self->dead; } }
""",
    "HN::U": """class HN::U extends HN { static method mk : HN () { return new HN::U; } method DESTROY : void () { $self->dead; $HN::K = undef; } }
""",
    "HV": """class HV {
  use HN; use Fn;
  static method s : void ($s : string) { print $s; }
  static method f : string ($x : HN, $w : int) { if ($x) { return " " . $x->{id} . "/$w"; } return " 0/$w"; }
  static method n : void ($x : HN) {
    unless ($x) { print "[0]"; return; }
    my $o = " 0";
    if ($x->{o}) { if ($x->{o} isa HN) { my $p = (HN)$x->{o}; $o = " " . $p->{id}; } else { $o = " -1"; } }
    my $l = " 0"; if ($x->{l}) { $l = " -1"; }
    print "[" . $x->{id} . &f($x->{a}, isweak $x->{a}) . &f($x->{b}, isweak $x->{b}) . $l . "/" . (isweak $x->{l}) . $o . "/" . (isweak $x->{o}) . "]";
  }
  static method r : void ($x : HN[]) {
    unless ($x) { print "()"; return; }
    my $p = 0; my $q = 0;
    if ($x->[0]) { $p = $x->[0]{id}; }
    if ($x->[1]) { $q = $x->[1]{id}; }
    print "($p $q)";
  }
  static method e : void ($m : int) { say " m$m"; }
  static method e0 : void () { say ""; }
}
""",
}
FN = {1: "a", 2: "b", 3: "l", 4: "o"}


class Render:
    def __init__(self, name, tid, rec, every):
        self.name, self.tid, self.rec, self.every = name, tid, rec, every
        self.methods = []
        self.nm = 0
        self.uid = 0

    def var(self, p):
        if p[0] == "u":
            return "undef"
        if p[0] in "GKH":
            return "$HN::" + p[0]
        f = self.frames[p[1] - 1]
        return "$%s%d_%d" % (p[0], f["u"], p[2])

    def out(self, s):
        self.buf[-1].append(s)

    def frame(self, t):
        self.uid += 1
        self.frames.append({"t": t, "u": self.uid})
        return self.uid

    def build(self):
        self.frames, self.buf = [], [[]]
        u = self.frame("base")
        nb = self.nbase
        self.out("my $base = Fn->get_memory_blocks_count;")
        for i in range(nb):
            self.out("my $n%d_%d : HN;" % (u, i + 1))
        self.out("my $r%d_1 : HN[];" % u)
        tr = self.rec["tr"]
        for i, step in enumerate(tr):
            op = step[0]
            if i == len(tr) - 1 and not self.every:
                self.out('{ say "S"; }')
            self.op(op, i + 1)
            if self.every:
                self.obs(step[1])
            elif i == len(tr) - 1:
                self.obs(self.rec["ob"])
        # close everything
        while len(self.frames) > 1:
            f = self.frames[-1]
            if f["t"] == "call":
                self.out("return undef;")
                self.endcall("undef")
            else:
                self.out("}")
                self.frames.pop()
        m = "  static method t%s : void () {\n    %s\n  }\n" % (self.tid, "\n    ".join(self.buf[0]))
        return "".join(self.methods) + m

    def endcall(self, dest):
        """The innermost frame is a call frame whose body is complete."""
        f = self.frames.pop()
        body = self.buf.pop()
        self.methods.append("  static method t%s_m%d : HN ($n%d_1 : HN, $n%d_2 : HN) {\n    %s\n  }\n" % (self.tid, f["m"], f["u"], f["u"], "\n    ".join(body)))
        # arguments are places of the caller
        call = "&t%s_m%d(%s)" % (self.tid, f["m"], f["args"])
        self.out("{ %s%s; }" % ("" if dest == "undef" else dest + " = ", call))

    def op(self, op, uid):
        k, v = op[0], self.var
        if k == "new":
            self.out('{ %s = HN->mk(%d, "%s"); }' % (v(op[1]), uid, op[2]))
        elif k == "newf":
            self.out('{ %s->{%s} = HN->mk(%d, "%s"); }' % (v(op[1]), FN[op[2]], uid, op[3]))
        elif k == "arr":
            self.out("{ %s = new HN[2]; }" % v(op[1]))
        elif k in ("asg", "asgr"):
            self.out("{ %s = %s; }" % (v(op[1]), v(op[2])))
        elif k == "getf":
            self.out("{ %s = %s->{%s}; }" % (v(op[1]), v(op[2]), FN[op[3]]))
        elif k == "setf":
            self.out("{ %s->{%s} = %s; }" % (v(op[1]), FN[op[2]], v(op[3])))
        elif k == "setff":
            self.out("{ %s->{%s}->{%s} = %s; }" % (v(op[1]), FN[op[2]], FN[op[3]], v(op[4])))
        elif k == "weak":
            self.out("{ weaken %s->{%s}; }" % (v(op[1]), FN[op[2]]))
        elif k == "unweak":
            self.out("{ unweaken %s->{%s}; }" % (v(op[1]), FN[op[2]]))
        elif k == "weakff":
            self.out("{ my $t = %s->{%s}; weaken $t->{%s}; }" % (v(op[1]), FN[op[2]], FN[op[3]]))
        elif k == "sete":
            self.out("{ %s->[%d] = %s; }" % (v(op[1]), op[2] - 1, v(op[3])))
        elif k == "gete":
            self.out("{ %s = %s->[%d]; }" % (v(op[1]), v(op[2]), op[3] - 1))
        elif k == "setl":
            self.out("{ %s->{l} = %s; }" % (v(op[1]), v(op[2])))
        elif k == "getl":
            self.out("{ %s = %s->{l}; }" % (v(op[1]), v(op[2])))
        elif k == "seto":
            self.out("{ %s->{o} = %s; }" % (v(op[1]), v(op[2])))
        elif k == "geto":
            self.out("{ %s = (HN)%s->{o}; }" % (v(op[1]), v(op[2])))
        elif k == "clo":
            self.out("{ %s->{o} = [has c : HN = %s] method : HN () { return $self->{c}; }; }" % (v(op[1]), "(HN)undef" if op[2][0] == "u" else v(op[2])))
        elif k == "bad":
            self.out("{ eval { %s->{%s} = %s; } $@ = undef; }" % (v(op[1]), FN[op[2]], v(op[3])))
        elif k == "tmp":
            p = v(op[1])
            self.out('{ my $t = HN->mk(%d, "P"); $t->{%s} = %s; %s = undef; %s = $t->{%s}; }' % (uid, FN[op[2]], p, p, p, FN[op[2]]))
        elif k == "enter":
            u = self.frame(op[1])
            if op[1] == "eval":
                self.out("eval {")
            elif op[1] == "blk":
                self.out("{ my $n%d_1 : HN;" % u)
            else:
                self.out("for (my $i%d = 0; $i%d < 1; $i%d++) { my $n%d_1 : HN;" % (u, u, u, u))
        elif k == "exit":
            self.frames.pop()
            self.out("}")
        elif k == "call":
            args = "%s, %s" % (v(op[1]), v(op[2]))
            u = self.frame("call")
            self.nm += 1
            self.frames[-1].update(m=self.nm, args=args)
            self.buf.append(["my $n%d_3 : HN; my $r%d_1 : HN[];" % (u, u)])
        elif k == "ret":
            self.out("return %s;" % v(op[1]))
            while self.frames[-1]["t"] != "call":
                self.frames.pop()
                self.out("}")
            d = op[2]
            f = self.frames[-1]
            if self.buf[-1][-1] == "}":
                self.out("return undef;")
            # destination is a place of the caller
            self.frames.pop()
            dest = self.var(d)
            self.frames.append(f)
            self.endcall(dest)
        elif k == "throw":
            self.out('die "x";')
            while True:
                f = self.frames[-1]
                if f["t"] == "call":
                    if self.buf[-1][-1] == "}":
                        self.out("return undef;")
                    self.endcall("undef")
                    continue
                self.frames.pop()
                self.out("}")
                if f["t"] == "eval":
                    break
            self.out("$@ = undef;")
        else:
            raise Exception(k)

    def obs(self, o):
        """Observation statements; the expected text of the last one is in self.want."""
        lo = o["lo"]
        ns, rs = (o[x] if isinstance(o[x], dict) else {str(lo + i): y for i, y in enumerate(o[x])} for x in ("n", "r"))
        code, want = [], []
        for j in range(lo, len(self.frames) + 1):
            for i, x in enumerate(ns[str(j)]):
                code.append("HV->n(%s);" % self.var(["n", j, i + 1]))
                want.append(self.wn(x))
            if rs[str(j)]:
                code.append("HV->r(%s);" % self.var(["r", j, 1]))
                want.append(self.wr(*rs[str(j)]))
        code += ["HV->n($HN::G);", "HV->n($HN::K);", "HV->r($HN::H);"]
        want += [self.wn(o["G"]), self.wn(o["K"]), self.wr(o["H"], o["hd"])]
        if lo == 1:
            code.append("HV->e(Fn->get_memory_blocks_count - $base);"); want.append(" m%d" % o["m"])
        else:
            code.append("HV->e0;")
        self.out("{ %s }" % " ".join(code))
        self.wants.append(("".join(want), o["d"]))

    def wn(self, x):
        if x == [0]:
            return "[0]"
        return "[%d %s]" % (x[0], " ".join("%d/%d" % (a, b) for a, b in x[1:]))

    def wr(self, x, defined):
        return "(%d %d)" % tuple(x) if defined else "()"


def programs(recs, nbase, every, prefix, per=100, pre=False):
    """recs: trace records.  Returns ({class: source}, {class: [Render]})."""
    srcs, rends = {}, {}
    for s in range(0, len(recs), per):
        nm = "%s%d" % (prefix, s // per)
        text, calls, rl = [], [], []
        for i, rec in enumerate(recs[s:s + per]):
            r = Render(nm, i, rec, every)
            r.nbase, r.wants = nbase, []
            text.append(r.build())
            calls.append('    { say "T %d"; my $b = Fn->get_memory_blocks_count; &t%d(); { say "F"; } HN->clear; HV->e(Fn->get_memory_blocks_count - $b); }' % (i, i))
            rl.append(r)
        srcs[nm] = "class %s%s {\n  use HN; use HV; use Fn;\n%s  static method main : void () {\n%s\n  }\n}\n" % (nm, " : precompile" if pre else "", "".join(text), "\n".join(calls))
        rends[nm] = rl
    return srcs, rends


def dline(l):
    return [int(x) for x in l.split()[1:]]


def same_destroyed(want, got):
    """Same objects with the same strong fields, each referrer before what it kept alive."""
    w = sorted([x[0]] + list(x[1]) for x in want)
    if sorted(got) != w:
        return False
    pos = {x[0]: i for i, x in enumerate(got)}
    return all(pos[x[0]] < pos[y] for x in got for y in x[1:] if y in pos and y != x[0])


def compare_test(r, lines):
    """lines: output of one test, from after 'T n'.  None or (step, description)."""
    i = 0
    if not r.every:
        while i < len(lines) and lines[i] != "S":
            i += 1
        i += 1
    steps = r.rec["tr"]
    for n, (want, d) in enumerate(r.wants):
        ds = []
        while i < len(lines) and lines[i].startswith("D "):
            ds.append(dline(lines[i])); i += 1
        op = steps[n if r.every else -1][0]
        if not same_destroyed(d, ds):
            return n, "after %s: destroyed objects (id, strong a, strong b) specification %s, program %s" % (json.dumps(op), d, ds)
        if i >= len(lines) or lines[i] != want:
            return n, "after %s: state specification %r, program %r" % (json.dumps(op), want, lines[i] if i < len(lines) else None)
        i += 1
    ds, seen = [], False
    fin = r.rec["fin"]
    while i < len(lines) and (lines[i] == "F" or lines[i].startswith("D ")):
        if lines[i] == "F":
            seen = True
        else:
            ds.append(dline(lines[i]))
        i += 1
    if not seen or not same_destroyed(fin["d"], ds):
        return len(r.wants), "after the end: destroyed objects specification %s, program %s" % (fin["d"], ds)
    if i >= len(lines) or lines[i] != " m%d" % fin["m"]:
        return len(r.wants), "memory blocks left: specification %d, program %s" % (fin["m"], lines[i] if i < len(lines) else None)
    return None


def check(c, recs, nbase, every, prefix, per=100, pre=False):
    srcs, rends = programs(recs, nbase, every, prefix, per, pre)
    out = vp.run_programs(c, srcs, shared=SHARED, jit=pre, shard=1 if not pre else 1, timeout=120)
    c.log("ran %d traces%s" % (len(recs), " (precompiled)" if pre else ""))
    for nm, rl in rends.items():
        o = out[nm]
        parts, cur = {}, None
        for l in o.lines:
            m = re.match(r"T (\d+)$", l)
            if m:
                cur = parts.setdefault(int(m.group(1)), [])
            elif cur is not None:
                cur.append(l)
        bad = o.compile_error or o.crash or o.exc
        for i, r in enumerate(rl):
            ls = parts.get(i)
            if ls is None:
                if bad:
                    c.violation("heap:%s" % json.dumps([s[0] for s in r.rec["tr"]]), "program with trace %s: %s" % (json.dumps([s[0] for s in r.rec["tr"]])[:600], str(bad)[:600]), {"trace": r.rec["tr"], "source": srcs[nm] if len(srcs[nm]) < 100000 else r.build.__doc__})
                    break
                continue
            d = compare_test(r, ls)
            if d:
                ops = [s[0] for s in r.rec["tr"]][:d[0] + 1]
                c.violation("heap:%s" % json.dumps(ops), "%strace %s: %s%s" % ("[precompiled] " if pre else "", json.dumps(ops)[-700:], d[1], (" (%s)" % str(bad)[:200]) if bad else ""), {"trace": r.rec, "got": ls})
                if bad:
                    break
    c.cov["traces_validated_against_impl"] += len(recs)


def tlc_records(res):
    recs = []
    for l in res["out"].split("\n"):
        if l.startswith('"{'):
            recs.append(json.loads(json.loads(l)))
    return recs


CFG = """SPECIFICATION %(spec)s
CONSTANTS MaxObj=%(obj)d MaxFrames=%(frames)d Kinds={%(kinds)s} Classes={%(classes)s} Fields={%(fields)s} MaxLen=%(len)d BaseN=%(base)d Globs={%(globs)s} EveryStep=%(every)s
%(view)sINVARIANTS CountExact NoDangling NotLost LeftOver Dead
CHECK_DEADLOCK FALSE
"""


def q(xs):
    return ",".join('"%s"' % x for x in xs)


def exhaustive(c, kinds, length, obj=3, frames=3, classes=("P",), fields=(1, 2), base=2, globs=(), tag="mc", timeout=600):
    res = c.tlc("Heap", CFG % dict(spec="Spec", obj=obj, frames=frames, kinds=q(kinds), classes=q(classes), fields=",".join(map(str, fields)), len=length, base=base,
                                   globs=q(globs), every="FALSE", view="VIEW View\n"), tag=tag, workers=1, timeout=timeout)
    return tlc_records(res)


ALL = ["new", "newf", "arr", "asg", "asgr", "getf", "setf", "setff", "weak", "unweak", "weakff", "sete", "gete", "setl", "getl", "weakl", "seto", "geto", "clo", "bad", "tmp",
       "enter", "exit", "call", "ret", "throw"]


def simulate(c, n, length, kinds=ALL, obj=7, frames=5, classes=("P", "T", "E", "U"), fields=(1, 2, 3, 4), base=2, globs=("G", "K", "H"), seed=None, tag="sim", procs=6, timeout=600):
    """Random traces, from several TLC processes."""
    from concurrent.futures import ThreadPoolExecutor
    cfg = CFG % dict(spec="SpecSim", obj=obj, frames=frames, kinds=q(kinds), classes=q(classes), fields=",".join(map(str, fields)), len=length, base=base, globs=q(globs), every="TRUE", view="")

    def one(i):
        return tlc_records(c.tlc("Heap", cfg, simulate=(n + procs - 1) // procs, depth=length + 5, seed=(seed or c.seed) * 1000 + i, tag="%s_p%d" % (tag, i), timeout=timeout))
    with ThreadPoolExecutor(procs) as ex:
        return [r for rs in ex.map(one, range(procs)) for r in rs]
