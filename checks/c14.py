"""C14: histories of hash operations; HashMap.tla gives the result of every operation and the objects it destroys."""
import json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp

SHARED = {
    "HO": """class HO {
  use IntList;
  has id : public int;
  our $LOG : public IntList;
  static method mk : HO ($id : int) { my $o = new HO; $o->{id} = $id; return $o; }
  method DESTROY : void () { if ($HO::LOG) { $HO::LOG->push($self->{id}); } }
}
""",
    "HU": """class HU {
  use HO; use Hash; use IntList; use StringBuffer; use Array;
  use Byte; use Short; use Int; use Long; use Float; use Double;
  our $P : string[];
  static method pool : void ($p : string[]) { $P = $p; $HO::LOG = IntList->new; }
  static method key : string ($i : int) { return $P->[$i]; }
  static method mkey : mutable string ($i : int) { return (mutable string)copy $P->[$i]; }
  static method num : int ($k : string) {
    for (my $i = 0; $i < @$P; $i++) { if (length $P->[$i] == length $k && $P->[$i] eq $k) { return $i; } }
    return -1;
  }
  static method d : string ($v : object) {
    unless ($v) { return "U0"; }
    if ($v is_type HO) { return "O" . ((HO)$v)->{id}; }
    if ($v is_type Byte) { my $x = (int)(byte)$v; return "B$x"; }
    if ($v is_type Short) { my $x = (int)(short)$v; return "S$x"; }
    if ($v is_type Int) { my $x = (int)$v; return "I$x"; }
    if ($v is_type Long) { my $x = (long)$v; return "L$x"; }
    if ($v is_type Float) { my $x = (float)$v; return "F$x"; }
    if ($v is_type Double) { my $x = (double)$v; return "D$x"; }
    if ($v is_type string) { return "T" . (string)$v; }
    return "?";
  }
  static method ks : void ($k : string[]) { for (my $i = 0; $i < @$k; $i++) { my $x = &num($k->[$i]); print " k$x"; } }
  static method ro : void ($k : string[]) {
    for (my $i = 0; $i < @$k; $i++) { unless (is_read_only $k->[$i]) { print " writable"; } }
  }
  static method vs : void ($v : object[]) { for (my $i = 0; $i < @$v; $i++) { print " " . &d($v->[$i]); } }
  static method arr : void ($a : object[]) {
    for (my $i = 0; $i < @$a; $i += 2) { my $x = &num((string)$a->[$i]); print " k$x"; print " " . &d($a->[$i+1]); }
  }
  static method dead : void () {
    print " |";
    my $a = $HO::LOG->to_array;
    for (my $i = 0; $i < @$a; $i++) { print " " . $a->[$i]; }
    $HO::LOG->resize(0);
    say "";
  }
  static method many : void ($h : Hash, $a : int, $b : int, $step : int) {
    if ($step > 0) { for (my $i = $a; $i <= $b; $i++) { $h->set_int($P->[$i], $i); } }
    else { for (my $i = $b; $i >= $a; $i--) { $h->set(&mkey($i), Int->new($i)); } }
  }
  static method few : void ($h : Hash, $a : int, $b : int, $step : int) {
    if ($step > 0) { for (my $i = $a; $i <= $b; $i++) { $h->delete($P->[$i]); } }
    else { for (my $i = $b; $i >= $a; $i--) { $h->delete(&mkey($i)); } }
  }
}
"""}
NAME = {"B": "byte", "S": "short", "I": "int", "L": "long", "F": "float", "D": "double", "T": "string"}


def lit(b):
    return '"' + "".join(chr(x) if 48 <= x < 58 or 65 <= x < 91 or 97 <= x < 123 else "\\x{%02x}" % x for x in b) + '"'


def keypool(rng, big):
    p = {b"", b"\0", b"\0\0", b"a", b"a\0", b"ab", b"b", b"\xff", b"\xff\xff", b"\x80", b"key", b"Key", b"key1", b"key10", b"\xe3\x81\x82"}
    while len(p) < 24:
        p.add(bytes(rng.choice([0, 1, 97, 98, 127, 128, 255]) for _ in range(rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 40]))))
    for i in range(big):
        p.add(b"n%d" % i)
    return sorted(p)


def val(rng):
    t = rng.choice("BSILFDT")
    n = rng.choice([0, 1, -1, 5, 127, 128, -129, 300]) if t in "BS" else rng.choice([0, 1, -1, 77, 100000, -500])
    return t, n


def history(rng, n, big, npool):
    ops = []
    ks = rng.sample(range(npool), min(npool, rng.choice([2, 4, 8, 20])))
    for _ in range(n):
        op = {"o": "len", "h": rng.choice([1, 1, 2]), "k": rng.choice(ks), "t": "I", "n": 1, "kvs": []}
        x = rng.random()
        if x < 0.34:
            op["o"] = "set"
            if rng.random() < 0.45:
                op["t"], op["n"] = "slot", rng.randint(1, 3)
            elif rng.random() < 0.15:
                op["t"] = "U"
            else:
                op["t"], op["n"] = val(rng)
        elif x < 0.42: op["o"], op["n"] = "obj", rng.randint(1, 3)
        elif x < 0.46: op["o"], op["n"] = "drop", rng.randint(1, 3)
        elif x < 0.49: op["o"], op["n"] = "take", rng.randint(1, 3)
        elif x < 0.60: op["o"] = "delete"
        elif x < 0.66: op["o"], op["t"] = "get", rng.choice("BSILFDTAAA")
        elif x < 0.69:
            op["o"] = rng.choice(["getd", "deld"]); op["t"] = rng.choice("BSILFDTA"); op["n"] = rng.choice([0, 3, 7])
        elif x < 0.72: op["o"] = "exists"
        elif x < 0.78: op["o"] = rng.choice(["weaken", "weaken", "weaken", "unweaken"])
        elif x < 0.81: op["o"] = "isweak"
        elif x < 0.84: op["o"] = "keys"
        elif x < 0.87: op["o"] = "values"
        elif x < 0.90: op["o"], op["n"] = "array", rng.choice([0, 1, -1])
        elif x < 0.92: op["o"], op["n"] = "copy", rng.choice([1, 2])
        elif x < 0.93:
            op["o"] = "new"; op["kvs"] = [dict(zip("ktn", (k,) + val(rng))) for k in rng.sample(ks, rng.randint(0, min(4, len(ks))))]
        elif x < 0.95: op["o"] = "newbad"
        elif x < 0.965: op["o"] = "badkey"
        elif big:
            a = rng.randrange(npool); b = min(npool - 1, a + rng.choice([1, 3, 10, 40, npool]))
            op["o"] = rng.choice(["many", "many", "few"]); op["k"], op["n"] = a, b
        else: op["o"] = "has"
        ops.append(op)
    for h in (1, 2):
        ops += [{"o": o, "h": h, "k": 0, "t": "A", "n": 1, "kvs": []} for o in ("len", "array", "keys", "values")]
    ops += [{"o": "drop", "h": 1, "k": 0, "t": "A", "n": i, "kvs": []} for i in (1, 2, 3)]
    ops += [{"o": "new", "h": h, "k": 0, "t": "A", "n": 1, "kvs": []} for h in (1, 2)]
    return ops


def boxed(t, n):
    return {"B": "Byte->new(%d)", "S": "Short->new(%d)", "I": "Int->new(%d)", "L": "Long->new(%d)", "F": "Float->new(%d)", "D": "Double->new(%d)", "T": '"%d"'}[t] % n


def dflt(t, n):
    return {"T": '"%d"', "A": "Int->new(%d)"}.get(t, "%d") % n


def stmt(rng, op, ids):
    """The statements of one operation; they print the result."""
    o, h, k, t, n = op["o"], "$h%d" % op["h"], op["k"], op["t"], op["n"]
    K = rng.choice(["HU->key(%d)", "HU->mkey(%d)"]) % k
    D = lambda e, t: 'print " " . HU->d(%s);' % e if t == "A" else 'print " %s" . %s;' % (t, e)
    if o == "obj": return "$s%d = HO->mk(%d);" % (n, ids)
    if o == "drop": return "$s%d = undef;" % n
    if o == "take": return "$s%d = %s->get(%s); print \" \" . HU->d($s%d);" % (n, h, K, n)
    if o == "new": return "%s = Hash->new(%s);" % (h, "{%s}" % ", ".join("%s => (object)%s" % (rng.choice(["HU->key(%d)", "HU->mkey(%d)"]) % e["k"], boxed(e["t"], e["n"])) for e in op["kvs"]) if op["kvs"] else rng.choice(["", "{}", "undef"]))
    if o == "newbad": return "%s = Hash->new(%s);" % (h, rng.choice(["[(object)\"a\"]", "[(object)\"a\", Int->new(1), \"b\"]", "[(object)undef, Int->new(1)]", "[(object)Int->new(1), \"a\"]", "[(object)\"a\", \"b\", undef, \"c\"]"]))
    if o == "badkey": return "%s->%s;" % (h, rng.choice(["set(undef, \"a\")", "get(undef)", "exists(undef)", "delete(undef)", "get_int(undef)", "set_int(undef, 1)", "get_or_default_int(undef, 1)", "delete_or_default(undef, undef)", "weaken(undef)", "unweaken(undef)", "isweak(undef)"]))
    if o == "set":
        if t == "slot": return "%s->set(%s, $s%d);" % (h, K, n)
        if t == "U": return "%s->%s(%s, undef);" % (h, rng.choice(["set", "set_string"]), K)
        s = "%s->set_%s($k, %s);" % (h, NAME[t], dflt(t, n)) if rng.random() < 0.5 else "%s->set($k, %s);" % (h, boxed(t, n))
        if rng.random() < 0.5:      # a key that the caller changes afterwards
            return "my $k = HU->mkey(%d); %s for (my $i = 0; $i < length $k; $i++) { $k->[$i] = (byte)($k->[$i] + 1); }" % (k, s)
        return "my $k = %s; %s" % (K, s)
    if o == "get":
        if t == "A": return D("%s->get(%s)" % (h, K), "A")
        if t == "T": return D("%s->get_string(%s)" % (h, K), "A")
        return "my $x = %s->get_%s(%s); print \" n$x\";" % (h, NAME[t], K)
    if o in ("getd", "deld"):
        m = "get_or_default" if o == "getd" else "delete_or_default"
        if t == "A": return D("%s->%s(%s, %s)" % (h, m, K, dflt(t, n)), "A")
        if t == "T": return D("%s->%s_string(%s, %s)" % (h, m, K, dflt(t, n)), "A")
        return "my $x = %s->%s_%s(%s, %s); print \" n$x\";" % (h, m, NAME[t], K, dflt(t, n))
    if o == "exists": return "my $x = %s->exists(%s); print \" $x\";" % (h, K)
    if o == "delete": return D("%s->delete(%s)" % (h, K), "A")
    if o == "len": return "my $x = %s->keys_length; print \" $x\";" % h
    if o == "has": return "my $x = %s->has_keys; print \" $x\";" % h
    if o == "keys": return "my $x = %s->keys; HU->ks($x); HU->ro($x); for (my $i = 0; $i < @$x; $i++) { $x->[$i] = \"x\"; }" % h
    if o == "values": return "my $x = %s->values; HU->vs($x); for (my $i = 0; $i < @$x; $i++) { $x->[$i] = undef; }" % h
    if o == "array": return "HU->arr(%s->to_array%s);" % (h, "" if n == 0 and rng.random() < .5 else "(%d)" % n)
    if o == "copy": return "$h%d = %s->%s;" % (n, h, rng.choice(["copy", "clone"]))
    if o in ("weaken", "unweaken"): return "%s->%s(%s);" % (h, o, K)
    if o == "isweak": return "my $x = %s->isweak(%s); print \" $x\";" % (h, K)
    if o in ("many", "few"): return "HU->%s(%s, %d, %d, %d);" % (o, h, k, n, rng.choice([1, -1]))
    raise AssertionError(o)


def expect(op, e):
    """The line the operation prints, with unordered parts sorted."""
    if e["e"]:
        return "dies"
    r = [str(x) for x in e["k"]] if op["o"] in ("exists", "isweak", "len", "has") else None
    if r is None:
        ks = ["k%d" % x for x in e["k"]]; vs = list(e["v"])
        if op["o"] == "array":
            p = list(zip(ks, vs)); r = [x for a in (p if op["n"] else sorted(p)) for x in a]
        elif op["o"] in ("get", "getd", "deld") and op["t"] not in "AT":
            r = ["n" + vs[0][1:]]
        else:
            r = sorted(ks + vs)
    return " ".join(r + ["|"] + [str(x) for x in sorted(e["d"])])


def canon(op, line):
    if line == "dies |":
        return "dies"
    a, _, b = line.partition("|")
    r = a.split()
    if op["o"] in ("keys", "values"):
        r = sorted(r)
    elif op["o"] == "array" and op["n"] == 0:
        r = [x for p in sorted(zip(r[::2], r[1::2])) for x in p]
    return " ".join(r + ["|"] + [str(x) for x in sorted(int(y) for y in b.split())])


def program(name, rng, ops, pool, outs):
    src = ["class %s {" % name, "  use Hash; use HO; use HU; use Byte; use Short; use Int; use Long; use Float; use Double;"]
    pieces, ids = [], 1
    for op, e in zip(ops, outs):
        if e["e"]:
            body = "eval { %s print \" lived\"; }; if ($@) { print \"dies\"; }" % stmt(rng, op, ids)
        else:
            body = stmt(rng, op, ids)
        ids += len(op["kvs"]) if op["o"] == "new" else (1 if op["o"] in ("obj", "set") else 0)
        pieces.append("    { %s } HU->dead;" % body)
    src.append("  static method main : void () {\n    HU->pool([%s]);" % ", ".join(lit(k) for k in pool))
    src.append("    my $h1 = Hash->new; my $h2 = Hash->new; my $s1 : object; my $s2 : object; my $s3 : object;")
    src += pieces
    src.append("    $HO::LOG = undef; HU->pool(undef); $HO::LOG = undef; eval { };\n  }\n}\n")
    return "\n".join(src)


def check(c):
    c.build(libs=vp.CORE_LIBS)
    n = c.q(160, 3000)
    hist = []
    for i in range(n):
        rng = random.Random("c14/%d/%d" % (c.seed, i))
        big = rng.choice([0, 0, 60, 60, 300])
        pool = keypool(rng, big)
        hist.append((history(rng, rng.choice([40, 80, 120]), big, len(pool)), pool))
    r = c.tlc("HashMap", "CONSTANT RowFile = \"rows.json\"\nINIT Init\nNEXT Next\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\n", files={"rows.json": json.dumps([h for h, _ in hist])}, timeout=c.q(400, 3000), heap="8g")
    srcs, exp = {}, {}
    for i, (h, pool) in enumerate(hist):
        outs = json.load(open(os.path.join(r["dir"], "out_%d.json" % (i + 1))))
        name = "Hm%d" % i
        srcs[name] = program(name, random.Random("c14r/%d/%d" % (c.seed, i)), h, pool, outs)
        exp[name] = [expect(op, e) for op, e in zip(h, outs)]
    out = vp.run_programs(c, srcs, shared=SHARED, mem=True, timeout=c.q(200, 900))
    for i, (h, pool) in enumerate(hist):
        name = "Hm%d" % i
        o, e = out[name], exp[name]
        got = [canon(op, l) if "|" in l else l for op, l in zip(h, o.lines)]
        if got != e or len(o.lines) != len(e) or o.crash or o.exc is not None or o.compile_error or o.mem:
            j = next((j for j in range(min(len(e), len(got))) if e[j] != got[j]), min(len(e), len(got)))
            c.violation("hash %s" % (h[j]["o"] if j < len(h) else "end"), "%s operation %d %r: specified %r, got %r; %s" % (name, j, h[j] if j < len(h) else None, e[j:j+1], got[j:j+1], o.crash or o.exc or o.compile_error or "mem %s" % o.mem),
                        {"source": srcs[name], "classes": SHARED, "expected": e})
        else:
            c.cov["traces_validated_against_impl"] += 1
    c.cov["operations"] = sum(len(h) for h, _ in hist)
    c.sample({"history": hist[0][0][:6]})
    c.log("%d histories, %d operations" % (n, c.cov["operations"]))


if __name__ == "__main__":
    vp.main("C14", check)
