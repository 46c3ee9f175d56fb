"""C13: random histories of string operations through seven locations and their aliases; StringSpec.tla gives the result of
each step and the bytes and the read-only flag seen through every location after it; run in the VM and precompiled."""
import json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp

L = {1: "$s", 2: "$t", 3: "$m", 4: "$k", 5: "$a->[1]", 6: "$h->{f}", 7: "$o"}
CH = [0x61, 0x62, 0x00, 0x0a, 0x0d, 0x7f, 0x80, 0xff, 0x31, 0x2d, 0x20]
NUM = ["0", "5", "-7", "42", "127", "128", "-128", "-129", "255", "32767", "32768", "-32768", "-32769", "2147483647", "2147483648", "-2147483648", "-2147483649",
       "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999999", "00012", " 12", "\t\n-3", "+4", "+-4", "12a", "-", "", "0x10", "1 2", "1\x002", "\x009", "3.9", "1e3"]


def rb(rng, hi=8):
    if rng.random() < .15: return [ord(ch) for ch in rng.choice(NUM)]
    al = rng.choice([CH, [0x61, 0x62], [0x61, 0x00]])
    return [rng.choice(al) for _ in range(rng.randint(0, hi))]


def history(rng, k):
    """k operations; the lengths of the strings are followed roughly to choose interesting indexes"""
    ops, ln = [], {l: None for l in L}
    for _ in range(k):
        x, y, d = rng.randint(1, 7), rng.randint(1, 7), rng.randint(1, 7)
        live = [l for l in L if ln[l] is not None]
        if live and rng.random() < .9: x = rng.choice(live)
        if live and rng.random() < .9: y = rng.choice(live)
        op = rng.choice(["lit"] * 3 + ["new", "undef"] + ["copy", "bytes"] * 2 + ["cat"] * 3 + ["append"] * 3 + ["num", "appendnum", "interp", "substr"] + ["move"] * 6 + ["freeze"] * 2 +
                        ["set"] * 7 + ["inc"] * 2 + ["reverse", "shorten", "chomp", "memset", "memcpy", "get", "get", "length", "is_ro", "same", "cmp", "cmp", "cmp", "tonum"])
        if op in ("append", "appendnum") and live and rng.random() < .9: d = rng.choice(live)
        if op in ("lit",) and d in (3, 4): d -= 2
        o = {"op": op, "d": d, "x": x, "y": y, "n": [], "b": []}
        n = ln[x] or 0
        ix = lambda: rng.choice([0, n - 1, rng.randint(0, max(n - 1, 0)), rng.randint(0, max(n - 1, 0)), n, -1] + [2147483647, -2147483648] * (rng.random() < .1))
        if op == "lit":
            o["b"] = rb(rng); ln[d] = len(o["b"])
        elif op == "new":
            o["n"] = [rng.choice([0, 1, 3, 8, -1, 17])]
            if o["n"][0] >= 0: ln[d] = o["n"][0]
        elif op == "undef": ln[d] = None
        elif op in ("copy", "bytes", "move"): ln[d] = ln[x]
        elif op == "cat":
            if n + (ln[y] or 0) > 3000: o["op"] = "copy"; ln[d] = ln[x]
            else: ln[d] = n + (ln[y] or 0)
        elif op == "append":
            if rng.random() < .3: o["x"] = d
            if (ln[d] or 0) + (ln[o["x"]] or 0) > 3000: o["op"] = "length"
            else: ln[d] = (ln[d] or 0) + (ln[o["x"]] or 0)
        elif op in ("num", "appendnum"):
            v = rng.choice([0, 7, -7, 127, -128, 32767, -32768, 2147483647, -2147483648, 9223372036854775807, -9223372036854775808, rng.randint(-10**6, 10**6)])
            o["n"] = [0]; o["lit"] = v; o["b"] = [ord(ch) for ch in str(v)]
            ln[d] = len(o["b"]) + (0 if op == "num" else ln[d] or 0)
        elif op == "interp":
            o["b"] = [rng.choice([0x61, 0x2c, 0x00, 0xff]) for _ in range(rng.randint(0, 2))]
            if n + (ln[y] or 0) > 3000: o["op"] = "copy"; ln[d] = ln[x]
            else: ln[d] = n + (ln[y] or 0) + 2 * len(o["b"])
        elif op == "substr":
            p = rng.choice([0, rng.randint(0, n), n, n + 1]); o["n"] = [p, rng.choice([0, rng.randint(0, max(n - p, 0)), max(n - p, 0), max(n - p, 0) + 1])]
            if p + o["n"][1] <= n: ln[d] = o["n"][1]
        elif op == "set": o["n"] = [ix(), rng.choice(CH)]
        elif op == "inc": o["n"] = [ix(), rng.choice([1, 1, 5, 255])]
        elif op == "get": o["n"] = [ix()]
        elif op == "shorten": o["n"] = [rng.choice([0, 1, n - 1, n, n + 1, -1])]
        elif op == "memset":
            p = rng.choice([0, rng.randint(0, n), n]); o["n"] = [rng.choice(CH), p, rng.choice([0, n - p, n - p, n - p + 1])]
        elif op == "memcpy": o["n"] = [rng.choice([1, n, min(n, ln[y] or 0), min(n, ln[y] or 0)]) or 1]
        elif op == "cmp":
            o["n"] = [rng.randint(0, 6)]
            if rng.random() < .2: o["y"] = o["x"]
        elif op == "tonum": o["n"] = [rng.choice([8, 16, 32, 64])]
        ops.append(o)
    return ops


HS = """class HS {
  use Fn;
  has f : public string;
  static method new : HS () { return new HS; }
  static method id : string ($s : string) { return $s; }
  static method w : void ($s : string, $i : int, $c : int) { my $m = (mutable string)$s; $m->[$i] = (byte)$c; }
  static method v : string ($s : string) {
    unless ($s) { return "u"; }
    my $n = length $s; my $r = is_read_only $s ? "r" : "m";
    my $h = "0123456789abcdef"; my $q = 0;
    for (my $i = 0; $i < $n; $i++) {
      my $c = (int)$s->[$i] & 255;
      if ($i < 16) { my $z = (mutable string)new_string_len 2; $z->[0] = $h->[$c >> 4]; $z->[1] = $h->[$c & 15]; $r .= $z; }
      $q = ($q * 31 + $c) % 1000003;
    }
    if ($n > 16) { $r .= "+$n,$q"; }
    return $r;
  }
}
""".replace('my $r = is_read_only $s ? "r" : "m";', 'my $r = "m"; if (is_read_only $s) { $r = "r"; }')


def lit(b):
    return '"' + "".join("\\x{%02x}" % x if x < 32 or x > 126 or x in (34, 92, 36, 64) else chr(x) for x in b) + '"'


def rd(l, rng):
    return "(string)$o" if l == 7 else L[l] if rng.random() < .85 else "HS->id(%s)" % L[l]


def put(d, e):
    return "%s = %s%s;" % (L[d], "(mutable string)" if d in (3, 4) else "", e)


def stmt(o, rng):
    """(statement, kind of the result)"""
    op, d, x, y, n = o["op"], o["d"], o["x"], o["y"], o["n"]
    one = lambda *l: rng.choice(l)
    X, Y = rd(x, rng), rd(y, rng)
    P = lambda e: "(%s)" % e if e.startswith("(") else e
    if op == "lit": return put(d, one(lit(o["b"]), "(%s)" % lit(o["b"]))), 0
    if op == "new": return put(d, "(new_string_len(%d))" % n[0]), 0
    if op == "undef": return "%s = undef;" % L[d], 0
    if op == "copy": return put(d, "(copy %s)" % P(X) if rng.random() < .7 else "Fn->copy_string(%s)" % X if False else "(copy %s)" % P(X)), 0
    if op == "bytes":
        return "my $b = (byte[])%s; %s if ($b) { for (my $i = 0; $i < @$b; $i++) { $b->[$i] = 33; } }" % (P(X), put(d, "(string)$b")), 0
    if op == "cat":
        e = one("(%s . %s)" % (P(X), P(Y)), "(%s . (byte[])%s)" % (P(X), P(Y)) if x != y else "(%s . %s)" % (P(X), P(Y)), "((byte[])%s . %s)" % (P(X), P(Y)))
        return put(d, e), 0
    if op == "append":
        if d in (3, 4) or d == 7: return put(d, "(%s . %s)" % (P(rd(d, random.Random(0))), P(X))), 0
        return "%s .= %s;" % (L[d], X), 0
    v = o.get("lit")
    if op in ("num", "appendnum"):
        big = not -2147483648 <= v <= 2147483647
        e = "%d%s" % (v, "L" if big else "")
        if v == -9223372036854775808: e = "(-9223372036854775807L - 1)"
        elif v == -2147483648: e = "(-2147483647 - 1)"
        if op == "num":
            cs = ["(string)%s" % P("(%s)" % e), '("" . %s)' % P("(%s)" % e), '"$w"']
            if -128 <= v <= 127: cs += ["(string)(byte)(%s)" % e]
            if -32768 <= v <= 32767: cs += ['("" . (short)(%s))' % e]
            return "my $w = %s; %s" % ("(long)(%s)" % e, put(d, "(%s)" % one(*cs))), 0
        if d in (3, 4, 7): return put(d, "(%s . (%s))" % (P(rd(d, random.Random(0))), e)), 0
        return "%s .= %s;" % (L[d], e), 0
    if op == "interp":
        q = lit(o["b"])[1:-1]
        return "my $p = %s; my $q = %s; %s" % (X, Y, put(d, '("%s${p}%s${q}")' % (q, q))), 0
    if op == "substr": return put(d, "Fn->substr(%s, %d, %d)" % (X, n[0], n[1])), 0
    if op == "move": return ("%s = %s;" % (L[d], L[x]) if (d in (3, 4) and x in (3, 4)) or d == 7 else put(d, X)), 0
    if op == "freeze": return "make_read_only %s;" % P(X), 0
    if op in ("set", "inc"):
        c = "(byte)%d" % n[1]
        w = "%s->[%d] = %s;" % ("%s", n[0], c) if op == "set" else "%s->[%d]++;" % ("%s", n[0]) if n[1] == 1 and rng.random() < .6 else "%s->[%d]--;" % ("%s", n[0]) if n[1] == 255 and rng.random() < .6 else "%s->[%d] += %s;" % ("%s", n[0], c)
        if x in (3, 4): return w % L[x], 0
        if op == "set" and rng.random() < .4: return "HS->w(%s, %d, %d);" % (X, n[0], n[1]), 0
        return "my $z = (mutable string)%s; %s" % (P(X), w % "$z"), 0
    M = L[x] if x in (3, 4) else "(mutable string)%s" % P(X)
    if op == "reverse": return "Fn->reverse_inplace(%s);" % one(M, X), 0
    if op == "shorten": return "Fn->shorten(%s, %d);" % (M, n[0]), 0
    if op == "chomp": return "Fn->chomp(%s);" % M, 0
    if op == "memset": return "Fn->memset_char(%s, %d, %d, %d);" % (M, n[0], n[1], n[2]), 0
    if op == "memcpy": return "Fn->%s(%s, 0, %s, 0, %d);" % (one("memcpy", "memmove"), one(M, X), Y, n[0]), 0
    if op == "get": return "my $z = %s; $r = $z->[%d];" % (X, n[0]) if x not in (3, 4) else "$r = %s->[%d];" % (L[x], n[0]), 1
    if op == "length": return "$r = length %s;" % P(X), 1
    if op == "is_ro": return "$r = is_read_only %s;" % P(X), 1
    if op == "same": return "if (%s == %s) { $r = 1; }" % (P(X), P(Y)), 1
    if op == "cmp":
        e = ["cmp", "eq", "ne", "lt", "le", "gt", "ge"][n[0]]
        X2, Y2 = P(X), P(Y)
        return one("$r = %s %s %s;" % (X2, e, Y2), "$r = ((byte[])%s) %s %s;" % (X2, e, Y2), "$r = %s %s ((byte[])%s);" % (X2, e, Y2)), 1
    if op == "tonum": return "$r = (%s)%s;" % ({8: "byte", 16: "short", 32: "int", 64: "long"}[n[0]], P(X)), 1
    raise KeyError(op)


def view(x):
    if x["u"]: return "u"
    b = x["b"]; q = 0
    for ch in b: q = (q * 31 + ch) % 1000003
    return ("r" if x["ro"] else "m") + "".join("%02x" % ch for ch in b[:16]) + ("+%d,%d" % (len(b), q) if len(b) > 16 else "")


def want(o, e):
    r = e["r"]
    if isinstance(r, dict): r = ("-" if r["neg"] else "") + "".join(str(d) for d in reversed(r["ds"]))
    return "|".join(["x" if not e["ok"] else str(r)] + [view(x) for x in e["v"]])


def check(c):
    c.build(libs=vp.CORE_LIBS)
    rng = random.Random("c13/%d" % c.seed)
    hs = [history(rng, rng.choice([12, 25, 25, 40])) for _ in range(c.q(260, 6000))]
    r = c.tlc("StringSpec", "CONSTANT RowFile = \"rows.json\"\nINIT Init\nNEXT Next\nINVARIANT LawsOnce\nCHECK_DEADLOCK FALSE\n",
              files={"rows.json": json.dumps([[{k: v for k, v in o.items() if k != "lit"} for o in h] for h in hs])}, timeout=c.q(300, 3000), heap="8g")
    outs = [json.load(open(os.path.join(r["dir"], "out_%d.json" % (i + 1)))) for i in range(len(hs))]
    progs, where = {}, {}
    G = 4
    for g in range(0, len(hs), G):
        name = "QS%d" % (g // G); body = []
        for i in range(g, min(g + G, len(hs))):
            q = random.Random("c13r/%d/%d" % (c.seed, i)); m = []
            for o in hs[i]:
                st, k = stmt(o, q)
                m.append('    $r = 0L; eval { %s }; if (eval_error_id) { $q = "x"; } else { $q = "$r"; } say $q . "|" . HS->v($s) . "|" . HS->v($t) . "|" . HS->v($m) . "|" . HS->v($k) . "|" . HS->v($a->[1]) . "|" . HS->v($h->{f}) . "|" . HS->v((string)$o);' % st)
            body.append("  static method m%d : void () {\n    my $s : string; my $t : string; my $m : mutable string; my $k : mutable string; my $a = new string[3]; my $h = HS->new; my $o : object; my $r : long; my $q : string;\n%s\n  }" % (i - g, "\n".join(m)))
        progs[name] = "class %s {\n  use Fn; use HS;\n%s\n  static method main : void () { %s eval { }; }\n}\n" % (name, "\n".join(body), " ".join("&m%d;" % j for j in range(len(body))))
        where[name] = list(range(g, min(g + G, len(hs))))
    sample = set(random.Random("j%d" % c.seed).sample(sorted(progs), c.q(min(14, len(progs)), len(progs) // 4)))
    n = 0
    for jit in (0, 1):
        ps = progs if not jit else {k + "J": v.replace("class %s {" % k, "class %sJ : precompile {" % k) for k, v in progs.items() if k in sample}
        out = vp.run_programs(c, ps, shared={"HS": HS}, mem=not jit, timeout=c.q(200, 900), jit=bool(jit))
        for name, ix in where.items():
            nm = name + ("J" if jit else "")
            if nm not in ps: continue
            o = out[nm]; rep = {"source": ps[nm], "classes": {"HS": HS}}
            exp = [(i, j, want(op, outs[i][j])) for i in ix for j, op in enumerate(hs[i])]
            if o.crash or o.exc is not None or o.compile_error or o.mem or len(o.lines) != len(exp):
                c.violation("string program", "%s: %s" % (nm, o.crash or o.exc or o.compile_error or "memory %s, %d lines of %d" % (o.mem, len(o.lines), len(exp))), rep); continue
            bad = set()
            for (i, j, w), l in zip(exp, o.lines):
                if i in bad: continue
                if w != l and outs[i][j]["ok"] == 2 and l == "x" + w[1:]: w = l
                if w != l:
                    bad.add(i)
                    c.violation("string %s" % hs[i][j]["op"], "history %d step %d %s%s: specified %s, got %s" % (i, j, json.dumps(hs[i][j]), " (precompiled)" if jit else "", w, l), dict(rep, history=hs[i][:j + 1]))
                else: n += 1
    c.cov["traces_validated_against_impl"] += n
    c.sample({"history": hs[0][:6], "specified": [want(o, e) for o, e in zip(hs[0], outs[0])][:6]})
    c.log("%d histories, %d steps compared" % (len(hs), n))


if __name__ == "__main__":
    vp.main("C13", check)
