#!/usr/bin/env python3
"""C26: binary and text formats.  Pack.tla (pack, unpack), Printf.tla (sprintf)."""
import sys, os, json, random, struct
from decimal import Decimal
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp

W = {"Byte": 1, "Short": 2, "Int": 4, "Long": 8, "Float": 4, "Double": 8}
CFG = 'SPECIFICATION Spec\nINVARIANT Law\nCONSTANT RowFile = "rows.json"\nCHECK_DEADLOCK FALSE\n'
SHOW = """class PkShow { use Fn; use Format;
  static method hex : string ($s : string) { my $r = "x"; for (my $i = 0; $i < length $s; $i++) { my $x = (int)$s->[$i] & 0xff; $r .= Fn->substr("0123456789abcdef", $x >> 4, 1); $r .= Fn->substr("0123456789abcdef", $x & 15, 1); } return $r; }
  static method bits : string ($o : object, $n : int) { my $s = (mutable string)new_string_len($n); if ($n) { Fn->memcpy($s, 0, $o, 0, $n); } return &hex($s); }
  static method show : string ($o : object) {
    unless ($o) { return "undef"; }
    my $t = type_name $o;
    if ($o isa string) { return "string " . &hex((string)$o); }
    if ($o isa Byte) { return "$t " . &bits([(byte)$o], 1); }
    if ($o isa Short) { return "$t " . &bits([(short)$o], 2); }
    if ($o isa Int) { return "$t " . &bits([(int)$o], 4); }
    if ($o isa Long) { return "$t " . &bits([(long)$o], 8); }
    if ($o isa Float) { return "$t " . &bits([(float)$o], 4); }
    if ($o isa Double) { return "$t " . &bits([(double)$o], 8); }
    my $w = 0;
    if ($o isa byte[]) { $w = @{(byte[])$o}; }
    elsif ($o isa short[]) { $w = 2 * @{(short[])$o}; }
    elsif ($o isa int[]) { $w = 4 * @{(int[])$o}; }
    elsif ($o isa long[]) { $w = 8 * @{(long[])$o}; }
    elsif ($o isa float[]) { $w = 4 * @{(float[])$o}; }
    elsif ($o isa double[]) { $w = 8 * @{(double[])$o}; }
    else { return "?" . $t; }
    return "$t " . &bits($o, $w);
  }
}
"""
SHARED = {"PkShow": SHOW}


def enc(ty, x):
    if ty == "Float": return list(struct.pack("<f", x))
    if ty == "Double": return list(struct.pack("<d", x))
    n = W[ty]; return list((x & (256 ** n - 1)).to_bytes(n, "little"))


def lit(ty, bs):
    """the source text of a value of a numeric type"""
    if ty in ("Float", "Double"):
        x = struct.unpack("<f" if ty == "Float" else "<d", bytes(bs))[0]
        return "Fn->to_%s(\"%s\")" % (ty.lower(), repr(x))
    x = int.from_bytes(bytes(bs), "little", signed=True)
    return {"Byte": "(byte)(%d)", "Short": "(short)(%d)", "Int": "(%d)", "Long": "(%dL)"}[ty] % x


def sstr(v): return '"%s"' % "".join("\\x{%02x}" % x for x in v)


def expr(o):
    ty, v = o["ty"], o["v"]
    if ty == "undef": return "(object)undef"
    if ty == "string": return "(object)" + sstr(v)
    if ty.endswith("[]"):
        t = ty[:-2].capitalize()
        return "(object)[%s]" % ", ".join(lit(t, x) for x in v) if v else "(object)new %s[0]" % ty[:-2]
    if "b" in o: v = o["b"]
    return "(object)" + lit(ty, v[0] if ty != "string" and v and isinstance(v[0], list) else v)


def objs(os_): return "[%s]" % ", ".join(expr(o) for o in os_) if os_ else "new object[0]"


def number(rng, ty):
    if ty == "Float": return struct.unpack("<f", struct.pack("<f", rng.choice([0.0, 1.0, -1.5, 0.1, 3.4e38, 1e-30, rng.uniform(-1000, 1000)])))[0]
    if ty == "Double": return rng.choice([0.0, 1.0, -1.5, 0.1, 1.7e308, 2.2250738585072014e-308, 1e-300, rng.uniform(-1e6, 1e6)])
    b = 8 * W[ty]
    return rng.choice([0, 1, -1, 2 ** (b - 1) - 1, -2 ** (b - 1), rng.getrandbits(b - 1), -rng.getrandbits(b - 1), 0x0102030405060708 % 2 ** (b - 1)])


KIND = {"c": "Byte", "C": "Byte", "s": "Short", "S": "Short", "l": "Int", "L": "Int", "q": "Long", "Q": "Long", "f": "Float", "d": "Double"}


def pack_obj(rng, ch, form):
    if rng.random() < .04: return rng.choice([{"ty": "undef", "v": []}, {"ty": "string", "v": [65]}, {"ty": "int[]", "v": [enc("Int", 1)]}, {"ty": "Int", "v": [enc("Int", 7)]}, {"ty": "byte[]", "v": [[1], [2]]}])
    if ch == "a": return {"ty": "string", "v": [rng.choice([0, 65, 66, 255, 10]) for _ in range(rng.choice([0, 1, 2, 3, 5]))]}
    if ch in "hH": return {"ty": "string", "v": [ord(rng.choice("0123456789abcdefABCDEF0005a" + ("g/:@G`" if rng.random() < .05 else ""))) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 6]))]}
    t = KIND.get(ch, "Int")
    if form == "one": return {"ty": t, "v": [enc(t, number(rng, t))]}
    return {"ty": t.lower() + "[]", "v": [enc(t, number(rng, t)) for _ in range(rng.choice([0, 1, 2, 3, 3]))]}


def template(rng):
    t, os_ = "", []
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
        ch = rng.choice("aHhcCsSlLqQfdHhsl")
        if rng.random() < .02: ch = rng.choice("bxA nZ")
        e = rng.choice(["", "", ">", "<", ">"])
        n = rng.choice(["", "", "1", "2", "3", "4", "5", "*", "*"])
        if ch == "a" and not n: n = "2"
        if rng.random() < .02: n = rng.choice(["0", "-1", "**", "2147483647", "2147483648", "99999999999", "1073741824", "536870913", "03"])
        if ch in "aHh" and len(n) > 3 or (n == "1073741824" and ch in "cC"): n = "3"
        t += ch + e + n; os_.append(pack_obj(rng, ch, "one" if n == "" else "many"))
    r = rng.random()
    if r < .04 and os_: os_.pop()
    elif r < .1: os_.append({"ty": "Int", "v": [enc("Int", 5)]})
    return t, os_


def pack_rows(rng, n):
    rows = []
    # every specifier with every mark of byte order and count, alone
    for ch in "aHhcCsSlLqQfd":
        for e in ["", "<", ">"]:
            for k in ["", "1", "2", "3", "*"]:
                if ch == "a" and not k: continue
                rows.append({"k": "pack", "t": list((ch + e + k).encode()), "o": [pack_obj(rng, ch, "one" if not k else "many")], "b": []})
    for ch in "hH":
        for k in ["", "1", "2", "3", "4", "*"]:
            for s in ["", "5", "05", "0f1", "10ab", "abcdef", "5z", "z5", "0gg"]: rows.append({"k": "pack", "t": list((ch + k).encode()), "o": [{"ty": "string", "v": list(s.encode())}], "b": []})
    for _ in range(n):
        t, os_ = template(rng)
        if rng.random() < .65: rows.append({"k": "pack", "t": list(t.encode()), "o": os_, "b": []})
        else: rows.append({"k": "unpack", "t": list(t.encode()), "o": [], "b": [rng.choice([0, 1, 5, 16, 127, 128, 255, 0xab]) for _ in range(rng.choice([0, 1, 2, 3, 4, 7, 8, 9, 12, 16, 24, 33]))]})
    return rows


def shown(v):
    if v["ty"] == "string": return "string x" + bytes(v["v"]).hex()
    return v["ty"] + " x" + "".join(bytes(x).hex() for x in v["v"])


def run(c, rows, stmts, jit, pre):
    """stmts: row number -> body that calls VP->mark; the marks of every row"""
    ids = sorted(stmts); groups = [ids[k:k + 25] for k in range(0, len(ids), 25)]
    cl = {"%s%d" % (pre, k): "class %s%d { use PkShow; use Packer; use Format; use Fn; use Byte; use Short; use Int; use Long; use Float; use Double;\n  static method main : void () {\n%s  }\n%s}\n" % (
        pre, k, "".join("    &m%d;\n" % i for i in g), "".join("  static method m%d : void () { VP->mark(\"#%d\");\n%s  }\n" % (i, i, stmts[i]) for i in g)) for k, g in enumerate(groups)}
    out = vp.run_programs(c, cl, shared=SHARED, timeout=c.q(200, 900), jit=jit)
    got = {}
    for k, g in enumerate(groups):
        o = out["%s%d" % (pre, k)]
        if o.compile_error is not None: raise vp.CheckError("generated program does not compile: %s" % o.compile_error[:500]) if hasattr(vp, "CheckError") else Exception(o.compile_error[:500])
        cur = None
        for l in o.lines:
            if l.startswith("#"): cur = got.setdefault(int(l[1:]), [])
            elif cur is not None: cur.append(l)
        if o.crash:
            for i in g:
                if i not in got or i == max(got): got.setdefault(i, []).append("crash: %s" % o.crash)
    return got


def rows_of(c, module, rows, tag):
    t = c.tlc(module, CFG, files={"rows.json": json.dumps(rows)}, tag=tag, workers=1, timeout=c.q(250, 2400))
    return [json.load(open(os.path.join(t["dir"], "out_%d.json" % (i + 1)))) for i in range(len(rows))]


def pack(c, rng):
    rows = pack_rows(rng, c.q(900, 20000))
    want = rows_of(c, "Pack", rows, "pack")
    stmts = {}
    for i, (r, w) in enumerate(zip(rows, want)):
        if w["p"]["r"] == "free" and r["k"] == "pack": continue
        cls = "Packer->new" if i % 3 else "Fn"
        un = "my $u = %s->unpack($t, $b); for (my $i = 0; $i < @$u; $i++) { VP->mark(PkShow->show($u->[$i])); } VP->mark(\"end\");" % cls
        if r["k"] == "pack": st = "    my $t = %s; my $b = (string)undef; eval { $b = %s->pack($t, %s); VP->mark(PkShow->hex($b)); };\n    unless ($b) { VP->mark(\"error\"); return; }\n" % (sstr(r["t"]), cls, objs(r["o"]))
        else: st = "    my $t = %s; my $b = %s;\n" % (sstr(r["t"]), sstr(r["b"]))
        stmts[i] = st + "    my $ok = 0; eval { %s $ok = 1; };\n    unless ($ok) { VP->mark(\"error\"); }\n" % un

    def expect(i):
        r, w = rows[i], want[i]; e = []
        if r["k"] == "pack":
            if w["p"]["r"] == "err": return ["error"]
            e.append("x" + bytes(w["p"]["v"]).hex())
        if w["u"]["r"] == "err": return e + ["error"]
        return e + [shown(v) for v in w["u"]["v"]] + ["end"]
    for jit in c.q((True,), (False, True)):
        got = run(c, rows, stmts, jit, "Pk")
        for i in stmts:
            c.cov["traces_validated_against_impl"] += 1
            if got.get(i) != expect(i):
                t = bytes(rows[i]["t"]).decode("latin-1")
                c.violation("pack:%s" % ("error" if expect(i)[-1:] == ["error"] else rows[i]["k"]), "template %r of %s: %r, specified %r" % (t, objs(rows[i]["o"]) if rows[i]["k"] == "pack" else bytes(rows[i]["b"]).hex(), got.get(i), expect(i)), {"template": t, "objects": objs(rows[i]["o"]), "program": stmts[i]})
    n = sum(w["p"]["r"] == "err" or (w["u"]["r"] == "err" and rows[k]["k"] == "unpack") for k, w in enumerate(want))
    c.log("pack: %d templates, %d of them refused, %d not decided" % (len(rows), n, len(rows) - len(stmts)))
    k = next(i for i in stmts if len(expect(i)) > 3); c.sample({"template": bytes(rows[k]["t"]).decode(), "objects": objs(rows[k]["o"]), "result": expect(k)})


# ---------------------------------------------------------------- sprintf
def flo(ty, x):
    d = Decimal(abs(x)); s = format(d, "f"); ip, _, fp = s.partition(".")
    return {"ty": ty, "neg": str(x).startswith("-"), "ip": list(ip.encode()), "fp": list(fp.encode()), "v": [], "b": enc(ty, x)}


def dbl(rng, ty):
    x = rng.choice([0.0, 1.0, -1.0, 0.5, 1.5, 2.5, -2.5, 0.125, 0.1, 9.5, 99.5, 0.05, 999999.5, 9999995.0, 1e5, 123456.0, 1234567.0, 1e-4, 0.00012345, 9.9999e-5, 1e-5, 3.14159265, -42.0, 1e15, 1e20, 1e22, -1e30, 1e300, -1.7976931348623157e308, 2.2250738585072014e-308,
                    rng.uniform(-10, 10), rng.uniform(-1e6, 1e6), rng.uniform(-1, 1) * 10 ** rng.randint(-12, 25), rng.randint(-4000, 4000) / 8, rng.randint(-4000, 4000) / 16])
    if ty == "Float":
        try: x = struct.unpack("<f", struct.pack("<f", x))[0]
        except OverflowError: x = 3.0e38; x = struct.unpack("<f", struct.pack("<f", x))[0]
    return flo(ty, x)


def arg(rng, conv):
    t = {"d": "Int", "u": "Int", "x": "Int", "X": "Int", "ld": "Long", "lu": "Long", "lx": "Long", "lX": "Long"}.get(conv)
    if rng.random() < .05: t = rng.choice(["Int", "Long", "string", "Double", "undef", "Byte", "Short"]); conv = ""
    if t == "string" or conv == "s": return {"ty": "string", "v": [rng.choice(b"abc-+ 0%\xe3\x81\x82") for _ in range(rng.choice([0, 0, 1, 2, 3, 5, 8]))]}
    if t == "undef": return {"ty": "undef", "v": []}
    if conv == "c":
        if rng.random() < .4: return {"ty": "Byte", "v": [rng.choice([1, 10, 32, 37, 45, 48, 65, 127, 200])]}
        return {"ty": "Int", "v": enc("Int", rng.choice([0, 1, 45, 65, 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0x3042, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x110000, -1, 2 ** 31 - 1]))}
    if t == "Double" or conv in ("f", "g"): return dbl(rng, rng.choice(["Double", "Double", "Float"]))
    t = t or "Int"
    return {"ty": t, "v": enc(t, rng.choice([0, 1, -1, 7, 10, 42, -42, 255, number(rng, t)]))}


def fmt_rows(rng, n):
    rows = []
    for conv in ["d", "u", "x", "X", "ld", "lu", "lx", "lX", "c", "s", "f", "g"]:
        for fl in ["", "0", "+", "-", "0+", "+0", "-0", "-+", "00+-"]:
            for w in ["", "1", "4", "12"]:
                for p in ["", ".3"] if conv in "sfg" else [""]: rows.append({"f": list(("%" + fl + w + p + conv).encode()), "a": [arg(rng, conv)]})
    for x in ["%", "a%", "%%", "%%%", "%5", "%-", "%.3", "%l", "%lf", "%q", "%i", "%o", "%", "%5%", "%ls", "%lld", "%d%", "%d %", "% d", "%#x", "%*d", "%e", "%.d", "%.f", "%hd", "", "abc", "%%d", "%d%%", "%d%d", "%s%s"]: rows.append({"f": list(x.encode()), "a": [arg(rng, "d")]})
    for _ in range(n):
        f, a = b"", []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            f += rng.choice([b"", b"", b"a", b"%%", b" - ", b"100%%", b"0", b"\xe3\x81\x82", b"l", b"d"])
            conv = rng.choice(["d", "u", "x", "X", "ld", "lu", "lx", "lX", "c", "s", "f", "g", "f", "g", "s"])
            prec = rng.choice(["", "", ".0", ".1", ".2", ".5", ".10", ".17", ".30"]) if conv in "sfg" else ""
            f += ("%" + "".join(rng.choice("0+-") for _ in range(rng.choice([0, 0, 1, 2]))) + rng.choice(["", "", "1", "5", "9", "20", "45"]) + prec + conv).encode(); a.append(arg(rng, conv))
        r = rng.random()
        if r < .04: a.pop()
        elif r < .08: a.append(arg(rng, "d"))
        elif r < .14: i = rng.randrange(len(f) + 1); f = f[:i] + rng.choice([b"%", b"l", b".", b"0", b"-"]) + f[i:]
        rows.append({"f": list(f), "a": a})
    return rows


def printf(c, rng):
    rows = fmt_rows(rng, c.q(700, 15000))
    want = rows_of(c, "Printf", rows, "printf")
    stmts = {}
    for i, (r, w) in enumerate(zip(rows, want)):
        if w["r"] == "free": continue
        stmts[i] = "    my $s = (string)undef; eval { $s = %s->sprintf(%s, %s); VP->mark(PkShow->hex($s)); };\n    unless ($s) { VP->mark(\"error\"); }\n" % ("Format" if i % 3 else "Fn", sstr(r["f"]), objs(r["a"]))
    for jit in c.q((True,), (False, True)):
        got = run(c, rows, stmts, jit, "Pf")
        for i in stmts:
            c.cov["traces_validated_against_impl"] += 1
            e = ["error"] if want[i]["r"] == "err" else ["x" + bytes(want[i]["v"]).hex()]
            if got.get(i) != e:
                f = bytes(rows[i]["f"]).decode("latin-1"); tx = lambda l: [bytes.fromhex(x[1:]).decode("latin-1") if x.startswith("x") else x for x in l or []]
                c.violation("sprintf:%s" % ("error" if e == ["error"] else "value"), "%r of %s: %r, specified %r" % (f, objs(rows[i]["a"]), tx(got.get(i)), tx(e)), {"format": f, "arguments": objs(rows[i]["a"]), "program": stmts[i]})
    c.log("sprintf: %d formats, %d refused, %d not decided" % (len(rows), sum(w["r"] == "err" for w in want), len(rows) - len(stmts)))
    c.sample({"format": bytes(rows[-1]["f"]).decode("latin-1"), "arguments": objs(rows[-1]["a"]), "result": want[-1]})


def check(c):
    c.build(libs=vp.CORE_LIBS)
    rng = random.Random(c.seed * 7919 + 26)
    pack(c, rng); printf(c, rng)


if __name__ == "__main__":
    vp.main("C26", check)
