#!/usr/bin/env python3
"""C25: source text.  Lex.tla (literals), Expr.tla (operators), Lines.tla (layout and line numbers)."""
import sys, os, json, random, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from concurrent.futures import ThreadPoolExecutor

SIMPLE = {"a": 7, "t": 9, "n": 10, "f": 12, "r": 13, '"': 34, "$": 36, "'": 39, "\\": 92}
RAW = "!#%&()*+,-./:;<=>?@ABDGHKNPRSVWXZ[]^_`bdghkpsvwz{|}~"
VARS = {"v": "V", "v2": "V2", "n": "7", "$r": "7", "@": "AT", "o{x}": "OX", "o{o}{x}": "OX", "o{a}[0]": "A0", "o{a}[1]": "A1", "a[0]": "A0", "a[1]": "A1", "os[0]{x}": "OX", "os[0]{a}[1]": "A1", "os[0]{o}{x}": "OX", "C": "CV"}
SHARED = {"LexO": "class LexO { has x : public string; has o : public LexO; has a : public string[]; static method new : LexO () { my $s = new LexO; $s->{x} = \"OX\"; $s->{a} = [\"A0\", \"A1\"]; return $s; } }"}
PRE = """  static method hex : void ($s : string) { my $r = ""; for (my $i = 0; $i < length $s; $i++) { my $x = (int)$s->[$i] & 0xff; $r .= Fn->substr("0123456789abcdef", $x >> 4, 1); $r .= Fn->substr("0123456789abcdef", $x & 15, 1); } VP->mark($r); }
"""
SETUP = "my $v = \"V\"; my $v2 = \"V2\"; my $n = 7; my $r = \\$n; my $o = LexO->new; my $a = [\"A0\", \"A1\"]; $o->{o} = LexO->new; my $os = [$o]; "


def b(s): return s if isinstance(s, bytes) else s.encode()


# ---------------------------------------------------------------- literals
def num_rows(rng, n):
    rows = []
    lim = {"d": ["0", "1", "9", "2147483647", "2147483648", "2147483649", "4294967295", "9223372036854775807", "9223372036854775808", "18446744073709551616", "99999999999999999999999"],
           "x": ["0x0", "0x7FFFFFFF", "0x80000000", "0xFFFFFFFF", "0x100000000", "0x7fffffffffffffff", "0x8000000000000000", "0xFFFFFFFFFFFFFFFF", "0x10000000000000000", "0XaBcDeF", "0x1_2", "0x12_", "0x"],
           "o": ["00", "07", "017777777777", "020000000000", "037777777777", "040000000000", "0777777777777777777777", "01777777777777777777777", "02000000000000000000000", "08", "0_7", "01_7"],
           "b": ["0b0", "0b1", "0b" + "1" * 31, "0b1" + "0" * 31, "0b" + "1" * 32, "0b1" + "0" * 32, "0b" + "1" * 63, "0b" + "1" * 64, "0b1" + "0" * 64, "0b2", "0B101", "0b1_0", "0b"],
           "f": ["1.5", "0.5", "1e3", "1.25e2", "12.5f", "3f", "3d", "1e-2", "0x1.8p0", "0x1p3", "0x1.8p-1f", "0x3P+2", "0xA.Bp2d", "1.5F", "2.5D", "0x1.8", "1_0.5", "1.2_5", "0x1_0p1", "0.001", "3.14159", "1_0._5", "1_._2_5_e_-_1", "1e_2", "1e2_", "1e+_2f", "0x1_p_-_1_0", "1e_", "1e_-", "1_e-1", "1.2_5_e_+1_0d", "1e30f", "1e300", "2.5e-3", "1e", "1e+", "0x1p", "1.5x", "12ab", "0.1f", "16777217f", "0x1.8p0F", "0x1.8p0D", "1.5L"]}
    for k in lim:
        for t in lim[k]:
            for s in ("", "-"):
                for e in (("", "L", "l") if k != "f" else ("",)): rows.append(s + t + e)
    dig = lambda cs, a, z: "".join(rng.choice(cs) for _ in range(rng.randint(a, z)))
    us = lambda s: "".join(c + ("_" if rng.random() < .15 else "") for c in s)
    for _ in range(n):
        k = rng.choice("dddxxobffh"); sg = rng.choice(["", "", "-"])
        if k == "d": t = rng.choice("123456789") + us(dig("0123456789", 0, rng.choice([3, 10, 19]))) + rng.choice(["", "", "L", "l"])
        elif k == "x": t = "0" + rng.choice("xX") + us(dig("0123456789abcdefABCDEF", 1, rng.choice([4, 8, 9, 16, 17]))) + rng.choice(["", "", "L", "l"])
        elif k == "o": t = "0" + us(dig("01234567", 1, rng.choice([4, 11, 12, 22]))) + rng.choice(["", "", "L"])
        elif k == "b": t = "0" + rng.choice("bB") + us(dig("01", 1, rng.choice([8, 32, 33, 64, 65]))) + rng.choice(["", "", "L"])
        elif k == "f": t = rng.choice(["0", rng.choice("123456789") + us(dig("0123456789", 0, 3))]) + rng.choice(["", "." + us(dig("0123456789", 1, 4)), ".5", ".25"]) + rng.choice(["", "e", "E"]) ; t += (rng.choice(["", "+", "-"]) + rng.choice("0123")) if t[-1] in "eE" else ""; t += rng.choice(["", "f", "F", "d", "D"])
        else: t = "0" + rng.choice("xX") + us(dig("0123456789abcdef", 1, 3)) + rng.choice(["", "." + dig("0123456789abcDEF", 1, 3)]) + rng.choice("pP") + rng.choice(["", "+", "-"]) + rng.choice("0123456789") + rng.choice(["", "", "f", "F", "d", "D"])
        t = sg + t
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            i = rng.randrange(len(t) + 1); t = rng.choice([t[:i] + t[i + 1:], t[:i] + rng.choice("0123456789abfxXpPeELlFdD_._") + t[i:], t[:i] + rng.choice("0189abfxpeLdD_.") + t[i + 1:]])
        if t: rows.append(t)
    return [{"k": "num", "t": list(b(t))} for t in dict.fromkeys(rows)]


def chr_rows(rng, n):
    t = [bytes([x]) for x in range(1, 127) if x != 10] + [b"\\" + bytes([x]) for x in range(32, 127)] + [b"", b"ab", b"\xe3\x81\x82"]
    t += [b"\\%o" % x for x in range(0, 300, 7)] + [b"\\%03o" % x for x in range(0, 512, 37)] + [b"\\o{%o}" % x for x in range(0, 600, 41)] + [b"\\x%x" % x for x in range(0, 300, 11)] + [b"\\x{%x}" % x for x in range(0, 300, 13)]
    t += [b"\\o{}", b"\\o{8}", b"\\o{7", b"\\x{}", b"\\xg", b"\\x{1", b"\\x{1g}", b"\\0777", b"\\8", b"\\o7", b"\\x", b"\\xABC", b"\\N{U+41}", b"\\na", b"\\377", b"\\400", b"\\00", b"\\0a"]
    return [{"k": "chr", "t": list(x)} for x in dict.fromkeys(t)]


def str_rows(rng, n):
    esc = [b"\\" + bytes([x]) for x in range(32, 127)]
    rows = [b"", b"$", b"a$"] + esc + [b"x" + e + b"y" for e in esc]
    rows += [b"\\N{U+%X}" % u for u in (0, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0x3042, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000)] + [b"\\N{U+}", b"\\N{41}", b"\\N{U+3042", b"\\N{u+41}", b"\\N", b"\\NA"] + [b"\\N{U+" + x + b"}" for x in (b"00000041", b"0001F600", b"00003042", b"0010FFFF", b"00110000", b"10000000", b"FFFFFFFF", b"80000041", b"0003042", b"0041", b"003042", b"1f600", b"0001f600", b"100000041")]
    ex = [b"$v", b"${v}", b"$n", b"$$r", b"$@", b"$o->{x}", b"$o->{o}->{x}", b"$o->{o}{x}", b"$o->{a}->[0]", b"$o->{a}[1]", b"$a->[0]", b"$a->[1]", b"$os->[0]->{x}", b"$os->[0]{a}[1]", b"$v2", b"${v2}", b"$C", b"${C}"]
    # what follows an expansion is the rest of the string
    rows += [e + f for e in ex for f in [b"", b" ", b"a", b"2", b"_", b"}", b"{", b"]", b"[", b"[0]", b"{x}", b"-", b"->", b"->x", b"-> ", b":", b":x", b".", b"$", b"\\n", b"@", b"$v", b"\\\\", b"->{", b"\xe3\x81\x82", b"->[0]"]] + [f + e for e in ex for f in (b"{", b"\\$", b"\\\\", b"$v", b"\\0", b"\\x4")]
    lits = [b"a", b"x4", b"0", b"7", b"}", b"{", b"[", b"]", b" ", b"'", b"#", b"=", b";", b"->", b":", b"\n", b"\t", b"//", b"%s", b"\xc3\xa9", b"@", b"N", b"_"]
    ok = [b"\\" + b(c) for c in list(SIMPLE) + list(RAW)] + [b"\\0", b"\\12", b"\\377", b"\\o{17}", b"\\x41", b"\\x{a}", b"\\xF", b"\\N{U+3042}"]
    for _ in range(n): rows.append(b"".join(rng.choice(rng.choice([lits, lits, ok, ex])) for _ in range(rng.randint(1, 9))))
    return [{"k": "str", "t": list(x)} for x in dict.fromkeys(rows)]


def sq_rows(rng, n):
    rows = [b""] + [bytes([x]) for x in range(32, 127)] + [b"\\" + bytes([x]) for x in range(32, 127)]
    for _ in range(n): rows.append(b"".join(rng.choice([b"a", b"$v", b"\\'", b"\\\\", b'"', b"\n", b"\\", b"#", b"\xc3\xa9", b" ", b"$@", b"0"]) for _ in range(rng.randint(1, 7))))
    return [{"k": "sq", "t": list(x)} for x in dict.fromkeys(rows)]


def source(row):
    t = bytes(row["t"])
    return {"num": b"%s", "chr": b"'%s'", "str": b'"%s"', "sq": b"q'%s'"}[row["k"]] % t


def literals(c, rng):
    rows = num_rows(rng, c.q(700, 20000)) + chr_rows(rng, 0) + str_rows(rng, c.q(600, 20000)) + sq_rows(rng, c.q(150, 3000))
    data = {"rows": rows, "vars": [[list(b(k)), list(b(v))] for k, v in VARS.items()], "simple": [[ord(k), v] for k, v in SIMPLE.items()], "raw": list(b(RAW)), "chr": {}}
    t = c.tlc("Lex", 'SPECIFICATION Spec\nINVARIANT Law\nCONSTANT RowFile = "rows.json"\nCHECK_DEADLOCK FALSE\n', files={"rows.json": json.dumps(data)}, tag="lex", workers=1, timeout=c.q(200, 1800))
    want = [json.load(open(os.path.join(t["dir"], "out_%d.json" % (i + 1)))) for i in range(len(rows))]
    good = [i for i, w in enumerate(want) if w["r"] not in ("err", "free")]; bad = [i for i, w in enumerate(want) if w["r"] == "err"]
    c.log("literals: %d with a value, %d errors, %d free" % (len(good), len(bad), len(rows) - len(good) - len(bad)))

    def stmt(i, fn):
        w, s = want[i], source(rows[i])
        head = b"{ VP->mark(\"\\x{01}%d\"); $@ = \"AT\"; " % i
        if w["r"] == "int": return head + b"my $x = " + s + b"; VP->mark(compile_type_name $x); VP->mark(\"\" . $x); }"
        if w["r"] == "flo": return head + b"my $x = " + s + b"; VP->mark(compile_type_name $x); VP->mark(\"\" . (long)($x * 1024" + (b"f" if w["ty"] == "float" else b".0") + b")); }"
        if w["r"] == "txt": return head + b"my $x = " + s + b"; VP->mark(compile_type_name $x); VP->mark(\"\" . ($x == Fn->to_" + b(w["ty"]) + b"(\"" + bytes(w["txt"]) + b"\"))); }"
        if w["r"] == "chr": return head + b"my $x = " + s + b"; VP->mark(compile_type_name $x); VP->mark(\"\" . ((int)$x & 0xff)); }"
        return head + b"&hex(" + s + b"); }"

    def klass(name, ids): return b"class " + b(name) + b" {\n  use LexO; use Fn; our $C : string;\n" + b(PRE) + b"  static method main : void () { $C = \"CV\"; " + b(SETUP) + b"\n" + b"".join(b"    &m%d($v, $v2, $n, $r, $o, $a, $os);\n" % k for k in range(len(ids))) + b"  }\n" + \
        b"".join(b"  static method m%d : void ($v : string, $v2 : string, $n : int, $r : int*, $o : LexO, $a : string[], $os : LexO[]) { " % k + stmt(i, "") + b" }\n" for k, i in enumerate(ids)) + b"}\n"

    def expect(i):
        w = want[i]
        if w["r"] == "int": return [w["ty"], str(int.from_bytes(bytes(w["v"]), "little", signed=True))]
        if w["r"] == "flo": return [w["ty"], str(w["v"])]
        if w["r"] == "txt": return [w["ty"], "1"]
        if w["r"] == "chr": return ["byte", str(w["v"])]
        return [bytes(w["v"]).hex()]

    def run(groups, pre):
        cl = {"%s%d" % (pre, k): klass("%s%d" % (pre, k), g) for k, g in enumerate(groups)}
        return vp.run_programs(c, cl, shared=SHARED, timeout=100), cl
    groups = [good[k:k + 30] for k in range(0, len(good), 30)]
    out, cl = run(groups, "Lg"); redo = []
    for k, g in enumerate(groups):
        o = out["Lg%d" % k]
        if o.compile_error is not None or o.crash or not o.ended: redo += g; continue
        got = {}
        for l in o.lines:
            if l.startswith("\x01"): cur = got.setdefault(int(l[1:]), [])
            else: cur.append(l)
        for i in g:
            c.cov["traces_validated_against_impl"] += 1
            if got.get(i) != expect(i): c.violation("literal:%s" % rows[i]["k"], "%r is %r, specified %r" % (source(rows[i]).decode("latin-1"), got.get(i), expect(i)), {"source": source(rows[i]).decode("latin-1")})
    if redo:
        redo = redo[:200]; out, cl = run([[i] for i in redo], "Lr")
        for k, i in enumerate(redo):
            o = out["Lr%d" % k]
            why = "did not compile: %s" % o.compile_error[:200] if o.compile_error is not None else "crashed: %s" % o.crash if o.crash else None
            if not why and o.lines[1:] != expect(i): why = "is %r, specified %r" % (o.lines[1:], expect(i))
            if why: c.violation("literal:%s" % rows[i]["k"], "%r %s" % (source(rows[i]).decode("latin-1"), why), {"source": source(rows[i]).decode("latin-1")})
    res = vp.compile_only(c, {"Lb%d" % i: b"class Lb%d {\n  use LexO; our $C : string;\n  static method main : void () { " % i + b(SETUP) + b"\n  my $x = " + source(rows[i]) + b";\n }\n}\n" for i in bad}, shared=SHARED)
    for i in bad:
        c.cov["traces_validated_against_impl"] += 1; e = res["Lb%d" % i]
        if e is None: c.violation("literal:accepted:%s" % rows[i]["k"], "%r is accepted" % source(rows[i]).decode("latin-1"), {"source": source(rows[i]).decode("latin-1")})
        elif not re.search(r"line 4\b|line 5\b", e) and min(rows[i]["t"] + [99]) >= 32: c.violation("literal:line", "%r: the error is not at its line: %s" % (source(rows[i]).decode("latin-1"), e[:200]), {"source": source(rows[i]).decode("latin-1")})
    c.sample({"literal": source(rows[good[-1]]).decode("latin-1"), "value": expect(good[-1])})

# ---------------------------------------------------------------- operators
SHARED_E = {"LexE": "class LexE { has n : public rw int; has l : public rw int[]; has e : public rw LexE; static method new : LexE ($n : int = 5) { my $s = new LexE; $s->{n} = $n; $s->{l} = [2, 3, 5]; if ($n > 3) { $s->{e} = LexE->new($n - 2); } return $s; } method two : int ($x : int = 1) { $self->{n} += $x; return $self->{n} * 2; } static method three : int () { return 3; } static method s : string () { return \"s\"; } }"}
ELEAF = ["$i", "$j", "$k", "$m", "1", "2", "3", "7", "0", "$i", "$j", "LexE->three", "&id(4)", "$$r", "$b", "$g"]
SLEAF = ["$s", "$t", '"x"', "LexE->s", "undef"]
BIN = {1: ["=", "+=", "-=", "*=", "|=", "&=", "^=", "<<=", ">>="], 2: ["||"], 3: ["&&"], 4: ["|", "^"], 5: ["&"], 6: ["==", "!=", "eq", "ne"], 7: ["<", "<=", ">", ">=", "<=>", "cmp", "lt", "gt", "le", "ge"], 8: ["<<", ">>", ">>>"], 9: ["+", "-", "."], 10: ["*", "/", "%", "div_uint", "mod_uint", "div_ulong", "mod_ulong"]}
LEVEL = {o: p for p, os_ in BIN.items() for o in os_}
PRE_ = ["-", "+", "~", "!", "(int)", "(long)", "(double)", "(byte)", "@", "length", "type_name", "compile_type_name", "copy", "is_read_only", "++", "--"]
X = lambda s: {"k": "x", "s": s, "p": 0, "e": ""}
TOK = lambda k, s, p: {"k": k, "s": s, "p": p, "e": ""}


def expr_tree(rng, d, ty="i"):
    """tokens of a random expression; the parentheses it would need for its shape are mostly left out, so that the tokens decide."""
    if d == 0 or rng.random() < .08: return [X(rng.choice(SLEAF if ty == "s" else ELEAF))]
    r = rng.random(); sub = lambda t="i": expr_tree(rng, d - 1, t)
    if ty == "s":
        return rng.choice([lambda: sub("s") + [TOK("bin", ".", 9)] + sub(rng.choice("ssi")), lambda: [TOK("pre", "type_name", 11), X("$o")], lambda: [X("$s"), TOK("bin", ".=", 1)] + sub("s"), lambda: [TOK("pre", "compile_type_name", 11)] + sub(rng.choice("si")), lambda: [TOK("pre", "copy", 11)] + sub("s"), lambda: sub("s") + [TOK("post", "->(string)", 13)], lambda: [TOK("pre", "(string)", 11)] + sub(rng.choice("is"))])()
    if r < .52:
        o = rng.choice(BIN[rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 9, 10, 10])])
        t = "s" if o in ("eq", "ne", "cmp", "lt", "gt", "le", "ge") else "i"
        if o == ".": o = "+"
        e = sub(t) + [TOK("bin", o, LEVEL[o])] + sub(t)
    elif r < .60:
        o = rng.choice(BIN[1]); e = [rng.choice([[X("$i")], [X("$j")], [X("$k")], [X("$o"), TOK("post", "->{n}", 13)], [X("$a"), TOK("post", "->[1]", 13)], [X("$$r")]])][0] + [TOK("bin", o, 1)] + sub()
    elif r < .76: e = [TOK("pre", o, 11) for o in [rng.choice(["-", "+", "~", "!", "(int)", "(long)", "(double)", "(byte)"])]] + sub()
    elif r < .84:
        o = rng.choice(["++", "--"]); v = rng.choice([[X("$i")], [X("$j")], [X("$o"), TOK("post", "->{n}", 13)], [X("$a"), TOK("post", "->[0]", 13)], [X("$$r")]])
        e = [TOK("pre", o, 12)] + v if rng.random() < .5 else v + [TOK("post", o, 12)]
    elif r < .90: e = rng.choice([lambda: [X("$o"), TOK("post", "->{n}", 13)], lambda: [X("$o"), TOK("post", "->two", 13)], lambda: [X("$o"), TOK("post", "->two(2)", 13)], lambda: [X("$o"), TOK("post", "->{e}", 13), TOK("post", rng.choice(["->{n}", "->two", "{n}"]), 13)], lambda: [X("$a"), TOK("post", "->[" + rng.choice(["0", "$k", "1+1", "$i&1"]) + "]", 13)], lambda: [X("$o"), TOK("post", "->{l}", 13), TOK("post", rng.choice(["->[2]", "[1]"]), 13)], lambda: [TOK("pre", "@", 11), X("$a")], lambda: [TOK("pre", "@", 11), X("$o"), TOK("post", "->{l}", 13)], lambda: sub() + [TOK("post", rng.choice(["->(int)", "->(long)", "->(byte)"]), 13)]])()
    else:
        e = rng.choice([lambda: [X(rng.choice(["$o", "$u"])), TOK("post", " isa " + rng.choice(["LexE", "Int", "object"]), 7)], lambda: [X("$o"), TOK("post", " is_type " + rng.choice(["LexE", "string"]), 7)], lambda: [X("$i"), TOK("post", " is_compile_type " + rng.choice(["int[]", "LexE[]"]), 7)], lambda: [X("$o"), TOK("post", " can two", 7)], lambda: [TOK("pre", "length", 11)] + sub("s"), lambda: [TOK("pre", "is_read_only", 11), X("$s")], lambda: sub() + [TOK("post", " is_compile_type string[]", 7)]])()
    if rng.random() < .12: e = [TOK("(", "(", 0)] + e + [TOK(")", ")", 0)]
    return e


def expr_text(ts, rng):
    """the text of the tokens, with few blanks"""
    out = ""
    for t in ts:
        s = t["s"]; a = out[-1:]; z = s[:1]
        word = lambda ch: ch.isalnum() or ch == "_"
        need = (word(a) and word(z)) or (a in "+-*/<>=!&|^~%.@$:\\" and z in "+-*/<>=!&|^~%.@$:\\\"0123456789" and not (z == "$" and a not in "$@%&")) or (a in "+-." and z.isdigit()) or (a.isdigit() and z == ".") or (a == "&" and (word(z) or z == "&")) or (a == "<" and z in "<'") or (word(a) and z in "({" and t["k"] != "post") or (a == ")" and word(z) and 0)
        if out and (need or rng.random() < .3) and not (a == "@" and z == "$"): out += rng.choice([" ", " ", " ", "  ", "\n ", "\t", " # c\n"]) if rng.random() < .5 else " "
        out += s
    return out


EDECL = 'my $i = 6; my $j = -3; my $k = 2; my $m = 100; my $b = (byte)9; my $g = 5L; my $s = "ab"; my $t = "b"; my $z = 4; my $r = \\$z; my $o = LexE->new; my $u : object = undef; my $a = [1, 4, 9];'
EKLASS = "class %s {\n  use VP; use LexE; use Fn; static method id : int ($x : int) { return $x; }\n%s}\n"


def emethod(name, e):
    return '  static method %s : void () { %s eval {\n my $_q = %s\n; my $_v = (object)$_q; VP->mark((compile_type_name $_q) . " " . (dump $_v)); }; VP->mark("e" . $@); VP->mark("" . $i . " " . $j . " " . $k . " " . $m . " " . $s . " " . $t . " " . $z . " " . $o->{n} . " " . $a->[0] . " " . $a->[1]); }\n' % (name, EDECL, e)


def expressions(c, rng):
    rows = []
    for p, os_ in BIN.items():       # every pair of binary operators, and each with the unary ones
        for o in os_:
            for q in rng.sample(list(LEVEL), c.q(6, len(LEVEL))):
                l = lambda op: X("$s" if op in ("eq", "ne", "cmp", "lt", "gt", "le", "ge") else rng.choice(["$i", "$j", "$k", "$m"]))
                if q != "." and o != ".": rows.append([l(o), TOK("bin", o, p), l(o), TOK("bin", q, LEVEL[q]), l(q)])
            for u in rng.sample(["-", "+", "~", "!", "(long)", "(byte)"], 2): rows.append([TOK("pre", u, 11), X("$i"), TOK("bin", o, p), X("$j")])
    for _ in range(c.q(450, 6000)): rows.append(expr_tree(rng, rng.choice([2, 3, 3, 4]), rng.choice("iiiis")))
    rows = [r for r in rows if not any(a["k"] == "post" and a["s"].startswith(" is") and z["s"] == "*" for a, z in zip(r, r[1:]))]    # T * is a type
    t = c.tlc("Expr", 'SPECIFICATION Spec\nINVARIANT Law\nCONSTANT RowFile = "rows.json"\nCHECK_DEADLOCK FALSE\n', files={"rows.json": json.dumps([{"ts": r} for r in rows])}, tag="expr", workers=1, timeout=c.q(200, 1800))
    want = [json.load(open(os.path.join(t["dir"], "out_%d.json" % (i + 1)))) for i in range(len(rows))]
    text = [expr_text(r, rng) for r in rows]
    one = {}
    for i, w in enumerate(want):
        one["Ea%d" % i] = EKLASS % ("Ea%d" % i, emethod("main", text[i]))
        if w["ok"]: one["Eb%d" % i] = EKLASS % ("Eb%d" % i, emethod("main", w["s"]))
    res = vp.compile_only(c, one, shared=dict(SHARED_E, VP="class VP { static method mark : void ($s : string) { } }"))
    run = []; nerr = 0
    if os.environ.get('DBG'): [print(repr(text[i]), '|', want[i]['s'], '|', (res['Ea%d'%i] or 'OK')[:150].replace(chr(10),' ')) for i in range(0, len(rows), 12)]
    for i, w in enumerate(want):
        a = res["Ea%d" % i]; c.cov["traces_validated_against_impl"] += 1
        if not w["ok"]:
            nerr += 1
            if a is None: c.violation("operators:nonassoc", "`%s` is accepted though its operators do not associate" % text[i], {"expr": text[i]})
            continue
        e = res["Eb%d" % i]
        if (a is None) != (e is None): c.violation("operators:compile", "`%s` %s but `%s` %s" % (text[i], "is rejected: %s" % a[:150] if a else "compiles", w["s"], "is rejected: %s" % e[:150] if e else "compiles"), {"expr": text[i]}); continue
        if a is None: run.append(i)
    c.log("operators: %d expressions, %d compile, %d must not associate" % (len(rows), len(run), nerr))
    groups = [run[k:k + 40] for k in range(0, len(run), 40)]
    cl = {}
    for n, g in enumerate(groups):
        for ab, src in (("a", text), ("b", [w["s"] for w in want])):
            nm = "Eg%d%s" % (n, ab)
            cl[nm] = EKLASS % (nm, "  static method main : void () {\n" + "".join('    VP->mark("\\x{01}%d"); &m%d();\n' % (i, i) for i in g) + "  }\n" + "".join(emethod("m%d" % i, src[i]) for i in g))
    out = vp.run_programs(c, cl, shared=SHARED_E, timeout=100)
    def parts(o):
        got = {}
        for l in o.lines:
            if l.startswith("\x01"): cur = got.setdefault(int(l[1:]), [])
            elif got and not re.match(r"  \w+->\w+ at ", l): cur.append(re.sub(r"0x[0-9a-f]+|\(0x.*?\)", "PTR", l.split("\n")[0]))
        return got
    for n, g in enumerate(groups):
        a, e = out["Eg%da" % n], out["Eg%db" % n]
        for o in (a, e):
            if o.compile_error is not None or o.crash or not o.ended: c.violation("operators:run", "%s" % (o.compile_error or o.crash or "did not end")[:300], {"group": [text[i] for i in g]}); break
        else:
            ga, ge = parts(a), parts(e)
            for i in g:
                if ga.get(i) != ge.get(i): c.violation("operators:value", "`%s` gives %r, but `%s` gives %r" % (text[i], ga.get(i), want[i]["s"], ge.get(i)), {"expr": text[i], "full": want[i]["s"]})
    if run: c.sample({"expression": text[run[-1]], "means": want[run[-1]]["s"]})

# ---------------------------------------------------------------- layout
SHARED_L = {"LexL": "class LexL { use Fn; use VP; static method at : void ($id : int, $line : int, $file : string) { VP->mark(\"\\x{01}\" . $id); VP->mark(\"\" . $line); VP->mark($file); } static method tx : void ($id : int, $s : string, $line : int = 0) { VP->mark(\"\\x{01}\" . $id); VP->mark(\"\" . $line); my $h = \"\"; for (my $i = 0; $i < length $s; $i++) { my $x = (int)$s->[$i] & 0xff; $h .= Fn->substr(\"0123456789abcdef\", $x >> 4, 1); $h .= Fn->substr(\"0123456789abcdef\", $x & 15, 1); } VP->mark($h); } }"}
HERE_NAMES = ["EOS", "E", "A_B", "pod", "cut", "x1"]


def layout(rng, name, n):
    """lines of a well-formed source; bad: it gets an error in a line of its own"""
    ls = []; cnt = [0]
    add = lambda k, t, n=0, v="": ls.append({"k": k, "n": n, "t": v, "text": t})
    noise = lambda: rng.choice(["", "# c", "#line 77", "=pod", "=head1 x", "=cutx", " =cut", "__END__", "}", "LexL->at(999, __LINE__, __FILE__);", "#file \"zz\"", "x", "{", "#", "\t", "EOSX", " EOS", "E ", "= cut", "class Q { }", "/* "])
    def junk(k, stop):
        for _ in range(k):
            t = noise()
            if t not in stop: add(kind_of(t), t, 0, t)
    def kind_of(t): return {"#line 77": "plain", "__END__": "end", "=pod": "pod", "=head1 x": "pod"}.get(t, "plain")
    def filler():
        r = rng.random()
        if r < .25: add("plain", rng.choice(["", "  ", "\t", "\f", " \t "]))
        elif r < .5: add("plain", rng.choice(["# c", "  # \"x", "#", "# }", "#x line 3", " # line 5", "# '", "#lin", "##line 9"]))
        elif r < .55: add("plain", '#lib "x"')
        elif r < .7:
            m = rng.choice([1, 2, 39, 100, 2147483, 5000, 7]); add("line", "#line%s%d" % (rng.choice([" ", "  ", "   "]), m), m)
        elif r < .95:
            add("pod", rng.choice(["=pod", "=head1", "=head2 Name", "=encoding utf8", "=x", "=over 2", "=A"])); junk(rng.randint(0, 4), ("",) if 0 else ())
            add("cut", "=cut")
        else: add("plain", "#comment \xe3\x81\x82")
    def stmt():
        r = rng.random(); cnt[0] += 1; i = cnt[0]
        if r < .45: add("at", rng.choice(["LexL->at(%d, __LINE__, __FILE__);", "\t{ LexL->at(%d, __LINE__, __FILE__); } # c", "LexL->at(%d, __LINE__, __FILE__);;", "if (1<2) { LexL->at(%d, __LINE__, __FILE__); }"]) % i, i)
        elif r < .62:
            nm = rng.choice(HERE_NAMES); add("here", "%sLexL->tx(%d, <<'%s');" % ("", i, nm), i, nm) if 0 else (add("here", "my $h%d = <<'%s';" % (i, nm), i, nm), None)
            junk(rng.randint(0, 4), (nm,)); add("close", nm, 0, nm); add("plain", "LexL->tx(%d, $h%d);" % (i, i))
        elif r < .8:
            add("open", 'LexL->tx(%d, %s' % (i, rng.choice(['"ab', '"', "q'ab"])), i); ls[-1]["n"] = i
            junk(rng.randint(0, 3), ("#file \"zz\"",)); q = "'" if "q'" in [l for l in ls if l["k"] == "open"][-1]["text"] else '"'
            add("shut", "zz%s, __LINE__);" % q)
        elif r < .9:
            add("plain", "LexL->at("); add("plain", "%d # c" % i); [filler_safe() for _ in range(rng.randint(0, 2))]; add("at", ", __LINE__, __FILE__", i); add("plain", ")"); add("plain", ";")
        else: add("at", "eval { die; }; LexL->at(%d, __LINE__, __FILE__);" % i, i)
    def filler_safe(): add("plain", rng.choice(["", "# c", "\t"]))
    if rng.random() < .15: add("plain", "#!/usr/bin/spvm")
    if rng.random() < .25: f = rng.choice(["/a/b.spvm", "x y.spvm", "Foo.spvm"]); add("file", '#file%s"%s"' % (rng.choice([" ", "  "]), f), 0, f)
    for _ in range(rng.randint(0, 2)): filler()
    add("plain", "class %s {" % name)
    for _ in range(rng.randint(0, 2)): filler()
    add("plain", "use LexL; use VP;")
    for _ in range(rng.randint(0, 2)): filler()
    add("plain", "static method main : void () {")
    for _ in range(n): (filler if rng.random() < .45 else stmt)()
    bad = None
    if rng.random() < .35: bad = len(ls); cnt[0] += 1; add("at", rng.choice(["my $bad : int = \"x\";", "Nothing->foo;", "my $bad = $undeclared;", "last;", "my $bad = 1 + undef;"]), 1000)
    add("plain", "}"); [filler() for _ in range(rng.randint(0, 2))]; add("plain", "}")
    if rng.random() < .4:
        [filler() for _ in range(rng.randint(0, 1))]; add("end", "__END__"); junk(rng.randint(0, 4), ())
    return ls, bad


def lines(c, rng):
    srcs = [layout(rng, "Ln%d" % i, rng.randint(1, 9)) for i in range(c.q(180, 3000))]
    path = lambda i: "Ln%d.spvm" % i
    rows = [{"file": "FILE", "ls": [{k: l[k] for k in "knt"} for l in ls]} for ls, _ in srcs]
    t = c.tlc("Lines", 'SPECIFICATION Spec\nINVARIANT Law\nCONSTANT RowFile = "rows.json"\nCHECK_DEADLOCK FALSE\n', files={"rows.json": json.dumps(rows)}, tag="lines", workers=1, timeout=c.q(200, 1800))
    want = [json.load(open(os.path.join(t["dir"], "out_%d.json" % (i + 1)))) for i in range(len(rows))]
    text = {i: "".join(l["text"] + "\n" for l in ls) for i, (ls, _) in enumerate(srcs)}
    okay = [i for i, (ls, b_) in enumerate(srcs) if b_ is None]; bad = [i for i, (ls, b_) in enumerate(srcs) if b_ is not None]
    out = vp.run_programs(c, {"Ln%d" % i: text[i] for i in okay}, shared=SHARED_L, timeout=100)
    for i in okay:
        o = out["Ln%d" % i]; ls = srcs[i][0]; c.cov["traces_validated_against_impl"] += 1
        exp = []
        for e in want[i]["ev"]:
            if e["from"] == 0: exp.append([str(e["id"]), str(e["line"]), e["file"]])
            elif e["line"] == 0: exp.append([str(e["id"]), "0", "".join(l["text"] + "\n" for l in ls[e["from"] - 1:e["to"]]).encode("latin-1").hex()])
            else:
                s = "\n".join(l["text"] for l in ls[e["from"] - 1:e["to"]]); s = re.split(r"[\"']", s[s.index(",") + 1:], 1)[1] if "q'" not in s.split("\n")[0] else s.split("q'", 1)[1]
                exp.append([str(e["id"]), str(e["line"]), re.split(r"[\"'], __LINE__", s)[0].encode("latin-1").hex()])
        got = []
        for l in o.lines:
            if l.startswith("\x01"): got.append([l[1:]])
            elif got: got[-1].append("FILE" if l.endswith("Ln%d.spvm" % i) else l)
        why = "did not compile: %s" % o.compile_error[:250] if o.compile_error is not None else "crashed: %s" % o.crash if o.crash else "did not end" if not o.ended else None
        if not why and got != exp: k = next((k for k, (a, z) in enumerate(zip(got + [0] * 99, exp + [1])) if a != z)); why = "event %d is %r, specified %r" % (k, got[k:k + 1], exp[k:k + 1])
        if why: c.violation("layout", "%s\n%s" % (why, text[i]), {"source": text[i]})
    res = vp.compile_only(c, {"Ln%d" % i: text[i] for i in bad}, shared=dict(SHARED_L, VP="class VP { static method mark : void ($s : string) { } }"))
    for i in bad:
        e = res["Ln%d" % i]; w = [v for v in want[i]["ev"] if v["id"] == 1000]; c.cov["traces_validated_against_impl"] += 1
        if not w: continue
        if e is None: c.violation("layout:accepted", "a source with an error in it compiles\n" + text[i], {"source": text[i]}); continue
        at = re.findall(r"at (\S.*?) line (\d+)", e)
        if not at or (int(at[0][1]) != w[0]["line"]) or not (at[0][0].endswith("Ln%d.spvm" % i) if w[0]["file"] == "FILE" else at[0][0] == w[0]["file"]): c.violation("layout:error-line", "the error is reported at %r, it is at %s line %d: %s\n%s" % (at[:1], w[0]["file"], w[0]["line"], e[:150], text[i]), {"source": text[i]})
    c.log("layout: %d sources run, %d with an error" % (len(okay), len(bad)))

# ---------------------------------------------------------------- every text is accepted or rejected
TOKENS = [b"{", b"}", b"(", b")", b"[", b"]", b";", b",", b"->", b"=>", b"$", b"$x", b"@", b"&", b"\\", b'"', b"'", b"q'", b"\"$", b"\"${", b"\"$x->", b"\"\\x{", b"\"\\N{U+", b"'\\", b"<<'E';\n", b"=pod\n", b"=cut\n", b"__END__\n", b"#line 3\n", b"#line ", b"#file \"", b"#lib \"", b"class", b"method", b"static", b"has", b"our", b"my", b"new", b"isa", b"if", b"else", b"for", b"while", b"switch", b"case 1:", b"default:", b"return", b"die", b"eval", b"sub", b"undef", b"1", b"1.5e", b"0x", b"0b", b"1L", b"99999999999", b"interface", b"enum", b"allow", b"use", b"require", b"extends", b"alias", b"int", b"string", b"object", b"int*", b"int[]", b"void", b"...", b"mutable", b"type_name", b"dump", b"copy", b"can", b"SUPER::", b"Q::", b"::", b"__", b"\0", b"\xff", b"\n", b" ", b"INIT", b"|", b"||", b".", b"..", b"+", b"++", b"-", b"<", b">", b"<<=", b"%", b"!", b"~", b"=", b"==", b"^", b"*", b"/", b":", b"method : void () {", b"[has x : int = 1] method : void () { }", b"{}", b"[1, 2]", b"new int[3]", b"for my $e (@$a) {", b"weaken $x->{y}", b"isweak", b"new_string_len", b"__CLASS__", b"__LINE__", b"args_width", b"print", b"warn", b"true", b"basic_type_id", b"native", b"precompile", b"ro", b"rw", b"public", b"private", b"protected", b"required", b"version \"1\";", b"break;", b"next;", b"last;"]


def mutate(rng, src, others):
    s = bytearray(src)
    for _ in range(rng.choice([1, 1, 1, 2, 3, 5])):
        k = rng.random(); i = rng.randrange(len(s) + 1) if s else 0
        toks = [m.span() for m in re.finditer(rb"\w+|\s+|[^\w\s]", bytes(s))]
        if k < .18: del s[i:]
        elif k < .34 and toks: a, z = rng.choice(toks); del s[a:z]
        elif k < .62: s[i:i] = rng.choice(TOKENS)
        elif k < .78 and toks: a, z = rng.choice(toks); s[a:z] = rng.choice(TOKENS)
        elif k < .86 and toks: a = rng.choice(toks)[0]; z = min(len(s), a + rng.randint(1, 60)); s[i:i] = s[a:z]
        elif k < .92 and s: s[min(i, len(s) - 1)] = rng.randrange(256)
        else: o = rng.choice(others); a = rng.randrange(len(o)); s[i:i] = o[a:a + rng.randint(1, 40)]
    return bytes(s)


def total(c, rng):
    """the compiler is a total function of the text: accepted without a message, or rejected with one; in a build with the address sanitizer"""
    src = os.path.join(c.build_dir, "lib/SPVM/Builder/src"); inc = os.path.join(c.build_dir, "lib/SPVM/Builder/include"); d = c.path("asan"); os.makedirs(d)
    cmd = "ls %s/*.c | xargs -P8 -I{} gcc -c -O1 -g -w -fsanitize=address -I %s {} && gcc -w -g -fsanitize=address -I %s %s *.o -lm -lpthread -o total" % (src, inc, inc, os.path.join(vp.VERIF, "lib/total.c"))
    r = vp.run(["bash", "-c", cmd], cwd=d, timeout=400, mem_gb=0)
    if r.rc: raise vp.ToolError("address sanitizer build: %s" % r.err[-500:])
    lib = os.path.join(c.build_dir, "lib/SPVM"); vp.write_classes(d, dict(SHARED, **SHARED_E, **SHARED_L, VP="class VP { static method mark : void ($s : string) { } }")); base = []
    for f in ("Fn", "List", "Hash", "Sort", "Array", "Format", "StringBuffer", "Comparator", "Native/MethodCall", "Error", "Address", "Int", "Cloner", "Point3D", "Sync/Mutex"):
        p = os.path.join(lib, f + ".spvm")
        if os.path.exists(p): t = open(p, "rb").read(); n = b(f.replace("/", "::")); base += [re.sub(rb"(?<![\w:])" + re.escape(n) + rb"\b(?!::)", b"Q", t)] * (len(t) < 20000)
    for i in range(12): base.append("".join(l["text"] + "\n" for l in layout(rng, "Q", 8)[0]).encode("latin-1"))
    for i in range(12): base.append(b(EKLASS % ("Q", emethod("main", expr_text(expr_tree(rng, 3), rng)))))
    rows = [x for x in str_rows(rng, 60)[-60:] if x["t"]]
    for i in range(12): base.append(b"class Q { use Fn; use LexO; our $C : string; static method main : void () { " + b(SETUP) + b" my $x = " + b"; $x = ".join(source(rng.choice(rows)) for _ in range(5)) + b"; } }")
    base.append(b"class Q extends Point : public { version \"1.0\"; use Point as P; allow Fn; alias Point as Z; interface Cloneable; enum { A = 1, B, C }\n our $X : rw int; has x : ro protected int; INIT { $X = 3; } method m : int ($a : int, $b : double = 1, $c : Q of Point = undef) { my $f = [has k : int = 3, $a : int] method : void () { my $z = $self->{k}; }; my $l = [1, 2, 3]; for my $e (@$l) { switch ($e) { case 1: { break; } default: { die Error \"x\"; } } } if (require Foo) { } else { } my $r = \\$a; $$r++; my $h = {a => 1, b => \"x\"}; unless ($h isa object[]) { return -1; } my $m = new int[3][]; return $self->SUPER::x . (string)$a; } }")
    if os.environ.get("DBG"): [open("/tmp/asb/b%d" % i, "wb").write(b"%d\n" % len(t) + t) for i, t in enumerate(base)]
    srcs = [b"", b"class", b"\0", b"#", b"="] + [t[:k] for t in base for k in sorted(rng.sample(range(len(t)), min(len(t), c.q(4, 200))))]
    while len(srcs) < int(os.environ.get("TOT", c.q(900, 40000))): srcs.append(mutate(rng, rng.choice(base), base))
    shards = [srcs[k::8] for k in range(8)]
    def one(k):
        return vp.run(["./total", "log%d" % k, os.path.join(d, "SPVM"), lib], cwd=d, env=vp.clean_env({"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:allocator_may_return_null=1"}), input=b"".join(b"%d\n" % len(s) + s for s in shards[k]), timeout=c.q(300, 3000), mem_gb=0)
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, range(8)))
    acc = rej = 0
    for k, r in enumerate(rs):
        o = r.out.decode("latin-1").split("\n")[:-1]
        if len(o) != len(shards[k]): raise vp.ToolError("the compiling process ended after %d of %d sources: %s" % (len(o), len(shards[k]), r.err[-300:]))
        for s, l in zip(shards[k], o):
            c.cov["traces_validated_against_impl"] += 1
            if l == "A": acc += 1
            elif l.startswith("R ") and l != "R 0": rej += 1
            else:
                m = re.search(r"ERROR: AddressSanitizer: (\S+)", l); f = re.findall(r"#\d+ \S+ in (\w+)", l)
                why = "%s in %s" % (m.group(1), " < ".join([x for x in f if x.startswith("SPVM")][:3])) if m else "no answer within 20 s" if l == "T" else "rejected without a message" if l == "R 0" else l[:300]
                c.violation("total:" + re.sub(r"\W+", "_", why)[:60], "%s for\n%s" % (why, s.decode("latin-1")[-300:]), {"source": s.decode("latin-1"), "outcome": l})
    c.log("every text: %d sources, %d accepted, %d rejected" % (len(srcs), acc, rej))


def check(c):
    rng = random.Random("c25/%d" % c.seed)
    c.build(libs=vp.CORE_LIBS)
    if os.environ.get('C25ONLY', 'l') == 'l': literals(c, rng)
    if os.environ.get('C25ONLY', 'x') == 'x': expressions(c, rng)
    if os.environ.get('C25ONLY', 'y') == 'y': lines(c, rng)
    if os.environ.get('C25ONLY', 'z') == 'z': total(c, rng)


if __name__ == "__main__": vp.main("C25", check)
