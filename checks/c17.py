"""C17: calls of the functions of Fn and Array with enumerated and random arguments; FnSpec.tla and ArraySpec.tla give the
results, the real functions are called, their results and their arguments after the call are compared."""
import json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp

INTMAX, INTMIN = 2147483647, -2147483648
ALPH = [0x61, 0x62, 0x2c, 0x41, 0x5a, 0x20, 0x0a, 0x0d, 0x00, 0x7f, 0x80, 0xff, 0x30, 0x7b, 0x40, 0x5b, 0x60, 0x0b]
CPS = [0, 0x41, 0x61, 0x7a, 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0x3042, 0x3044, 0x3046, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0xd7ff, 0xe000]
U = [-1]


def rs(rng, lo=0, hi=8, alph=None):
    alph = alph or rng.choice([[0x61, 0x62], [0x61, 0x62, 0x2c], ALPH, ALPH])
    return [rng.choice(alph) for _ in range(rng.randint(lo, hi))]


def ru(rng):
    """A string of UTF-8, now and then broken."""
    b = []
    for _ in range(rng.randint(0, 5)):
        b += list(chr(rng.choice(CPS)).encode("utf-8", "surrogatepass"))
    if rng.random() < .3:
        k = rng.random()
        if k < .4 and b: b.pop(rng.randrange(len(b)))
        elif k < .8: b.insert(rng.randint(0, len(b)), rng.choice([0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xe0, 0xed, 0xf0, 0xf4, 0xf5, 0xff]))
        else: b += rng.choice([[0xed, 0xa0, 0x80], [0xe0, 0x9f, 0xbf], [0xf0, 0x8f, 0xbf, 0xbf], [0xf4, 0x90, 0x80, 0x80], [0xc0, 0x80], [0xe3, 0x81], [0xf0, 0x9f, 0x98]])
    return b


def off(rng, n):
    return rng.choice([0, 0, 1, n - 1, n, n + 1, rng.randint(0, max(n, 1)), rng.randint(0, max(n, 1)), -1] + [INTMAX, INTMIN] * (rng.random() < .2))


def ln(rng, n, o=0, neg=True):
    r = n - o if 0 <= o <= n else 1
    return rng.choice([0, 1, r, r, r + 1, rng.randint(0, max(r, 0)), rng.randint(0, max(r, 0))] + ([-1, -1, -5] if neg else [-1]) + [INTMAX, INTMAX - 1] * (rng.random() < .2))


def num_string(rng):
    base = rng.choice([2, 8, 10, 10, 16, 16, 3, 0, 7])
    v = rng.choice([0, 1, 7, 8, 9, 10, 255, INTMAX, -INTMIN, INTMAX + 1, -INTMIN + 1, 2**63 - 1, 2**63, 2**63 + 1, 10**19, 10**25, rng.randrange(2**31), rng.randrange(2**63), rng.randrange(2**66)])
    b = base if base in (2, 8, 10, 16) else 10
    d = ""
    x = v
    while x: d = "0123456789abcdef"[x % b] + d; x //= b
    d = d or "0"
    if rng.random() < .3: d = d.upper()
    if rng.random() < .2: d = "0" * rng.randint(1, 30) + d
    if rng.random() < .15: d = rng.choice(["0x", "0X", "0b", "0"]) + d
    d = rng.choice(["", "", "-", "-", "+", "--", "- "]) + d
    d = rng.choice(["", "", "", " ", "\t\n\v\f\r "]) + d
    k = rng.random()
    if k < .2: d = rng.choice(["", " ", "-", "+", "0x", "x", d + " ", d + "\0", d + "\0" + "5", "\0" + d, d + "g", d + ".0", d + "_", d + "8", d + "2", d + "\x80"])
    return [ord(ch) for ch in d], base


def row(rng, f):
    s, n, l = [], [], []
    if f in ("lc", "uc", "lcfirst", "ucfirst", "trim", "chomp", "chompr", "reverse", "reverse_inplace", "copy", "shorten_null_char"):
        a = rs(rng)
        if f == "trim": a = [rng.choice([9, 10, 11, 12, 13, 32]) for _ in range(rng.randint(0, 3))] + a + [rng.choice([9, 10, 11, 12, 13, 32, 0]) for _ in range(rng.randint(0, 3))]
        if f in ("chomp", "chompr"): a = a + rng.choice([[], [13, 10], [10], [13], [10, 13], [13, 13, 10], [10, 10]])
        s = [a]
    elif f in ("index", "rindex", "contains"):
        al = rng.choice([[0x61, 0x62], [0x61], [0x61, 0x62, 0x00], [0x61, 0xff]])
        a, b = rs(rng, 0, 8, al), rs(rng, 0, 3, al)
        s = [a, b]
        x, y = off(rng, len(a)), rng.choice([-1, -1, len(a), len(a) - 1, rng.randint(0, len(a)), len(a) + 1, INTMAX, INTMIN])
        n = [y, x] if f == "rindex" else [x, y]
    elif f in ("substr", "substr_replace"):
        a = rs(rng); x = off(rng, len(a)); s = [a] + ([rs(rng, 0, 4)] if f == "substr_replace" else []); n = [x, ln(rng, len(a), x)]
    elif f == "split":
        sep = rng.choice([[0x2c], [0x2c], [0x2c, 0x2c], [0x61, 0x62], [0x61, 0x61], [0x00], [], [0xff, 0x61]])
        al = sep * 2 + [0x78] if sep else [0x78]
        a = rs(rng, 0, 9, al); s = [sep, a]; n = [rng.choice([0, 0, -1, -1, 1, 2, 3, 5, INTMAX, INTMIN])]
    elif f == "join":
        s = [rs(rng, 0, 2)]; l = rng.choice([[], [[-2]], [rs(rng, 0, 3) for _ in range(rng.randint(1, 5))], [rng.choice([U, rs(rng, 0, 3)]) for _ in range(3)]])
    elif f == "repeat":
        s = [rs(rng, 0, 4)]; n = [rng.choice([0, 1, 2, 3, 7, -1, INTMIN])]
    elif f in ("equals_range", "memcmp", "memcpy", "memmove", "memmove_self"):
        al = rng.choice([[0x61, 0x62], [0x61], [0x61, 0x80], ALPH])
        a, b = rs(rng, 0, 8, al), rs(rng, 0, 8, al)
        if f in ("equals_range", "memcmp") and rng.random() < .5: b = list(a)
        if f == "memmove_self": a = rs(rng, 0, 8, list(range(0x61, 0x7b))); b = a
        x, y = off(rng, len(a)), off(rng, len(b))
        if rng.random() < .6: x, y = rng.randint(0, len(a)), rng.randint(0, len(b))
        s = [a] if f == "memmove_self" else [a, b]; n = [x, y, rng.choice([ln(rng, len(a), x, False), ln(rng, len(b), y, False), max(0, min(len(a) - x, len(b) - y))])]
    elif f in ("memset_char", "init_string"):
        a = rs(rng); x = off(rng, len(a)); s = [a]; n = [rng.choice([0, 0x41, 0x7f, 0x80, 0xff, -1, 0x141]), x, ln(rng, len(a), x)]
        if f == "init_string" and n[1] < -1: n[1] = -1
    elif f == "replace_chars":
        s = [rs(rng)]; n = [rng.choice([0x61, 0x62, 0, -1, -128, 0x7f, 10]), rng.choice([0x78, 0, 0xff, -1, 0x80])]
    elif f == "shorten":
        a = rs(rng); s = [a]; n = [rng.choice([0, 1, len(a), len(a) - 1, len(a) + 1, -1, INTMAX, INTMIN])]
    elif f == "hex":
        s = [[ord(ch) for ch in "".join(rng.choice("0123456789abcdefABCDEF") for _ in range(rng.randint(0, 9)))]]
        if rng.random() < .2: s = [s[0] + [rng.choice([0x67, 0x47, 0x20, 0x2d, 0x00, 0x2f, 0x3a, 0x40, 0x60, 0xff])]]
        if rng.random() < .2: s = [[ord(ch) for ch in rng.choice(["80000000", "7fffffff", "FFFFFFFF", "7FFF", "8000", "ffff"])]]
    elif f in ("get_code_point", "look_code_point"):
        a = ru(rng); s = [a]; n = [off(rng, len(a))]
    elif f in ("ord", "to_code_points", "to_utf8_chars", "utf8_length"):
        s = [ru(rng)]
    elif f == "utf8_substr":
        s = [ru(rng)]; x = rng.choice([0, 1, 2, 3, 5, -1, INTMAX]); n = [x, rng.choice([-1, 0, 1, 2, 3, 5, INTMAX])]
    elif f == "tr":
        al = [0x61, 0x62, 0x63, 0x7a, 0x3042, 0x3043, 0x3044, 0x1f600, 0x2d]
        a = sum((list(chr(rng.choice(al)).encode()) for _ in range(rng.randint(0, 6))), [])
        if rng.random() < .1: a = ru(rng)
        def rg():
            p, q = sorted((rng.choice(al), rng.choice(al)))
            r = rng.choice(["%c-%c" % (p, q)] * 5 + [chr(p)] * 2 + ["%c-%c" % (q, p), "", "%c-" % p, "%c%c" % (p, q), "%c-%c%c" % (p, q, q), "%c-%c-" % (p, q), "%c+%c" % (p, q)])
            r = list(r.encode())
            if rng.random() < .06: r.append(0x80)
            return r
        p, q = rg(), rg()
        if rng.random() < .1: q = p
        elif rng.random() < .75:      # ranges of the same length, whose ends occur in the string
            x, w = rng.choice(al), rng.choice([0, 1, 1, 2, 3, 25]); y = rng.choice([0x41, 0x62, 0x7e, 0x7f, 0xe9, 0x3041, 0x3042, 0x7fe, 0xfffe, 0x1f5ff, 0xd7e5])
            p, q = (list((chr(k) if not w and rng.random() < .5 else "%c-%c" % (k, k + w)).encode()) for k in (x, y))
            a = sum((list(chr(rng.choice([x, x + w, x + w + 1, x - 1, x + w // 2] + al[:2])).encode()) for _ in range(rng.randint(1, 7))), [])
        s = [a, p, q]
    elif f == "change_endian":
        a = rs(rng); x = off(rng, len(a)); s = [a]; n = [rng.choice([1, 2, 3, 4, 8, 0, -1, len(a), len(a) - x if 0 <= x <= len(a) else 2, INTMAX]), x]
    elif f in ("to_int", "to_long"):
        a, b = num_string(rng); s = [a]; n = [b]
    elif f == "classes" or f in ("to_lower", "to_upper"):
        n = [rng.choice(list(range(-2, 130)) + [255, 256, 0x141, 0x161, INTMAX, INTMIN])]
    elif f == "abs":
        n = [rng.choice([0, 1, -1, INTMAX, INTMIN + 1, 5, -5])]
    elif f == "pow":
        n = rng.choice([[0, 0], [0, 1], [0, 5], [2, 30], [-2, 31], [2, 0], [7, 0], [-3, 3], [-1, 5], [1, 1000], [5, -1], [0, -1], [46340, 2], [3, 19]])
    elif f == "chr":
        n = [rng.choice(CPS + [-1, 0xd800, 0xdfff, 0x110000, INTMAX, INTMIN, 0xdc00])]
    if s and f not in ("join",) and rng.random() < .04:
        s[rng.randrange(len(s))] = U
    elif f == "join" and rng.random() < .05:
        s = [U]
    return {"f": f, "s": s, "n": n, "l": l}


SF = ["lc", "uc", "lcfirst", "ucfirst", "trim", "chomp", "chompr", "reverse", "reverse_inplace", "copy", "shorten_null_char", "index", "index", "rindex", "rindex", "contains",
      "substr", "substr", "substr_replace", "split", "split", "join", "repeat", "equals_range", "memcmp", "memcpy", "memmove", "memmove_self", "memset_char", "init_string",
      "replace_chars", "shorten", "hex", "get_code_point", "look_code_point", "ord", "to_code_points", "to_utf8_chars", "utf8_length", "utf8_substr", "tr", "tr", "change_endian",
      "to_int", "to_int", "to_long", "to_long", "chr", "abs", "pow"]


def lit(b):
    return "undef" if b == U else '"' + "".join("\\x{%02x}" % x if x < 32 or x > 126 or x in (34, 92, 36, 64) else chr(x) for x in b) + '"'


def I(x):
    return str(x)


def call(r, rng):
    """(SPVM expression, kind of the result)"""
    f, n = r["f"], [I(x) for x in r["n"]]
    a = ["$s%d" % i for i in range(len(r["s"]))]
    if f == "classes":
        return None, "classes"
    if f in ("lc", "uc", "lcfirst", "ucfirst", "trim", "chompr"): return "Fn->%s(%s)" % (f, a[0]), "s"
    if f == "copy": return rng.choice(["(string)Fn->copy(%s)", "Fn->copy_string(%s)", "copy %s"]) % a[0] if r["s"][0] != U else "FS->bad", "s"
    if f == "reverse": return "(string)Fn->reverse(%s)" % a[0], "s"
    if f in ("chomp", "shorten_null_char", "reverse_inplace"): return "Fn->%s(%s)" % (f, a[0]), "v"
    if f in ("index", "rindex", "contains"):
        d = [INTMAX, 0] if f == "rindex" else [0, -1]
        args = a + n
        if r["n"] == ([-1, 0] if f == "rindex" else [0, -1]) and rng.random() < .5: args = a
        elif (r["n"][1] == (0 if f == "rindex" else -1)) and rng.random() < .5: args = a + n[:1]
        return "Fn->%s(%s)" % (f, ", ".join(args)), "i"
    if f == "substr":
        return "Fn->substr(%s)" % ", ".join([a[0]] + (n[:1] if r["n"][1] == -1 and rng.random() < .5 else n)), "s"
    if f == "substr_replace": return "Fn->substr(%s, %s, %s, %s)" % (a[0], n[0], n[1], a[1]), "s"
    if f == "split": return "Fn->split(%s)" % ", ".join(a + (n if r["n"] != [0] or rng.random() < .5 else [])), "S"
    if f == "join": return "Fn->join(%s, %s)" % (a[0], "$l"), "s"
    if f == "repeat": return "Fn->repeat(%s, %s)" % (a[0], n[0]), "s"
    if f == "equals_range": return "Fn->equals_string_range(%s, %s, %s, %s, %s)" % (a[0], n[0], a[1], n[1], n[2]), "i"
    if f == "memcmp": return "Fn->memcmp(%s, %s, %s, %s, %s)" % (a[0], n[0], a[1], n[1], n[2]), "sign"
    if f in ("memcpy", "memmove"): return "Fn->%s(%s, %s, %s, %s, %s)" % (f, a[0], n[0], a[1], n[1], n[2]), "v"
    if f == "memmove_self": return "Fn->memmove(%s, %s, %s, %s, %s)" % (a[0], n[0], a[0], n[1], n[2]), "v"
    if f in ("memset_char", "init_string"): return "Fn->%s(%s, %s, %s, %s)" % (f, a[0], n[0], n[1], n[2]), "v"
    if f == "replace_chars": return "Fn->replace_chars(%s, %s, %s)" % (a[0], n[0], n[1]), "v"
    if f == "shorten": return "Fn->shorten(%s, %s)" % (a[0], n[0]), "v"
    if f in ("hex", "ord", "utf8_length"): return "Fn->%s(%s)" % (f, a[0]), "i"
    if f in ("get_code_point", "look_code_point"): return "Fn->%s(%s, \\$o)" % (f, a[0]), "io"
    if f == "to_code_points": return "Fn->to_code_points(%s)" % a[0], "I"
    if f == "to_utf8_chars": return "Fn->to_utf8_chars(%s)" % a[0], "S"
    if f == "utf8_substr": return "Fn->utf8_substr(%s)" % ", ".join([a[0]] + (n[:1] if r["n"][1] == -1 and rng.random() < .5 else n)), "s"
    if f == "tr": return "Fn->tr(%s)" % ", ".join(a), "s"
    if f == "change_endian": return rng.choice(["Fn->change_endian(%s)", "Fn->big_endian_to_system_endian(%s)", "Fn->system_endian_to_big_endian(%s)"]) % ", ".join([a[0]] + (n[:1] if r["n"][1] == 0 and rng.random() < .5 else n)), "v"
    if f in ("to_int", "to_long"): return ("Fn->%s(%s)" % (f, a[0]) if r["n"] == [10] and rng.random() < .5 else "Fn->%s_with_base(%s, %s)" % (f, a[0], n[0])), "l"
    if f == "chr": return "Fn->chr(%s)" % n[0], "s"
    if f == "abs": return rng.choice(["Fn->abs(%s)", "Fn->labs(%s)"]) % n[0], "l"
    if f == "pow": return rng.choice(["Fn->powi(%s, %s)", "Fn->powl(%s, %s)"]) % tuple(n), "l"
    if f in ("to_lower", "to_upper"): return "Fn->%s(%s)" % (f, n[0]), "i"
    raise KeyError(f)


FS = """class FS {
  use Fn;
  static method m : mutable string ($s : string) { return (mutable string)copy $s; }
  static method bad : string () { die "undef"; return undef; }
  static method s : string ($s : string) {
    unless ($s) { return "u"; }
    my $h = "0123456789abcdef"; my $n = length $s; my $r = (mutable string)new_string_len(2 * $n);
    for (my $i = 0; $i < $n; $i++) { my $c = (int)$s->[$i] & 255; $r->[2*$i] = $h->[$c >> 4]; $r->[2*$i+1] = $h->[$c & 15]; }
    return $r;
  }
  static method S : string ($a : string[]) {
    my $r = "["; for (my $i = 0; $i < @$a; $i++) { if ($i) { $r .= ","; } $r .= &s($a->[$i]); }
    return $r . "]";
  }
  static method I : string ($a : int[]) {
    my $r = "["; for (my $i = 0; $i < @$a; $i++) { if ($i) { $r .= ","; } $r .= $a->[$i]; }
    return $r . "]";
  }
  static method L : string ($a : long) { return "$a"; }
  static method c : string ($c : int) {
    my $r = ""; $r .= Fn->is_alnum($c); $r .= Fn->is_alpha($c); $r .= Fn->is_blank($c); $r .= Fn->is_cntrl($c); $r .= Fn->is_digit($c); $r .= Fn->is_graph($c);
    $r .= Fn->is_hex_digit($c); $r .= Fn->is_lower($c); $r .= Fn->is_perl_space($c); $r .= Fn->is_perl_word($c); $r .= Fn->is_print($c); $r .= Fn->is_punct($c);
    $r .= Fn->is_space($c); $r .= Fn->is_upper($c); $r .= Fn->is_xdigit($c);
    return $r;
  }
}
"""


def stmts(r, rng):
    out = []
    for i, x in enumerate(r["s"]):
        k = rng.random()              # the same string made in different ways
        if x != U and k < .25:
            y = [rng.choice([0x39, 0x31, 0x61, 0x0a, 0x20, 0x2c, 0xe3, 0x80, 0x66]) for _ in range(rng.randint(1, 4))]
            out.append("my $s%d = FS->m(%s); Fn->shorten($s%d, %d);" % (i, lit(x + y), i, len(x)))
        elif x != U and k < .4:
            j = rng.randint(0, len(x))
            out.append("my $s%d = (mutable string)(%s . %s);" % (i, lit(x[:j]), lit(x[j:])))
        elif x != U and k < .5:
            out.append("my $s%d = (mutable string)(string)(byte[])FS->m(%s);" % (i, lit(x)))
        else:
            out.append("my $s%d = FS->m(%s);" % (i, lit(x)))
    if r["f"] == "classes":
        return "{ say FS->c(%s) . \"|\"; }" % I(r["n"][0])
    e, k = call(r, rng)
    pre = ""
    if k == "io": out.append("my $o = %s;" % I(r["n"][0]))
    if r["f"] == "join":
        if r["l"] == [[-2]]: out.append("my $l = (string[])undef;")
        else:
            out.append("my $l = new string[%d];" % len(r["l"]))
            out += ["$l->[%d] = %s;" % (i, lit(x)) for i, x in enumerate(r["l"])]
    out.append('my $r = "x";')
    get = {"s": "$r = FS->s(%s);", "v": '%s; $r = "v";', "i": "$r = FS->L(%s);", "l": "$r = FS->L(%s);", "sign": 'my $q = %s; $r = $q < 0 ? "-1" : "1";',
           "S": "$r = FS->S(%s);", "I": "$r = FS->I(%s);", "io": '$r = FS->L(%s) . ",$o";'}[k]
    if k == "sign": get = 'my $q = %s; if ($q < 0) { $r = "-1"; } elsif ($q) { $r = "1"; } else { $r = "0"; }'
    out.append("eval { %s };" % (get % e))
    if k == "io": out.append('if ($r eq "x" && $o != %s) { $r = "x$o"; }' % I(r["n"][0]))
    out.append("say $r . \"|\"" + "".join(" . FS->s($s%d) . \"|\"" % i for i in range(len(r["s"]))) + ";")
    return "{ " + " ".join(out) + " }"


def hexs(x):
    return "u" if x == U else "".join("%02x" % b for b in x)


def want(r, e, k):
    v = e["v"]
    if e["ok"] == 0: h = "x"
    elif k == "s": h = hexs(v)
    elif k == "v": h = "v"
    elif k in ("i", "sign"): h = str(v)
    elif k == "l": h = ("-" if v["neg"] else "") + "".join(str(d) for d in reversed(v["ds"])) if isinstance(v, dict) else str(v)
    elif k == "S": h = "[" + ",".join(hexs(x) for x in v) + "]"
    elif k == "I": h = "[" + ",".join(str(x) for x in v) + "]"
    elif k == "io": h = "%d,%d" % tuple(v)
    elif k == "classes": h = "".join(str(x) for x in v)
    return h + "|" + "".join(hexs(x) + "|" for x in e["s"])


def strings(c):
    rng = random.Random("c17/%d" % c.seed)
    rows = [row(rng, f) for f in SF for _ in range(c.q(90, 1500))]
    rows += [{"f": "classes", "s": [], "n": [x], "l": []} for x in list(range(-2, 260)) + [0x141, 0x161, INTMAX, INTMIN]]
    rows += [{"f": f, "s": [], "n": [x], "l": []} for f in ("to_lower", "to_upper") for x in range(-2, 260)]
    return rows, "FnSpec", stmts, (lambda r, e: want(r, e, call(r, random.Random(1))[1])), {"FS": FS}, "use Fn; use FS;", lambda r: r["f"]


def run(c, part, G=40):
    rows, spec, st, wanted, shared, uses, fam = part
    r = c.tlc(spec, "CONSTANT RowFile = \"rows.json\"\nINIT Init\nNEXT Next\nINVARIANT LawsOnce\nCHECK_DEADLOCK FALSE\n", files={"rows.json": json.dumps(rows)}, timeout=c.q(300, 3000), heap="8g")
    outs = [json.load(open(os.path.join(r["dir"], "out_%d.json" % (i + 1)))) for i in range(len(rows))]
    order = list(range(len(rows))); random.Random(c.seed).shuffle(order)
    groups = [order[g:g + G] for g in range(0, len(order), G)]
    progs = {}
    for g, ix in enumerate(groups):
        rng = random.Random("c17r/%s/%d/%d" % (spec, c.seed, g)); name = "Q%s%d" % (spec, g)
        body = ["  static method m%d : void () { %s }" % (j, st(rows[i], rng)) for j, i in enumerate(ix)]
        progs[name] = "class %s {\n  %s\n%s\n  static method main : void () { %s eval { }; }\n}\n" % (name, uses, "\n".join(body), " ".join("&m%d;" % j for j in range(len(ix))))
    n = 0
    sample = set(random.Random("j%d" % c.seed).sample(sorted(progs), c.q(min(24, len(progs)), len(progs) // 4)))
    for jit in (0, 1):
        ps = progs if not jit else {k + "J": v.replace("class %s {" % k, "class %sJ : precompile {" % k).replace("&m", "&m") for k, v in progs.items() if k in sample}
        out = vp.run_programs(c, ps, shared=shared, mem=not jit, timeout=c.q(200, 900), jit=bool(jit))
        for g, ix in enumerate(groups):
            name = "Q%s%d" % (spec, g) + ("J" if jit else "")
            if name not in ps: continue
            o = out[name]
            rep = {"source": ps[name], "classes": shared}
            if o.crash or o.exc is not None or o.compile_error or o.mem or len(o.lines) != len(ix):
                c.violation("%s program" % spec, "%s: %s" % (name, o.crash or o.exc or o.compile_error or "memory %s, %d lines of %d" % (o.mem, len(o.lines), len(ix))), rep); continue
            for i, l in zip(ix, o.lines):
                if outs[i]["ok"] == 2: continue
                w = wanted(rows[i], outs[i])
                if w != l and rows[i]["f"] == "shuffle" and bag(w) == bag(l): w = l
                if w != l and rows[i]["f"] == "classes" and l == w[:2] + ("1" if rows[i]["n"][0] >= 32 or rows[i]["n"][0] <= 9 else "0") + w[3:]:
                    c.violation("Fn->is_blank takes every code point up to 9 or from 32 on as blank", "%s: specified %s, got %s" % (json.dumps(rows[i]), w, l), dict(rep, row=rows[i]))
                elif w != l:
                    c.violation("%s %s" % (spec, fam(rows[i])), "%s%s: specified %s, got %s" % (json.dumps(rows[i]), " (precompiled)" if jit else "", w, l), dict(rep, row=rows[i]))
                else:
                    n += 1
    c.cov["traces_validated_against_impl"] += n
    c.sample({"row": rows[0], "specified": outs[0]})
    c.log("%s: %d rows, %d results compared" % (spec, len(rows), n))


NT = ["byte", "short", "int", "long", "float", "double", "FM_1i"]
AF = ["copy_deep", "copy_shallow", "fn_copy", "fn_copy_shallow", "reverse", "reverse_inplace", "slice", "memcpy", "memmove", "memmove_self", "memset", "merge", "repeat", "new_proto",
      "length", "boxed", "grep", "map", "map_expand", "shuffle", "equals_deep", "equals_shallow"]
UA = [-99]


def arow(rng, f):
    kinds = {"boxed": [0], "grep": [2], "map": [2], "map_expand": [2], "copy_shallow": [1, 2], "fn_copy_shallow": [1, 2], "equals_shallow": [1, 2]}.get(f, [0, 0, 1, 2])
    kind = rng.choice(kinds)
    T = rng.choice(NT if f not in ("boxed",) else NT[:6]) if kind == 0 else ["", "string", "FE"][kind]
    if T == "FM_1i" and f in ("memcpy", "memmove", "memmove_self", "memset", "merge", "new_proto", "equals_deep"): T = "int"
    dom = [-3, -1, 0, 1, 2, 100, -128] if kind == 0 else [-1, 0, 1, 2, 3, 4, 5, 6, 7]
    if f == "fn_copy_shallow": pass
    arr = lambda: [rng.choice(dom) for _ in range(rng.randint(0, 6))]
    a, b = arr(), arr()
    if f.startswith("equals") and rng.random() < .6:
        b = list(a)
        if kind and rng.random() < .5: b = [e if e < 0 else e % 4 + rng.choice([0, 4]) for e in a]
        if b and rng.random() < .3: b[rng.randrange(len(b))] = rng.choice(dom)
    n = []
    if f in ("copy_deep", "copy_shallow", "slice", "memset"):
        x = off(rng, len(a)); n = [x, ln(rng, len(a), x)]
    elif f in ("memcpy", "memmove", "memmove_self"):
        if f == "memmove_self": b = a
        x, y = off(rng, len(a)), off(rng, len(b))
        if rng.random() < .7: x, y = rng.randint(0, len(a)), rng.randint(0, len(b))
        n = [x, y, rng.choice([ln(rng, len(a), x, False), ln(rng, len(b), y, False), max(0, min(len(a) - x, len(b) - y))])]
        if f == "memmove_self": b = []
    elif f == "repeat": n = [rng.choice([0, 1, 2, 3, 5, -1, INTMIN])]
    elif f == "new_proto": n = [rng.choice([0, 1, 4, -1, INTMIN])]
    elif f == "length": pass
    if rng.random() < .04:
        if f in ("merge", "memcpy", "memmove", "equals_deep", "equals_shallow") and rng.random() < .6: b = UA
        else: a = UA
        if f.startswith("equals") and rng.random() < .3: a = b = UA
    if f not in ("merge", "memcpy", "memmove", "equals_deep", "equals_shallow"): b = []
    if f == "fn_copy_shallow" and a == UA: a = []
    return {"f": f, "kind": kind, "T": T, "a": a, "b": b, "n": n, "x": rng.choice(dom)}


FA = """class FA {
  use Fn; use Array; use FE; use FM_1i; use Cloner; use EqualityChecker;
  static method o : object[] () { my $o = new FE[8]; for (my $i = 0; $i < 8; $i++) { $o->[$i] = FE->new($i % 4); } return $o; }
  static method t : object[] () { my $o = new string[8]; for (my $i = 0; $i < 8; $i++) { my $x = $i % 4; $o->[$i] = "$x"; } return $o; }
  static method e : string ($o : object[], $e : object) {
    unless ($e) { return "-1"; }
    for (my $i = 0; $i < @$o; $i++) { if ($o->[$i] == $e) { return "$i"; } }
    if ($e is_type string) { return "n" . (string)$e; }
    my $v = $e->(FE)->{v}; return "n$v";
  }
  static method f : string ($o : object[], $a : object) {
    unless ($a) { return "u"; }
    my $r = type_name $a; $r .= ":";
    if ($a is_type FM_1i[]) { my $b = (FM_1i[])$a; for (my $i = 0; $i < @$b; $i++) { $r .= (string)$b->[$i]{x} . ","; } return $r; }
    if ($a is_type byte[]) { my $b = (byte[])$a; for (my $i = 0; $i < @$b; $i++) { $r .= (string)$b->[$i] . ","; } return $r; }
    if ($a is_type short[]) { my $b = (short[])$a; for (my $i = 0; $i < @$b; $i++) { $r .= (string)$b->[$i] . ","; } return $r; }
    if ($a is_type int[]) { my $b = (int[])$a; for (my $i = 0; $i < @$b; $i++) { $r .= (string)$b->[$i] . ","; } return $r; }
    if ($a is_type long[]) { my $b = (long[])$a; for (my $i = 0; $i < @$b; $i++) { $r .= (string)$b->[$i] . ","; } return $r; }
    if ($a is_type float[]) { my $b = (float[])$a; for (my $i = 0; $i < @$b; $i++) { $r .= (string)$b->[$i] . ","; } return $r; }
    if ($a is_type double[]) { my $b = (double[])$a; for (my $i = 0; $i < @$b; $i++) { $r .= (string)$b->[$i] . ","; } return $r; }
    my $b = (object[])$a;
    for (my $i = 0; $i < @$b; $i++) { $r .= &e($o, $b->[$i]) . ","; }
    return $r;
  }
  static method even : int ($e : object) { unless ($e) { return 0; } return $e->(FE)->{v} % 2 == 0; }
  static method next : object ($e : object) { unless ($e) { return undef; } return FE->new(($e->(FE)->{v} + 1) % 4); }
}
"""
FE = """class FE {
  use Cloneable; use EqualityCheckable;
  interface Cloneable; interface EqualityCheckable;
  has v : public int;
  static method new : FE ($v : int) { my $o = new FE; $o->{v} = $v; return $o; }
  method clone : FE () { return FE->new($self->{v}); }
  method eq : int ($a : object, $b : object) { return $a->(FE)->{v} == $b->(FE)->{v}; }
}
"""
FM = "class FM_1i : mulnum_t { has x : int; }\n"


def acall(r, rng):
    """(expression, does it return something)"""
    f, T, n = r["f"], r["T"], [str(x) for x in r["n"]]
    S = {"string": "string", "FE": "object"}.get(T, T)
    any_ = T == "FM_1i"
    one = lambda *l: rng.choice(l)
    tail = lambda d: (", " + ", ".join(n if r["n"][1] != -1 or rng.random() < .5 else n[:1] if r["n"][0] != 0 or rng.random() < .5 else [])).rstrip(", ")
    if f == "copy_deep":
        if S == "object": return "Array->copy_object($a, Cloner->default_cloner%s)" % tail(0), 1
        if any_ or (r["kind"] == 0 and rng.random() < .4): return "Array->copy_any_numeric($a%s)" % tail(0), 1
        return "Array->copy_%s($a%s)" % (S, tail(0)), 1
    if f == "copy_shallow":
        if S == "object": return one("Array->copy_object_address($a%s)" % tail(0), "Array->copy_object($a, undef%s)" % tail(0), "Array->copy_object_address_with_proto($a, $a%s)" % tail(0)), 1
        return "Array->copy_string_address($a%s)" % tail(0), 1
    if f == "fn_copy": return one("Fn->copy($a)", "Fn->copy($a, 0)"), 1
    if f == "fn_copy_shallow": return "Fn->copy($a, 1)", 1
    if f == "reverse": return "Fn->reverse($a)", 1
    if f == "reverse_inplace": return "Fn->reverse_inplace($a)", 0
    if f == "slice": return "Fn->slice($a, %s, %s)" % tuple(n), 1
    if f in ("memcpy", "memmove", "memmove_self"):
        return "Array->%s_%s%s($a, %s, %s, %s, %s)" % (f if f != "memmove_self" else "memmove", S, "_address" if r["kind"] else "", n[0], "$a" if f == "memmove_self" else "$b", n[1], n[2]), 0
    if f == "memset": return "Array->memset_%s($a, $x%s)" % (S, tail(0)), 0
    if f == "merge": return "Array->merge_%s($a, $b)" % S, 1
    if f == "repeat": return (one("Array->repeat_string($a, %s)", "Array->repeat($a, %s)") if S == "string" else "Array->repeat($a, %s)") % n[0], 1
    if f == "new_proto": return (one("Array->new_proto($a, %s)", "Array->new_proto_any($a, %s)") if r["kind"] else "Array->new_proto_any($a, %s)") % n[0], 1
    if f == "length": return "Fn->array_length($a)", 2
    if f == "boxed": return "Array->to_array_%s(Array->to_object_array_%s($a))" % (S, S), 1
    if f == "grep": return "Fn->grep($a, method : int ($e : object) { return FA->even($e); })", 1
    if f == "map": return "Fn->map($a, method : object ($e : object) { return FA->next($e); })", 1
    if f == "map_expand": return "Fn->map_expand($a, method : object[] ($e : object) { unless ($e) { return new object[0]; } if (FA->even($e)) { my $q = new object[2]; $q->[0] = $e; $q->[1] = $e; return $q; } my $q = new object[1]; $q->[0] = $e; return $q; })", 1
    if f == "shuffle": return one("Array->shuffle($a, \\$seed)", "Array->shuffle_any_numeric($a, \\$seed)" if r["kind"] == 0 else "Array->shuffle_object($a, \\$seed)"), 0
    if f == "equals_deep":
        if S == "object": return one("Array->equals_object($a, $b, EqualityChecker->default_equality_checker)", "Array->equals($a, $b)"), 2
        return one("Array->equals_%s($a, $b)" % S, "Array->equals($a, $b)"), 2
    if f == "equals_shallow": return one("Array->equals_%s_address($a, $b)" % S, "Array->equals($a, $b, 1)"), 2
    raise KeyError(f)


def astmts(r, rng):
    T = r["T"]
    out = ["my $o = FA->%s;" % {0: "o", 1: "t", 2: "o"}[r["kind"]], "my $seed = %d;" % rng.randrange(1000)]
    el = lambda e: ("(%s)%d" % (T, e) if T in NT[:6] else "undef" if e < 0 else "(%s)$o->[%d]" % (T, e))
    for v in "ab":
        x = r[v]
        if x == UA: out.append("my $%s = (%s[])undef;" % (v, T)); continue
        out.append("my $%s = new %s[%d];" % (v, T, len(x)))
        out += ["$%s->[%d]%s = %s;" % (v, i, "{x}" if T == "FM_1i" else "", str(e) if T == "FM_1i" else el(e)) for i, e in enumerate(x)]
    if r["f"] == "memset": out.append("my $x = (%s)%s;" % ("int" if T in ("byte", "short") else T, el(r["x"])))
    e, k = acall(r, rng)
    out.append('my $r = "x"; eval { %s };' % ('my $v = %s; $r = FA->f($o, $v);' % e if k == 1 else 'my $v = %s; $r = "$v";' % e if k == 2 else '%s; $r = "v";' % e))
    out.append('say $r . "|" . FA->f($o, $a) . "|" . FA->f($o, $b) . "|";')
    return "{ " + " ".join(out) + " }"


def afmt(r, x, T):
    if x == UA: return "u"
    return T + "[]:" + "".join(("n%d" % ((e - 1000) % 4) if e >= 1000 and r["kind"] else str(e)) + "," for e in x)


def awant(r, e):
    T = r["T"]
    if e["ok"] == 0: h = "x"
    else:
        k = acall(r, random.Random(1))[1]
        h = "v" if k == 0 else str(e["v"]) if k == 2 else afmt(r, e["v"], "object" if r["f"] == "merge" and r["kind"] == 2 else T)
    return "%s|%s|%s|" % (h, afmt(r, e["a"], T), afmt(r, e["b"], T))


def bag(l):
    return [sorted(x.split(",")) for x in l.replace(":", ",").split("|")]


def arrays(c):
    rng = random.Random("c17a/%d" % c.seed)
    rows = [arow(rng, f) for f in AF for _ in range(c.q(120, 2500))]
    return rows, "ArraySpec", astmts, awant, {"FA": FA, "FE": FE, "FM_1i": FM}, "use Fn; use Array; use FA; use FE; use FM_1i; use Cloner; use EqualityChecker;", lambda r: "%s %s" % (r["f"], r["T"])


def check(c):
    c.build(libs=vp.CORE_LIBS)
    run(c, strings(c))
    run(c, arrays(c))


if __name__ == "__main__":
    vp.main("C17", check)
