"""C08: which method a call runs and what its parameters hold.  Dispatch.tla gives the outcome of every kind of call for every way
of declaring a method along a hierarchy; Sigs.tla the signatures that may stand for one another and the parameters' values."""
import json, os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp


def ident(t):
    return t.replace("[]", "Arr").replace(" ", "").replace("*", "Ref").replace("_", "")


def first_diff(c, label, n, src, shared, want, o, key=None):
    if o.lines == want and not o.exc and not o.crash and not o.compile_error:
        c.cov["traces_validated_against_impl"] += len(want)
        return
    i = next((i for i, (a, b) in enumerate(zip(o.lines + [None], want + [None])) if a != b), len(o.lines))
    c.violation(key or "%s %s" % (label, n), "%s %s: after %s specified %r, got %r %s" % (
        label, n, o.lines[max(0, i - 2):i], want[i] if i < len(want) else None, o.lines[i] if i < len(o.lines) else None, o.compile_error or o.crash or o.exc or ""),
        {"source": src, "classes": shared, "expected": want, "got": o.brief()})


# ---------------------------------------------------------------- resolution
def hierarchy(i, row, pre=""):
    cs, nm = {}, lambda k: "Ds%d%s%d" % (i, pre, k)
    I = "Ds%d%sI" % (i, pre)
    at = " : precompile" if pre else ""
    for k, d in enumerate(row["def"], 1):
        m = {"-": "", "i": 'method m : string () { return "%d"; }' % k, "s": 'static method m : string () { return "%d"; }' % k}[d]
        cs[nm(k)] = "class %s%s%s { %sstatic method new : %s () { return new %s; } %s }\n" % (
            nm(k), " extends %s" % nm(k - 1) if k > 1 else "", at, "use %s; " % nm(k - 1) if k > 1 else "", nm(k), nm(k), m)
    cs[I] = "class %s : interface_t%s { %s }\n" % (I, " precompile" if pre else "", {"none": "method z : void ();", "decl": "method m : string ();", "body": 'method m : string () { return "0"; }', "req": "required method m : string ();"}[row["ik"]])
    return cs, nm, I


def call(q, nm, I):
    k, s, d = q[:3]
    use = "use %s; use %s; use %s; " % (nm(s), nm(d), I)
    o = "my $o : %s = %s->new; " % (nm(s), nm(d))
    oi = "my $o : %s = %s->new; my $i : %s = $o; " % (nm(s), nm(d), I)
    e = {"dyn": o + "$r = $o->m;", "super": o + "$r = $o->SUPER::m;", "qual": "my $o : %s = %s->new; $r = $o->%s::m;" % (nm(s), nm(s), nm(d)),
         "quali": "my $o : %s = %s->new; $r = $o->%s::m;" % (nm(s), nm(s), I), "static": "$r = %s->m;" % nm(k and d), "viai": oi + "$r = $i->m;",
         "can": o + 'my $c = $o can m; $r = "$c";', "cani": oi + 'my $c = $i can m; $r = "$c";'}[k]
    return use, e


def resolution(c):
    n = c.q(3, 4)
    r = c.tlc("Dispatch", "INIT Init\nNEXT Next\nCONSTANT N = %d\nINVARIANTS Safe Subst SuperLaw\nCHECK_DEADLOCK FALSE\n" % n)
    rows = [json.load(open(os.path.join(r["dir"], f))) for f in sorted(os.listdir(r["dir"])) if f.startswith("g_")]
    shared, comp, wantc, progs, want = {}, {}, {}, {}, {}
    pre, wantp = {}, {}
    for i, row in enumerate(rows):
        cs, nm, I = hierarchy(i, row)
        shared.update(cs)
        if not row["ok"]:
            comp["Dc%d" % i] = "class Dc%d { use %s; }\n" % (i, nm(n)); wantc["Dc%d" % i] = False
            continue
        for p in ("", "J"):
            if p and (i + c.seed) % c.q(14, 3):
                continue
            if p:
                cs, nm, I = hierarchy(i, row, p); shared.update(cs)
            body, uses, w = [], set(), []
            for j, q in enumerate(sorted(row["q"])):
                u, e = call(q, nm, I)
                if q[3] == "E":
                    if not p:
                        cn = "Dn%dq%d" % (i, j)
                        comp[cn] = 'class %s { %sstatic method main : void () { my $r : string; %s } }\n' % (cn, u, e); wantc[cn] = False
                    continue
                body.append('  { my $r = "?"; eval { %s } if ($@) { if ($r eq "?") { $r = "X"; } } say "%s $r"; }\n' % (e, " ".join(map(str, q[:3]))))
                uses |= set(u.split(" ")) - {"use", ""}
                w.append(" ".join(map(str, q)))
            pn = "Dp%d%s" % (i, p)
            (pre if p else progs)[pn] = "class %s%s { %s\n  static method main : void () {\n%s  }\n}\n" % (pn, " : precompile" if p else "", " ".join("use " + x for x in sorted(uses)), "".join(body))
            want[pn] = w
    out = vp.compile_only(c, comp, shared=shared, timeout=c.q(120, 600))
    for x in comp:
        if out[x] is None or out[x].startswith("crash"):
            c.violation("resolve " + comp[x], "specified: a compile error; got: %s" % (out[x] or "it compiles"), {"source": comp[x], "classes": {k: v for k, v in shared.items() if k in comp[x] or k.rstrip("0123456789I") in comp[x]}})
        else:
            c.cov["traces_validated_against_impl"] += 1
    for label, ps, jit in (("VM", progs, False), ("precompiled", pre, True)):
        o = vp.run_programs(c, ps, shared=shared, timeout=300, jit=jit)
        for x in ps:
            pf = "Ds" + x[2:]
            first_diff(c, label, x, ps[x], {k: v for k, v in shared.items() if k.startswith(pf)}, want[x], o[x])
    c.log("resolution: %d hierarchies, %d rejected calls, %d programs" % (len(rows), len(comp), len(progs) + len(pre)))
    c.cov["scope"] = "every declaration of a method along %d classes and an interface (%d)" % (n, len(rows))


# ---------------------------------------------------------------- signatures
BASE = {"SgA": "class SgA { static method new : SgA () { return new SgA; } }\n",
        "SgB": "class SgB extends SgA { use SgA; static method new : SgB () { return new SgB; } method q : int () { return 1; } }\n",
        "SgI": "class SgI : interface_t { method q : int (); }\n", "SgJ": "class SgJ : interface_t { method q : int (); }\n",
        "Complex_2d": None}


def typ_uses(*ts):
    u = set()
    for t in ts:
        b = t.replace("mutable ", "").rstrip("[]*")
        if b[:2] == "Sg" or b in ("Complex_2d", "Int"):
            u.add("use %s;" % b)
    return " ".join(sorted(u)) + " "


def signatures(c, d):
    shared, comp, want = {k: v for k, v in BASE.items() if v}, {}, {}
    ret = lambda t: not t.endswith("*")
    for a in {x[0] for x in d["types"]}:
        n, u = ident(a), typ_uses(a)
        for k, m in (("a", "m : void ($x : %s)" % a), ("r", "m : %s ()" % a)):
            if k == "r" and not ret(a):
                continue
            shared["SgP%s%s" % (k, n)] = "class SgP%s%s { %smethod %s { } }\n" % (k, n, u, m)
            shared["SgQ%s%s" % (k, n)] = "class SgQ%s%s : interface_t { %smethod %s; }\n" % (k, n, u, m)
    for a, b, ok in d["types"]:
        for k, m in (("a", "m : void ($x : %s)" % b), ("r", "m : %s ()" % b)):
            if k == "r" and not (ret(a) and ret(b)):
                continue
            for ctx in ("P", "Q", "S"):
                x = "Sg%s%s%sX%s" % (ctx.lower(), k, ident(a), ident(b))
                t = "Sg%s%s%s" % ("Q" if ctx == "S" else ctx, k, ident(a))
                comp[x] = "class %s%s { %suse %s; %smethod %s { } %s}\n" % (
                    x, " extends " + t if ctx == "P" else "", typ_uses(b), t, "interface %s; " % t if ctx == "Q" else "", m,
                    "static method t : void ($s : %s) { my $i : %s = $s; } " % (x, t) if ctx == "S" else "")
                want[x] = ok
    for dr, do, sr, so, ok, _ in d["arity"]:
        for ctx in ("P", "Q", "S"):
            x = "Sga%s%d%d%d%d" % (ctx.lower(), dr, do, sr, so)
            t = "Sga%s%d%d" % ("P" if ctx == "P" else "Q", dr, do)
            shared.update(arity_decl(dr, do))
            comp[x] = "class %s%s { use %s; %smethod m : int (%s) { return 1; } %s}\n" % (
                x, " extends " + t if ctx == "P" else "", t, "interface %s; " % t if ctx == "Q" else "", params(sr, so),
                "static method t : void ($s : %s) { my $i : %s = $s; } " % (x, t) if ctx == "S" else "")
            want[x] = ok
    # an interface whose method takes or gives the interface itself, and a class with the same or its own type there
    for k, (a, b) in enumerate((("@", "@"), ("@[]", "@[]"), ("@", "#"), ("@[]", "#[]"), ("@[][]", "#[][]"), ("object", "#"), ("object[]", "#[]"))):
        i, x = "SgRi%d" % k, "SgRc%d" % k
        shared[i] = "class %s : interface_t { method m : %s ($x : %s); }\n" % ((i,) + (a.replace("@", i),) * 2)
        t = b.replace("@", i).replace("#", x)
        comp[x] = "class %s { use %s; interface %s; method m : %s ($x : %s) { return undef; } static method t : void ($s : %s) { my $i = (%s)$s; } }\n" % (x, i, i, t, t, x, i)
        want[x] = a == b or "object" in a
    out = vp.compile_only(c, comp, shared=shared, timeout=c.q(120, 600))
    for x in comp:
        got = out[x] is None
        if got != want[x] or (out[x] or "").startswith("crash"):
            t = [k for k in shared if k in comp[x]]
            c.violation("signature " + x, "specified %s, got %s: %s" % ("accepted" if want[x] else "refused", out[x] or "accepted", comp[x]), {"source": comp[x], "classes": {k: shared[k] for k in t}})
        else:
            c.cov["traces_validated_against_impl"] += 1
    c.log("signatures: %d programs" % len(comp))


def params(r, o, base=100):
    return ", ".join(["$p%d : int" % (i + 1) for i in range(r)] + ["$p%d : int = %d" % (i + 1, base + i + 1) for i in range(r, r + o)])


def arity_decl(dr, do):
    return {"SgaP%d%d" % (dr, do): "class SgaP%d%d { method m : int (%s) { return 0; } }\n" % (dr, do, params(dr, do, 900)),
            "SgaQ%d%d" % (dr, do): "class SgaQ%d%d : interface_t { method m : int (%s); }\n" % (dr, do, params(dr, do, 900))}


def arity_calls(c, d):
    """Every method that may stand for another, called through it with every number of arguments."""
    shared, body, want = {}, [], []
    for j, (dr, do, sr, so, ok, outs) in enumerate(d["arity"]):
        if not ok:
            continue
        shared.update(arity_decl(dr, do))
        for ctx in "PQ":
            t, x = "Sga%s%d%d" % (ctx, dr, do), "Sgr%s%d%d%d%d" % (ctx, dr, do, sr, so)
            k = sr + so
            shared[x] = "class %s%s { use %s; static method new : %s () { return new %s; } %s method m : int (%s) { say \"seen\"%s; return 7; } }\n" % (
                x, " extends " + t if ctx == "P" else "", t, x, x, "interface %s;" % t if ctx == "Q" else "", params(sr, so),
                "".join(' . " $p%d"' % (i + 1) for i in range(k)))
            if isinstance(outs, list):
                outs = {str(i + 1): v for i, v in enumerate(outs)}
            for n, o in outs.items():
                n = int(n)
                args = ", ".join(str(10 + i + 1) for i in range(n))
                body.append((t, x, '  { my $o : %s = %s->new; eval { my $v = $o->m(%s); say "ret $v"; } if ($@) { say "X"; } }\n' % (t, x, args)))
                want.append(["X"] if o == "X" else ["seen" + "".join(" %d" % v for v in o), "ret 7"])
    for label, at, jit in (("VM", "", False), ("precompiled", " : precompile", True)):
        progs, w = {}, {}
        step = 40
        for s in range(0, len(body), step):
            if jit and (s // step + c.seed) % c.q(3, 1):
                continue
            x = "Sgm%s%d" % ("J" if jit else "", s)
            us = " ".join("use %s;" % y for y in sorted({z for b in body[s:s + step] for z in b[:2]}))
            progs[x] = "class %s%s { %s\n  static method main : void () {\n%s  }\n}\n" % (x, at, us, "".join(b[2] for b in body[s:s + step]))
            w[x] = [l for v in want[s:s + step] for l in v]
        o = vp.run_programs(c, progs, shared=shared, timeout=200, jit=jit)
        for x in progs:
            first_diff(c, label, x, progs[x], shared, w[x], o[x])


# ---------------------------------------------------------------- transport of arguments and return values
class T:
    def __init__(self, name, w, lit, show, opt=True, ret=True, decl=None):
        self.name, self.w, self.lit, self.show, self.opt, self.ret = name, w, lit, show, opt, ret


def rint(lo, hi):
    return lambda rng: rng.choice([lo, hi, 0, 1, -1, rng.randint(lo, hi), rng.randint(lo, hi)])


def mk_types():
    ts = []
    for n, b in (("byte", 7), ("short", 15), ("int", 31), ("long", 63)):
        f = rint(-(1 << b), (1 << b) - 1)
        ts.append(T(n, 1, lambda rng, f=f, n=n: (lambda v: (("%dL" if n == "long" else "%d") % v, "%d" % v))(f(rng)), lambda v: '. %s' % v))
    ts.append(T("float", 1, lambda rng: (lambda v: ("%d.5f" % v, "%d.5" % v))(rng.randint(1, 9999)), lambda v: '. %s' % v))
    ts.append(T("double", 1, lambda rng: (lambda v: ("%d.25" % v, "%d.25" % v))(rng.randint(1, 99)), lambda v: '. %s' % v))
    ts.append(T("string", 1, lambda rng: (lambda v: ('"%s"' % v, v))("".join(rng.choice("abcxyz") for _ in range(rng.randint(0, 4)))), lambda v: '. %s' % v, opt=False))
    ts.append(T("Int", 1, lambda rng: (lambda v: ("Int->new(%d)" % v, "%d" % v))(rng.randint(0, 99)), lambda v: '. (int)%s' % v, opt=False))
    ts.append(T("int[]", 1, lambda rng: (lambda v: ("[%d, 5]" % v, "%d" % v))(rng.randint(0, 99)), lambda v: '. %s->[0]' % v, opt=False))
    ts.append(T("object", 1, lambda rng: (lambda v: ("(object)Int->new(%d)" % v, "%d" % v))(rng.randint(0, 99)), lambda v: '. (int)(Int)%s' % v, opt=False))
    for n, k, fs, et in (("Complex_2d", 2, "re im", "double"), ("TrB_3b", 3, "x y z", "byte"), ("TrL_4l", 4, "x y z t", "long"), ("TrS_1s", 1, "x", "short"), ("Complex_2f", 2, "re im", "float"), ("TrI_5i", 5, "x y z t s", "int")):
        fs = fs.split()
        ts.append(T(n, k, lambda rng, n=n, fs=fs, et=et: (lambda vs: ("&%s(%s)" % ("mk" + n.replace("_", ""), ", ".join(vs)), ",".join(v.rstrip("L") for v in vs)))(
            [("%d" % rng.randint(-99, 99)) for f in fs]), lambda v, fs=fs: " . \",\"".join('. %s->{%s}' % (v, f) for f in fs), opt=False))
    ts.append(T("int*", 1, lambda rng: (lambda v: ("R%d" % v, "%d" % v))(rng.randint(0, 99)), lambda v: '. $%s' % v, opt=False, ret=False))
    ts.append(T("TrL_4l*", 1, lambda rng: (lambda v: ("Q%d" % v, "%d,1,2,3" % v))(rng.randint(0, 99)), lambda v: " . \",\"".join('. %s->{%s}' % (v, f) for f in "xyzt"), opt=False, ret=False))
    return ts


TR = {"TrB_3b": "class TrB_3b : mulnum_t { has x : byte; has y : byte; has z : byte; }\n", "TrL_4l": "class TrL_4l : mulnum_t { has x : long; has y : long; has z : long; has t : long; }\n",
      "TrS_1s": "class TrS_1s : mulnum_t { has x : short; }\n", "TrI_5i": "class TrI_5i : mulnum_t { has x : int; has y : int; has z : int; has t : int; has s : int; }\n"}
MULF = {"Complex_2d": ("re im", "double"), "TrB_3b": ("x y z", "byte"), "TrL_4l": ("x y z t", "long"), "TrS_1s": ("x", "short"), "Complex_2f": ("re im", "float"), "TrI_5i": ("x y z t s", "int")}


def transport(c):
    ts = mk_types()
    nprog, per = c.q(160, 1500), 8
    rows, meta = [], []
    for p in range(nprog):
        rng = random.Random("%s/tr/%d" % (c.seed, p))
        for j in range(per):
            nreq = rng.choice([0, 1, 2, 3, 4, 6, 9, 14])
            nopt = rng.choice([0, 0, 1, 2, 3, 5])
            ps = [rng.choice(ts) for _ in range(nreq)] + [rng.choice([t for t in ts if t.opt]) for _ in range(nopt)]
            if rng.random() < 0.2:     # optional parameters may also be objects, with undef
                pass
            lits = [t.lit(rng) for t in ps]
            defs = [t.lit(rng) for t in ps]
            n = rng.randint(nreq, nreq + nopt)
            inst = rng.random() < 0.5
            rt = rng.choice([t for t in ts if t.ret])
            meta.append((p, j, ps, lits, defs, nreq, n, inst, rt, rt.lit(rng), rng.randint(0, 3), rng.random() < 0.5))
            rows.append({"ps": [{"w": t.w, "def": d[1]} for t, d in zip(ps, defs)], "as": [l[1] for l in lits[:n]], "inv": 1 if inst else 0})
    return rows, meta, ts


def transport_run(c, rows, meta, ts, res):
    shared = dict(TR)
    mks = "".join("  static method mk%s : %s (%s) { my $v : %s; %s return $v; }\n" % (
        n.replace("_", ""), n, ", ".join("$%s : %s" % (f, e) for f in fs.split()), n, " ".join("$v->{%s} = $%s;" % (f, f) for f in fs.split())) for n, (fs, e) in MULF.items())
    mks = mks.replace("&mk", "TrMk->mk")
    shared["TrMk"] = "class TrMk { use Complex_2d; use Complex_2f; %s\n%s}\n" % (" ".join("use %s;" % t for t in TR), mks)
    progs, want = {}, {}
    byp = {}
    for m, r, e in zip(meta, rows, res):
        byp.setdefault(m[0], []).append((m, e))
    mixpre = c.q(11, 3)
    for p, ms in byp.items():
        jit = (p + c.seed) % mixpre == 0
        nm = "Tr%s%d" % ("J" if jit else "v", p)
        body, meths, w = [], [], []
        for (p_, j, ps, lits, defs, nreq, n, inst, rt, rv, nest, noise), e in ms:
            pl = ", ".join("$p%d : %s%s" % (i, t.name, " = %s" % defs[i][0] if i >= nreq else "") for i, t in enumerate(ps))
            show = 'say "m%d"%s . "";' % (j, "".join(' . " " %s' % t.show("$p%d" % i) for i, t in enumerate(ps)))
            aw = 'my $aw = args_width; say "aw $aw";'
            chk = "&noise(1, 2, 3, 4, 5, 6, 7, 8, 9L, 10.0);" if noise else ""
            ref = lambda s: s.replace("&mk", "TrMk->mk")
            meths.append("  %smethod m%d : %s (%s) { %s %s %s %s return %s; }\n" % ("" if inst else "static ", j, rt.name, pl, aw, chk, ref(show), ref(show) if noise else "", ref(rv[0])))
            pre, args = [], []
            for i, (t, l) in enumerate(zip(ps, lits[:n])):
                if t.name == "int*":
                    pre.append("my $v%d = %s; " % (i, l[0][1:])); args.append("\\$v%d" % i)
                elif t.name == "TrL_4l*":
                    pre.append("my $v%d = TrMk->mkTrL4l(%s, 1, 2, 3); " % (i, l[0][1:])); args.append("\\$v%d" % i)
                elif t.w == 1 and t.name in ("int", "long", "string") and nest:     # an argument that is itself a call
                    args.append("&id%s(%s, %s)" % (t.name, l[0], ", ".join(str(x) for x in range(nest))))
                else:
                    args.append(ref(l[0]))
            ownr = "Complex" not in rt.name and False
            body.append('    { %smy $r = %s(%s); say "r" %s . ""; }\n' % ("".join(pre), ("$o->m%d" if inst else "&m%d") % j, ", ".join(args), '. " " ' + rt.show("$r")))
            line = "m%d" % j + "".join(" " + v for v in e["view"])
            w += ["aw %d" % e["aw"], line] + ([line] if noise else []) + ["r " + rv[1]]
        ids = "".join("  static method id%s : %s ($x : %s, $a : int = 70, $b : int = 80, $c : int = 90) { &noise(9, 8, 7, 6, 5, 4, 3, 2, 1L, 0.0); return $x; }\n" % (t, t, t) for t in ("int", "long", "string"))
        uses = "use TrMk; use Complex_2d; use Complex_2f; use Int; " + " ".join("use %s;" % t for t in TR)
        progs[nm] = "class %s%s { %s\n  static method noise : int ($a : int, $b : int, $c : int, $d : int, $e : int, $f : int, $g : int, $h : int, $i : long, $j : double) { return $a + $b; }\n%s%s  static method main : void () { my $o = new %s;\n%s  }\n}\n" % (
            nm, " : precompile" if jit else "", uses, ids, "".join(meths), nm, "".join(body))
        want[nm] = w
    for label, names, jit in (("VM", [n for n in progs if n[2] == "v"], False), ("precompiled", [n for n in progs if n[2] == "J"], True)):
        o = vp.run_programs(c, {n: progs[n] for n in names}, shared=shared, timeout=c.q(200, 1500), jit=jit)
        for x in names:
            first_diff(c, label, x, progs[x], shared, want[x], o[x])
        c.log("transport %s: %d programs" % (label, len(names)))
    c.sample({"program": progs[sorted(progs)[0]][:2500], "expected": want[sorted(progs)[0]][:6]})


def width_limit(c):
    """255 slots of arguments are accepted and arrive; 256 are refused."""
    progs, want = {}, {}
    for n in (254, 255):
        x = "Trw%d" % n
        progs[x] = "class %s { static method m : long (%s) { return %s; } static method main : void () { my $v = &m(%s); say \"$v\"; } }\n" % (
            x, ", ".join("$p%d : int" % i for i in range(n)), " + ".join("$p%d * %dL" % (i, i + 1) for i in range(n)), ", ".join(str((i * 37) % 101) for i in range(n)))
        want[x] = [str(sum(((i * 37) % 101) * (i + 1) for i in range(n)))]
    o = vp.run_programs(c, progs, timeout=60)
    for x in progs:
        first_diff(c, "VM", x, progs[x], {}, want[x], o[x])
    bad = {"Trw256": "class Trw256 { static method m : void (%s) { } }\n" % ", ".join("$p%d : int" % i for i in range(256)),
           "Trwm": "class Trwm { use Complex_2d; static method m : void (%s) { } }\n" % ", ".join("$p%d : Complex_2d" % i for i in range(128))}
    o = vp.compile_only(c, bad)
    for x in bad:
        if o[x] is None or o[x].startswith("crash"):
            c.violation("width " + x, "more than 255 slots of arguments: %s" % (o[x] or "accepted"), {"source": bad[x]})


def check(c):
    c.build(libs=vp.CORE_LIBS)
    resolution(c)
    rows, meta, ts = transport(c)
    r = c.tlc("Sigs", 'INIT Init\nNEXT Next\nCONSTANT RowFile = "rows.json"\nINVARIANTS Order Seen\nCHECK_DEADLOCK FALSE\n', files={"rows.json": json.dumps(rows)})
    d = json.load(open(os.path.join(r["dir"], "sigs.json")))
    signatures(c, d)
    arity_calls(c, d)
    transport_run(c, rows, meta, ts, [json.load(open(os.path.join(r["dir"], "row_%d.json" % (i + 1)))) for i in range(len(rows))])
    width_limit(c)


if __name__ == "__main__":
    vp.main("C08", check)
