"""Programs for CallDepth.tla and Cond.tla."""
import json, os, random
import vp

DEPTH_SRC = """class DepthRow%s {
  use Fn;
  static method r : int ($n : int, $k : int, $die : int) {
    if ($n <= 0) { if ($die) { die "x"; } return 0; }
    if ($n == $k) {
      eval { &r($n - 1, $k, $die); }
      if ($@) { &show($n); }
      return 0;
    }
    return 1 + &r($n - 1, $k, $die);
  }
  static method show : void ($n : int) {
    my $e = $@;
    my $c = 1;
    for (my $i = 0; $i < length $e; $i++) { if ($e->[$i] == '\\n') { $c++; } }
    say "caught $n $c";
    $@ = undef;
  }
  static method one : void ($n : int, $k : int, $die : int) {
    eval { &r($n, $k, $die); }
    if ($@) { &show(-1); }
  }
  static method main : void () {
    my $n : int; my $k : int; my $die : int;
%s  }
}
"""


def depth(c, n):
    rng = random.Random(c.seed)
    rows = [(k, 0, e) for k in (1, 2, 97, 98, 99, 100, 101, 150, 996, 997, 998, 999, 1000, 1001, 1500) for e in ("ret", "die")]
    rows = [(a, -5, e) for a, _, e in rows] + [(a, max(1, a - d), e) for a, _, e in rows for d in (0, 1, 3, 60, 900) if a - d > 0]
    rows = rows[:30] + rng.sample(rows[30:], min(n, len(rows) - 30))
    rr = [{"n": a, "k": k, "end": e} for a, k, e in rows]
    res = c.tlc("CallDepth", 'SPECIFICATION Spec\nINVARIANT DepthOk\nINVARIANT LinesOk\nCHECK_DEADLOCK FALSE\nCONSTANT RowFile = "rows.json"\nCONSTANT Limit = 1000\nCONSTANT TraceLimit = 100\n',
                files={"rows.json": json.dumps(rr)}, workers=8, tag="depth")
    exp = [json.load(open(os.path.join(res["dir"], "out_%d.json" % (i + 1))))["out"] for i in range(len(rr))]
    # the calls go main (depth 1) -> r; eval in main
    src = ""
    want = []
    for i, r in enumerate(rr):
        src += '    say "row %d"; eval { &r(%d, %d, %d); } if ($@) { &show(-1); }\n' % (i, r["n"], r["k"], r["end"] == "die")
        want.append("row %d" % i)
        for d, l in exp[i]:
            lev = r["n"] - (d - 2)
            want.append("caught %d %d" % (-1 if d == 1 else lev, l))
    progs = {"DepthRowV": DEPTH_SRC % ("V", src)}
    pre = {"DepthRowP": (DEPTH_SRC % ("P", src)).replace("class DepthRowP", "class DepthRowP : precompile")}
    for jit, ps in ((False, progs), (True, pre)):
        out = vp.run_programs(c, ps, mem=True, jit=jit)
        for k, o in out.items():
            got = o.lines
            if got != want or o.exc is not None or o.crash or o.compile_error:
                j = next((j for j in range(min(len(got), len(want))) if got[j] != want[j]), min(len(got), len(want)))
                row = next((want[x] for x in range(min(j, len(want) - 1), -1, -1) if want[x].startswith("row")), "?")
                c.violation("depth:%s" % row, "call depth %s %s: specification %r, program %r %s" % (row, rr[int(row.split()[1])] if row != "?" else "", want[j:j+1], got[j:j+1], o.crash or o.exc or o.compile_error or ""),
                            {"source": ps[k], "rows": rr})
            elif o.mem:
                c.violation("depth:mem", "call depth programs leave %s memory blocks" % o.mem, {"source": ps[k]})
            c.cov["traces_validated_against_impl"] += len(rr)


OPS = []
for t, vals in (("byte", [0, 1, -1, -128, 127]), ("short", [0, 1, -2, 256, -32768]), ("int", [0, 1, -1, 256, 65536, -2147483648, 2147483647])):
    for v in vals:
        OPS.append({"t": t, "zero": v == 0, "iv": v, "src": "(%s)%d" % (t, v)})
for v in (0, 1, -1, 1 << 32, 1 << 40, -(1 << 33), 1 << 62, 1 << 16):
    OPS.append({"t": "long", "zero": v == 0, "iv": 0, "src": "%dL" % v})
for t, sfx in (("float", "f"), ("double", "")):
    for v in ("0.0", "1.0", "0.25", "-0.5", "1e-30", "4294967296.0", "-0.0"):
        OPS.append({"t": t, "zero": float(v) == 0, "iv": 0, "src": v + sfx})
for t, v in (("double", "1e-300"), ("double", "-1e-300 / 1e20"), ("double", "1e300 * 1e300"), ("double", "1e-300 / 1e300"), ("double", "1e308"),
             ("float", "1e-38f"), ("float", "1e-38f / 1e6f"), ("float", "-1e-38f / 1e38f"), ("float", "3e38f"), ("long", "-9223372036854775808L"), ("long", "9223372036854775807L")):
    OPS.append({"t": t, "zero": v in ("1e-300 / 1e300", "-1e-38f / 1e38f"), "iv": 0, "src": v})
OPS += [{"t": "double", "zero": False, "iv": 0, "src": "0.0 / 0.0"}, {"t": "float", "zero": False, "iv": 0, "src": "0.0f / 0.0f"}]
for t, src, z in (("string", '""', False), ("string", '"0"', False), ("string", '"abc"', False), ("string", "undef", True),
                  ("object", "undef", True), ("object", '"0"', False), ("object", "Bool->FALSE", False), ("object", "Int->new(0)", False),
                  ("Int", "Int->new(0)", False), ("Int", "undef", True), ("int[]", "new int[0]", False), ("int[]", "undef", True),
                  ("Bool", "Bool->FALSE", True), ("Bool", "Bool->TRUE", False), ("Bool", "undef", True), ("Bool", "false", True), ("Bool", "true", False),
                  ("object[]", "new object[0]", False), ("Stringable", "undef", True), ("string[][]", "[[\"a\"]]", False)):
    OPS.append({"t": t, "zero": z, "iv": 0, "src": src})
# reference types have no undefined value
OPS.append({"t": "int*", "zero": False, "iv": 0, "src": "\\$z"})
OPS.append({"t": "double*", "zero": False, "iv": 0, "src": "\\$zd"})


def cond(c, n):
    rng = random.Random(c.seed + 7)
    rows = [{"a": a, "b": rng.choice(OPS)} for a in OPS] + [{"a": rng.choice(OPS), "b": b} for b in OPS]
    allp = [{"a": a, "b": b} for a in OPS for b in OPS]
    rows += rng.sample(allp, min(n, len(allp)))
    res = c.tlc("Cond", 'SPECIFICATION Spec\nINVARIANT DeMorgan\nCHECK_DEADLOCK FALSE\nCONSTANT RowFile = "rows.json"\n', files={"rows.json": json.dumps(rows)}, tag="cond")
    exp = [json.load(open(os.path.join(res["dir"], "out_%d.json" % (i + 1)))) for i in range(len(rows))]
    per = 40
    progs, want = {}, {}

    def const_int(o):
        return o["t"] in ("byte", "short", "int")
    for s in range(0, len(rows), per):
        nm = "CondRow%d" % (s // per)
        used, ms, body, ws = set(), [], [], []
        for i in range(s, min(s + per, len(rows))):
            r, e = rows[i], exp[i]
            ref = {x: r[x]["t"].endswith("*") for x in "ab"}
            m = []
            for x in "ab":
                m.append("my $%s : %s = %s;" % (x, r[x]["t"], r[x]["src"]))
                used.add(r[x]["t"])
            opn = {}
            for x in "ab":
                opn[x] = "$" + x if ref[x] else "&ev%d($%s, \"%s\")" % (0, x, x)
            tid = {}
            for x in "ab":
                t = r[x]["t"]
                tid[x] = t.replace("[]", "Arr")
                opn[x] = "$" + x if ref[x] else "&ev_%s($%s, \"%s\")" % (tid[x], x, x)
            A, B_ = opn["a"], opn["b"]

            def w(key, val, ev=None):
                evs = [] if ev is None else ["e %s" % y for y in ev if not ref[y]]
                ws.extend(evs + ["%d %s %d" % (i, key, val)])
            m.append('{ my $v = %s && %s; say "%d and $v"; }' % (A, B_, i)); w("and", e["and"]["v"], e["and"]["ev"])
            m.append('{ my $v = %s || %s; say "%d or $v"; }' % (A, B_, i)); w("or", e["or"]["v"], e["or"]["ev"])
            m.append('{ my $v = !%s; say "%d not $v"; }' % (A, i)); w("not", e["nota"], "a")
            for key, kw, cnd, val, ev in (("if", "if", A, e["ifa"], "a"), ("unless", "unless", A, e["unlessa"], "a"), ("ifand", "if", "%s && %s" % (A, B_), e["ifand"], e["and"]["ev"]),
                                          ("ifor", "if", "%s || %s" % (A, B_), e["ifor"], e["or"]["ev"]), ("ifnot", "if", "!%s" % A, e["ifnota"], "a"),
                                          ("notand", "if", "!(%s && %s)" % (A, B_), e["notand"], e["and"]["ev"]), ("notor", "if", "!(%s || %s)" % (A, B_), e["notor"], e["or"]["ev"]),
                                          ("nn", "if", "!!%s" % A, e["nn"], "a")):
                m.append('%s (%s) { say "%d %s 1"; } else { say "%d %s 0"; }' % (kw, cnd, i, key, i, key) if kw == "if" else
                         '{ my $v = 0; %s (%s) { $v = 1; } say "%d %s $v"; }' % (kw, cnd, i, key))
                w(key, val, ev)
            m.append('{ my $v = 0; while (%s) { $v = 1; last; } say "%d while $v"; }' % (A, i)); w("while", e["whilea"], "a")
            m.append('{ my $v = 0; for (; %s;) { $v = 1; last; } say "%d for $v"; }' % (A, i)) if False else None
            ms.append("  static method m%d : void () {\n    my $z = 0; my $zd = 0.5;\n    %s\n  }" % (i, "\n    ".join(m)))
            body.append("&m%d();" % i)
        evs = ["  static method ev_%s : %s ($v : %s, $n : string) { say \"e $n\"; return $v; }" % (t.replace("[]", "Arr"), t, t) for t in sorted(used) if not t.endswith("*")]
        progs[nm] = "class %s {\n  use Int; use Stringable; use Bool;\n%s\n%s\n  static method main : void () { %s }\n}\n" % (nm, "\n".join(evs), "\n".join(ms), " ".join(body))
        want[nm] = ws
    for jit in (False, True):
        sub = progs if not jit else {k + "P": v.replace("class %s {" % k, "class %sP : precompile {" % k) for k, v in list(progs.items())[:c.q(2, 20)]}
        out = vp.run_programs(c, sub, mem=True, jit=jit)
        for k, o in out.items():
            ws = want[k[:-1] if jit else k]
            got = o.lines
            if got != ws or o.exc is not None or o.crash or o.compile_error or o.mem:
                j = next((j for j in range(min(len(got), len(ws))) if got[j] != ws[j]), min(len(got), len(ws)))
                ln = ws[j] if j < len(ws) else "end"
                c.violation("cond:%s" % ln, "condition evaluation%s: specification %r, program %r; %s" % (" (precompiled)" if jit else "", ws[max(0, j-2):j+1], got[max(0, j-2):j+1], o.crash or o.exc or o.compile_error or "mem %s" % o.mem),
                            {"source": sub[k]})
            c.cov["traces_validated_against_impl"] += len(ws)
