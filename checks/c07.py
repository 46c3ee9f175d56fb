"""C07: for every object type of Types.tla and every type an object may really have, isa, is_type, casts, element
stores, unboxing, isa_error and the calls from Perl answer as the specification says, in the VM and precompiled."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, typesgen as g


def check(c):
    c.build(libs=vp.CORE_LIBS)
    depth = 3
    r = c.tlc("Types", "INIT Init\nNEXT Next\nCONSTANTS Depth=%d What=\"dynamic\"\nINVARIANTS Reflexive AssignIsCast Transitive Sound CastSound StoreSound\nCHECK_DEADLOCK FALSE\n" % depth)
    d = json.load(open(os.path.join(r["dir"], "types.json")))
    types = {t["n"]: t for t in d["types"]}
    d = d["d"]
    shared, progs, want = g.runtime_programs(d, types)
    _, pre, wantp = g.runtime_programs(d, types, "J", None if c.thorough() else c.seed)
    want.update(wantp)
    for label, ps, jit in (("VM", progs, False), ("precompiled", pre, True)):
        out = vp.run_programs(c, ps, shared=shared, shard=4 if jit else 6, timeout=300, jit=jit)
        c.log("%s: %d programs" % (label, len(ps)))
        for n in ps:
            o = out[n]
            if o.lines == want[n] and not o.exc and not o.crash:
                c.cov["traces_validated_against_impl"] += len(want[n])
                continue
            if o.compile_error or o.crash or o.exc or len(o.lines) != len(want[n]):
                i = next((i for i, (a, b) in enumerate(zip(o.lines, want[n])) if a != b), len(o.lines))
                c.violation("%s %s" % (label, n), "%s %s: after %s: %s" % (label, n, o.lines[i - 1:i + 1], o.compile_error or o.crash or o.exc or "lines missing"),
                            {"source": ps[n], "classes": shared, "expected": want[n], "got": o.brief()})
                continue
            for a, b in zip(o.lines, want[n]):
                if a != b:
                    c.violation("%s %s" % (label, b.rsplit(" ", 1)[0]), "%s: specified %r, got %r" % (label, b, a),
                                {"source": ps[n], "classes": shared, "expected": b, "got": a})
    perl_side(c, d, types, shared)
    n = sorted(progs)[0]
    c.sample({"program": n, "source": progs[n][:1500], "lines": want[n][:5]})
    c.cov["scope"] = "object types of dimension up to %d: %d (type, object type) pairs, %d (type, static type, object type) casts, %d stores, %d unboxings, %d error classes" % (
        depth, len(d["dyn"]), len(d["casts"]), len(d["stores"]), len(d["unbox"]), len(d["errs"]))


PL = r"""
use strict; use warnings; my ($dir) = @ARGV; unshift @INC, $dir; require SPVM; SPVM->import('TyMk'); SPVM->import('TyTake');
my %o; $| = 1;
while (<STDIN>) { chomp; my ($mk, $take) = split / /; no strict 'refs';
  my $o = $o{$mk} //= SPVM::TyMk->$mk;
  my $r = eval { SPVM::TyTake->$take($o) }; print defined $r ? $r : -1, "\n"; }
"""


def perl_side(c, d, types, shared):
    """An object passed from Perl to a parameter of each type: accepted exactly when the parameter may hold it."""
    dir = os.path.dirname(c.path("perl", "SPVM", "x"))
    vp.write_classes(os.path.dirname(dir), shared)
    ts = sorted({x[0] for x in d["dyn"]})
    vp.write_classes(os.path.dirname(dir), {"TyTake": "class TyTake {\n  use Complex_2d; use Complex_2f; use TyMk; %s\n%s}\n" % (
        g.uses(*types), "".join("  static method %s : int ($x : %s) { my $o : object = $x; if ($o) { return 1; } return 0; }\n" % ("take" + g.ident(t), t) for t in ts))})
    rows = sorted(d["dyn"])
    r = c.perl(["-e", PL, os.path.dirname(dir)], input="".join("mk%s take%s\n" % (g.ident(f), g.ident(t)) for t, f, _, _ in rows).encode())
    got = r.out.decode().split("\n")
    if r.rc != 0 or len(got) != len(rows) + 1:
        c.violation("perl", "passing objects from Perl: %r" % r.err[-600:], {"out": got[-3:], "rc": r.rc})
        return
    for (t, f, isa, _), x in zip(rows, got):
        if x == ("1" if isa else "-1"):
            c.cov["traces_validated_against_impl"] += 1
        else:
            c.violation("perl %s %s" % (t, f), "a %s passed from Perl to a parameter of type %s: specified %s, got %s" % (f, t, isa, x), {"to": t, "object": f})


if __name__ == "__main__":
    vp.main("C07", check)
