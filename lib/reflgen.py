"""Random declarations of classes for C29 (spec/Reflect.tla), their source, and the program that describes them through Native::Runtime."""
NUM = ["byte", "short", "int", "long", "float", "double"]
DUMP = r'''class RfDump : public { use Native; use Native::Runtime; use Native::BasicType; use Native::Method; use Native::Field; use Native::ClassVar; use Native::Arg;
  static method ty : string ($b : Native::BasicType, $d : int, $f : int) { my $n = $b->get_name; return "$n/$d/$f"; }
  static method ids : void () { my $rt = Native->get_current_runtime; my $bad = 0; my $all = $rt->get_basic_types; my $len = $rt->get_basic_types_length; if (@$all != $len) { $bad = 1; }
    for (my $i = 0; $i < $len; $i++) { my $b = $rt->get_basic_type_by_id($i); my $x = $rt->get_basic_type_by_name($b->get_name); if ($b->get_id != $i || $x->get_id != $i || $all->[$i]->get_id != $i) { $bad++; } }
    say "ids $bad"; }
  static method ask : void ($c : string, $k : string, $n : string) { my $rt = Native->get_current_runtime; my $r = "no class"; eval { my $b = $rt->get_basic_type_by_name($c); $r = "none"; 
    if ($k eq "method") { my $m = $b->get_method_by_name($n); if ($m) { $r = "found"; my $o = $m->get_name; my $w = $m->get_current_basic_type->get_name; my $i = $b->get_method_by_index($m->get_index)->get_name; my $m2 = $rt->get_method_by_name($c, $n)->get_name; unless ($o eq $n && $w eq $c && $i eq $n && $m2 eq $n) { $r = "another: $o $w $i $m2"; } } }
    elsif ($k eq "field") { my $m = $b->get_field_by_name($n); if ($m) { $r = "found"; my $o = $m->get_name; my $i = $b->get_field_by_index($m->get_index)->get_name; my $m2 = $rt->get_field_by_name($c, $n)->get_name; unless ($o eq $n && $i eq $n && $m2 eq $n) { $r = "another: $o $i $m2"; } } }
    else { my $m = $b->get_class_var_by_name("\$$n"); if ($m) { $r = "found"; my $o = $m->get_name; my $i = $b->get_class_var_by_index($m->get_index)->get_name; my $m2 = $rt->get_class_var_by_name($c, "\$$n")->get_name; unless ($o eq "\$$n" && $i eq "\$$n" && $m2 eq "\$$n") { $r = "another: $o $i $m2"; } } }
    }; say "ask $r"; }
  static method def : string ($a : Native::Arg) { my $t = &ty($a->get_basic_type, $a->get_type_dimension, $a->get_type_flag);
    if ($t eq "byte/0/0") { return "" . $a->get_default_value_byte; } elsif ($t eq "short/0/0") { return "" . $a->get_default_value_short; } elsif ($t eq "int/0/0") { return "" . $a->get_default_value_int; }
    elsif ($t eq "long/0/0") { return "" . $a->get_default_value_long; } elsif ($t eq "float/0/0") { return "" . $a->get_default_value_float; } elsif ($t eq "double/0/0") { return "" . $a->get_default_value_double; }
    if ($a->get_default_value_object) { return "object"; } return "undef"; }
  static method outs : int ($b : Native::BasicType) { my $n = 0; eval { $b->get_method_by_index($b->get_methods_length); $n++; }; eval { $b->get_method_by_index(-1); $n++; }; eval { $b->get_field_by_index($b->get_fields_length); $n++; }; eval { $b->get_field_by_index(-1); $n++; }; eval { $b->get_class_var_by_index($b->get_class_vars_length); $n++; }; eval { $b->get_class_var_by_index(-1); $n++; }; eval { $b->get_anon_basic_type_by_index($b->get_anon_basic_types_length); $n++; }; eval { $b->get_anon_basic_type_by_index(-1); $n++; }; my $rt = Native->get_current_runtime; eval { $rt->get_basic_type_by_id(-1); $n++; }; eval { $rt->get_basic_type_by_id($rt->get_basic_types_length); $n++; };
    for (my $i = 0; $i < $b->get_methods_length; $i++) { my $m = $b->get_method_by_index($i); eval { $m->get_arg_by_index($m->get_args_length); $n++; }; eval { $m->get_arg_by_index(-1); $n++; }; } return $n; }
  static method show : void ($n : string, $id : string) { my $rt = Native->get_current_runtime; my $b = $rt->get_basic_type_by_name($n);
    my $pn = ""; if ($b->get_parent) { $pn = $b->get_parent->get_name; } my $v = $b->get_version_string; unless ($v) { $v = ""; }
    my $c = $b->get_category; my $p = $b->is_pointer; my $an = $b->is_anon; my $l = $b->get_anon_basic_types_length;
    my $outs = &outs($b); say "$id outs $outs";
    say "$id class $c [$pn] [$v] $p $an $l";
    if ($b->get_fields_length != (@{$b->get_fields})) { say "$id fields"; } if ($b->get_methods_length != (@{$b->get_methods})) { say "$id methods"; } if ($b->get_class_vars_length != (@{$b->get_class_vars})) { say "$id vars"; }
    for (my $i = 0; $i < $b->get_fields_length; $i++) { my $f = $b->get_field_by_index($i); my $t = &ty($f->get_basic_type, $f->get_type_dimension, $f->get_type_flag); my $o = $f->get_name; my $x = $f->get_index; say "$id field $x $o $t"; }
    for (my $i = 0; $i < $b->get_class_vars_length; $i++) { my $f = $b->get_class_var_by_index($i); my $t = &ty($f->get_basic_type, $f->get_type_dimension, $f->get_type_flag); my $o = $f->get_name; my $w = $f->get_current_basic_type->get_id == $b->get_id; my $k = $f->get_index == $i; say "$id var $o $t $w$k"; }
    for (my $i = 0; $i < $b->get_methods_length; $i++) { my $m = $b->get_method_by_index($i); my $t = &ty($m->get_return_basic_type, $m->get_return_type_dimension, $m->get_return_type_flag);
      my $o = $m->get_name; my $w = $m->get_current_basic_type->get_id == $b->get_id; my $k = $m->get_index == $i; my $s = $m->is_class_method; my $a = $m->is_anon; my $na = $m->is_native; my $pr = $m->is_precompile; my $e = $m->is_enum; my $al = $m->get_args_length; my $rl = $m->get_required_args_length;
      my $line = "$id method [$o] $t $w$k static$s anon$a native$na pre$pr enum$e $al $rl";
      for (my $j = 0; $j < $al; $j++) { my $g = $m->get_arg_by_index($j); my $gt = &ty($g->get_basic_type, $g->get_type_dimension, $g->get_type_flag); my $op = $g->is_optional; my $d = ""; if ($op) { $d = &def($g); } my $gi = $g->get_index; $line .= " $gi:$gt:$op:$d"; }
      say $line; }
    for (my $i = 0; $i < $l; $i++) { my $x = $b->get_anon_basic_type_by_index($i); &show($x->get_name, "$id+$i"); }
  }
}'''
ARRS = ["byte", "int", "long", "double", "string", "object"]


def ty(rng, classes, ref=False, mul=True, arrays=True):
    """A type: [t, d, f]."""
    r = rng.random()
    muls = [c["name"] for c in classes if c["kind"] == "mulnum_t"]; objs = [c["name"] for c in classes if c["kind"] != "mulnum_t"]
    if ref and r < .12: return rng.choice(NUM + muls), 0, 1
    if mul and muls and r < .2: return rng.choice(muls), 0, 0
    if r < .5: return rng.choice(NUM), 0, 0
    if r < .6: return "string", 0, rng.choice([0, 0, 2])
    if r < .66: return "object", 0, 0
    if r < .82 and objs: return rng.choice(objs), 0, 0
    if arrays: return rng.choice(ARRS[:4] + ["string", "object"] + objs + muls), rng.choice([1, 1, 2, 3]), 0
    return "Int", 0, 0


def decl(t, d, f): return ("mutable " if f & 2 else "") + t + "[]" * d + ("*" if f & 1 else "")


def fix(t, d, f):
    """Arrays of any object and of multi-numeric types have one dimension."""
    return (t, 1 if d > 1 and (t == "object" or t.startswith("Rm_")) else d, f)


def lit(t, rng):
    big = {"short": ["-32768", "32767"], "int": ["-2147483648", "2147483647"], "long": ["5000000000L", "-9223372036854775807L", "4294967296L"], "float": ["0.5f", "-2.25f"], "double": ["0.125", "-1234.5"], "byte": ["-128"]}
    return rng.choice([0, 1, 7, 100, -3, 127] + 2 * big[t])


def args(rng, classes, opt=True):
    out = []; tail = False
    for k in range(rng.choice([0, 1, 1, 2, 3, 4])):
        t, d, f = fix(*ty(rng, classes, ref=True)); can = not f & 1 and not t.startswith("Rm_") or d
        tail = opt and (tail or rng.random() < .25)
        if tail and not can: break
        a = {"name": "a%d" % k, "t": t, "d": d, "f": f, "opt": bool(tail), "def": ""}
        if tail: a["lit"] = str(lit(t, rng)) if t in NUM and not d else "undef"; a["def"] = a["lit"].rstrip("Lf") if a["lit"] != "undef" else "undef"
        out.append(a)
    return out


def argsrc(a): return ", ".join("$%s : %s%s" % (x["name"], decl(x["t"], x["d"], x["f"]), " = " + x["lit"] if x["opt"] else "") for x in a)


def value(t, d, f):
    if t == "void": return ""
    if d or t not in NUM: return "undef" if d or not t.startswith("Rm_") else "$m"
    return "(%s)0" % t


def ret(t, d, f):
    if t == "void": return "return;"
    if not d and t.startswith("Rm_"): return "my $m : %s; return $m;" % t
    return "return %s;" % value(t, d, f)


def classes_of(rng, pre):
    cs = []
    for j in range(rng.choice([1, 2])):
        b = rng.choice(NUM); w = rng.choice([1, 2, 3, 4])
        cs.append({"name": "Rm%s_%d%s" % (pre, w, b[0]), "kind": "mulnum_t", "ext": "", "ver": "", "ptr": False, "fields": [{"name": "xyzw"[k], "t": b, "d": 0, "f": 0, "acc": ""} for k in range(w)], "vars": [], "enums": [], "methods": [], "destroy": False})
        cs[-1]["name"] = "Rm_%s%d_%d%s" % (pre, j, w, b[0])
    names = ["Rc%s%s" % (pre, x) for x in "ABCDE"[:rng.choice([2, 3, 4, 5])]]
    plain = [{"name": x, "kind": "class"} for x in names]
    it = "Ri%sI" % pre; made = []
    for i, x in enumerate(names):
        pool = cs + plain + [{"name": it, "kind": "interface_t"}]
        ext = rng.choice([c["name"] for c in made if not c["ptr"]] + [""]) if made else ""
        base = next((c for c in made if c["name"] == ext), None)
        depth = (base["depth"] + 1) if base else 0
        c = {"name": x, "kind": "class", "ext": ext, "ver": rng.choice(["", "", "1.500", "0.001002"]), "ptr": not ext and rng.random() < .15, "fields": [], "vars": [], "enums": [], "methods": [], "destroy": rng.random() < .3, "depth": depth}
        for k in range(rng.choice([0, 1, 2, 3, 4])):
            t, d, f = fix(*ty(rng, pool, mul=False)); c["fields"].append({"name": "f%d_%d" % (depth, k), "t": t, "d": d, "f": f, "acc": rng.choice(["", "ro", "wo", "rw"])})
        for k in range(rng.choice([0, 0, 1, 2, 3])):
            t, d, f = fix(*ty(rng, pool, mul=False)); c["vars"].append({"name": "V%d" % k, "t": t, "d": d, "f": f, "acc": rng.choice(["", "ro", "wo", "rw"])})
        c["enums"] = ["E%d" % k for k in range(rng.choice([0, 0, 1, 3]))]
        for k in range(rng.choice([1, 2, 3, 4])):
            t, d, f = fix(*ty(rng, pool)) if rng.random() < .75 else ("void", 0, 0)
            m = {"name": rng.choice(["m", "n", "zed", "a"]) + "%d_%d" % (depth, k), "inst": rng.random() < .5, "t": t, "d": d, "f": f, "pre": rng.random() < .1, "args": args(rng, pool), "anons": []}
            for q in range(rng.choice([0, 0, 0, 1, 2])):
                at, ad, af = fix(*ty(rng, pool)) if rng.random() < .7 else ("void", 0, 0)
                caps = [(lambda y: {"name": "k%d" % z, "t": y[0], "d": y[1], "f": y[2]})(fix(*ty(rng, pool, mul=False))) for z in range(rng.choice([0, 0, 1, 2]))]
                m["anons"].append({"t": at, "d": ad, "f": af, "args": args(rng, pool), "caps": caps})
            if m["anons"]: m["pre"] = False
            c["methods"].append(m)
        made.append(c)
    iface = {"name": it, "kind": "interface_t", "ext": "", "ver": rng.choice(["", "2.500"]), "ptr": False, "fields": [], "vars": [], "enums": [], "destroy": False, "methods": []}
    for k in range(rng.choice([1, 2, 3])):
        t, d, f = fix(*ty(rng, cs + plain)); iface["methods"].append({"name": "q%d" % k, "inst": True, "t": t, "d": d, "f": f, "pre": False, "args": args(rng, cs + plain), "anons": []})
    return cs + [iface] + made


def source(c, cs):
    """The source of a class."""
    b = []
    if c["ver"]: b.append('version "%s";' % c["ver"])
    if c["kind"] == "class": b += ["use %s;" % x["name"] for x in cs if x is not c]
    elif c["kind"] == "interface_t": b += ["use %s;" % x["name"] for x in cs if x["kind"] != "interface_t"]
    for v in c["vars"]: b.append("our $%s : %s %s;" % (v["name"], v["acc"], decl(v["t"], v["d"], v["f"])))
    if c["enums"]: b.append("enum { %s }" % ", ".join(c["enums"]))
    for v in c["fields"]: b.append("has %s : %s %s;" % (v["name"], v["acc"], decl(v["t"], v["d"], v["f"])))
    for k, m in enumerate(c["methods"]):
        sig = "%s%smethod %s : %s (%s)" % ("precompile " if m["pre"] else "", "" if m["inst"] else "static ", m["name"], decl(m["t"], m["d"], m["f"]), argsrc(m["args"]))
        if c["kind"] == "interface_t": b.append(("required " if k == 0 else "") + sig + ";"); continue
        body = []
        for q, a in enumerate(m["anons"]):
            caps = ", ".join("has %s : %s" % (x["name"], decl(x["t"], x["d"], x["f"])) + " = " + value(x["t"], x["d"], x["f"]) for x in a["caps"])
            body.append("my $x%d = %smethod : %s (%s) { %s };" % (q, "[%s] " % caps if caps else "", decl(a["t"], a["d"], a["f"]), argsrc(a["args"]), ret(a["t"], a["d"], a["f"])))
        b.append("%s { %s %s }" % (sig, " ".join(body), ret(m["t"], m["d"], m["f"])))
    if c["destroy"]: b.append("method DESTROY : void () { }")
    attr = [c["kind"]] if c["kind"] != "class" else ["public"] + (["pointer"] if c["ptr"] else [])
    return "class %s%s : %s {\n  %s\n}" % (c["name"], " extends " + c["ext"] if c["ext"] else "", " ".join(attr), "\n  ".join(b))


def program(rng, i):
    name = "Rfp%d" % i; cs = classes_of(rng, str(i)); asks = []
    for k in range(20):
        c = rng.choice(cs); kind = rng.choice(["method", "field", "var"])
        names = [m["name"] for m in c["methods"]] + [f["name"] for x in cs for f in x["fields"]] + ["set_" + f["name"] for f in c["fields"]] + ["SET_V0", "V0", "V1", "E0", "INIT", "DESTROY", "new", "nope", "m", "f0_0", "f1_0", "x"]
        asks.append({"cls": c["name"] if rng.random() < .95 else c["name"] + "Z", "kind": kind, "name": rng.choice(names)})
    src = {c["name"]: source(c, cs) for c in cs}
    b = ["RfDump->ids;"] + ['RfDump->show("%s", "%s");' % (c["name"], c["name"]) for c in cs] + ['RfDump->ask("%s", "%s", "%s");' % (a["cls"], a["kind"], a["name"]) for a in asks]
    main = "class %s { use RfDump; use VP; %s\n  static method t : void () {\n    %s\n  }\n  static method main : void () { VP->mark(\"\\x{01}%s\"); &t; eval { }; }\n}" % (name, " ".join("use %s;" % c["name"] for c in cs), "\n    ".join(b), name)
    return name, {"classes": cs, "asks": asks}, src, main


def t3(x): return "%s/%d/%d" % (x["t"], x["d"], x["f"])


def lines(out):
    """What the program has to print."""
    res = ["ids 0"]

    def meths(i, ms):
        for m in ms:
            res.append("%s method [%s] %s 11 static%d anon%d native0 pre%d enum%d %d %d" % (i, m["name"], t3(m["ret"]), m["static"], m["anon"], m["pre"], m["enum"], len(m["args"]), m["req"])
                       + "".join(" %d:%s:%d:%s" % (k, t3(a["ty"]), a["opt"], a["def"]) for k, a in enumerate(m["args"])))
    for c in out["classes"]:
        i = c["name"]; res.append(i + " outs 0")
        res.append("%s class %d [%s] [%s] %d 0 %d" % (i, c["cat"], c["parent"], c["ver"], c["ptr"], len(c["anons"])))
        res += ["%s field %d %s %s" % (i, k, f["name"], t3(f["ty"])) for k, f in enumerate(c["fields"])]
        res += ["%s var $%s %s 11" % (i, f["name"], t3(f["ty"])) for f in c["vars"]]
        meths(i, c["methods"])
        for k, a in enumerate(c["anons"]):
            j = "%s+%d" % (i, k); res.append(j + " outs 0"); res.append("%s class 6 [] [] 0 0 0" % j)
            res += ["%s field %d %s %s" % (j, q, f["name"], t3(f["ty"])) for q, f in enumerate(a["fields"])]
            meths(j, a["methods"])
    return res, ["ask " + a for a in out["asked"]]
