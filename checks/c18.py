"""C18: methods with random signatures called from Perl with random values, arrays built from Perl and worked on: Exchange.tla
says what is refused, what the method receives, what the references and the return value are afterwards."""
import json, os, random, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp

W = {"byte": 1, "short": 2, "int": 4, "long": 8, "float": 4, "double": 8}
NUMS = list(W)
MUL = {"EM_2b": ("byte", ["x", "y"]), "EM_3s": ("short", ["x", "y", "z"]), "EM_2i": ("int", ["y", "x"]), "EM_1l": ("long", ["re"]),
       "EM_3f": ("float", ["x", "y", "z"]), "EM_2d": ("double", ["re", "im"])}


def T(c, b, d=0, r=0): return {"c": c, "b": b, "d": d, "r": r}


def tn(t): return t["b"] + "[]" * t["d"] + "*" * t["r"]


POOL = {"a1": (T("cls", "EA"), "EA#1"), "a2": (T("cls", "EA"), "EA#2"), "b3": (T("cls", "EB"), "EB#3"), "c4": (T("cls", "EC"), "EC#4"),
        "s5": (T("str", "string"), "s:6869"), "s6": (T("str", "string"), "s:ff00"),
        "Ai": (T("num", "int", 1), "int[]<7,-8>"), "Ab": (T("num", "byte", 1), "byte[]<1>"), "Ad": (T("num", "double", 1), None), "Af": (T("num", "float", 1), None),
        "Al": (T("num", "long", 1), "long[]<>"), "Ash": (T("num", "short", 1), "short[]<5>"),
        "As": (T("str", "string", 1), "string[]<s:61,u>"), "Aa": (T("cls", "EA", 1), "EA[]<EA#1,EB#3,u>"), "Abb": (T("cls", "EB", 1), "EB[]<EB#3>"),
        "Ac": (T("cls", "EC", 1), "EC[]<>"), "Ae": (T("ifc", "EI", 1), "EI[]<EB#3,EC#4>"), "Ao": (T("any", "object", 1), "object[]<s:6869,int[]<7,-8>,u,EC#4>"),
        "Am": (T("mul", "EM_2i", 1), "EM_2i[]<{3,-4},{0,0}>"), "Ap": (T("mul", "EM_2d", 1), None),
        "Aii": (T("num", "int", 2), "int[][]<int[]<7,-8>,u>"), "Ass": (T("str", "string", 2), "string[][]<string[]<s:61,u>>"),
        "Aaa": (T("cls", "EA", 2), "EA[][]<EA[]<EA#1,EB#3,u>>"), "Aiii": (T("num", "int", 3), "int[][][]<int[][]<int[]<7,-8>,u>>"), "Amm": (T("mul", "EM_2i", 2), "EM_2i[][]<EM_2i[]<{3,-4},{0,0}>,u>")}
for k, v in (("Ad", [1.5, 0.1]), ("Af", [2.5])):
    POOL[k] = (POOL[k][0], (k, v))

SCALARS = [T("num", b) for b in NUMS] + [T("str", "string"), T("any", "object"), T("cls", "EA"), T("cls", "EB"), T("ifc", "EI")] + [T("mul", b) for b in MUL]
REFS = [T("num", b, 0, 1) for b in NUMS] + [T("mul", b, 0, 1) for b in MUL]
ARRAYS = [T("num", b, 1) for b in NUMS] + [T("str", "string", 1), T("any", "object", 1), T("cls", "EA", 1), T("cls", "EB", 1), T("ifc", "EI", 1)] + [T("mul", b, 1) for b in MUL]
DEEP = [T("num", "int", 2), T("str", "string", 2), T("cls", "EA", 2), T("ifc", "EI", 2), T("num", "int", 3), T("mul", "EM_2i", 2)]


def tok(x):
    return "%g|%s" % (x, struct.pack("<d", x).hex())


def fl(x): return struct.unpack("<f", struct.pack("<f", x))[0]


def views(i, x, b, p, perl):
    return {"k": "sc", "i": list((i & (2**64 - 1)).to_bytes(8, "little")), "f": tok(fl(x)), "d": tok(x), "b": list(b), "p": p, "perl": perl}


INTS = [0, 1, -1, 2, 5, 100, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32 - 1, 2**32, 2**52, -2**52, 2**63 - 1, -2**63]
NVS = [0.0, 1.5, -1.5, 0.1, -0.25, 2.5, 1e5, 123456.0, 3.0, -7.99, 255.5, 1e9 + 0.5, -2147483648.5, 1e15, 3.4e38, 1e-40, 2.0**-1074]
STRS = [(b"5", 5, 5.0), (b"-12", -12, -12.0), (b" 12", 12, 12.0), (b"3.7", 3, 3.7), (b"abc", 0, 0.0), (b"", 0, 0.0), (b"1e3", 1000, 1000.0), (b"12abc", 12, 12.0), (b"0x10", 0, 0.0),
        (b"300", 300, 300.0), (b"-0.5", 0, -0.5), (b"70000", 70000, 70000.0), (b"a\0b", 0, 0.0), (b"\xff\xfe", 0, 0.0), (b"9223372036854775807", 2**63 - 1, 2.0**63), (b"-9223372036854775808", -2**63, -2.0**63)]


def scalar(rng, small=False):
    k = rng.random()
    if k < .45:
        n = rng.choice(INTS) if rng.random() < .8 else rng.randrange(-2**63, 2**63) >> rng.randrange(63)
        return views(n, float(n), str(n).encode(), 0, 'unpack("q<", pack("H*", "%s"))' % struct.pack("<q", n).hex())
    if k < .65:
        x = rng.choice(NVS)
        return views(int(x) if abs(x) < 2.0**63 else -1, x, ("%.15g" % x).encode(), 0, 'unpack("d<", pack("H*", "%s"))' % struct.pack("<d", x).hex())
    if k < .85:
        b, i, x = rng.choice(STRS)
        return views(i, x, b, 1, 'pack("H*", "%s")' % b.hex())
    if k < .92:
        # longer than a byte counts, with zeros on the way
        n = rng.choice([255, 256, 257, 300, 1000, 4097]); h = rng.choice([b"ab\0c", b"q\xff", b"\0", b"x"])
        b = (h * n)[:n]
        return views(0, 0.0, b, 1, 'substr(pack("H*", "%s") x %d, 0, %d)' % (h.hex(), n, n))
    if k < .95:
        b = rng.choice(["\u3042", "a\u3042\U0001f600", "\xe9"]).encode()
        return views(0, 0.0, b, 1, 'd8("%s")' % b.hex())
    v = rng.random() < .5
    return views(int(v), float(v), b"1" if v else b"", 0, "!!%d" % v)


def any_value(rng, depth=0):
    k = rng.random()
    if k < .15: return {"k": "u", "perl": "undef"}
    if k < .4: return scalar(rng)
    if k < .65: return pool(rng.choice(list(POOL)))
    if k < .8: return aref([any_value(rng, 1) if depth == 0 else scalar(rng) for _ in range(rng.randint(0, 2))])
    if k < .88: return href([(n, scalar(rng)) for n in rng.choice([["x", "y"], ["x"], [], ["re", "im"], ["x", "y", "z"]])])
    if k < .94: return {"k": "code", "perl": "sub {1}"}
    return ref(any_value(rng, 1) if depth == 0 else scalar(rng))


def pool(i): return {"k": "o", "id": i, "perl": "$P{%s}" % i}
def aref(e): return {"k": "a", "e": e, "perl": "[" + ", ".join(x["perl"] for x in e) + "]"}
def href(e): return {"k": "h", "e": [{"n": n, "v": v} for n, v in e], "perl": "{" + ", ".join("%s => %s" % (n, v["perl"]) for n, v in e) + "}"}
def ref(v): return {"k": "r", "v": v, "perl": "\\(my $q = %s)" % v["perl"]}


def mulval(rng, b, bad=.1):
    e = [(n, scalar(rng)) for n in MUL[b][1]]
    if rng.random() < bad:
        k = rng.random()
        if k < .5: e.pop(rng.randrange(len(e)))
        else:
            j = rng.randrange(len(e)); e[j] = (e[j][0], rng.choice([{"k": "u", "perl": "undef"}, aref([]), pool("a1")]))
    if rng.random() < .2: e.append(("extra", scalar(rng)))
    rng.shuffle(e)
    return href(e)


OBJ = {"any": list(POOL), "EA": ["a1", "a2", "b3"], "EB": ["b3"], "EI": ["b3", "c4"], "string": ["s5", "s6"]}


def value(rng, t, bad=.1):
    """A Perl value for a place of type t, mostly a fitting one."""
    if rng.random() < bad: return any_value(rng)
    if t["r"]: return ref(value(rng, dict(t, r=0), bad / 2))
    if t["d"] == 0:
        if t["c"] == "num": return scalar(rng)
        if t["c"] == "mul": return mulval(rng, t["b"], bad)
        if rng.random() < .12: return {"k": "u", "perl": "undef"}
        if t["c"] == "str": return scalar(rng) if rng.random() < .75 else pool(rng.choice(OBJ["string"]))
        if t["c"] == "any": return pool(rng.choice(OBJ["any"])) if rng.random() < .5 else next(x for x in iter(lambda: scalar(rng), 0) if x["p"] or rng.random() < .2)
        return pool(rng.choice(OBJ[t["b"]]))
    if rng.random() < .1: return {"k": "u", "perl": "undef"}
    same = [i for i, (x, _) in POOL.items() if x["d"] == t["d"] and (x["b"] == t["b"] or t["c"] in ("cls", "ifc") and x["c"] in ("cls", "ifc") or t["c"] == "any" and (x["c"] not in ("num", "mul")))]
    if same and rng.random() < .3: return pool(rng.choice(same))
    et = dict(t, d=t["d"] - 1)
    n = rng.choice([0, 1, 1, 2, 3, 4])
    if et["c"] == "any" and et["d"] == 0:
        return aref([pool(rng.choice(OBJ["any"])) if rng.random() < .85 else {"k": "u", "perl": "undef"} for _ in range(n)])
    if et["d"] > 0:
        fit = [i for i, (x, _) in POOL.items() if x["d"] == et["d"] and x["b"] == et["b"]]
        return aref([pool(rng.choice(fit)) if fit and rng.random() < .8 else {"k": "u", "perl": "undef"} for _ in range(n)])
    return aref([value(rng, et, bad / 3) for _ in range(n)])


def pick_type(rng):
    return dict(rng.choice(rng.choice([SCALARS, SCALARS, REFS, ARRAYS, DEEP])))


def method(rng, i):
    n = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5])
    types = [pick_type(rng) for _ in range(n)]
    req = n
    while req > 0 and rng.random() < .3 and types[req - 1]["r"] == 0 and not (types[req - 1]["c"] == "mul" and types[req - 1]["d"] == 0): req -= 1
    args = []
    for j, t in enumerate(types):
        v = rng.choice([3, -1, 0, 7])
        args.append({"t": t, "v": views(v, float(v), b"", 0, ""), "n": v})
    writes = []
    for j, t in enumerate(types):
        if t["r"] and rng.random() < .7:
            x = rng.choice([1, -2, 77, -128])
            writes.append({"a": j + 1, "f": rng.randint(1, len(MUL[t["b"]][1])) if t["c"] == "mul" else 0, "v": views(x, float(x), b"", 0, ""), "n": x})
    rets = [j + 1 for j, t in enumerate(types) if not t["r"]]
    return {"name": "m%d" % i, "inst": int(rng.random() < .3), "args": args, "req": req, "writes": writes, "die": int(rng.random() < .08),
            "ret": rng.choice(rets) if rets and rng.random() < .85 else 0, "any": rng.random() < .3, "errcls": rng.random() < .5}


def msrc(m):
    cls = "EA" if m["inst"] else "EX"
    m["cls"] = cls
    sig, log = [], []
    for j, a in enumerate(m["args"]):
        t = a["t"]
        d = ""
        if j >= m["req"]: d = " = %s" % (a["n"] if t["c"] == "num" and t["d"] == 0 else "undef")
        sig.append("$a%d : %s%s" % (j, tn(t), d))
        num = lambda b, e: "(%s)%s" % ("long" if b not in ("float", "double") else "double", e)
        if t["c"] == "num" and t["d"] == 0: log.append('EX->l("" . %s);' % num(t["b"], "$$a%d" % j if t["r"] else "$a%d" % j))
        elif t["c"] == "mul" and t["d"] == 0: log.append('EX->l("{" . %s . "}");' % ' . "," . '.join(num(MUL[t["b"]][0], "$a%d->{%s}" % (j, f)) for f in MUL[t["b"]][1]))
        else: log.append("EX->l(EX->v($a%d));" % j)
    for w in m["writes"]:
        t = m["args"][w["a"] - 1]["t"]
        if t["c"] == "num": log.append("$$a%d = (%s)%d;" % (w["a"] - 1, t["b"], w["n"]))
        else: log.append("$a%d->{%s} = (%s)%d;" % (w["a"] - 1, MUL[t["b"]][1][w["f"] - 1], MUL[t["b"]][0], w["n"]))
    if m["die"]: log.append('die %s"thrown";' % ("EErr " if m["errcls"] else ""))
    if m["ret"]: log.append("return $a%d;" % (m["ret"] - 1))
    t = m["args"][m["ret"] - 1]["t"] if m["ret"] else None
    rt = "void" if not t else "object" if m["any"] and (t["d"] > 0 or t["c"] not in ("num", "mul")) else tn(t)
    m["rt"] = t
    return "  %smethod %s : %s (%s) { EX->l(\"%s\"); %s }\n" % ("" if m["inst"] else "static ", m["name"], rt, ", ".join(sig), m["name"], " ".join(log))


def vsrc():
    s = ["""  static method v : string ($o : object) {
    unless ($o) { return "u"; }
    if ($o is_type string) { return "s:" . &hex((string)$o); }
    my $n = (string)(type_name $o);
    my $r = "";
"""]
    for b in NUMS:
        s.append('    if ($o is_type %s[]) { my $a = (%s[])$o; for (my $i = 0; $i < @$a; $i++) { if ($i) { $r .= ","; } $r .= (%s)$a->[$i]; } return $n . "<" . $r . ">"; }\n' % (b, b, "double" if b in ("float", "double") else "long"))
    for b, (nb, fs) in MUL.items():
        body = ' . "," . '.join('(%s)$a->[$i]{%s}' % ("double" if nb in ("float", "double") else "long", f) for f in fs)
        s.append('    if ($o is_type %s[]) { my $a = (%s[])$o; for (my $i = 0; $i < @$a; $i++) { if ($i) { $r .= ","; } $r .= "{" . %s . "}"; } return $n . "<" . $r . ">"; }\n' % (b, b, body))
    s.append("""    if ($o isa object[]) { my $a = (object[])$o; for (my $i = 0; $i < @$a; $i++) { if ($i) { $r .= ","; } $r .= &v($a->[$i]); } return $n . "<" . $r . ">"; }
    if ($o isa EA) { return $n . "#" . ((EA)$o)->id; }
    if ($o isa EC) { return $n . "#" . ((EC)$o)->id; }
    return "?" . $n;
  }
""")
    return "".join(s)


def classes(methods):
    ex = "class EX {\n" + "".join("  use %s;\n" % x for x in ["EA", "EB", "EC", "EI", "EErr"] + list(MUL)) + """  our $LOG : string;
  static method l : void ($s : string) { if ($LOG) { $LOG .= " " . $s; } else { $LOG = copy $s; } }
  static method log : string () { my $r = $LOG; $LOG = undef; return $r; }
  static method hex : string ($s : string) {
    my $h = "0123456789abcdef"; my $n = length $s; my $r = (mutable string)new_string_len(2 * $n);
    for (my $i = 0; $i < $n; $i++) { my $c = (int)$s->[$i] & 255; $r->[2*$i] = $h->[$c >> 4]; $r->[2*$i+1] = $h->[$c & 15]; }
    return $r;
  }
  static method deep : object ($s : string) {
    my $ii = new int[][2]; $ii->[0] = [7, -8];
    if ($s eq "Aiii") { my $r = new int[][][1]; $r->[0] = $ii; return $r; }
    if ($s eq "Ap") { return new EM_2d[0]; }
    if ($s eq "Amm") { my $m = new EM_2i[2]; $m->[0]{y} = 3; $m->[0]{x} = -4; my $r = new EM_2i[][2]; $r->[0] = $m; return $r; }
    return undef;
  }
""" + vsrc() + "".join(msrc(m) for m in methods if not m["inst"]) + "}\n"
    ea = "class EA {\n  use EX;\n  use EErr;\n  use EI;\n" + "".join("  use %s;\n" % x for x in MUL) + """  has id : public int;
  method id : int () { return $self->{id}; }
  static method new : EA ($id : int) { my $o = new EA; $o->{id} = $id; return $o; }
""" + "".join(msrc(m) for m in methods if m["inst"]) + "}\n"
    sh = {"EX": ex, "EA": ea,
          "EB": "class EB extends EA : public {\n  interface EI;\n  static method new : EB ($id : int) { my $o = new EB; $o->{id} = $id; return $o; }\n  method ival : int () { return 1; }\n}\n",
          "EC": "class EC : public {\n  interface EI;\n  has id : public int;\n  method id : int () { return $self->{id}; }\n  static method new : EC ($id : int) { my $o = new EC; $o->{id} = $id; return $o; }\n  method ival : int () { return 2; }\n}\n",
          "EI": "class EI : interface_t {\n  required method ival : int ();\n}\n", "EErr": "class EErr extends Error : public;\n"}
    for b, (nb, fs) in MUL.items():
        sh[b] = "class %s : mulnum_t {\n%s}\n" % (b, "".join("  has %s : %s;\n" % (f, nb) for f in fs))
    return sh


PRE = r"""use strict; use warnings; no warnings qw(numeric once uninitialized portable); use utf8 ();
unshift @INC, $ARGV[0];
require SPVM; SPVM->import('EX'); SPVM->import('EA'); SPVM->import('EB'); SPVM->import('EC');
my $api = SPVM::api();
our (%P, $q);
$| = 1;
my %MUL = (@MUL@);
sub d8 { my $s = pack("H*", $_[0]); utf8::decode($s) or die; utf8::upgrade($s); return $s }
sub num { my ($b, $v) = @_; return "undef" unless defined $v; return ref($v) if ref $v; return $b =~ /^(float|double)$/ ? sprintf("%g|", $v) . unpack("H*", pack("d<", $v)) : "$v" }
sub mul { my ($b, $h) = @_; return "nohash:" . ref($h) unless ref($h) eq "HASH"; my ($nb, @f) = @{$MUL{$b}}; return "keys" if join(",", sort keys %$h) ne join(",", sort @f) && !$_[2];
  return "{" . join(",", map { num($nb, $h->{$_}) } @f) . "}" }
sub V { my ($o) = @_;
  return "u" unless defined $o;
  my $r = ref $o;
  return "s:" . unpack("H*", $o->to_bin) if $r eq "SPVM::BlessedObject::String";
  if ($r eq "SPVM::BlessedObject::Class") { return $o->__get_type_name . "#" . $o->id }
  if ($r eq "SPVM::BlessedObject::Array") {
    my $t = $o->__get_type_name; my ($b, $d) = $t =~ /^([\w:]+)((?:\[\])+)$/; $d = length($d) / 2;
    my $e = $o->to_elems;
    my @x = map { $d == 1 && $MUL{$b} ? mul($b, $_) : $d == 1 && $b =~ /^(byte|short|int|long|float|double)$/ ? num($b, $_) : V($_) } @$e;
    return "$t<" . join(",", @x) . ">";
  }
  return "perl:$r";
}
{ package T1; sub TIESCALAR { bless [$_[1]] } sub FETCH { $_[0][0] } sub STORE { $_[0][0] = $_[1] } }
use Tie::Array; use Tie::Hash;
# the same value seen through a tied variable
sub inner { my $v = $_[0]; return $v unless ref $v eq "ARRAY" || ref $v eq "HASH"; if (ref $v eq "ARRAY") { tie my @a, "Tie::StdArray"; @a = map { inner($_) } @$v; return \@a } tie my %h, "Tie::StdHash"; $h{$_} = inner($v->{$_}) for keys %$v; return \%h }
sub M { my $v = inner($_[0]); tie my $t, "T1", $v; \$t }
sub mem { $api->set_exception(undef); return $api->get_memory_blocks_count }
sub R { my ($n, $f) = @_;
  my $m0 = mem();
  my $out;
  { local $@; my @r = eval { $f->() };
    if (!@r) { my $e = $@; my $l = $api->call_method("EX", "log"); $out = defined $l ? "E|" . $l->to_bin . "|" . ($e =~ /thrown/ ? 1 : 0) : "R|" . ($e =~ /^\S/ ? "" : "noexc"); }
    else { my $l = $api->call_method("EX", "log"); $out = join("|", "K", defined $l ? $l->to_bin : "u", @r); } }
  my $m1 = mem();
  print "$n $out|", $m1 - $m0, "\n";
}
{ my $s = sub { $api->new_string($_[0]) };
  %P = (a1 => SPVM::EA->new(1), a2 => SPVM::EA->new(2), b3 => SPVM::EB->new(3), c4 => SPVM::EC->new(4), s5 => $s->("hi"), s6 => $s->("\xff\0"));
  $P{Ai} = $api->new_int_array([7, -8]); $P{Ab} = $api->new_byte_array([1]); $P{Ad} = $api->new_double_array([1.5, 0.1]); $P{Af} = $api->new_float_array([2.5]);
  $P{Al} = $api->new_long_array([]); $P{Ash} = $api->new_short_array([5]); $P{As} = $api->new_string_array(["a", undef]); $P{Aa} = $api->new_object_array("EA[]", [$P{a1}, $P{b3}, undef]);
  $P{Abb} = $api->new_object_array("EB[]", [$P{b3}]); $P{Ac} = $api->new_object_array("EC[]", []); $P{Ae} = $api->new_object_array("EI[]", [$P{b3}, $P{c4}]);
  $P{Ao} = $api->new_any_object_array([$P{s5}, $P{Ai}, undef, $P{c4}]); $P{Am} = $api->new_mulnum_array("EM_2i[]", [{y => 3, x => -4}, {x => 0, y => 0}]);
  $P{Aii} = $api->new_muldim_array("int[][]", [$P{Ai}, undef]); $P{Ass} = $api->new_muldim_array("string[][]", [$P{As}]); $P{Aaa} = $api->new_muldim_array("EA[][]", [$P{Aa}]);
  $P{$_} = $api->call_method("EX", "deep", $_) for qw(Aiii Ap Amm);
}
"""


def make(rng, c):
    methods = [method(rng, i) for i in range(c.q(440, 1200))]
    rows = []
    for mi, m in enumerate(methods):
        m["req"] = m["req"]
        for _ in range(c.q(20, 60)):
            n = rng.randint(m["req"], len(m["args"]))
            if rng.random() < .04: n = rng.choice([m["req"] - 1, len(m["args"]) + 1])
            bad = rng.choice([0, 0, .08, .3])
            a = [value(rng, m["args"][j]["t"], bad) if j < len(m["args"]) else any_value(rng) for j in range(max(n, 0))]
            r = {"f": "call", "m": mi + 1, "a": a, "how": "class", "cls": "EA" if m["inst"] else "EX", "inv": "", "via": rng.randrange(3)}
            if m["inst"] != (rng.random() < .04):
                r["how"] = "obj"; r["inv"] = rng.choice(["a1", "a2", "b3", "b3", "c4"] if rng.random() < .3 else ["a1", "b3"]); r["cls"] = rng.choice(["", "", "", "EA", "EB"]) if rng.random() < .3 else ""
            rows.append(r)
    for _ in range(c.q(4000, 16000)):
        t = dict(rng.choice(rng.choice([ARRAYS, ARRAYS, DEEP])))
        how = rng.choice(["list", "list", "list", "len", "bin"])
        if how == "bin" and (t["d"] > 1 or t["c"] not in ("num", "mul")): how = "list"
        r = {"f": "arr", "t": t, "how": how, "v": {"k": "u", "perl": "undef"}, "n": 0, "bin": [], "ops": [], "uns": rng.random() < .3}
        if how == "list": r["v"] = value(rng, t, rng.choice([0, 0, .1]))
        if how == "len": r["n"] = rng.choice([0, 1, 2, 3, 5, -1, -2**31])
        if how == "bin":
            nb = t["b"] if t["c"] == "num" else MUL[t["b"]][0]
            k = rng.choice([0, 1, 2, 3, 4, 6])
            if nb in ("float", "double"): r["bin"] = list(b"".join(struct.pack("<" + nb[0], rng.choice([0, 1.5, -2.25, 0.1, 1e10])) for _ in range(k)))
            else: r["bin"] = [rng.randrange(256) for _ in range(k * W[nb])]
            if rng.random() < .15: r["bin"] = r["bin"][:-1] if rng.random() < .5 and r["bin"] else r["bin"] + [1]
        if how != "list" or r["v"]["k"] == "a":
            for _ in range(rng.randint(0, 4)):
                o = rng.choice(["get", "set", "set"])
                v = {"k": "u", "perl": "undef"}
                if o == "set":
                    et = dict(t, d=t["d"] - 1)
                    if et["d"] == 0 and et["c"] == "num": v = scalar(rng)
                    elif et["d"] == 0 and et["c"] == "mul": v = mulval(rng, et["b"]) if rng.random() < .5 else any_value(rng)
                    else: v = pool(rng.choice(list(POOL))) if rng.random() < .5 else rng.choice([{"k": "u", "perl": "undef"}, scalar(rng), aref([]), {"k": "code", "perl": "sub {1}"}]) if rng.random() < .3 else value(rng, et, 0)
                    if v["k"] == "a" or v["k"] == "sc" and (et["d"] > 0 or et["c"] not in ("num", "mul")): pass
                r["ops"].append({"o": o, "i": rng.choice([0, 0, 1, 2, 3, -1, 5, 2**31 - 1]), "v": v})
        rows.append(r)
    return methods, rows


def mag(r, x): return "${M(%s)}" % x if r["mag"] else x


def acall(r):
    t = r["t"]
    if r["how"] == "list": suf, x = "", mag(r, r["v"]["perl"])
    elif r["how"] == "len": suf, x = "_len", str(r["n"])
    else: suf, x = "_from_bin", mag(r, 'pack("H*", "%s")' % bytes(r["bin"]).hex())
    if t["d"] > 1: return '$api->new_muldim_array%s("%s", %s)' % (suf, tn(t), x)
    if t["c"] == "num":
        if suf == "" and r["uns"] and t["b"] in ("byte", "short", "int", "long") and all_int(r["v"]): suf = "_unsigned"
        return "$api->new_%s_array%s(%s)" % (t["b"], suf, x)
    if t["c"] == "str": return "$api->new_string_array%s(%s)" % (suf, x)
    if t["c"] == "any" and r["uns"]: return "$api->new_any_object_array%s(%s)" % (suf, x)
    if t["c"] == "mul": return '$api->new_mulnum_array%s("%s", %s)' % (suf, tn(t), x)
    return '$api->new_object_array%s("%s", %s)' % (suf, tn(t), x)


def all_int(v):
    # as unsigned a negative non-integer number is another matter
    return v["k"] != "a" or all(e["k"] != "sc" or not (e["perl"].startswith('unpack("d') or e["p"]) for e in v["e"])


def perl_row(i, r, methods):
    r["mag"] = i % 4 == 3
    if r["f"] == "call":
        m = methods[r["m"] - 1]
        pre, args, refs = [], [], []
        for j, v in enumerate(r["a"]):
            isref = j < len(m["args"]) and m["args"][j]["t"]["r"] and v["k"] == "r"
            if isref: pre.append(("my $r%d; { my $w = %s; if (ref $w) { $r%d = $w } else { tie $r%d, 'T1', $w } }" % (j, v["v"]["perl"], j, j)) if r["mag"] else "my $r%d = %s;" % (j, v["v"]["perl"])); args.append("\\$r%d" % j)
            else: pre.append("my $v%d = %s;" % (j, v["perl"])); args.append(("${M($v%d)}" if r["mag"] else "$v%d") % j)
            if isref:
                t = m["args"][j]["t"]
                refs.append('num("%s", $r%d)' % (t["b"], j) if t["c"] == "num" else 'mul("%s", $r%d, 1)' % (t["b"], j))
        name = m["name"]
        a = ", ".join(args)
        if r["how"] == "obj":
            name = (r["cls"] + "::" if r["cls"] else "") + name
            call = '$api->call_method(%s, "%s", %s)' % ("${M($P{%s})}" % r["inv"] if r["mag"] else "$P{%s}" % r["inv"], name, a) if r["cls"] or r["via"] else "$P{%s}->%s(%s)" % (r["inv"], name, a)
        else:
            call = ['$api->call_method("%s", "%s", %s)' % (r["cls"], name, a), "SPVM::%s->%s(%s)" % (r["cls"], name, a), '$api->class("%s")->%s(%s)' % (r["cls"], name, a)][r["via"]]
        t = m["rt"]
        view = 'defined $x ? "value" : "u"' if not t else 'num("%s", $x)' % t["b"] if t["c"] == "num" and t["d"] == 0 else 'mul("%s", $x)' % t["b"] if t["c"] == "mul" and t["d"] == 0 else "V($x)"
        return "R(%d, sub { %s my $x = %s; return (%s, %s) });\n" % (i, " ".join(pre), call, view, 'join(";", %s)' % ", ".join(refs) if refs else '""')
    t = r["t"]
    ops = []
    isn = t["d"] == 1 and t["c"] in ("num", "mul")
    for o in r["ops"]:
        if o["o"] == "get": ops.append('eval { my $g = $x->get(%d); $o .= %s . ";"; 1 } or $o .= "R;";' % (o["i"], 'num("%s", $g)' % t["b"] if isn and t["c"] == "num" else "V($g)"))
        else: ops.append('eval { $x->set(%d, %s); $o .= "ok;"; 1 } or $o .= "R;";' % (o["i"], mag(r, o["v"]["perl"])))
    tail = 'defined $x ? length($x->to_bin) ? unpack("H*", $x->to_bin) : "" : "u"' if isn else 'defined $x ? (eval { $x->to_bin; 1 } ? "bin" : "") : "u"'
    return 'R(%d, sub { my $x = %s; my $o = ""; %s my $v = $api->call_method("EX", "v", $x); return (V($x), $v->to_bin, $o, (defined $x ? $x->length : "u"), (%s)) });\n' % (i, acall(r), " ".join(ops), tail)


def ptext(i, log):
    x = POOL[i][1]
    if x is None: return "EM_2d[]<>"
    if isinstance(x, tuple):
        return tn(POOL[i][0]) + "<" + ",".join(("%g" % (fl(y) if i == "Af" else y)) if log else tok(fl(y) if i == "Af" else y) for y in x[1]) + ">"
    return x


def text(v, t, log):
    k = v["k"]
    if k == "U": return "u"
    if k == "R": return "R"
    if k == "ok": return "ok"
    if k == "i": return str(int.from_bytes(bytes(v["v"]), "little", signed=True))
    if k == "f":
        x = v["v"] if "|" in v["v"] else tok(float(v["v"]))
        return x.split("|")[0] if log else x
    if k == "x":
        x = struct.unpack("<" + ("f" if len(v["v"]) == 4 else "d"), bytes(v["v"]))[0]
        return "%g" % x if log else tok(x)
    if k == "S": return "s:" + bytes(v["v"]).hex()
    if k == "O": return ptext(v["id"], log)
    if k == "M": return "{" + ",".join(text(x, None, log) for x in v["v"]) + "}"
    if k == "A": return v["b"] + "[]" * v["d"] + "<" + ",".join(text(x, None, log) for x in v["v"]) + ">"
    raise KeyError(k)


def tobin(v):
    if v["k"] in ("i", "x"): return bytes(v["v"])
    if v["k"] == "M": return b"".join(tobin(x) for x in v["v"])
    raise KeyError(v["k"])


def fbin(v, nb):
    if v["k"] == "M": return b"".join(fbin(x, nb) for x in v["v"])
    if v["k"] == "f":
        x = struct.unpack("<d", bytes.fromhex(v["v"].split("|")[1]))[0] if "|" in v["v"] else float(v["v"])
        return struct.pack("<" + nb[0], x)
    return bytes(v["v"])


def want(r, e, m):
    if r["f"] == "call":
        if e["ok"] == 0: return "R||0"
        if e["ok"] == 2: return None
        log = " ".join([m["name"]] + [text(x, None, True) for x in e["log"]])
        if e["ok"] == 3: return "E|%s|1|0" % log
        return "K|%s|%s|%s|0" % (log, text(e["ret"], None, False) if m["ret"] else "u", ";".join(text(x["v"], None, False) for x in e["refs"]))
    if e["ok"] == 0: return "R||0"
    v, t = e["v"], r["t"]
    isn = t["d"] == 1 and t["c"] in ("num", "mul")
    if v["k"] == "A": ln, b = str(len(v["v"])), b"".join(fbin(x, t["b"] if t["c"] == "num" else MUL[t["b"]][0]) for x in v["v"]).hex() if isn else ""
    elif v["k"] == "U": ln, b = "u", "u"
    else: return "K|u|%s|%s||" % (text(v, None, False), text(v, None, True))       # an array of the pool itself: prefix
    return "K|u|%s|%s|%s|%s|%s|0" % (text(v, None, False), text(v, None, True), "".join(text(x, None, False) + ";" for x in e["res"]), ln, b)


def strip(x):
    if isinstance(x, dict): return {k: strip(v) for k, v in x.items() if k not in ("perl", "uns", "via")}
    if isinstance(x, list): return [strip(v) for v in x]
    return x


def check(c):
    c.assumptions += ["Perl's own conversions SvIV, SvNV and SvPV are taken as they are"]
    rng = random.Random("c18/%d" % c.seed)
    methods, rows = make(rng, c)
    shared = classes(methods)
    data = {"rows": strip(rows), "pool": {k: v[0] for k, v in POOL.items()}, "fields": {b: f for b, (_, f) in MUL.items()}, "fieldof": {b: n for b, (n, _) in MUL.items()},
            "methods": [{k: strip(m[k]) for k in ("cls", "inst", "args", "req", "writes", "die", "ret")} for m in methods]}
    for m in data["methods"]: m["args"] = [{"t": a["t"], "v": a["v"]} for a in m["args"]]
    t = c.tlc("Exchange", "CONSTANT RowFile = \"rows.json\"\nINIT Init\nNEXT Next\nINVARIANT LawsOnce\nCHECK_DEADLOCK FALSE\n", files={"rows.json": json.dumps(data)}, timeout=c.q(300, 3000), heap="8g")
    exp = [json.load(open(os.path.join(t["dir"], "out_%d.json" % (i + 1)))) for i in range(len(rows))]
    c.build(libs=vp.CORE_LIBS)
    d = os.path.join(c.scratch, "ex")
    vp.write_classes(d, shared)
    pre = PRE.replace("@MUL@", ", ".join('%s => ["%s", %s]' % (b, nb, ", ".join('"%s"' % f for f in fs)) for b, (nb, fs) in MUL.items()))
    got = {}

    def shard(name, idx):
        f = os.path.join(d, name + ".pl")
        with open(f, "w") as fh: fh.write(pre + "".join(perl_row(i, rows[i], methods) for i in idx) + 'print "DONE\\n";\n')
        r = c.perl([f, d], timeout=c.q(120, 900), cwd=d)
        for l in r.out.decode("latin-1").split("\n"):
            k, _, v = l.partition(" ")
            if k.isdigit(): got[int(k)] = v
        return r

    def run(name, idx):
        r = shard(name, idx)
        if b"DONE" in r.out and r.rc == 0: return
        n = 0
        while n < 6:
            left = [i for i in idx if i not in got]
            if not left: break
            got[left[0]] = "crash status %d: %s" % (r.rc, r.err[-300:].decode("latin-1"))
            left = left[1:]; n += 1
            if not left: break
            r = shard("%s_%d" % (name, n), left)
            if b"DONE" in r.out and r.rc == 0: break
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(vp.NCPU) as ex:
        list(ex.map(lambda k: run("p%d" % k, list(range(k, len(rows), vp.NCPU))), range(vp.NCPU)))
    nk = {}
    for i, r in enumerate(rows):
        m = methods[r["m"] - 1] if r["f"] == "call" else None
        w, g = want(r, exp[i], m), got.get(i, "nothing")
        key = r["f"] + ":" + (str(exp[i]["ok"]))
        nk[key] = nk.get(key, 0) + 1
        c.cov["traces_validated_against_impl"] += 1
        if w is None:
            if not g.startswith("crash") and g.endswith("|0"): continue
            w = "any outcome that is not a crash and leaves no memory behind"
        elif w.endswith("||"):
            if g.startswith(w) and g.endswith("|0"): continue
        elif g == w: continue
        what = (m["name"] + "(" + ", ".join(tn(a["t"]) for a in m["args"]) + ")" if m else "array " + tn(r["t"])) + " : " + perl_row(i, r, methods).strip()
        c.violation("row:%s" % what[:200], "%s\n  expected %s\n  got      %s" % (what, w, g), {"row": r, "expected": w, "got": g, "method": msrc(m) if m else ""})
    c.cov["kinds"] = nk
    c.log("rows %s" % nk)


vp.main("C18", check)
