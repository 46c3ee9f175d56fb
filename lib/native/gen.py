"""The two sides of Native.tla: classes NtS (SPVM) and NtC (native, with the same methods)."""
T = ["byte", "short", "int", "long", "float", "double"]
F = ["b", "s", "i", "l", "f", "d"]
CT = ["int8_t", "int16_t", "int32_t", "int64_t", "float", "double"]
ST = ["bval", "sval", "ival", "lval", "fval", "dval"]
CV = [["0", "127", "-128", "-1"], ["0", "32767", "-32768", "-2"], ["0", "2147483647", "(-2147483647-1)", "-3"], ["0", "9223372036854775807LL", "(-9223372036854775807LL-1)", "4294967301LL"],
      ["0", "1.5f", "-3.4028235e38f", "0.1f"], ["0", "0.1", "-1.7976931348623157e308", "2.2250738585072014e-308"]]
SV = [["0", "127", "-128", "-1"], ["0", "32767", "-32768", "-2"], ["0", "2147483647", "(-2147483647 - 1)", "-3"], ["0", "9223372036854775807L", "(-9223372036854775807L - 1L)", "4294967301L"],
      ["0f", "1.5f", "-3.4028235e38f", "0.1f"], ["0.0", "0.1", "-1.7976931348623157e308", "2.2250738585072014e-308"]]
SIG = """new : void ($i : int, $c : int, $id : int)
drop : void ($i : int)
move : void ($i : int, $j : int)
setn : void ($i : int, $f : int, $x : int)
getn : int ($i : int, $f : int)
seto : void ($i : int, $j : int)
geto : void ($i : int, $j : int)
weak : void ($i : int)
unw : void ($i : int)
isw : int ($i : int)
sets : void ($i : int, $x : int)
gets : int ($i : int)
cat : int ($i : int, $x : int)
mkk : object ($k : int)
query : int ($o : object, $q : int)
tname : int ($o : object)
eisa : int ($a : object, $b : object)
cpy : object ($o : object)
ist : int ($o : object, $b : int, $q : int)
diffs : int ($o : object, $f : int)
mkm : object ($m : int, $n : int)
cpm : object ($o : object)
difm : int ($o : object, $m : int)
lenm : int ($o : object, $m : int)
cpys : int ($x : int, $q : int)
mkro : string ()
setro : void ($s : string)
isro : int ($s : string)
short : int ($n : int, $q : int)
strs : string[] ($x : int, $y : int)
strx : int ($a : string[], $i : int)
box : object ($f : int, $x : int)
unbox : int ($o : object, $f : int)
muls : Nt_2i[] ($n : int)
mulx : int ($a : Nt_2i[], $i : int)
mdim : int[][] ($n : int)
mdimx : int ($a : int[][], $i : int)
ptr : int ($x : int, $q : int)
dumps : int ($i : int, $d : string)
boom : void ($i : int, $c : int, $x : int)
relay : void ($c : int, $x : int)
keep : int ($n : int, $q : int)
setg : void ($i : int)
getg : void ($i : int)
setgn : void ($f : int, $x : int)
getgn : int ($f : int)
setgs : void ($x : int)
getgs : int ()
arr : int ($i : int, $j : int)
aset : void ($x : int, $i : int)
aget : void ($x : int, $i : int)
adrop : void ()
virt : int ($i : int)
stat : int ($i : int)
isa_ : int ($i : int, $q : int)
throw : void ($c : int, $x : int)
tmp : void ($n : int)
scope : int ($n : int)
deep : int ($d : int, $x : int)
ident : void ($i : int, $j : int)
give : NtN ($o : NtN)
catch : int ($c : int, $x : int)
opt : int ($a : int, $b : int = 5, $c : int = 6)
mul : Nt_2i ($p : Nt_2i)
mk : object ($f : int, $n : int)
rd : int ($o : object, $f : int, $i : int)
alen : int ($o : object, $f : int)""".split("\n") + ["ref%s : void ($x : int, $r : %s*)" % (F[k], T[k]) for k in range(6)]

KN = ["string", "int[]", "NtN", "NtM", "NtN[]", "Nt_2i[]", "int[][]", "object[]", "Int", "string[]", "NtM[]", "double[]", "NtP", "NtN[][]"]
BOX = ["Byte", "Short", "Int", "Long", "Float", "Double"]

MM = ["Nt_2b", "Nt_3s", "Nt_4i", "Nt_2l", "Nt_5f", "Nt_2d"]       # a multi-numeric type of each element type
MF = [2, 3, 4, 2, 5, 2]


def each(fmt): return "\n".join(fmt % {"k": k + 1, "t": T[k], "f": F[k], "F": F[k].upper(), "c": CT[k], "st": ST[k], "cv": ", ".join(CV[k]), "X": BOX[k], "M": MM[k], "w": MF[k]} for k in range(6))


N = """class NtN : public {
  use NtV; use NtS;
  has b : public byte; has id : public int; has s : public short; has l : public long; has f : public float; has i : public int; has d : public double;
  has o : public NtN; has str : public string;
  method kind : int () { return 1; }
  method boom : void ($c : int, $x : int) { NtS->throw($c, $x); }
  method DESTROY : void () { $NtV::L->[$NtV::LN] = $self->{id}; $NtV::LN++; }
}
"""
V = """class NtV {
  use NtN; use NtC;
  our $V : public NtN[]; our $A : public NtN[]; our $G : public NtN; our $L : public int[]; our $LN : public int; our $TC : public int; our $R : public int[]; our $RN : public int; our $BASE : int;
""" + each("  our $X%(F)s : public %(t)s;") + """
  our $GS : public string;
  static method r1 : void ($x : int) { $R->[$RN] = $x; $RN++; }
  static method obs : void ($ok : int, $eid : int) {
    my $e = $@; if ($ok) { $e = undef; } my $err = 0;
    if ($e) { if ($e->[0] == 'm') { $err = (int)$e->[1] - '0'; if ($eid == basic_type_id NtErr) { $err += 10; } elsif ($eid != basic_type_id Error) { $err += 1000 * $eid; } } else { $err = 100; } }
    $e = undef; eval { };
    my $m = NtC->mem;
    if ($BASE < 0) { $BASE = $m; $LN = 0; $TC = 0; $RN = 0; return; }
    my $s = "";
    if ($err == 0) { $s .= "ok"; for (my $i = 0; $i < $RN; $i++) { $s .= " " . $R->[$i]; } }
    elsif ($err == 100) { $s .= "invocant"; } else { $s .= "die " . ($err / 10) . " " . ($err % 10); }
    $s .= "|"; for (my $i = 0; $i < @$V; $i++) { $s .= " "; if ($V->[$i]) { $s .= $V->[$i]{id}; } else { $s .= 0; } }
    $s .= "|"; if ($G) { $s .= $G->{id}; } else { $s .= 0; }
    $s .= "|"; if ($A) { for (my $i = 0; $i < @$A; $i++) { $s .= " "; if ($A->[$i]) { $s .= $A->[$i]{id}; } else { $s .= 0; } } }
    $s .= "|"; for (my $id = 1; $id <= 30; $id++) { for (my $i = 0; $i < $LN; $i++) { if ($L->[$i] == $id) { $s .= " " . $id; } } }
    $s .= "|" . $TC . "|" . ($m - $BASE);
    VP->mark($s);
    $LN = 0; $TC = 0; $RN = 0;
  }
  static method quiet : void () { eval { }; $LN = 0; $TC = 0; $RN = 0; }
  static method start : void ($n : int) {
    $V = undef; $A = undef; $G = undef; $GS = undef;
""" + each("    $X%(F)s = (%(t)s)0;") + """
    $V = new NtN[$n]; $L = new int[2000]; $R = new int[20]; $LN = 0; $TC = 0; $RN = 0; $BASE = -1;
  }
}
"""
SCLASS = """class NtS {
  use NtV; use NtN; use NtM; use NtT; use NtErr; use Nt_2i; use NtC; use NtP; """ + " ".join("use %s;" % x for x in MM) + """ use Fn; use Int; use Byte; use Short; use Long; use Float; use Double;
""" + each("  static method v%(f)s : %(t)s ($x : int) { if ($x == 0) { return %(S0)s; } elsif ($x == 1) { return %(S1)s; } elsif ($x == 2) { return %(S2)s; } return %(S3)s; }\n  static method x%(f)s : int ($v : %(t)s) { for (my $x = 0; $x < 4; $x++) { if (&v%(f)s($x) == $v) { return $x; } } return -1; }".replace("%(S0)s", "(%(t)s)@0@%(k)d@").replace("%(S1)s", "(%(t)s)@1@%(k)d@").replace("%(S2)s", "(%(t)s)@2@%(k)d@").replace("%(S3)s", "(%(t)s)@3@%(k)d@")) + """
  static method str : string ($x : int) {
    if ($x == 0) { return undef; } elsif ($x == 1) { return "a\\0b"; } elsif ($x == 2) { return ""; }
    my $s = (mutable string)new_string_len 300; for (my $i = 0; $i < 300; $i++) { $s->[$i] = (byte)($i * 7); } return $s;
  }
  static method xstr : int ($s : string) {
    unless ($s) { return 0; }
    if (length $s == 3 && $s eq "a\\0b") { return 1; } if (length $s == 0) { return 2; }
    if (length $s == 300) { for (my $i = 0; $i < 300; $i++) { if ($s->[$i] != (byte)($i * 7)) { return -1; } } return 3; }
    return -1;
  }
  static method new : void ($i : int, $c : int, $id : int) { my $o : NtN; if ($c) { $o = new NtM; } else { $o = new NtN; } $o->{id} = $id; $NtV::V->[$i] = $o; }
  static method drop : void ($i : int) { $NtV::V->[$i] = undef; }
  static method move : void ($i : int, $j : int) { $NtV::V->[$i] = $NtV::V->[$j]; }
  static method setn : void ($i : int, $f : int, $x : int) { my $o = $NtV::V->[$i]; switch ($f) {
""" + each("    case %(k)d: { $o->{%(f)s} = &v%(f)s($x); break; }") + """
  } }
  static method getn : int ($i : int, $f : int) { my $o = $NtV::V->[$i]; switch ($f) {
""" + each("    case %(k)d: { return &x%(f)s($o->{%(f)s}); }") + """
  } return -1; }
  static method seto : void ($i : int, $j : int) { $NtV::V->[$i]{o} = $NtV::V->[$j]; }
  static method geto : void ($i : int, $j : int) { $NtV::V->[$j] = $NtV::V->[$i]{o}; }
  static method weak : void ($i : int) { my $o = $NtV::V->[$i]; weaken $o->{o}; }
  static method unw : void ($i : int) { my $o = $NtV::V->[$i]; unweaken $o->{o}; }
  static method isw : int ($i : int) { my $o = $NtV::V->[$i]; return isweak $o->{o}; }
  static method sets : void ($i : int, $x : int) { $NtV::V->[$i]{str} = &str($x); }
  static method gets : int ($i : int) { return &xstr($NtV::V->[$i]{str}); }
  static method cat : int ($i : int, $x : int) { my $a = $NtV::V->[$i]{str}; my $b = &str($x); my $c = $a . $b; return &xcat($c, length $a); }
  static method xcat : int ($c : string, $n : int) { my $a = Fn->substr($c, 0, $n); my $b = Fn->substr($c, $n, length $c - $n); return &xstr($a) * 10 + &xstr($b); }
  static method setg : void ($i : int) { $NtV::G = $NtV::V->[$i]; }
  static method getg : void ($i : int) { $NtV::V->[$i] = $NtV::G; }
  static method setgn : void ($f : int, $x : int) { switch ($f) {
""" + each("    case %(k)d: { $NtV::X%(F)s = &v%(f)s($x); break; }") + """
  } }
  static method getgn : int ($f : int) { switch ($f) {
""" + each("    case %(k)d: { return &x%(f)s($NtV::X%(F)s); }") + """
  } return -1; }
  static method setgs : void ($x : int) { $NtV::GS = &str($x); }
  static method getgs : int () { return &xstr($NtV::GS); }
  static method arr : int ($i : int, $j : int) { my $a = new NtN[3]; $a->[0] = $NtV::V->[$i]; $a->[1] = $NtV::V->[$j]; $NtV::A = $a; return @$a; }
  static method aset : void ($x : int, $i : int) { $NtV::A->[$x] = $NtV::V->[$i]; }
  static method aget : void ($x : int, $i : int) { $NtV::V->[$i] = $NtV::A->[$x]; }
  static method adrop : void () { $NtV::A = undef; }
  static method virt : int ($i : int) { return $NtV::V->[$i]->kind; }
  static method stat : int ($i : int) { return $NtV::V->[$i]->NtN::kind; }
  static method isa_ : int ($i : int, $q : int) { my $o = $NtV::V->[$i]; if ($q == 0) { return $o isa NtN; } elsif ($q == 1) { return $o isa NtM; } return $o is_type NtN; }
  static method throw : void ($c : int, $x : int) { if ($c) { die NtErr "m$x"; } die "m$x"; }
  static method mkk : object ($k : int) {
    if ($k == 1) { return "abc"; } elsif ($k == 2) { return new int[3]; } elsif ($k == 3) { return new NtN; } elsif ($k == 4) { return new NtM; } elsif ($k == 5) { return new NtN[3]; } elsif ($k == 6) { return new Nt_2i[3]; }
    elsif ($k == 7) { return new int[][3]; } elsif ($k == 8) { return new object[3]; } elsif ($k == 9) { return (Int)5; } elsif ($k == 10) { return new string[3]; } elsif ($k == 11) { return new NtM[3]; }
    elsif ($k == 12) { return new double[3]; } elsif ($k == 13) { return new NtP; } return new NtN[][3];
  }
  static method tname : int ($o : object) { my $n = type_name $o; """ + " ".join('if ($n eq "%s") { return %d; }' % (x, i + 1) for i, x in enumerate(KN)) + """ return -1; }
  static method cpy : object ($o : object) {
""" + each("    if ($o is_type %(t)s[]) { return copy (%(t)s[])$o; }") + """
    return undef; }
  static method ist : int ($o : object, $b : int, $q : int) { switch ($b) {
""" + "\n".join("    case %d: { if ($q) { return $o isa %s; } return $o is_type %s; }" % (i + 1, x, x) for i, x in enumerate(KN)) + """
  } return -1; }
  static method diffs : int ($o : object, $f : int) { my $d = 0; switch ($f) {
""" + each("    case %(k)d: { my $a = (%(t)s[])$o; for (my $i = 0; $i < @$a; $i++) { if ($a->[$i] != &v%(f)s(($i + 1) %% 4)) { $d++; } } break; }") + """
  } return $d; }
  static method mkm : object ($m : int, $n : int) { switch ($m) {
""" + "\n".join("    case %d: { my $a = new %s[$n]; for (my $i = 0; $i < $n; $i++) { %s } return $a; }" % (k + 1, MM[k], " ".join("$a->[$i]{f%d} = &v%s(($i + %d) %% 4);" % (j, F[k], j) for j in range(MF[k]))) for k in range(6)) + """
  } return undef; }
  static method cpm : object ($o : object) {
""" + each("    if ($o is_type %(M)s[]) { return copy (%(M)s[])$o; }") + """
    return undef; }
  static method difm : int ($o : object, $m : int) { my $d = 0; switch ($m) {
""" + "\n".join("    case %d: { my $a = (%s[])$o; for (my $i = 0; $i < @$a; $i++) { %s } break; }" % (k + 1, MM[k], " ".join("if ($a->[$i]{f%d} != &v%s(($i + %d) %% 4)) { $d++; }" % (j, F[k], j) for j in range(MF[k]))) for k in range(6)) + """
  } return $d; }
  static method lenm : int ($o : object, $m : int) { switch ($m) {
""" + each("    case %(k)d: { return @{(%(M)s[])$o}; }") + """
  } return -1; }
  static method cpys : int ($x : int, $q : int) { my $s = &str($x); my $t = copy $s; if ($q == 0) { return &xstr($t); } elsif ($q == 1) { return (object)$s != (object)$t; } return is_read_only $t; }
  static method mkro : string () { return (string)new_string_len 5; }
  static method setro : void ($s : string) { make_read_only $s; }
  static method isro : int ($s : string) { return is_read_only $s; }
  static method short : int ($n : int, $q : int) { my $s = (mutable string)&str(3); Fn->shorten($s, $n); if ($q == 0) { return length $s; } return &pre($s, $n); }
  static method pre : int ($s : string, $n : int) { for (my $i = 0; $i < $n; $i++) { if ($s->[$i] != (byte)($i * 7)) { return 0; } } return 1; }
  static method strs : string[] ($x : int, $y : int) { my $a = new string[3]; $a->[0] = &str($x); $a->[1] = &str($x); $a->[0] = &str($y); $a->[2] = &str($y); $a->[2] = undef; return $a; }
  static method strx : int ($a : string[], $i : int) { return &xstr($a->[$i]); }
  static method box : object ($f : int, $x : int) { switch ($f) {
""" + each("    case %(k)d: { return (%(X)s)&v%(f)s($x); }") + """
  } return undef; }
  static method unbox : int ($o : object, $f : int) { switch ($f) {
""" + each("    case %(k)d: { return &x%(f)s((%(t)s)(%(X)s)$o); }") + """
  } return -1; }
  static method muls : Nt_2i[] ($n : int) { my $a = new Nt_2i[$n]; for (my $i = 0; $i < $n; $i++) { $a->[$i]{x} = $i * 2 + 1; $a->[$i]{y} = $i * 2 + 2; } return $a; }
  static method mulx : int ($a : Nt_2i[], $i : int) { if ($i % 2) { return $a->[$i / 2]{y}; } return $a->[$i / 2]{x}; }
  static method mdim : int[][] ($n : int) { my $a = new int[][$n]; for (my $i = 0; $i < $n; $i++) { $a->[$i] = new int[$i + 1]; for (my $j = 0; $j <= $i; $j++) { $a->[$i][$j] = $i + 1; } } return $a; }
  static method mdimx : int ($a : int[][], $i : int) { my $sum = 0; for my $x (@{$a->[$i]}) { $sum += $x; } return $sum; }
  static method dumps : int ($i : int, $d : string) { return (dump $NtV::V->[$i]) eq $d; }
  static method dumpc : string ($i : int) { return dump $NtV::V->[$i]; }
  static method boom : void ($i : int, $c : int, $x : int) { $NtV::V->[$i]->boom($c, $x); }
  static method relay : void ($c : int, $x : int) { NtC->throw($c, $x); }
  static method tmp : void ($n : int) { for (my $i = 0; $i < $n; $i++) { my $t = new NtT; } }
  static method scope : int ($n : int) { my $b = $NtV::TC; { for (my $i = 0; $i < $n; $i++) { my $t = new NtT; } } return $NtV::TC - $b; }
  static method keep : int ($n : int, $q : int) { my $b = $NtV::TC; my $a = new NtT[$n]; for (my $i = 0; $i < $n; $i++) { my $t = new NtT; $t->{x} = $i; $a->[$i] = $t; }
    my $sum = 0; for (my $i = 0; $i < $n; $i++) { $sum += (int)$a->[$i]{x}; } NtV->r1($n); NtV->r1($sum); return $NtV::TC - $b; }
  static method deep : int ($d : int, $x : int) {
    if ($d == 0) { if ($x == 1) { &throw(0, 1); } elsif ($x == 2) { &throw(1, 1); } return 0; }
    my $t = new NtT; return 1 + NtC->deep($d - 1, $x);
  }
  static method ident : void ($i : int, $j : int) { $NtV::V->[$j] = NtC->give($NtV::V->[$i]); }
  static method give : NtN ($o : NtN) { return $o; }
  static method catch : int ($c : int, $x : int) { eval { NtC->throw($c, $x); }; my $id = eval_error_id; my $e = $@; if ($e && $e->[0] == 'm') { return ($id == basic_type_id NtErr) * 10 + (int)$e->[1] - '0'; } return -1; }
  static method opt : int ($a : int, $b : int = 5, $c : int = 6) { my $w = args_width; if ($b != 5 && $w < 2 || $c != 6 && $w < 3) { return -1; } return $w; }
  static method mul : Nt_2i ($p : Nt_2i) { my $q : Nt_2i; $q->{x} = $p->{y}; $q->{y} = $p->{x}; return $q; }
""" + each("  static method ref%(f)s : void ($x : int, $r : %(t)s*) { $$r = &v%(f)s($x); }") + """
  static method mk : object ($f : int, $n : int) { switch ($f) {
""" + each("    case %(k)d: { my $a = new %(t)s[$n]; for (my $i = 0; $i < $n; $i++) { $a->[$i] = &v%(f)s(($i + 1) %% 4); } return $a; }") + """
  } return undef; }
  static method rd : int ($o : object, $f : int, $i : int) { switch ($f) {
""" + each("    case %(k)d: { return &x%(f)s(((%(t)s[])$o)->[$i]); }") + """
  } return -1; }
  static method alen : int ($o : object, $f : int) { switch ($f) {
""" + each("    case %(k)d: { return @{(%(t)s[])$o}; }") + """
  } return -1; }
}
"""
import re
SCLASS = re.sub(r"@(\d)@(\d)@", lambda m: "(%s)" % SV[int(m.group(2)) - 1][int(m.group(1))], SCLASS)
CCLASS = "class NtC {\n  use NtV; use NtN; use NtM; use NtT; use NtErr; use Nt_2i; use NtS;\n  native static method mem : int ();\n" + "\n".join("  native static method %s;" % s for s in SIG) + "\n}\n"
SMALL = {"NtP": "class NtP : pointer public;", "NtM": "class NtM extends NtN : public { method kind : int () { return 2; } has extra : double; }", "NtT": "class NtT : public { use NtV; has x : public long; method DESTROY : void () { $NtV::TC++; } }", "NtErr": "class NtErr extends Error : public;",
         "Nt_2i": "class Nt_2i : mulnum_t { has x : int; has y : int; }"}
A = "&e, __func__, FILE_NAME, __LINE__"
C = """#include "spvm_native.h"
#include <string.h>
static const char* FILE_NAME = "NtC.c";
#define FN(n) int32_t SPVM__NtC__##n(SPVM_ENV* env, SPVM_VALUE* stack)
#define V0 int32_t e = 0; void* arr_v = env->get_class_var_object_by_name(env, stack, "NtV", "$V", """ + A + """); if (e) return e
#define OBJ(i) env->get_elem_object(env, stack, arr_v, i)
""" + each("static %(c)s v%(f)s[] = {%(cv)s};\nstatic int32_t x%(f)s(%(c)s v) { for (int32_t x = 0; x < 4; x++) if (v%(f)s[x] == v) return x; return -1; }") + """
static void* mkstr(SPVM_ENV* env, SPVM_VALUE* stack, int32_t x) {
  if (x == 0) return NULL;
  if (x == 1) return env->new_string(env, stack, "a\\0b", 3);
  if (x == 2) return env->new_string_nolen(env, stack, "");
  char b[300]; for (int32_t i = 0; i < 300; i++) b[i] = (char)(i * 7);
  return env->new_string(env, stack, b, 300);
}
static int32_t xbytes(const char* s, int32_t n) {
  if (n == 3 && memcmp(s, "a\\0b", 3) == 0) return 1;
  if (n == 0) return 2;
  if (n == 300) { for (int32_t i = 0; i < 300; i++) if (s[i] != (char)(i * 7)) return -1; return 3; }
  return -1;
}
static int32_t xstr(SPVM_ENV* env, SPVM_VALUE* stack, void* s) { if (!s) return 0; return env->get_chars(env, stack, s)[env->length(env, stack, s)] ? -2 : xbytes(env->get_chars(env, stack, s), env->length(env, stack, s)); }
FN(mem) { stack[0].ival = env->get_memory_blocks_count(env, stack); return 0; }
FN(new) { int32_t i = stack[0].ival, c = stack[1].ival, id = stack[2].ival; V0;
  void* o = env->new_object_by_name(env, stack, c ? "NtM" : "NtN", %(A)s); if (e) return e;
  env->set_field_int_by_name(env, stack, o, "id", id, %(A)s); if (e) return e;
  env->set_elem_object(env, stack, arr_v, i, o); return 0; }
FN(drop) { int32_t i = stack[0].ival; V0; env->set_elem_object(env, stack, arr_v, i, NULL); return 0; }
FN(move) { int32_t i = stack[0].ival, j = stack[1].ival; V0; env->set_elem_object(env, stack, arr_v, i, OBJ(j)); return 0; }
FN(setn) { int32_t i = stack[0].ival, f = stack[1].ival, x = stack[2].ival; V0; void* o = OBJ(i);
  switch (f) {
""".replace("%(A)s", A) + each("    case %(k)d: if (x %% 2 || !o) env->set_field_%(t)s_by_name(env, stack, o, \"%(f)s\", v%(f)s[x], &e, __func__, FILE_NAME, __LINE__); else env->set_field_%(t)s(env, stack, o, env->get_field_static(env, stack, \"NtN\", \"%(f)s\"), v%(f)s[x]); break;") + """
  } return e; }
FN(getn) { int32_t i = stack[0].ival, f = stack[1].ival; V0; void* o = OBJ(i);
  switch (f) {
""" + each("    case %(k)d: { %(c)s v = env->get_field_%(t)s_by_name(env, stack, o, \"%(f)s\", &e, __func__, FILE_NAME, __LINE__); if (e) return e; if (v != env->get_field_%(t)s(env, stack, o, env->get_field(env, stack, o, \"%(f)s\"))) return env->die(env, stack, \"field\"); stack[0].ival = x%(f)s(v); break; }") + """
  } return e; }
FN(seto) { int32_t i = stack[0].ival, j = stack[1].ival; V0; env->set_field_object_by_name(env, stack, OBJ(i), "o", OBJ(j), %(A)s); return e; }
FN(geto) { int32_t i = stack[0].ival, j = stack[1].ival; V0; void* o = env->get_field_object_by_name(env, stack, OBJ(i), "o", %(A)s); if (e) return e; env->set_elem_object(env, stack, arr_v, j, o); return 0; }
FN(weak) { int32_t i = stack[0].ival; V0; void** r = env->get_field_object_ref_by_name(env, stack, OBJ(i), "o", %(A)s); if (e) return e; return env->weaken(env, stack, r); }
FN(unw) { int32_t i = stack[0].ival; V0; void** r = env->get_field_object_ref_by_name(env, stack, OBJ(i), "o", %(A)s); if (e) return e; env->unweaken(env, stack, r); return 0; }
FN(isw) { int32_t i = stack[0].ival; V0; void** r = env->get_field_object_ref_by_name(env, stack, OBJ(i), "o", %(A)s); if (e) return e; stack[0].ival = env->isweak(env, stack, r); return 0; }
FN(sets) { int32_t i = stack[0].ival, x = stack[1].ival; V0; env->set_field_string_by_name(env, stack, OBJ(i), "str", mkstr(env, stack, x), %(A)s); return e; }
FN(gets) { int32_t i = stack[0].ival; V0; void* s = env->get_field_string_by_name(env, stack, OBJ(i), "str", %(A)s); if (e) return e; const char* p = env->get_field_string_chars_by_name(env, stack, OBJ(i), "str", %(A)s); if (e) return e; if (p != (s ? env->get_chars(env, stack, s) : NULL)) return env->die(env, stack, "chars", __func__, FILE_NAME, __LINE__); stack[0].ival = xstr(env, stack, s); return 0; }
FN(cat) { int32_t i = stack[0].ival, x = stack[1].ival; V0; void* a = env->get_field_string_by_name(env, stack, OBJ(i), "str", %(A)s); if (e) return e;
  void* c = env->concat(env, stack, a, mkstr(env, stack, x)); const char* p = env->get_chars(env, stack, c); int32_t n = env->length(env, stack, a);
  stack[0].ival = xbytes(p, n) * 10 + xbytes(p + n, env->length(env, stack, c) - n); return 0; }
FN(setg) { int32_t i = stack[0].ival; V0; env->set_class_var_object_by_name(env, stack, "NtV", "$G", OBJ(i), %(A)s); return e; }
FN(getg) { int32_t i = stack[0].ival; V0; void* o = env->get_class_var_object_by_name(env, stack, "NtV", "$G", %(A)s); if (e) return e; env->set_elem_object(env, stack, arr_v, i, o); return 0; }
FN(setgn) { int32_t e = 0, f = stack[0].ival, x = stack[1].ival;
  switch (f) {
""".replace("%(A)s", A) + each("    case %(k)d: if (x %% 2) env->set_class_var_%(t)s_by_name(env, stack, \"NtV\", \"$X%(F)s\", v%(f)s[x], &e, __func__, FILE_NAME, __LINE__); else env->set_class_var_%(t)s(env, stack, env->get_class_var(env, stack, \"NtV\", \"$X%(F)s\"), v%(f)s[x]); break;") + """
  } return e; }
FN(getgn) { int32_t e = 0, f = stack[0].ival;
  switch (f) {
""" + each("    case %(k)d: { %(c)s v = env->get_class_var_%(t)s_by_name(env, stack, \"NtV\", \"$X%(F)s\", &e, __func__, FILE_NAME, __LINE__); if (e) return e; if (v != env->get_class_var_%(t)s(env, stack, env->get_class_var(env, stack, \"NtV\", \"$X%(F)s\"))) return env->die(env, stack, \"class var\", __func__, FILE_NAME, __LINE__); stack[0].ival = x%(f)s(v); break; }") + """
  } return e; }
FN(setgs) { int32_t e = 0, x = stack[0].ival; env->set_class_var_string_by_name(env, stack, "NtV", "$GS", mkstr(env, stack, x), %(A)s); return e; }
FN(getgs) { int32_t e = 0; void* s = env->get_class_var_string_by_name(env, stack, "NtV", "$GS", %(A)s); if (e) return e; stack[0].ival = xstr(env, stack, s); return 0; }
FN(arr) { int32_t i = stack[0].ival, j = stack[1].ival; V0; void* a = env->new_object_array_by_name(env, stack, "NtN", 3, %(A)s); if (e) return e;
  env->set_elem_object(env, stack, a, 0, OBJ(i)); env->set_elem_object(env, stack, a, 1, OBJ(j)); env->set_class_var_object_by_name(env, stack, "NtV", "$A", a, %(A)s); stack[0].ival = env->length(env, stack, a); return e; }
FN(aset) { int32_t x = stack[0].ival, i = stack[1].ival; V0; void* a = env->get_class_var_object_by_name(env, stack, "NtV", "$A", %(A)s); if (e) return e; env->set_elem_object(env, stack, a, x, OBJ(i)); return 0; }
FN(aget) { int32_t x = stack[0].ival, i = stack[1].ival; V0; void* a = env->get_class_var_object_by_name(env, stack, "NtV", "$A", %(A)s); if (e) return e; env->set_elem_object(env, stack, arr_v, i, env->get_elem_object(env, stack, a, x)); return 0; }
FN(adrop) { int32_t e = 0; env->set_class_var_object_by_name(env, stack, "NtV", "$A", NULL, %(A)s); return e; }
FN(virt) { int32_t i = stack[0].ival; V0; stack[0].oval = OBJ(i); env->call_instance_method_by_name(env, stack, "kind", 1, %(A)s); return e; }
FN(stat) { int32_t i = stack[0].ival; V0; stack[0].oval = OBJ(i); env->call_instance_method_static_by_name(env, stack, "NtN", "kind", 1, %(A)s); return e; }
FN(isa_) { int32_t i = stack[0].ival, q = stack[1].ival; V0; void* o = OBJ(i); stack[0].ival = !o ? 0 : q == 0 ? env->isa_by_name(env, stack, o, "NtN", 0) : q == 1 ? env->isa_by_name(env, stack, o, "NtM", 0) : env->is_type_by_name(env, stack, o, "NtN", 0); return 0; }
FN(throw) { int32_t e = 0, c = stack[0].ival, x = stack[1].ival; int32_t id = env->get_basic_type_id_by_name(env, stack, "NtErr", %(A)s); if (e) return e; int32_t r = env->die(env, stack, "m%%d", x, __func__, FILE_NAME, __LINE__); return c ? id : r; }
FN(mkk) { int32_t e = 0, k = stack[0].ival; void* o = NULL;
  switch (k) {
    case 1: o = env->new_string(env, stack, "abc", 3); break;
    case 2: o = env->new_int_array(env, stack, 3); break;
    case 3: o = env->new_object_by_name(env, stack, "NtN", %(A)s); break;
    case 4: o = env->new_object(env, stack, env->get_basic_type(env, stack, "NtM")); break;
    case 5: o = env->new_object_array_by_name(env, stack, "NtN", 3, %(A)s); break;
    case 6: o = env->new_mulnum_array_by_name(env, stack, "Nt_2i", 3, %(A)s); break;
    case 7: o = env->new_muldim_array_by_name(env, stack, "int", 2, 3, %(A)s); break;
    case 8: o = env->new_object_array(env, stack, env->get_basic_type(env, stack, "object"), 3); break;
    case 9: o = env->new_object_by_name(env, stack, "Int", %(A)s); break;
    case 10: o = env->new_string_array(env, stack, 3); break;
    case 11: o = env->new_object_array_by_name(env, stack, "NtM", 3, %(A)s); break;
    case 12: o = env->new_double_array(env, stack, 3); break;
    case 13: o = env->new_pointer_object_by_name(env, stack, "NtP", NULL, %(A)s); break;
    case 14: o = env->new_muldim_array(env, stack, env->get_basic_type(env, stack, "NtN"), 2, 3); break;
  }
  if (e) return e; stack[0].oval = o; return 0; }
FN(query) { void* o = stack[0].oval; int32_t q = stack[1].ival, r = -1;
  switch (q) {
    case 0: r = env->is_string(env, stack, o); break; case 1: r = env->is_class(env, stack, o); break; case 2: r = env->is_pointer_class(env, stack, o); break; case 3: r = env->is_array(env, stack, o); break;
    case 4: r = env->is_object_array(env, stack, o); break; case 5: r = env->is_numeric_array(env, stack, o); break; case 6: r = env->is_mulnum_array(env, stack, o); break;
    case 7: r = env->get_object_type_dimension(env, stack, o); break; case 8: r = env->is_array(env, stack, o) || env->is_string(env, stack, o) ? env->length(env, stack, o) : 0; break;
    case 9: if (!env->is_string(env, stack, o) && !env->is_numeric_array(env, stack, o) && !env->is_mulnum_array(env, stack, o)) { r = 0; break; }
      { void* c = env->copy(env, stack, o); r = c != o && env->get_object_basic_type_id(env, stack, c) == env->get_object_basic_type_id(env, stack, o) && env->length(env, stack, c) == env->length(env, stack, o); } break;
  }
  stack[0].ival = r != 0 && r != 1 && q < 7 ? 9 : r; return 0; }
FN(tname) { const char* n = env->get_chars(env, stack, env->get_type_name(env, stack, stack[0].oval)); static const char* names[] = {@KN@}; stack[0].ival = -1;
  for (int32_t i = 0; i < (int32_t)(sizeof(names) / sizeof(names[0])); i++) if (strcmp(n, names[i]) == 0) stack[0].ival = i + 1; return 0; }
FN(eisa) { stack[0].ival = env->elem_isa(env, stack, stack[0].oval, stack[1].oval); return 0; }
FN(cpy) { stack[0].oval = env->copy(env, stack, stack[0].oval); return 0; }
FN(cpys) { int32_t x = stack[0].ival, q = stack[1].ival; void* s = mkstr(env, stack, x); if (s) env->make_read_only(env, stack, s); void* t = env->copy(env, stack, s); stack[0].ival = q == 0 ? xstr(env, stack, t) : q == 1 ? s != t : t ? env->is_read_only(env, stack, t) : 0; return 0; }
FN(mkro) { stack[0].oval = env->new_string(env, stack, NULL, 5); return 0; }
FN(setro) { env->make_read_only(env, stack, stack[0].oval); return 0; }
FN(isro) { stack[0].ival = env->is_read_only(env, stack, stack[0].oval); return 0; }
FN(short) { int32_t n = stack[0].ival, q = stack[1].ival; void* s = mkstr(env, stack, 3); env->shorten(env, stack, s, n); const char* p = env->get_chars(env, stack, s); int32_t ok = p[n] == 0;
  for (int32_t i = 0; i < n; i++) if (p[i] != (char)(i * 7)) ok = 0; stack[0].ival = q == 0 ? env->length(env, stack, s) : ok; return 0; }
FN(strs) { int32_t x = stack[0].ival, y = stack[1].ival; void* a = env->new_string_array(env, stack, 3); env->set_elem_string(env, stack, a, 0, mkstr(env, stack, x)); env->set_elem_string(env, stack, a, 1, mkstr(env, stack, x));
  env->set_elem_string(env, stack, a, 0, mkstr(env, stack, y)); env->set_elem_string(env, stack, a, 2, mkstr(env, stack, y)); env->set_elem_string(env, stack, a, 2, NULL); stack[0].oval = a; return 0; }
FN(strx) { void* a = stack[0].oval; stack[0].ival = xstr(env, stack, env->get_elem_string(env, stack, a, stack[1].ival)); return 0; }
FN(muls) { int32_t e = 0, n = stack[0].ival; void* a = env->new_mulnum_array_by_name(env, stack, "Nt_2i", n, %(A)s); if (e) return e; int32_t* p = env->get_elems_int(env, stack, a); for (int32_t i = 0; i < 2 * n; i++) p[i] = i + 1; stack[0].oval = a; return 0; }
FN(mulx) { void* a = stack[0].oval; stack[0].ival = env->get_elems_int(env, stack, a)[stack[1].ival]; return 0; }
FN(mdim) { int32_t e = 0, n = stack[0].ival; void* a = env->new_muldim_array_by_name(env, stack, "int", 2, n, %(A)s); if (e) return e;
  for (int32_t i = 0; i < n; i++) { void* r = env->new_int_array(env, stack, i + 1); int32_t* p = env->get_elems_int(env, stack, r); for (int32_t j = 0; j <= i; j++) p[j] = i + 1; env->set_elem_object(env, stack, a, i, r); } stack[0].oval = a; return 0; }
FN(mdimx) { void* r = env->get_elem_object(env, stack, stack[0].oval, stack[1].ival); int32_t* p = env->get_elems_int(env, stack, r); int32_t n = env->length(env, stack, r), sum = 0; for (int32_t j = 0; j < n; j++) sum += p[j]; stack[0].ival = sum; return 0; }
FN(ptr) { int32_t e = 0, x = stack[0].ival, q = stack[1].ival; void* o = env->new_pointer_object_by_name(env, stack, "NtP", (void*)(intptr_t)x, %(A)s); if (e) return e; if (q) env->set_pointer(env, stack, o, (void*)(intptr_t)(x + 1)); stack[0].ival = (int32_t)(intptr_t)env->get_pointer(env, stack, o); return 0; }
FN(dumps) { int32_t i = stack[0].ival; void* d = stack[1].oval; V0; void* x = env->dump(env, stack, OBJ(i)); stack[0].ival = env->length(env, stack, x) == env->length(env, stack, d) && memcmp(env->get_chars(env, stack, x), env->get_chars(env, stack, d), env->length(env, stack, d)) == 0; return 0; }
FN(boom) { int32_t i = stack[0].ival, c = stack[1].ival, x = stack[2].ival; V0; stack[0].oval = OBJ(i); stack[1].ival = c; stack[2].ival = x; env->call_instance_method_by_name(env, stack, "boom", 3, %(A)s); return e; }
FN(relay) { int32_t e = 0, c = stack[0].ival, x = stack[1].ival; stack[0].ival = c; stack[1].ival = x; env->call_class_method_by_name(env, stack, "NtS", "throw", 2, %(A)s); return e; }
FN(tmp) { int32_t e = 0, n = stack[0].ival; for (int32_t i = 0; i < n; i++) { env->new_object_by_name(env, stack, "NtT", %(A)s); if (e) return e; } return 0; }
FN(scope) { int32_t e = 0, n = stack[0].ival; int32_t b = env->get_class_var_int_by_name(env, stack, "NtV", "$TC", %(A)s); if (e) return e;
  int32_t s = env->enter_scope(env, stack); for (int32_t i = 0; i < n; i++) { env->new_object_by_name(env, stack, "NtT", %(A)s); if (e) return e; } env->leave_scope(env, stack, s);
  stack[0].ival = env->get_class_var_int_by_name(env, stack, "NtV", "$TC", %(A)s) - b; return e; }
FN(keep) { int32_t e = 0, n = stack[0].ival, sum = 0; void* t[300]; int32_t b = env->get_class_var_int_by_name(env, stack, "NtV", "$TC", %(A)s); if (e) return e;
  for (int32_t i = 0; i < n; i++) { t[i] = env->new_object_by_name(env, stack, "NtT", %(A)s); if (e) return e; env->set_field_long_by_name(env, stack, t[i], "x", i, %(A)s); if (e) return e; }
  for (int32_t i = 0; i < n; i++) { sum += (int32_t)env->get_field_long_by_name(env, stack, t[i], "x", %(A)s); if (e) return e; }
  stack[0].ival = n; env->call_class_method_by_name(env, stack, "NtV", "r1", 1, %(A)s); if (e) return e; stack[0].ival = sum; env->call_class_method_by_name(env, stack, "NtV", "r1", 1, %(A)s); if (e) return e;
  stack[0].ival = env->get_class_var_int_by_name(env, stack, "NtV", "$TC", %(A)s) - b; return e; }
FN(deep) { int32_t e = 0, d = stack[0].ival, x = stack[1].ival;
  if (d == 0) { if (x == 1) return env->die(env, stack, "m1", __func__, FILE_NAME, __LINE__); if (x == 2) { int32_t id = env->get_basic_type_id_by_name(env, stack, "NtErr", %(A)s); env->die(env, stack, "m1", __func__, FILE_NAME, __LINE__); return id; } stack[0].ival = 0; return 0; }
  env->new_object_by_name(env, stack, "NtT", %(A)s); if (e) return e;
  stack[0].ival = d - 1; stack[1].ival = x; env->call_class_method_by_name(env, stack, "NtS", "deep", 2, %(A)s); if (e) return e;
  stack[0].ival = stack[0].ival + 1; return 0; }
FN(ident) { int32_t i = stack[0].ival, j = stack[1].ival; V0; stack[0].oval = OBJ(i);
  if ((i + j) % 2) { if ((e = env->call_method(env, stack, env->get_class_method(env, stack, "NtS", "give"), 1))) return e; env->set_elem_object(env, stack, arr_v, j, stack[0].oval); return 0; }
  env->call_class_method_by_name(env, stack, "NtS", "give", 1, %(A)s); if (e) return e; env->set_elem_object(env, stack, arr_v, j, stack[0].oval); return 0; }
FN(give) { return 0; }
FN(catch) { int32_t e = 0, c = stack[0].ival, x = stack[1].ival; stack[0].ival = c; stack[1].ival = x; env->call_class_method_by_name(env, stack, "NtS", "throw", 2, %(A)s);
  if (!e) { stack[0].ival = -1; return 0; } int32_t id = e; e = 0; void* m = env->get_exception(env, stack); const char* p = m ? env->get_chars(env, stack, m) : "?";
  int32_t r = p[0] == 'm' ? (id == env->get_basic_type_id(env, stack, "NtErr") ? 10 : 0) + p[1] - '0' : -1; env->set_exception(env, stack, NULL); stack[0].ival = r; return 0; }
FN(opt) { int32_t w = env->args_width(env, stack); stack[0].ival = (w < 2 && stack[1].ival != 5) || (w < 3 && stack[2].ival != 6) ? -1 : w; return 0; }
FN(mul) { int32_t x = stack[0].ival, y = stack[1].ival; stack[0].ival = y; stack[1].ival = x; return 0; }
""".replace("%(A)s", A).replace("%%", "%") + each("FN(ref%(f)s) { int32_t x = stack[0].ival; *stack[1].%(f)sref = v%(f)s[x]; return 0; }") + """
FN(box) { int32_t e = 0, f = stack[0].ival, x = stack[1].ival; void* o = NULL;
  switch (f) {
""" + each("    case %(k)d: o = env->new_object_by_name(env, stack, \"%(X)s\", &e, __func__, FILE_NAME, __LINE__); if (e) return e; env->set_field_%(t)s_by_name(env, stack, o, \"value\", v%(f)s[x], &e, __func__, FILE_NAME, __LINE__); break;") + """
  } stack[0].oval = o; return e; }
FN(unbox) { void* o = stack[0].oval; int32_t f = stack[1].ival; switch (f) {
""" + each("    case %(k)d: stack[0].ival = x%(f)s(env->get_%(t)s_object_value(env, stack, o)); break;") + """
  } return 0; }
FN(ist) { static const char* names[] = {@KB@}; static int32_t dims[] = {@KD@}; void* o = stack[0].oval; int32_t b = stack[1].ival - 1; stack[0].ival = stack[2].ival ? env->isa_by_name(env, stack, o, names[b], dims[b]) : env->is_type_by_name(env, stack, o, names[b], dims[b]); return 0; }
FN(diffs) { void* o = stack[0].oval; int32_t d = 0, n = env->length(env, stack, o); switch (stack[1].ival) {
""" + each("    case %(k)d: { %(c)s* p = env->get_elems_%(t)s(env, stack, o); for (int32_t i = 0; i < n; i++) if (p[i] != v%(f)s[(i + 1) %% 4]) d++; break; }") + """
  } stack[0].ival = d; return 0; }
FN(mkm) { int32_t e = 0, n = stack[1].ival; void* o = NULL; switch (stack[0].ival) {
""" + each("    case %(k)d: { o = env->new_mulnum_array_by_name(env, stack, \"%(M)s\", n, &e, __func__, FILE_NAME, __LINE__); if (e) return e; %(c)s* p = env->get_elems_%(t)s(env, stack, o); for (int32_t i = 0; i < n; i++) for (int32_t j = 0; j < %(w)d; j++) p[i * %(w)d + j] = v%(f)s[(i + j) %% 4]; break; }") + """
  } stack[0].oval = o; return 0; }
FN(cpm) { stack[0].oval = env->copy(env, stack, stack[0].oval); return 0; }
FN(difm) { void* o = stack[0].oval; int32_t d = 0, n = env->length(env, stack, o); switch (stack[1].ival) {
""" + each("    case %(k)d: { %(c)s* p = env->get_elems_%(t)s(env, stack, o); for (int32_t i = 0; i < n; i++) for (int32_t j = 0; j < %(w)d; j++) if (p[i * %(w)d + j] != v%(f)s[(i + j) %% 4]) d++; break; }") + """
  } stack[0].ival = d; return 0; }
FN(lenm) { stack[0].ival = env->length(env, stack, stack[0].oval); return 0; }
FN(mk) { int32_t f = stack[0].ival, n = stack[1].ival;
  switch (f) {
""" + each("    case %(k)d: { void* a = env->new_%(t)s_array(env, stack, n); %(c)s* p = env->get_elems_%(t)s(env, stack, a); for (int32_t i = 0; i < n; i++) p[i] = v%(f)s[(i + 1) %% 4]; stack[0].oval = a; break; }") + """
  } return 0; }
FN(rd) { void* o = stack[0].oval; int32_t f = stack[1].ival, i = stack[2].ival; switch (f) {
""" + each("    case %(k)d: stack[0].ival = x%(f)s(env->get_elems_%(t)s(env, stack, o)[i]); break;") + """
  } return 0; }
FN(alen) { stack[0].ival = env->length(env, stack, stack[0].oval); return 0; }
"""
CONFIG = "use strict; use warnings; use SPVM::Builder::Config; my $config = SPVM::Builder::Config->new_gnu99(file => __FILE__); $config;\n"
C = C.replace("@KB@", ", ".join('"%s"' % x.replace("[]", "") for x in KN)).replace("@KD@", ", ".join(str(x.count("[]")) for x in KN))
SMALL.update({MM[k]: "class %s : mulnum_t { %s }" % (MM[k], " ".join("has f%d : %s;" % (j, T[k]) for j in range(MF[k]))) for k in range(6)})
C = C.replace("@KN@", ", ".join('"%s"' % x for x in KN))
CLASSES = dict(SMALL, NtN=N, NtV=V.replace("use NtN; use NtC;", "use NtN; use NtC; use NtErr; use Error; use VP;"), NtS=SCLASS, NtC=CCLASS)


def stmt(op, side, slot):
    """One operation in a program."""
    k, a = op[0], op[1:]; X = "Nt" + side; Y = "NtC" if side == "S" else "NtS"
    z = lambda *p: ", ".join(str(x) for x in p)
    r = lambda e: "NtV->r1(%s);" % e
    if k == "new": b = "%s->new(%s);" % (X, z(a[0] - 1, a[1], slot))
    elif k in ("drop", "weak", "unw", "setg", "getg"): b = "%s->%s(%d);" % (X, k, a[0] - 1)
    elif k in ("isw", "gets", "virt", "stat"): b = r("%s->%s(%d)" % (X, k, a[0] - 1))
    elif k in ("move", "seto", "geto", "aset", "aget", "ident"): b = "%s->%s(%d, %d);" % (X, k, a[0] - 1, a[1] - 1)
    elif k in ("setn",): b = "%s->setn(%d, %d, %d);" % (X, a[0] - 1, a[1], a[2])
    elif k in ("getn",): b = r("%s->getn(%d, %d)" % (X, a[0] - 1, a[1]))
    elif k == "sets": b = "%s->sets(%d, %d);" % (X, a[0] - 1, a[1])
    elif k == "cat": b = "my $x = %s->cat(%d, %d); NtV->r1($x / 10); NtV->r1($x %% 10);" % (X, a[0] - 1, a[1])
    elif k in ("setgn", "setgs", "adrop", "tmp"): b = "%s->%s(%s);" % (X, k, z(*a))
    elif k in ("getgn", "getgs", "scope", "deep"): b = r("%s->%s(%s)" % (X, k, z(*a)))
    elif k == "kind": b = "my $o = %s->mkk(%d); for (my $q = 0; $q < 10; $q++) { NtV->r1(NtC->query($o, $q)); } NtV->r1(NtS->tname($o)); NtV->r1(NtC->tname($o));" % (X, a[0])
    elif k == "eisa": b = r("NtC->eisa(%s->mkk(%d), %s->mkk(%d))" % (X, a[0], X, a[1]))
    elif k == "copy": b = "my $o = %s->cpy(%s->mk(%d, %d)); my $n = %s->alen($o, %d); for (my $i = 0; $i < $n; $i++) { NtV->r1(%s->rd($o, %d, $i)); }" % (X, Y, a[0], a[1], Y, a[0], Y, a[0])
    elif k == "ist": b = "my $o = NtC->mkk(%d);" % a[0] + "".join(r("%s->ist($o, %d, %d)" % (X, a[1], q)) for q in range(2))
    elif k == "big": b = "my $o = %s->mk(%d, %d); NtV->r1(%s->alen($o, %d)); NtV->r1(%s->diffs($o, %d)); my $p = %s->cpy($o); NtV->r1(%s->diffs($p, %d));" % (X, a[0], a[1], Y, a[0], Y, a[0], X, Y, a[0])
    elif k == "cpym": b = "my $o = %s->cpm(%s->mkm(%d, %d)); NtV->r1(%s->lenm($o, %d)); NtV->r1(%s->difm($o, %d));" % (X, Y, a[0], a[1], Y, a[0], X, a[0])
    elif k == "cpys": b = "".join(r("%s->cpys(%d, %d)" % (X, a[0], q)) for q in range(3))
    elif k == "ro": b = "my $s = %s->mkro; NtV->r1(%s->isro($s)); %s->setro($s); NtV->r1(%s->isro($s));" % (X, X, X, Y)
    elif k == "short": b = "".join(r("%s->short(%d, %d)" % (X, a[0], q)) for q in range(2))
    elif k == "strs": b = "my $o = %s->strs(%d, %d); for (my $i = 0; $i < 3; $i++) { NtV->r1(%s->strx($o, $i)); }" % (X, a[0], a[1], Y)
    elif k == "box": b = r("%s->unbox(%s->box(%d, %d), %d)" % (Y, X, a[0], a[1], a[0]))
    elif k == "muls": b = "my $o = %s->muls(%d); for (my $i = 0; $i < 2 * @$o; $i++) { NtV->r1(%s->mulx($o, $i)); }" % (X, a[0], Y)
    elif k == "mdim": b = "my $o = %s->mdim(%d); NtV->r1(@$o); for (my $i = 0; $i < @$o; $i++) { NtV->r1(%s->mdimx($o, $i)); }" % (X, a[0], Y)
    elif k == "ptr": b = "".join(r("NtC->ptr(%d, %d)" % (a[0], q)) for q in range(2))
    elif k == "dump": b = r("%s->dumps(%d, NtS->dumpc(%d))" % (X, a[0] - 1, a[0] - 1))
    elif k == "boom": b = "%s->boom(%d, %d, %d);" % (X, a[0] - 1, a[1], a[2])
    elif k == "relay": b = "%s->relay(%d, %d);" % (X, a[0], a[1])
    elif k == "keep": b = r("%s->keep(%d, 0)" % (X, a[0]))
    elif k == "arr": b = r("%s->arr(%d, %d)" % (X, a[0] - 1, a[1] - 1))
    elif k == "isa": b = "".join(r("%s->isa_(%d, %d)" % (X, a[0] - 1, q)) for q in range(3))
    elif k == "die": b = "%s->throw(%d, %d);" % (X, a[0], a[1])
    elif k == "catch": b = "my $x = %s->catch(%d, %d); NtV->r1($x / 10); NtV->r1($x %% 10);" % (X, a[0], a[1])
    elif k == "opt": b = r("%s->opt(%s)" % (X, ", ".join(["1", "2", "3"][:a[0]])))
    elif k == "ref": f = F[a[0] - 1]; b = "my $x = NtS->v%s(3); %s->ref%s(%d, \\$x); %s" % (f, X, f, a[1], r("NtS->x%s($x)" % f))
    elif k == "mul": b = "my $p : Nt_2i; $p->{x} = %d; $p->{y} = %d; my $q = %s->mul($p); NtV->r1($q->{x}); NtV->r1($q->{y});" % (a[0], a[1], X)
    elif k == "nums": b = "my $o = %s->mk(%d, %d); my $n = %s->alen($o, %d); for (my $i = 0; $i < $n; $i++) { NtV->r1(%s->rd($o, %d, $i)); }" % (X, a[0], a[1], Y, a[0], Y, a[0])
    return "$ok = 0; eval { %s $ok = 1; }; NtV->obs($ok, eval_error_id);" % b
