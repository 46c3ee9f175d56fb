B="lib/SPVM/Builder/"
NAT={"lib/SPVM/NatS.config":"use strict; use warnings; use SPVM::Builder::Config; SPVM::Builder::Config->new_gnu99(file => __FILE__);\n"}
SEEDS=[
dict(id="c07-isa-deeper-array",property="C07",file=B+"src/spvm_api.c",
 old="else if (object_basic_type->id == basic_type->id && object_type_dimension == type_dimension) {",
 new="else if (object_basic_type->id == basic_type->id && object_type_dimension >= type_dimension) {",
 needs="an array of more dimensions than the type it is tested against, with the same basic type",
 breaks="a value of type int[][] is an int[]: isa and casts accept it and elements are read as numbers",files={},
 main='''class {
  static method main : void () {
    my $a = (object)[[1, 2], [3]];
    if ($a isa int[]) { say "yes"; } else { say "no"; }
    eval { my $b = (int[])$a; my $n = @$b; say "cast $n"; };
    if ($@) { say "thrown"; }
    eval { }
  }
}
''',want="no\nthrown\n"),
dict(id="c27-istype-deeper-array",property="C27",file=B+"src/spvm_api.c",
 old="  if (object_basic_type->id == basic_type->id && object->type_dimension == type_dimension) {\n    is_type = 1;",
 new="  if (object_basic_type->id == basic_type->id && object->type_dimension >= type_dimension) {\n    is_type = 1;",
 needs="a native method that asks whether an array of arrays is of the type of its elements",
 breaks="env->is_type answers yes for an array of more dimensions",
 files=dict(NAT,**{"lib/SPVM/NatS.spvm":"class NatS {\n  native static method g : int ($o : object);\n}\n",
 "lib/SPVM/NatS.c":'''#include "spvm_native.h"
int32_t SPVM__NatS__g(SPVM_ENV* env, SPVM_VALUE* stack) {
  void* o = stack[0].oval;
  stack[0].ival = env->is_type_by_name(env, stack, o, "int", 1) * 10 + env->is_type_by_name(env, stack, o, "int", 2);
  return 0;
}
'''}),
 main='''class { use NatS;
  static method main : void () { my $a = NatS->g([1, 2]); my $b = NatS->g([[1, 2], [3]]); say "$a $b"; }
}
''',want="10 1\n"),
dict(id="c24-mode-change",property="C24",file=B+"Exe.pm",
 old="""  my $mode_string = $self->mode;
  unless (defined $mode_string) {
    $mode_string = '';
  }
""",
 new="""  my $mode_string = $self->mode;
  unless (defined $mode_string && length $mode_string > 3) {
    $mode_string = '';
  }
""",
 needs="an executable built again in another config mode with a short name",
 breaks="the objects compiled for the other mode are used: what the program was built from is not what the settings say",
 files={"tool.config":"use strict; use warnings; use SPVM::Builder::Config::Exe; my $c = SPVM::Builder::Config::Exe->new_gnu99(file => __FILE__); $c->ext(undef); $c->add_global_after_create_compile_info_cb(sub { $_[0]->add_ccflag('-DMODE=1') }); $c;\n",
  "tool.dbg.config":"use strict; use warnings; use SPVM::Builder::Config::Exe; my $c = SPVM::Builder::Config::Exe->new_gnu99(file => __FILE__); $c->ext(undef); $c->add_global_after_create_compile_info_cb(sub { $_[0]->add_ccflag('-DMODE=2') }); $c;\n",
  "tool.spvm":"class { use NatM; static method main : void () { my $m = NatM->mode; say \"$m\"; } }\n",
  "lib/SPVM/NatM.spvm":"class NatM { native static method mode : int (); }\n","lib/SPVM/NatM.config":"use strict; use warnings; use SPVM::Builder::Config; SPVM::Builder::Config->new_gnu99(file => __FILE__);\n",
  "lib/SPVM/NatM.c":"#include \"spvm_native.h\"\nint32_t SPVM__NatM__mode(SPVM_ENV* env, SPVM_VALUE* stack) { stack[0].ival = MODE; return 0; }\n"},
 demo='''#!/bin/bash
# builds an executable in one config mode and then in another one, which must show its own setting
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export HOME="$T"; cd "$T"; cp "$H"/tool.* .; cp -r "$H/lib" .
b() { sleep 1.1; timeout 200 perl -I/repo/blib/lib -I/repo/blib/arch /repo/script/spvmcc -q -B "$T/b" -I "$T/lib" --optimize=-O0 -o tool "$@" tool.spvm > err.txt 2>&1 || { tail -20 err.txt; exit 2; }; ./tool; }
got="$(b) $(b --mode dbg) $(b)"
[ "$got" = "1 2 1" ] && exit 0
echo "shown: $got"; exit 1
'''),
]
