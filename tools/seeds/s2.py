B="lib/SPVM/Builder/"
FLOOP='''        if ($comparator->($a->[$i], $a->[$j]) <= 0) {
          $b->[$k] = $a->[$i];'''
src=open("/repo/lib/SPVM/Sort.spvm").read()
i=src.index("private static method _sort_float_merge :"); j=src.index(FLOOP,i)
L0=src.rfind("precompile",0,i); SEG=src[i:j+len(FLOOP)]
hs=open("/repo/lib/SPVM/Hash.spvm").read()
fl=open("/repo/lib/SPVM/FloatList.spvm").read()
a=fl.index("  method pop : float"); POP=fl[a:fl.index("\n  }\n",a)+5]
a=fl.index("  method resize : void"); RES=fl[a:fl.index("\n  }\n",a)+5]
SEEDS=[
dict(id="c16-float-sort-ties",property="C16",file="lib/SPVM/Sort.spvm",old=SEG,new=SEG.replace("<= 0","< 0"),
 needs="sort_float with a comparator under which different values are equal",
 breaks="the sort of floats is no longer stable: equal elements are swapped",files={},
 main='''class { use Sort; use Fn; use Format;
  static method main : void () {
    my $a = [1.5f, -1.5f, 0.5f, -0.5f, 2.0f, -2.0f];
    Sort->sort_float($a, method : int ($x : float, $y : float) { my $p = $x * $x; my $q = $y * $y; if ($p < $q) { return -1; } if ($p > $q) { return 1; } return 0; });
    for (my $i = 0; $i < @$a; $i++) { my $v = $a->[$i]; say "$v"; }
  }
}
''',want="0.5\n-0.5\n1.5\n-1.5\n2\n-2\n"),
dict(id="c14-delete-chain",property="C14",file="lib/SPVM/Hash.spvm",
 old="          $prev->{next_entry} = $entry->{next_entry};\n",
 new="          $prev->{next_entry} = undef;\n",
 needs="three keys in one bucket of the hash and a delete of the one in the middle",
 breaks="the keys after the deleted one in its bucket are lost",files={},
 main='''class { use Hash; use Fn;
  static method main : void () {
    my $bad = 0;
    for (my $n = 3; $n < 40; $n++) {
      my $h = Hash->new;
      for (my $i = 0; $i < $n; $i++) { $h->set_int("k$i", $i); }
      for (my $i = 0; $i < $n; $i += 2) { $h->delete("k$i"); }
      for (my $i = 1; $i < $n; $i += 2) { unless ($h->exists("k$i")) { $bad++; } }
    }
    if ($bad) { say "lost"; } else { say "ok"; }
  }
}
''',want="ok\n"),
dict(id="c10-mulnum-short-end",property="C10",file=B+"include/spvm_implement.h",
 old="""SPVM_IMPLEMENT_SET_MULNUM_ARRAY_FIELD_SHORT(SPVM_ENV* env, SPVM_VALUE* stack, int16_t* array, int32_t index, int32_t field_index, int32_t fields_length, int16_t in, int32_t* error_id, int32_t object_data_offset, int32_t object_length_offset) {
  if (__builtin_expect(!array, 0)) {
    void* exception = env->new_string_nolen_no_mortal(env, stack, SPVM_IMPLEMENT_STRING_LITERALS[SPVM_IMPLEMENT_C_STRING_ARRAY_UNDEFINED]);
    env->set_exception(env, stack, exception);
    *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
  }
  else {
    if (__builtin_expect(index < 0 || index >= """,
 new="""SPVM_IMPLEMENT_SET_MULNUM_ARRAY_FIELD_SHORT(SPVM_ENV* env, SPVM_VALUE* stack, int16_t* array, int32_t index, int32_t field_index, int32_t fields_length, int16_t in, int32_t* error_id, int32_t object_data_offset, int32_t object_length_offset) {
  if (__builtin_expect(!array, 0)) {
    void* exception = env->new_string_nolen_no_mortal(env, stack, SPVM_IMPLEMENT_STRING_LITERALS[SPVM_IMPLEMENT_C_STRING_ARRAY_UNDEFINED]);
    env->set_exception(env, stack, exception);
    *error_id = SPVM_NATIVE_C_BASIC_TYPE_ID_ERROR_CLASS;
  }
  else {
    if (__builtin_expect(index < 0 || index > """,
 needs="a field of the element one past the end of an array of multi-numeric values of short fields is set",
 breaks="the store is performed outside of the array instead of throwing",
 files={"lib/SPVM/Tm_2s.spvm":"class Tm_2s : mulnum_t {\n  has x : short;\n  has y : short;\n}\n"},
 main='''class { use Tm_2s;
  static method main : void () {
    my $a = new Tm_2s[3];
    eval { $a->[3]{x} = (short)7; };
    if ($@) { say "error"; } else { say "no error"; }
    eval { $a->[2]{x} = (short)7; };
    if ($@) { say "error"; } else { say "no error"; }
  }
}
''',want="error\nno error\n"),
dict(id="c09-allow-prefix",property="C09",file=B+"src/spvm_op.c",
 old="      if (strcmp(current_basic_type_name, allow_basic_type_name) == 0) {",
 new="      if (strncmp(current_basic_type_name, allow_basic_type_name, strlen(allow_basic_type_name)) == 0) {",
 needs="a class whose name begins with the name of an allowed class reads a private field",
 breaks="the private field is accessible from a class that is not in the allow list",
 files={"lib/SPVM/TSec.spvm":"class TSec {\n  allow TFriend;\n  has x : int;\n  static method new : TSec () { return new TSec; }\n}\n",
        "lib/SPVM/TFriend.spvm":"class TFriend { use TSec;\n  static method get : int ($s : TSec) { return $s->{x}; }\n}\n",
        "lib/SPVM/TFriendOther.spvm":"class TFriendOther { use TSec;\n  static method get : int ($s : TSec) { return $s->{x}; }\n}\n"},
 rc=255,
 main='''class { use TSec; use TFriend; use TFriendOther;
  static method main : void () {
    my $s = TSec->new; TFriend->get($s); TFriendOther->get($s); say "compiled";
  }
}
''',want=""),
dict(id="c25-quote-newline",property="C25",file=B+"src/spvm_toke.c",old=None,new=None,
 needs="an error or exception after a single-quoted string literal that spans lines",
 breaks="the line numbers of everything after the literal are too small",files={},
 main="""class {
  static method main : void () {
    my $s = q'a
b
c';
    my $l = __LINE__;
    say "$l";
  }
}
""",want="6\n"),
dict(id="c24-nested-header",property="C24",file=B+"CC.pm",
 old="""              if (-f $include_file_name) {
                push @native_header_files, $include_file_name;""",
 new="""              if (-f $include_file_name && $File::Find::dir eq $native_include_dir) {
                push @native_header_files, $include_file_name;""",
 needs="a header of a native class in a sub directory of its include directory is changed after a build",
 breaks="the class is not built again, so the old code runs",files={},demo=r'''#!/bin/bash
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export HOME="$T" SPVM_CC_QUIET=1; cd "$T"; mkdir -p lib/SPVM/TNat.native/include/sub
cat > lib/SPVM/TNat.spvm <<'E'
class TNat { native static method v : int (); }
E
cat > lib/SPVM/TNat.config <<'E'
use strict; use warnings; use SPVM::Builder::Config;
my $config = SPVM::Builder::Config->new_gnu99(file => __FILE__);
$config;
E
cat > lib/SPVM/TNat.c <<'E'
#include "spvm_native.h"
#include "sub/v.h"
int32_t SPVM__TNat__v(SPVM_ENV* env, SPVM_VALUE* stack) { stack[0].ival = TV; return 0; }
E
echo '#define TV 1' > lib/SPVM/TNat.native/include/sub/v.h
echo 'class { use TNat; static method main : void () { my $v = TNat->v; say "$v"; } }' > m.spvm
find lib -type f -exec touch -d '100 seconds ago' {} +
r() { timeout 100 perl -I/repo/blib/lib -I/repo/blib/arch /repo/script/spvm -B "$T/.spvm_build" -I "$T/lib" m.spvm 2>>err.txt; }
a=$(r); sleep 1.2
echo '#define TV 2' > lib/SPVM/TNat.native/include/sub/v.h; touch -d '5 seconds' lib/SPVM/TNat.native/include/sub/v.h
b=$(r)
echo "$a $b"; [ "$a $b" = "1 2" ] || { tail -5 err.txt; exit 1; }
'''),
dict(id="c13-nul-compare",property="C13",file=B+"include/spvm_implement.h",
 old="    int32_t retval = memcmp(bytes1, bytes2, short_string_length);",
 new="    int32_t retval = strncmp(bytes1, bytes2, short_string_length);",
 needs="two strings that differ only after a NUL character are compared",
 breaks="they are equal",files={},
 main='''class {
  static method main : void () {
    my $a = "a\\0b"; my $b = "a\\0c";
    if ($a lt $b) { say "lt"; } if ($a eq $b) { say "eq"; } if ($a gt $b) { say "gt"; }
  }
}
''',want="lt\n"),
dict(id="c15-float-list-stale",property="C15",edits=[("lib/SPVM/FloatList.spvm",POP+"@@"+RES,None)],needs="",breaks="",main="",want=""),
]
T=open("/repo/lib/SPVM/Builder/src/spvm_toke.c").read()
for s in SEEDS:
    if s["id"]=="c15-float-list-stale":
        new=fl.replace(POP,POP.replace("    $self->{array}->[$length - 1] = 0;\n","").replace("    $self->{array}->[$self->{length} - 1] = 0;\n","").replace("    $self->{array}[$length - 1] = 0;\n",""))
        new=new.replace(RES,RES.replace("      Array->memset_float($self->{array}, 0, $length, $new_length - $length);\n",""))
        s["edits"]=[("lib/SPVM/FloatList.spvm",fl,new)]; assert new.count("")and len(new)<len(fl)-80
        s["needs"]="an element is popped and the list is enlarged with resize afterwards"; s["breaks"]="the new elements are not zero"
        s["files"]={}; s["want"]="0 0\n"
        s["main"]='''class { use FloatList; 
  static method main : void () {
    my $l = FloatList->new([1f, 2f, 3f]);
    $l->pop; $l->pop; $l->resize(3);
    my $a = $l->get(1); my $b = $l->get(2); say "$a $b";
  }
}
'''
    if s["id"]=="c25-quote-newline":
        k=T.index("A single-quoted string literal must be end with"); m=T.index("SPVM_TOKE_increment_current_line(compiler);",k)
        seg=T[k:m+len("SPVM_TOKE_increment_current_line(compiler);")]
        s["old"]=seg; s["new"]=seg[:seg.rindex("SPVM_TOKE_increment")].rstrip()
