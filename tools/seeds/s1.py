B="lib/SPVM/Builder/"
NODE={"lib/SPVM/TNode.spvm":'''class TNode {
  has a : public object; has b : public object; has id : public int;
  static method new : TNode ($id : int) { my $s = new TNode; $s->{id} = $id; return $s; }
}
'''}
DN={"lib/SPVM/TDie.spvm":'''class TDie {
  static method new : TDie () { return new TDie; }
  method DESTROY : void () { die "in the destructor"; }
}
'''}
SEEDS=[
dict(id="c02-weaken-last-strong",property="C02",file=B+"src/spvm_api.c",
 old="        if (ref_count == 1) {\n          destroied_referent = object;",
 new="        if (ref_count == 1 && object->weaken_backref_head == NULL) {\n          destroied_referent = object;",
 needs="the last strong reference of an object is made weak while the object already has another weak reference",
 breaks="the object is not destroyed although nothing refers to it strongly any more, and its weak references stay defined",
 files=NODE,
 main='''class { use TNode; use Fn;
  static method main : void () {
    my $x = TNode->new(1); my $y = TNode->new(2);
    my $base = Fn->get_memory_blocks_count;
    { $x->{a} = TNode->new(4); $y->{a} = $x->{a}; }
    weaken $y->{a};
    weaken $x->{a};
    if ($x->{a}) { say "alive"; } else { say "undef"; }
    if ($y->{a}) { say "alive"; } else { say "undef"; }
  }
}
''',want="undef\nundef\n"),
dict(id="c01-dtor-throws-return",property="C01",file=B+"src/spvm_api.c",
 old='''              fprintf(runtime->spvm_stderr, "[An exception thrown in DESTROY method is converted to a warning message]\\n%s\\n", exception_chars);
            }
            
            SPVM_API_set_exception(env, stack, NULL);
            
            // Restore return value and exception variable
            stack[0] = save_stack_ret;
''',
 new='''              fprintf(runtime->spvm_stderr, "[An exception thrown in DESTROY method is converted to a warning message]\\n%s\\n", exception_chars);
            }
            else {
              stack[0] = save_stack_ret;
            }
            
            SPVM_API_set_exception(env, stack, NULL);
            
            // Restore return value and exception variable
''',
 needs="a local object whose destructor throws dies while its method returns a value",
 breaks="the return value is replaced by the destroyed object",
 files=DN,
 main='''class { use TDie;
  static method f : int ($v : int) { my $d = TDie->new; return $v; }
  static method g : string ($v : string) { my $d = TDie->new; return $v . "!"; }
  static method main : void () {
    for (my $i = 40; $i < 43; $i++) { my $v = &f($i); say "$v"; }
    say &g("hello");
  }
}
''',want="40\n41\n42\nhello!\n"),
dict(id="c03-depth-not-restored",property="C03",file=B+"src/spvm_api.c",
 old='''  stack[SPVM_API_C_STACK_INDEX_CALL_DEPTH].ival--;
''',
 new='''  if (!(error_id && method && method->args_length > 2)) {
    stack[SPVM_API_C_STACK_INDEX_CALL_DEPTH].ival--;
  }
''',
 needs="about a thousand exceptions thrown by methods of three or more arguments caught in one program",
 breaks="the call depth grows with every exception, so that stack traces vanish and calls are refused as deep recursion",
 main='''class {
  static method f : void ($a : int, $b : int, $c : int) { die "no"; }
  static method g : int ($a : int) { return $a + 1; }
  static method main : void () {
    for (my $i = 0; $i < 1200; $i++) { eval { &f(1, 2, 3); } }
    my $v = &g(4); say "$v";
  }
}
''',want="5\n"),
dict(id="c04-nested-switch-break",property="C04",file=B+"src/spvm_opcode_builder.c",
 old="                  int32_t break_opcode_index_stack_pop_count = break_opcode_index_stack->length - break_block_base;",
 new="                  int32_t break_opcode_index_stack_pop_count = break_block_base == 0 || switch_block_stack_break_base->length == 0 ? break_opcode_index_stack->length - break_block_base : break_opcode_index_stack->length;",
 needs="a switch inside a case of another switch, after a break of the outer switch that is not the last statement of its case",
 breaks="the break of the outer switch jumps to the end of the inner switch, so that the rest of the outer case is executed",
 main='''class {
  static method f : void ($x : int, $y : int) {
    switch ($x) {
      case 1: {
        if ($y == 0) { break; }
        switch ($y) {
          case 5: { say "five"; break; }
          default: { say "other"; }
        }
        say "after inner";
        break;
      }
      default: { say "default"; }
    }
    say "end $x $y";
  }
  static method main : void () { &f(1, 0); &f(1, 5); &f(1, 7); &f(2, 0); }
}
''',want="end 1 0\nfive\nafter inner\nend 1 5\nother\nafter inner\nend 1 7\ndefault\nend 2 0\n"),
dict(id="c05-modulo-unsigned-long",property="C05",file=B+"include/spvm_implement.h",
 old="    *out = (uint64_t)in1 % (uint64_t)in2;",
 new="    *out = in1 >= 0 ? in1 % in2 : (int64_t)((uint64_t)in1 % (uint64_t)in2);",
 needs="modul with a non-negative left operand and a negative right operand, that is, a divisor of 2**63 or more",
 breaks="the remainder of the signed division is given instead of the unsigned one",
 main='''class {
  static method main : void () {
    my $a = 5L; my $b = -3L; my $c = $a mod_ulong $b; say "$c";
    my $d = -5L; my $e = $d mod_ulong $b; say "$e";
  }
}
''',want="5\n-5\n"),
dict(id="c11-nested-eval-error-id",property="C11",file=B+"src/spvm_precompile.c",
 old="    eval_error_id = error_id;\\n",
 new="    if (!eval_error_id) { eval_error_id = error_id; }\\n",
 needs="a precompiled method with an eval block in an eval block, both catching exceptions of different classes",
 breaks="eval_error_id after the outer block is the class of the inner exception",
 files={"lib/SPVM/TPre.spvm":'''class TPre { use Error::System; use Error;
  precompile static method f : int () {
    eval { eval { die Error::System "a"; } die "b"; }
    return eval_error_id isa_error Error::System;
  }
  static method g : int () {
    eval { eval { die Error::System "a"; } die "b"; }
    return eval_error_id isa_error Error::System;
  }
}
'''},
 main='''class { use TPre;
  static method main : void () { my $a = TPre->f; my $b = TPre->g; say "$a $b"; }
}
''',want="0 0\n"),
]
