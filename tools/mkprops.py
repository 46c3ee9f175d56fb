import json
B='lib/SPVM/Builder/src/'; I='lib/SPVM/Builder/include/'; D='lib/SPVM/Document/'; L='lib/SPVM/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)
    if state: a['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
p('C01','Objects live exactly as long as they are referenced',
 'An object stays usable while any variable, field, array element, argument or caller still refers to it strongly, and is destroyed as soon as the last such reference is overwritten, cleared or goes out of scope, on normal exit, on return, on loop exits and on exceptions alike. Its destructor runs exactly once, before its fields are released, and its memory is given back, so that a program whose references are all gone holds no more memory blocks than before. A destructor that throws does not disturb the running program, its return value or its current exception.',
 ['programs','histories'],'every sequence of allocation, assignment, scope entry/exit, call, return, throw and catch over every small object graph',
 'the tests create a few fixed object graphs and compare one final memory count; premature or late destruction depends on the order of aliasing, overwriting and unwinding',
 [B+'spvm_api.c',B+'spvm_vm.c',B+'spvm_opcode_builder.c',B+'spvm_precompile.c',D+'Language/GarbageCollection.pm'],
 [('reference-count update and destruction on assignment','spvm_api.c SPVM_API_assign_object'),('scope mortal stacks','spvm_api.c SPVM_API_leave_scope, SPVM_API_leave_scope_local'),('scope opcodes','spvm_opcode_builder.c LEAVE_SCOPE emission')],
 ['destructor log','Fn->get_memory_blocks_count'],[('ref_count','number of strong references','spvm_object.h')])
p('C02','Weak references never keep alive and never dangle',
 'Making a field weak stops it from keeping its referent alive, and destroys the referent at once if it was the only reference. When the referent is destroyed every weak field that pointed to it reads as undef; until then it reads as the object, and any value copied out of it is an ordinary strong reference. The weak state belongs to the field, is reported by isweak, and ends when the field is assigned, unweakened or its referent dies.',
 ['programs','histories'],'every interleaving of weaken, unweaken, isweak, field assignment, copying out and destruction over small cyclic graphs with several weak fields per referent',
 'the tests weaken one or two fields in fixed order; list handling of several back references and re-assignment needs particular orders',
 [B+'spvm_api.c',B+'spvm_vm.c',I+'spvm_implement.h',I+'spvm_weaken_backref.h'],
 [('tagged pointers and back-reference list','spvm_api.c SPVM_API_weaken, SPVM_API_unweaken_thread_unsafe, SPVM_API_free_weaken_backrefs')],
 ['isweak operator','field reads','destructor log','Fn->get_memory_blocks_count'])
p('C03','An exception goes to the innermost active eval and only there',
 'When an exception is thrown, no further statement of the blocks and methods between the throw and the innermost enclosing eval block executes, in whatever caller that eval is; execution continues right after that eval block. There $@ holds the message followed by one stack-trace line per method frame passed (at call depths up to 100), in order and with the right class, method and line, and eval_error_id holds the thrown class id; both are cleared on entry to an eval block. Without an eval the exception reaches the host as an error with the same message, calls deeper than 1000 raise a catchable exception, and after any exception the program can carry on as before.',
 ['programs'],'every nesting of eval blocks, loops, conditionals, method calls, throwing runtime operations and rethrows',
 'tests throw from fixed one- or two-level nests; jump targets depend on the combination of eval depth, loop depth, scope depth and call depth',
 [B+'spvm_opcode_builder.c',B+'spvm_vm.c',B+'spvm_precompile.c',B+'spvm_api.c',D+'Language/ExceptionHandling.pm'],
 [('exception jumps','spvm_opcode_builder.c SPVM_OPCODE_BUILDER_push_if_die'),('stack trace','spvm_api.c SPVM_API_new_stack_trace_no_mortal'),('call depth','spvm_api.c SPVM_API_call_method_common')],
 ['execution log','$@','eval_error_id'])
p('C04','Statements execute in the order the language defines',
 'if/elsif/else/unless, while, for, for-each and switch run exactly the blocks their conditions select; last, next, break and return leave exactly the constructs they name; && and || and conditions evaluate operands left to right and only as far as needed. Operands of expressions, arguments and initializer lists are evaluated once each, left to right.',
 ['programs'],'every nesting and combination of control statements with every pattern of condition outcomes',
 'tests use each statement alone or in one nest; jump patching errors show only for particular combinations (switch inside loop inside switch, next in a for with nested blocks, ...)',
 [B+'spvm_opcode_builder.c',B+'spvm_op.c',B+'spvm_check.c',B+'spvm_vm.c','yacc/spvm_yacc.y',D+'Language/Statements.pm'],
 [('jump emission and patching','spvm_opcode_builder.c'),('switch lookup','spvm_vm.c LOOKUP_SWITCH')],['execution log'])
p('C05','Integer arithmetic and numeric conversions are exact two\'s complement',
 'For every pair of operand values, +, -, *, /, %, the unsigned division and modulo operators, shifts, bitwise operators, unary minus, increments, compound assignments and comparisons on byte, short, int and long give the two\'s-complement result of the promoted type, with % taking the sign of the right operand, and integer division or modulo by zero throws. Conversions between integer types keep the low-order bits with sign extension; widening is lossless; assignments that could lose bits need a cast, except for constants that fit.',
 ['inputs','programs'],'all operand pairs, in particular around 0, +-1, the limits of every width and powers of two, in every operand type combination and position (constants, variables, elements, fields)',
 'tests check a handful of operand pairs per operator',
 [I+'spvm_implement.h',B+'spvm_check.c',B+'spvm_op.c',B+'spvm_opcode_builder.c',B+'spvm_precompile.c',D+'Language/Operators.pm'],
 [('arithmetic macros','spvm_implement.h SPVM_IMPLEMENT_*'),('numeric conversion insertion','spvm_check.c')],['values computed by programs'])
p('C06','The compiler accepts exactly the well-typed assignments and casts',
 'For every pair of types a value of the second may be assigned, passed, returned or initialised to the first without a cast if and only if the documented assignment requirement holds, and cast if and only if the documented cast requirement holds; every other program is rejected at compile time with an error message. Inheritance, interfaces, array dimensions, numeric boxing/unboxing, undef, mutable and reference types are all covered by the same rules in every context.',
 ['programs'],'every ordered pair of types from a universe with all categories and dimensions, in every assignment-like context',
 'tests enumerate a small part of the pairs, mostly in one context (assignment)',
 [B+'spvm_type.c',B+'spvm_check.c',D+'Language/Types.pm'],
 [('can_assign / can_cast','spvm_type.c SPVM_TYPE_can_assign, SPVM_TYPE_can_cast'),('implicit conversion insertion','spvm_check.c SPVM_CHECK_check_ast_assign_type')],['compile result'])
p('C07','A value never has a type its holder cannot hold',
 'Every cast, array element store, interface-typed call and Perl-to-SPVM call that would put an object into a place whose type it does not satisfy throws an exception and stores nothing. isa, is_type, type_name, can and their error-class counterparts give the answers the declared class hierarchy implies for every object and every type, and a cast succeeds exactly when isa says so.',
 ['programs','inputs'],'every object of every runtime type against every target type, through variables of every static type',
 'tests check a few object/type pairs per operator',
 [B+'spvm_api.c',B+'spvm_api_type.c',B+'spvm_type.c',I+'spvm_implement.h'],
 [('isa','spvm_api.c SPVM_API_isa, SPVM_API_elem_isa'),('runtime cast check','spvm_implement.h SPVM_IMPLEMENT_MOVE_OBJECT_WITH_TYPE_CHECK')],['operator results','exceptions'])
p('C08','A call runs the method the hierarchy selects, with the arguments given',
 'An instance call runs the most derived definition of the method for the object\'s class, whatever the static class or interface type of the variable; SUPER and class-qualified calls run exactly the named ancestor\'s definition; an interface\'s own body is used only as documented. Every argument arrives unchanged in its parameter, omitted optional arguments take their declared defaults, and the return value arrives unchanged at the caller. A class that does not satisfy a required or inherited method signature does not compile.',
 ['programs'],'every small hierarchy of classes and interfaces with every placement of overriding definitions, and every signature of argument types and counts',
 'tests have one inheritance chain of three classes and few signatures',
 [B+'spvm_check.c',B+'spvm_type.c',B+'spvm_api.c',B+'spvm_opcode_builder.c',D+'Language/Class.pm'],
 [('method resolution','spvm_api.c SPVM_API_get_instance_method'),('static resolution','spvm_check.c SPVM_CHECK_check_ast_op_call_method'),('interface requirement','spvm_type.c SPVM_TYPE_satisfy_requirement')],['identity of executed method','argument log'])
p('C09','Access control admits exactly what the declarations allow',
 'Using a method, field, class variable or new of a class from some class compiles if and only if the member is public there, or protected and the using class is the class itself or a descendant, or private and the using class is the class itself or one named in an allow statement. Defaults for members without an access attribute are as documented, and rw/ro/wo accessors exist exactly as declared.',
 ['programs'],'every combination of member kind, access attribute, class relation and allow list',
 'tests check some combinations per member kind',
 [B+'spvm_check.c',B+'spvm_op.c',B+'spvm_allow.c',D+'Language/Class.pm'],
 [('access checks','spvm_check.c SPVM_CHECK_can_access')],['compile result'])
p('C10','Invalid operations throw and change nothing',
 'Reading or writing an array element or string character outside the bounds, using an undefined array, string or object where a defined one is needed, creating an array or string with a negative length, writing to a read-only string, dividing an integer by zero or casting to a wrong class always raises a catchable exception in the method that did it. The failing operation leaves every variable, field and element as it was, the process never crashes, and valid operations never raise.',
 ['programs','inputs'],'every operation on every index around both bounds, every element type, every receiver state (undef, empty, normal), in every operand position',
 'tests try one or two failing inputs per operation',
 [I+'spvm_implement.h',B+'spvm_vm.c',B+'spvm_precompile.c',B+'spvm_opcode_builder.c'],
 [('checked element access','spvm_implement.h SPVM_IMPLEMENT_GET_ARRAY_ELEMENT_*, SPVM_IMPLEMENT_SET_ARRAY_ELEMENT_*')],['exceptions','values after the operation'])
p('C11','A precompiled method behaves exactly like its interpreted form',
 'For every method, marking it precompile changes nothing observable: same results, same side effects in the same order, same exceptions with the same messages, error ids and stack traces, same destruction times and same memory use after return, also when precompiled and interpreted methods call each other.',
 ['programs'],'every program of the language',
 'the same fixed test programs run in both forms; a wrong translation of one operation in a context no test uses is not seen',
 [B+'spvm_precompile.c',I+'spvm_implement.h',B+'spvm_vm.c','lib/SPVM/Builder/CC.pm'],
 [('C code generation','spvm_precompile.c SPVM_PRECOMPILE_build_method_source')],['all observations of the other properties'])
p('C12','A read returns the last value written to that place',
 'Each local variable, class variable, field, array element, multi-numeric field and referenced variable is its own place: it starts as zero or undef and reads always give the value last written to it, of full width, regardless of what is written elsewhere, of how many variables of which types are alive, of inner scopes, of calls made in between and of recursion. References alias exactly the variable they were taken from, and captured variables of anonymous methods keep the value at capture.',
 ['programs','histories'],'every sequence of declarations, writes and reads over many places of mixed types in nested scopes and frames',
 'tests use few variables per method; slot allocation errors need particular mixes of types and scopes',
 [B+'spvm_opcode_builder.c',B+'spvm_check.c',B+'spvm_vm.c',B+'spvm_runtime.c',I+'spvm_implement.h'],
 [('variable slot allocation','spvm_check.c SPVM_CHECK_check_ast_typed_var_indexes'),('field offsets','spvm_check.c SPVM_CHECK_check_fields')],['values read'])
p('C13','Strings have value semantics and read-only strings never change',
 'Concatenation, length, comparison, copying, character access and conversions between numbers and strings are exact for strings of any bytes and length, embedded NUL and high bytes included. A string literal or a string made read-only can never be changed through any alias or library call (an attempt throws or does nothing), and a mutable string is changed only by writes to it, visible through all aliases; the results of concatenation and copy are new, independent and mutable.',
 ['programs','inputs'],'every sequence of string operations over aliases of several strings',
 'tests check single operations on short ASCII strings',
 [B+'spvm_api.c',I+'spvm_implement.h',B+'spvm_check.c','lib/SPVM/Fn.spvm'],
 [('read-only flag','spvm_api.c SPVM_API_make_read_only'),('string compare','spvm_implement.h SPVM_IMPLEMENT_STRING_COMPARISON')],['string contents','exceptions'])
p('C14','Hash is a map from byte strings to objects',
 'After any sequence of operations get returns the value last set for exactly that key and undef for absent or deleted keys; exists, delete, keys, values, to_array, has_keys, copy and the typed and default variants agree with that mapping, each key once. Growth and rehashing lose, duplicate or confuse nothing, copies are independent, and deleted or replaced values are released.',
 ['histories','inputs'],'every sequence of set, get, delete, exists, weaken, copy and iteration over keys chosen to collide or to cross growth thresholds',
 'tests set a few keys; bucket chains and growth boundaries are reached only by some sequences, and the seed varies per object',
 ['lib/SPVM/Hash.spvm','lib/SPVM/Hash.c','lib/SPVM/Hash/Entry.spvm'],
 [('chained buckets and rehash','Hash.spvm _set_to_container, _rehash, delete')],['method results'])
p('C15','List classes and StringBuffer are sequences',
 'After any sequence of push, pop, shift, unshift, insert, remove, replace, set, resize, reserve and get, List, StringList, the numeric lists and StringBuffer hold exactly the sequence a plain sequence model holds, with length and capacity consistent. Invalid indexes and lengths throw and change nothing, to_array returns an independent copy, removed elements are released, and immutable lists never change.',
 ['histories','inputs'],'every sequence of operations with every index around the bounds and growth around capacity',
 'tests run each method a few times from fresh lists; growth, shrink and stale slots depend on history',
 ['lib/SPVM/List.spvm','lib/SPVM/StringList.spvm','lib/SPVM/ByteList.spvm','lib/SPVM/ShortList.spvm','lib/SPVM/IntList.spvm','lib/SPVM/LongList.spvm','lib/SPVM/FloatList.spvm','lib/SPVM/DoubleList.spvm','lib/SPVM/StringBuffer.spvm','lib/SPVM/Immutable/IntList.spvm'],
 [('capacity management','List.spvm _extend')],['method results','to_array'])
p('C16','Sorting yields the ordered, stable permutation',
 'Every sort function of every element type, with and without a range, ascending, descending or with a comparator, turns the given range into an ordered permutation of its former elements, leaves everything outside the range untouched, and keeps the relative order of elements the comparator calls equal. Object counts and identities are preserved, and a comparator that throws leaves a usable array and a propagated exception.',
 ['inputs'],'all arrays up to a small length over a small ordered domain, larger random ones, all ranges',
 'tests sort a few fixed arrays',
 ['lib/SPVM/Sort.spvm','lib/SPVM/Array.spvm','lib/SPVM/Fn.spvm'],[('merge sort','Sort.spvm')],['array contents'])
p('C17','String and array utility functions compute their documented functions',
 'For every input, the functions of Fn and Array that search, slice, split, join, trim, replace, repeat, compare, copy, reverse, change case or convert between code points and UTF-8 return what their documentation defines, reject out-of-range arguments with an exception, and never modify their inputs unless documented.',
 ['inputs'],'all short strings over a small alphabet and all offsets and lengths around their bounds, plus boundary code points',
 'tests check a few examples per function',
 ['lib/SPVM/Fn.spvm','lib/SPVM/Fn.c','lib/SPVM/Array.spvm','lib/SPVM/Array.c'],[('implementations','Fn.spvm, Fn.c, Array.spvm, Array.c')],['results'])
p('C18','Values cross between Perl and SPVM unchanged or are refused',
 'Passing a Perl value to an SPVM parameter or converting it with the exchange API gives the SPVM value its type defines (integers truncated to width, strings byte for byte, arrays element by element, references updated after the call), and converting back yields the same value; a Perl value that does not fit the parameter type is refused with an exception and the method is not run. Missing optional arguments take defaults, too few or too many arguments are refused.',
 ['inputs','programs'],'every parameter type against every kind of Perl value, round trips of boundary values',
 'tests convert a few values per type',
 ['SPVM.xs','lib/SPVM/ExchangeAPI.pm','lib/SPVM/BlessedObject.pm','lib/SPVM/BlessedObject/Array.pm','lib/SPVM/BlessedObject/String.pm'],
 [('argument conversion','SPVM.xs _xs_call_method')],['values in SPVM and in Perl','exceptions'])
p('C19','Perl handles keep SPVM objects alive, and nothing leaks across the border',
 'An SPVM object lives as long as Perl holds a handle to it or SPVM refers to it, and is destroyed (destructor run) as soon as neither does, whatever the order of calls, returns, copies of handles and exceptions. An exception leaving SPVM becomes a Perl exception with the same message and leaves both sides usable; after all handles are gone the runtime holds no more memory than before.',
 ['histories'],'every interleaving of creating, passing, storing, returning and dropping handles and of calls that throw',
 'tests check the memory count once at the end of a file',
 ['SPVM.xs','lib/SPVM/BlessedObject.pm','lib/SPVM/ExchangeAPI.pm',B+'spvm_api.c'],
 [('handle reference count','SPVM.xs SPVM_XS_UTIL_new_sv_blessed_object, BlessedObject DESTROY')],['destructor log','get_memory_blocks_count'])
p('C20','Compilation is all or nothing and repeatable',
 'At run time a class that fails to compile leaves the runtime exactly as it was: classes loaded before keep working with their state, the failed class and classes loaded only for it are not visible, the error message names file and line, and compiling it again after correction succeeds. Compiling a loaded class again is harmless, and loading the same classes in any order gives the same program.',
 ['histories','programs'],'every sequence of successful and failing compilations of classes that use each other',
 'tests compile one bad class per fresh compiler',
 [B+'spvm_compiler.c','lib/SPVM/Native/Compiler.c',B+'spvm_api_compiler.c','lib/SPVM/Builder/Native/Compiler.pm'],
 [('roll back of symbols on error','spvm_compiler.c SPVM_COMPILER_compile_with_exit / free_memory_each_compile')],['compile results','class behaviour afterwards'])
p('C21','Each INIT block runs once, after those it depends on',
 'The INIT blocks of every class that is loaded run exactly once per runtime, at the initialization that follows the load (the start of the program, the load from Perl, call_init_methods after a run-time compilation) and before the program uses the class: after the INIT block of its parent class and of the classes it uses, in the order of the use statements (cycles aside), and its own blocks in the order they are written. The order among classes that are not related that way, and of interfaces, is free. Class variables keep their values from then on; an exception in an INIT block is reported and does not make another INIT block run twice.',
 ['programs','histories'],'every small graph of use and extends relations, and every order of loading',
 'tests have two or three classes in one order',
 [B+'spvm_api.c',B+'spvm_op.c',B+'spvm_check.c',B+'spvm_compiler.c',D+'Language/Class.pm'],
 [('INIT call generation','spvm_op.c SPVM_OP_build_class, spvm_api.c SPVM_API_call_init_methods')],['order log'])
p('C22','Reference counting is safe under concurrent threads',
 'Threads that share a runtime, each with its own stack, may assign, weaken, unweaken and drop references to shared objects, read references that no other thread can drop meanwhile, and allocate memory in any interleaving: no update is lost, no object is freed twice, used after being freed or leaked, every destructor runs exactly once, and the memory block count is exact. Code that works on objects of its own gives in any thread the result it gives when it runs alone. (A reference another thread may drop has to be read under a Sync::Mutex, because a returned object is not counted between the return and the assignment of the caller.)',
 ['schedules'],'every interleaving of the critical sections of assignment, release, weaken, unweaken and allocation by two or more threads',
 'one stress test with two threads, which cannot enumerate schedules',
 [B+'spvm_api.c',B+'spvm_mutex.c',I+'spvm_implement.h'],
 [('runtime mutexes','spvm_api.c SPVM_API_assign_object, SPVM_API_weaken, SPVM_API_new_memory_block')],['lock-ordered event trace','final counts'],None,'trace hook inside the runtime mutex')
p('C23','Sync::Mutex excludes writers and admits readers',
 'Between lock and unlock no other thread holds the mutex in either mode, between reader_lock and reader_unlock no thread holds it exclusively while other readers may hold it too; a waiting thread proceeds once the mutex is free, and work done before unlock is visible after the next lock.',
 ['schedules'],'every interleaving of lock, unlock, reader_lock and reader_unlock by several threads',
 'tests lock and unlock in one thread or a fixed two-thread pattern',
 ['lib/SPVM/Sync/Mutex.c','lib/SPVM/Sync/Mutex.spvm',B+'spvm_mutex.c',B+'spvm_api_mutex.c'],[('rwlock wrapper','spvm_mutex.c')],['history of calls and protected counters'])
p('C24','Builds are never stale and the executable behaves like the script',
 'Whatever the order of editing sources, configs and headers, of changing the settings given to spvmcc (mode, config arguments, optimization) and of building, failed builds included, running a native or precompiled class or a generated executable uses code built from the current contents of all files it depends on, rebuilding what changed; unchanged inputs are not rebuilt. The executable generated by spvmcc prints, returns and fails exactly as running the same script with spvm does.',
 ['histories','programs'],'every sequence of edits with time stamps and builds; every program',
 'tests build one example from a clean directory',
 ['lib/SPVM/Builder/CC.pm','lib/SPVM/Builder/Util.pm','lib/SPVM/Builder/Exe.pm','script/spvmcc','script/spvm'],[('rebuild decision','Builder/Util.pm need_generate'),('executable generation','Builder/Exe.pm')],['output of the built code','set of rebuilt objects'])
p('C25','Source text means what the lexical rules say',
 'Every literal of every form and base denotes exactly its documented value and type, every escape its documented bytes, interpolated strings and heredocs the concatenation they show, and operators bind by the documented precedence and associativity; comments, POD, line directives and whitespace change nothing but line numbers. Malformed tokens are rejected with an error at the right line, and the compiler accepts or rejects every text whatever it contains: it never crashes, hangs or reads outside the source.',
 ['inputs','programs'],'all short literals over the relevant alphabet, boundary values of each numeric type, all operator pairs',
 'tests check some literals of each form',
 [B+'spvm_toke.c',B+'spvm_op.c','yacc/spvm_yacc.y',D+'Language/Tokenization.pm',D+'Language/SyntaxParsing.pm'],[('tokenizer','spvm_toke.c SPVM_TOKE_yylex'),('precedence table','yacc/spvm_yacc.y')],['values printed','compile errors'])
p('C26','pack and unpack, and sprintf, render values exactly',
 'For every template and values, pack produces the documented byte layout and unpack of it gives the same values back; sprintf renders integers, characters and strings with flags, width and precision as documented. Malformed templates, missing arguments and arguments of a wrong type are refused with an exception.',
 ['inputs'],'all short templates over the specifiers with counts and endian marks, boundary values',
 'tests check one or two values per specifier',
 ['lib/SPVM/Packer.spvm','lib/SPVM/Packer/Specifier.spvm','lib/SPVM/Format.spvm','lib/SPVM/Format.c'],[('pack/unpack','Packer.spvm'),('sprintf','Format.spvm')],['results'])
p('C27','Native methods act through the native API as SPVM code does',
 'A native method that works through the native API - creating objects, strings and arrays, reading and writing fields, elements and class variables by name or by handle, making references weak, calling methods, throwing and handling exceptions, opening scopes, asking for types, copying - has exactly the effects of the same operation written in SPVM: the same values, results and exceptions (class and message) reach the other side, the same objects live and are destroyed at the same points, and everything made natively and not kept is released when the native method or its scope ends.',
 ['histories','inputs'],'all short histories of native and SPVM operations over few objects, every type of value, many temporaries',
 'tests call each API function once with one value',
 [B+'spvm_api.c',I+'spvm_native.h',D+'NativeClass.pm'],[('native calls','spvm_api.c SPVM_API_call_method_native'),('field and class variable access','spvm_api.c SPVM_API_set_field_object, SPVM_API_set_class_var_object'),('scopes','spvm_api.c SPVM_API_push_mortal, SPVM_API_leave_scope')],['results','exceptions','destructor log','memory blocks'])
p('C28','Methods called by name bind, call and return as the language does',
 'A call by name (Native::MethodCall: a class method, an instance method of a class, an instance method of an object; at once, through a kept call object, or with another runtime stack) finds the method the names mean, binds the given objects to its parameters - objects of numeric classes to numeric ones, arrays to multi-numeric ones and to references, objects to object parameters exactly when an assignment would take them - fills in the defaults of missing optional ones, and gives back the return value as an object. What the method writes through references is in the arrays of the caller. An exception comes back as ExceptionThrown with the message, its id in the cell given for it. A call that does not fit changes nothing; nothing is leaked.',
 ['histories','inputs'],'random signatures of up to 5 parameters of every kind of type; histories of calls with fitting and unfitting arguments over shared variables',
 'tests call one method per parameter type with fitting arguments',
 [L+'Native/MethodCall.c',L+'Native/MethodCall.spvm',B+'spvm_api.c'],[('binding','Native/MethodCall.c SPVM__Native__MethodCall__call'),('lookup','spvm_api.c SPVM_API_get_class_method, SPVM_API_get_instance_method, SPVM_API_get_instance_method_static'),('defaults','spvm_api.c SPVM_API_call_method_common')],['arguments seen','return values','exceptions','variables','memory blocks'])
p('C29','A program is told about its classes what was declared',
 'The description of the classes of a program at run time (Native::Runtime, Native::BasicType, Native::Method, Native::Field, Native::ClassVar, Native::Arg) is that of its source: every class with its category, super class, version and attributes; the fields of the classes it extends and its own, in this order; its class variables; its methods, the getters and setters asked for, enumerations and INIT included; the classes of its anonymous methods; of everything the type (basic type, dimension, reference, mutable), of every method the kind and its parameters with their defaults. Names and indices lead to the same things; what does not exist is an exception.',
 ['inputs'],'random declarations of several classes that extend and use each other, with all kinds of members and types',
 'tests look at a few members of one class',
 [L+'Native/BasicType.c',L+'Native/Method.c',L+'Native/Field.c',L+'Native/Arg.c',L+'Native/Runtime.c',B+'spvm_compiler.c',B+'spvm_api_basic_type.c'],[('what is kept of a class','spvm_compiler.c SPVM_COMPILER_build_runtime'),('getters, setters, enumerations','spvm_op.c SPVM_OP_build_class'),('lookup','spvm_api_basic_type.c SPVM_API_BASIC_TYPE_get_method_by_name')],['descriptions printed'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
from jsonschema import validate
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: validate(x,S)
print(len(P))
