#define _GNU_SOURCE
#include "spvm_native.h"
#include <pthread.h>
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static const char* FILE_NAME = "VMtx.c";
#define MAXT 8
static int nth, nop[MAXT]; typedef struct { int o, a; } OP; static OP prog[MAXT][64]; static char* out; static size_t len, cap; static SPVM_ENV* env0; static int quiet;
static pthread_mutex_t lm = PTHREAD_MUTEX_INITIALIZER; static __thread int me; static pthread_barrier_t bar; static long sums[MAXT][16];
static void (*enter)(int); static void (*leave)(void); static void (*go)(void); static void (*init_)(int, uint64_t, int, const char*); static long (*end_)(void); static void (*quar)(int*, int*); static void (*base)(void);
static void say(const char* f, int a, int b, int c, int d) { pthread_mutex_lock(&lm); if (len + 200 > cap) { cap = cap ? cap * 2 : 65536; out = realloc(out, cap); } len += snprintf(out + len, 200, f, a, b, c, d); pthread_mutex_unlock(&lm); }
int32_t SPVM__VMtx__note(SPVM_ENV* env, SPVM_VALUE* stack) { if (quiet) return 0; if (base) base(); say("L %d %d\n", me, stack[0].ival, 0, 0); return 0; }
static int call(SPVM_ENV* env, SPVM_VALUE* stack, int o, int a) { int32_t e = 0; stack[0].ival = o; stack[1].ival = a; env->call_class_method_by_name(env, stack, "VMtx", "op", 2, &e, __func__, FILE_NAME, __LINE__); if (e) { fprintf(stderr, "op %d: %s\n", o, env->get_chars(env, stack, env->get_exception(env, stack))); return -99; } return stack[0].ival; }
static void* body(void* p) {
  int t = (int)(intptr_t)p; me = t + 1; if (enter) enter(t + 1);
  SPVM_ENV* env = env0; SPVM_VALUE* stack = env->new_stack(env);
  if (quiet) pthread_barrier_wait(&bar);
  for (int q = 0; q < (quiet ? quiet : 1); q++) for (int j = 0; j < nop[t]; j++) { OP* x = &prog[t][j]; int s = env->enter_scope(env, stack); if (!quiet) say("I %d %d %d\n", me, x->o, x->a, 0); int r = call(env, stack, x->o, x->a); if (!quiet) say("R %d %d\n", me, r, 0, 0); else if (r < 0) sums[t][15]++; else { if (x->o == 3) { sums[t][3] += r; } if (x->o == 2 || x->o == 7) sums[t][2] += x->a; if (x->o == 0) sums[t][0] += x->a; if (x->o == 8) sums[t][0] += x->a; } env->leave_scope(env, stack, s); }
  env->free_stack(env, stack); if (leave) leave(); return NULL;
}
static void cls(SPVM_ENV* env, SPVM_VALUE* stack, const char* m) { int32_t e = 0; env->call_class_method_by_name(env, stack, "VMtx", m, 0, &e, __func__, FILE_NAME, __LINE__); }
// program: threads seed pct plan free; operations: o thread op arg
int32_t SPVM__VMtx__run(SPVM_ENV* env, SPVM_VALUE* stack) {
  const char* s = env->get_chars(env, stack, stack[0].oval); int seed, pct, n = 0, fr; char plan[4096];
  env0 = env; me = 0; len = 0; memset(nop, 0, sizeof nop); memset(sums, 0, sizeof sums);
  enter = (void(*)(int))dlsym(RTLD_DEFAULT, "vsched_enter"); leave = (void(*)(void))dlsym(RTLD_DEFAULT, "vsched_leave"); go = (void(*)(void))dlsym(RTLD_DEFAULT, "vsched_go"); base = (void(*)(void))dlsym(RTLD_DEFAULT, "vsched_base");
  init_ = (void(*)(int, uint64_t, int, const char*))dlsym(RTLD_DEFAULT, "vsched_init"); end_ = (long(*)(void))dlsym(RTLD_DEFAULT, "vsched_end"); quar = (void(*)(int*, int*))dlsym(RTLD_DEFAULT, "vsched_quarantine");
  if (sscanf(s, "%d %d %d %4000s %d%n", &nth, &seed, &pct, plan, &fr, &n) != 5) return env->die(env, stack, "bad program", __func__, FILE_NAME, __LINE__);
  s += n; int t; OP q;
  while (sscanf(s, " o %d %d %d%n", &t, &q.o, &q.a, &n) == 3) { s += n; prog[t][nop[t]++] = q; }
  quiet = fr; if (quiet) { enter = NULL; leave = NULL; go = NULL; init_ = NULL; end_ = NULL; quar = NULL; base = NULL; pthread_barrier_init(&bar, NULL, nth); }
  int mem0 = env->get_memory_blocks_count(env, stack); int scope = env->enter_scope(env, stack);
  cls(env, stack, "start"); env->leave_scope(env, stack, scope); scope = env->enter_scope(env, stack);
  pthread_t th[MAXT]; if (init_) init_(nth, seed, pct, plan[0] == '-' ? NULL : plan);
  for (int i = 0; i < nth; i++) pthread_create(&th[i], NULL, body, (void*)(intptr_t)i);
  if (go) go();
  for (int i = 0; i < nth; i++) pthread_join(th[i], NULL);
  long y = end_ ? end_() : 0; me = 0;
  if (quiet) {
    quiet = 0; pthread_barrier_destroy(&bar);
    long pu = 0, sh = 0, in = 0, bad = 0; for (int i = 0; i < nth; i++) { pu += sums[i][2]; sh += sums[i][3]; in += sums[i][0]; bad += sums[i][15]; }
    int r; quiet = 1; while ((r = call(env, stack, 3, 0))) sh += r;
    int x = call(env, stack, 0, 0), z = call(env, stack, 8, 0), b = call(env, stack, 1, 0); quiet = 0;
    say("S %d %d %d %d\n", (int)(pu - sh), (int)(in - x - z), (int)bad, b == x);
  }
  cls(env, stack, "stop"); env->leave_scope(env, stack, scope);
  int mem1 = env->get_memory_blocks_count(env, stack); int df = 0, uaf = 0; if (quar) quar(&df, &uaf);
  say("E %d %d %d %d\n", mem1 - mem0, df, uaf, (int)y);
  stack[0].oval = env->new_string(env, stack, out, len); return 0;
}
