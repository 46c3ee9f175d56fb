#define _GNU_SOURCE
#include "spvm_native.h"
#include <pthread.h>
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <assert.h>
static const char* FILE_NAME = "VThr.c";
#define MAXO 64
#define MAXS 16
#define MAXT 8
#define NP 3
static int nth, nsh, nop[MAXT]; static void* sh[MAXS]; static void* pr[MAXT][NP]; 
typedef struct { char o; int dk, di, v, p; } OP;  // dk: 0 shared, 1 private, 2 field of the object in private di
static OP prog[MAXT][64]; static char* out; static size_t len, cap; static SPVM_ENV* env0; static void* shared_array;
static pthread_mutex_t lm = PTHREAD_MUTEX_INITIALIZER; static __thread int me; static __thread SPVM_VALUE* mystack;
static void (*enter)(int); static void (*leave)(void); static void (*go)(void); static void (*init_)(int, uint64_t, int, const char*); static long (*end_)(void); static void (*quar)(int*, int*);
static void say(const char* f, int a, int b, int c, int d, int e) { pthread_mutex_lock(&lm); if (len + 200 > cap) { cap = cap ? cap * 2 : 65536; out = realloc(out, cap); } len += snprintf(out + len, 200, f, a, b, c, d, e); pthread_mutex_unlock(&lm); }
static int quiet, made, gone; static pthread_barrier_t bar;
static void destroyed(int id) { if (quiet) { __atomic_add_fetch(&gone, 1, __ATOMIC_RELAXED); return; } say("D %d %d\n", me, id, 0, 0, 0); }
static int idof(SPVM_ENV* env, SPVM_VALUE* stack, void* o) { if (!o) return 0; int32_t e = 0; return env->get_field_int_by_name(env, stack, (void*)((intptr_t)o & ~(intptr_t)1), "id", &e, __func__, FILE_NAME, __LINE__); }
static void** slot(SPVM_ENV* env, SPVM_VALUE* stack, int t, int dk, int di, int* holder) {
  *holder = 0; int32_t e = 0;
  if (dk == 0) return &sh[di];
  if (dk == 1) return &pr[t][di];
  if (!pr[t][di]) return NULL;
  *holder = idof(env, stack, pr[t][di]);
  return env->get_field_object_ref_by_name(env, stack, pr[t][di], "f", &e, __func__, FILE_NAME, __LINE__);
}
static int newid;
static int got[MAXT][64];
static int work(SPVM_ENV* env, SPVM_VALUE* stack, int n) { int32_t e = 0; stack[0].ival = n; env->call_class_method_by_name(env, stack, "VThr", "work", 1, &e, __func__, FILE_NAME, __LINE__); if (e) { fprintf(stderr, "work: %s\n", env->get_chars(env, stack, env->get_exception(env, stack))); return -1; } return stack[0].ival; }
static int op(SPVM_ENV* env, SPVM_VALUE* stack, int t, OP* x) {
  if (x->o == 'c') { int r = work(env, stack, x->v); int* g = &got[t][x - prog[t]]; if (*g == 0) *g = r; else if (*g != r) *g = -2; return 0; }
  int h; void** d = slot(env, stack, t, x->dk, x->di, &h); if (!d) return 0;
  int32_t e = 0, r = 0; int dn = x->dk == 2 ? h : x->di;
  int v = x->o == 'a' ? (x->v < 0 ? 0 : idof(env, stack, pr[t][x->v])) : x->o == 'n' ? x->v : 0;
  if (x->dk == 2 && ((x->o == 'a' && v && v <= h) || x->o == 'u')) return 0;      // no cycles: strong references in fields go to later objects
  void* n = NULL;
  if (x->o == 'n') { n = env->new_object_by_name(env, stack, "VObj", &e, __func__, FILE_NAME, __LINE__); env->set_field_int_by_name(env, stack, n, "id", x->v, &e, __func__, FILE_NAME, __LINE__); }
  if (quiet && x->o == 'n') __atomic_add_fetch(&made, 1, __ATOMIC_RELAXED);
  if (!quiet) say("I %d %d ", t + 1, x->o, 0, 0, 0); if (!quiet) say("%d %d %d %d\n", x->dk, dn, v, x->p, 0);
  switch (x->o) {
    case 'a': env->assign_object(env, stack, d, x->v < 0 ? NULL : pr[t][x->v]); break;
    case 'w': env->weaken(env, stack, d); break;
    case 'u': env->unweaken(env, stack, d); break;
    case 'i': r = env->isweak(env, stack, d) ? 1 : 0; break;
    case 'r': env->assign_object(env, stack, &pr[t][x->p], (void*)((intptr_t)*d & ~(intptr_t)1)); r = idof(env, stack, pr[t][x->p]); break;
    case 'n': env->assign_object(env, stack, d, n); break;
    default: assert(0);
  }
  if (x->o == 'n') return 1;   // returns when the temporary is gone
  if (!quiet) say("R %d %d\n", t + 1, r, 0, 0, 0);
  return 0;
}
static void* body(void* a) {
  int t = (int)(intptr_t)a; me = t + 1;
  if (enter) enter(t + 1);
  SPVM_ENV* env = env0; SPVM_VALUE* stack = env->new_stack(env); 
  if (quiet) pthread_barrier_wait(&bar);
  for (int q = 0; q < (quiet ? quiet : 1); q++) for (int j = 0; j < nop[t]; j++) { int s = env->enter_scope(env, stack); int nw = op(env, stack, t, &prog[t][j]); env->leave_scope(env, stack, s); if (nw && !quiet) say("R %d %d\n", t + 1, 0, 0, 0, 0); }
  env->free_stack(env, stack);
  if (leave) leave();
  return NULL;
}
static void show(SPVM_ENV* env, SPVM_VALUE* stack, const char* k, int t, int i, void* p) { pthread_mutex_lock(&lm); if (len + 200 > cap) { cap = cap ? cap * 2 : 65536; out = realloc(out, cap); } len += snprintf(out + len, 200, "F %s %d %d %d %d\n", k, t, i, idof(env, stack, p), (int)((intptr_t)p & 1)); pthread_mutex_unlock(&lm); }
// program: threads shared objects seed pct plan free; objects' fields: o v w; shared: i v w; private: t i v; operations: t o dk di v p
int32_t SPVM__VThr__run(SPVM_ENV* env, SPVM_VALUE* stack) {
  int32_t e = 0; const char* s = env->get_chars(env, stack, stack[0].oval); int k, no, seed, pct; char plan[4096]; int n = 0, freerun;
  enter = (void(*)(int))dlsym(RTLD_DEFAULT, "vsched_enter"); leave = (void(*)(void))dlsym(RTLD_DEFAULT, "vsched_leave"); go = (void(*)(void))dlsym(RTLD_DEFAULT, "vsched_go");
  init_ = (void(*)(int, uint64_t, int, const char*))dlsym(RTLD_DEFAULT, "vsched_init"); end_ = (long(*)(void))dlsym(RTLD_DEFAULT, "vsched_end"); quar = (void(*)(int*, int*))dlsym(RTLD_DEFAULT, "vsched_quarantine");
  env0 = env; me = 0; memset(got, 0, sizeof got); len = 0; memset(nop, 0, sizeof nop);
  if (sscanf(s, "%d %d %d %d %d %4000s %d%n", &nth, &nsh, &no, &seed, &pct, plan, &freerun, &n) != 7) return env->die(env, stack, "bad program", __func__, FILE_NAME, __LINE__);
  s += n;
  if (freerun) { enter = NULL; leave = NULL; go = NULL; init_ = NULL; end_ = NULL; quar = NULL; }
  stack[0].lval = (int64_t)(intptr_t)destroyed; env->call_class_method_by_name(env, stack, "VObj", "hook", 1, &e, __func__, FILE_NAME, __LINE__);
  int mem0 = env->get_memory_blocks_count(env, stack);
  int scope = env->enter_scope(env, stack);
  void* objs[MAXO] = {0};
  for (int i = 1; i <= no; i++) { void* o = env->new_object_no_mortal(env, stack, env->get_basic_type(env, stack, "VObj")); env->assign_object(env, stack, &objs[i], o); env->set_field_int_by_name(env, stack, o, "id", i, &e, __func__, FILE_NAME, __LINE__); }
  char c; int a, b, w, x, y, z; int weaks[64][3], nw = 0;
  while (sscanf(s, " %c%n", &c, &n) == 1) {
    s += n;
    if (c == 'f') { sscanf(s, "%d %d %d%n", &a, &b, &w, &n); s += n; void** r = env->get_field_object_ref_by_name(env, stack, objs[a], "f", &e, __func__, FILE_NAME, __LINE__); env->assign_object(env, stack, r, objs[b]); if (w) { weaks[nw][0] = 2; weaks[nw++][1] = a; } }
    else if (c == 's') { sscanf(s, "%d %d %d%n", &a, &b, &w, &n); s += n; env->assign_object(env, stack, &sh[a], objs[b]); if (w) { weaks[nw][0] = 0; weaks[nw++][1] = a; } }
    else if (c == 'p') { sscanf(s, "%d %d %d%n", &a, &b, &w, &n); s += n; env->assign_object(env, stack, &pr[a][b], objs[w]); }
    else if (c == 'o') { OP q; char oc; sscanf(s, "%d %c %d %d %d %d%n", &a, &oc, &x, &y, &z, &w, &n); s += n; q.o = oc; q.dk = x; q.di = y; q.v = z; q.p = w; prog[a][nop[a]++] = q; }
    else return env->die(env, stack, "bad item", __func__, FILE_NAME, __LINE__);
  }
  for (int i = 0; i < nw; i++) env->weaken(env, stack, weaks[i][0] == 2 ? env->get_field_object_ref_by_name(env, stack, objs[weaks[i][1]], "f", &e, __func__, FILE_NAME, __LINE__) : &sh[weaks[i][1]]);
  for (int i = 1; i <= no; i++) env->assign_object(env, stack, &objs[i], NULL);
  pthread_t th[MAXT]; made = gone = 0; quiet = freerun; if (quiet) pthread_barrier_init(&bar, NULL, nth);
  if (init_) init_(nth, seed, pct, plan[0] == '-' ? NULL : plan);
  for (int t = 0; t < nth; t++) pthread_create(&th[t], NULL, body, (void*)(intptr_t)t);
  if (go) go();
  for (int t = 0; t < nth; t++) pthread_join(th[t], NULL);
  long y_ = end_ ? end_() : 0;
  me = 0;
  for (int i = 0; i < nsh; i++) show(env, stack, "s", 0, i, sh[i]);
  for (int t = 0; t < nth; t++) for (int i = 0; i < NP; i++) { show(env, stack, "p", t, i, pr[t][i]); if (pr[t][i]) { int h; void** r = slot(env, stack, t, 2, i, &h); show(env, stack, "f", 0, h, *r); } }
  for (int i = 0; i < nsh; i++) { say("I 0 97 0 %d 0 0\n", i, 0, 0, 0, 0); env->assign_object(env, stack, &sh[i], NULL); say("R 0 0\n", 0, 0, 0, 0, 0); }
  for (int t = 0; t < nth; t++) for (int i = 0; i < NP; i++) { say("I 0 97 1 %d 0 0\n", 100 * (t + 1) + i, 0, 0, 0, 0); env->assign_object(env, stack, &pr[t][i], NULL); say("R 0 0\n", 0, 0, 0, 0, 0); }
  env->leave_scope(env, stack, scope);
  int mem1 = env->get_memory_blocks_count(env, stack);
  if (quiet) for (int t = 0; t < nth; t++) for (int j = 0; j < nop[t]; j++) if (prog[t][j].o == 'c') { int r = work(env, stack, prog[t][j].v); if (r != got[t][j]) say("W %d %d %d\n", prog[t][j].v, got[t][j], r, 0, 0); }
  if (quiet) { say("M %d %d\n", made, gone, 0, 0, 0); pthread_barrier_destroy(&bar); quiet = 0; }
  int df = 0, uaf = 0; if (quar) quar(&df, &uaf);
  say("E %d %d %d %d\n", mem1 - mem0, df, uaf, (int)y_, 0);
  stack[0].oval = env->new_string(env, stack, out, len);
  return 0;
}
