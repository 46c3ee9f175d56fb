// Preloaded: runs registered threads one at a time, switching at lock acquisitions as a seeded choice says; keeps freed memory to detect double frees and writes after free.
#define _GNU_SOURCE
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <malloc.h>
#include <dlfcn.h>
extern void __libc_free(void*);
#define MAXT 16
static pthread_mutex_t g = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cnd = PTHREAD_COND_INITIALIZER;
static int on, cur, nt, active[MAXT], blocked; static uint64_t rs; static int pct; static long yields, dead;
static __thread int vid, depth;
static const char* plan; // explicit choices (one character per yield, thread number), then random
static uint32_t rnd(void) { rs = rs * 6364136223846793005ULL + 1442695040888963407ULL; return (uint32_t)(rs >> 33); }
static void pick(void) {
  int n = 0, a[MAXT]; for (int i = 1; i <= nt; i++) if (active[i]) a[n++] = i;
  if (!n) { cur = 0; return; }
  if (plan && *plan) { int w = *plan++ - '0'; if (w >= 1 && w <= nt && active[w]) { cur = w; return; } if (cur && active[cur]) return; }
  if (cur && active[cur] && !blocked && (int)(rnd() % 100) >= pct) return;
  cur = a[rnd() % n];
}
static void yield_(int b) {
  pthread_mutex_lock(&g); yields++; blocked = b; pick(); blocked = 0;
  if (b && ++dead > 200000) { fprintf(stderr, "DEADLOCK\n"); _exit(9); } if (!b) dead = 0;
  pthread_cond_broadcast(&cnd); while (cur != vid) pthread_cond_wait(&cnd, &g); pthread_mutex_unlock(&g);
}
void vsched_init(int n, uint64_t seed, int percent, const char* p) { nt = n; rs = seed * 2654435761u + 12345; rnd(); pct = percent; plan = p; cur = 0; yields = 0; dead = 0; for (int i = 1; i <= n; i++) active[i] = 1; on = 1; }
void vsched_enter(int id) { vid = id; depth = 0; pthread_mutex_lock(&g); while (cur != vid) pthread_cond_wait(&cnd, &g); pthread_mutex_unlock(&g); }
void vsched_leave(void) { pthread_mutex_lock(&g); active[vid] = 0; pick(); pthread_cond_broadcast(&cnd); pthread_mutex_unlock(&g); vid = 0; }
void vsched_go(void) { pthread_mutex_lock(&g); pick(); pthread_cond_broadcast(&cnd); pthread_mutex_unlock(&g); }
void vsched_yield(void) { if (vid) yield_(0); }
long vsched_end(void) { on = 0; return yields; }
void vsched_base(void) { depth = 0; }   // locks taken so far are the program's own: switch inside them
int vsched_id(void) { return vid; }
// locks
typedef int (*lf)(pthread_rwlock_t*);
static lf rw, rr, ru, tw, tr;
static void look(void) { if (!ru) { rw = (lf)dlsym(RTLD_NEXT, "pthread_rwlock_wrlock"); rr = (lf)dlsym(RTLD_NEXT, "pthread_rwlock_rdlock"); tw = (lf)dlsym(RTLD_NEXT, "pthread_rwlock_trywrlock"); tr = (lf)dlsym(RTLD_NEXT, "pthread_rwlock_tryrdlock"); ru = (lf)dlsym(RTLD_NEXT, "pthread_rwlock_unlock"); } }
static int take(pthread_rwlock_t* l, lf plain, lf try_) {
  look(); if (!vid) return plain(l);
  if (depth++ == 0) yield_(0);
  int r; while ((r = try_(l)) == EBUSY || r == EDEADLK) yield_(1);
  return r;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { look(); return take(l, rw, tw); }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { look(); return take(l, rr, tr); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) { look(); if (vid && depth > 0) depth--; return ru(l); }
// freed memory
#define MAXQ 20000
static struct { void* p; size_t n; uint64_t h; } q[MAXQ]; static int nq; static int df;
static uint64_t hash(void* p, size_t n) { uint64_t h = 14695981039346656037ULL; unsigned char* c = p; for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ULL; return h; }
void free(void* p) {
  if (!p) return;
  if (vid && on && nq < MAXQ) { for (int i = nq - 1; i >= 0; i--) if (q[i].p == p) { df++; return; } q[nq].p = p; q[nq].n = malloc_usable_size(p); q[nq].h = hash(p, q[nq].n); nq++; return; }
  if (nq) for (int i = nq - 1; i >= 0; i--) if (q[i].p == p) { df++; return; }
  __libc_free(p);
}
// blocks freed twice, blocks written after they were freed
void vsched_quarantine(int* dfs, int* uaf) { *dfs = df; *uaf = 0; for (int i = 0; i < nq; i++) if (hash(q[i].p, q[i].n) != q[i].h) (*uaf)++; int n = nq; nq = 0; df = 0; for (int i = 0; i < n; i++) __libc_free(q[i].p); }
