/* Preloaded allocator wrapper: the set of live blocks that were allocated by
   given shared objects (by the address malloc & co. return to), and the number
   of live blocks of the whole process. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

#define NT (1 << 20)
static struct { uintptr_t p; size_t n; uintptr_t pc; } T[NT];
static struct { uintptr_t a, b; } R[64];
static int nR;
static long nlive, blive, total, over;
static volatile int lk;

static void lock(void) { while (__sync_lock_test_and_set(&lk, 1)); }
static void unlock(void) { __sync_lock_release(&lk); }
static size_t slot(uintptr_t p) {
  return (size_t)((p >> 4) * 0x9E3779B97F4A7C15ull >> 44) & (NT - 1);
}

static void add(void *q, size_t n, void *ret) {
  uintptr_t p = (uintptr_t)q, pc = (uintptr_t)ret;
  if (!p) return;
  __sync_fetch_and_add(&total, 1);
  int i, in = 0;
  for (i = 0; i < nR; i++) if (pc >= R[i].a && pc < R[i].b) { in = 1; break; }
  if (!in) return;
  lock();
  if (nlive > NT / 2) over++;
  else {
    size_t h = slot(p);
    while (T[h].p) h = (h + 1) & (NT - 1);
    T[h].p = p; T[h].n = n; T[h].pc = pc;
    nlive++; blive += n;
  }
  unlock();
}

static void del(void *q) {
  uintptr_t p = (uintptr_t)q;
  if (!p) return;
  __sync_fetch_and_add(&total, -1);
  if (!nlive) return;
  lock();
  size_t h = slot(p);
  while (T[h].p && T[h].p != p) h = (h + 1) & (NT - 1);
  if (T[h].p) {
    nlive--; blive -= T[h].n;
    size_t i = h, j = h;            /* backward-shift deletion */
    for (;;) {
      j = (j + 1) & (NT - 1);
      if (!T[j].p) break;
      size_t k = slot(T[j].p);
      if (((j - k) & (NT - 1)) >= ((j - i) & (NT - 1))) { T[i] = T[j]; i = j; }
    }
    T[i].p = 0;
  }
  unlock();
}

void *malloc(size_t n) {
  void *p = __libc_malloc(n); add(p, n, __builtin_return_address(0)); return p;
}
void *calloc(size_t a, size_t b) {
  void *p = __libc_calloc(a, b);
  add(p, a * b, __builtin_return_address(0)); return p;
}
void *realloc(void *o, size_t n) {
  void *ret = __builtin_return_address(0);
  /* before the block can be handed to another thread */
  del(o);
  void *p = __libc_realloc(o, n);
  if (!p && o && n) add(o, 0, ret); else add(p, n, ret);
  return p;
}
void *memalign(size_t a, size_t n) {
  void *p = __libc_memalign(a, n);
  add(p, n, __builtin_return_address(0)); return p;
}
void *aligned_alloc(size_t a, size_t n) {
  void *p = __libc_memalign(a, n);
  add(p, n, __builtin_return_address(0)); return p;
}
int posix_memalign(void **o, size_t a, size_t n) {
  void *p = __libc_memalign(a, n);
  if (!p) return ENOMEM;
  add(p, n, __builtin_return_address(0)); *o = p; return 0;
}
void free(void *p) { int e = errno; del(p); __libc_free(p); errno = e; }

static int one(struct dl_phdr_info *i, size_t s, void *what) {
  if (!strstr(i->dlpi_name, (char *)what)) return 0;
  for (int k = 0; k < i->dlpi_phnum; k++)
    if (i->dlpi_phdr[k].p_type == PT_LOAD &&
        (i->dlpi_phdr[k].p_flags & PF_X) && nR < 64) {
      R[nR].a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
      R[nR].b = R[nR].a + i->dlpi_phdr[k].p_memsz;
      nR++;
    }
  return 0;
}

int nmc_leak_add(char *sub) { dl_iterate_phdr(one, sub); return nR; }
long nmc_leak_count(void) { return nlive; }
long nmc_leak_bytes(void) { return blive; }
long nmc_leak_total(void) { return total; }
long nmc_leak_over(void) { return over; }
/* the k-th live block */
int nmc_leak_list(uintptr_t *p, size_t *n, uintptr_t *pc, int max) {
  int m = 0;
  lock();
  for (size_t h = 0; h < NT && m < max; h++) if (T[h].p) {
    p[m] = T[h].p; n[m] = T[h].n; pc[m] = T[h].pc; m++;
  }
  unlock();
  return m;
}
