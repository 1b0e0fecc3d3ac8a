/* Controlled OpenMP runtime with a happens-before race detector.
 *
 * Replaces libgomp and libtsan in the "sched" build.  The threads of a team
 * are coroutines on one OS thread; they run until a synchronisation point
 * (request of a chunk, critical section, atomic update, lock, barrier, end),
 * where the explorer decides who goes on.  Every memory access made by the
 * library's own code inside a team is checked against the accesses of the
 * other members with vector clocks: accesses which no barrier or critical
 * section orders, one of them a write, are reported.  Without such pairs an
 * execution is determined by the order of its synchronisation points, which
 * the explorer enumerates.
 */
#define _GNU_SOURCE
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#include <ucontext.h>

#define EXPORT __attribute__((visibility("default")))
#define MAXT 8
#define STACK (1<<20)
#define MAXLOG 200000
#define MAXRACE 64

enum { START, RUN, CHUNK, CRIT, ATOMIC, BARRIER, SINGLE, DONE };
static const char *opname[]={"start","run","chunk","critical","atomic",
			     "barrier","single","done"};

typedef struct {
  ucontext_t ctx;
  char *stack;
  int st;              /* pending operation */
  void *obj;           /* its critical section or address */
  int nloop,nsingle;   /* work-sharing constructs met */
  int curloop;
  int nchunk;          /* chunks received from this loop */
  uint32_t vc[MAXT];
} thr;

typedef struct {       /* a work-sharing loop of the team */
  int used;
  bool up;
  unsigned long long next,end,incr,chunk;
  long long snext,send,sincr;
  bool is_signed;
  int guided;
  int nthr;
  int last;            /* who got the last chunk */
} loop;

#define MAXLOOP 4096
static thr T[MAXT];
static loop L[MAXLOOP];
static int S[MAXLOOP];  /* who executes each single construct */
static int nteam=0,cur=-1;
static ucontext_t mainctx;
static void (*body)(void *);
static void *bodyarg;
static int cfg_T=1,cfg_region=-1,cfg_bound=1000000,cfg_atomic=0,cfg_sym=0;
static int region=-1;
static int npre=0;
static unsigned char pre[MAXLOG];
static int nlog=0;
static unsigned char lognopt[MAXLOG],logch[MAXLOG],logkind[MAXLOG];
static int spent=0;
static int nregions=0;
static struct {int nsync,nchunk,ncrit,natom,nbar; long nacc;} rinfo[MAXLOOP];
static int deadlock=0,overflow=0;

/* --- locks ---------------------------------------------------------------*/
typedef struct { void *key; int owner; uint32_t vc[MAXT]; } lockt;
#define MAXLOCK 256
static lockt locks[MAXLOCK];
static int nlocks=0;

static lockt *getlock(void *key)
{
  for(int i=0;i<nlocks;i++)
    if(locks[i].key==key) return &locks[i];
  if(nlocks==MAXLOCK) { overflow=1; nlocks=MAXLOCK-1; }
  lockt *l=&locks[nlocks++];
  memset(l,0,sizeof(*l));
  l->key=key; l->owner=-1;
  return l;
}

/* --- shadow memory -------------------------------------------------------*/
typedef struct {
  uintptr_t key;
  uint32_t gen;
  struct { uint32_t r,w,a; uint8_t rm,wm,am; uintptr_t rpc,wpc,apc; } t[MAXT];
} cell;
#define NCELL (1<<17)
static cell *shadow=NULL;
static uint32_t gen=1;
static int ncells=0;
static struct { uintptr_t addr,pc1,pc2; int w1,w2,t1,t2; } races[MAXRACE];
static int nraces=0;
static long nacc=0;
static char *modbase;

static cell *getcell(uintptr_t key)
{
  if(shadow==NULL) shadow=calloc(NCELL,sizeof(cell));
  uint64_t h=(key*0x9E3779B97F4A7C15ull)>>(64-17);
  while(1) {
    cell *c=&shadow[h&(NCELL-1)];
    if(c->gen!=gen) {
      if(++ncells>NCELL*3/4) { overflow=1; ncells--; return c; }
      memset(c,0,sizeof(*c));
      c->gen=gen; c->key=key;
      return c;
    }
    if(c->key==key) return c;
    h++;
  }
}

static void race(uintptr_t addr,int u,int uw,uintptr_t upc,int w,uintptr_t pc)
{
  for(int i=0;i<nraces;i++)
    if(races[i].pc1==upc-(uintptr_t)modbase &&
       races[i].pc2==pc-(uintptr_t)modbase) return;
  if(nraces==MAXRACE) return;
  races[nraces].addr=addr;
  races[nraces].pc1=upc-(uintptr_t)modbase;
  races[nraces].pc2=pc-(uintptr_t)modbase;
  races[nraces].w1=uw; races[nraces].w2=w;
  races[nraces].t1=u; races[nraces].t2=cur;
  nraces++;
}

/* kind: 0 read, 1 write, 2 atomic */
static void touch1(uintptr_t word,uint8_t mask,int kind,uintptr_t pc)
{
  cell *c=getcell(word);
  thr *me=&T[cur];
  for(int u=0;u<nteam;u++) {
    if(u==cur) continue;
    uint32_t seen=me->vc[u];
    if(c->t[u].w>seen && (c->t[u].wm&mask))
      race(word<<3,u,1,c->t[u].wpc,kind,pc);
    if(kind!=0 && c->t[u].r>seen && (c->t[u].rm&mask))
      race(word<<3,u,0,c->t[u].rpc,kind,pc);
    if(kind!=2 && c->t[u].a>seen && (c->t[u].am&mask))
      race(word<<3,u,2,c->t[u].apc,kind,pc);
  }
  uint32_t e=me->vc[cur];
#define PUT(x,xm,xpc) do { if(c->t[cur].x==e) c->t[cur].xm|=mask; \
    else { c->t[cur].x=e; c->t[cur].xm=mask; } c->t[cur].xpc=pc; } while(0)
  if(kind==0) PUT(r,rm,rpc);
  else if(kind==1) PUT(w,wm,wpc);
  else PUT(a,am,apc);
}

static void touch(void *p,size_t n,int kind,void *ret)
{
  if(cur<0 || nteam<2 || n==0) return;
  uintptr_t a=(uintptr_t)p,e=a+n;
  /* its own stack is private unless its address was given away */
  nacc++;
  for(uintptr_t w=a>>3;w<=(e-1)>>3;w++) {
    uintptr_t lo=(w<<3)>a ? (w<<3) : a;
    uintptr_t hi=((w+1)<<3)<e ? ((w+1)<<3) : e;
    uint8_t m=(uint8_t)(((1u<<(hi-lo))-1)<<(lo-(w<<3)));
    touch1(w,m,kind,(uintptr_t)ret);
  }
}

static void forget(void *p,size_t n)
{
  if(cur<0 || nteam<2 || p==NULL || shadow==NULL) return;
  uintptr_t a=(uintptr_t)p,e=a+n;
  if(n>(1<<16)) n=1<<16;
  for(uintptr_t w=a>>3;w<=(e-1)>>3;w++) {
    uint64_t h=(w*0x9E3779B97F4A7C15ull)>>(64-17);
    while(1) {
      cell *c=&shadow[h&(NCELL-1)];
      if(c->gen!=gen) break;
      if(c->key==w) { memset(c->t,0,sizeof(c->t)); break; }
      h++;
    }
  }
}

#define RET __builtin_return_address(0)
#define ACC(N) \
  void __tsan_read##N(void *p) { touch(p,N,0,RET); } \
  void __tsan_write##N(void *p) { touch(p,N,1,RET); } \
  void __tsan_unaligned_read##N(void *p) { touch(p,N,0,RET); } \
  void __tsan_unaligned_write##N(void *p) { touch(p,N,1,RET); } \
  void __tsan_volatile_read##N(void *p) { touch(p,N,0,RET); } \
  void __tsan_volatile_write##N(void *p) { touch(p,N,1,RET); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p,long n) { touch(p,n,0,RET); }
void __tsan_write_range(void *p,long n) { touch(p,n,1,RET); }
void __tsan_vptr_update(void **p,void *v) { touch(p,8,1,RET); }
void __tsan_vptr_read(void **p) { touch(p,8,0,RET); }
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_init(void) {}

static void sync_point(int st,void *obj);
static void at(void *p,size_t n,void *ret)
{
  if(cur<0) return;
  rinfo[region<MAXLOOP ? region : 0].natom++;
  if(cfg_atomic && nteam>1) sync_point(ATOMIC,p);
  touch(p,n,2,ret);
}

#define ATM(B,TY) \
  TY __tsan_atomic##B##_load(volatile TY *p,int m) \
  { at((void *)p,sizeof(TY),RET); return *p; } \
  void __tsan_atomic##B##_store(volatile TY *p,TY v,int m) \
  { at((void *)p,sizeof(TY),RET); *p=v; } \
  TY __tsan_atomic##B##_exchange(volatile TY *p,TY v,int m) \
  { at((void *)p,sizeof(TY),RET); TY o=*p; *p=v; return o; } \
  TY __tsan_atomic##B##_fetch_add(volatile TY *p,TY v,int m) \
  { at((void *)p,sizeof(TY),RET); TY o=*p; *p=o+v; return o; } \
  TY __tsan_atomic##B##_fetch_sub(volatile TY *p,TY v,int m) \
  { at((void *)p,sizeof(TY),RET); TY o=*p; *p=o-v; return o; } \
  TY __tsan_atomic##B##_fetch_and(volatile TY *p,TY v,int m) \
  { at((void *)p,sizeof(TY),RET); TY o=*p; *p=o&v; return o; } \
  TY __tsan_atomic##B##_fetch_or(volatile TY *p,TY v,int m) \
  { at((void *)p,sizeof(TY),RET); TY o=*p; *p=o|v; return o; } \
  TY __tsan_atomic##B##_fetch_xor(volatile TY *p,TY v,int m) \
  { at((void *)p,sizeof(TY),RET); TY o=*p; *p=o^v; return o; } \
  TY __tsan_atomic##B##_fetch_nand(volatile TY *p,TY v,int m) \
  { at((void *)p,sizeof(TY),RET); TY o=*p; *p=~(o&v); return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile TY *p,TY *c,TY v, \
						 int m,int fm) \
  { at((void *)p,sizeof(TY),RET); if(*p==*c) { *p=v; return 1; } \
    *c=*p; return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile TY *p,TY *c,TY v, \
					       int m,int fm) \
  { at((void *)p,sizeof(TY),RET); if(*p==*c) { *p=v; return 1; } \
    *c=*p; return 0; } \
  TY __tsan_atomic##B##_compare_exchange_val(volatile TY *p,TY c,TY v, \
					     int m,int fm) \
  { at((void *)p,sizeof(TY),RET); TY o=*p; if(o==c) *p=v; return o; }
ATM(8,uint8_t) ATM(16,uint16_t) ATM(32,uint32_t) ATM(64,uint64_t)
void __tsan_atomic_thread_fence(int m) {}
void __tsan_atomic_signal_fence(int m) {}

/* --- library calls made inside teams -------------------------------------*/
void *__real_malloc(size_t n);
void *__real_calloc(size_t n,size_t m);
void *__real_realloc(void *p,size_t n);
void __real_free(void *p);
void *__wrap_malloc(size_t n)
{ void *p=__real_malloc(n); forget(p,n); return p; }
void *__wrap_calloc(size_t n,size_t m)
{ void *p=__real_calloc(n,m); forget(p,n*m); return p; }
void *__wrap_realloc(void *p,size_t n)
{
  if(p) forget(p,malloc_usable_size(p));
  void *q=__real_realloc(p,n); forget(q,n); return q;
}
void __wrap_free(void *p)
{
  if(p && cur>=0) {
    touch(p,1,1,RET);
    forget(p,malloc_usable_size(p));
  }
  __real_free(p);
}
void *__real_fftw_malloc(size_t n);
void __real_fftw_free(void *p);
void *__wrap_fftw_malloc(size_t n)
{ void *p=__real_fftw_malloc(n); forget(p,n); return p; }
void __wrap_fftw_free(void *p)
{ if(p && cur>=0) touch(p,8,1,RET); __real_fftw_free(p); }
void *__real_memcpy(void *d,const void *s,size_t n);
void *__wrap_memcpy(void *d,const void *s,size_t n)
{ touch((void *)s,n,0,RET); touch(d,n,1,RET); return memmove(d,s,n); }
void *__real_memset(void *d,int c,size_t n);
void *__wrap_memset(void *d,int c,size_t n)
{ touch(d,n,1,RET); return __real_memset(d,c,n); }

/* GSL: accelerators and random generators are changed by their use */
void *__real_gsl_interp_accel_alloc(void);
void *__wrap_gsl_interp_accel_alloc(void)
{ void *p=__real_gsl_interp_accel_alloc(); forget(p,24); return p; }
void __real_gsl_interp_accel_free(void *p);
void __wrap_gsl_interp_accel_free(void *p)
{ if(p) { touch(p,8,1,RET); forget(p,24); } __real_gsl_interp_accel_free(p); }
double __real_gsl_spline_eval(const void *s,double x,void *a);
double __wrap_gsl_spline_eval(const void *s,double x,void *a)
{
  touch((void *)s,8,0,RET);
  if(a) touch(a,8,1,RET);
  return __real_gsl_spline_eval(s,x,a);
}
#define RNG(TY,NAME) \
  TY __real_##NAME(void *r); \
  TY __wrap_##NAME(void *r) { touch(r,8,1,RET); return __real_##NAME(r); }
RNG(double,gsl_rng_uniform) RNG(unsigned long,gsl_rng_get)
typedef struct { size_t size1,size2,tda; double *data; } gmat;
typedef struct { size_t size,stride; double *data; } gvec;
double __real_gsl_matrix_get(const gmat *m,size_t i,size_t j);
double __wrap_gsl_matrix_get(const gmat *m,size_t i,size_t j)
{ touch(m->data+i*m->tda+j,8,0,RET); return __real_gsl_matrix_get(m,i,j); }
void __real_gsl_matrix_set(gmat *m,size_t i,size_t j,double x);
void __wrap_gsl_matrix_set(gmat *m,size_t i,size_t j,double x)
{ touch(m->data+i*m->tda+j,8,1,RET); __real_gsl_matrix_set(m,i,j,x); }
double __real_gsl_vector_get(const gvec *v,size_t i);
double __wrap_gsl_vector_get(const gvec *v,size_t i)
{ touch(v->data+i*v->stride,8,0,RET); return __real_gsl_vector_get(v,i); }
void __real_gsl_vector_set(gvec *v,size_t i,double x);
void __wrap_gsl_vector_set(gvec *v,size_t i,double x)
{ touch(v->data+i*v->stride,8,1,RET); __real_gsl_vector_set(v,i,x); }
/* FFTW: planning is not reentrant, a plan's arrays belong to one execution */
static char planner[8];
typedef void *(*plan4)(int,int,void *,void *,unsigned);
void *__real_fftw_plan_dft_r2c_2d(int a,int b,void *i,void *o,unsigned f);
void *__wrap_fftw_plan_dft_r2c_2d(int a,int b,void *i,void *o,unsigned f)
{ touch(planner,8,1,RET); return __real_fftw_plan_dft_r2c_2d(a,b,i,o,f); }
void *__real_fftw_plan_dft_c2r_2d(int a,int b,void *i,void *o,unsigned f);
void *__wrap_fftw_plan_dft_c2r_2d(int a,int b,void *i,void *o,unsigned f)
{ touch(planner,8,1,RET); return __real_fftw_plan_dft_c2r_2d(a,b,i,o,f); }
void __real_fftw_execute(void *p);
void __wrap_fftw_execute(void *p)
{ touch(p,8,1,RET); __real_fftw_execute(p); }
void __real_fftw_destroy_plan(void *p);
void __wrap_fftw_destroy_plan(void *p)
{ touch(planner,8,1,RET); __real_fftw_destroy_plan(p); }

/* --- scheduler -----------------------------------------------------------*/
static void join_vc(uint32_t *a,const uint32_t *b)
{ for(int i=0;i<MAXT;i++) if(b[i]>a[i]) a[i]=b[i]; }

static void sync_point(int st,void *obj)
{
  T[cur].st=st; T[cur].obj=obj;
  if(region<MAXLOOP) rinfo[region].nsync++;
  swapcontext(&T[cur].ctx,&mainctx);
}

static void entry(int i)
{
  body(bodyarg);
  T[i].st=DONE;
  swapcontext(&T[i].ctx,&mainctx);
}

static int loop_left(int t)
{
  loop *l=&L[T[t].curloop];
  return l->is_signed ? (l->sincr>0 ? l->snext<l->send : l->snext>l->send)
    : (l->up ? l->next<l->end : l->next>l->end);
}

static int enabled(int t)
{
  if(T[t].st==CRIT) return getlock(T[t].obj)->owner<0;
  return T[t].st!=DONE && T[t].st!=BARRIER;
}

static int choose(int kind,int nopt)
{
  if(nopt<=1 || region!=cfg_region) return 0;
  if(nlog>=MAXLOG) { overflow=1; return 0; }
  int c=nlog<npre ? pre[nlog] : 0;
  if(c>=nopt) { overflow=2; c=0; }
  lognopt[nlog]=nopt; logch[nlog]=c; logkind[nlog]=kind;
  nlog++;
  return c;
}

static void run(int t)
{
  cur=t;
  T[t].st=RUN;
  swapcontext(&mainctx,&T[t].ctx);
  cur=-1;
}

void GOMP_barrier(void) { if(cur>=0 && nteam>1) sync_point(BARRIER,NULL); }

static void schedule(void)
{
  int last=0;
  spent=0;
  while(1) {
    int opt[MAXT],n=0,live=0,atbar=0;
    for(int t=0;t<nteam;t++) {
      if(T[t].st!=DONE) live++;
      if(T[t].st==BARRIER) atbar++;
    }
    if(!live) return;
    /* steps that commute with every other are taken at once */
    int t0=-1;
    for(int t=0;t<nteam && t0<0;t++)
      if(T[t].st==START || T[t].st==RUN ||
	 (T[t].st==CHUNK && !loop_left(t)))
	t0=t;
    if(t0>=0) { run(t0); continue; }
    if(atbar==live) {
      uint32_t vc[MAXT]={0};
      for(int t=0;t<nteam;t++) join_vc(vc,T[t].vc);
      for(int t=0;t<nteam;t++) {
	join_vc(T[t].vc,vc);
	T[t].vc[t]++;
	if(T[t].st==BARRIER) T[t].st=RUN;
      }
      rinfo[region<MAXLOOP ? region : 0].nbar++;
      continue;
    }
    /* option 0 goes on with the last thread; others cost one switch */
    int fresh=0,usedfresh=0;
    if(enabled(last)) opt[n++]=last;
    for(int t=0;t<nteam;t++) {
      if(t==last || !enabled(t)) continue;
      fresh=cfg_sym && T[t].st==CHUNK && T[t].nchunk==0;
      if(fresh && usedfresh) continue;
      if(fresh) usedfresh=1;
      opt[n++]=t;
    }
    if(n==0) { deadlock=1; return; }
    int free0=enabled(last);   /* then option 0 costs nothing */
    int c=(free0 && spent>=cfg_bound) ? 0 : choose(T[opt[0]].st,n);
    int t=opt[c];
    if(c>0 && free0) spent++;
    last=t;
    if(T[t].st==CRIT) {
      lockt *l=getlock(T[t].obj);
      l->owner=t;
      join_vc(T[t].vc,l->vc);
      rinfo[region<MAXLOOP ? region : 0].ncrit++;
    }
    run(t);
  }
}

void GOMP_parallel(void (*fn)(void *),void *data,unsigned nth,
			  unsigned flags)
{
  if(cur>=0) { /* nested: a team of one */
    fn(data);
    return;
  }
  int n=nth ? (int)nth : cfg_T;
  if(n>MAXT) n=MAXT;
  region=nregions++;
  if(region<MAXLOOP) memset(&rinfo[region],0,sizeof(rinfo[region]));
  nteam=n;
  body=fn; bodyarg=data;
  gen++; ncells=0; nlocks=0; nacc=0;
  memset(L,0,sizeof(L)); memset(S,0,sizeof(S));
  for(int t=0;t<n;t++) {
    if(T[t].stack==NULL) T[t].stack=__real_malloc(STACK);
    memset(T[t].vc,0,sizeof(T[t].vc));
    T[t].vc[t]=1;
    T[t].st=START; T[t].nloop=T[t].nsingle=T[t].nchunk=0; T[t].curloop=-1;
    getcontext(&T[t].ctx);
    T[t].ctx.uc_stack.ss_sp=T[t].stack;
    T[t].ctx.uc_stack.ss_size=STACK;
    T[t].ctx.uc_link=&mainctx;
    makecontext(&T[t].ctx,(void (*)(void))entry,1,t);
  }
  schedule();
  if(region<MAXLOOP) rinfo[region].nacc=nacc;
  nteam=0; cur=-1;
}

/* loops */
static void newloop(long long s,long long e,long long i,long long c,int guided)
{
  thr *t=&T[cur];
  t->curloop=t->nloop++;
  t->nchunk=0;
  if(t->curloop>=MAXLOOP) { overflow=1; t->curloop=MAXLOOP-1; }
  loop *l=&L[t->curloop];
  if(!l->used) {
    l->used=1; l->is_signed=true;
    l->snext=s; l->send=e; l->sincr=i; l->chunk=c>0 ? c : 1;
    l->guided=guided;
  }
}

static bool next(long *is,long *ie)
{
  if(cur<0) return false;
  if(nteam>1) sync_point(CHUNK,NULL);
  loop *l=&L[T[cur].curloop];
  if(!loop_left(cur)) return false;
  long long step=l->sincr*(long long)l->chunk;
  long long e=l->snext+step;
  if(l->sincr>0 ? e>l->send : e<l->send) e=l->send;
  *is=l->snext; *ie=e;
  l->snext=e;
  T[cur].nchunk++;
  rinfo[region<MAXLOOP ? region : 0].nchunk++;
  return true;
}

/* orphaned constructs (outside a team) run on a team of one */
static loop O;
static bool onext(long *is,long *ie)
{
  if(!O.used) return false;
  O.used=0;
  *is=O.snext; *ie=O.send;
  return O.sincr>0 ? *is<*ie : *is>*ie;
}
static bool lstart(long s,long e,long i,long c,int g,long *is,long *ie)
{
  if(cur<0) {
    O.used=1; O.snext=s; O.send=e; O.sincr=i;
    return onext(is,ie);
  }
  newloop(s,e,i,c,g);
  return next(is,ie);
}
#define LOOP(NAME,G) \
  bool GOMP_loop_##NAME##_start(long s,long e,long i,long c, \
				       long *is,long *ie) \
  { return lstart(s,e,i,c,G,is,ie); } \
  bool GOMP_loop_##NAME##_next(long *is,long *ie) \
  { return cur<0 ? onext(is,ie) : next(is,ie); }
#define LOOPR(NAME) \
  bool GOMP_loop_##NAME##_start(long s,long e,long i,long *is,long *ie) \
  { return lstart(s,e,i,1,0,is,ie); } \
  bool GOMP_loop_##NAME##_next(long *is,long *ie) \
  { return cur<0 ? onext(is,ie) : next(is,ie); }
LOOP(static,0) LOOP(dynamic,0) LOOP(guided,1)
LOOP(nonmonotonic_dynamic,0) LOOP(nonmonotonic_guided,1)
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
#define ULL(NAME) \
  bool GOMP_loop_ull_##NAME##_start(bool up,unsigned long long s, \
    unsigned long long e,unsigned long long i,unsigned long long c, \
    unsigned long long *is,unsigned long long *ie) \
  { return lstart(s,e,i,c,0,(long *)is,(long *)ie); } \
  bool GOMP_loop_ull_##NAME##_next(unsigned long long *is, \
					  unsigned long long *ie) \
  { return cur<0 ? onext((long *)is,(long *)ie) \
      : next((long *)is,(long *)ie); }
ULL(dynamic) ULL(nonmonotonic_dynamic) ULL(guided) ULL(nonmonotonic_guided)
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}

/* combined constructs */
static struct { void (*fn)(void *); void *data; long s,e,i,c; } comb;
static void comb_body(void *d) {
  newloop(comb.s,comb.e,comb.i,comb.c,0);
  comb.fn(d);
}
static void parallel_loop(void (*fn)(void *),void *data,unsigned n,
			  long s,long e,long i,long c,unsigned fl)
{
  comb.fn=fn; comb.s=s; comb.e=e; comb.i=i; comb.c=c;
  GOMP_parallel(comb_body,data,n,fl);
}
#define PL(NAME) \
  void GOMP_parallel_loop_##NAME(void (*fn)(void *),void *data, \
    unsigned n,long s,long e,long i,long c,unsigned fl) \
  { parallel_loop(fn,data,n,s,e,i,c,fl); }
#define PLR(NAME) \
  void GOMP_parallel_loop_##NAME(void (*fn)(void *),void *data, \
    unsigned n,long s,long e,long i,unsigned fl) \
  { parallel_loop(fn,data,n,s,e,i,1,fl); }
PL(static) PL(dynamic) PL(guided) PL(nonmonotonic_dynamic)
PL(nonmonotonic_guided)
PLR(runtime) PLR(nonmonotonic_runtime) PLR(maybe_nonmonotonic_runtime)

/* sections: numbered 1..n */
unsigned GOMP_sections_start(unsigned n)
{ long a,b; return lstart(1,n+1,1,1,0,&a,&b) ? (unsigned)a : 0; }
unsigned GOMP_sections_next(void)
{ long a,b; return (cur<0 ? onext(&a,&b) : next(&a,&b)) ? (unsigned)a : 0; }
void GOMP_sections_end(void) { GOMP_barrier(); }
void GOMP_sections_end_nowait(void) {}
void GOMP_parallel_sections(void (*fn)(void *),void *data,unsigned n,
				   unsigned count,unsigned fl)
{ parallel_loop(fn,data,n,1,count+1,1,1,fl); }

/* single: the first to come executes it, any may be the first */
bool GOMP_single_start(void)
{
  if(cur<0 || nteam<2) return true;
  sync_point(SINGLE,NULL);
  int k=T[cur].nsingle++;
  if(k>=MAXLOOP) { overflow=1; return cur==0; }
  if(S[k]==0) S[k]=1+cur;
  return S[k]==1+cur;
}

static void lock(void *key)
{
  if(cur<0 || nteam<2) return;
  sync_point(CRIT,key);
}
static void unlock(void *key)
{
  if(cur<0 || nteam<2) return;
  lockt *l=getlock(key);
  l->owner=-1;
  join_vc(l->vc,T[cur].vc);
  T[cur].vc[cur]++;
}
static char dflt,atomic_lock;
void GOMP_critical_start(void) { lock(&dflt); }
void GOMP_critical_end(void) { unlock(&dflt); }
void GOMP_critical_name_start(void **p) { lock(p); }
void GOMP_critical_name_end(void **p) { unlock(p); }
void GOMP_atomic_start(void) { lock(&atomic_lock); }
void GOMP_atomic_end(void) { unlock(&atomic_lock); }
void omp_init_lock(void *p) {}
void omp_destroy_lock(void *p) {}
void omp_set_lock(void *p) { lock(p); }
void omp_unset_lock(void *p) { unlock(p); }
int omp_get_thread_num(void) { return cur<0 ? 0 : cur; }
int omp_get_num_threads(void) { return cur<0 ? 1 : nteam; }
int omp_get_max_threads(void) { return cfg_T; }
int omp_get_num_procs(void) { return cfg_T; }
int omp_get_thread_limit(void) { return MAXT; }
int omp_in_parallel(void) { return cur>=0 && nteam>1; }
void omp_set_num_threads(int n) {}
int omp_get_dynamic(void) { return 0; }
int omp_get_level(void) { return cur>=0; }
double omp_get_wtime(void) { return 0; }

/* --- explorer's interface ------------------------------------------------*/
EXPORT void sched_config(int nth,int reg,int bound,int atomic,int sym,
			 const unsigned char *p,int n,char *base)
{
  cfg_T=nth; cfg_region=reg; cfg_bound=bound; cfg_atomic=atomic; cfg_sym=sym;
  npre=n<MAXLOG ? n : MAXLOG;
  if(npre) memmove(pre,p,npre);
  nlog=0; nregions=0; region=-1; nraces=0; deadlock=0; overflow=0;
  modbase=base;
}
EXPORT int sched_log(unsigned char *nopt,unsigned char *ch,
		     unsigned char *kind,int max)
{
  int n=nlog<max ? nlog : max;
  memmove(nopt,lognopt,n); memmove(ch,logch,n); memmove(kind,logkind,n);
  return nlog;
}
EXPORT int sched_regions(long *out,int max)
{
  for(int i=0;i<nregions && i<max && i<MAXLOOP;i++) {
    out[6*i]=rinfo[i].nsync; out[6*i+1]=rinfo[i].nchunk;
    out[6*i+2]=rinfo[i].ncrit; out[6*i+3]=rinfo[i].natom;
    out[6*i+4]=rinfo[i].nbar; out[6*i+5]=rinfo[i].nacc;
  }
  return nregions;
}
EXPORT int sched_status(void) { return deadlock+2*overflow; }
EXPORT int sched_races(long *out,int max)
{
  for(int i=0;i<nraces && i<max;i++) {
    out[6*i]=races[i].pc1; out[6*i+1]=races[i].pc2;
    out[6*i+2]=races[i].w1; out[6*i+3]=races[i].w2;
    out[6*i+4]=races[i].t1; out[6*i+5]=races[i].t2;
  }
  return nraces;
}
EXPORT const char *sched_opname(int k) { return opname[k]; }
