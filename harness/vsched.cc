// LD_PRELOAD library: runs a multi-threaded program one thread at a time under a seeded schedule with
// virtual time, reports deadlocks and runs that cannot make progress, and injects crashes and write
// failures into file operations below one directory.
//
// VS_SEED, VS_MODE=rand|sticky|pct, VS_P (switch probability in 1/1000, sticky), VS_DEPTH (pct),
// VS_FP (probability in 1/1000 of a switching point at a function entry), VS_JUMP (probability in 1/1000 that
// reading the clock finds ten minutes gone), VS_SPUR (spurious wake-ups, 1/1000), VS_MAX (steps),
// VS_RAND (not 0: random_device starts over with the same numbers in each program),
// VS_DIR + VS_FAULT=kind:k (crash, after, short, enospc, full), VS_LOG (log file).
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define HIDDEN static
#define NOINST __attribute__((no_instrument_function))

HIDDEN long raw(long n, long a=0, long b=0, long c=0, long d=0, long e=0, long f=0)
{
  register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  long ret;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}

enum State { RUN, BLOCKED, SLEEP, DONE };
struct Th {
  int id; State st; const void * on; bool timed; int64_t wake; bool timedout;
  int go; long prio; void * (*fn)(void*); void * arg; pthread_t pt; bool joined; Th * qnext; long ticket;
};
enum { MAXT = 1100 };
HIDDEN Th * ths[MAXT]; HIDDEN int nth = 0;
static __thread Th * self __attribute__((tls_model("initial-exec"))) = 0;
HIDDEN bool active = false;
HIDDEN uint64_t rs = 88172645463325252ull;
HIDDEN int64_t vnow = 0; HIDDEN long steps = 0, maxsteps = 3000000, unfair = 300000, lonely = 0, tickets = 0;
HIDDEN int mode = 0, P = 30, FP = 5, JUMP = 0, SPUR = 0, RAND = 0, DEPTH = 3; HIDDEN long pctlen = 4000, low = 0; HIDDEN long chg[16]; HIDDEN int nchg = 0;
HIDDEN int logfd = -1; HIDDEN char dir[PATH_MAX] = ""; HIDDEN int dirlen = 0; HIDDEN char fkind[16] = ""; HIDDEN long fk = -1; HIDDEN long fop = 0; HIDDEN bool full = false; HIDDEN bool failnext = false;

HIDDEN uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ull >> 11; }
HIDDEN bool chance(int permille) { return permille > 0 && (long)(rnd() % 1000) < permille; }
HIDDEN void logf(const char * f, ...)
{
  if ( logfd < 0 ) return;
  char b[PATH_MAX + 256]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap);
  if ( n > (int)sizeof b ) n = sizeof b;
  raw(SYS_write, logfd, (long)b, n);
}
HIDDEN void quit(int code) { raw(SYS_exit_group, code); for (;;); }

template<class F> HIDDEN F next(F & p, const char * name) { if ( !p ) p = (F)dlsym(RTLD_NEXT, name); return p; }
#define REAL(name) static decltype(&::name) r_##name = 0; next(r_##name, #name)

HIDDEN void fwait(int * w, int v) { raw(SYS_futex, (long)w, FUTEX_WAIT_PRIVATE, v, 0); }
HIDDEN void fwake(int * w) { raw(SYS_futex, (long)w, FUTEX_WAKE_PRIVATE, 1); }

HIDDEN void dump(const char * why)
{
  logf("%s steps=%ld\n", why, steps);
  for ( int i = 0; i < nth; ++i ) if ( ths[i]->st != DONE )
    logf("  thread %d %s on %p\n", ths[i]->id, ths[i]->st == RUN ? "running" : ths[i]->st == SLEEP ? "sleeping" : "blocked", ths[i]->on);
}

HIDDEN bool enabled(Th * t) { return t->st == RUN || t->st == SLEEP || (t->st == BLOCKED && t->timed); }

// chooses the thread that runs next
HIDDEN Th * pick(Th * me)
{
  ++steps;
  Th * en[MAXT]; int n = 0, nr = 0; bool others = false;
  for ( int i = 0; i < nth; ++i ) if ( enabled(ths[i]) ) { en[n++] = ths[i]; if ( ths[i]->st == RUN ) ++nr; if ( ths[i] != me ) others = true; }
  if ( !n ) { dump("DEADLOCK"); quit(97); }
  if ( steps > maxsteps ) { dump("NOEND"); quit(98); }
  if ( others ) lonely = 0;
  int m = steps > unfair ? 0 : mode;
  if ( chance(SPUR) ) for ( int i = 0; i < nth; ++i ) if ( ths[i]->st == BLOCKED && ths[i]->ticket && chance(300) ) { ths[i]->st = RUN; ths[i]->ticket = 0; return ths[i]; }
  Th * t = 0;
  if ( m == 2 ) {
    for ( int i = 0; i < nchg; ++i ) if ( chg[i] == steps && me ) me->prio = --low;
    for ( int pass = 0; pass < 2 && !t; ++pass )
      for ( int i = 0; i < n; ++i ) if ( pass == 1 || en[i]->st == RUN ) if ( !t || en[i]->prio > t->prio ) t = en[i];
    if ( nr && chance(5) ) t = en[rnd() % n];
  }
  else if ( m == 1 ) {
    if ( me && me->st == RUN && !chance(P) ) t = me; else t = en[rnd() % n];
  }
  else t = en[rnd() % n];
  if ( t->st != RUN && t->wake > vnow ) vnow = t->wake;
  if ( t->st == BLOCKED ) t->timedout = true;
  t->st = RUN; t->ticket = 0;
  return t;
}
HIDDEN void give(Th * t) { t->go = 1; fwake(&t->go); }
HIDDEN void take(Th * me) { while ( !__atomic_load_n(&me->go, __ATOMIC_ACQUIRE) ) fwait(&me->go, 0); me->go = 0; }
HIDDEN void swtch()
{
  Th * me = self; Th * t = pick(me);
  if ( t == me ) return;
  give(t); take(me);
}
HIDDEN void yield() { if ( active && self ) swtch(); }
HIDDEN void block(const void * on, int64_t wake = -1, bool cond = false)
{
  Th * me = self; me->st = BLOCKED; me->on = on; me->timed = wake >= 0; me->wake = wake; me->timedout = false; me->ticket = cond ? ++tickets : 0;
  swtch(); me->on = 0; me->timed = false;
}
HIDDEN int wakeall(const void * on) { int n = 0; for ( int i = 0; i < nth; ++i ) if ( ths[i]->st == BLOCKED && ths[i]->on == on ) { ths[i]->st = RUN; ths[i]->ticket = 0; ++n; } return n; }
HIDDEN int wakeone(const void * on)
{
  Th * c[MAXT]; int n = 0;
  for ( int i = 0; i < nth; ++i ) if ( ths[i]->st == BLOCKED && ths[i]->on == on ) c[n++] = ths[i];
  if ( !n ) return 0;
  Th * t = c[rnd() % n]; t->st = RUN; t->ticket = 0; return 1;
}
HIDDEN void sleepfor(int64_t ns)
{
  Th * me = self; me->st = SLEEP; me->wake = vnow + (ns > 0 ? ns : 0); me->prio = --low;
  bool alone = true; for ( int i = 0; i < nth; ++i ) if ( ths[i] != me && enabled(ths[i]) ) alone = false;
  if ( alone && ++lonely > 20000 ) { dump("STUCK"); quit(97); }
  swtch();
}

// FLINT completes the method tables of its generic rings at first use, without synchronization, and a table that is
// being completed is one without the methods of its ring. That happens inside of the library, so the function that
// does it is replaced by one with switching points between its steps.
struct GrInput { int index; void * fn; };
typedef void (*GrInit)(void *, GrInput *);
HIDDEN unsigned char * gr = 0; HIDDEN unsigned char grold[12], grnew[12];
HIDDEN void grinit(void * m, GrInput * tab)
{
  GrInput none = { 0, 0 }; GrInit f = (GrInit)gr; bool on = active && self; int n = on ? rnd() % (rnd() % 2 ? 100 : 4) : 0;
  for ( int k = 0; k < 3; ++k ) {
    if ( k ) { memcpy(gr, grold, 12); f(m, k == 1 ? &none : tab); memcpy(gr, grnew, 12); }
    if ( on ) for ( int i = 0; i < (k == 1 ? n : 1); ++i ) { if ( chance(500) ) sleepfor(1); else swtch(); }
  }
}
HIDDEN void grhook()
{
  gr = (unsigned char*)dlsym(RTLD_DEFAULT, "gr_method_tab_init"); if ( !gr ) return;
  uintptr_t a = (uintptr_t)gr & ~4095ul; if ( mprotect((void*)a, 8192, PROT_READ|PROT_WRITE|PROT_EXEC) ) { gr = 0; return; }
  memcpy(grold, gr, 12); grnew[0] = 0x48; grnew[1] = 0xB8; void * w = (void*)grinit; memcpy(grnew + 2, &w, 8); grnew[10] = 0xFF; grnew[11] = 0xE0;
  memcpy(gr, grnew, 12);
}

extern "C" {

__attribute__((constructor)) static void vs_init()
{
  const char * s = getenv("VS_SEED"); if ( !s ) return;
  auto num = [](const char * n, long d) { const char * v = getenv(n); return v ? atol(v) : d; };
  rs ^= (uint64_t)(atoll(s) + 1) * 0x9E3779B97F4A7C15ull; if ( !rs ) rs = 1; for ( int i = 0; i < 8; ++i ) rnd();
  const char * m = getenv("VS_MODE"); mode = m && !strcmp(m, "sticky") ? 1 : m && !strcmp(m, "pct") ? 2 : 0;
  P = num("VS_P", 30); FP = num("VS_FP", 5); JUMP = num("VS_JUMP", 0); SPUR = num("VS_SPUR", 0); RAND = num("VS_RAND", 0); DEPTH = num("VS_DEPTH", 3);
  maxsteps = num("VS_MAX", maxsteps); unfair = num("VS_UNFAIR", unfair); pctlen = num("VS_PCTLEN", 4000);
  for ( nchg = 0; nchg < DEPTH && nchg < 16; ++nchg ) chg[nchg] = rnd() % pctlen;
  const char * l = getenv("VS_LOG"); if ( l ) logfd = raw(SYS_open, (long)l, O_WRONLY|O_CREAT|O_APPEND|O_CLOEXEC, 0644);
  const char * d = getenv("VS_DIR"); if ( d ) { strncpy(dir, d, sizeof dir - 1); dirlen = strlen(dir); }
  const char * f = getenv("VS_FAULT"); if ( f ) { const char * c = strchr(f, ':'); if ( c ) { strncpy(fkind, f, c - f); fk = atol(c + 1); } }
  Th * t = (Th*)calloc(1, sizeof(Th)); t->id = 0; t->st = RUN; t->prio = 1 + rnd() % 1000000; ths[nth++] = t; self = t; active = true;
  if ( !getenv("VS_NOLIB") ) grhook();
}

static void * tramp(void * p)
{
  Th * t = (Th*)p; self = t; take(t);
  void * r = t->fn(t->arg);
  t->st = DONE; wakeall(t); Th * n = pick(0); self = 0; give(n);
  return r;
}
int pthread_create(pthread_t * pt, const pthread_attr_t * at, void * (*fn)(void*), void * arg)
{
  REAL(pthread_create);
  if ( !active || !self ) return r_pthread_create(pt, at, fn, arg);
  if ( nth == MAXT ) { logf("TOOMANY\n"); quit(96); }
  Th * t = (Th*)calloc(1, sizeof(Th)); t->id = nth; t->st = RUN; t->fn = fn; t->arg = arg; t->prio = 1 + rnd() % 1000000;
  int r = r_pthread_create(&t->pt, at, tramp, t); if ( r ) { free(t); return r; }
  *pt = t->pt; ths[nth++] = t; swtch(); return 0;
}
int pthread_join(pthread_t pt, void ** ret)
{
  REAL(pthread_join);
  if ( active && self ) {
    swtch();
    for ( int i = 0; i < nth; ++i ) if ( i && ths[i]->pt == pt && !ths[i]->joined ) { while ( ths[i]->st != DONE ) block(ths[i]); ths[i]->joined = true; break; }
  }
  return r_pthread_join(pt, ret);
}
int pthread_mutex_lock(pthread_mutex_t * m)
{
  static decltype(&::pthread_mutex_lock) rl = 0; static decltype(&::pthread_mutex_trylock) rt = 0;
  next(rl, "pthread_mutex_lock"); next(rt, "pthread_mutex_trylock");
  if ( !active || !self ) return rl(m);
  swtch(); int r; while ( (r = rt(m)) == EBUSY ) block(m);
  return r;
}
int pthread_mutex_trylock(pthread_mutex_t * m) { REAL(pthread_mutex_trylock); yield(); return r_pthread_mutex_trylock(m); }
static int64_t abstime(const struct timespec * t) { int64_t v = (int64_t)t->tv_sec * 1000000000ll + t->tv_nsec - 1600000000ll * 1000000000ll; return v < 0 ? 0 : v; }
int pthread_mutex_timedlock(pthread_mutex_t * m, const struct timespec * ts)
{
  static decltype(&::pthread_mutex_trylock) rt = 0; next(rt, "pthread_mutex_trylock"); REAL(pthread_mutex_timedlock);
  if ( !active || !self ) return r_pthread_mutex_timedlock(m, ts);
  swtch(); int r; while ( (r = rt(m)) == EBUSY ) { block(m, abstime(ts)); if ( self->timedout ) return ETIMEDOUT; }
  return r;
}
int pthread_mutex_clocklock(pthread_mutex_t * m, clockid_t, const struct timespec * ts) { return pthread_mutex_timedlock(m, ts); }
int pthread_mutex_unlock(pthread_mutex_t * m)
{
  REAL(pthread_mutex_unlock);
  int r = r_pthread_mutex_unlock(m); if ( active && self ) { wakeall(m); swtch(); } return r;
}
static int condwait(pthread_cond_t * c, pthread_mutex_t * m, int64_t wake)
{
  static decltype(&::pthread_mutex_trylock) rt = 0; static decltype(&::pthread_mutex_unlock) ru = 0;
  next(rt, "pthread_mutex_trylock"); next(ru, "pthread_mutex_unlock");
  swtch(); ru(m); wakeall(m); block(c, wake, true); bool to = self->timedout; self->timedout = false;
  while ( rt(m) == EBUSY ) block(m);
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) { REAL(pthread_cond_wait); if ( !active || !self ) return r_pthread_cond_wait(c, m); return condwait(c, m, -1); }
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * t) { REAL(pthread_cond_timedwait); if ( !active || !self ) return r_pthread_cond_timedwait(c, m, t); return condwait(c, m, abstime(t)); }
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const struct timespec * t) { REAL(pthread_cond_clockwait); if ( !active || !self ) return r_pthread_cond_clockwait(c, m, k, t); return condwait(c, m, abstime(t)); }
int pthread_cond_signal(pthread_cond_t * c) { REAL(pthread_cond_signal); if ( !active || !self ) return r_pthread_cond_signal(c); swtch(); wakeone(c); swtch(); return 0; }
int pthread_cond_broadcast(pthread_cond_t * c) { REAL(pthread_cond_broadcast); if ( !active || !self ) return r_pthread_cond_broadcast(c); swtch(); wakeall(c); swtch(); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t * l) { REAL(pthread_rwlock_rdlock); REAL(pthread_rwlock_tryrdlock); if ( !active || !self ) return r_pthread_rwlock_rdlock(l); swtch(); int r; while ( (r = r_pthread_rwlock_tryrdlock(l)) == EBUSY ) block(l); return r; }
int pthread_rwlock_wrlock(pthread_rwlock_t * l) { REAL(pthread_rwlock_wrlock); REAL(pthread_rwlock_trywrlock); if ( !active || !self ) return r_pthread_rwlock_wrlock(l); swtch(); int r; while ( (r = r_pthread_rwlock_trywrlock(l)) == EBUSY ) block(l); return r; }
int pthread_rwlock_unlock(pthread_rwlock_t * l) { REAL(pthread_rwlock_unlock); int r = r_pthread_rwlock_unlock(l); if ( active && self ) { wakeall(l); swtch(); } return r; }
int sem_wait(sem_t * s) { REAL(sem_wait); REAL(sem_trywait); if ( !active || !self ) return r_sem_wait(s); swtch(); while ( r_sem_trywait(s) ) { if ( errno != EAGAIN ) return -1; block(s); } return 0; }
int sem_post(sem_t * s) { REAL(sem_post); int r = r_sem_post(s); if ( active && self ) { wakeall(s); swtch(); } return r; }
int sched_yield() noexcept { if ( active && self ) { sleepfor(0); return 0; } return raw(SYS_sched_yield); }
int pthread_once(pthread_once_t * o, void (*f)())
{
  REAL(pthread_once);
  if ( !active || !self ) return r_pthread_once(o, f);
  int * w = (int*)o; // 0 fresh, 2 done in glibc
  while ( *w == 7 ) block(o);
  if ( *w == 2 ) return 0;
  *w = 7; f(); *w = 2; wakeall(o); return 0;
}
long syscall(long n, ...) noexcept
{
  va_list ap; va_start(ap, n); long a[6]; for ( int i = 0; i < 6; ++i ) a[i] = va_arg(ap, long); va_end(ap);
  if ( active && self && n == SYS_futex ) {
    int op = a[1] & ~(FUTEX_PRIVATE_FLAG|FUTEX_CLOCK_REALTIME); int * w = (int*)a[0];
    if ( op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET ) {
      swtch();
      if ( __atomic_load_n(w, __ATOMIC_SEQ_CST) != (int)a[2] ) { errno = EAGAIN; return -1; }
      const struct timespec * t = (const struct timespec *)a[3]; int64_t wake = -1;
      if ( t ) wake = op == FUTEX_WAIT ? vnow + (int64_t)t->tv_sec * 1000000000ll + t->tv_nsec : abstime(t);
      block(w, wake); if ( self->timedout ) { self->timedout = false; errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if ( op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET ) { int r = a[2] == 1 ? wakeone(w) : wakeall(w); swtch(); return r; }
  }
  long r = raw(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  if ( r < 0 && r > -4096 ) { errno = -r; return -1; }
  return r;
}
// std::random_device::_M_getval()
unsigned _ZNSt13random_device9_M_getvalEv(void * self_)
{
  static unsigned (*r)(void *) = 0; if ( !r ) r = (unsigned (*)(void *))dlsym(RTLD_NEXT, "_ZNSt13random_device9_M_getvalEv");
  static uint64_t n = 0;
  if ( !active || !RAND ) return r(self_);
  uint64_t z = ((uint64_t)RAND << 32) + __atomic_add_fetch(&n, 1, __ATOMIC_SEQ_CST) * 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return (unsigned)(z ^ (z >> 31));
}
int nanosleep(const struct timespec * t, struct timespec * rem) { REAL(nanosleep); if ( !active || !self ) return r_nanosleep(t, rem); sleepfor((int64_t)t->tv_sec * 1000000000ll + t->tv_nsec); return 0; }
int clock_nanosleep(clockid_t k, int fl, const struct timespec * t, struct timespec * rem)
{
  REAL(clock_nanosleep); if ( !active || !self ) return r_clock_nanosleep(k, fl, t, rem);
  sleepfor(fl & TIMER_ABSTIME ? abstime(t) - vnow : (int64_t)t->tv_sec * 1000000000ll + t->tv_nsec); return 0;
}
int usleep(useconds_t u) { REAL(usleep); if ( !active || !self ) return r_usleep(u); sleepfor((int64_t)u * 1000); return 0; }
unsigned sleep(unsigned s) { REAL(sleep); if ( !active || !self ) return r_sleep(s); sleepfor((int64_t)s * 1000000000ll); return 0; }
static int64_t tick() { vnow += 1000; if ( chance(JUMP) ) { vnow += 600ll * 1000000000ll; logf("JUMP\n"); } return vnow; }
int clock_gettime(clockid_t k, struct timespec * t) noexcept
{
  if ( !active || !self ) return raw(SYS_clock_gettime, k, (long)t);
  yield(); int64_t v = tick(); t->tv_sec = 1600000000ll + v / 1000000000ll; t->tv_nsec = v % 1000000000ll; return 0;
}
int gettimeofday(struct timeval * t, void *) noexcept { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t time(time_t * p) noexcept { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if ( p ) *p = s.tv_sec; return s.tv_sec; }

void __cyg_profile_func_enter(void *, void *) { if ( active && self && chance(FP) ) swtch(); }
void __cyg_profile_func_exit(void *, void *) { if ( active && self && chance(FP) ) swtch(); }
// for harnesses: a switching point, and the scheduler's random choices
void vs_point() { yield(); }
void vs_wait(const void * on) { if ( active && self ) block(on); }
void vs_wake(const void * on) { if ( active && self ) { wakeall(on); swtch(); } }
unsigned long vs_random(unsigned long n) { return n ? rnd() % n : 0; }

// ---- file operations below VS_DIR ----
static bool under(int at, const char * p)
{
  if ( !dirlen || !p ) return false;
  char b[PATH_MAX]; if ( p[0] != '/' ) {
    if ( at != AT_FDCWD ) { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", at); long n = raw(SYS_readlink, (long)l, (long)b, sizeof b - 1); if ( n < 0 ) return false; b[n] = 0; }
    else if ( raw(SYS_getcwd, (long)b, sizeof b) < 0 ) return false;
    size_t n = strlen(b); snprintf(b + n, sizeof b - n, "/%s", p); p = b;
  }
  return !strncmp(p, dir, dirlen) && (p[dirlen] == '/' || !p[dirlen]);
}
static unsigned char fds[4096];
static void die() { logf("CRASH op=%ld\n", fop); raw(SYS_kill, getpid(), SIGKILL); for (;;); }
// called before a mutating operation; true: the operation must fail
static bool before(const char * what, const char * p)
{
  if ( active && self ) swtch();
  ++fop; logf("OP %ld %s %s\n", fop, what, p ? p : "");
  if ( full ) return true;
  if ( fop != fk ) return false;
  if ( !strcmp(fkind, "crash") ) die();
  if ( !strcmp(fkind, "full") ) { full = true; return true; }
  return !strcmp(fkind, "enospc");
}
static void after() { if ( fop == fk && (!strcmp(fkind, "after") || !strcmp(fkind, "short")) ) die(); }

static int opening(int at, const char * p, int fl, mode_t md)
{
  bool w = (fl & O_ACCMODE) != O_RDONLY || (fl & O_CREAT);
  if ( w && under(at, p) ) {
    if ( before("open", p) ) { errno = ENOSPC; return -1; }
    long r = raw(SYS_openat, at, (long)p, fl, md); after();
    if ( r < 0 ) { errno = -r; return -1; }
    if ( r < 4096 ) fds[r] = 1;
    return r;
  }
  long r = raw(SYS_openat, at, (long)p, fl, md); if ( r < 0 ) { errno = -r; return -1; } if ( r < 4096 ) fds[r] = 0; return r;
}
int open(const char * p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, int); va_end(ap); return opening(AT_FDCWD, p, fl, m); }
int open64(const char * p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, int); va_end(ap); return opening(AT_FDCWD, p, fl | O_LARGEFILE, m); }
int openat(int at, const char * p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, int); va_end(ap); return opening(at, p, fl, m); }
int openat64(int at, const char * p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, int); va_end(ap); return opening(at, p, fl | O_LARGEFILE, m); }
int creat(const char * p, mode_t m) { return opening(AT_FDCWD, p, O_WRONLY|O_CREAT|O_TRUNC, m); }
static FILE * fopening(FILE * (*r)(const char*, const char*), const char * p, const char * md)
{
  bool w = strpbrk(md, "wa+") != 0;
  if ( w && under(AT_FDCWD, p) ) {
    if ( before("fopen", p) ) { errno = ENOSPC; return 0; }
    FILE * f = r(p, md); if ( f && fileno(f) < 4096 ) fds[fileno(f)] = 1; after(); return f;
  }
  FILE * f = r(p, md); if ( f && fileno(f) < 4096 ) fds[fileno(f)] = 0; return f;
}
FILE * fopen(const char * p, const char * m) { REAL(fopen); return fopening(r_fopen, p, m); }
FILE * fopen64(const char * p, const char * m) { REAL(fopen64); return fopening(r_fopen64, p, m); }
static ssize_t writing(int fd, const struct iovec * v, int n)
{
  if ( before("write", 0) || failnext ) {
    // part of the data still fits, the next attempt fails; with enospc there is space again afterwards
    if ( n && v[0].iov_len > 1 && fop == fk ) { long r = raw(SYS_write, fd, (long)v[0].iov_base, v[0].iov_len / 2); failnext = true; return r; }
    failnext = false; errno = ENOSPC; return -1;
  }
  if ( fop == fk && !strcmp(fkind, "short") ) { if ( n ) { size_t l = v[0].iov_len; raw(SYS_write, fd, (long)v[0].iov_base, l > 1 ? 1 + rnd() % (l - 1) : 0); } die(); }
  long r = raw(SYS_writev, fd, (long)v, n); after(); if ( r < 0 ) { errno = -r; return -1; } return r;
}
ssize_t write(int fd, const void * b, size_t n)
{
  if ( fd >= 0 && fd < 4096 && fds[fd] ) { struct iovec v = { (void*)b, n }; return writing(fd, &v, 1); }
  long r = raw(SYS_write, fd, (long)b, n); if ( r < 0 ) { errno = -r; return -1; } return r;
}
ssize_t writev(int fd, const struct iovec * v, int n)
{
  if ( fd >= 0 && fd < 4096 && fds[fd] ) return writing(fd, v, n);
  long r = raw(SYS_writev, fd, (long)v, n); if ( r < 0 ) { errno = -r; return -1; } return r;
}
int close(int fd)
{
  bool w = fd >= 0 && fd < 4096 && fds[fd];
  bool e = false;
  if ( w ) { e = before("close", 0); fds[fd] = 0; }
  long r = raw(SYS_close, fd); if ( w ) after(); if ( e ) { errno = ENOSPC; return -1; } if ( r < 0 ) { errno = -r; return -1; } return 0;
}
int fclose(FILE * f)
{
  REAL(fclose); int fd = fileno(f); bool w = fd >= 0 && fd < 4096 && fds[fd];
  bool e = false;
  if ( w ) { e = before("fclose", 0); fds[fd] = 0; }
  int r = r_fclose(f); if ( w ) after(); if ( e ) { errno = ENOSPC; return EOF; } return r;
}
static int path2(const char * what, const char * p, const char * q, long (*f)(const char *, const char *, long), long x)
{
  if ( under(AT_FDCWD, p) || under(AT_FDCWD, q) ) {
    if ( before(what, q ? q : p) ) { errno = ENOSPC; return -1; }
    long r = f(p, q, x); after(); if ( r < 0 ) { errno = -r; return -1; } return 0;
  }
  long r = f(p, q, x); if ( r < 0 ) { errno = -r; return -1; } return 0;
}
int rename(const char * p, const char * q) noexcept { return path2("rename", p, q, [](const char * a, const char * b, long) { return raw(SYS_rename, (long)a, (long)b); }, 0); }
int renameat(int a, const char * p, int b, const char * q) noexcept { if ( a == AT_FDCWD && b == AT_FDCWD ) return rename(p, q); long r = raw(SYS_renameat, a, (long)p, b, (long)q); if ( r < 0 ) { errno = -r; return -1; } return 0; }
int link(const char * p, const char * q) noexcept { return path2("link", p, q, [](const char * a, const char * b, long) { return raw(SYS_link, (long)a, (long)b); }, 0); }
int unlink(const char * p) noexcept { return path2("unlink", p, 0, [](const char * a, const char *, long) { return raw(SYS_unlink, (long)a); }, 0); }
int remove(const char * p) noexcept { return path2("remove", p, 0, [](const char * a, const char *, long) { long r = raw(SYS_unlink, (long)a); return r == -EISDIR ? raw(SYS_rmdir, (long)a) : r; }, 0); }
int mkdir(const char * p, mode_t m) noexcept { return path2("mkdir", p, 0, [](const char * a, const char *, long x) { return raw(SYS_mkdir, (long)a, x); }, m); }
int truncate(const char * p, off_t n) noexcept { return path2("truncate", p, 0, [](const char * a, const char *, long x) { return raw(SYS_truncate, (long)a, x); }, n); }

}
