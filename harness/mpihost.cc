// Runs all ranks of a distributed program as threads of one process (see mpistub/boost/mpi.hpp), under vsched.
//   mpihost SO SIZE ARGS...   SO: prefix of copies SO0 SO1 .. of one library (a copy per rank: its own statics)
// VMPI_SYNC: probability (1/1000) that a send waits until its message is received. VMPI_LOG: log of the messages.
// Ends like mpirun: 0 if all ranks returned 0, otherwise a code that is not 0.
#include <deque>
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <time.h>
#include <unistd.h>
#include <vector>
extern "C" { void vs_point(); void vs_wait(const void *); void vs_wake(const void *); unsigned long vs_random(unsigned long); }
#pragma weak vs_point
#pragma weak vs_wait
#pragma weak vs_wake
#pragma weak vs_random

struct Msg { int from, tag; std::string data; bool received = false, awaited = false; };
struct Rank { int no; int (*main)(int, char**); int code = -1; int level = 0; bool begun = false; pthread_t t; std::deque<Msg*> in[2]; };
static std::vector<Rank*> ranks; static int finalized = 0, waiting = 0; static long round_ = 0;
static thread_local Rank * me = 0;
static int sync_ = 0, logfd = -1; static int gargc; static char ** gargv;
static void note(const std::string & s) { if ( logfd >= 0 && write(logfd, s.data(), s.size()) ) {} }
static Rank * self() { if ( !me ) { note("FUNNELED\n"); fprintf(stderr, "mpihost: message passing outside the main thread of a rank\n"); _exit(95); } return me; }
// the main thread of a rank sleeps
static void slept() { if ( me && me->begun ) note("SLEEP " + std::to_string(me->no) + "\n"); }
#define NEXT(f) static decltype(&f) r = (decltype(&f))dlsym(RTLD_NEXT, #f)
extern "C" {
int nanosleep(const struct timespec * t, struct timespec * m) { NEXT(nanosleep); slept(); return r(t, m); }
int clock_nanosleep(clockid_t k, int f, const struct timespec * t, struct timespec * m) { NEXT(clock_nanosleep); slept(); return r(k, f, t, m); }
int usleep(useconds_t u) { NEXT(usleep); slept(); return r(u); }
unsigned sleep(unsigned s) { NEXT(sleep); slept(); return r(s); }
int vmpi_rank(void) { return self()->no; }
int vmpi_size(void) { return ranks.size(); }
int vmpi_begun(void) { return me && me->begun; }
void vmpi_level(int l) { self()->level = l; me->begun = true; }
void vmpi_abort(int c) { note("ABORT " + std::to_string(c) + "\n"); fflush(0); _exit(c & 255); }
void vmpi_send(int to, int tag, const char * d, unsigned long n, int wait, const char * nt)
{
  Rank * r = self(); vs_point();
  if ( to < 0 || to >= (int)ranks.size() ) { fprintf(stderr, "mpihost: no rank %d\n", to); vmpi_abort(94); }
  Msg * m = new Msg; m->from = r->no; m->tag = tag; m->data.assign(d, n);
  note("SEND " + std::to_string(r->no) + " " + std::to_string(to) + " " + nt + "\n");
  bool w = wait && (int)vs_random(1000) < sync_; m->awaited = w;
  ranks[to]->in[0].push_back(m); vs_wake(ranks[to]);
  if ( w ) { while ( !m->received ) vs_wait(m); delete m; }
}
static int find(Rank * r, int ch, int from, int tag)
{
  // first message of each source that matches; any of the sources
  std::vector<int> c; std::vector<char> seen(ranks.size(), 0);
  for ( int i = 0; i < (int)r->in[ch].size(); ++i ) { Msg * m = r->in[ch][i]; if ( (from < 0 || m->from == from) && (tag < 0 || m->tag == tag) && !seen[m->from] ) { seen[m->from] = 1; c.push_back(i); } }
  return c.empty() ? -1 : c[vs_random(c.size())];
}
unsigned long vmpi_recv(int ch, int from, int tag, char ** d, int * rf, int * rt)
{
  Rank * r = self(); vs_point(); int i;
  while ( (i = find(r, ch, from, tag)) < 0 ) vs_wait(r);
  Msg * m = r->in[ch][i]; r->in[ch].erase(r->in[ch].begin() + i);
  unsigned long n = m->data.size(); *d = (char*)malloc(n + 1); memcpy(*d, m->data.data(), n); *rf = m->from; *rt = m->tag;
  note("RECV " + std::to_string(m->from) + " " + std::to_string(r->no) + "\n");
  m->received = true; if ( m->awaited ) vs_wake(m); else delete m;
  return n;
}
int vmpi_probe(int from, int tag, int wait, int * rf, int * rt)
{
  Rank * r = self(); vs_point(); int i;
  while ( (i = find(r, 0, from, tag)) < 0 ) { if ( !wait ) return 0; vs_wait(r); }
  *rf = r->in[0][i]->from; *rt = r->in[0][i]->tag; return 1;
}
void vmpi_bcast(const char * d, unsigned long n)
{
  Rank * r = self(); vs_point();
  for ( auto x : ranks ) if ( x != r ) { Msg * m = new Msg; m->from = r->no; m->tag = 0; m->data.assign(d, n); x->in[1].push_back(m); vs_wake(x); }
}
void vmpi_barrier(void)
{
  self(); vs_point(); long k = round_;
  if ( ++waiting == (int)ranks.size() ) { waiting = 0; ++round_; vs_wake(&round_); }
  else while ( round_ == k ) vs_wait(&round_);
}
void vmpi_finalize(void)
{
  Rank * r = self();
  if ( !r->in[0].empty() ) note("UNRECEIVED " + std::to_string(r->no) + "\n");
  vmpi_barrier(); r->begun = false;
}
}
static void * go(void * p)
{
  Rank * r = (Rank*)p; me = r; std::vector<char*> a; for ( int i = 0; i < gargc; ++i ) a.push_back(strdup(gargv[i])); a.push_back(0);
  r->code = r->main(gargc, a.data());
  note("RETURN " + std::to_string(r->no) + " " + std::to_string(r->code) + "\n");
  return 0;
}
int main(int argc, char ** argv)
{
  if ( argc < 3 || !vs_wait ) { fprintf(stderr, "mpihost SO SIZE ARGS.. (with vsched)\n"); return 2; }
  const char * e = getenv("VMPI_SYNC"); sync_ = e ? atoi(e) : 0;
  if ( (e = getenv("VMPI_LOG")) ) logfd = open(e, O_WRONLY|O_CREAT|O_APPEND|O_CLOEXEC, 0644);
  int n = atoi(argv[2]); gargv = argv + 2; gargc = argc - 2;
  for ( int i = 0; i < n; ++i ) {
    std::string f = std::string(argv[1]) + std::to_string(i);
    void * h = dlopen(f.c_str(), RTLD_NOW|RTLD_LOCAL); if ( !h ) { fprintf(stderr, "%s\n", dlerror()); return 2; }
    Rank * r = new Rank; r->no = i;
    r->main = (int(*)(int,char**))dlsym(h, "hycu_rank_main"); if ( !r->main ) r->main = (int(*)(int,char**))dlsym(h, "_Z14hycu_rank_mainiPPc");
    if ( !r->main ) { fprintf(stderr, "no main\n"); return 2; }
    ranks.push_back(r);
  }
  for ( auto r : ranks ) pthread_create(&r->t, 0, go, r);
  int c = 0; for ( auto r : ranks ) { pthread_join(r->t, 0); if ( r->code && !c ) c = r->code & 255 ? r->code & 255 : 1; }
  fflush(0); _exit(c);
}
