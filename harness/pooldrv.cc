// Drives the thread pool and the standalone worker pool of the repository and writes the observed events,
// one JSON line each. Runs under vsched (LD_PRELOAD), hence one thread at a time: the event log needs no lock.
//
// usage: pooldrv pool NTHREADS SCRIPT        (driver plays the master of a ThreadPool)
//        pooldrv standalone NTHREADS SCRIPT  (StandaloneWorkerPool)
// SCRIPT: file of commands, one per line.
#include <fstream>
#include <functional>
#include <iostream>
#include <memory>
#include <set>
#include <sstream>
#include <thread>
#include <time.h>
#include "block_iterator.hh"
#include "curve.hh"
#include "curve_iterator.hh"
#include "fq_element_table.hh"
#include "config/config_node.hh"
#include "store/file_store.hh"
#include "store/store.hh"
#include "store/store_factory.hh"
#include "threaded/thread_pool.hh"
#include "worker_pool/standalone.hh"
#include "jsonout.hh"
using namespace std;

extern "C" { void vs_point() __attribute__((weak)); unsigned long vs_random(unsigned long) __attribute__((weak)); void vs_wait(const void *) __attribute__((weak)); void vs_wake(const void *) __attribute__((weak)); }
#define NOINST __attribute__((no_instrument_function))

static FILE * out;
static map<thread::id, int> tids;
static NOINST int tid() { auto r = tids.insert({this_thread::get_id(), (int)tids.size()}); return r.first->second; }
static NOINST void ev(const string & s) { fputs(("{" + s + "}\n").c_str(), out); fflush(out); }
static NOINST void nap(long ns) { struct timespec t = { ns / 1000000000l, ns % 1000000000l }; nanosleep(&t, 0); }

static bool gated = false; static int signal_;
template<class F> static NOINST void until(F f) { while ( !f() ) { if ( vs_wait ) vs_wait(&signal_); else nap(1000000); } }
static NOINST void changed() { if ( vs_wake ) vs_wake(&signal_); }
static map<vuu_block, int> id_of;
static vector<vuu_block> blocks;
static set<int> open_gates, exit_gates, arrived, published;
static NOINST int bid(const vuu_block & b) { auto i = id_of.find(b); return i == id_of.end() ? -1 : i->second; }

// a store that writes down what reaches it
class TracedStore : public StoreInterface
{
  public:
    TracedStore() : inner ( create_store_factory(StoreType::EC)->create() ) {};
    void register_curve(const Curve & c) final {
      // a worker may take its time over each curve
      if ( vs_random && vs_random(4) == 0 ) nap(vs_random(1000000));
      ++curves; cfgs.insert({ c.prime(), c.prime_exponent(), (unsigned)c.number_of_points().size() });
      inner->register_curve(c);
    }
    void flush_to_static_store(const vuu_block & b) final {
      int i = bid(b); string cs; for ( auto & x : cfgs ) cs += (cs.empty() ? "" : ",") + ("[" + js(x[0]) + "," + js(x[1]) + "," + js(x[2]) + "]");
      ev("\"e\":\"arrive\",\"t\":" + js(tid()) + ",\"b\":" + js(i) + ",\"curves\":" + js(curves) + ",\"cfg\":[" + cs + "]"); arrived.insert(i); changed();
      until([&] { return !gated || open_gates.count(i); });
      inner->flush_to_static_store(b);
      ev("\"e\":\"publish\",\"t\":" + js(tid()) + ",\"b\":" + js(i)); published.insert(i); changed();
      until([&] { return !gated || exit_gates.count(i); });
      curves = 0; cfgs.clear();
    }
    tuple<string,string> flush_static_store() final {
      ev("\"e\":\"take\"");
      auto r = inner->flush_static_store();
      ev("\"e\":\"taken\",\"record\":" + js(get<0>(r)) + ",\"text\":" + js(get<1>(r)));
      return r;
    }
    void extract(istream & s) final { inner->extract(s); }
    void extract(istream && s) final { inner->extract(s); }
    void insert(ostream & s) const final { inner->insert(s); }
    void insert(ostream && s) const final { inner->insert(s); }
  private:
    shared_ptr<StoreInterface> inner; int curves = 0; set<vector<unsigned>> cfgs;
};
class TracedFactory : public StoreFactoryInterface { public: shared_ptr<StoreInterface> create() const final { return make_shared<TracedStore>(); } };

static ConfigNode config(istream & in) {
  ConfigNode c; int mark; string path; unsigned p, n, g, e, s; in >> p >> n >> g >> mark >> e >> s >> path;
  c.prime = p; c.prime_exponent = n; c.genus = g; c.with_marked_point = mark; c.count_exponent = e; c.package_size = s; c.result_path = path; return c;
}
static void enumerate(const ConfigNode & c, function<void(const vuu_block&)> f) {
  FqElementTable t(c.prime, c.prime_exponent);
  for ( CurveIterator it(t, c.genus, c.with_marked_point, c.package_size); !it.is_end(); it.step() ) f(it.as_block());
}
static NOINST void number(const ConfigNode & c) { id_of.clear(); blocks.clear(); enumerate(c, [](const vuu_block & b) { id_of[b] = blocks.size() + 1; blocks.push_back(b); }); }

static vector<int> ids(const vector<vuu_block> & v) { vector<int> r; for ( auto & b : v ) r.push_back(bid(b)); return r; }

static NOINST bool gate(const string & c, istream & s, int & k) {
  if ( c == "T" ) gated = true;
  else if ( c == "O" ) { gated = false; changed(); }
  else if ( c == "G" ) { s >> k; open_gates.insert(k); changed(); }
  else if ( c == "H" ) { s >> k; exit_gates.insert(k); changed(); }
  else if ( c == "W" ) { s >> k; until([&] { return arrived.count(k); }); }
  else if ( c == "P" ) { s >> k; until([&] { return published.count(k); }); }
  else return false;
  return true;
}

// commands: C cfg.. | N (assign the next package) | R k (flush ready threads until k were offered since the last R)
//   F k (flush finished until k reported) | S | G i (open the gate of package i) | W i (wait until it has arrived)
//   H i (let the worker of package i go on after handing over)
//   P i (wait until it is published) | O (all gates open from now) | T (gates in force) | D shutdown
static void pool(int n, istream & in) {
  auto tp = make_shared<ThreadPool>(make_shared<TracedFactory>());
  tp->spark_threads(n); ev("\"e\":\"sparked\",\"n\":" + js(n)); size_t next = 0;
  string line;
  while ( getline(in, line) ) {
    istringstream s(line); string c; s >> c; int k = 0;
    if ( c == "C" ) { auto cfg = config(s); number(cfg); next = 0; open_gates.clear(); exit_gates.clear(); arrived.clear(); published.clear();
      ev("\"e\":\"config\",\"cfg\":" + js(vector<unsigned>{ cfg.prime, cfg.prime_exponent, cfg.count_exponent })); tp->update_config(cfg); ev("\"e\":\"configured\""); }
    else if ( gate(c, s, k) ) ;
    else if ( c == "N" ) { ev("\"e\":\"assign\",\"b\":" + js((int)next + 1)); tp->assign(blocks.at(next), false); ev("\"e\":\"assigned\",\"b\":" + js((int)next + 1)); ++next; }
    else if ( c == "R" ) { s >> k; int got = 0; do { auto r = tp->flush_ready_threads(); int m = get<0>(r) + get<1>(r); got += m; if ( m ) ev("\"e\":\"ready\",\"n\":" + js(m)); if ( got < k ) nap(50000000); } while ( got < k ); }
    else if ( c == "F" ) { s >> k; int got = 0; do { auto v = tp->flush_finished_blocks(); got += v.size(); if ( !v.empty() ) ev("\"e\":\"finished\",\"bs\":" + js(ids(v))); if ( got < k ) nap(50000000); } while ( got < k ); }
    else if ( c == "S" ) tp->flush_global_store();
    else if ( c == "D" ) { ev("\"e\":\"shutdown\""); tp->shutdown_threads(); ev("\"e\":\"down\""); }
  }
}

// commands: C cfg.. | A (assign all packages) | A k (k packages) | V (save) | Q (wait), and T, O, G, H, W, P as above
static void standalone(int n, istream & in) {
  { StandaloneWorkerPool wp(make_shared<TracedFactory>(), n); ev("\"e\":\"sparked\",\"n\":" + js(n));
    string line; size_t next = 0;
    while ( getline(in, line) ) {
      istringstream s(line); string c; s >> c;
      if ( c == "C" ) { auto cfg = config(s);
        ev("\"e\":\"config\",\"cfg\":" + js(vector<unsigned>{ cfg.prime, cfg.prime_exponent, cfg.count_exponent })); wp.update_config(cfg); number(cfg); next = 0; open_gates.clear(); exit_gates.clear(); arrived.clear(); published.clear(); ev("\"e\":\"configured\""); }
      else if ( int k = 0; gate(c, s, k) ) ;
      else if ( c == "A" ) { size_t k; if ( !(s >> k) ) k = blocks.size();
        for ( ; k-- && next < blocks.size(); ++next ) { ev("\"e\":\"assign\",\"b\":" + js((int)next + 1)); wp.assign(blocks[next]); ev("\"e\":\"assigned\",\"b\":" + js((int)next + 1)); } }
      else if ( c == "V" ) { ev("\"e\":\"savenow\""); wp.save_global_stores_to_file(); }
      else if ( c == "Q" ) { ev("\"e\":\"wait\""); wp.wait_for_assigned_blocks(); ev("\"e\":\"waited\""); }
    }
    ev("\"e\":\"end\""); }
  ev("\"e\":\"down\"");
}

int main(int argc, char ** argv) {
  out = fopen(argv[4], "w"); tid(); ifstream in(argv[3]); int n = atoi(argv[2]);
  if ( string(argv[1]) == "pool" ) pool(n, in); else standalone(n, in);
  ev("\"e\":\"exit\""); fclose(out); return 0;
}
