// Message passing between ranks that are threads of one process, so that a whole distributed run can be scheduled
// deterministically: the part of the interface of Boost.MPI a program like this one uses, on top of harness/mpihost.cc.
// Semantics as in the standard: messages between two ranks do not overtake each other (per matching receive), a
// standard send may or may not wait for its receive, finalization waits for all ranks.
#ifndef VMPI_HPP
#define VMPI_HPP
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/optional.hpp>
#include <boost/serialization/array.hpp>
#include <boost/serialization/deque.hpp>
#include <boost/serialization/list.hpp>
#include <boost/serialization/map.hpp>
#include <boost/serialization/set.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/utility.hpp>
#include <boost/serialization/vector.hpp>
#include <algorithm>
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <vector>

extern "C" {
  int vmpi_rank(void); int vmpi_size(void); void vmpi_level(int); int vmpi_begun(void);
  void vmpi_send(int to, int tag, const char * data, unsigned long n, int wait, const char * note);
  // channel 0: messages, 1: broadcasts. Returns the length; *data is freed by the caller
  unsigned long vmpi_recv(int channel, int from, int tag, char ** data, int * rfrom, int * rtag);
  int vmpi_probe(int from, int tag, int wait, int * rfrom, int * rtag);
  void vmpi_bcast(const char * data, unsigned long n);
  void vmpi_barrier(void); void vmpi_finalize(void); void vmpi_abort(int);
}

namespace vmpi {
  template<class T> std::string pack(const T & v) { std::ostringstream s; { boost::archive::binary_oarchive a(s, boost::archive::no_header); const T c(v); a << c; } return s.str(); }
  template<class T> void unpack(const char * d, unsigned long n, T & v) { std::istringstream s(std::string(d, n)); boost::archive::binary_iarchive a(s, boost::archive::no_header); a >> v; }
  // what is logged of a message, for the payloads known here
  typedef std::vector<std::tuple<unsigned int, unsigned int>> Block;
  inline std::string block(const Block & b) { std::string r; for ( auto x : b ) r += (r.empty() ? "" : ";") + std::to_string(std::get<0>(x)) + "," + std::to_string(std::get<1>(x)); return r.empty() ? "-" : r; }
  inline std::string hex(const std::string & s) { std::string r; const char * d = "0123456789abcdef"; for ( unsigned char c : s ) { r += d[c >> 4]; r += d[c & 15]; } return r.empty() ? "-" : r; }
  template<class T> std::string note(const T &) { return "other"; }
  inline std::string note(const bool &) { return "flag"; }
  inline std::string note(const Block & b) { return "block " + block(b); }
  template<class C> std::string blocks(const C & c) { std::string r = "blocks"; for ( const auto & b : c ) r += " " + block(b); return r; }
  inline std::string note(const std::vector<Block> & c) { return blocks(c); }
  inline std::string note(const std::set<Block> & c) { return blocks(c); }
  inline std::string note(const std::tuple<unsigned int, unsigned int> & t) { return "ready " + std::to_string(std::get<0>(t)) + " " + std::to_string(std::get<1>(t)); }
  inline std::string note(const std::tuple<std::string, std::string> & t) { return "results " + hex(std::get<0>(t)) + " " + hex(std::get<1>(t)); }
}
struct ConfigNode;
namespace vmpi { inline std::string note(const ConfigNode &) { return "config"; } }

namespace boost { namespace mpi {
  enum { any_source = -1, any_tag = -1 };
  namespace threading { enum level { single = 0, funneled = 1, serialized = 2, multiple = 3 }; }
  class environment {
    public:
      explicit environment(bool = true) { vmpi_level(0); }
      environment(int &, char ** &, bool = true) { vmpi_level(0); }
      explicit environment(threading::level l, bool = true) { vmpi_level(l); }
      environment(int &, char ** &, threading::level l, bool = true) { vmpi_level(l); }
      ~environment() { vmpi_finalize(); }
      static void abort(int c) { vmpi_abort(c); }
      static bool initialized() { return vmpi_begun(); }
      static bool finalized() { return !vmpi_begun(); }
      static threading::level thread_level() { return threading::multiple; }
      static std::string processor_name() { return "host"; }
      static int max_tag() { return 32767; }
  };
  class status {
    public:
      int f = any_source, t = any_tag;
      int source() const { return f; }
      int tag() const { return t; }
      int error() const { return 0; }
      bool cancelled() const { return false; }
  };
  // a send is complete at once, a receive when it is waited for or tested
  class request {
    public:
      request() {}
      explicit request(std::function<boost::optional<status>(bool)> g) : f(g) {}
      status wait() { if ( !f ) return s; s = *f(true); f = nullptr; return s; }
      boost::optional<status> test() { if ( !f ) return s; auto r = f(false); if ( r ) { s = *r; f = nullptr; } return r; }
      void cancel() { f = nullptr; }
      bool active() const { return bool(f); }
    private:
      std::function<boost::optional<status>(bool)> f; status s;
  };
  template<class I> void wait_all(I a, I b) { for ( ; a != b; ++a ) a->wait(); }
  template<class I, class O> O wait_all(I a, I b, O o) { for ( ; a != b; ++a ) *o++ = a->wait(); return o; }
  template<class I> bool test_all(I a, I b) { for ( ; a != b; ++a ) if ( !a->test() ) return false; return true; }
  enum comm_create_kind { comm_duplicate, comm_take_ownership, comm_attach };
  class communicator {
    public:
      operator bool() const { return true; }
      int rank() const { return vmpi_rank(); }
      int size() const { return vmpi_size(); }
      template<class T> void send(int to, int tag, const T & v) const { auto s = vmpi::pack(v); vmpi_send(to, tag, s.data(), s.size(), 1, vmpi::note(v).c_str()); }
      void send(int to, int tag) const { vmpi_send(to, tag, "", 0, 1, "empty"); }
      template<class T> request isend(int to, int tag, const T & v) const { auto s = vmpi::pack(v); vmpi_send(to, tag, s.data(), s.size(), 0, vmpi::note(v).c_str()); return request(); }
      request isend(int to, int tag) const { vmpi_send(to, tag, "", 0, 0, "empty"); return request(); }
      template<class T> status recv(int from, int tag, T & v) const { char * d; status s; auto n = vmpi_recv(0, from, tag, &d, &s.f, &s.t); std::unique_ptr<char, void(*)(void*)> g(d, ::free); vmpi::unpack(d, n, v); return s; }
      status recv(int from, int tag) const { char * d; status s; vmpi_recv(0, from, tag, &d, &s.f, &s.t); ::free(d); return s; }
      template<class T> request irecv(int from, int tag, T & v) const
      {
        T * p = &v; communicator c(*this);
        return request([c, from, tag, p](bool w) -> boost::optional<status> { if ( !w && !c.iprobe(from, tag) ) return boost::none; return c.recv(from, tag, *p); });
      }
      request irecv(int from, int tag) const { communicator c(*this); return request([c, from, tag](bool w) -> boost::optional<status> { if ( !w && !c.iprobe(from, tag) ) return boost::none; return c.recv(from, tag); }); }
      template<class T> void send(int to, int tag, const T * v, int n) const { std::vector<T> x(v, v + n); send(to, tag, x); }
      template<class T> status recv(int from, int tag, T * v, int) const { std::vector<T> x; status s = recv(from, tag, x); std::copy(x.begin(), x.end(), v); return s; }
      status probe(int from = any_source, int tag = any_tag) const { status s; vmpi_probe(from, tag, 1, &s.f, &s.t); return s; }
      boost::optional<status> iprobe(int from = any_source, int tag = any_tag) const { status s; if ( vmpi_probe(from, tag, 0, &s.f, &s.t) ) return s; return boost::none; }
      void barrier() const { vmpi_barrier(); }
      void abort(int c) const { vmpi_abort(c); }
  };
  template<class T> void broadcast(const communicator & c, T & v, int root)
  {
    if ( c.rank() == root ) { auto s = vmpi::pack(v); vmpi_bcast(s.data(), s.size()); }
    else { char * d; int f, t; auto n = vmpi_recv(1, root, any_tag, &d, &f, &t); std::unique_ptr<char, void(*)(void*)> g(d, ::free); vmpi::unpack(d, n, v); }
  }
  template<class T> void broadcast(const communicator & c, T * v, int n, int root) { std::vector<T> x(v, v + n); broadcast(c, x, root); std::copy(x.begin(), x.end(), v); }
} }
#endif
