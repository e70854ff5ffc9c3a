// Executes commands on the stores and result file formats; one JSON line per command.
#include <iostream>
#include <memory>
#include "block_iterator.hh"
#include "curve.hh"
#include "curve_iterator.hh"
#include "fq_element_table.hh"
#include "reduction_table.hh"
#include "store/store.hh"
#include "store/store_factory.hh"
#include "store/file_store.hh"
#include "jsonout.hh"
using namespace std;

static map<pair<unsigned,unsigned>, shared_ptr<FqElementTable>> tables;
static map<pair<unsigned,unsigned>, shared_ptr<ReductionTable>> redtables;
static shared_ptr<FqElementTable> table(unsigned p, unsigned n) {
  auto & t = tables[{p,n}]; if (!t) t = make_shared<FqElementTable>(p,n); return t; }
static shared_ptr<ReductionTable> redtable(unsigned p, unsigned n) {
  auto & t = redtables[{p,n}]; if (!t) t = make_shared<ReductionTable>(p,n); return t; }
static string fmpzs(const fmpz_t v) { char * c = fmpz_get_str(NULL, 10, v); string s(c); flint_free(c); return s; }

static string unescape(const string & s) { string o;
  for (size_t i=0; i<s.size(); ++i) { if (s[i]=='\\' && i+1<s.size()) { ++i; o += s[i]=='n' ? '\n' : s[i]=='s' ? ' ' : s[i]=='e' ? '\0' : s[i]; if (s[i]=='e') o.pop_back(); } else o += s[i]; }
  return o; }

static vuu_block read_block(istream & in) { size_t k; in >> k; vuu_block b; while (k--) { unsigned l,u; in >> l >> u; b.push_back(make_tuple(l,u)); } return b; }

// hist p n nstores ops...   (one history of calls on several stores)
//   R s len e.. nk k..   register the curve after counting over the given degrees
//   F s block            hand over to the static store
//   X                    take the static store
//   I s                  write the table of store s
//   E s text             read a table into store s
static void cmd_hist(istream & in) {
  unsigned p, n; size_t ns; in >> p >> n >> ns; auto t = table(p,n);
  auto factory = create_store_factory(StoreType::EC);
  vector<shared_ptr<StoreInterface>> stores; for (size_t i=0; i<ns; ++i) stores.push_back(factory->create());
  ostringstream o; o << "{\"p\":" << p << ",\"n\":" << n << ",\"ops\":["; string op; bool first = true;
  while (in >> op) {
    if (!first) o << ","; first = false; size_t s = 0; if (op != "X") in >> s;
    o << "{\"op\":\"" << op << "\",\"s\":" << s + 1;
    if (op == "R") {
      size_t len; in >> len; vector<unsigned> e(len); for (auto & x : e) in >> x;
      size_t nk; in >> nk; vector<unsigned> ks(nk); for (auto & x : ks) in >> x;
      Curve c(t, e); for (auto k : ks) c.count(*redtable(p,k));
      fmpz_t m; fmpz_init(m); CurveIterator::multiplicity(m, p, c.prime_power(), c.rhs_support());
      o << ",\"exps\":" << js(e) << ",\"ks\":" << js(ks) << ",\"mult\":\"" << fmpzs(m) << "\""; fmpz_clear(m);
      stores[s]->register_curve(c);
    } else if (op == "F") { auto b = read_block(in); o << ",\"block\":" << js(b); stores[s]->flush_to_static_store(b); }
    else if (op == "X") { auto r = stores[0]->flush_static_store(); o << ",\"record\":" << js(get<0>(r)) << ",\"text\":" << js(get<1>(r)); }
    else if (op == "I") { ostringstream ss; stores[s]->insert(ss); o << ",\"text\":" << js(ss.str()); }
    else if (op == "E") { string tx; in >> tx; istringstream ss(unescape(tx)); stores[s]->extract(ss); }
    o << "}";
  }
  // leave no static state for the next history
  stores[0]->flush_static_store();
  o << "]}"; cout << o.str() << endl;
}

// recw nblocks block*  : record -> text, and back
static void cmd_recw(istream & in) {
  size_t k; in >> k; set<vuu_block> r; while (k--) r.insert(read_block(in));
  ostringstream o; FileStore::insert(o, r);
  set<vuu_block> r2; istringstream i(o.str()); FileStore::extract(i, r2);
  vector<vuu_block> v(r2.begin(), r2.end());
  cout << "{\"text\":" << js(o.str()) << ",\"back\":" << js(v) << "}" << endl;
}
// blk block : one block -> text and back
static void cmd_blk(istream & in) {
  auto b = read_block(in); ostringstream o; FileStore::insert(o, b); vuu_block r; istringstream i(o.str()); FileStore::extract(i, r);
  cout << "{\"text\":" << js(o.str()) << ",\"back\":" << js(r) << "}" << endl;
}
// tab text : table text -> store -> text -> store -> text
static void cmd_tab(istream & in) {
  string tx; in >> tx; auto factory = create_store_factory(StoreType::EC); auto s = factory->create(), s2 = factory->create();
  istringstream i(unescape(tx)); s->extract(i); ostringstream o; s->insert(o);
  istringstream i2(o.str()); s2->extract(i2); ostringstream o2; s2->insert(o2);
  cout << "{\"text\":" << js(o.str()) << ",\"again\":" << js(o2.str()) << "}" << endl;
}

// pkgs p n genus mark size exts : the packages of an enumeration, each with the table of its square-free curves
static void cmd_pkgs(istream & in) {
  unsigned p, n, g, m, size, exts; in >> p >> n >> g >> m >> size >> exts; auto t = table(p,n);
  vector<shared_ptr<ReductionTable>> rts; for (unsigned k=exts; k>0; --k) rts.push_back(redtable(p, n*k));
  auto factory = create_store_factory(StoreType::EC); string o = "{\"pkgs\":["; bool first = true;
  for (CurveIterator it(*t, g, m, size); !it.is_end(); it.step()) {
    auto s = factory->create(); auto b = it.as_block(); unsigned k = 0;
    for (BlockIterator bi(b); !bi.is_end(); bi.step()) { Curve c(t, bi.as_position()); if (!c.has_squarefree_rhs()) continue; for (auto r : rts) c.count(r); s->register_curve(c); ++k; }
    ostringstream ss; s->insert(ss); if (!first) o += ","; first = false;
    o += "{\"b\":" + js(b) + ",\"curves\":" + js(k) + ",\"text\":" + js(ss.str()) + "}";
  }
  cout << o << "]}" << endl;
}

int main() {
  string line;
  while (getline(cin, line)) {
    istringstream in(line); string cmd; in >> cmd;
    if (cmd == "hist") cmd_hist(in);
    else if (cmd == "recw") cmd_recw(in);
    else if (cmd == "blk") cmd_blk(in);
    else if (cmd == "tab") cmd_tab(in);
    else if (cmd == "pkgs") cmd_pkgs(in);
    else { cerr << "unknown command " << line << endl; return 3; }
  }
  return 0;
}
