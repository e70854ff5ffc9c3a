// Executes commands (one per line on stdin) on the public interface of the mathematical part of HyCu
// and prints one JSON line per command.
#include <iostream>
#include <memory>
#include <algorithm>
#include "block_iterator.hh"
#include "curve.hh"
#include "curve_iterator.hh"
#include "fq_element_table.hh"
#include "reduction_table.hh"
#include "single_curve_fp.hh"
#include "jsonout.hh"
using namespace std;

static map<pair<unsigned,unsigned>, shared_ptr<FqElementTable>> tables;
static map<pair<unsigned,unsigned>, shared_ptr<ReductionTable>> redtables;
static shared_ptr<FqElementTable> table(unsigned p, unsigned n) {
  auto & t = tables[{p,n}]; if (!t) t = make_shared<FqElementTable>(p,n); return t; }
static shared_ptr<ReductionTable> redtable(unsigned p, unsigned n) {
  auto & t = redtables[{p,n}]; if (!t) t = make_shared<ReductionTable>(p,n); return t; }
static unsigned long code(const fq_nmod_struct * a, unsigned p, unsigned n) {
  unsigned long c = 0; for (int i=(int)n-1; i>=0; --i) c = c*p + nmod_poly_get_coeff_ui(a, i); return c; }

typedef vector<vector<unsigned>> positions;

static const size_t MAXPOS = 3000000;
static positions all_positions(BlockIterator it, size_t limit, bool & ended) {
  positions r; ended = true;
  for (; !it.is_end(); it.step()) { if (r.size() >= limit) { ended = false; break; } r.push_back(it.as_position()); }
  return r; }

static void cmd_blocks(istream & in) {
  // blocks len pkg nblocks (i lo hi)* nsets (i k v*)* ndeps (i on k (key m v*)*)*
  size_t len; unsigned pkg; in >> len >> pkg;
  map<size_t, tuple<unsigned,unsigned>> blocks; map<size_t, vector<unsigned>> sets;
  map<size_t, tuple<size_t, map<unsigned, vector<unsigned>>>> deps;
  size_t n; in >> n; while (n--) { size_t i; unsigned a,b; in >> i >> a >> b; blocks[i] = make_tuple(a,b); }
  in >> n; while (n--) { size_t i,k; in >> i >> k; vector<unsigned> v(k); for (auto & x : v) in >> x; sets[i] = v; }
  in >> n; while (n--) { size_t i,on,k; in >> i >> on >> k; map<unsigned, vector<unsigned>> m;
    while (k--) { unsigned key; size_t c; in >> key >> c; vector<unsigned> v(c); for (auto & x : v) in >> x; m[key] = v; }
    deps[i] = make_tuple(on, m); }
  size_t limit; in >> limit; int form; in >> form;
  unique_ptr<BlockIterator> it;
  if (form == 1) { vector<tuple<unsigned,unsigned>> b; for (auto & x : blocks) b.push_back(x.second); it.reset(new BlockIterator(b)); }
  else if (form == 2) it.reset(new BlockIterator(len, blocks, sets, deps));
  else it.reset(new BlockIterator(len, blocks, pkg, sets, deps));
  ostringstream o; o << "{\"len\":" << it->length() << ",\"pk\":["; size_t count = 0; bool ended = true;
  for (; !it->is_end(); it->step()) {
    if (count >= limit) { ended = false; break; }
    if (count) o << ",";
    ++count;
    auto blk = it->as_block(); bool e1, e2;
    auto pb = all_positions(BlockIterator(blk), limit, e1);
    auto pe = all_positions(it->as_block_enumerator(), limit, e2);
    o << "{\"box\":" << js(blk) << ",\"pos\":" << js(it->as_position()) << ",\"vb\":" << js(pb) << ",\"ve\":" << js(pe) << ",\"fin\":" << js(e1 && e2) << "}";
  }
  bool stays = true;
  if (ended) for (int i=0; i<3; ++i) { it->step(); stays = stays && it->is_end(); }
  o << "],\"ended\":" << js(ended) << ",\"stays\":" << js(stays) << "}";
  cout << o.str() << endl;
}

static void cmd_table(istream & in) {
  unsigned p, n; in >> p >> n; auto t = table(p,n);
  vector<unsigned long> el; size_t q = get<1>(t->block_complete());
  for (size_t i=0; i<q; ++i) el.push_back(code(t->at(i), p, n));
  vector<unsigned> ns; unsigned m; while (in >> m) ns.push_back(m);
  ostringstream o;
  o << "{\"p\":" << p << ",\"n\":" << n << ",\"el\":" << js(el) << ",\"zero\":" << t->zero_index()
    << ",\"all\":" << js(t->block_complete()) << ",\"nonzero\":" << js(t->block_non_zero()) << ",\"cosets\":[";
  bool f = true; for (auto m : ns) { if (!f) o << ","; f = false;
    o << "{\"m\":" << m << ",\"reps\":" << js(t->power_coset_representatives(m)) << "}"; }
  o << "],\"prime\":" << js(t->is_prime_field()) << ",\"red\":[" << t->reduce_index(0) << "," << t->reduce_index(t->zero_index()-1) << ","
    << t->reduce_index(t->zero_index()) << "," << t->reduce_index(t->zero_index()+1) << "]";
  // operator[] and, for prime fields, the integer view
  bool same = true; for (size_t i=0; i<q; ++i) { if ((*t)[i] != t->at(i)) same = false; if (n == 1 && t->at_nmod(i) != el[i]) same = false; }
  o << ",\"views\":" << js(same) << "}";
  cout << o.str() << endl;
}

static string fmpzs(const fmpz_t v) { char * c = fmpz_get_str(NULL, 10, v); string s(c); flint_free(c); return s; }

static void cmd_enum(istream & in) {
  // enum p n genus marked pkg limit detail(0/1)
  unsigned p,n,g,m,pkg; size_t limit; int detail; in >> p >> n >> g >> m >> pkg >> limit >> detail; auto t = table(p,n);
  CurveIterator it(*t, g, m != 0, pkg);
  ostringstream o; o << "{\"p\":" << p << ",\"n\":" << n << ",\"g\":" << g << ",\"marked\":" << js(m != 0) << ",\"pkg\":" << pkg << ",\"reps\":[";
  size_t count = 0, packages = 0; bool ended = true, first = true, boxsame = true; size_t maxpk = 0;
  vector<vector<tuple<unsigned,unsigned>>> boxes;
  for (; !it.is_end() && ended; it.step()) {
    ++packages; boxes.push_back(it.as_block());
    bool e1, e2; auto pe = all_positions(it.as_block_enumerator(), limit, e1); auto pb = all_positions(BlockIterator(it.as_block()), limit, e2);
    auto a = pe, b = pb; sort(a.begin(), a.end()); sort(b.begin(), b.end()); boxsame = boxsame && a == b && e1 && e2;
    maxpk = max(maxpk, pb.size());
    for (auto & pos : pb) {
      if (++count > limit) { ended = false; break; }
      Curve c(t, pos); bool sqf = c.has_squarefree_rhs();
      fmpz_t mult; fmpz_init(mult); CurveIterator::multiplicity(mult, p, c.prime_power(), c.rhs_support());
      if (!first) o << ","; first = false;
      o << "[" << js(pos) << "," << js(sqf) << ",\"" << fmpzs(mult) << "\"]"; fmpz_clear(mult);
    }
  }
  o << "],\"packages\":" << packages << ",\"maxpk\":" << maxpk << ",\"ended\":" << js(ended) << ",\"boxsame\":" << js(boxsame);
  if (detail) o << ",\"boxes\":" << js(boxes);
  o << "}"; cout << o.str() << endl;
}

static void cmd_boxes(istream & in) {
  // boxes p n genus marked pkg limit npolys (len exponents..)*: the packages (at most limit), and the multiplicities of some polynomials
  unsigned p,n,g,m,pkg; size_t limit, np; in >> p >> n >> g >> m >> pkg >> limit >> np; auto t = table(p,n);
  ostringstream o; o << "{\"mults\":["; bool first = true;
  while (np--) { size_t len; in >> len; vector<unsigned> e(len); for (auto & x : e) in >> x; Curve c(t, e);
    fmpz_t mult; fmpz_init(mult); CurveIterator::multiplicity(mult, p, c.prime_power(), c.rhs_support());
    if (!first) o << ","; first = false; o << "\"" << fmpzs(mult) << "\""; fmpz_clear(mult); }
  vector<vector<tuple<unsigned,unsigned>>> boxes; CurveIterator it(*t, g, m != 0, pkg);
  for (; !it.is_end() && boxes.size() < limit; it.step()) boxes.push_back(it.as_block());
  o << "],\"ended\":" << js(it.is_end()) << ",\"boxes\":" << js(boxes) << "}"; cout << o.str() << endl;
}

static void cmd_curve(istream & in) {
  // curve p n len e0..  ops...
  unsigned p,n; size_t len; in >> p >> n >> len; vector<unsigned> e(len); for (auto & x : e) in >> x; auto t = table(p,n);
  Curve c(t, e);
  ostringstream o; o << "{\"p\":" << p << ",\"n\":" << n << ",\"exps\":" << js(e) << ",\"deg\":" << c.degree() << ",\"genus\":" << c.genus()
    << ",\"kept\":" << js(c.rhs_coeff_exponents()) << ",\"support\":" << js(c.rhs_support()) << ",\"ops\":[";
  string op; bool first = true;
  while (in >> op) {
    if (!first) o << ","; first = false; int k = op.size() > 1 ? stoi(op.substr(1)) : 0;
    o << "{\"op\":\"" << op[0] << "\",\"k\":" << k;
    switch (op[0]) {
      case 'S': o << ",\"sqf\":" << js(c.has_squarefree_rhs()); break;
      case 'C': c.count(*redtable(p,k)); break;
      case 'N': c.count_naive_nmod(k); break;
      case 'Z': c.count_naive_zech(k); break;
      case 'R': o << ",\"ram\":" << js(c.ramification_type()); break;
      case 'P': { o << ",\"pts\":["; bool f = true; for (auto & x : c.number_of_points()) { if (!f) o << ","; f = false;
          o << "[" << x.first << "," << get<0>(x.second) << "," << get<1>(x.second) << "]"; } o << "]"; break; }
      case 'H': { o << ",\"hw\":["; bool f = true; for (auto & x : c.hasse_weil_offsets()) { if (!f) o << ","; f = false;
          o << "[" << x.first << "," << x.second << "]"; } o << "]"; break; }
      case 'L': o << ",\"pl\":" << js(c.number_of_points(k)) << ",\"hl\":" << js(c.hasse_weil_offsets(k)) << ",\"max\":" << c.max_prime_exponent(); break;
    }
    o << "}";
  }
  o << "]}"; cout << o.str() << endl;
}

static void cmd_squares(istream & in) {
  // squares p n len count e...: square-freeness of many polynomials at once
  unsigned p,n; size_t len, cnt; in >> p >> n >> len >> cnt; auto t = table(p,n); string out; vector<unsigned> e(len);
  while (cnt--) { for (auto & x : e) in >> x; Curve c(t, e); out += c.has_squarefree_rhs() ? '1' : '0'; }
  cout << "{\"sqf\":\"" << out << "\"}" << endl;
}

int main() {
  string line;
  while (getline(cin, line)) {
    istringstream in(line); string cmd; in >> cmd;
    if (cmd == "blocks") cmd_blocks(in);
    else if (cmd == "table") cmd_table(in);
    else if (cmd == "enum") cmd_enum(in);
    else if (cmd == "boxes") cmd_boxes(in);
    else if (cmd == "curve") cmd_curve(in);
    else if (cmd == "squares") cmd_squares(in);
    else { cerr << "unknown command " << line << endl; return 3; }
  }
  return 0;
}
