// Reads configurations: one command per line, one JSON line per command.
// conf <output path> <escaped yaml text>
#include <iostream>
#include <sstream>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <yaml-cpp/yaml.h>
#include "config/config_node.hh"
#include "jsonout.hh"
using namespace std;

static string unescape(const string & s) { string o;
  for (size_t i=0; i<s.size(); ++i) { if (s[i]=='\\' && i+1<s.size()) { ++i; o += s[i]=='n' ? '\n' : s[i]=='s' ? ' ' : s[i]; } else o += s[i]; }
  return o; }
static string fields(const ConfigNode & c) {
  ostringstream o; o << "[" << c.prime << "," << c.prime_exponent << "," << c.genus << "," << (c.with_marked_point ? 1 : 0) << "," << c.count_exponent << "," << js(c.result_path.generic_string()) << "," << c.package_size << "]";
  return o.str(); }

int main() {
  string line;
  while (getline(cin, line)) {
    istringstream in(line); string cmd, out, text; in >> cmd >> out >> text;
    ostringstream o; o << "{\"nodes\":[";
    try {
      YAML::Node doc = YAML::Load(unescape(text)); vector<ConfigNode> nodes;
      if (!doc["Moduli"]) nodes.push_back(doc.as<ConfigNode>());
      else for (const auto & n : doc["Moduli"]) nodes.push_back(n.as<ConfigNode>());
      bool first = true; string r;
      for (auto & c : nodes) {
        r += first ? "" : ","; first = false;
        r += "{\"read\":" + fields(c);
        // to YAML (also as text) and back, to a message and back
        ConfigNode d = YAML::convert<ConfigNode>::encode(c).as<ConfigNode>();
        ostringstream ys; ys << YAML::convert<ConfigNode>::encode(c); ConfigNode e = YAML::Load(ys.str()).as<ConfigNode>();
        stringstream as, bs; { boost::archive::text_oarchive oa(as); const ConfigNode & k = c; oa << k; } { boost::archive::binary_oarchive oa(bs); const ConfigNode & k = c; oa << k; }
        ConfigNode f, g; { boost::archive::text_iarchive ia(as); ia >> f; } { boost::archive::binary_iarchive ia(bs); ia >> g; }
        r += ",\"copies\":[" + fields(d) + "," + fields(e) + "," + fields(f) + "," + fields(g) + "]";
        c.prepend_output_path(out); bool v = false; try { v = c.verify(); } catch (const exception &) {}
        r += ",\"accepted\":" + js(v) + "}";
      }
      o << r << "],\"readable\":true}";
    } catch (const exception & x) { o << "],\"readable\":false}"; }
    cout << o.str() << endl;
  }
  return 0;
}
