// minimal JSON output helpers shared by the drivers
#ifndef VERIF_JSONOUT
#define VERIF_JSONOUT
#include <sstream>
#include <string>
#include <tuple>
#include <vector>
#include <map>
#include <cstdint>
inline std::string js(const std::string & s) { std::string o = "\""; char b[8];
  for (unsigned char c : s) { if (c=='"'||c=='\\') { o+='\\'; o+=c; } else if (c<32) { snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } return o+"\""; }
inline std::string js(bool b) { return b ? "true" : "false"; }
inline std::string js(int v) { return std::to_string(v); }
inline std::string js(unsigned int v) { return std::to_string(v); }
inline std::string js(unsigned long v) { return std::to_string(v); }
inline std::string js(long v) { return std::to_string(v); }
template<class A,class B> std::string js(const std::tuple<A,B> & t) { return "["+js(std::get<0>(t))+","+js(std::get<1>(t))+"]"; }
template<class T> std::string js(const std::vector<T> & v) { std::string o="["; bool f=true; for (auto & x : v) { if(!f) o+=","; f=false; o+=js(x);} return o+"]"; }
#endif
