// Shared by the conformance drivers: script reading, JSON writing, error and crash capture.
#ifndef VT_COMMON_HH
#define VT_COMMON_HH
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unistd.h>
#include <vector>

namespace vt {

// --- a tiny JSON writer -------------------------------------------------------------------
inline std::string q(const std::string& s) {
  std::string o = "\"";
  for (size_t i = 0; i < s.size(); ++i) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
inline std::string num(long v) {  // TLC integers are 32 bit
  if (v > 2000000000L) v = 2000000000L;
  if (v < -2000000000L) v = -2000000000L;
  std::ostringstream o; o << v; return o.str();
}
inline std::string b(bool v) { return v ? "true" : "false"; }

struct Arr {
  std::string s; bool first;
  Arr() : s("["), first(true) {}
  Arr& add(const std::string& j) { if (!first) s += ","; first = false; s += j; return *this; }
  std::string str() const { return s + "]"; }
};
struct Obj {
  std::string s; bool first;
  Obj() : s("{"), first(true) {}
  Obj& add(const std::string& k, const std::string& j) { if (!first) s += ","; first = false; s += q(k) + ":" + j; return *this; }
  Obj& str_(const std::string& k, const std::string& v) { return add(k, q(v)); }
  Obj& int_(const std::string& k, long v) { return add(k, num(v)); }
  Obj& bool_(const std::string& k, bool v) { return add(k, b(v)); }
  std::string str() const { return s + "}"; }
};
template <class T> std::string strs(const T& c) { Arr a; for (typename T::const_iterator i = c.begin(); i != c.end(); ++i) a.add(q(*i)); return a.str(); }
template <class T> std::string ints(const T& c) { Arr a; for (typename T::const_iterator i = c.begin(); i != c.end(); ++i) a.add(num(*i)); return a.str(); }

// --- a session: handles one episode -------------------------------------------------------
typedef std::vector<std::string> Toks;
class Session {
public:
  virtual ~Session() {}
  // Executes one operation and adds its results to the event; throws on error.
  virtual void op(const Toks& t, Obj& ev) = 0;
  // Adds the projected state to the event (also after an error).
  virtual void observe(const Toks&, Obj&) {}
};
typedef Session* (*Maker)(const Toks&);
inline std::map<std::string, Maker>& makers() { static std::map<std::string, Maker> m; return m; }
struct Register { Register(const char* n, Maker m) { makers()[n] = m; } };

extern std::string (*describeException)();

inline int toI(const std::string& s) { return atoi(s.c_str()); }

int run(int argc, char** argv);
}
#endif
