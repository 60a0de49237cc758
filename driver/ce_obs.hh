// Domain projection shared by the drivers.
#ifndef VT_CE_OBS_HH
#define VT_CE_OBS_HH
#include "common.hh"
#include "Domains.hh"
#include "DataTypes.hh"
#include "LabelStr.hh"
#include <cmath>
namespace vt {
using namespace EUROPA;
static const long INF = 1000000;
// the integer hull of a numeric bound
inline long lowInt(edouble v) { double d = cast_double(v); if (v <= MINUS_INFINITY) return -INF; if (v >= PLUS_INFINITY) return INF; return (long) std::ceil(d - 1e-6); }
inline long highInt(edouble v) { double d = cast_double(v); if (v <= MINUS_INFINITY) return -INF; if (v >= PLUS_INFINITY) return INF; return (long) std::floor(d + 1e-6); }
// value of a symbolic member "v7" -> 7
inline long symInt(edouble v) {
  if (!LabelStr::isString(v)) return (long) cast_double(v);
  std::string s = LabelStr(v).toString();
  size_t i = 0; while (i < s.size() && !(isdigit(s[i]) || s[i] == '-')) ++i;
  return i < s.size() ? atol(s.c_str() + i) : -777;
}
inline bool symbolic(const Domain& d) { return d.isSymbolic() || d.isString(); }
inline std::string domJson(const Domain& d) {
  Obj o;
  bool en = d.isEnumerated();
  o.bool_("e", en).bool_("o", d.isOpen());
  bool em = d.isEmpty();
  o.bool_("m", em);
  Arr a;
  long lo = 1, hi = 0; bool exact = true;
  if (!em) {
    if (en) {
      std::list<edouble> vs; d.getValues(vs);
      std::set<long> s;
      for (std::list<edouble>::iterator i = vs.begin(); i != vs.end(); ++i) s.insert(symbolic(d) ? symInt(*i) : lowInt(*i));
      for (std::set<long>::iterator i = s.begin(); i != s.end(); ++i) a.add(num(*i));
      if (!s.empty()) { lo = *s.begin(); hi = *s.rbegin(); }
    } else { lo = lowInt(d.getLowerBound()); hi = highInt(d.getUpperBound()); exact = cast_double(d.getUpperBound()) - cast_double(d.getLowerBound()) < 1e-9; }
  }
  if (!em && !en && d.minDelta() < 1.0) {     // a real interval: its bounds in thousandths
    double x = cast_double(d.getLowerBound()), y = cast_double(d.getUpperBound());
    o.int_("ql", std::abs(x) > 1e5 ? lo : (long) std::floor(x * 1000 + 0.5)).int_("qh", std::abs(y) > 1e5 ? hi : (long) std::floor(y * 1000 + 0.5));
  }
  o.int_("lo", lo).int_("hi", hi).add("vs", a.str()).bool_("x", exact);
  // exact rendering, for comparing two domains bit for bit
  std::ostringstream r; r.precision(12);
  if (em) r << "{}";
  else if (en) { std::list<edouble> vs; d.getValues(vs); for (std::list<edouble>::iterator i = vs.begin(); i != vs.end(); ++i) { if (symbolic(d)) r << symInt(*i); else r << cast_double(*i); r << ","; } }
  else r << cast_double(d.getLowerBound()) + 0.0 << ".." << cast_double(d.getUpperBound()) + 0.0;
  if (d.isOpen()) r << "+";
  o.str_("r", r.str());
  return o.str();
}
inline edouble mkVal(bool sym, const std::string& s) {
  if (sym) return LabelStr(std::string("v") + s);
  if (s == "inf") return PLUS_INFINITY;
  if (s == "-inf") return MINUS_INFINITY;
  return edouble(atof(s.c_str()));
}
// kinds: i lo hi | r lo hi | b [lo hi] | e v.. | oe v.. (open) | f v.. (float enumeration) | s v.. | os v..  (symbols) | t v.. | ot v.. (strings)
inline Domain* mkDom(const Toks& t, size_t i, std::string& typeName) {
  std::string k = t[i++];
  if (k == "i") { typeName = "int"; IntervalIntDomain* d = new IntervalIntDomain();
    edouble lo = mkVal(false, t[i]), hi = mkVal(false, t[i + 1]); delete d;
    return new IntervalIntDomain(eint(lo), eint(hi)); }
  if (k == "r") { typeName = "float"; return new IntervalDomain(mkVal(false, t[i]), mkVal(false, t[i + 1])); }
  if (k == "b") { typeName = "bool"; if (i < t.size()) { if (t[i] == t[i + 1]) return new BoolDomain(t[i] == "1"); } return new BoolDomain(); }
  bool open = k[0] == 'o'; if (open) k = k.substr(1);
  EnumeratedDomain* d = 0;
  bool sym = k == "s" || k == "t";
  if (k == "e") { typeName = "int"; d = new EnumeratedDomain(IntDT::instance()); }
  else if (k == "f") { typeName = "float"; d = new EnumeratedDomain(FloatDT::instance()); }
  else if (k == "s") { typeName = "symbol"; d = new SymbolDomain(); }
  else if (k == "t") { typeName = "string"; d = new StringDomain(); }
  else throw std::runtime_error("bad kind " + k);
  for (; i < t.size(); ++i) d->insert(mkVal(sym, t[i]));
  if (!open) d->close();
  return d;
}
inline std::string changeName(int t) {
  return DomainListener::toString((DomainListener::ChangeType) t);
}
}
#endif
