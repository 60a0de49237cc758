// Session "dom": domains of every kind and the set operations on them.  Numbers are written in quarters;
// a value of a string or symbol domain is a small number (4 * k for the k-th word).
#include "common.hh"
#include "Domains.hh"
#include "DataTypes.hh"
#include "LabelStr.hh"
#include "Error.hh"
#include <cmath>
using namespace EUROPA;
namespace {
const int INFQ = 1000000;
std::string word(int q) { std::ostringstream o; o << "w" << q / 4; return o.str(); }
class DomS : public vt::Session {
  std::map<std::string, Domain*> d; std::map<std::string, std::string> kd;
  bool sym(const std::string& k) { return k == "str" || k == "sym"; }
  edouble val(const std::string& k, const std::string& t) {
    if (t == "inf") return PLUS_INFINITY;
    if (t == "-inf") return MINUS_INFINITY;
    int q = atoi(t.c_str()); return sym(k) ? edouble(LabelStr(word(q)).getKey()) : edouble(q / 4.0);
  }
  long quart(const std::string& k, edouble v) {
    if (sym(k)) return 4 * atoi(LabelStr(v).toString().c_str() + 1);
    if (v >= PLUS_INFINITY) return INFQ;
    if (v <= MINUS_INFINITY) return -INFQ;
    return (long) std::floor(cast_double(v) * 4 + .5);
  }
  bool iv(const std::string& n) { return d[n]->isInterval(); }
  bool emp(const std::string& n) { return d[n]->isEmpty(); }
  std::string show(const std::string& n) {
    Domain& D = *d[n]; const std::string& k = kd[n]; vt::Obj o; bool e = D.isEmpty();
    o.str_("k", k).bool_("open", D.isOpen()).bool_("closed", D.isClosed()).bool_("iv", D.isInterval()).bool_("en", D.isEnumerated()).bool_("empty", e).bool_("sing", D.isSingleton()).bool_("fin", D.isFinite()).bool_("ninf", D.isInfinite());
    edouble sz = e ? edouble(0) : edouble((double) D.getSize()); o.int_("size", sz >= PLUS_INFINITY || cast_double(sz) > INFQ ? INFQ : (long) cast_double(sz));
    edouble lb(0), ub(0); bool r = false; if (!e) r = D.getBounds(lb, ub); else if (D.isInterval()) { lb = D.getLowerBound(); ub = D.getUpperBound(); }
    long ql = e && D.isEnumerated() ? 0 : quart(k, lb), qu = e && D.isEnumerated() ? 0 : quart(k, ub);
    if (D.isInterval() && ql == qu && lb > ub) ql = qu + 1;      // emptied by less than a quarter
    o.int_("lb", ql).int_("ub", qu).bool_("inf", r).bool_("bf", D.areBoundsFinite());
    o.bool_("same", e || (D.getLowerBound() == lb && D.getUpperBound() == ub));
    vt::Arr v; bool listed = false;
    if (D.isEnumerated() || (D.isFinite() && cast_double(sz) < 40 && !e)) { std::list<edouble> l; D.getValues(l); listed = true; std::set<long> s; for (std::list<edouble>::iterator i = l.begin(); i != l.end(); ++i) s.insert(quart(k, *i)); for (std::set<long>::iterator i = s.begin(); i != s.end(); ++i) v.add(vt::num(*i)); o.int_("n", l.size()); }
    else o.int_("n", 0);
    o.bool_("listed", listed).add("vals", v.str()).int_("sv", !e && D.isSingleton() ? quart(k, D.getSingletonValue()) : 0);
    Domain* c = D.copy(); o.bool_("copy", c->isOpen() == D.isOpen() && c->isEmpty() == e && (e || (c->getLowerBound() == D.getLowerBound() && c->getUpperBound() == D.getUpperBound() && *c == D && !(*c != D)))); delete c;
    return o.str();
  }
public:
  ~DomS() { for (std::map<std::string, Domain*>::iterator i = d.begin(); i != d.end(); ++i) delete i->second; }
  void op(const vt::Toks& t, vt::Obj& ev) {
    const std::string& o = t[0]; const std::string& n = t[1]; std::string m = t.size() > 2 ? t[2] : "";
    if (o == "mk") {        // mk d kind lb ub | mk d kind o|c values...
      Domain* D; const std::string& k = t[2];
      if (k == "int") D = new IntervalIntDomain(eint(cast_long(eint(val(k, t[3])))), eint(cast_long(eint(val(k, t[4])))), IntDT::instance());
      else if (k == "bool") { D = new BoolDomain(BoolDT::instance()); if (t[3] == t[4]) D->set(val(k, t[3])); }
      else if (k == "real") D = new IntervalDomain(val(k, t[3]), val(k, t[4]), FloatDT::instance());
      else { EnumeratedDomain* E = k == "str" ? (EnumeratedDomain*) new StringDomain(StringDT::instance()) : k == "sym" ? (EnumeratedDomain*) new SymbolDomain(SymbolDT::instance()) : new NumericDomain(k == "num" ? FloatDT::instance() : IntDT::instance());
        for (size_t i = 4; i < t.size(); ++i) E->insert(val(k, t[i]));
        if (t[3] == "c") E->close();
        D = E; }
      if (d.count(n)) delete d[n];
      d[n] = D; kd[n] = k; return;
    }
    if (!d.count(n)) { ev.bool_("skip", true); return; }
    bool two = o == "isect" || o == "eq" || o == "diff" || o == "sub" || o == "ints" || o == "equal" || o == "relax" || o == "reset" || o == "copy" || o == "assign";
    bool skip = false; Domain& A = *d[n]; const std::string& k = kd[n];
    if (two) {
      if (!d.count(m)) { ev.bool_("skip", true); return; }
      Domain& B = *d[m]; bool cmp = Domain::canBeCompared(A, B); ev.bool_("cmp", cmp).bool_("cmp2", Domain::canBeCompared(B, A)).str_("ka", k).str_("kb", kd[m]);
      skip = o != "copy" && (!cmp || ((iv(n) || iv(m)) && (emp(n) || emp(m)) && o != "relax"));
      if (o == "eq" && A.isClosed() && B.isClosed() && emp(n) && emp(m)) skip = true;
      if ((o == "equal" || o == "reset") && k == "str" && A.isOpen() && B.isOpen()) skip = true;
      if ((o == "isect" || o == "eq") && ((A.isOpen() && iv(m)) || (B.isOpen() && iv(n)))) skip = true;
      if (o == "diff" && (A.isOpen() || B.isOpen() || (B.isEnumerated() && emp(m)))) skip = true;
      if (o == "relax" || o == "reset") {
        if (k != kd[m]) skip = true;
        else if (iv(n)) { if (emp(m) || !(emp(n) || (B.getLowerBound() <= A.getLowerBound() && A.getUpperBound() <= B.getUpperBound()))) skip = true; }
      }
      if (o == "assign" && k != kd[m]) skip = true;
      if (skip || n == m) { ev.bool_("skip", true); return; }
      if (o == "isect") ev.bool_("r", A.intersect(B));
      else if (o == "eq") ev.bool_("r", A.equate(B));
      else if (o == "diff") { try { ev.bool_("r", A.difference(B)).bool_("threw", false); } catch (Error&) { ev.bool_("r", false).bool_("threw", true); } }
      else if (o == "sub") ev.bool_("r", A.isSubsetOf(B));
      else if (o == "ints") ev.bool_("r", A.intersects(B));
      else if (o == "equal") ev.bool_("r", A == B).bool_("ne", A != B);
      else if (o == "relax") A.relax(B);
      else if (o == "reset") A.reset(B);
      else if (o == "copy") { Domain* c = A.copy(); delete d[m]; d[m] = c; kd[m] = k; }
      else if (o == "assign") A = B;
      return;
    }
    if (o == "obs") return;
    if (o == "isectb") { if (A.isSymbolic() || A.isString() || A.isOpen() || (iv(n) && emp(n))) { ev.bool_("skip", true); return; } ev.bool_("r", A.intersect(val(k, t[2]), val(k, t[3]))); return; }
    if (o == "empty") { A.empty(); return; }
    if (o == "open") { if (iv(n) || A.isOpen()) ev.bool_("skip", true); else A.open(); return; }
    if (o == "close") { if (iv(n) || A.isClosed()) ev.bool_("skip", true); else A.close(); return; }
    edouble v = val(k, m);
    bool frac = (k == "int" || k == "bool" || k == "inum") && atoi(m.c_str()) % 4 != 0;
    if (k == "bool" && v != 0 && v != 1) { ev.bool_("skip", true); return; }
    if (o == "mem") ev.bool_("r", A.isMember(v));
    else if (frac) ev.bool_("skip", true);
    else if (o == "remove") { if (iv(n) && emp(n)) { ev.bool_("skip", true); return; } try { A.remove(v); ev.bool_("threw", false); } catch (Error&) { ev.bool_("threw", true); } }
    else if (o == "insert") {
      if (k == "real" || k == "bool" || (A.isEnumerated() && A.isClosed())) { ev.bool_("skip", true); return; }
      try { A.insert(v); ev.bool_("threw", false); } catch (Error&) { ev.bool_("threw", true); } }
    else if (o == "set") { if ((k == "str" && (emp(n) || !A.isMember(v))) || (iv(n) && emp(n))) { ev.bool_("skip", true); return; } A.set(v); }
    else if (o == "relaxv") { if (!(emp(n) || (A.isSingleton() && A.getSingletonValue() == v))) { ev.bool_("skip", true); return; } A.relax(v); }
  }
  void observe(const vt::Toks& t, vt::Obj& ev) {
    if (d.count(t[1])) ev.add("A", show(t[1]));
    if (t.size() > 2 && d.count(t[2]) && t[0] != "mk") ev.add("B", show(t[2]));
  }
};
vt::Session* mk(const vt::Toks&) { return new DomS(); }
vt::Register reg("dom", mk);
}
