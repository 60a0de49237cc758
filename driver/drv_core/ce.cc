// Session "ce": the constraint engine on its own.
#include "ce_obs.hh"
#include "Engine.hh"
#include "ModuleConstraintEngine.hh"
#include "ConstraintEngine.hh"
#include "ConstraintEngineListener.hh"
#include "ConstrainedVariable.hh"
#include "Constraint.hh"
#include "CESchema.hh"
#include "Variable.hh"
using namespace EUROPA;
namespace vt {
inline long K(eint k) { return (long) cast_int(k); }
class Eng : public EngineBase {
public:
  Eng(bool tolerant) {
    addModule((new ModuleConstraintEngine())->getId());
    addModule((new ModuleConstraintLibrary())->getId());
    if (tolerant) getConfig()->setProperty("ConstraintEngine.allowViolations", "true");
    doStart();
    ce = dynamic_cast<ConstraintEngine*>(getComponent("ConstraintEngine"));
  }
  ~Eng() { doShutdown(); }
  ConstraintEngine* ce;
};
struct Names { std::map<int, std::string> v, c; };
class Rec : public ConstraintEngineListener {
public:
  Rec(ConstraintEngine* ce, Names& n) : ConstraintEngineListener(ce->getId()), names(n), on(true) {}
  Names& names; Arr ev; bool on;
  std::string vn(const ConstrainedVariableId v) { std::map<int, std::string>::iterator i = names.v.find(K(v->getKey())); return i == names.v.end() ? "" : i->second; }
  std::string cn(const ConstraintId c) { std::map<int, std::string>::iterator i = names.c.find(K(c->getKey())); return i == names.c.end() ? "" : i->second; }
  void put(const char* k, const std::string& id, const std::string& dom = "", const std::string& ct = "", const std::string& key = "") {
    if (!on) return;
    Obj o; o.str_("k", k).str_("id", id); if (!dom.empty()) { o.str_("t", ct); o.add("d", dom); }
    if (!key.empty()) o.add("key", key);
    ev.add(o.str());
  }
  void pc(const char* k, const ConstraintId c) { std::string n = cn(c); if (!n.empty()) put(k, n); else put((std::string(k) + "?").c_str(), "", "", "", num(K(c->getKey()))); }
  void notifyPropagationCommenced() { put("start", ""); }
  void notifyPropagationCompleted() { put("done", ""); }
  void notifyPropagationPreempted() { put("stop", ""); }
  void notifyAdded(const ConstraintId c) { pc("cadd", c); }
  void notifyRemoved(const ConstraintId c) { pc("crem", c); }
  void notifyExecuted(const ConstraintId c) { pc("cexe", c); }
  void notifyActivated(const ConstraintId c) { pc("cact", c); }
  void notifyDeactivated(const ConstraintId c) { pc("cdea", c); }
  void notifyViolationAdded(const ConstraintId c) { pc("vadd", c); }
  void notifyViolationRemoved(const ConstraintId c) { pc("vrem", c); }
  void notifyAdded(const ConstrainedVariableId v) { if (vn(v).empty()) put("vnew?", "", "", "", num(K(v->getKey()))); else put("vnew", vn(v)); }
  void notifyRemoved(const ConstrainedVariableId v) { if (!vn(v).empty()) put("vdel", vn(v)); else put("vdel?", "", "", "", num(K(v->getKey()))); }
  void notifyActivated(const ConstrainedVariableId v) { if (!vn(v).empty()) put("vact", vn(v)); }
  void notifyDeactivated(const ConstrainedVariableId v) { if (!vn(v).empty()) put("vdea", vn(v)); }
  void notifyChanged(const ConstrainedVariableId v, const DomainListener::ChangeType& t) {
    std::string n = vn(v); if (n.empty()) return;
    put("chg", n, domJson(v->lastDomain()), changeName(t));
  }
};
struct VarRec { ConstrainedVariableId id; std::string type; bool sym; bool canSpec; int deact; int order; };
struct ConRec { ConstraintId id; std::string type; Toks scope; int deact; int order; };

class CESession : public Session {
public:
  CESession(const Toks& t) : seq(0), listen(false), fresh(false), tolerant(false) {
    for (size_t i = 1; i < t.size(); ++i) { if (t[i] == "tolerant") tolerant = true; if (t[i] == "listen") listen = true; if (t[i] == "fresh") fresh = true; }
    eng = new Eng(tolerant); ce = eng->ce;
    rec = 0;
    if (listen) { rec = new Rec(ce, names);  }
    propagated = true;
    ce->setAutoPropagation(false);
  }
  ~CESession() {
    delete rec;
    delete eng;
  }
  Eng* eng; ConstraintEngine* ce; Rec* rec; Names names;
  std::map<std::string, VarRec> vars; std::map<std::string, ConRec> cons;
  int seq; bool listen, fresh, tolerant, propagated;

  VarRec& V(const std::string& n) { if (!vars.count(n)) throw std::runtime_error("no var " + n); return vars[n]; }
  ConRec& C(const std::string& n) { if (!cons.count(n)) throw std::runtime_error("no con " + n); return cons[n]; }
  bool removed(const std::string& k) {
    // was the key reported as removed?
    return false;
  }
  void op(const Toks& t, Obj& ev) {
    const std::string& o = t[0];
    propagated = false;
    if (o == "var" || o == "ivar") {        // var <name> <kind> ...
      std::string ty; Domain* d = mkDom(t, 2, ty);
      VarRec r; r.type = ty; r.sym = symbolic(*d); r.canSpec = o == "var"; r.deact = 0; r.order = ++seq;
      r.id = ce->createVariable(ty, *d, o == "ivar", o == "var", t[1]);
      delete d;
      names.v[K(r.id->getKey())] = t[1]; vars[t[1]] = r;
    } else if (o == "delvar") {
      VarRec r = V(t[1]); vars.erase(t[1]); delete static_cast<ConstrainedVariable*>(r.id);
    } else if (o == "post" || o == "apost") {                   // post <id> <type> v...
      std::vector<ConstrainedVariableId> sc; ConRec r; r.type = t[2]; r.deact = 0; r.order = ++seq;
      for (size_t i = 3; i < t.size(); ++i) { sc.push_back(V(t[i]).id); r.scope.push_back(t[i]); }
      if (o == "apost") { ce->setAutoPropagation(true); propagated = true; }
      r.id = ce->createConstraint(t[2], sc);
      if (o == "apost") ce->setAutoPropagation(false);
      names.c[K(r.id->getKey())] = t[1]; cons[t[1]] = r;
      ev.int_("key", K(r.id->getKey()));
    } else if (o == "delete" || o == "adelete") {
      ConRec r = C(t[1]); cons.erase(t[1]);
      if (o == "adelete") { ce->setAutoPropagation(true); propagated = true; }
      ce->deleteConstraint(r.id);
      if (o == "adelete") ce->setAutoPropagation(false);
    }
    else if (o == "deact") { ConRec& r = C(t[1]); r.deact++; r.id->deactivate(); }
    else if (o == "undeact") { ConRec& r = C(t[1]); r.deact--; r.id->undoDeactivation(); }
    else if (o == "vdeact") { VarRec& r = V(t[1]); r.deact++; r.id->deactivate(); }
    else if (o == "vundeact") { VarRec& r = V(t[1]); r.deact--; r.id->undoDeactivation(); }
    else if (o == "spec") { VarRec& r = V(t[1]); r.id->specify(mkVal(r.sym, t[2])); }
    else if (o == "reset") V(t[1]).id->reset();
    else if (o == "close") { if (V(t[1]).id->baseDomain().isClosed() || V(t[1]).id->lastDomain().getSize() == 0) ev.bool_("skip", true); else V(t[1]).id->close(); }
    else if (o == "open") if (V(t[1]).id->baseDomain().isOpen() || V(t[1]).id->lastDomain().getSize() == 0) ev.bool_("skip", true); else V(t[1]).id->open();
    else if (o == "touch") V(t[1]).id->touch();
    else if (o == "insert") { VarRec& r = V(t[1]); if (r.id->baseDomain().isClosed()) { ev.bool_("skip", true); return; } r.id->insert(mkVal(r.sym, t[2])); }
    else if (o == "remove") { VarRec& r = V(t[1]); r.id->remove(mkVal(r.sym, t[2])); }
    else if (o == "restrict") { if (V(t[1]).id->lastDomain().isEmpty()) { ev.bool_("skip", true); return; } std::string ty; Domain* d = mkDom(t, 2, ty); try { V(t[1]).id->restrictBaseDomain(*d); } catch (...) { delete d; throw; } delete d; }
    else if (o == "derived") { bool will = ce->pending(); propagated = will || !ce->provenInconsistent(); ev.add("dd", domJson(V(t[1]).id->derivedDomain())); }
    else if (o == "prop") { ev.bool_("ret", ce->propagate()); propagated = true; }
    else throw std::runtime_error("unknown op " + o);
  }
  // the same network in a new engine
  void freshObs(Obj& ev) {
    Eng f(tolerant);
    f.ce->setAutoPropagation(false);
    std::map<int, std::string> order;
    std::map<std::string, ConstrainedVariableId> fv;
    for (std::map<std::string, VarRec>::iterator i = vars.begin(); i != vars.end(); ++i) order[i->second.order] = i->first;
    for (std::map<int, std::string>::iterator i = order.begin(); i != order.end(); ++i) {
      VarRec& r = vars[i->second];
      ConstrainedVariableId v = f.ce->createVariable(r.type, r.id->baseDomain(), !r.canSpec, r.canSpec, i->second);
      fv[i->second] = v;
      if (r.id->isSpecified() && !v->isSpecified() && r.canSpec) v->specify(r.id->getSpecifiedValue());
      for (int k = 0; k < r.deact; ++k) v->deactivate();
    }
    std::map<int, std::string> corder;
    for (std::map<std::string, ConRec>::iterator i = cons.begin(); i != cons.end(); ++i) corder[i->second.order] = i->first;
    for (std::map<int, std::string>::iterator i = corder.begin(); i != corder.end(); ++i) {
      ConRec& r = cons[i->second];
      std::vector<ConstrainedVariableId> sc;
      for (size_t k = 0; k < r.scope.size(); ++k) sc.push_back(fv[r.scope[k]]);
      ConstraintId c = f.ce->createConstraint(r.type, sc);
      for (int k = 0; k < r.deact; ++k) c->deactivate();
    }
    bool ok = f.ce->propagate();
    Obj o;
    for (std::map<std::string, ConstrainedVariableId>::iterator i = fv.begin(); i != fv.end(); ++i) o.add(i->first, domJson(i->second->lastDomain()));
    ev.bool_("fok", ok).add("fr", o.str());
  }
  void observe(const Toks& t, Obj& ev) {
    Obj vs;
    for (std::map<std::string, VarRec>::iterator i = vars.begin(); i != vars.end(); ++i) {
      ConstrainedVariableId v = i->second.id;
      Obj o;
      o.add("b", domJson(v->baseDomain())).add("d", domJson(v->lastDomain()));
      o.bool_("sp", v->isSpecified());
      o.int_("sv", v->isSpecified() ? (i->second.sym ? symInt(v->getSpecifiedValue()) : lowInt(v->getSpecifiedValue())) : 0);
      o.bool_("cl", v->isClosed()).bool_("ac", v->isActive());
      o.int_("nc", v->constraintCount());
      vs.add(i->first, o.str());
    }
    ev.add("vs", vs.str());
    Obj cs;
    for (std::map<std::string, ConRec>::iterator i = cons.begin(); i != cons.end(); ++i) {
      Obj o; o.bool_("ac", i->second.id->isActive()).bool_("rd", i->second.id->isRedundant()).bool_("vi", ce->isViolated(i->second.id));
      cs.add(i->first, o.str());
    }
    ev.add("cs", cs.str());
    ev.bool_("inc", ce->provenInconsistent()).bool_("pend", ce->pending()).bool_("ccon", ce->constraintConsistent());
    ev.bool_("prop", propagated);
    ev.int_("viol", (long) ce->getViolation());
    ev.int_("nviol", (long) ce->getAllViolations().size());
    if (rec) { ev.add("nt", rec->ev.str()); rec->ev = Arr(); }
    if (fresh && propagated && t[0] != "begin") freshObs(ev);
  }
};
static Session* mk(const Toks& t) { return new CESession(t); }
static Register r1("ce", mk);
}
