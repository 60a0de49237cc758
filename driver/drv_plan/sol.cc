// Session "sol": a solver at work on a plan database that is edited in between.
// All ops of session "plan", and
// solver <xml> | step | solve S D | sreset [n] | backjump n | sclear | look
#include "plan_session.hh"
#include "Solver.hh"
#include "SearchListener.hh"
#include "SolverDecisionPoint.hh"
#include "RuleInstance.hh"
#include "Context.hh"
#include "tinyxml.h"
// the Random handlers draw from here, so that a run can be repeated
static unsigned long vt_rand = 1;
extern "C" int rand() throw() { vt_rand = vt_rand * 6364136223846793005UL + 1442695040888963407UL; return (int) ((vt_rand >> 33) & 0x7fffffff); }
namespace vt {
using namespace EUROPA::SOLVERS;
namespace {
class Sol : public PlanSession, public SearchListener {
  Solver* s; Arr ev; std::map<long, int> ids; bool brief; int nev; bool pending;
  std::map<long, std::string> nm; std::set<std::string> used;
public:
  Sol(const Toks& a) : PlanSession(a), s(0), brief(false), nev(0), pending(false) { vt_rand = 12345; }
  ~Sol() { if (s) delete s; s = 0; }
  // ---- names ----
  std::string ename(EntityId e) {
    if (e.isNoId()) return "";
    if (TokenId::convertable(e)) return tn(TokenId(e));
    ConstrainedVariableId v(e); EntityId p = v->parent(); std::string n;
    if (p.isNoId()) n = v->getName();
    else if (TokenId::convertable(p)) n = tn(TokenId(p)) + "." + v->getName();
    else if (ObjectId::convertable(p)) n = "@" + v->getName();
    else if (RuleInstanceId::convertable(p)) n = tn(RuleInstanceId(p)->getToken()) + "~" + v->getName();
    else n = "?" + v->getName();
    return n;
  }
  std::string ekey(eint k) { EntityId e = Entity::getEntity(k); return e.isNoId() ? std::string("gone") : ename(e); }
  static std::string vname(const Domain& d, edouble v) {
    if (d.isEntity()) { EntityId e = Entity::getEntity(v); return e.isNoId() ? "?" : e->getName(); }
    if (d.isSymbolic() || d.isString()) return LabelStr(v).toString();
    if (d.isBool()) return v == 0 ? "false" : "true";
    std::ostringstream o; o << cast_double(v); return o.str();
  }
  // ---- what the decision can choose from, asked of the database before it starts ----
  void choices(EntityId e, bool thr, Arr& out) {
    if (TokenId::convertable(e)) {
      TokenId k(e);
      if (!thr && k->isInactive()) {
        StateDomain d(k->getState()->lastDomain());
        if (d.isMember(LabelStr("MERGED"))) { std::vector<TokenId> c; db->getCompatibleTokens(k, c, std::numeric_limits<unsigned int>::max(), true); for (size_t i = 0; i < c.size(); ++i) out.add(q("m:" + tn(c[i]))); }
        if (d.isMember(LabelStr("ACTIVE"))) out.add(q("active"));
        if (d.isMember(LabelStr("REJECTED"))) out.add(q("rejected"));
      } else {
        std::vector<OrderingChoice> r; db->getOrderingChoices(k, r);
        for (size_t i = 0; i < r.size(); ++i) out.add(q(r[i].first->getName() + ":" + tn(r[i].second.first) + "<" + tn(r[i].second.second)));
      }
      return;
    }
    ConstrainedVariableId v(e); const Domain& d = v->lastDomain();
    if (d.isEnumerated()) { std::list<edouble> l; d.getValues(l); for (std::list<edouble>::iterator i = l.begin(); i != l.end(); ++i) out.add(q(vname(d, *i))); }
    else for (edouble x = d.getLowerBound(); x <= d.getUpperBound(); x = x + d.minDelta()) out.add(q(vname(d, x)));
  }
  bool isThreat(DecisionPointId dp) { return dp->toString().compare(0, 6, "THREAT") == 0 || dp->toString().compare(0, 10, "NO CHOICES") == 0; }
  // the choice as it can be seen in the database
  std::string chosen(DecisionPointId dp) {
    EntityId e = Entity::getEntity(dp->getFlawedEntityKey());
    if (e.isNoId()) return "gone";
    if (TokenId::convertable(e)) {
      TokenId k(e);
      if (thr[cast_int(dp->getKey())]) {
        std::string t = dp->toShortString(); size_t a = t.find(" ("), b = t.find(")<("), c = t.find(")}");
        if (t.compare(0, 4, "THR{") || a == std::string::npos || b == std::string::npos || c == std::string::npos) return "?" + t;
        std::string o = t.substr(4, a - 4); long p = atol(t.substr(a + 2, b - a - 2).c_str()), q2 = atol(t.substr(b + 3, c - b - 3).c_str());
        std::string r = o + ":" + (alias.count(p) ? alias[p] : "?") + "<" + (alias.count(q2) ? alias[q2] : "?");
        return db->getObject(o)->hasToken(k) ? r : "not done " + r;
      }
      return k->isActive() ? "active" : k->isMerged() ? "m:" + tn(k->getActiveToken()) : k->isRejected() ? "rejected" : "inactive";
    }
    ConstrainedVariableId v(e); if (!v->isSpecified()) return "unbound";
    return vname(v->baseDomain(), v->getSpecifiedValue());
  }
  std::map<long, bool> thr;
  void add(const char* k, DecisionPointId dp, const std::string& c, const std::string& ch = "[]") {
    std::string w = k; if (w == "new" || w == "resume" || w == "fail" || w == "undo") pending = true; if (w == "ok" || w == "drop" || w == "del" || w == "exhausted") pending = false;
    long key = dp.isNoId() ? 0 : cast_int(dp->getKey()); if (!ids.count(key)) { int n = ids.size() + 1; ids[key] = n; }
    Obj o; o.str_("k", k).int_("id", dp.isNoId() ? 0 : ids[key]).str_("e", dp.isNoId() ? "" : ekey(dp->getFlawedEntityKey())).str_("c", c).add("ch", ch).bool_("inc", ce->provenInconsistent());
    ev.add(o.str()); ++nev;
  }
  void notifyCreated(DecisionPointId dp) {
    discover(); Arr a; EntityId e = Entity::getEntity(dp->getFlawedEntityKey());
    bool t = TokenId::convertable(e) && !TokenId(e)->isInactive(); thr[cast_int(dp->getKey())] = t; choices(e, t, a); add("new", dp, t ? "thr" : "", a.str());
  }
  void notifyDeleted(DecisionPointId dp) { add("del", dp, ""); }
  void notifyUndone(DecisionPointId dp) { add("undo", dp, ""); }
  void notifyStepSucceeded(DecisionPointId dp) { discover(); add("ok", dp, chosen(dp)); }
  void notifyStepFailed(DecisionPointId dp) { discover(); add("fail", dp, chosen(dp)); }
  void notifyRetractSucceeded(DecisionPointId dp) { add("resume", dp, ""); }
  void notifyRetractNotDone(DecisionPointId dp) { add("drop", dp, ""); }
  void notifyCompleted() { add("completed", DecisionPointId::noId(), ""); }
  void notifyExhausted() { add("exhausted", DecisionPointId::noId(), ""); }
  void notifyTimedOut() { add("timeout", DecisionPointId::noId(), ""); }
  // ---- what a solver could have to decide ----
  Arr classes(const std::string& c) { Arr a; std::vector<std::string> l = db->getSchema()->getAllObjectTypes(c); for (size_t i = 0; i < l.size(); ++i) a.add(q(l[i])); return a; }
  void where(Obj& o, TokenId k) {
    if (k.isNoId()) { o.str_("pred", "").add("cls", "[]").str_("mrel", "").add("mcls", "[]").str_("mpred", ""); return; }
    o.str_("pred", k->getUnqualifiedPredicateName()).add("cls", classes(k->getBaseObjectType()).str());
    if (k->master().isNoId()) o.str_("mrel", "none").add("mcls", "[]").str_("mpred", "");
    else o.str_("mrel", k->getRelation()).add("mcls", classes(k->master()->getBaseObjectType()).str()).str_("mpred", k->master()->getUnqualifiedPredicateName());
  }
  static bool fixed(TokenId k) { return k->isAssigned(); }
  void look(Obj& o) {
    discover(); Arr vs, ts; const ConstrainedVariableSet& all = ce->getVariables();
    for (ConstrainedVariableSet::const_iterator i = all.begin(); i != all.end(); ++i) {
      ConstrainedVariableId v = *i; if (!v->canBeSpecified() || v->isSpecified()) continue;
      EntityId p = v->parent(); TokenId k; bool par = false, loc = false;
      if (p.isId() && TokenId::convertable(p)) { k = TokenId(p); par = true; }
      else if (p.isId() && RuleInstanceId::convertable(p)) { k = RuleInstanceId(p)->getToken(); loc = true; }
      if (par && !k->isActive()) continue;
      const Domain& d = v->lastDomain(); Obj x;
      x.str_("n", ename(v)).str_("var", v->getName());
      where(x, k);
      if (p.isId() && ObjectId::convertable(p)) x.add("cls", classes(ObjectId(p)->getType()).str());
      x.bool_("fin", d.areBoundsFinite()).bool_("sing", d.isSingleton()).bool_("open", d.isOpen()).bool_("inf", d.isInfinite()).bool_("par", par).bool_("loc", loc).str_("tok", tn(k)).bool_("asg", k.isNoId() || fixed(k));
      vs.add(x.str());
    }
    Obj tv; const TokenSet& tk = db->getTokens(); const std::map<eint, std::pair<TokenId, ObjectSet> >& to = db->getTokensToOrder();
    for (TokenSet::const_iterator i = tk.begin(); i != tk.end(); ++i) {
      TokenId k = *i; Obj x; x.str_("n", tn(k)).bool_("in", k->isInactive() && !k->isIncomplete()).bool_("ord", to.count(k->getKey()) > 0).str_("tok", tn(k)).str_("var", ""); where(x, k);
      x.bool_("masg", k->master().isNoId() || fixed(k->master()));
      if (k->isInactive() || to.count(k->getKey())) ts.add(x.str());
      Obj y, z; const std::vector<ConstrainedVariableId>& l = k->getVariables();
      for (size_t j = 0; j < l.size(); ++j) y.str_(l[j]->getName(), l[j]->lastDomain().isSingleton() ? vname(l[j]->lastDomain(), l[j]->lastDomain().getSingletonValue()) : std::string("-"));
      tv.add(tn(k), z.str_("m", tn(k->master())).add("v", y.str()).str());
    }
    std::vector<std::string> fl; IteratorId it = s->createIterator();
    while (!it->done()) fl.push_back(ename(it->next()));
    delete static_cast<Iterator*>(it);
    o.add("fv", Obj().add("vs", vs.str()).add("ts", ts.str()).add("tv", tv.str()).add("fl", strs(fl)).bool_("more", !s->noMoreFlaws()).str());
  }
  bool decided(EntityId e) { const DecisionStack& d = s->getDecisionStack(); for (size_t i = 0; i < d.size(); ++i) if (d[i]->getFlawedEntityKey() == e->getKey()) return true; return false; }
  // edits that pull the ground from under standing decisions are not made
  void guard(const Toks& t) {
    const std::string& o = t[0];
    // known finding: a token left on a timeline by the departure of the one it was ordered against
    if (o == "cancel") { const ObjectSet& os = db->getObjects(); for (ObjectSet::const_iterator i = os.begin(); i != os.end(); ++i) if (Timeline* tl = dynamic_cast<Timeline*>((Object*) *i)) if (tl->getTokenSequence().size() > 1) throw Skip(); }
    // freeing a variable whose base domain gives its value: any later relaxation asserts the value again
    if (o == "reset" && t[1] != "-") { ConstrainedVariableId v = V(t[1], t[2]); if (v.isId() && v->baseDomain().isClosed() && v->baseDomain().isSingleton()) throw Skip(); }
    if (!s || (s->getDecisionStack().empty() && !pending)) return;
    if (o == "spec" || o == "reset" || o == "restr") { ConstrainedVariableId v = V(t[1], t[2]); if (slaveOf.count(t[1]) || decided(v) || pending || t[2] == "object") throw Skip(); return; }
    // a constraint between two merged tokens' variables counts differently when it is there before the merging
    if (o == "con") { int n = 0; for (size_t i = 3; i + 1 < t.size(); i += 2) if (t[i] != "-" && tok.count(t[i]) && T(t[i])->isMerged()) ++n; if (n > 1) throw Skip(); }
    if (o == "con") { for (size_t i = 3; i + 1 < t.size(); i += 2) if (t[i] != "-" && (slaveOf.count(t[i]) || !tok.count(t[i]) || t[i + 1] == "object")) throw Skip(); return; }
    if (o == "var" || o == "tok" || o == "delcon" || o == "prop" || o == "obs") return;
    if (o == "meta" || o == "nddl") return;
    throw Skip();
  }
  void op(const Toks& t, Obj& e) {
    const std::string& o = t[0]; ev = Arr(); nev = 0;
    try {
      if (o == "solver") {
        std::string x; for (size_t i = 1; i < t.size(); ++i) x += (i > 1 ? " " : "") + t[i];
        if (s) throw Skip();
        ce->propagate();
        TiXmlDocument d; d.Parse(x.c_str()); if (d.Error() || !d.RootElement()) throw std::runtime_error("script: xml");
        s = new Solver(db->getId(), *d.RootElement()); s->addListener(SearchListener::getId()); pending = false;
        s->getContext()->put("horizonStart", 0); s->getContext()->put("horizonEnd", 1000);
      }
      else if (o == "step") { if (!s || s->isExhausted()) throw Skip(); if (ce->propagate()) look(e); s->step(); }
      else if (o == "solve") { if (!s || s->isExhausted()) throw Skip(); unsigned a = (unsigned) atol(t[1].c_str()), b = (unsigned) atol(t[2].c_str());
        if (t[1] == "-") a = std::numeric_limits<unsigned>::max(); if (t[2] == "-") b = std::numeric_limits<unsigned>::max();
        e.bool_("ret", s->solve(a, b)); }
      else if (o == "sreset") { if (!s) throw Skip(); if (t.size() > 1) { unsigned long n = atol(t[1].c_str()); if (n > s->getDepth()) throw Skip(); s->reset(n); } else s->reset(); }
      else if (o == "backjump") { if (!s || s->isExhausted()) throw Skip(); unsigned long n = atol(t[1].c_str()); if (n < 1 || n > s->getDepth()) throw Skip(); e.bool_("ret", s->backjump(n)); }
      else if (o == "sclear") { if (!s) throw Skip(); s->clear(); }
      else if (o == "look") { if (!s || !ce->propagate()) throw Skip(); look(e); }
      else if (o == "cancelseq") { Toks u = t; u[0] = "cancel"; PlanSession::op(u, e); return; }
      else { guard(t); PlanSession::op(t, e); return; }
    } catch (Skip&) { e.bool_("skip", true); return; }
    if (s && o != "look") {
      if (o == "sreset" || o == "sclear") pending = false;
      e.add("ev", ev.str());
    }
  }
  static bool distance(ConstrainedVariableId v) {      // of a temporal distance: the network tightens it only when it looks at the constraint again
    ConstraintSet c; v->constraints(c); for (ConstraintSet::iterator i = c.begin(); i != c.end(); ++i) if ((*i)->getScope().size() == 3 && (*i)->getName() == "temporalDistance" && (*i)->getScope()[1] == v) return true;
    return false;
  }
  std::string sig() {      // the whole state of the database, as a text
    std::ostringstream o; const TokenSet& tk = db->getTokens(); std::map<std::string, std::string> m;
    for (TokenSet::const_iterator i = tk.begin(); i != tk.end(); ++i) {
      TokenId k = *i; std::ostringstream x; x << (k->isActive() ? "A" : k->isMerged() ? "M" : k->isRejected() ? "R" : "I") << tn(k->getActiveToken()) << "/" << tn(k->master());
      const std::vector<ConstrainedVariableId>& l = k->getVariables();      // variables of a merged token take no part
      for (size_t j = 0; j < l.size() && !k->isMerged(); ++j) x << " " << l[j]->getName() << dom(l[j]->lastDomain()) << l[j]->isSpecified();
      m[tn(k)] = x.str();
    }
    const ConstrainedVariableSet& g = db->getGlobalVariables();
    for (ConstrainedVariableSet::const_iterator i = g.begin(); i != g.end(); ++i) m["-" + (*i)->getName()] = (distance(*i) && !(*i)->isSpecified() ? std::string("d") : dom((*i)->lastDomain())) + ((*i)->isSpecified() ? "s" : "");
    const ObjectSet& os = db->getObjects();
    for (ObjectSet::const_iterator i = os.begin(); i != os.end(); ++i) {
      std::ostringstream x; std::set<std::string> a; for (TokenSet::const_iterator j = (*i)->tokens().begin(); j != (*i)->tokens().end(); ++j) a.insert(tn(*j));
      for (std::set<std::string>::iterator j = a.begin(); j != a.end(); ++j) x << *j << ",";
      if (Timeline* tl = dynamic_cast<Timeline*>((Object*) *i)) { x << ";"; for (std::list<TokenId>::const_iterator j = tl->getTokenSequence().begin(); j != tl->getTokenSequence().end(); ++j) x << tn(*j) << ","; }
      m["@" + (*i)->getName()] = x.str();
    }
    for (std::map<std::string, std::string>::iterator i = m.begin(); i != m.end(); ++i) o << i->first << "=" << i->second << "|";
    const std::map<eint, std::pair<TokenId, ObjectSet> >& to = db->getTokensToOrder(); std::set<std::string> ns;
    for (std::map<eint, std::pair<TokenId, ObjectSet> >::const_iterator i = to.begin(); i != to.end(); ++i) ns.insert(tn(i->second.first));
    for (std::set<std::string>::iterator i = ns.begin(); i != ns.end(); ++i) o << "o:" << *i << "|";
    o << ce->getVariables().size() << "," << ce->getConstraints().size();
    return o.str();
  }
  static std::string hash(const std::string& s) { unsigned long h = 1469598103934665603UL; for (size_t i = 0; i < s.size(); ++i) { h ^= (unsigned char) s[i]; h *= 1099511628211UL; } std::ostringstream o; o << std::hex << h; return o.str(); }
  void observe(const Toks& t, Obj& e) {
    const std::string& o = t[0];
    if (!s || o == "meta" || o == "nddl" || o == "begin") return;
    bool ok = ce->propagate(); discover();
    Arr st; const DecisionStack& d = s->getDecisionStack();
    for (size_t i = 0; i < d.size(); ++i) { Arr x; long key = cast_int(d[i]->getKey()); x.add(num(ids.count(key) ? ids[key] : 0)).add(q(ekey(d[i]->getFlawedEntityKey()))).add(q(chosen(d[i]))); st.add(x.str()); }
    bool ex = false; std::string er; try { ex = s->isExhausted(); } catch (Error& x) { er = x.getMsg(); }
    e.bool_("con", ok).int_("dep", (long) s->getDepth()).int_("cnt", (long) s->getStepCount()).bool_("exh", ex).str_("xerr", er).bool_("tmo", s->isTimedOut()).add("st", st.str());
    std::string g = ok ? sig() : ""; e.str_("pj", ok ? hash(g) : "");
    if (getenv("VT_SIG")) e.str_("sig", g);
    Obj gv; const ConstrainedVariableSet& gs = db->getGlobalVariables();
    for (ConstrainedVariableSet::const_iterator i = gs.begin(); i != gs.end(); ++i) gv.str_((*i)->getName(), (*i)->isSpecified() ? vname((*i)->baseDomain(), (*i)->getSpecifiedValue()) : std::string("-"));
    e.add("gv", gv.str());
    if (o == "solve" && ok) look(e);
  }
};
Session* mk(const Toks& a) { return new Sol(a); } Register r("sol", mk);
}
}
