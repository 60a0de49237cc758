// Session "res [tol]": resources, their profiles and what is detected on them.
// res r rv|ru det prof capLb capUb lo up mip mic mp mc | tok k con|pro|use qlo qhi slo shi [elo ehi dlo dhi]
// obj k r | reso k | act k | cancel k | del k | qb k lo hi | qs k v | qr k | ts k v s|e | tr k s|e | tb k s|e lo hi | con id type k s|e k s|e [lo hi] | delcon id
// lim r t lo hi | cap r t lo hi | obs
#include "plan_session.hh"
#include "Reservoir.hh"
#include "Reusable.hh"
#include "InstantTokens.hh"
#include "DurativeTokens.hh"
#include "Profile.hh"
#include "Instant.hh"
#include "Transaction.hh"
#include "ResourceTokenRelation.hh"
namespace vt {
namespace {
edouble amt(const std::string& s) { if (s == "inf") return PLUS_INFINITY; if (s == "-inf") return MINUS_INFINITY; return edouble(atof(s.c_str())); }
long dbl(edouble d) { double x = cast_double(d); return x >= 1e9 ? 1000000 : x <= -1e9 ? -1000000 : (long) std::floor(x + 0.5); }
class Res : public Session {
  PlanEngine* eng; ConstraintEngine* ce; PlanDatabase* db; DbClientId cl; bool tol;
  std::map<std::string, Resource*> rs; std::map<std::string, TokenId> tk; std::map<std::string, ConstraintId> cs; std::set<std::string> autos;
  struct Skip { };
public:
  Res(const Toks& a) : eng(new PlanEngine()), tol(a.size() > 1 && a[1] == "tol") {
    if (tol) eng->getConfig()->setProperty("ConstraintEngine.allowViolations", "true");
    ce = dynamic_cast<ConstraintEngine*>(eng->getComponent("ConstraintEngine"));
    if (tol) ce->setAllowViolations(true);
    db = dynamic_cast<PlanDatabase*>(eng->getComponent("PlanDatabase"));
    cl = db->getClient();
    ce->setAutoPropagation(false);
  }
  ~Res() { delete eng; }
  TokenId T(const std::string& s) { if (!tk.count(s)) throw Skip(); return tk[s]; }
  ConstrainedVariableId Q(TokenId t) { return t->getVariable("quantity", false); }
  ConstrainedVariableId P(TokenId t, const std::string& s) { return s == "e" ? ConstrainedVariableId(t->end()) : ConstrainedVariableId(t->start()); }
  std::string name(TokenId t) { for (std::map<std::string, TokenId>::iterator i = tk.begin(); i != tk.end(); ++i) if (i->second == t) return i->first; return "?"; }
  void bounds(ConstrainedVariableId v, edouble lo, edouble hi) { Domain* d = v->baseDomain().copy(); d->intersect(lo, hi); bool e = d->isEmpty(); if (!e) v->restrictBaseDomain(*d); delete d; if (e) throw Skip(); }
  void op(const Toks& t, Obj& ev) { try { run(t, ev); } catch (Skip&) { ev.bool_("skip", true); } }
  void run(const Toks& t, Obj& ev) {
    const std::string& o = t[0];
    if (o == "res") {
      edouble a[8]; for (int i = 0; i < 8; ++i) a[i] = amt(t[5 + i]);
      if (t[2] == "rv") rs[t[1]] = new Reservoir(db->getId(), "Reservoir", t[1], t[3], t[4], a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
      else rs[t[1]] = new Reusable(db->getId(), "Reusable", t[1], t[3], t[4], a[0], a[1], a[2], a[5], a[7]);
    }
    else if (o == "close") db->close();
    else if (o == "tok") {
      std::string p = t[2] == "con" ? "Reservoir.consume" : t[2] == "pro" ? "Reservoir.produce" : "Reusable.uses";
      TokenId k;    // those the client makes are active from the start
      if (t.back() == "auto") k = cl->createToken(p.c_str(), t[1].c_str(), false, false);
      else if (t[2] == "use") k = (new ReusableToken(db->getId(), p, false, false, IntervalIntDomain(), IntervalIntDomain(), IntervalIntDomain(1, PLUS_INFINITY), IntervalDomain(0, PLUS_INFINITY), Token::noObject(), true, false))->getId();
      else if (t[2] == "con") k = (new ConsumerToken(db->getId(), p, IntervalIntDomain(), IntervalDomain(0, PLUS_INFINITY), true, false))->getId();
      else k = (new ProducerToken(db->getId(), p, IntervalIntDomain(), IntervalDomain(0, PLUS_INFINITY), true, false))->getId();
      tk[t[1]] = k; if (t.back() == "auto") autos.insert(t[1]);
      bounds(Q(k), amt(t[3]), amt(t[4])); bounds(k->start(), amt(t[5]), amt(t[6]));
      if (t[2] == "use") { bounds(k->end(), amt(t[7]), amt(t[8])); bounds(k->duration(), amt(t[9]), amt(t[10])); }
    }
    else if (o == "obj") { TokenId k = T(t[1]); Resource* r = rs[t[2]]; if (k->getObject()->isSpecified() || !k->getObject()->lastDomain().isMember(r->getKey())) throw Skip(); cl->specify(k->getObject(), r->getKey()); }
    else if (o == "reso") { TokenId k = T(t[1]); if (!k->getObject()->isSpecified()) throw Skip(); cl->reset(k->getObject()); }
    else if (o == "act") { TokenId k = T(t[1]); if (!k->isInactive()) throw Skip(); cl->activate(k); }
    else if (o == "cancel") { TokenId k = T(t[1]); if (!k->isActive() || autos.count(t[1])) throw Skip(); cl->cancel(k); }
    else if (o == "del") {
      TokenId k = T(t[1]); if (!k->isInactive()) throw Skip();
      for (std::map<std::string, ConstraintId>::iterator i = cs.begin(); i != cs.end(); ++i) for (size_t j = 0; j < i->second->getScope().size(); ++j) if (i->second->getScope()[j]->parent() == EntityId(k)) throw Skip();
      tk.erase(t[1]); cl->deleteToken(k);
    }
    else if (o == "qb") { ConstrainedVariableId v = Q(T(t[1])); if (v->isSpecified() || v->lastDomain().isEmpty()) throw Skip(); bounds(v, amt(t[2]), amt(t[3])); }
    else if (o == "qs") { ConstrainedVariableId v = Q(T(t[1])); if (v->isSpecified() || v->lastDomain().isEmpty() || !v->baseDomain().isMember(amt(t[2]))) throw Skip(); cl->specify(v, amt(t[2])); }
    else if (o == "qr") { ConstrainedVariableId v = Q(T(t[1])); if (!v->isSpecified()) throw Skip(); cl->reset(v); }
    else if (o == "ts") { ConstrainedVariableId v = P(T(t[1]), t[3]); if (v->isSpecified() || v->lastDomain().isEmpty() || !v->lastDomain().isMember(amt(t[2]))) throw Skip(); cl->specify(v, amt(t[2])); }
    else if (o == "tr") { ConstrainedVariableId v = P(T(t[1]), t[2]); if (!v->isSpecified()) throw Skip(); cl->reset(v); }
    else if (o == "tb") { ConstrainedVariableId v = P(T(t[1]), t[2]); if (v->isSpecified() || v->lastDomain().isEmpty()) throw Skip(); bounds(v, amt(t[3]), amt(t[4])); }
    else if (o == "con") {
      std::vector<ConstrainedVariableId> s; TokenId a = T(t[3]), b = T(t[5]); if (a == b) throw Skip();
      s.push_back(P(a, t[4]));
      if (t[2] == "temporalDistance") { IntervalIntDomain d(edouble(atof(t[7].c_str())), edouble(atof(t[8].c_str()))); s.push_back(cl->createVariable("int", d, ("d" + t[1]).c_str())); }
      s.push_back(P(b, t[6]));
      cs[t[1]] = cl->createConstraint(t[2].c_str(), s, "");
    }
    else if (o == "qc") { TokenId a = T(t[3]), b = T(t[4]); if (a == b) throw Skip(); std::vector<ConstrainedVariableId> s; s.push_back(Q(a)); s.push_back(Q(b)); cs[t[1]] = cl->createConstraint(t[2].c_str(), s, ""); }
    else if (o == "delqc") { if (!cs.count(t[1])) throw Skip(); ConstraintId c = cs[t[1]]; cs.erase(t[1]); cl->deleteConstraint(c); }
    else if (o == "delcon") { if (!cs.count(t[1])) throw Skip(); ConstraintId c = cs[t[1]]; cs.erase(t[1]); cl->deleteConstraint(c); }
    else if (o == "lim") rs[t[1]]->setLimit(eint(atol(t[2].c_str())), amt(t[3]), amt(t[4]));
    else if (o == "cap") rs[t[1]]->setCapacity(eint(atol(t[2].c_str())), amt(t[3]), amt(t[4]));
    else if (o == "obs") { }
    else throw std::runtime_error("script: bad op " + o);
  }
  void observe(const Toks& t, Obj& ev) {
    if (t[0] != "obs") return;
    bool con = ce->propagate(); ev.bool_("con", con);
    if (!con) return;
    Obj all, wins;
    for (std::map<std::string, TokenId>::iterator i = tk.begin(); i != tk.end(); ++i) {
      TokenId k = i->second; Arr w;
      w.add(num(lowInt(k->start()->lastDomain().getLowerBound()))).add(num(highInt(k->start()->lastDomain().getUpperBound())));
      w.add(num(lowInt(k->end()->lastDomain().getLowerBound()))).add(num(highInt(k->end()->lastDomain().getUpperBound())));
      wins.add(i->first, w.str());
    }
    ev.add("w", wins.str());
    Arr viol;
    for (std::map<std::string, TokenId>::iterator i = tk.begin(); i != tk.end(); ++i) {
      const std::set<ConstraintId> sc = i->second->getStandardConstraints();
      for (std::set<ConstraintId>::const_iterator c = sc.begin(); c != sc.end(); ++c) if ((*c)->getName() == ResourceTokenRelation::CONSTRAINT_NAME() && (*c)->getViolation() > 0) viol.add(q(i->first));
    }
    ev.add("vt", viol.str());
    for (std::map<std::string, Resource*>::iterator i = rs.begin(); i != rs.end(); ++i) {
      Resource* r = i->second; Obj o; ProfileId p = r->getProfile();
      Arr is;
      ProfileIterator it(p);
      while (!it.done()) {
        InstantId x = it.getInstant(); Arr a;
        a.add(num(dbl(x->getLowerLevel()))).add(num(dbl(x->getLowerLevelMax()))).add(num(dbl(x->getUpperLevelMin()))).add(num(dbl(x->getUpperLevel())));
        a.add(num(dbl(x->getMinInstantConsumption()))).add(num(dbl(x->getMaxInstantConsumption()))).add(num(dbl(x->getMinInstantProduction()))).add(num(dbl(x->getMaxInstantProduction())));
        a.add(num(dbl(x->getMinCumulativeConsumption()))).add(num(dbl(x->getMaxCumulativeConsumption()))).add(num(dbl(x->getMinCumulativeProduction()))).add(num(dbl(x->getMaxCumulativeProduction())));
        a.add(num(dbl(x->getMinPrevConsumption()))).add(num(dbl(x->getMaxPrevConsumption()))).add(num(dbl(x->getMinPrevProduction()))).add(num(dbl(x->getMaxPrevProduction())));
        Obj y; y.int_("t", (long) cast_int(x->getTime())).add("v", a.str()).bool_("f", x->isFlawed()).bool_("x", x->isViolated()).bool_("lo", x->hasLowerLevelFlaw()).bool_("up", x->hasUpperLevelFlaw());
        y.int_("lm", dbl(x->getLowerFlawMagnitude())).int_("um", dbl(x->getUpperFlawMagnitude()));
        y.add("tr", trans(x->getTransactions())).add("st", trans(x->getStartingTransactions())).add("en", trans(x->getEndingTransactions()));
        is.add(y.str()); it.next();
      }
      o.add("is", is.str());
      Arr lv; for (long tm = -2; tm <= 14; tm += 2) { IntervalDomain d; p->getLevel(eint(tm), d); Arr e; e.add(num(tm)).add(num(d.isEmpty() ? 1 : dbl(d.getLowerBound()))).add(num(d.isEmpty() ? 0 : dbl(d.getUpperBound()))); lv.add(e.str()); }
      o.add("lv", lv.str());
      std::vector<TokenId> to; r->getTokensToOrder(to); Arr tos; for (size_t k = 0; k < to.size(); ++k) tos.add(q(name(to[k])));
      o.add("to", tos.str()).bool_("hto", r->hasTokensToOrder());
      std::vector<InstantId> fi; r->getFlawedInstants(fi); Arr fis, ch;
      for (size_t k = 0; k < fi.size(); ++k) {
        fis.add(num((long) cast_int(fi[k]->getTime())));
        std::vector<std::pair<TransactionId, TransactionId> > c; r->getOrderingChoices(fi[k], c); Arr ps;
        for (size_t j = 0; j < c.size(); ++j) { Arr e; e.add(q(tr(c[j].first))).add(q(tr(c[j].second))); ps.add(e.str()); }
        Obj e; e.int_("t", (long) cast_int(fi[k]->getTime())).add("ps", ps.str()); ch.add(e.str());
      }
      o.add("fi", fis.str()).add("ch", ch.str());
      all.add(i->first, o.str());
    }
    ev.add("rs", all.str());
  }
  std::string tr(TransactionId x) { TokenId k = x->time()->parent(); return name(k) + (x->time() == ConstrainedVariableId(k->start()) ? ".s" : ".e"); }
  std::string trans(const std::set<TransactionId>& s) { std::set<std::string> n; for (std::set<TransactionId>::const_iterator i = s.begin(); i != s.end(); ++i) n.insert(tr(*i)); return strs(n); }
};
Session* mk(const Toks& a) { return new Res(a); }
Register r("res", mk);
}
}
