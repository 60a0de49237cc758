// Session "plan": tokens, merging, ordering, temporal windows on a whole engine.
// meta <json> | nddl <text> | var g type lo hi | tok id pred [rej] [fact] | act/rejt/cancel/deltok t | mrg t a
// spec/reset/restr t v .. | con id type (t v)* | delcon id | before o p s | free o p s | prop
// compat t limit exact | choices t limit | adv prec|conc|fit.. | newobj type name | delobj name | close [type] | obs
#include "plan_session.hh"
namespace vt {
PlanSession::PlanSession(const Toks&) : eng(new PlanEngine()) {
  ce = dynamic_cast<ConstraintEngine*>(eng->getComponent("ConstraintEngine"));
  db = dynamic_cast<PlanDatabase*>(eng->getComponent("PlanDatabase"));
  cl = db->getClient();
  ce->setAutoPropagation(false);
}
PlanSession::~PlanSession() { delete eng; }
static long far(long v) { return v > 1000000000L ? INF : v < -1000000000L ? -INF : v; }   // distances without a bound are reported as huge numbers
TokenId PlanSession::T(const std::string& s) { if (!tok.count(s)) throw Skip(); return tok[s]; }
ConstrainedVariableId PlanSession::V(const std::string& t, const std::string& v) {
  if (t == "-") return db->getGlobalVariable(v);
  if (t[0] == '@') return db->getObject(t.substr(1))->getVariable(t.substr(1) + "." + v);
  ConstrainedVariableId r = T(t)->getVariable(v, false);
  if (r.isNoId()) throw std::runtime_error("script: no variable " + v);
  return r;
}
static std::string valName(const Domain& d, edouble v) {
  if (d.isEntity()) { EntityId e = Entity::getEntity(v); return e.isNoId() ? "?" : e->getName(); }
  if (d.isSymbolic() || d.isString()) return LabelStr(v).toString();
  std::ostringstream o; o << cast_double(v); return o.str();
}
std::string PlanSession::dom(const Domain& d) {
  Obj o; bool em = d.isEmpty();
  o.bool_("e", d.isEnumerated()).bool_("o", d.isOpen()).bool_("m", em);
  Arr a; long lo = 1, hi = 0;
  if (!em && d.isEnumerated()) { std::list<edouble> l; d.getValues(l); std::set<std::string> s; for (std::list<edouble>::iterator i = l.begin(); i != l.end(); ++i) s.insert(valName(d, *i)); for (std::set<std::string>::iterator i = s.begin(); i != s.end(); ++i) a.add(q(*i)); }
  else if (!em) { lo = lowInt(d.getLowerBound()); hi = highInt(d.getUpperBound()); }
  return o.int_("lo", lo).int_("hi", hi).add("vs", a.str()).str();
}
edouble PlanSession::val(const ConstrainedVariableId& v, const std::string& s) {
  const Domain& d = v->baseDomain();
  if (d.isEntity()) return db->getObject(s)->getKey();
  if (d.isSymbolic() || d.isString()) return LabelStr(s);
  if (s == "inf") return PLUS_INFINITY;
  if (s == "-inf") return MINUS_INFINITY;
  if (s == "true") return 1; if (s == "false") return 0;
  return edouble(atof(s.c_str()));
}
Domain* PlanSession::domArg(const ConstrainedVariableId& v, const Toks& t, size_t i) {
  Domain* d = v->baseDomain().copy();
  if (d->isInterval()) { d->intersect(val(v, t[i]), val(v, t[i + 1])); return d; }
  std::set<edouble> keep; for (; i < t.size(); ++i) keep.insert(val(v, t[i]));
  std::list<edouble> all; d->getValues(all);
  for (std::list<edouble>::iterator k = all.begin(); k != all.end(); ++k) if (!keep.count(*k)) d->remove(*k);
  return d;
}
void PlanSession::consistent(Obj& ev) { if (!ce->propagate()) { ev.str_("why", "inconsistent"); throw Skip(); } ev.str_("why", ""); }
// a token on a timeline is not sent to another object without being freed first
void PlanSession::seated(TokenId k, const Toks& names) {
  if (k->isMerged()) k = k->getActiveToken();
  const ObjectSet& os = db->getObjects();
  for (ObjectSet::const_iterator i = os.begin(); i != os.end(); ++i) if (Timeline* tl = dynamic_cast<Timeline*>((Object*) *i))
    if (tl->hasToken(k) && std::find(names.begin(), names.end(), tl->getName()) == names.end()) throw Skip();
}
void PlanSession::forget() {
  const TokenSet& all = db->getTokens(); std::set<long> ks;
  for (TokenSet::const_iterator i = all.begin(); i != all.end(); ++i) ks.insert(cast_int((*i)->getKey()));
  for (std::map<long, std::string>::iterator i = alias.begin(); i != alias.end();) if (!ks.count(i->first)) { tok.erase(i->second); alias.erase(i++); } else ++i;
}
void PlanSession::discover() {
  forget();
  const TokenSet& all = db->getTokens(); std::map<long, TokenId> by;
  for (TokenSet::const_iterator i = all.begin(); i != all.end(); ++i) by[cast_int((*i)->getKey())] = *i;
  for (std::map<long, TokenId>::iterator i = by.begin(); i != by.end(); ++i) if (!alias.count(i->first)) {
    TokenId t = i->second; std::string n;
    if (t->master().isNoId()) n = t->getName(); else n = tn(t->master()) + "/" + t->getUnqualifiedPredicateName();
    std::string b = n; for (int k = 2; tok.count(n); ++k) { std::ostringstream o; o << b << "#" << k; n = o.str(); }
    alias[i->first] = n; tok[n] = t; if (t->master().isId()) slaveOf.insert(n);
  }
  orphans.clear();
  for (std::map<std::string, TokenId>::iterator i = tok.begin(); i != tok.end(); ++i) if (slaveOf.count(i->first) && i->second->master().isNoId()) orphans.insert(i->first);
}
// the tokens that go away together with k
static void doomed(TokenId k, std::set<TokenId>& out, bool slave) {
  if (slave) {      // a slave others rely on stays, unless those go away themselves
    const TokenSet& m = k->getMergedTokens();
    for (TokenSet::const_iterator i = m.begin(); i != m.end(); ++i) if (!out.count(*i)) return;
    out.insert(k);
  }
  for (int again = 0; again < 2; ++again)
    for (TokenSet::const_iterator i = k->slaves().begin(); i != k->slaves().end(); ++i) doomed(*i, out, true);
}
// a token that is going away must have no constraint of the user's left on its variables
void PlanSession::unbound(TokenId k, bool itself) {
  std::set<TokenId> out;
  if (itself) out.insert(k);
  if (k->isActive()) { doomed(k, out, false); }
  // whoever is left by all those it stands for goes as well, unless it was asked for
  if (k->isMerged()) out.insert(k);
  for (size_t before = 0; before != out.size();) {
    before = out.size();
    const std::set<TokenId> now = out;
    for (std::set<TokenId>::const_iterator i = now.begin(); i != now.end(); ++i) if ((*i)->isMerged() && orphans.count(tn((*i)->getActiveToken()))) {
      TokenId a = (*i)->getActiveToken(); bool all = true; const TokenSet& m = a->getMergedTokens();
      for (TokenSet::const_iterator j = m.begin(); j != m.end(); ++j) all = all && out.count(*j);
      if (all) { out.insert(a); doomed(a, out, false); }
    }
    if (k->isActive()) doomed(k, out, false);
  }
  if (k->isMerged() && !itself) out.erase(k);
  for (std::map<std::string, ConstraintId>::iterator i = con.begin(); i != con.end(); ++i) if (i->second.isValid())
    for (size_t j = 0; j < i->second->getScope().size(); ++j) { EntityId p = i->second->getScope()[j]->parent(); if (p.isId() && TokenId::convertable(p) && out.count(TokenId(p))) throw Skip(); }
}
static bool temporal(const std::string& n) { return n == "temporalDistance" || n == "concurrent" || n == "precedes" || n == "strictlyPrecedes"; }
// would the scope name one variable twice once t is merged onto a?
static bool twice(const std::vector<ConstrainedVariableId>& s, TokenId t, TokenId a) {
  std::set<std::pair<long, int> > seen;
  for (size_t i = 0; i < s.size(); ++i) {
    EntityId p = s[i]->parent(); long k = -cast_int(s[i]->getKey()); int ix = -1;
    if (p.isId() && TokenId::convertable(p)) { TokenId x(p); if (x->isMerged()) x = x->getActiveToken(); if (x == t) x = a; k = cast_int(x->getKey()); ix = s[i]->getIndex(); }
    if (!seen.insert(std::make_pair(k, ix)).second) return true;
  }
  return false;
}
static bool selfTie(TokenId t, TokenId a) {
  const std::vector<ConstrainedVariableId>& vs = t->getVariables();
  for (size_t i = 0; i < vs.size(); ++i) { ConstraintSet cs; vs[i]->constraints(cs);
    for (ConstraintSet::const_iterator c = cs.begin(); c != cs.end(); ++c) if (temporal((*c)->getName()) && twice((*c)->getScope(), t, a)) return true; }
  return false;
}
void PlanSession::op(const Toks& t, Obj& ev) {
  try { run(t, ev); } catch (Skip&) { ev.bool_("skip", true); }
  for (std::set<std::string>::iterator i = alone.begin(); i != alone.end();) {
    size_t k = i->find(' '); std::string n = i->substr(k + 1);
    if (!tok.count(n) || !db->getObject(i->substr(0, k))->hasToken(tok[n])) alone.erase(i++); else ++i;
  }
}
void PlanSession::run(const Toks& t, Obj& ev) {
  const std::string& o = t[0];
  std::string rest; for (size_t i = 1; i < t.size(); ++i) rest += (i > 1 ? " " : "") + t[i];
  if (o == "meta") ev.add("m", rest);
  else if (o == "nddl") {
    try { std::string r = eng->executeScript("nddl", rest, false); if (r.size()) throw std::runtime_error("nddl: " + r); }
    catch (PSLanguageExceptionList& e) { std::ostringstream s; s << e; throw std::runtime_error("nddl: " + s.str()); }
    discover();
  }
  else if (o == "var") cl->createVariable(t[2], IntervalIntDomain(t[3] == "-inf" ? edouble(MINUS_INFINITY) : edouble(atof(t[3].c_str())), t[4] == "inf" ? edouble(PLUS_INFINITY) : edouble(atof(t[4].c_str()))), t[1]);
  else if (o == "tok") {
    bool r = false, f = false; for (size_t i = 3; i < t.size(); ++i) { r = r || t[i] == "rej"; f = f || t[i] == "fact"; }
    TokenId k = cl->createToken(t[2], t[1], r, f); alias[cast_int(k->getKey())] = t[1]; tok[t[1]] = k;
  }
  else if (o == "act") { if (!T(t[1])->isInactive() || T(t[1])->getObject()->lastDomain().isEmpty()) throw Skip(); cl->activate(T(t[1])); discover(); }
  else if (o == "rejt") { TokenId k = T(t[1]); if (!k->isInactive() || k->master().isId() || !k->getState()->lastDomain().isMember(LabelStr("REJECTED"))) throw Skip(); cl->reject(k); }
  else if (o == "mrg" || o == "mrgtied") {   // only a pair offered as compatible
    std::vector<TokenId> c; if (T(t[1])->isInactive()) db->getCompatibleTokens(T(t[1]), c);
    if (std::find(c.begin(), c.end(), T(t[2])) == c.end()) { ev.bool_("skip", true); return; }
    if (o == "mrg" && selfTie(T(t[1]), T(t[2]))) { ev.str_("why", "tied"); throw Skip(); }     // known finding: a temporal constraint between variables that become one
    cl->merge(T(t[1]), T(t[2]));
  }
  else if (o == "cancel") { if (T(t[1])->isInactive()) throw Skip(); unbound(T(t[1]), false); cl->cancel(T(t[1])); discover(); }
  else if (o == "deltok") { TokenId k = T(t[1]); if (!k->isInactive()) throw Skip(); unbound(k, true); cl->deleteToken(k); forget(); }
  else if (o == "spec") {
    ConstrainedVariableId v = V(t[1], t[2]); edouble x = val(v, t[3]);
    if (t[2] == "object") seated(T(t[1]), Toks(1, t[3]));
    if (!v->lastDomain().isMember(x) || v->isSpecified() || !v->isActive()) { ev.bool_("skip", true); return; }
    cl->specify(v, x);
  }
  else if (o == "reset") { ConstrainedVariableId v = V(t[1], t[2]); if (!v->isSpecified()) { ev.bool_("skip", true); return; } cl->reset(v); }
  else if (o == "restr") {
    ConstrainedVariableId v = V(t[1], t[2]); if (t[2] == "object") seated(T(t[1]), Toks(t.begin() + 3, t.end())); Domain* d = domArg(v, t, 3);
    if (!v->isActive() || d->isEmpty() || v->lastDomain().isEmpty() || !d->intersects(v->lastDomain()) || (v->isSpecified() && !d->isMember(v->lastDomain().getSingletonValue()))) ev.bool_("skip", true);
    else cl->restrict(v, *d);
    delete d;
  }
  else if (o == "con") {
    std::vector<ConstrainedVariableId> s; for (size_t i = 3; i + 1 < t.size(); i += 2) s.push_back(V(t[i], t[i + 1]));
    if (temporal(t[2]) && twice(s, TokenId::noId(), TokenId::noId())) throw Skip();
    con[t[1]] = cl->createConstraint(t[2], s);
  }
  else if (o == "delcon") { if (!con.count(t[1]) || con[t[1]].isInvalid()) throw Skip(); ConstraintId c = con[t[1]]; con.erase(t[1]); cl->deleteConstraint(c); }
  else if (o == "before" || o == "free") {
    ObjectId ob = db->getObject(t[1]); TokenId p = T(t[2]), s = T(t[3]);
    if (o == "before") {
      // a position that is offered: the token is active, may be on this object and is not ordered there yet
      std::vector<std::pair<TokenId, TokenId> > r;
      TokenId k = ob->hasToken(p) && p != s ? s : p;
      bool ok = ce->propagate() && k->isActive() && !ob->hasToken(k) && k->getObject()->lastDomain().isMember(ob->getKey());
      if (ok) ob->getOrderingChoices(k, r);
      if (ok && p != s && s == k && ob->hasToken(p)) if (Timeline* tl = dynamic_cast<Timeline*>((Object*) ob)) {   // right after p: where it may go before p's successor
        const std::list<TokenId>& sq = tl->getTokenSequence();
        std::list<TokenId>::const_iterator i = std::find(sq.begin(), sq.end(), p);
        if (i != sq.end() && ++i != sq.end() && std::find(r.begin(), r.end(), std::make_pair(k, *i)) != r.end()) r.push_back(std::make_pair(p, s));
      }
      ok = ok && std::find(r.begin(), r.end(), std::make_pair(p, s)) != r.end();
      if (!ok) { ev.bool_("skip", true); return; }
      cl->constrain(ob, p, s); if (p == s) alone.insert(t[1] + " " + t[2]);
    } else {
      if (!ob->hasToken(p) || !ob->hasToken(s) || (p != s && ob->getPrecedenceConstraint(p, s).isNoId())) { ev.bool_("skip", true); return; }
      if (p == s && !alone.erase(t[1] + " " + t[2])) throw Skip();     // only what was asked for
      cl->free(ob, p, s);
    }
  }
  else if (o == "prop") ev.bool_("ret", cl->propagate());
  else if (o == "compat") {
    std::vector<TokenId> r; TokenId k = T(t[1]);
    if (!k->isInactive()) throw Skip(); consistent(ev);
    db->getCompatibleTokens(k, r, t[2] == "-" ? std::numeric_limits<unsigned int>::max() : (unsigned) atoi(t[2].c_str()), t[3] == "1");
    Arr a; for (size_t i = 0; i < r.size(); ++i) a.add(q(tn(r[i])));
    ev.add("r", a.str()).int_("cnt", db->countCompatibleTokens(k, t[2] == "-" ? std::numeric_limits<unsigned int>::max() : (unsigned) atoi(t[2].c_str()), t[3] == "1"));
    ev.bool_("has", db->hasCompatibleTokens(k));
  }
  else if (o == "choices") {
    TokenId k = T(t[1]);
    consistent(ev); if (!k->isActive() || !db->getTokensToOrder().count(k->getKey())) throw Skip();
    std::vector<OrderingChoice> r; db->getOrderingChoices(k, r, t[2] == "-" ? std::numeric_limits<unsigned int>::max() : (unsigned) atoi(t[2].c_str()));
    Arr a; for (size_t i = 0; i < r.size(); ++i) { Arr x; x.add(q(r[i].first->getName())).add(q(tn(r[i].second.first))).add(q(tn(r[i].second.second))); a.add(x.str()); }
    ev.add("r", a.str()).int_("cnt", db->countOrderingChoices(k)).bool_("has", db->hasOrderingChoice(k));
  }
  else if (o == "adv") {
    consistent(ev);
    for (size_t i = 2; i < t.size(); ++i) if (tok.count(t[i]) && T(t[i])->isMerged()) { ev.bool_("skip", true); return; }
    TemporalAdvisorId ad = db->getTemporalAdvisor();
    if (t[1] == "prec") ev.bool_("ret", ad->canPrecede(T(t[2]), T(t[3])));
    else if (t[1] == "conc") ev.bool_("ret", ad->canBeConcurrent(T(t[2]), T(t[3])));
    else if (t[1] == "fit") ev.bool_("ret", ad->canFitBetween(T(t[2]), T(t[3]), T(t[4])));
    else { IntervalIntDomain d = ad->getTemporalDistanceDomain(V(t[2], t[3]), V(t[4], t[5]), true); ev.int_("lb", far(lowInt(d.getLowerBound()))).int_("ub", far(highInt(d.getUpperBound()))); }
  }
  else if (o == "newobj") cl->createObject(t[1], t[2]);
  else if (o == "delobj") cl->deleteObject(db->getObject(t[1]));
  else if (o == "close") { if (t.size() > 1) db->close(t[1]); else db->close(); }
  else if (o == "obs") { }
  else throw std::runtime_error("script: bad op " + o);
}
void PlanSession::structure(Obj& ev) {
  Obj tk; const TokenSet& all = db->getTokens();
  std::set<long> seen;
  for (TokenSet::const_iterator i = all.begin(); i != all.end(); ++i) {
    TokenId k = *i; Obj x;
    std::string st = k->isIncomplete() ? "incomplete" : k->isActive() ? "active" : k->isMerged() ? "merged" : k->isRejected() ? "rejected" : "inactive";
    int n = k->isActive() + k->isMerged() + k->isRejected() + k->isInactive();
    Arr mg, sl; std::set<std::string> ms, ss;
    for (TokenSet::const_iterator j = k->getMergedTokens().begin(); j != k->getMergedTokens().end(); ++j) ms.insert(tn(*j));
    for (TokenSet::const_iterator j = k->slaves().begin(); j != k->slaves().end(); ++j) ss.insert(tn(*j));
    x.str_("s", n == 1 ? st : "several states").str_("p", k->getPredicateName()).str_("at", tn(k->getActiveToken())).str_("ms", tn(k->master()));
    x.add("mg", strs(ms)).add("sl", strs(ss));
    tk.add(tn(k), x.str());
  }
  ev.add("tk", tk.str());
  Obj ob; const ObjectSet& os = db->getObjects();
  for (ObjectSet::const_iterator i = os.begin(); i != os.end(); ++i) {
    ObjectId b = *i; Obj x; std::set<std::string> ts; Arr sq;
    for (TokenSet::const_iterator j = b->tokens().begin(); j != b->tokens().end(); ++j) ts.insert(tn(*j));
    if (Timeline* tl = dynamic_cast<Timeline*>((Object*) b)) for (std::list<TokenId>::const_iterator j = tl->getTokenSequence().begin(); j != tl->getTokenSequence().end(); ++j) sq.add(q(tn(*j)));
    ob.add(b->getName(), x.str_("ty", b->getType()).add("tk", strs(ts)).add("sq", sq.str()).str());
  }
  ev.add("ob", ob.str());
  Obj ac; std::set<std::string> preds;
  for (TokenSet::const_iterator i = all.begin(); i != all.end(); ++i) preds.insert((*i)->getPredicateName());
  for (std::set<std::string>::iterator p = preds.begin(); p != preds.end(); ++p) {
    const TokenSet& s = db->getActiveTokens(*p); std::set<std::string> ns; for (TokenSet::const_iterator j = s.begin(); j != s.end(); ++j) ns.insert(tn(*j));
    ac.add(*p, strs(ns));
  }
  ev.add("ac", ac.str());
  ev.int_("nv", ce->getVariables().size()).int_("nc", ce->getConstraints().size());
  ev.bool_("inc", ce->provenInconsistent());
}
void PlanSession::domains(Obj& ev) {
  Obj dm; const TokenSet& all = db->getTokens();
  for (TokenSet::const_iterator i = all.begin(); i != all.end(); ++i) {
    Obj x; const std::vector<ConstrainedVariableId>& vs = (*i)->getVariables();
    for (size_t k = 0; k < vs.size(); ++k) x.add(vs[k]->getName(), dom(vs[k]->lastDomain()));
    dm.add(tn(*i), x.str());
  }
  Obj g; const ConstrainedVariableSet& gs = db->getGlobalVariables();
  for (ConstrainedVariableSet::const_iterator i = gs.begin(); i != gs.end(); ++i) g.add((*i)->getName(), dom((*i)->lastDomain()));
  dm.add("-", g.str());
  ev.add("dm", dm.str());
  Obj to; const std::map<eint, std::pair<TokenId, ObjectSet> >& m = db->getTokensToOrder();
  for (std::map<eint, std::pair<TokenId, ObjectSet> >::const_iterator i = m.begin(); i != m.end(); ++i) {
    std::set<std::string> ns; for (ObjectSet::const_iterator j = i->second.second.begin(); j != i->second.second.end(); ++j) ns.insert((*j)->getName());
    to.add(tn(i->second.first), strs(ns));
  }
  ev.add("to", to.str());
  // the distance from the end of each token of a timeline to the start of the next
  Obj gp; const ObjectSet& os = db->getObjects();
  for (ObjectSet::const_iterator i = os.begin(); i != os.end(); ++i) if (Timeline* tl = dynamic_cast<Timeline*>((Object*) *i)) {
    const std::list<TokenId>& sq = tl->getTokenSequence(); Arr a;
    for (std::list<TokenId>::const_iterator x = sq.begin(), y = x; x != sq.end() && ++y != sq.end(); ++x) {
      IntervalIntDomain d = db->getTemporalAdvisor()->getTemporalDistanceDomain((*x)->end(), (*y)->start(), true);
      a.add(Arr().add(num(far(lowInt(d.getLowerBound())))).add(num(far(highInt(d.getUpperBound())))).str());
    }
    gp.add(tl->getName(), a.str());
  }
  ev.add("gp", gp.str());
}
void PlanSession::observe(const Toks& t, Obj& ev) {
  if (t[0] == "obs") { bool ok = ce->propagate(); ev.bool_("con", ok); structure(ev); if (ok) domains(ev); }
  else if (t[0] != "nddl" && t[0] != "meta" && t[0] != "begin" && t[0] != "compat" && t[0] != "choices" && t[0] != "adv") structure(ev);
}
namespace { Session* mk(const Toks& a) { return new PlanSession(a); } Register r("plan", mk); }
}
