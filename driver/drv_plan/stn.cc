// Session "stn": the temporal network on its own.
// tp n | con id a b lb ub | del id | narrow id lb ub | deltp n (after its constraints) | prop | obs | reset
// dist a b | near a b | many a b.. | signs a b.. | lt a b k | le a b k | maybe a b k | ring a | ref n|- | nogood
#include "common.hh"
#include "Error.hh"
#include "TemporalNetworkDefs.hh"
#include "TemporalNetwork.hh"
using namespace EUROPA;
namespace vt {
namespace {
const long INF = 1000000;
long out(Time t) { return t >= POS_INFINITY ? INF : t <= NEG_INFINITY ? -INF : (long) t; }
Time in(const std::string& s) { return s == "inf" ? POS_INFINITY : s == "-inf" ? NEG_INFINITY : (Time) atol(s.c_str()); }
class Stn : public Session {
  TemporalNetwork* n;
  std::map<std::string, Timepoint*> tp;
  std::map<std::string, TemporalConstraint*> tc;
public:
  Stn(const Toks&) : n(new TemporalNetwork()) { tp["o"] = &n->getOrigin(); }
  ~Stn() { delete n; }
  std::string name(const Dnode* p) { for (std::map<std::string, Timepoint*>::iterator i = tp.begin(); i != tp.end(); ++i) if ((const Dnode*) i->second == p) return i->first; return "?"; }
  Timepoint& P(const std::string& s) { if (!tp.count(s)) throw std::runtime_error("script: no timepoint " + s); return *tp[s]; }
  void op(const Toks& t, Obj& ev) {
    const std::string& o = t[0];
    if (o == "tp") tp[t[1]] = &n->addTimepoint();
    else if (o == "con") { TemporalConstraint* c = n->addTemporalConstraint(P(t[2]), P(t[3]), in(t[4]), in(t[5])); if (!c) throw std::runtime_error("no constraint"); tc[t[1]] = c; }
    else if (o == "del") { TemporalConstraint* c = tc[t[1]]; tc.erase(t[1]); n->removeTemporalConstraint(*c); }
    else if (o == "narrow") n->narrowTemporalConstraint(*tc[t[1]], in(t[2]), in(t[3]));
    else if (o == "deltp") { Timepoint& p = P(t[1]); tp.erase(t[1]); n->deleteTimepoint(p); }
    else if (o == "prop") ev.bool_("ret", n->propagate());
    else if (o == "obs") { }
    else if (o == "reset") n->resetUpdatedTimepoints();
    else if (o == "ref") n->setReferenceTimepoint(t[1] == "-" ? NULL : &P(t[1]));
    else if (o == "nogood") {
      std::list<Dedge*> l = n->getEdgeNogoodList(); Arr a;
      for (std::list<Dedge*>::iterator i = l.begin(); i != l.end(); ++i) { Obj e; e.str_("f", name(&(*i)->from)).str_("t", name(&(*i)->to)).int_("w", (*i)->length); a.add(e.str()); }
      ev.add("cyc", a.str());
    } else {                         // the remaining queries require a consistent network
      if (!n->propagate()) { ev.bool_("skip", true); return; }
      if (o == "dist" || o == "near") { Time lb, ub; n->calcDistanceBounds(P(t[1]), P(t[2]), lb, ub, o == "dist"); ev.int_("lb", out(lb)).int_("ub", out(ub)); }
      else if (o == "many" || o == "signs") {
        std::vector<Timepoint*> v; for (size_t i = 2; i < t.size(); ++i) v.push_back(&P(t[i]));
        std::vector<Time> lbs, ubs;
        if (o == "many") n->calcDistanceBounds(P(t[1]), v, lbs, ubs); else n->calcDistanceSigns(P(t[1]), v, lbs, ubs);
        Arr a, b; for (size_t i = 0; i < lbs.size(); ++i) { a.add(num(out(lbs[i]))); b.add(num(out(ubs[i]))); }
        ev.add("lbs", a.str()).add("ubs", b.str());
      }
      else if (o == "lt") ev.bool_("ret", n->isDistanceLessThan(P(t[1]), P(t[2]), in(t[3])));
      else if (o == "le") ev.bool_("ret", n->isDistanceLessThanOrEqual(P(t[1]), P(t[2]), in(t[3])));
      else if (o == "maybe") ev.bool_("ret", n->isDistancePossiblyLessThan(P(t[1]), P(t[2]), in(t[3])));
      else if (o == "edge0") ev.bool_("ret", n->hasEdgeToOrigin(P(t[1])));
      else throw std::runtime_error("script: bad op " + o);
    }
  }
  void observe(const Toks& t, Obj& ev) {
    // the state is read only where the script asks for it: reading propagates
    if (t[0] == "obs") {
      ev.bool_("con", n->propagate());
      Obj lo, hi, rf;
      for (std::map<std::string, Timepoint*>::iterator i = tp.begin(); i != tp.end(); ++i) {
        Time lb, ub; n->getTimepointBounds(*i->second, lb, ub);
        lo.int_(i->first, out(lb)); hi.int_(i->first, out(ub));
        rf.int_(i->first, n->getReferenceTimepoint() ? out(i->second->getReftime()) : 0);
      }
      ev.add("lo", lo.str()).add("hi", hi.str()).add("rf", rf.str());
      Arr u; const std::set<Timepoint*>& s = n->getUpdatedTimepoints();
      for (std::set<Timepoint*>::const_iterator i = s.begin(); i != s.end(); ++i) u.add(q(name(*i)));
      ev.add("up", u.str());
    }
  }
};
Session* mk(const Toks& a) { return new Stn(a); }
Register r("stn", mk);
}
}
