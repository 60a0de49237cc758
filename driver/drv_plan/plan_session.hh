// The session on a whole engine: constraint engine, plan database, temporal network, rules, solvers, resources, NDDL.
#ifndef VT_PLAN_SESSION_HH
#define VT_PLAN_SESSION_HH
#include "common.hh"
#include "ce_obs.hh"
#include "Engine.hh"
#include "Error.hh"
#include "ModuleConstraintEngine.hh"
#include "ModulePlanDatabase.hh"
#include "ModuleRulesEngine.hh"
#include "ModuleTemporalNetwork.hh"
#include "ModuleSolvers.hh"
#include "ModuleNddl.hh"
#include "NddlInterpreter.hh"
#include "ModuleResource.hh"
#include "ConstraintEngine.hh"
#include "ConstrainedVariable.hh"
#include "Constraint.hh"
#include "PlanDatabase.hh"
#include "DbClient.hh"
#include "Schema.hh"
#include "Object.hh"
#include "Timeline.hh"
#include "Token.hh"
#include "TokenVariable.hh"
#include "TemporalAdvisor.hh"
#include "RulesEngine.hh"
namespace vt {
using namespace EUROPA;
struct PlanEngine : EngineBase {
  PlanEngine() {
    addModule((new ModuleConstraintEngine())->getId());
    addModule((new ModuleConstraintLibrary())->getId());
    addModule((new ModulePlanDatabase())->getId());
    addModule((new ModuleRulesEngine())->getId());
    addModule((new ModuleTemporalNetwork())->getId());
    addModule((new ModuleSolvers())->getId());
    addModule((new ModuleNddl())->getId());
    addModule((new ModuleResource())->getId());
    doStart();
  }
  ~PlanEngine() { doShutdown(); }
};
class PlanSession : public Session {
public:
  struct Skip { };
public:
  PlanEngine* eng;
  ConstraintEngine* ce;
  PlanDatabase* db;
  DbClientId cl;
  std::map<std::string, TokenId> tok;          // by alias
  std::map<long, std::string> alias;           // entity key -> alias, tokens
  std::map<std::string, ConstraintId> con;
  PlanSession(const Toks& a);
  ~PlanSession();
  void run(const Toks& t, Obj& ev);
  void consistent(Obj& ev);
  void unbound(TokenId k, bool itself);
  void seated(TokenId k, const Toks& names);
  std::set<std::string> orphans, slaveOf, alone;
  virtual void op(const Toks& t, Obj& ev);
  virtual void observe(const Toks& t, Obj& ev);
  void discover();                              // gives aliases to tokens the model created
  void forget();                                // drops aliases of tokens that are gone
  TokenId T(const std::string& s);
  ConstrainedVariableId V(const std::string& t, const std::string& v);
  std::string tn(const TokenId& t) { if (t.isNoId()) return ""; long k = cast_int(t->getKey()); return alias.count(k) ? alias[k] : "?"; }
  std::string dom(const Domain& d);
  edouble val(const ConstrainedVariableId& v, const std::string& s);
  Domain* domArg(const ConstrainedVariableId& v, const Toks& t, size_t i);
  void structure(Obj& ev);
  void domains(Obj& ev);
};
}
#endif
