// Session "ent": entities and reference counts, ids, interned strings, the hash priority queue.
#include "common.hh"
#include "Entity.hh"
#include "LabelStr.hh"
#include "HashPriorityQueue.hh"
#include "Error.hh"
using namespace EUROPA;
namespace {
class Ent : public Entity { public: Ent() : m_id(this) {} Id<Ent> getId() const { return m_id; } ~Ent() { m_id.remove(); } private: Id<Ent> m_id; };
class Base { public: virtual ~Base() {} };
class Derived : public Base {};
std::string word(const std::string& s) {   // a:b:c -> character codes
  std::string o, n; for (size_t i = 0; i < s.size(); ++i) if (s[i] == ':') { o += (char) atoi(n.c_str()); n = ""; } else n += s[i];
  return o;
}
std::string codes(const std::string& s) { vt::Arr a; for (size_t i = 0; i < s.size(); ++i) a.add(vt::num((unsigned char) s[i])); return a.str(); }
class EntS : public vt::Session {
  std::map<std::string, Ent*> ents; std::map<std::string, eint> keys; size_t base; long ids;
  std::map<std::string, Id<Base> > hs; std::map<std::string, Base*> objs;
  std::map<std::string, LabelStr> labs; std::map<std::string, edouble> first;
  HashPriorityQueue<int>* hq; std::map<int, int*> items;
public:
  EntS(int n) : hq(new HashPriorityQueue<int>(n)) { std::set<EntityId> s; Entity::getEntities(s); base = s.size(); ids = IdTable::size(); }
  ~EntS() {
    while (hq->extractMin()) {}
    delete hq; for (std::map<int, int*>::iterator i = items.begin(); i != items.end(); ++i) delete i->second;
    for (std::map<std::string, Ent*>::iterator i = ents.begin(); i != ents.end(); ++i) { while (i->second->refCount() > 1) i->second->decRefCount(); delete i->second; }
  }
  void op(const vt::Toks& t, vt::Obj& ev) {
    const std::string& o = t[0]; std::string n = t.size() > 1 ? t[1] : "";
    if (o == "new") { if (keys.count(n)) { ev.bool_("skip", true); return; } ents[n] = new Ent(); keys[n] = ents[n]->getKey(); ev.int_("key", cast_long(keys[n])); }
    else if (o == "inc" || o == "dec" || o == "del" || o == "purge") {
      if (!ents.count(n) || (o == "del" && ents[n]->refCount() > 1)) { ev.bool_("skip", true); return; }
      if (o == "inc") ents[n]->incRefCount();
      else if (o == "dec") ev.bool_("r", ents[n]->decRefCount());
      else { if (o == "purge") Entity::purgeStarted(); bool p = Entity::isPurging(); delete ents[n]; ents.erase(n); if (o == "purge") Entity::purgeEnded(); ev.bool_("p", p).bool_("q", Entity::isPurging()); }
    }
    else if (o == "idnew") { if (objs.count(n) || hs.count(n)) { ev.bool_("skip", true); return; } Base* b = vt::toI(t[2]) ? new Derived() : new Base(); objs[n] = b; hs.insert(std::make_pair(n, Id<Base>(b))); }
    else if (o == "idcopy") { if (!hs.count(n) || hs.count(t[2])) { ev.bool_("skip", true); return; } Id<Base> c(hs[n]); hs[t[2]] = c; }
    else if (o == "idrel") { if (!hs.count(n)) { ev.bool_("skip", true); return; } try { hs[n].release(); ev.bool_("ok", true); } catch (...) { ev.bool_("ok", false); } }
    else if (o == "idrem") { if (!hs.count(n)) { ev.bool_("skip", true); return; } try { Base* b = hs[n].operator->(); hs[n].remove(); ev.bool_("ok", true); delete b; } catch (...) { ev.bool_("ok", false); } }
    else if (o == "idwrap") {   // wrap the address a handle points to a second time
      if (!hs.count(n) || hs[n].isInvalid()) { ev.bool_("skip", true); return; }
      try { Id<Base> again(hs[n].operator->()); ev.bool_("ok", true); } catch (...) { ev.bool_("ok", false); } }
    else if (o == "idcast") { if (!hs.count(n) || hs[n].isInvalid()) { ev.bool_("skip", true); return; }
      ev.bool_("conv", Id<Derived>::convertable(hs[n]));
      try { Id<Derived> d(hs[n]); ev.bool_("ok", d.isValid() && Id<Base>(d) == hs[n]); } catch (...) { ev.bool_("ok", false); } }
    else if (o == "lab") {
      std::string w = word(t[2]); bool was = LabelStr::isString(w); unsigned long s0 = LabelStr::getSize();
      LabelStr l = vt::toI(t[3]) ? LabelStr(w.c_str()) : LabelStr(w);
      if (labs.count(n)) labs.erase(n);
      labs.insert(std::make_pair(n, l));
      bool same = !first.count(w) || first[w] == l.getKey(); first.insert(std::make_pair(w, l.getKey()));
      ev.add("w", codes(w)).add("s", codes(l.toString())).bool_("was", was).bool_("is", LabelStr::isString(w)).int_("grow", (long) (LabelStr::getSize() - s0)).bool_("same", same)
        .bool_("key", LabelStr::isString(l.getKey())).bool_("back", LabelStr(l.getKey()) == l && LabelStr(l.getKey()).toString() == w && std::string(l.c_str()) == w && LabelStr::getKey(w) == l.getKey() && edouble(l) == l.getKey());
    } else if (o == "labcmp") {
      if (!labs.count(n) || !labs.count(t[2])) { ev.bool_("skip", true); return; }
      const LabelStr& a = labs[n]; const LabelStr& b = labs[t[2]];
      ev.add("x", codes(a.toString())).add("y", codes(b.toString())).bool_("lt", a < b).bool_("gt", a > b).bool_("eq", a == b).bool_("ne", a != b).bool_("ke", a.getKey() == b.getKey()).bool_("has", a.contains(b));
    } else if (o == "labsplit") {
      if (!labs.count(n)) { ev.bool_("skip", true); return; }
      const LabelStr& a = labs[n]; std::string d = word(t[2]); unsigned long k = a.countElements(d.c_str()); vt::Arr r;
      for (unsigned long i = 0; i < k; ++i) r.add(codes(a.getElement(i, d.c_str()).toString()));
      ev.add("x", codes(a.toString())).add("d", codes(d)).int_("k", k).add("r", r.str());
    } else if (o == "ins") { int i = vt::toI(n); if (items.count(i)) { ev.bool_("skip", true); return; } items[i] = new int(i); hq->insert(items[i], atol(t[2].c_str())); ev.int_("i", i).int_("k", atol(t[2].c_str())); }
    else if (o == "ext") { int* r = hq->extractMin(); ev.int_("r", r ? *r : -1); }
    else if (o == "reset") { hq->reset(); }
  }
  void observe(const vt::Toks& t, vt::Obj& ev) {
    const std::string& o = t[0];
    if (o == "new" || o == "inc" || o == "dec" || o == "del" || o == "purge") {
      std::set<EntityId> all; Entity::getEntities(all); vt::Obj a;
      for (std::map<std::string, eint>::iterator i = keys.begin(); i != keys.end(); ++i) {
        vt::Obj e; EntityId r = Entity::getEntity(i->second); bool live = ents.count(i->first);
        e.bool_("found", r.isId()).int_("key", cast_long(i->second));
        if (live) { Ent* p = ents[i->first]; e.bool_("me", r == p->getId() && Entity::getTypedEntity<Ent>(i->second) == p->getId()).bool_("in", all.count(p->getId()) > 0).int_("ref", p->refCount()).bool_("can", p->canBeDeleted()).bool_("k", p->getKey() == i->second); }
        else e.bool_("me", false).bool_("in", false).int_("ref", 0).bool_("can", true).bool_("k", true);
        a.add(i->first, e.str());
      }
      ev.add("ents", a.str()).int_("total", (long) (all.size() - base));
    }
    if (o.substr(0, 2) == "id") {
      vt::Obj a; for (std::map<std::string, Id<Base> >::iterator i = hs.begin(); i != hs.end(); ++i) {
        vt::Obj e; vt::Arr q; for (std::map<std::string, Id<Base> >::iterator j = hs.begin(); j != hs.end(); ++j) if (i->second == j->second) q.add(vt::q(j->first));
        e.bool_("valid", i->second.isValid()).bool_("no", i->second.isNoId()).bool_("inv", i->second.isInvalid()).bool_("id", i->second.isId()).add("eq", q.str()); a.add(i->first, e.str()); }
      ev.add("hs", a.str()).int_("table", (long) IdTable::size() - ids);
    }
  }
};
vt::Session* mk(const vt::Toks& t) { return new EntS(t.size() > 1 ? vt::toI(t[1]) : 10); }
vt::Register reg("ent", mk);
}
