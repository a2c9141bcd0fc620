// C03: indexes hold exactly the structures added and not removed
#include "ix.hpp"
#include <algorithm>
static IxWorld* W; static std::vector<std::string> tn = {"m.X","m.Y","m.Z","m.W","m.N"};
static int par[] = {-1, 0, 1, 0, -1};
static bool sub(int a, int b) { while (b >= 0) { if (a == b) return true; b = par[b]; } return false; }   // a subsumes b
struct D { const char* id; int type; char kind; };
static std::vector<D> defs = {{"xbag",0,'b'},{"xsort",0,'s'},{"xset",0,'S'},{"ybag",1,'b'},{"xrev",0,'r'}};
static Feature fk; static std::vector<Type> ty;
void mc_init() {
  uhInit();
  std::string s = typeXML("m.X","uima.cas.TOP",{{"k","uima.cas.Integer"},{"s","uima.cas.String"}}) + typeXML("m.Y","m.X") + typeXML("m.Z","m.Y") + typeXML("m.W","m.X") + typeXML("m.N","uima.cas.TOP",{{"k","uima.cas.Integer"}});
  W = new IxWorld(s, {{"xbag","m.X","bag",{}},{"xsort","m.X","sorted",{{"k",false}}},{"xset","m.X","set",{{"k",false}}},{"ybag","m.Y","bag",{}},{"xrev","m.X","sorted",{{"k",true},{"",false}}}});
  for (auto& n : tn) ty.push_back(W->ts->getType(n.c_str()));
  fk = ty[0].getFeatureByBaseName("k");
}
static std::set<std::string> seen;   // contents whose find and type-set queries this process has already compared
struct O { int t, k; FeatureStructure fs; };
struct M {   // reference model + implementation under test
  CAS* cas; std::vector<O> o;
  std::map<std::string, std::vector<int>> ix;   // per index: added objects, in order
  std::vector<int> undef;
  void create(int t, int k) { FeatureStructure f = cas->createFS(ty[t]); if (t != 4) f.setIntValue(fk, k); o.push_back({t, k, f}); }
  void add(int i) {
    mc::step("add %d (%s k=%d)", i, tn[o[i].t].c_str(), o[i].k);
    cas->getIndexRepository().addFS(o[i].fs);
    if (o[i].t == 4) { undef.push_back(i); return; }
    for (auto& d : defs) if (sub(d.type, o[i].t)) {
      auto& v = ix[d.id];
      if (d.kind == 'S') { bool have = false; for (int j : v) if (o[j].t == o[i].t && o[j].k == o[i].k) have = true; if (have) continue; }
      v.push_back(i);
    }
  }
  void remove(int i) {
    mc::step("remove %d", i);
    cas->getIndexRepository().removeFS(o[i].fs);
    auto er = [&](std::vector<int>& v) { auto it = std::find(v.begin(), v.end(), i); if (it != v.end()) v.erase(it); };
    if (o[i].t == 4) { er(undef); return; }
    for (auto& d : defs) if (sub(d.type, o[i].t)) er(ix[d.id]);
  }
  void lowAdd(int i, const char* id) { mc::step("add %d to %s only", i, id); lowIR(cas).add(addr(o[i].fs), U(id)); auto& v = ix[id];
    for (auto& d : defs) if (d.id == std::string(id) && d.kind == 'S') for (int j : v) if (o[j].t == o[i].t && o[j].k == o[i].k) return;
    v.push_back(i); }
  void lowRemove(int i, const char* id) { mc::step("remove %d from %s only", i, id); lowIR(cas).remove(addr(o[i].fs), U(id)); auto& v = ix[id]; auto it = std::find(v.begin(), v.end(), i); if (it != v.end()) v.erase(it); }
  void reset() { mc::step("reset"); cas->reset(); ix.clear(); undef.clear(); auto old = o; o.clear(); for (auto& x : old) create(x.t, x.k); }
  void query(int type, bool full) {
    std::string st;
    for (auto& d : defs) {
      if (!sub(d.type, type)) continue;
      FSIndex x = cas->getIndexRepository().getIndex(U(d.id), ty[type]);
      std::multiset<lowlevel::TyFS> want; for (int i : ix[d.id]) if (sub(type, o[i].t)) want.insert(addr(o[i].fs));
      std::multiset<lowlevel::TyFS> got; size_t n = 0;
      FSIterator it = x.iterator();
      for (; it.isValid(); it.moveToNext()) { got.insert(addr(it.get())); MC_CHECK(++n < 100, "iteration does not end"); }
      MC_CHECK(got == want, "index %s type %s yields %zu structures, expected %zu (or different ones)", d.id, tn[type].c_str(), got.size(), want.size());
      MC_CHECK(x.getSize() == want.size(), "index %s type %s size %zu, expected %zu", d.id, tn[type].c_str(), x.getSize(), want.size());
      st += d.id; for (int i : ix[d.id]) st += mc::fmt(",%d", i);
      // backwards
      std::multiset<lowlevel::TyFS> back; for (it.moveToLast(); it.isValid(); it.moveToPrevious()) { back.insert(addr(it.get())); MC_CHECK(back.size() < 100, "iteration does not end"); }
      MC_CHECK(back == want, "index %s type %s yields %zu structures backwards, expected %zu", d.id, tn[type].c_str(), back.size(), want.size());
      if (!full) continue;
      { std::string key = d.id; key += (char)('0' + type); for (auto& p : o) key += mc::fmt(";%d,%d", p.t, p.k); for (int i : ix[d.id]) key += mc::fmt("/%d", i); if (!seen.insert(key).second) continue; }
      for (auto& p : o) {
        if (!sub(type, p.t)) continue;
        bool exp = false; for (int i : ix[d.id]) if (sub(type, o[i].t)) { if (d.kind == 'b' ? o[i].fs == p.fs : d.kind == 'r' ? (o[i].k == p.k && o[i].t == p.t) : o[i].k == p.k) exp = true; }
        FeatureStructure f = x.find(p.fs);
        MC_CHECK(f.isValid() == exp, "find in %s type %s of %s k=%d: %d, expected %d", d.id, tn[type].c_str(), tn[p.t].c_str(), p.k, f.isValid(), exp);
        if (exp) { MC_CHECK(want.count(addr(f)), "find returned a non-member"); MC_CHECK(d.kind == 'b' ? f == p.fs : f.getIntValue(fk) == p.k, "find returned a structure with another key"); }
      }
      // restricted to sets of types
      for (int mask = 0; mask < 16; ++mask) {
        std::set<Type> s; bool ok = true; std::multiset<lowlevel::TyFS> w2;
        for (int t = 0; t < 4; ++t) if (mask >> t & 1) { s.insert(ty[t]); if (!sub(type, t)) ok = false; }
        for (int i : ix[d.id]) if (mask >> o[i].t & 1) w2.insert(addr(o[i].fs));
        if (!ok) { MC_CHECK(throwsUima([&]{ x.typeSetIterator(s); }), "type set outside the index accepted"); continue; }
        std::multiset<lowlevel::TyFS> g2; for (FSIterator i2 = x.typeSetIterator(s); i2.isValid(); i2.moveToNext()) { g2.insert(addr(i2.get())); MC_CHECK(g2.size() < 100, "iteration does not end"); }
        MC_CHECK(g2 == w2, "type set iterator mask %d on %s type %s yields %zu, expected %zu", mask, d.id, tn[type].c_str(), g2.size(), w2.size());
      }
    }
    mc::state(st); mc::outcome(st);
  }
  void verify(bool full) {
    for (int t = 0; t < 4; ++t) query(t, full);
    for (size_t i = 0; i < o.size(); ++i) {
      bool in = false; for (auto& p : ix) if (std::count(p.second.begin(), p.second.end(), (int)i)) in = true;
      if (o[i].t != 4) MC_CHECK(lowIR(cas).contains(addr(o[i].fs)) == in, "contains(%zu) is %d", i, !in);
    }
    std::vector<lowlevel::TyFS> all; lowIR(cas).getIndexedFSs(all); std::set<lowlevel::TyFS> w; for (auto& p : ix) for (int i : p.second) w.insert(addr(o[i].fs)); for (int i : undef) w.insert(addr(o[i].fs));
    std::vector<lowlevel::TyFS> wv(w.begin(), w.end());
    auto own = all; own.erase(std::remove_if(own.begin(), own.end(), [&](lowlevel::TyFS a) { for (auto& x : o) if (addr(x.fs) == a) return false; return true; }), own.end());
    std::sort(own.begin(), own.end());
    MC_CHECK(own == wv, "list of indexed structures has %zu entries, expected %zu", own.size(), wv.size());
  }
};
// 1: histories
static void history() {
  CasHolder c(W->cas()); M m; m.cas = c.c;
  m.create(0, 1); m.create(0, 1); m.create(1, 1); m.create(3, 2); m.create(2, 0); m.create(4, 0);
  int D = mc::thorough() ? 4 : 3;
  for (int d = 0; d < D; ++d) {
    int op = mc::choose(13); if (op == 12) m.reset(); else if (op < 6) m.add(op); else m.remove(op - 6);
    if (d + 1 < D && mc::flip()) { int t = mc::choose(2); m.query(t, false); }   // an early query makes the composite caches
  }
  m.verify(true); mc::cover("history");
}
// 2: longer histories over a type with equal and different keys, verifying at every step
static void keys() {
  CasHolder c(W->cas()); M m; m.cas = c.c; int t = mc::choose(2) ? 3 : 0;
  m.create(t, 1); m.create(t, 2); m.create(t, 1); m.create(0, 2);
  int D = mc::thorough() ? 6 : 4;
  for (int d = 0; d < D; ++d) { int op = mc::choose(8); if (op < 4) m.add(op); else m.remove(op - 4); m.query(t, false); }
  m.verify(true); mc::cover("keys");
}
// 3: keys that change while indexed: removal takes out exactly that structure
static void mutate() {
  CasHolder c(W->cas()); M m; m.cas = c.c; for (int i = 0; i < 4; ++i) m.create(0, i);
  std::vector<int> perm = {0,1,2,3}; int p = mc::choose(24); for (int i = 0; i < p; ++i) std::next_permutation(perm.begin(), perm.end());
  int n = 1 + mc::choose(4); for (int i = 0; i < n; ++i) m.add(perm[i]);
  int who = perm[mc::choose(n)]; int nk = mc::choose(6) - 1;
  mc::step("change key of %d to %d while it is indexed, remove it", who, nk);
  m.o[who].fs.setIntValue(fk, nk); m.o[who].k = nk;
  m.remove(who);
  m.verify(true); mc::cover("mutate");
  m.add(who); m.verify(true);
}
// 4: single-index operations of the low level interface
static void lowOps() {
  CasHolder c(W->cas()); M m; m.cas = c.c; m.create(0, 1); m.create(1, 1); m.create(0, 1);
  static const char* ids[] = {"xbag","xsort","xset","ybag"};
  int D = mc::thorough() ? 4 : 3;
  for (int d = 0; d < D; ++d) {
    int op = mc::choose(15);
    if (op < 3) m.add(op); else if (op < 6) m.remove(op - 3);
    else if (op < 14) { int k = (op - 6) / 2; int i = k == 3 ? 1 : mc::choose(3); if (op & 1) m.lowRemove(i, ids[k]); else m.lowAdd(i, ids[k]); }
    else m.reset();
    if (d + 1 < D && mc::flip()) m.query(0, false);
  }
  m.verify(true); mc::cover("lowOps");
}
// 5: requests that must be refused
static void refuse() {
  CasHolder c(W->cas()); M m; m.cas = c.c; m.create(0, 1); m.create(4, 1); m.add(0);
  FSIndexRepository& r = c->getIndexRepository(); FeatureStructure none;
  int q = mc::choose(8); mc::step("refused request %d", q);
  switch (q) {
  case 0: MC_CHECK(throwsUima([&]{ r.getIndex(U("nosuch")); }), "unknown index id accepted"); break;
  case 1: MC_CHECK(throwsUima([&]{ r.getIndex(U("nosuch"), ty[0]); }), "unknown index id accepted"); break;
  case 2: MC_CHECK(throwsUima([&]{ r.getIndex(U("xbag"), ty[4]); }), "index over an unrelated type accepted"); break;
  case 3: MC_CHECK(throwsUima([&]{ r.getIndex(U("ybag"), ty[0]); }), "index over a supertype accepted"); break;
  case 4: MC_CHECK(throwsUima([&]{ r.addFS(none); }), "adding no structure accepted"); break;
  case 5: MC_CHECK(throwsUima([&]{ r.removeFS(none); }), "removing no structure accepted"); break;
  case 6: { FSIndex x; MC_CHECK(!x.isValid() && throwsUima([&]{ x.getSize(); }) && throwsUima([&]{ x.iterator(); }), "invalid index accepted"); break; }
  case 7: MC_CHECK(throwsUima([&]{ r.getIndex(U("xbag")).find(none); }), "find of no structure accepted"); break;
  }
  for (auto& d : defs) { MC_CHECK(r.isValidIndexID(U(d.id)), "index %s unknown", d.id); MC_CHECK(r.getTypeForIndex(U(d.id)) == ty[d.type], "type of index %s", d.id);
    for (int t = 0; t < 5; ++t) MC_CHECK(r.isValidIndexID(U(d.id), ty[t]) == sub(d.type, t), "validity of %s for %s", d.id, tn[t].c_str()); }
  MC_CHECK(!r.isValidIndexID(U("nosuch")), "unknown index id valid");
  m.verify(true); mc::cover("refuse");
}
// 6: the document annotation that the library itself keeps indexed
static void docAnnot() {
  CasHolder c(W->cas()); Type ta = W->ts->getType("uima.tcas.Annotation");
  bool docFirst = mc::flip(); int len = mc::choose(3), b = mc::choose(3), e = b + mc::choose(3), op = mc::choose(3);
  AnnotationFS a; auto mk = [&] { a = c->createAnnotation(ta, b, e); c->getIndexRepository().addFS(a); mc::step("annotation %d-%d", b, e); };
  if (!docFirst) mk();
  DocumentFS d = c->getDocumentAnnotation(); mc::step("document text of length %d", len);
  if (docFirst) mk();
  icu::UnicodeString txt; for (int i = 0; i < len; ++i) txt += (UChar)('a' + i);
  c->setDocumentText(UnicodeStringRef(txt.getBuffer(), txt.length()));
  if (op == 1) c->getIndexRepository().removeFS(a);
  if (op == 2) { c->getIndexRepository().removeFS(d); }
  int na = 0, nd = 0; for (ANIterator it = c->getAnnotationIndex().iterator(); it.isValid(); it.moveToNext()) { if (it.get() == a) ++na; else ++nd; MC_CHECK(na + nd < 9, "endless"); }
  MC_CHECK(na == (op == 1 ? 0 : 1), "annotation is %d times in the index", na);
  MC_CHECK(nd == (op == 2 || len == 0 ? 0 : 1), "document annotation is %d times in the index", nd);
  MC_CHECK(c->getAnnotationIndex().getSize() == (size_t)(na + nd), "size");
  mc::cover("docAnnot");
}
void mc_body() { switch (mc::choose(6)) { case 0: history(); break; case 1: keys(); break; case 2: mutate(); break; case 3: lowOps(); break; case 4: refuse(); break; case 5: docAnnot(); break; } }
int main(int c, char** v) { return mc::run(c, v); }
