// I01: two CAS instances: every interleaving of two histories gives each the content it has alone
#include "ix.hpp"
#include "uima/sofastream.hpp"
#include "uima/xmiwriter.hpp"
#include "uima/xmideserializer.hpp"
#include "uima/internal_casserializer.hpp"
#include "uima/internal_casdeserializer.hpp"
#include "uima/internal_casimpl.hpp"
#include "uima/listfs.hpp"
#include <map>
static std::string types(bool other) {
  std::string A = typeXML("i.A", "uima.tcas.Annotation", {{"k", "uima.cas.Integer"}, {"s", "uima.cas.String"}, {"r", "uima.cas.TOP"}});
  std::string T = typeXML("i.T", "uima.cas.TOP", {{"l", "uima.cas.Long"}, {"s", "uima.cas.String"}, {"d", "uima.cas.Double"}, {"r", "uima.cas.TOP"}, {"e", "i.E"}});
  std::string T2 = typeXML("i.T", "i.Base", {{"r", "uima.cas.TOP"}, {"e", "i.E"}, {"d", "uima.cas.Double"}, {"s", "uima.cas.String"}, {"l", "uima.cas.Long"}});
  std::string A2 = typeXML("i.A", "i.Mid", {{"r", "uima.cas.TOP"}, {"s", "uima.cas.String"}, {"k", "uima.cas.Integer"}});
  std::string E = enumXML("i.E", {"x", "y"}), E2 = enumXML("i.E", {"y", "x", "z"});
  return other ? typeXML("a.First", "uima.cas.TOP", {{"p", "uima.cas.Float"}, {"l", "uima.cas.Byte"}}) + E2 + typeXML("i.Base", "uima.cas.TOP", {{"more", "uima.cas.Short"}}) + typeXML("i.Mid", "uima.tcas.Annotation", {{"m", "uima.cas.String"}}) + T2 + A2 : A + E + T;
}
static std::vector<IxDef> ixdefs(bool other) { return other ? std::vector<IxDef>{{"bag", "i.Base", "bag", {}}, {"ixT", "i.T", "sorted", {{"l", true}}}} : std::vector<IxDef>{{"ixT", "i.T", "sorted", {{"l", false}, {"s", false}}}, {"set", "i.T", "set", {{"l", false}}}}; }
static IxWorld* WD[3]; // two definitions with equal content, one with other content
void mc_init() { uhInit(); WD[0] = new IxWorld(types(false), ixdefs(false)); WD[1] = new IxWorld(types(false), ixdefs(false)); WD[2] = new IxWorld(types(true), ixdefs(true)); }

struct Actor {
  IxWorld* w; CAS* base = nullptr; CAS* v = nullptr; std::vector<FeatureStructure> own; std::vector<int> indexed; ANIterator it; bool open = false; std::string doc; std::unique_ptr<SofaDataStream> st; int n = 0; std::string note; int lists = 0; FeatureStructure lst;
  Actor(IxWorld* x) : w(x) { make(); populate(); }
  ~Actor() { drop(); delete base; }
  void make() { CAS* c = w->cas(); base = c->getBaseCas(); v = base->getView(U("_InitialView")); }
  void drop() { own.clear(); indexed.clear(); it = ANIterator(); open = false; st.reset(); lst = FeatureStructure(); lists = 0; }
  Type ty(const char* t) { return v->getTypeSystem().getType(U(t)); }
  static Feature f(FeatureStructure const& x, const char* n) { return x.getType().getFeatureByBaseName(U(n)); }
  void ix(int i) { v->getIndexRepository().addFS(own[i]); indexed.push_back(i); }
  void unopen() { it = ANIterator(); open = false; }
  void newT() { FeatureStructure x = v->createFS(ty("i.T")); ++n; x.setLongValue(f(x, "l"), 1000000007LL * n); x.setStringValue(f(x, "s"), U(mc::fmt("str%d", n))); x.setDoubleValue(f(x, "d"), n / 3.0); x.setStringValue(f(x, "e"), U(n % 2 ? "x" : "y")); own.push_back(x); ix((int)own.size() - 1); }
  void newA() { ++n; AnnotationFS a = v->createAnnotation(ty("i.A"), n % 5, n % 5 + 2); a.setIntValue(f(a, "k"), -n); a.setStringValue(f(a, "s"), U(mc::fmt("\xC3\xA9%d", n))); own.push_back(a); ix((int)own.size() - 1); unopen(); }
  void populate() { v->setDocumentText(U("the first text")); newT(); newA(); own[1].setFSValue(f(own[1], "r"), own[0]); }
  static const int NOP = 16;
  void op(int o) {
    note.clear();
    switch (o) {
      case 0: newT(); break;
      case 1: newA(); break;
      case 2: if (!own.empty()) { FeatureStructure x = f(own.back(), "s").isValid() ? own.back() : own[0]; if (!f(x, "s").isValid()) break; x.setStringValue(f(x, "s"), U(mc::fmt("changed%d", ++n))); if (f(x, "d").isValid()) x.setDoubleValue(f(x, "d"), 7.5 + n); } break;
      case 3: { unopen(); if (v->getDocumentText().length() == 0) v->setDocumentText(U("again a text")); else { CAS* o2; try { o2 = base->getView(U("v")); note = "has v"; } catch (uima::Exception&) { o2 = base->createView(U("v")); o2->setDocumentText(U("of view v")); AnnotationFS a = o2->createAnnotation(ty("i.A"), 3, 7); o2->getIndexRepository().addFS(a); note = toS(a.getCoveredText()); } } break; }
      case 4: if (!indexed.empty()) { unopen(); v->getIndexRepository().removeFS(own[indexed[0]]); indexed.erase(indexed.begin()); } break;
      case 5: { IntArrayFS a = v->createIntArrayFS(12000); a.set(11999, n); LongArrayFS l = v->createLongArrayFS(12000); l.set(0, n); ByteArrayFS b = v->createByteArrayFS(12000); b.set(5, 'b'); ShortArrayFS s = v->createShortArrayFS(12000); s.set(5, 77); own.push_back(a); own.push_back(l); own.push_back(b); own.push_back(s); for (int i = 0; i < 300; ++i) { FeatureStructure x = v->createFS(ty("i.T")); x.setStringValue(f(x, "s"), U(std::string(100, 'q'))); } break; }
      case 6: if (!own.empty()) { FeatureStructure x = own[0].clone(); own.push_back(x); if (f(x, "r").isValid()) x.setFSValue(f(x, "r"), own[0]); } break;
      case 7: drop(); base->reset(); break;
      case 8: drop(); delete base; make(); break;
      case 9: if (!open) { it = v->getAnnotationIndex().iterator(); open = true; } else it.moveToNext(); break;
      case 10: { XmiWriter wr(*base, false); std::ostringstream os; wr.write(os); doc = os.str(); note = doc; break; }
      case 11: if (!doc.empty()) { drop(); base->reset(); std::string d = doc; xercesc::MemBufInputSource src((XMLByte const*)d.data(), d.size(), "mem"); XmiDeserializer::deserialize(src, *base); } break;
      case 12: { internal::CASSerializer ser(false); size_t sz = ser.getBlobSize(*base); std::vector<char> b(sz + 8); sz = ser.getBlob(*base, b.data(), b.size()); note = mc::fmt("%zu bytes", sz); drop(); base->reset(); internal::CASDeserializer de; de.deserializeBlob(b.data(), *base); break; }
      case 13: { ANIndex ai = v->getAnnotationIndex(ty("i.A")); ANIterator x = ai.iterator(); if (x.isValid()) { ANIterator s = ai.subIterator(AnnotationFS(x.get()), enAmbiguous); int c = 0; for (; s.isValid(); s.moveToNext()) ++c; note = mc::fmt("%d below", c); } Type t = ty("i.E"); std::vector<Feature> fs; ty("i.T").getAppropriateFeatures(fs); note += mc::fmt(" %zu features", fs.size()); for (auto& q : fs) note += " " + toS(q.getName()); if (!own.empty() && f(own[0], "e").isValid()) { bool bad = throwsUima([&]{ own[0].setStringValue(f(own[0], "e"), U("z")); }); note += bad ? " z refused" : " z set"; } break; }
      case 14: { if (!lst.isValid()) { lst = v->createIntListFS(); lists = 0; } IntListFS l(lst); l.addLast(++n); ++lists; break; }
      case 15: if (!st) { try { st.reset(v->getSofaDataStream()); } catch (uima::Exception&) {} if (st) st->open(); note = st ? "stream" : "no stream"; } else { char b[3] = {0}; int r = st->read(b, 1, 2); note = mc::fmt("%d %s", r, b); } break;
    }
  }
  std::string fs(FeatureStructure const& x) {
    std::string t = toS(x.getType().getName()); std::string s = t;
    if (t == "uima.cas.IntegerArray") { IntArrayFS a(x); return s + mc::fmt("%zu %d", a.size(), a.get(a.size() - 1)); } if (t == "uima.cas.LongArray") { LongArrayFS a(x); return s + mc::fmt("%zu %lld", a.size(), (long long)a.get(0)); } if (t == "uima.cas.ByteArray") { ByteArrayFS a(x); return s + mc::fmt("%zu %d", a.size(), a.get(5)); } if (t == "uima.cas.ShortArray") { ShortArrayFS a(x); return s + mc::fmt("%zu %d", a.size(), a.get(5)); }
    s += " " + toS(x.getStringValue(f(x, "s"))); if (f(x, "l").isValid()) s += mc::fmt(" %lld %g %s", (long long)x.getLongValue(f(x, "l")), x.getDoubleValue(f(x, "d")), toS(x.getStringValue(f(x, "e"))).c_str());
    if (f(x, "k").isValid()) { AnnotationFS a(x); s += mc::fmt(" %d [%zu,%zu]", x.getIntValue(f(x, "k")), a.getBeginPosition(), a.getEndPosition()); FeatureStructure so = x.getFSValue(f(x, "sofa")); if (so.isValid() && toS(a.getView()->getDocumentText()).size() > 6) s += toS(a.getCoveredText()); }
    FeatureStructure r = x.getFSValue(f(x, "r")); s += r.isValid() ? mc::fmt(" ->%d", (int)addr(r)) : " ->0"; return s + mc::fmt("@%d; ", (int)addr(x));
  }
  std::string see() {
    std::string s = note + "|"; FSIterator si = base->getSofaIterator(); for (si.moveToFirst(); si.isValid(); si.moveToNext()) { SofaFS q(si.get()); CAS* c = base->getView(q); s += toS(c->getViewName()) + mc::fmt("#%d '", q.getSofaRef()) + toS(c->getDocumentText()) + "' "; for (ANIterator i = c->getAnnotationIndex().iterator(); i.isValid(); i.moveToNext()) { AnnotationFS a = i.get(); s += a.getType() == c->getTypeSystem().getType(U("i.A")) ? fs(a) : mc::fmt("[%zu,%zu] ", a.getBeginPosition(), a.getEndPosition()); } }
    for (FSIterator i = v->getIndexRepository().getIndex(U("ixT")).iterator(); i.isValid(); i.moveToNext()) s += fs(i.get());
    s += "own:"; for (auto& x : own) s += fs(x); s += mc::fmt("open %d ", open); if (open) s += it.isValid() ? fs2(it.get()) : "end"; if (lst.isValid()) { IntListFS l(lst); s += mc::fmt(" list %zu head %d of %d", l.getLength(), l.getLength() ? l.getHead() : 0, lists); }
    if (st) s += mc::fmt(" stream %lld", (long long)st->howManyBytesAvailable()); return s;
  }
  std::string fs2(FeatureStructure const& x) { return mc::fmt("at %d", (int)addr(x)); }
};
static std::map<std::string, std::string> SOLO; // definition and operations -> what is seen
static const std::string& solo(int d, const std::vector<int>& ops) {
  std::string k = mc::fmt("%d:", d == 1 ? 0 : d); for (int o : ops) k += (char)('a' + o); auto i = SOLO.find(k); if (i != SOLO.end()) return i->second;
  Actor a(WD[d]); for (int o : ops) a.op(o); return SOLO[k] = a.see();
}
static void differ(const std::string& want, const std::string& got, const std::string& what) { if (want == got) { ++mc::X().checks; return; } size_t i = 0; while (i < want.size() && i < got.size() && want[i] == got[i]) ++i; i = i > 40 ? i - 40 : 0; mc::fail("%s: '%s', expected '%s'", what.c_str(), got.substr(i, 200).c_str(), want.substr(i, 200).c_str()); }
void mc_body() {
  int cfg = mc::choose(3), d[2] = {0, cfg}; mc::cover(cfg == 0 ? "same type system" : cfg == 1 ? "equal type systems" : "different type systems");
  int N = mc::thorough() ? 4 : 3; std::vector<int> ops[2]; std::vector<std::pair<int, int>> h;
  for (int i = 0; i < N; ++i) { int who = (i == 0 && cfg != 2) ? 0 : mc::choose(2); int o = mc::choose(Actor::NOP); h.push_back({who, o}); mc::step("%c: %d", 'A' + who, o); }
  { std::vector<int> o[2]; for (auto& x : h) { o[x.first].push_back(x.second); solo(d[x.first], o[x.first]); } solo(d[0], {}); solo(d[1], {}); }
  std::unique_ptr<Actor> a[2]; a[0].reset(new Actor(WD[d[0]])); a[1].reset(new Actor(WD[d[1]])); std::string seen[2];
  for (int k = 0; k < 2; ++k) { seen[k] = a[k]->see(); differ(solo(d[k], {}), seen[k], mc::fmt("instance %c at first", 'A' + k)); }
  for (auto& x : h) { int w = x.first; ops[w].push_back(x.second); a[w]->op(x.second);
    std::string s = a[w]->see(); differ(solo(d[w], ops[w]), s, mc::fmt("instance %c after its operation %d", 'A' + w, x.second)); seen[w] = s;
    differ(seen[1 - w], a[1 - w]->see(), mc::fmt("instance %c after operation %d of the other", 'B' - w, x.second)); mc::cover(mc::fmt("op%d", x.second).c_str()); mc::state(seen[0].substr(0, 300) + seen[1].substr(0, 300)); }
  mc::outcome(seen[0] + seen[1]);
  int first = mc::choose(2); a[first].reset(); differ(seen[1 - first], a[1 - first]->see(), "after the other instance is destroyed"); a[1 - first]->op(0); a[1 - first]->op(7); a[1 - first]->see(); mc::cover("destroyed");
}
int main(int c, char** v) { return mc::run(c, v); }
