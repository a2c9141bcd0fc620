// C09: views and sofas: identity, subject data, isolation of the indexes
#include "uh.hpp"
#include "uima/internal_fspromoter.hpp"
#include "uima/lowlevel_indexrepository.hpp"
#include <algorithm>
static TypeSystem* TS; static Type TA, TT; static Feature FK;
void mc_init() { uhInit(); TS = makeTS(tsXML(typeXML("m.A", "uima.tcas.Annotation", {{"k", "uima.cas.Integer"}, {"r", "uima.cas.TOP"}}) + typeXML("m.T", "uima.cas.TOP"))); TA = TS->getType("m.A"); TT = TS->getType("m.T"); FK = TA.getFeatureByBaseName("k"); }
static const char* INIT = "_InitialView";
static const std::vector<std::string> NAMES = {"A", "B", INIT, ""};
struct MV { std::string name; bool sofa = false; std::string mime; bool mimeSet = false; int kind = 0; std::string data; FeatureStructure arr; CAS* cas = nullptr; std::vector<FeatureStructure> idx; };
struct World {
  CAS* base; std::vector<MV> v; int k = 0; std::vector<std::pair<UChar*, int>> owned;
  World() { ErrorInfo e; CAS* c = Framework::createCAS(*TS, e); base = c->getBaseCas(); MV m; m.name = INIT; m.cas = c; v.push_back(m); }
  ~World() { delete base; for (auto& b : owned) delete[] b.first; }
  MV* find(const std::string& n) { for (auto& x : v) if (x.name == n && (x.sofa || n == INIT)) return &x; return nullptr; }
};
static SofaID sid(const std::string& n) { SofaID s; s.setSofaId(U(n)); return s; }
static std::multiset<int> addrs(FSIterator it) { std::multiset<int> s; for (it.moveToFirst(); it.isValid(); it.moveToNext()) { s.insert((int)internal::FSPromoter::demoteFS(it.get())); MC_CHECK(s.size() < 50, "endless iteration"); } return s; }
static void verify(World& w) {
  std::string st; std::set<int> nums; size_t ns = 0;
  for (auto& m : w.v) {
    st += mc::fmt("%s.%d.%d.%s.%s.%zu ", m.name.c_str(), m.sofa, m.kind, m.data.c_str(), m.mime.c_str(), m.idx.size());
    CAS* c = m.cas; const char* n = m.name.c_str();
    if (!c) { MC_CHECK(m.sofa, "harness"); continue; }
    MC_CHECK(c->isView() && c->getBaseCas() == w.base && !w.base->isView() && w.base->getBaseCas() == w.base, "view '%s' and its base", n);
    SofaFS s = c->getSofa(); MC_CHECK(s.isValid() == m.sofa, "view '%s' has %s sofa", n, m.sofa ? "no" : "a");
    MC_CHECK(c->getSofaNum() > 0 && nums.insert(c->getSofaNum()).second, "view '%s': sofa number %d is taken", n, c->getSofaNum());
    if (m.sofa) {
      MC_CHECK(toS(s.getSofaID()) == m.name && toS(c->getViewName()) == m.name, "view '%s' is named '%s'", n, toS(s.getSofaID()).c_str());
      MC_CHECK(s.getSofaRef() == c->getSofaNum(), "view '%s': sofa number %d of number %d", n, s.getSofaRef(), c->getSofaNum());
      MC_CHECK(w.base->getView(s) == c && w.v[0].cas->getView(s) == c, "view '%s' by its sofa", n);
      MC_CHECK(toS(s.getSofaMime()) == m.mime, "view '%s': mime type '%s', expected '%s'", n, toS(s.getSofaMime()).c_str(), m.mime.c_str());
      MC_CHECK(w.base->getSofa(sid(m.name)) == s && c->getSofa(sid(m.name)) == s, "sofa by name '%s'", n);
    }
    // subject data
    MC_CHECK(toS(c->getDocumentText()) == (m.kind == 1 ? m.data : ""), "view '%s': text '%s'", n, toS(c->getDocumentText()).c_str());
    if (m.sofa) {
      MC_CHECK(toS(s.getLocalStringData()) == (m.kind == 1 ? m.data : "") && (s.getLocalStringData().getBuffer() != nullptr) == (m.kind == 1), "view '%s': sofa string", n);
      FeatureStructure a = c->getSofaDataArray(); MC_CHECK(m.kind == 2 ? a.isValid() && internal::FSPromoter::demoteFS(a) == internal::FSPromoter::demoteFS(m.arr) && a == s.getLocalFSData() : !a.isValid(), "view '%s': sofa array", n);
      if (m.kind == 2) { IntArrayFS ia(a); MC_CHECK(ia.size() == 2 && ia.get(0) == 11 && ia.get(1) == -7, "view '%s': sofa array content", n); }
      MC_CHECK(toS(c->getSofaDataURI()) == (m.kind == 3 ? m.data : ""), "view '%s': uri '%s'", n, toS(c->getSofaDataURI()).c_str());
      if (m.kind == 1 || m.kind == 2 || m.kind == 0) { std::unique_ptr<SofaDataStream> ds(m.kind == 1 && m.data.empty() ? nullptr : c->getSofaDataStream()); if (m.kind == 0) MC_CHECK(!ds, "view '%s': a stream without data", n); else if (!m.data.empty() || m.kind == 2) MC_CHECK(ds != nullptr, "view '%s': no stream", n); }
    }
    // indexes
    std::multiset<int> want, wantA; for (auto& f : m.idx) { int a = internal::FSPromoter::demoteFS(f); want.insert(a); if (TA.subsumes(f.getType())) wantA.insert(a); }
    std::multiset<int> got = addrs(c->getAnnotationIndex(TA).iterator()); MC_CHECK(got == wantA, "view '%s': %zu annotations, expected %zu", n, got.size(), wantA.size());
    std::multiset<int> all = addrs(c->getAnnotationIndex().iterator()); MC_CHECK(all.size() == wantA.size() + (m.kind == 1 && !m.data.empty()), "view '%s': %zu annotations of any type, expected %zu", n, all.size(), wantA.size() + (m.kind == 1 && !m.data.empty()));
    std::vector<lowlevel::TyFS> ix; c->getLowlevelIndexRepository().getIndexedFSs(ix); size_t doc = m.kind == 1 && !m.data.empty(); std::multiset<int> g2(ix.begin(), ix.end()); for (int a : want) MC_CHECK(g2.count(a) == 1, "view '%s' misses a structure", n); MC_CHECK(g2.size() == std::set<int>(want.begin(), want.end()).size() + doc, "view '%s' has %zu indexed structures", n, g2.size());
    if (doc) { ANIterator di = c->getAnnotationIndex(TS->getType(U("uima.tcas.DocumentAnnotation"))).iterator(); MC_CHECK(di.isValid(), "view '%s': document annotation not indexed", n); AnnotationFS d = di.get(); MC_CHECK(d == c->getDocumentAnnotation() && d.getBeginPosition() == 0 && (int)d.getEndPosition() == U(m.data).length() && d.getView() == c && toS(d.getCoveredText()) == m.data, "view '%s': document annotation", n); }
    for (auto& f : m.idx) if (TA.subsumes(f.getType()) && m.sofa) { AnnotationFS a(f); FeatureStructure so = f.getFSValue(TA.getFeatureByBaseName("sofa")); if (so.isValid()) { MV* o = nullptr; for (auto& x : w.v) if (x.cas && x.sofa && internal::FSPromoter::demoteFS(x.cas->getSofa()) == internal::FSPromoter::demoteFS(so)) o = &x; MC_CHECK(o && a.getView() == o->cas, "view of an annotation in '%s'", n); } }
  }
  for (auto& m : w.v) if (m.sofa) ++ns;
  // by name, from everywhere
  for (auto& n : NAMES) { MV* m = w.find(n); std::vector<CAS*> from = {w.base}; for (auto& x : w.v) if (x.cas) from.push_back(x.cas);
    for (CAS* f : from) { if (m) { CAS* g = f->getView(U(n)); if (!m->cas) { m->cas = g; MC_CHECK(g && g->isView(), "view"); for (auto& o : w.v) MC_CHECK(&o == m || o.cas != g, "views '%s' and '%s' are the same", o.name.c_str(), n.c_str()); } MC_CHECK(g == m->cas, "view '%s' by name", n.c_str()); } else MC_CHECK(throwsUima([&]{ f->getView(U(n)); }), "the absent view '%s' is found", n.c_str());
      SofaFS s = f->getSofa(sid(n)); MC_CHECK(s.isValid() == (m && m->sofa), "sofa '%s' exists: %d", n.c_str(), s.isValid()); } }
  FSIterator si = w.base->getSofaIterator(); std::multiset<std::string> sn, wn; std::set<int> sr; for (si.moveToFirst(); si.isValid(); si.moveToNext()) { SofaFS s(si.get()); sn.insert(toS(s.getSofaID())); MC_CHECK(sr.insert(s.getSofaRef()).second, "two sofas have number %d", s.getSofaRef()); } for (auto& m : w.v) if (m.sofa) wn.insert(m.name);
  MC_CHECK(sn == wn, "%zu sofas are listed, expected %zu", sn.size(), ns); MC_CHECK(throwsUima([&]{ w.base->getView(SofaFS(FeatureStructure())); }), "view of an invalid sofa");
  MC_CHECK(throwsUima([&]{ w.base->getIndexRepository(); }) && throwsUima([&]{ w.base->setDocumentText(U("z")); }) && throwsUima([&]{ w.base->setSofaDataURI(U("z"), U("z")); }) && throwsUima([&]{ w.base->setSofaDataString(U("z"), U("z")); }) && throwsUima([&]{ w.base->getSofaDataStream(); }), "the base CAS is used as a view");
  mc::state(st); mc::outcome(st);
}
static void born(MV& m, const std::string& mime) { if (!m.sofa) { m.sofa = true; m.mime = mime; } }
static void doCreate(World& w, const std::string& n) { mc::step("createView '%s'", n.c_str()); CAS* c = nullptr; bool refused = n == INIT || w.find(n); if (refused) { MC_CHECK(throwsUima([&]{ w.base->createView(U(n)); }), "view '%s' is created twice", n.c_str()); mc::cover("dup view"); return; } c = w.base->createView(U(n)); MC_CHECK(c, "createView"); for (auto& o : w.v) MC_CHECK(o.cas != c, "the new view '%s' is the view '%s'", n.c_str(), o.name.c_str()); MV m; m.name = n; m.sofa = true; m.cas = c; w.v.push_back(m); mc::cover("create"); }
static void doSofa(World& w, const std::string& n) { mc::step("createSofa '%s'", n.c_str()); MV* o = w.find(n); if (o && o->sofa) { MC_CHECK(throwsUima([&]{ w.v[0].cas->createSofa(sid(n), "q"); }), "sofa '%s' is created twice", n.c_str()); mc::cover("dup sofa"); return; } SofaFS s = w.v[0].cas->createSofa(sid(n), "q"); MC_CHECK(s.isValid(), "createSofa"); if (o) born(*o, "q"); else { MV m; m.name = n; m.sofa = true; m.mime = "q"; w.v.push_back(m); } mc::cover("sofa"); }
enum { TEXT, TEXT_EMPTY, STRING, ARRAY, URI, OLD_COPY, OLD_OWN, SOFA_TEXT, SOFA_URI, SOFA_ARRAY, NDATA };
static void doData(World& w, MV& m, int how) {
  static const char* nm[] = {"setDocumentText", "setDocumentText empty", "setSofaDataString", "setSofaDataArray", "setSofaDataURI", "old setDocumentText, copied", "old setDocumentText, not copied", "sofa text", "sofa uri", "sofa array"}; CAS* c = m.cas; mc::step("%s on '%s'", nm[how], m.name.c_str());
  if (how >= SOFA_TEXT && !m.sofa) return;
  bool refused = m.kind != 0; std::string t = mc::fmt("t\xc3\xa9%d", ++w.k); FeatureStructure arr; if (how == ARRAY || how == SOFA_ARRAY) { IntArrayFS a = c->createIntArrayFS(2); a.set(0, 11); a.set(1, -7); arr = a; }
  icu::UnicodeString u = U(t), mi = U("m/" + t); auto f = [&]{ switch (how) { case TEXT: c->setDocumentText(u); break; case TEXT_EMPTY: c->setDocumentText(icu::UnicodeString("")); break; case STRING: c->setSofaDataString(u, mi); break; case ARRAY: c->setSofaDataArray(arr, mi); break; case URI: c->setSofaDataURI(u, mi); break;
      case OLD_COPY: { UChar* b = new UChar[u.length()]; u.extract(0, u.length(), b); w.owned.push_back({b, u.length()}); c->setDocumentText(b, u.length(), true); b[0] = 'X'; break; }
      case OLD_OWN: { UChar* b = new UChar[1]; b[0] = 0; w.owned.push_back({b, 0}); c->setDocumentText(b, 0, false); break; } case SOFA_TEXT: c->getSofa().setLocalSofaData(u); break; case SOFA_URI: c->getSofa().setRemoteSofaURI(u); break; case SOFA_ARRAY: c->getSofa().setLocalSofaData(arr); break; } };
  if (refused) { MC_CHECK(throwsUima(f), "%s: the subject data of '%s' is set twice", nm[how], m.name.c_str()); mc::cover("set twice"); return; }
  f(); switch (how) { case TEXT: case OLD_COPY: born(m, "text"); m.kind = 1; m.data = t; break; case TEXT_EMPTY: case OLD_OWN: born(m, "text"); m.kind = 1; m.data = ""; break; case STRING: born(m, ""); m.mime = "m/" + t; m.kind = 1; m.data = t; break; case ARRAY: born(m, ""); m.mime = "m/" + t; m.kind = 2; m.arr = arr; break; case URI: born(m, ""); m.mime = "m/" + t; m.kind = 3; m.data = t; break; case SOFA_TEXT: m.kind = 1; m.data = t; break; case SOFA_URI: m.kind = 3; m.data = t; break; case SOFA_ARRAY: m.kind = 2; m.arr = arr; break; }
  mc::cover(nm[how]);
}
static void doAdd(World& w, MV& m, MV& from) { mc::step("annotation of '%s' added to '%s'", from.name.c_str(), m.name.c_str()); AnnotationFS a = from.cas->createAnnotation(TA, w.k, w.k + 1); a.setIntValue(FK, ++w.k); MC_CHECK(a.isValid() && (!from.sofa || a.getView() == from.cas), "view of a new annotation of '%s'", from.name.c_str()); m.cas->getIndexRepository().addFS(a); m.idx.push_back(a); mc::cover("add"); }
static void doTop(World& w, MV& m) { mc::step("structure added to '%s'", m.name.c_str()); FeatureStructure f = w.v[0].cas->createFS(TT); m.cas->getIndexRepository().addFS(f); m.idx.push_back(f); mc::cover("add top"); }
static void doBoth(World& w) { if (w.v.size() < 2 || !w.v[1].cas) return; mc::step("structure added to two views"); FeatureStructure f = w.base->createFS(TT); for (int i = 0; i < 2; ++i) { w.v[i].cas->getIndexRepository().addFS(f); w.v[i].idx.push_back(f); } mc::cover("both"); }
static void doRemove(World& w, MV& m) { for (auto& o : w.v) if (!o.idx.empty()) { FeatureStructure f = o.idx.back(); mc::step("structure of '%s' removed from '%s'", o.name.c_str(), m.name.c_str()); m.cas->getIndexRepository().removeFS(f); for (size_t i = 0; i < m.idx.size(); ++i) if (m.idx[i] == f) { m.idx.erase(m.idx.begin() + i); break; } mc::cover("remove"); return; } }
static void doReset(World& w, int from) { mc::step("reset"); (from ? w.v.back().cas ? w.v.back().cas : w.base : w.base)->reset(); CAS* i = w.v[0].cas; w.v.clear(); MV m; m.name = INIT; m.cas = i; w.v.push_back(m); mc::cover("reset"); }
// histories over the whole alphabet
static void history(int n, bool full) {
  World w; verify(w);
  for (int i = 0; i < n; ++i) {
    int nv = 0; for (auto& m : w.v) nv += m.cas != nullptr; std::vector<MV*> vs; for (auto& m : w.v) if (m.cas) vs.push_back(&m);
    int per = full ? NDATA + 3 : 5, fixed = full ? 9 : 5; int c = mc::choose(fixed + per * (int)vs.size());
    if (c < fixed) { if (full) switch (c) { case 0: case 1: case 2: case 3: doCreate(w, NAMES[c]); break; case 4: doSofa(w, "A"); break; case 5: doSofa(w, INIT); break; case 6: doReset(w, 0); break; case 7: doReset(w, 1); break; case 8: doBoth(w); break; }
      else switch (c) { case 0: doCreate(w, "A"); break; case 1: doCreate(w, "B"); break; case 2: doReset(w, 0); break; case 3: doBoth(w); break; case 4: doSofa(w, INIT); break; } }
    else { c -= fixed; MV& m = *vs[c / per]; int o = c % per; if (full) { if (o < NDATA) doData(w, m, o); else if (o == NDATA) doAdd(w, m, m); else if (o == NDATA + 1) doTop(w, m); else doRemove(w, m); }
      else switch (o) { case 0: doData(w, m, TEXT); break; case 1: doData(w, m, ARRAY); break; case 2: doAdd(w, m, m); break; case 3: doAdd(w, m, w.v[0]); break; case 4: doRemove(w, m); break; } }
    verify(w);
  }
}
// references across views
static void cross() {
  World w; doCreate(w, "A"); doCreate(w, "B"); verify(w); std::vector<AnnotationFS> a; for (auto& m : w.v) { m.cas->setDocumentText(U("text of " + m.name)); m.kind = 1; m.data = "text of " + m.name; if (!m.sofa) born(m, "text"); else m.mime = toS(m.cas->getSofa().getSofaMime()); }
  for (auto& m : w.v) { AnnotationFS x = m.cas->createAnnotation(TA, 8, 8 + m.name.size()); a.push_back(x); } int order = mc::choose(6), via = mc::choose(3), addTo = mc::choose(3); std::vector<int> p = {0, 1, 2}; for (int i = 0; i < order; ++i) std::next_permutation(p.begin(), p.end());
  Feature r = TA.getFeatureByBaseName("r"); for (int i = 0; i < 3; ++i) a[i].setFSValue(r, a[p[i]]); for (int i = 0; i < 3; ++i) { w.v[(i + addTo) % 3].cas->getIndexRepository().addFS(a[i]); w.v[(i + addTo) % 3].idx.push_back(a[i]); } verify(w);
  ArrayFS arr = w.v[via].cas->createArrayFS(3); for (int i = 0; i < 3; ++i) arr.set(i, a[p[i]]); mc::step("read through view %d", via);
  for (int i = 0; i < 3; ++i) { AnnotationFS x(arr.get(i)); MC_CHECK(x.getView() == w.v[p[i]].cas && toS(x.getCoveredText()) == w.v[p[i]].name && &x.getCAS() == w.v[p[i]].cas, "an annotation read through another view: '%s'", toS(x.getCoveredText()).c_str()); AnnotationFS y(a[i].getFSValue(r)); MC_CHECK(y.getView() == w.v[p[i]].cas && toS(y.getCoveredText()) == w.v[p[i]].name, "a referenced annotation"); }
  mc::cover("cross"); mc::outcome(mc::fmt("%d.%d.%d", order, via, addTo));
}
void mc_body() { int T = mc::thorough(); switch (mc::choose(3)) { case 0: history(T ? 4 : 3, true); break; case 1: history(T ? 5 : 4, false); break; case 2: cross(); break; } }
int main(int c, char** v) { return mc::run(c, v); }
