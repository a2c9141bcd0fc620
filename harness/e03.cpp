// E03: capabilities and document language decide which delegates run and with which result specification
#include "engx.hpp"
#include "uima/internal_capability_container.hpp"
#include <functional>
static void boom(int id) { throw Exception(ErrorMessage(UIMA_MSG_ID_LOG_ERROR, "planned"), (TyErrorId)id, ErrorInfo::recoverable); }
static std::string tofName(TypeOrFeature const& t) { return toS(t.getName()); }
static std::string showSpec(ResultSpecification const& r) { std::set<std::string> s; for (auto& t : r.getTypeOrFeatureSTLSet()) s.insert((t.isType() ? "" : "f:") + tofName(t)); std::string o; for (auto& x : s) o += x + " "; return o; }
struct H : RecHook {
  std::vector<std::string> lg; std::function<int(const std::string&)> onProcess;
  bool make() { return true; } void made(int) {} void gone(int) {}
  int call(int, const std::string& n, const char* cb, AnnotatorContext*, CAS*, const ResultSpecification* r, const TypeSystem*) {
    if (strcmp(cb, "process")) return 0;
    mc::Callback k; lg.push_back(n + "[" + showSpec(*r) + "]"); return onProcess ? onProcess(n) : 0;
  }
  CAS* next(int, const std::string&, AnnotatorContext*) { return nullptr; }
};
static H hook;
static std::string join(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += x + " "; return s; }
static const char* ITEMS[] = {"t.T1", "t.T2", "t.T1:f"};   // two types and a feature
static std::string types() { return typeXML("t.T1", "uima.tcas.Annotation", {{"f", "uima.cas.Integer"}, {"g", "uima.cas.Integer"}}) + typeXML("t.T2", "uima.tcas.Annotation") + typeXML("t.T3", "t.T1", {{"h", "uima.cas.String"}}); }
static std::string showItem(int i) { return i == 2 ? std::string("f:") + "f" : ITEMS[i]; }
static TypeSystem* TS;
void mc_init() { uhInit(); recHook = &hook; TS = makeTS(tsXML(types())); }
// ---- what a list of capabilities offers for a language
struct MCap { int out, in; std::vector<std::string> langs; };
static bool matches(std::string d, const std::string& l) {
  if (d == "x-unspecified") d = ""; if (d == "") return true; if (l == "") return false; if (d == l) return true;
  return d.substr(0, 2) == l.substr(0, 2) && (d.size() == 2 || l.size() == 2);
}
static int offered(const std::vector<MCap>& caps, const std::string& l, bool in = false) { int m = 0; for (auto& c : caps) for (auto& d : c.langs) if (matches(d, l)) m |= in ? c.in : c.out; return m; }
static TypeOrFeature tof(const TypeSystem& ts, int i) { return i == 2 ? TypeOrFeature(ts.getFeatureByFullName(U(ITEMS[2]))) : TypeOrFeature(ts.getType(U(ITEMS[i]))); }
static std::string showCaps(const std::vector<MCap>& v) { std::string s; for (auto& c : v) { s += mc::fmt("{out %d in %d:", c.out, c.in); for (auto& l : c.langs) s += l + ","; s += "} "; } return s; }
static const std::vector<std::string>& langSet(int m) { static const char* L[] = {"x-unspecified", "en", "en-us", "en-gb", "fr"}; static std::map<int, std::vector<std::string>> c; auto& v = c[m]; if (v.empty()) for (int i = 0; i < 5; ++i) if (m >> i & 1) v.push_back(L[i]); return v; }
// every pair of capabilities, every language asked for
static void container() {
  bool th = mc::thorough(); static std::vector<int> ls; if (ls.empty()) for (int m = 1; m < (th ? 32 : 16); ++m) if (th || __builtin_popcount(m) <= 3) ls.push_back(m);
  int o1 = 1 + mc::choose(7), l1 = mc::pick(ls), o2 = 1 + mc::choose(7), l2 = mc::pick(ls);
  for (int in = 0; in < 4; ++in) {
    std::vector<MCap> m = {{o1, in == 0 ? 0 : in == 1 ? o1 : 4, langSet(l1)}, {o2, in == 0 ? 0 : in == 1 ? o2 : in == 2 ? 3 : 0, langSet(l2)}};
    if (in == 3 && (l1 & l2)) continue;
    std::vector<std::unique_ptr<Capability>> own; std::vector<Capability*> v;
    for (auto& c : m) {
      own.emplace_back(new Capability()); Capability* k = own.back().get(); v.push_back(k);
      for (int i = 0; i < 3; ++i) { if (c.out >> i & 1) { if (i == 2) k->addCapabilityFeature(U(ITEMS[i]), Capability::OUTPUT); else k->addCapabilityType(U(ITEMS[i]), Capability::OUTPUT); } if (c.in >> i & 1) { if (i == 2) k->addCapabilityFeature(U(ITEMS[i]), Capability::INPUT); else k->addCapabilityType(U(ITEMS[i]), Capability::INPUT); } }
      for (auto& l : c.langs) k->addSupportedLanguage(U(l));
    }
    if (in == 0) mc::step("%s", showCaps(m).c_str());
    internal::CapabilityContainer cc; cc.init(v, *TS);
    for (const char* q : {"", "en", "en-us", "en-gb", "en-au", "fr", "fr-ca", "de"}) {
      int want = offered(m, q); Language L(q);
      for (int i = 0; i < 3; ++i) MC_CHECK(cc.hasOutputTypeOrFeature(tof(*TS, i), L) == bool(want >> i & 1), "%s is %s as output for language '%s' with %s", ITEMS[i], want >> i & 1 ? "not offered" : "offered", q, showCaps(m).c_str());
      if (want) { MC_CHECK(!cc.hasEmptyOutputTypeOrFeatures(L), "language '%s' is taken to have no outputs with %s", q, showCaps(m).c_str()); MC_CHECK((int)cc.getOutputTypeOrFeatures(L).size() == __builtin_popcount(want), "%zu outputs for language '%s' with %s", cc.getOutputTypeOrFeatures(L).size(), q, showCaps(m).c_str()); }
      else MC_CHECK(!cc.hasEmptyOutputTypeOrFeatures(L), "undeclared language '%s' is taken for a declaration without outputs with %s", q, showCaps(m).c_str());
      if (in == 0 || in == 1) { int wi = offered(m, q, true); for (int i = 0; i < 3; ++i) MC_CHECK(cc.hasInputTypeOrFeature(tof(*TS, i), L) == bool(wi >> i & 1), "%s is %s as input for language '%s' with %s", ITEMS[i], wi >> i & 1 ? "not expected" : "expected", q, showCaps(m).c_str()); }
      mc::outcome(mc::fmt("%s%d", q, want));
    }
  }
  mc::cover("container");
}
// ---- flows
static std::vector<Cap> toCaps(const std::vector<MCap>& v) { std::vector<Cap> r; for (auto& m : v) { Cap c; c.langs = m.langs; for (int i = 0; i < 3; ++i) { if (m.out >> i & 1) (i == 2 ? c.outFeats : c.outTypes).push_back(ITEMS[i]); if (m.in >> i & 1) (i == 2 ? c.inFeats : c.inTypes).push_back(ITEMS[i]); } r.push_back(c); } return r; }
static const std::vector<std::vector<MCap>>& menu() {
  static std::vector<std::vector<MCap>> v = {
    {{1, 0, {"x-unspecified"}}}, {{5, 0, {"en"}}}, {{2, 1, {"en-us", "fr"}}}, {{1, 0, {"en"}}, {2, 0, {"x-unspecified"}}}, {{0, 1, {"x-unspecified"}}}, {{7, 0, {"en-gb", "x-unspecified"}}},
    {{4, 0, {"fr"}}, {3, 0, {"en-us"}}}, {{2, 0, {"en-us"}}, {1, 0, {"en-gb"}}}, {{3, 4, {"en", "x-unspecified"}}}};
  return v;
}
static ED prim(const std::string& n, const std::vector<MCap>& c) { ED d; d.name = n; d.types = types(); d.caps = toCaps(c); return d; }
static std::string specOf(int m) { std::set<std::string> s; for (int i = 0; i < 3; ++i) if (m >> i & 1) s.insert(showItem(i)); std::string o; for (auto& x : s) o += x + " "; return o; }
static std::string speclog(const std::string& n, int m) { return n + "[" + specOf(m) + "]"; }
struct Node { std::string n; std::vector<MCap> caps; bool agg = false, capFlow = false; std::vector<Node> kids; int fail = 0; };
static ED toED(const Node& n) { ED d = prim(n.n, n.caps); if (n.agg) { d.capFlow = n.capFlow; for (auto& k : n.kids) { d.delegates.push_back({"k" + k.n, toED(k)}); d.flow.push_back("k" + k.n); } } return d; }
static bool dump(const Node& n) { for (auto& c : n.caps) if (c.out) return false; return true; }
// 0 ok, 1 code, 2 exception
static int runNode(const Node& n, int req, const std::string& l, std::vector<std::string>& lg) {
  if (!n.agg) { lg.push_back(speclog(n.n, req)); return n.fail; }
  int rest = req, r = 0;
  for (auto& k : n.kids) {
    int m = dump(k) ? 0 : rest & offered(k.caps, l); if (n.capFlow && !dump(k) && !m) continue;
    int x = runNode(k, m, l, lg); if (x == 2) return 2; if (x) r = 1; else rest &= ~m;
  }
  return r;
}
static int allOut(const Node& n) { int m = 0; for (auto& c : n.caps) m |= c.out; return m; }
static void asks(Eng& g, CAS* c, const Node& root, std::function<int(const std::string&)> f, bool top) {
  Feature lf = c->getTypeSystem().getType(CAS::TYPE_NAME_DOCUMENT_ANNOTATION).getFeatureByBaseName("language");
  for (const char* l : {"", "en", "en-us", "en-gb", "en-au", "fr", "de", "x-unspecified"}) {
    std::string q = !strcmp(l, "x-unspecified") ? "" : l;
    if (*l == 'x') c->getDocumentAnnotation().setStringValue(lf, UnicodeStringRef(U(l))); else { c->getDocumentAnnotation().setLanguage(Language(l)); MC_CHECK(c->getDocumentAnnotation().getLanguage() == Language(l), "the document language '%s' is not kept", l); }
    for (int req = -1; req < 8; ++req) {
      ResultSpecification rs; for (int i = 0; i < 3; ++i) if (req > 0 && (req >> i & 1)) rs.add(tof(c->getTypeSystem(), i));
      int m = req < 0 ? allOut(root) : req; std::vector<std::string> w; hook.lg.clear(); hook.onProcess = f; int e = 0;
      if (top) { if (!(root.capFlow && !dump(root) && !(m & offered(root.caps, q)))) e = runNode(root, m, q, w); } else e = runNode(root, m, q, w);
      int k = 0; try { int id = req < 0 ? g.e->process(*c) : g.e->process(*c, rs); k = id ? 1 : 0; } catch (Exception&) { k = 2; }
      MC_CHECK(hook.lg == w, "document language '%s', request %s: calls %s instead of %s", l, req < 0 ? "everything declared" : showSpec(rs).c_str(), join(hook.lg).c_str(), join(w).c_str());
      MC_CHECK(k == e, "document language '%s', request %d: ends as %d instead of %d", l, req, k, e);
      if (req >= 0) MC_CHECK(showSpec(rs) == specOf(req), "the caller's result specification is changed to %s", showSpec(rs).c_str());
      if (w.empty()) mc::cover("no engine called"); if (w.size() > 1) mc::cover("several engines called"); mc::outcome(join(w));
    }
  }
}
static void flow() {
  auto& M = menu(); bool th = mc::thorough(); int n = th ? 9 : 8;
  Node root; root.n = "root"; root.agg = true; root.capFlow = mc::choose(3) != 0; root.caps = {{7, 0, {"x-unspecified"}}};
  auto add = [&](Node& p, const std::string& nm, int m) { Node k; k.n = nm; k.caps = M[m]; p.kids.push_back(k); };
  int shape = mc::choose(3); add(root, "a", mc::choose(n));
  if (shape == 1) { Node x; x.n = "x"; x.agg = true; x.caps = {{mc::flip() ? 3 : 7, 0, {"en"}}, {2, 0, {"x-unspecified"}}}; x.capFlow = mc::flip(); add(x, "p", mc::choose(n)); add(x, "q", 1 + 2 * mc::choose(2)); root.kids.push_back(x); mc::cover("nested"); }
  else add(root, "b", mc::choose(n));
  if (shape == 2) { add(root, "c", th ? mc::choose(n) : 5); }
  int ff = shape == 1 ? 0 : mc::choose(3); if (ff) { root.kids[0].fail = ff; mc::cover(ff == 1 ? "code" : "exception"); }
  std::string s; for (auto& k : root.kids) s += k.n + ": " + showCaps(k.caps) + (k.fail ? "fails " : ""); mc::step("%s flow %s", root.capFlow ? "capability" : "fixed", s.c_str());
  Eng g(toED(root)); g.create(); MC_CHECK(g.e, "the aggregate is refused: %ld", (long)g.err.getErrorId());
  CAS* c = g.e->newCAS(); std::unique_ptr<CAS> own(c->getBaseCas()); c->setDocumentText(UnicodeStringRef(U("some text")));
  asks(g, c, root, [&](const std::string& nm) { if (nm == "a" && ff == 2) boom(77); return nm == "a" && ff == 1 ? 78 : 0; }, false);
  mc::cover(root.capFlow ? "capability flow" : "fixed flow");
}
// a primitive run on its own is always called unless its flow is a capability flow
static void alone() {
  auto& M = menu(); Node root; root.n = "p"; root.caps = M[mc::choose((int)M.size())]; int k = mc::choose(3); root.capFlow = k == 2; ED d = prim("p", root.caps); if (k) { d.flow = {"p"}; d.capFlow = k == 2; }
  mc::step("primitive %s, flow %d", showCaps(root.caps).c_str(), k); Eng g(d); g.create(); MC_CHECK(g.e, "the engine is refused");
  CAS* c = g.e->newCAS(); std::unique_ptr<CAS> own(c->getBaseCas()); c->setDocumentText(UnicodeStringRef(U("some text"))); asks(g, c, root, nullptr, true); mc::cover("primitive");
}
// histories of a result specification
static void spec() {
  static TypeOrFeature it[] = {TypeOrFeature(TS->getType("t.T1")), TypeOrFeature(TS->getType("t.T3")), TypeOrFeature(TS->getFeatureByFullName("t.T1:f")), TypeOrFeature(TS->getFeatureByFullName("t.T3:h")), TypeOrFeature(TS->getType("uima.tcas.Annotation"))};
  static const char* nm[] = {"T1", "T3", "T1:f", "T3:h", "Annotation"};
  ResultSpecification r; int m = 0; int d = mc::thorough() ? 6 : 4;
  for (int s = 0; s < d; ++s) {
    int op = mc::choose(12); if (op < 5) { r.add(it[op]); m |= 1 << op; mc::step("add %s", nm[op]); } else if (op < 10) { r.remove(it[op - 5]); m &= ~(1 << (op - 5)); mc::step("remove %s", nm[op - 5]); } else if (op == 10) { r.clear(); m = 0; mc::step("clear"); } else { ResultSpecification q = r; r.clear(); MC_CHECK(r.getSize() == 0, "cleared but not empty"); r = q; mc::step("copy"); }
    MC_CHECK((int)r.getSize() == __builtin_popcount(m) && (int)r.getTypeOrFeatureSTLSet().size() == __builtin_popcount(m), "size %zu instead of %d", r.getSize(), __builtin_popcount(m));
    for (int i = 0; i < 5; ++i) {
      bool w = m >> i & 1; MC_CHECK(r.contains(it[i]) == w && r.shouldBeCreatedByAnnotator(it[i]) == w && (r.getTypeOrFeatureSTLSet().count(it[i]) == 1) == w, "%s is %s", nm[i], w ? "missing" : "present");
    }
    mc::state(mc::fmt("%d", m));
  }
  mc::cover("result specification");
}
// allAnnotatorFeatures stands for the features the description gives the type
static void allFeats() {
  int a = mc::choose(3), b = mc::choose(3), c = mc::choose(2), io = mc::choose(2); std::string at[] = {"", " allAnnotatorFeatures=\"true\"", " allAnnotatorFeatures=\"false\""};
  ED d = prim("p", {{7, 0, {"en"}}}); std::string x = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>" + edXML(d, true), caps = "<capabilities>", side = "<type" + at[a] + ">t.T1</type><type" + at[b] + ">t.T3</type>" + (c ? "<feature>t.T1:g</feature>" : "");
  caps += io ? "<capability><inputs/><outputs>" + side + "</outputs>" : "<capability><inputs>" + side + "</inputs><outputs/>"; caps += "<languagesSupported><language>en</language></languagesSupported></capability></capabilities>";
  size_t p = x.find("<capabilities>"), q = x.find("</capabilities>"); x = x.substr(0, p) + caps + x.substr(q + 15); mc::step("%s", caps.c_str());
  AnalysisEngineDescription desc; XMLParser ps; xercesc::MemBufInputSource is((XMLByte const*)x.data(), x.size(), "sys"); ps.parseAnalysisEngineDescription(desc, is); desc.validate(); desc.commit();
  auto& cv = desc.getAnalysisEngineMetaData()->getCapabilites(); MC_CHECK(cv.size() == 1, "%zu capabilities", cv.size());
  std::set<std::string> t, f, wt = {"t.T1", "t.T3"}, wf; for (auto& s : cv[0]->getCapabilityTypes(io ? Capability::OUTPUT : Capability::INPUT)) t.insert(toS(s)); for (auto& s : cv[0]->getCapabilityFeatures(io ? Capability::OUTPUT : Capability::INPUT)) f.insert(toS(s));
  if (a == 1) wf.insert("t.T1:f"), wf.insert("t.T1:g"); if (b == 1) wf.insert("t.T3:h"); if (c) wf.insert("t.T1:g");
  std::string sf; for (auto& s : f) sf += s + " "; MC_CHECK(t == wt && f == wf, "the capability has the features %s", sf.c_str());
  MC_CHECK(cv[0]->getCapabilityTypes(io ? Capability::INPUT : Capability::OUTPUT).empty() && cv[0]->getCapabilityFeatures(io ? Capability::INPUT : Capability::OUTPUT).empty(), "the other side is not empty"); MC_CHECK(cv[0]->getSupportedLanguages().size() == 1, "languages");
  mc::cover("all features");
}
void mc_body() { switch (mc::choose(5)) { case 0: mc::step("== container"); container(); break; case 1: mc::step("== flow"); flow(); break; case 2: mc::step("== alone"); alone(); break; case 3: mc::step("== result specification"); spec(); break; default: mc::step("== all features"); allFeats(); } }
int main(int c, char** v) { return mc::run(c, v); }
