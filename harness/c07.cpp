// C07: what a type system says about itself follows from the declarations
#include "tm.hpp"
void mc_init() { uhInit(); }
static const std::vector<std::vector<int>>& perms(int n) { static std::map<int, std::vector<std::vector<int>>> c; auto& r = c[n]; if (r.empty()) { std::vector<int> p; for (int i = 0; i < n; ++i) p.push_back(i); do r.push_back(p); while (std::next_permutation(p.begin(), p.end())); } return r; }
// every feature of every type holds its own value
static void store(TypeSystem* ts, const Model& m) {
  ErrorInfo e; CAS* c = Framework::createCAS(*ts, e); std::vector<std::tuple<FeatureStructure, Feature, int>> w; int k = 1;
  for (auto& t : m) if (t.first.compare(0, 5, "uima.") || t.first == "uima.tcas.Annotation") { if (t.second.parent == "uima.cas.String") continue; FeatureStructure f = c->createFS(ts->getType(U(t.first))); MC_CHECK(f.getType() == ts->getType(U(t.first)), "type of a new structure");
    for (auto& x : feats(m, t.first)) if (x.second.first.range == "uima.cas.Integer") { Feature ft = f.getType().getFeatureByBaseName(U(x.first)); MC_CHECK(f.getIntValue(ft) == 0, "initial value of %s of %s", x.first.c_str(), t.first.c_str()); f.setIntValue(ft, ++k); w.emplace_back(f, ft, k); } }
  for (auto& x : w) MC_CHECK(std::get<0>(x).getIntValue(std::get<1>(x)) == std::get<2>(x), "feature %s of %s reads %d", toS(std::get<1>(x).getName()).c_str(), toS(std::get<0>(x).getType().getName()).c_str(), std::get<0>(x).getIntValue(std::get<1>(x)));
  delete c->getBaseCas();
}
static void run(const Desc& d, bool deep) {
  mc::step("%s", descText(d).c_str()); Model m; std::string why = elaborate(d, m); if (!why.empty()) { mc::fail("harness: %s", why.c_str()); }
  std::unique_ptr<TypeSystem> ts(makeTS(tsXML(descXML(d)))); verifyTS(ts.get(), m, deep); store(ts.get(), m); mc::state(descText(d)); mc::outcome(descText(d));
}
static const char* N[] = {"m.A", "m.B", "m.AB", "n.A", "B"};
// all hierarchies of n types below three roots, all declaration orders
static void forest(int n) {
  static const char* roots[] = {"uima.cas.TOP", "uima.tcas.Annotation", "uima.cas.AnnotationBase"};
  Desc t; for (int i = 0; i < n; ++i) { int p = mc::choose(i + (i == 0 ? 3 : 2)); TD d; d.name = N[i]; d.super = p < i ? N[p] : roots[p - i]; t.push_back(d); }
  // features with equal names on unrelated types, different names on related ones
  int pat = mc::choose(3); for (int i = 0; i < n; ++i) { if (pat == 0) t[i].f = {{mc::fmt("x%d", i), "uima.cas.Integer"}}; if (pat == 1) { t[i].f = {{mc::fmt("y%d", i), "uima.cas.Integer"}, {mc::fmt("r%d", i), N[n - 1 - i], 1 + i % 2}}; }
    if (pat == 2) { bool anc = false; for (int j = 0; j < n && !anc; ++j) if (j != i) { for (std::string s = t[i].super; ; ) { if (s == N[j]) { anc = true; break; } bool f = false; for (auto& q : t) if (q.name == s) { s = q.super; f = true; break; } if (!f) break; } } if (!anc) t[i].f = {{"x", i % 2 ? "uima.cas.String" : "uima.cas.Integer"}, {"i", "uima.cas.Integer"}}; } }
  auto& p = mc::pick(perms(n)); Desc d; for (int i : p) d.push_back(t[i]); run(d, false); mc::cover("forest");
}
// one feature on every range, with every multiplicity flag; features added to predefined types
static void ranges() {
  std::vector<std::string> rs; for (auto& t : builtinModel()) rs.push_back(t.first); rs.push_back("m.E"); rs.push_back("m.A"); rs.push_back("m.Z");
  std::string r = mc::pick(rs); int mu = mc::choose(3); int where = mc::choose(4); static const char* ow[] = {"m.A", "uima.tcas.Annotation", "uima.cas.AnnotationBase", "uima.tcas.DocumentAnnotation"};
  Desc d = {{"m.E", "uima.cas.String", {}, {"p", "q q", ""}}, {"m.A", "uima.tcas.Annotation", {{"own", "uima.cas.Integer"}}}, {"m.Z", "m.A", {{"last", "uima.cas.Integer"}}}};
  if (where == 0) d[1].f.push_back({"v", r, mu}); else d.push_back({ow[where], builtinModel().at(ow[where]).parent, {{"v", r, mu}, {"v2", "uima.cas.Integer"}}}); run(d, true); mc::cover("ranges");
}
static void enums() {
  static const std::vector<std::vector<std::string>> vs = {{"a"}, {"a", "b"}, {"b", "a", "ab"}, {"x y", "", "A"}, {}}; Desc d; int n = 1 + mc::choose(2); for (int i = 0; i < n; ++i) d.push_back({N[i], "uima.cas.String", {}, mc::pick(vs)}); d.push_back({"m.H", "uima.cas.TOP", {{"a", N[0]}, {"b", N[n - 1]}, {"s", "uima.cas.String"}}}); if (mc::flip()) std::rotate(d.begin(), d.end() - 1, d.end()); run(d, true); mc::cover("enums");
}
// invalid objects are refused
static void invalid() {
  Type t; Feature f; std::vector<Type> v; std::vector<Feature> w; std::unique_ptr<TypeSystem> ts(makeTS(tsXML(""))); Type a = ts->getType("uima.tcas.Annotation"); mc::step("invalid objects");
  MC_CHECK(throwsUima([&]{ t.getName(); }) && throwsUima([&]{ t.getAppropriateFeatures(w); }) && throwsUima([&]{ t.getDirectSubTypes(v); }) && throwsUima([&]{ t.getSubTypes(v); }) && throwsUima([&]{ t.getFeatureByBaseName("x"); }) && throwsUima([&]{ t.subsumes(a); }) && throwsUima([&]{ a.subsumes(t); }) && throwsUima([&]{ t.getTypeSystem(); }) && throwsUima([&]{ t.getCreatorID(); }) && throwsUima([&]{ t.isStringSubType(); }), "an invalid type is used");
  MC_CHECK(throwsUima([&]{ f.getName(); }) && throwsUima([&]{ f.getIntroType(t); }) && throwsUima([&]{ f.getRangeType(t); }) && throwsUima([&]{ f.getTypeSystem(); }) && throwsUima([&]{ f.getCreatorID(); }) && throwsUima([&]{ f.isMultipleReferencesAllowed(); }), "an invalid feature is used"); MC_CHECK(!a.isAppropriateFeature(f), "an invalid feature is appropriate");
  // two type systems
  std::unique_ptr<TypeSystem> t2(makeTS(tsXML(""))); MC_CHECK(t2->getType("uima.tcas.Annotation") != a && t2->getTopType() != ts->getTopType(), "types of different type systems are equal"); mc::cover("invalid");
}
static void creators() {
  static const std::vector<std::string> cr = {"me", "", "org.x.Y"}; std::string c = mc::pick(cr); Desc d = {{"m.A", "uima.cas.TOP", {{"x", "uima.cas.Integer"}, {"name", "uima.cas.Integer"}}}, {"m.B", "m.A", {{"y", "uima.cas.String"}}}, {"m.E", "uima.cas.String", {}, {"a"}}}; Model m; elaborate(d, m);
  std::string x = tsXML(descXML(d)); icu::UnicodeString ux = U(x); std::unique_ptr<TypeSystemDescription> td(Framework::createTypeSystemDescription(ux.getBuffer(), ux.length())); ErrorInfo e; mc::step("creator %s", c.c_str()); std::unique_ptr<TypeSystem> ts(Framework::createTypeSystem(*td, U(c), e)); MC_CHECK(ts.get(), "no type system"); verifyTS(ts.get(), m, true, &d, &c); mc::cover("creators");
}
void mc_body() { switch (mc::choose(5)) { case 0: forest(mc::thorough() ? 2 + mc::choose(4) : 2 + mc::choose(3)); break; case 1: ranges(); break; case 2: enums(); break; case 3: invalid(); break; case 4: creators(); break; } }
int main(int c, char** v) { return mc::run(c, v); }
