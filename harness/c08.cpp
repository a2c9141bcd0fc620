// C08: declarations become a type system exactly when they are consistent, whatever their order and origin
#include "tm.hpp"
#include "uima/casdefinition.hpp"
#include "uima/taespecifierbuilder.hpp"
#include <sys/stat.h>
void mc_init() { uhInit(); }
static const char* N[] = {"m.A", "m.B", "m.C"};
static std::vector<std::vector<int>> perms(int n) { std::vector<int> p; for (int i = 0; i < n; ++i) p.push_back(i); std::vector<std::vector<int>> r; do r.push_back(p); while (std::next_permutation(p.begin(), p.end())); return r; }
static Desc permute(const Desc& d) { static std::map<size_t, std::vector<std::vector<int>>> c; auto& ps = c[d.size()]; if (ps.empty()) ps = perms((int)d.size()); auto& p = mc::pick(ps); Desc r; for (int i : p) r.push_back(d[i]); return r; }
// the attempt succeeds exactly if the declarations are consistent
static void verdict(const Desc& d, const std::function<TypeSystem*()>& make, bool deep = false) {
  Model m; std::string why = elaborate(d, m); mc::step("%s", descText(d).c_str()); TypeSystem* ts = nullptr; std::string ex;
  try { ts = make(); } catch (uima::Exception& e) { ex = e.getErrorInfo().getMessage().asString(); }
  mc::state(descText(d)); mc::outcome(descText(d));
  if (why.empty()) { MC_CHECK(ts, "valid declarations are refused: %s", ex.c_str()); verifyTS(ts, m, deep); delete ts; mc::cover("accepted"); }
  else { bool made = ts != nullptr; delete ts; MC_CHECK(!made, "invalid declarations are accepted: %s", why.c_str()); mc::cover("refused: " + why); }
}
static std::function<TypeSystem*()> buf(const Desc& d) { return [d] { ErrorInfo e; std::string x = tsXML(descXML(d)); return Framework::createTypeSystemFromXMLBuffer(x.c_str(), e); }; }
static void supers() {
  std::vector<std::string> s = {"m.A", "m.B", "m.C", "uima.cas.TOP", "uima.tcas.Annotation", "uima.cas.String"};
  std::vector<std::string> more = {"m.E", "m.Nope", "uima.cas.AnnotationBase", "uima.tcas.DocumentAnnotation", "uima.cas.ArrayBase", "", "uima.cas.Integer"};
  if (mc::thorough()) s.insert(s.end(), more.begin(), more.end()); else s.push_back("m.E"), s.push_back("m.Nope");
  Desc d; for (int i = 0; i < 3; ++i) d.push_back({N[i], mc::pick(s), {}, {}}); bool e = false; for (auto& t : d) { e |= t.super == "m.E"; if (t.super == "uima.cas.String") t.vals = {"v"}; }
  d = permute(d); if (e) { TD x{"m.E", "uima.cas.String", {}, {"a", "b"}}; if (mc::flip()) d.push_back(x); else d.insert(d.begin(), x); } verdict(d, buf(d)); mc::cover("supers");
}
// every predefined type as a supertype, with and without a feature
static void parents() { std::vector<std::string> s; for (auto& t : builtinModel()) s.push_back(t.first); s.push_back("m.E"); s.push_back("m.A"); s.push_back(""); s.push_back("uima.cas"); s.push_back("Integer");
  Desc d = {{"m.E", "uima.cas.String", {}, {"a"}}, {"m.A", "uima.tcas.Annotation"}, {"m.T", mc::pick(s)}}; if (mc::flip()) { d[2].f.push_back({"x", "uima.cas.Integer"}); } if (mc::flip()) std::rotate(d.begin(), d.begin() + 2, d.end()); verdict(d, buf(d), true); mc::cover("parents"); }
static void features() {
  static const std::vector<std::string> r = {"-", "uima.cas.Integer", "uima.cas.String", "m.A", "m.Nope"}; Desc d = {{"m.A", "uima.cas.TOP"}, {"m.B", "m.A"}, {"m.C", mc::flip() ? "m.B" : "m.A"}};
  for (int i = 0; i < 3; ++i) { std::string s = mc::pick(r); if (s != "-") d[i].f.push_back({"x", s}); } if (mc::flip()) d[1].f.push_back({"z", "m.C"}); d = permute(d); verdict(d, buf(d)); mc::cover("features");
}
// predefined types declared again
static void redeclared() {
  std::vector<std::string> s; for (auto& t : builtinModel()) if (t.first != "uima.cas.Sofa" && t.first.find("List") == std::string::npos && t.first != "uima.cas.TOP") s.push_back(t.first);
  std::string n = mc::pick(s), p = builtinModel().at(n).parent; std::vector<std::string> ps = {p, "uima.cas.TOP", "uima.tcas.Annotation", "uima.cas.String", "m.A", "m.Nope"}; if (p == "uima.cas.TOP") ps.erase(ps.begin() + 1); if (p == "uima.tcas.Annotation") ps.erase(ps.begin() + 2);
  TD t{n, mc::pick(ps)}; if (mc::flip()) { static const std::vector<std::string> fn = {"x", "begin"}; static const std::vector<std::string> fr = {"uima.cas.Integer", "uima.cas.String"}; t.f.push_back({mc::pick(fn), mc::pick(fr)}); }
  if (t.super == "uima.cas.String") t.vals = {"v"}; // allowed values only go with string subtypes
  Desc d = {t, {"m.A", "uima.tcas.Annotation"}}; if (mc::flip()) std::swap(d[0], d[1]); verdict(d, buf(d)); mc::cover("redeclared");
}
// the same type declared twice in one description
static void twice() {
  static const std::vector<std::string> ss = {"uima.cas.TOP", "m.P", "uima.cas.String"}, rs = {"-", "uima.cas.Integer", "uima.cas.String"}; static const std::vector<std::vector<std::string>> vs = {{"a"}, {"b"}, {"a", "b"}, {}};
  auto one = [&] { TD t{"m.A", mc::pick(ss)}; if (t.super == "uima.cas.String") t.vals = mc::pick(vs); else for (auto n : {"x", "y"}) { std::string s = mc::pick(rs); if (s != "-") t.f.push_back({n, s}); } return t; };
  TD a = one(), b = one(); Desc d = {a, {"m.P", "uima.cas.TOP"}, b}; if (mc::flip()) d = {{"m.P", "uima.cas.TOP"}, a, b}; verdict(d, buf(d)); mc::cover("twice");
}
static void samefeature() { // a feature named twice in one declaration
  static const std::vector<std::string> rs = {"uima.cas.Integer", "uima.cas.String"}; Desc d = {{"m.A", "uima.cas.TOP", {{"x", mc::pick(rs)}, {"y", "uima.cas.Integer"}, {mc::flip() ? "x" : "z", mc::pick(rs)}}}}; verdict(d, buf(d)); mc::cover("samefeature");
}
static const std::string& dir() { static std::string d; if (d.empty()) { d = mc::X().scratch + mc::fmt("/p%d", (int)getpid()); mkdir(d.c_str(), 0755); } return d; }
static std::string put(const std::string& name, const std::string& text) { std::string p = dir() + "/" + name; FILE* f = fopen(p.c_str(), "w"); fwrite(text.data(), 1, text.size(), f); fclose(f); return p; }
static std::string xmlWith(const std::string& imports, const Desc& d) { return "<?xml version=\"1.0\" encoding=\"UTF-8\"?><typeSystemDescription xmlns=\"http://uima.apache.org/resourceSpecifier\"><name>t</name>" + (imports.empty() ? std::string() : "<imports>" + imports + "</imports>") + "<types>" + descXML(d) + "</types></typeSystemDescription>"; }
static std::string imp(const std::string& f) { return "<import location=\"" + f + "\"/>"; }
// all ways of handing in the same declarations
static std::function<TypeSystem*()> entry(int k, const std::string& xml) { return [k, xml]() -> TypeSystem* { ErrorInfo e; icu::UnicodeString u = U(xml); switch (k) {
  case 0: return Framework::createTypeSystemFromXMLBuffer(xml.c_str(), e);
  case 1: return Framework::createTypeSystem(u.getBuffer(), u.length(), e);
  case 2: { std::string p = put("ts.xml", xml); return Framework::createTypeSystem(p.c_str(), e); }
  case 3: { std::unique_ptr<TypeSystemDescription> t(Framework::createTypeSystemDescription(u.getBuffer(), u.length())); return Framework::createTypeSystem(*t, U("me"), e); }
  case 4: { std::string p = put("ts.xml", xml); std::unique_ptr<TypeSystemDescription> t(Framework::createTypeSystemDescription(p.c_str())); return Framework::createTypeSystem(*t, U("me"), e); }
  default: { std::unique_ptr<TypeSystemDescription> t(Framework::createTypeSystemDescription(u.getBuffer(), u.length())); AnalysisEngineMetaData::TyVecpTypePriorities pr; return Framework::createTypeSystem(*t, pr, U("me"), e); } } }; }
static void entries() {
  static const std::vector<Desc> ds = {{}, {{"m.A", "uima.tcas.Annotation", {{"x", "m.B", 1}}}, {"m.B", "m.A", {{"s", "uima.cas.String"}}}}, {{"m.B", "m.A"}, {"m.A", "uima.cas.TOP", {{"x", "uima.cas.Integer"}}}}, {{"m.E", "uima.cas.String", {}, {"p", "q"}}, {"m.A", "uima.cas.TOP", {{"e", "m.E"}}}}, {{"m.A", "m.Nope"}}, {{"m.A", "uima.cas.TOP", {{"x", "m.Nope"}}}}, {{"m.A", "m.A"}}, {{"m.A", "uima.cas.Long"}}, {{"m.\xC3\xA4", "uima.cas.TOP", {{"\xE6\x97\xA5", "uima.cas.Integer"}}}}};
  const Desc& d = mc::pick(ds); int k = mc::choose(6); verdict(d, entry(k, xmlWith("", d)), true); mc::cover("entries");
}
// declarations spread over files importing each other
static void imports() {
  Desc d = {{"m.A", "uima.tcas.Annotation", {{"x", "uima.cas.Integer"}}}, {"m.B", "m.A", {{"y", "m.A"}}}, {"m.C", "m.B", {{"x", mc::flip() ? "uima.cas.Integer" : "uima.cas.String"}}}};
  int place[3]; for (int i = 0; i < 3; ++i) place[i] = mc::choose(3); // 0 root, 1 and 2 imported files
  Desc part[3]; for (int i = 0; i < 3; ++i) part[place[i]].push_back(d[i]);
  if (mc::flip()) part[1].push_back(d[0]); // also declared elsewhere
  // import edges among the files; reachable declarations count
  bool e[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) e[i][j] = false; e[0][1] = mc::flip(); e[0][2] = mc::flip(); e[1][2] = mc::flip(); e[2][1] = mc::flip(); e[1][0] = mc::flip();
  bool relative = mc::flip(); int k = mc::choose(2) * 2 + (mc::flip() ? 1 : 2); // 1,2,3,4
  if (relative && k != 2 && k != 4) k = 2; static const char* fn[] = {"ts.xml", "i1.xml", "i2.xml"};
  bool seen[3] = {true, false, false}; Desc all; std::vector<int> q = {0}; while (!q.empty()) { int i = q.back(); q.pop_back(); for (auto& t : part[i]) all.push_back(t); for (int j = 0; j < 3; ++j) if (e[i][j] && !seen[j]) { seen[j] = true; q.push_back(j); } }
  std::string x[3]; for (int i = 0; i < 3; ++i) { std::string im; for (int j = 0; j < 3; ++j) if (e[i][j]) im += imp(relative ? fn[j] : dir() + "/" + fn[j]); x[i] = xmlWith(im, part[i]); } put("i1.xml", x[1]); put("i2.xml", x[2]); if (e[1][0]) put("ts.xml", x[0]);
  mc::note("files: %s | %s | %s, edges 01:%d 02:%d 12:%d 21:%d 10:%d entry %d", descText(part[0]).c_str(), descText(part[1]).c_str(), descText(part[2]).c_str(), e[0][1], e[0][2], e[1][2], e[2][1], e[1][0], k);
  if (chdir(relative ? "/" : dir().c_str())) mc::fail("harness: chdir"); verdict(all, entry(k, x[0])); mc::cover(relative ? "imports-relative" : "imports");
}
static std::string aeXML(const Desc& d, const std::string& delegates, const std::string& imports) {
  bool agg = !delegates.empty();
  return "<?xml version=\"1.0\" encoding=\"UTF-8\"?><taeDescription xmlns=\"http://uima.apache.org/resourceSpecifier\"><frameworkImplementation>org.apache.uima.cpp</frameworkImplementation><primitive>" + std::string(agg ? "false" : "true") + "</primitive>" + (agg ? "<delegateAnalysisEngineSpecifiers>" + delegates + "</delegateAnalysisEngineSpecifiers>" : "<annotatorImplementationName>x</annotatorImplementationName>") +
    "<analysisEngineMetaData><name>ae</name><description/><version>1</version><vendor/><configurationParameters/><configurationParameterSettings/>" + (agg ? "<flowConstraints><fixedFlow><node>d1</node><node>d2</node></fixedFlow></flowConstraints>" : "") + "<typeSystemDescription>" + (imports.empty() ? "" : "<imports>" + imports + "</imports>") + "<types>" + descXML(d) + "</types></typeSystemDescription><capabilities><capability><inputs/><outputs/><languagesSupported/></capability></capabilities></analysisEngineMetaData></taeDescription>";
}
// an aggregate has the types of all its delegates
static void delegates() {
  static const std::vector<TD> ts = {{"m.A", "uima.tcas.Annotation", {{"x", "uima.cas.Integer"}}}, {"m.A", "uima.tcas.Annotation", {{"x", "uima.cas.String"}}}, {"m.A", "uima.tcas.Annotation", {{"y", "uima.cas.Integer"}}}, {"m.A", "uima.cas.TOP"}, {"m.B", "m.A", {{"x", "uima.cas.Integer"}}}, {"m.B", "m.A", {{"y", "uima.cas.String"}}}, {"m.E", "uima.cas.String", {}, {"a"}}, {"m.E", "uima.cas.String", {}, {"b", "a"}}};
  Desc p[3]; int n = (int)ts.size(); for (int i = 0; i < 3; ++i) { int k = mc::choose(n + 1); if (k < n) p[i].push_back(ts[k]); } int extra = mc::choose(4); if (extra < 3) p[extra].push_back({"m.C", "m.A", {{"x", "uima.cas.Integer"}}});
  std::string del; bool nested = mc::flip(); int byfile = mc::choose(2); for (int i = 1; i <= 2; ++i) { std::string s = aeXML(p[i], "", ""); if (i == 2 && nested) s = aeXML({}, "<delegateAnalysisEngine key=\"d1\">" + s.substr(s.find("<tae")) + "</delegateAnalysisEngine>", ""); if (i == 2 && nested) { size_t q; while ((q = s.find("<node>d2</node>")) != std::string::npos) s.erase(q, 15); }
    if (byfile) { std::string f = put(mc::fmt("d%d.xml", i), s); s = "<import location=\"" + f + "\"/>"; } else s = s.substr(s.find("<tae")); del += mc::fmt("<delegateAnalysisEngine key=\"d%d\">", i) + s + "</delegateAnalysisEngine>"; }
  std::string x = aeXML(p[0], del, ""); Desc all; for (int i = 0; i < 3; ++i) for (auto& t : p[i]) all.push_back(t);
  verdict(all, [&]() -> TypeSystem* { AnalysisEngineDescription d; XMLParser b; std::string f = put("agg.xml", x); b.parseAnalysisEngineDescription(d, f.c_str()); d.validate(); d.commit(); std::unique_ptr<internal::CASDefinition> def(internal::CASDefinition::createCASDefinition(d)); Model m; if (elaborate(all, m).empty()) verifyTS(&def->getTypeSystem(), m, false); return internal::CASDefinition::createTypeSystem(*d.getAnalysisEngineMetaData()); }); mc::cover("delegates");
}
static void (*const sc[])() = {supers, parents, features, redeclared, twice, samefeature, entries, imports, delegates};
void mc_body() { sc[mc::choose(9)](); }
int main(int c, char** v) { return mc::run(c, v); }
