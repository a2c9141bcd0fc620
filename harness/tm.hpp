// model of type system declarations: validity, expected result, comparison with a type system
#ifndef TM_HPP
#define TM_HPP
#include "uh.hpp"
#include "uima/lowlevel_typesystem.hpp"
#include "uima/internal_fspromoter.hpp"
#include <algorithm>
struct FD { std::string name, range; int multi = 0; };
struct TD { std::string name, super; std::vector<FD> f; std::vector<std::string> vals; };
typedef std::vector<TD> Desc;
struct MT { std::string parent; std::map<std::string, FD> own; std::vector<std::string> vals; };
typedef std::map<std::string, MT> Model;
inline Model builtins() {
  Model m; auto t = [&](const char* n, const char* p) { m[std::string("uima.") + n].parent = std::string("uima.") + p; };
  m["uima.cas.TOP"].parent = "";
  for (auto n : {"Integer","Float","String","Boolean","Byte","Short","Long","Double","ArrayBase","ListBase","Sofa","AnnotationBase"}) t((std::string("cas.") + n).c_str(), "cas.TOP");
  for (auto n : {"FSArray","FloatArray","IntegerArray","StringArray","BooleanArray","ByteArray","ShortArray","LongArray","DoubleArray"}) t((std::string("cas.") + n).c_str(), "cas.ArrayBase");
  for (auto n : {"FS","Float","Integer","String"}) { std::string l = std::string("cas.") + n + "List"; t(l.c_str(), "cas.ListBase"); t((std::string("cas.Empty") + n + "List").c_str(), l.c_str()); std::string ne = std::string("cas.NonEmpty") + n + "List"; t(ne.c_str(), l.c_str());
    m["uima." + ne].own["head"] = {"head", std::string("uima.cas.") + (std::string(n) == "FS" ? "TOP" : n)}; m["uima." + ne].own["tail"] = {"tail", "uima." + l, true}; }
  t("tcas.Annotation", "cas.AnnotationBase"); t("tcas.DocumentAnnotation", "tcas.Annotation");
  auto f = [&](const char* ty, const char* n, const char* r) { m[ty].own[n] = {n, std::string("uima.cas.") + r}; };
  f("uima.cas.Sofa","sofaNum","Integer"); f("uima.cas.Sofa","sofaID","String"); f("uima.cas.Sofa","mimeType","String"); f("uima.cas.Sofa","sofaArray","TOP"); f("uima.cas.Sofa","sofaString","String"); f("uima.cas.Sofa","sofaURI","String");
  return m;
}
inline const Model& builtinModel() { static Model m = [] { Model m = builtins(); auto f = [&](const char* ty, const char* n, const char* r) { m[ty].own[n] = {n, std::string("uima.cas.") + r}; };
  f("uima.tcas.Annotation","begin","Integer"); f("uima.tcas.Annotation","end","Integer"); f("uima.tcas.DocumentAnnotation","language","String"); f(CAS::TYPE_NAME_ANNOTATION,"sofa","Sofa"); return m; }(); return m; }
inline bool subs(const Model& m, const std::string& a, std::string b) { for (;;) { if (a == b) return true; auto i = m.find(b); if (i == m.end() || i->second.parent.empty()) return false; b = i->second.parent; } }
inline bool isFinal(const Model& m, const std::string& t) {
  static const std::set<std::string> p = {"uima.cas.Integer","uima.cas.Float","uima.cas.Boolean","uima.cas.Byte","uima.cas.Short","uima.cas.Long","uima.cas.Double"};
  return p.count(t) || subs(m, "uima.cas.String", t) || subs(m, "uima.cas.ArrayBase", t);
}
inline std::map<std::string, std::pair<FD, std::string>> feats(const Model& m, std::string t) { std::map<std::string, std::pair<FD, std::string>> r; for (;;) { auto& x = m.at(t); for (auto& f : x.own) r[f.first] = {f.second, t}; if (x.parent.empty()) return r; t = x.parent; } }
// "" and the model, or why the declarations are invalid
inline std::string elaborate(const Desc& d0, Model& m) {
  // declarations of the same name are merged
  std::vector<TD> d;
  for (auto& t : d0) { TD* o = nullptr; for (auto& x : d) if (x.name == t.name) o = &x;
    if (!o) { std::set<std::string> seen; for (auto& f : t.f) if (!seen.insert(f.name).second) return "feature twice"; d.push_back(t); continue; }
    if (o->super != t.super) return "declared with two supertypes";
    for (auto& f : t.f) { bool have = false; for (auto& g : o->f) if (g.name == f.name) { if (g.range != f.range) return "feature with two ranges"; have = true; } if (!have) o->f.push_back(f); }
    for (auto& v : t.vals) if (std::find(o->vals.begin(), o->vals.end(), v) == o->vals.end()) o->vals.push_back(v); }
  m = builtinModel(); std::vector<TD*> todo; for (auto& t : d) { if (m.count(t.name)) { if (m[t.name].parent != t.super) return "predefined type with another supertype"; } else todo.push_back(&t); }
  while (!todo.empty()) { bool prog = false; for (size_t i = 0; i < todo.size(); ++i) { TD* t = todo[i]; if (!m.count(t->super)) continue;
      if (t->super == "uima.cas.String") m[t->name].vals = t->vals; else if (isFinal(m, t->super)) return "supertype is final";
      m[t->name].parent = t->super; todo.erase(todo.begin() + i); prog = true; break; } if (!prog) return "unknown or circular supertype"; }
  // supertypes first
  std::vector<TD*> order; for (auto& t : d) order.push_back(&t); auto depth = [&](const std::string& n) { int k = 0; for (std::string x = n; !m[x].parent.empty(); x = m[x].parent) ++k; return k; };
  std::stable_sort(order.begin(), order.end(), [&](TD* a, TD* b) { return depth(a->name) < depth(b->name); });
  for (auto t : order) for (auto& f : t->f) { if (!m.count(f.range)) return "unknown range"; auto fs = feats(m, t->name); auto i = fs.find(f.name); if (i != fs.end()) { if (i->second.first.range != f.range) return "inherited feature with another range"; continue; }
      if (t->name == "uima.cas.TOP" || isFinal(m, t->name)) return "feature on a final type"; for (auto& o : m) if (o.first != t->name && subs(m, t->name, o.first) && o.second.own.count(f.name)) return "feature of a subtype"; m[t->name].own[f.name] = f; }
  return "";
}
inline std::string descXML(const Desc& d) { std::string s; for (auto& t : d) {
    s += "<typeDescription><name>" + t.name + "</name><description/><supertypeName>" + t.super + "</supertypeName>";
    if (!t.f.empty()) { s += "<features>"; for (auto& f : t.f) s += "<featureDescription><name>" + f.name + "</name><description/><rangeTypeName>" + f.range + "</rangeTypeName>" + (f.multi ? f.multi == 1 ? "<multipleReferencesAllowed>true</multipleReferencesAllowed>" : "<multipleReferencesAllowed>false</multipleReferencesAllowed>" : "") + "</featureDescription>"; s += "</features>"; }
    if (!t.vals.empty()) { s += "<allowedValues>"; for (auto& v : t.vals) s += "<value><string>" + v + "</string><description/></value>"; s += "</allowedValues>"; }
    s += "</typeDescription>"; } return s; }
inline std::string descText(const Desc& d) { std::string s; for (auto& t : d) { s += t.name + "<" + t.super + "("; for (auto& f : t.f) s += f.name + ":" + f.range + (f.multi == 1 ? "*" : "") + " "; s += ")"; for (auto& v : t.vals) s += "'" + v + "'"; s += " "; } return s; }
template<class V> inline std::multiset<std::string> names(V const& v) { std::multiset<std::string> s; for (auto& x : v) s.insert(toS(x.getName())); return s; }
inline icu::UnicodeString full(uima::Feature f) { Type t; f.getIntroType(t); return U(toS(t.getName()) + ":" + toS(f.getName())); }
// everything the type system says about its types and features
inline void verifyTS(TypeSystem* ts, const Model& m, bool deep, const Desc* d = nullptr, const std::string* creator = nullptr) {
  std::vector<Type> all; ts->getAllTypes(all); std::multiset<std::string> want; for (auto& t : m) want.insert(t.first); MC_CHECK(names(all) == want, "the list of all types has %zu entries, expected %zu", all.size(), want.size());
  std::vector<Feature> allF; ts->getAllFeatures(allF); std::multiset<std::string> wf, gf; for (auto& t : m) for (auto& f : t.second.own) wf.insert(t.first + ":" + f.first); for (auto& f : allF) gf.insert(toS(full(f))); MC_CHECK(gf == wf, "the list of all features differs: %zu, expected %zu", gf.size(), wf.size());
  lowlevel::TypeSystem& low = lowlevel::TypeSystem::promoteTypeSystem(*ts); Type none; MC_CHECK(!none.isValid() && !ts->getType(U("m.Nope")).isValid() && !ts->getType(U("")).isValid() && !ts->getType(U("m")).isValid() && ts->getTopType() == ts->getType(U("uima.cas.TOP")), "type lookup by name");
  std::vector<std::string> mine; for (auto& t : m) if (deep || t.first.compare(0, 5, "uima.")) mine.push_back(t.first); for (auto n : {"uima.cas.TOP","uima.tcas.Annotation","uima.cas.AnnotationBase","uima.cas.String","uima.cas.ArrayBase","uima.cas.NonEmptyFSList"}) if (std::find(mine.begin(), mine.end(), n) == mine.end()) mine.push_back(n);
  for (auto& n : mine) {
    auto& mt = m.at(n); Type t = ts->getType(U(n)); MC_CHECK(t.isValid() && toS(t.getName()) == n && &t.getTypeSystem() == ts, "type %s not found by name", n.c_str());
    std::multiset<std::string> dsub, sub; for (auto& o : m) { if (o.second.parent == n) dsub.insert(o.first); if (subs(m, n, o.first)) sub.insert(o.first); }
    std::vector<Type> v; t.getDirectSubTypes(v); MC_CHECK(names(v) == dsub, "direct subtypes of %s: %zu, expected %zu", n.c_str(), v.size(), dsub.size()); v.push_back(t); t.getSubTypes(v); MC_CHECK(names(v) == sub, "subtypes of %s: %zu, expected %zu", n.c_str(), v.size(), sub.size());
    for (auto& o : mine) { Type u = ts->getType(U(o)); MC_CHECK(t.subsumes(u) == subs(m, n, o), "%s subsumes %s: %d", n.c_str(), o.c_str(), t.subsumes(u)); MC_CHECK((t == u) == (n == o) && (t != u) == (n != o) && (n == o ? !(t < u) && !(u < t) : (t < u) != (u < t)), "type identity and order of %s and %s", n.c_str(), o.c_str());
      std::string c = n; while (!subs(m, c, o)) c = m.at(c).parent; lowlevel::TyFSType lc = low.getMostSpecificCommonSupertype(internal::FSPromoter::demoteType(t), internal::FSPromoter::demoteType(u)); MC_CHECK(toS(low.getTypeName(lc)) == c, "common supertype of %s and %s", n.c_str(), o.c_str()); }
    lowlevel::TyFSType lp = low.getParentType(internal::FSPromoter::demoteType(t)); MC_CHECK(mt.parent.empty() ? !low.isValidType(lp) : toS(low.getTypeName(lp)) == mt.parent, "parent of %s", n.c_str());
    MC_CHECK(t.isStringSubType() == (mt.parent == "uima.cas.String"), "isStringSubType of %s", n.c_str());
    if (t.isStringSubType()) { auto& s = low.getStringsForStringSubtype(internal::FSPromoter::demoteType(t)); std::multiset<std::string> a, b(mt.vals.begin(), mt.vals.end()); for (auto& x : s) a.insert(toS(x)); MC_CHECK(a == b, "allowed values of %s", n.c_str()); }
    auto fs = feats(m, n); std::multiset<std::string> fn; for (auto& f : fs) fn.insert(f.second.second + ":" + f.first); std::vector<Feature> fv; t.getAppropriateFeatures(fv); std::multiset<std::string> gn; for (auto& f : fv) gn.insert(toS(full(f))); MC_CHECK(gn == fn, "features of %s: %zu, expected %zu", n.c_str(), gn.size(), fn.size());
    for (auto& f : allF) MC_CHECK(t.isAppropriateFeature(f) == (fn.count(toS(full(f))) > 0), "appropriateness of %s for %s", toS(full(f)).c_str(), n.c_str());
    for (auto& f : fs) { Feature x = t.getFeatureByBaseName(U(f.first)); MC_CHECK(x.isValid() && toS(x.getName()) == f.first && &x.getTypeSystem() == ts, "feature %s of %s by name", f.first.c_str(), n.c_str()); Type i, r; x.getIntroType(i); x.getRangeType(r);
      MC_CHECK(toS(i.getName()) == f.second.second && toS(r.getName()) == f.second.first.range, "feature %s of %s: introduced on %s with range %s", f.first.c_str(), n.c_str(), toS(i.getName()).c_str(), toS(r.getName()).c_str()); MC_CHECK(x.isMultipleReferencesAllowed() == (f.second.first.multi == 1), "multiple references of %s of %s", f.first.c_str(), n.c_str());
      Feature y = ts->getFeatureByFullName(U(f.second.second + ":" + f.first)); MC_CHECK(x == y && !(x != y), "feature %s of %s by full name", f.first.c_str(), n.c_str()); MC_CHECK(ts->getFeatureByFullName(U(n + ":" + f.first)) == x, "feature %s of %s by its name qualified with the subtype", f.first.c_str(), n.c_str());
      if (creator && n.compare(0, 5, "uima.") && f.second.second == n) MC_CHECK(toS(x.getCreatorID()) == *creator, "creator of %s:%s is %s", n.c_str(), f.first.c_str(), toS(x.getCreatorID()).c_str()); }
    if (creator && n.compare(0, 5, "uima.")) MC_CHECK(toS(t.getCreatorID()) == *creator, "creator of %s is %s", n.c_str(), toS(t.getCreatorID()).c_str());
    for (auto bad : {"nope", "", "x ", "m.A:x", "ead", "heads"}) MC_CHECK(!t.getFeatureByBaseName(U(bad)).isValid(), "feature '%s' of %s", bad, n.c_str());
    for (auto bad : {":", "", ":nope", "::"}) { MC_CHECK(!ts->getFeatureByFullName(U(n + bad)).isValid(), "feature '%s%s'", n.c_str(), bad); }
  }
}
#endif
