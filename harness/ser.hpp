// S01-S05: content of a CAS: populations and a canonical form that does not depend on addresses
#ifndef SER_HPP
#define SER_HPP
#include "ix.hpp"
#include "uima/internal_fspromoter.hpp"
#include "uima/internal_casimpl.hpp"
#include "xercesc/framework/MemBufInputSource.hpp"
#include "unicode/ucnv.h"
#include <cmath>
#include <limits>
#include <algorithm>
namespace ser {
typedef std::vector<std::string> VS;
static const VS KIND = {"FS", "Integer", "Float", "String", "Boolean", "Byte", "Short", "Long", "Double"};   // arrays; the first four also lists
inline std::string feat(const std::string& n, const std::string& r, bool multi = false) { return "<featureDescription><name>" + n + "</name><description/><rangeTypeName>" + r + "</rangeTypeName>" + (multi ? "<multipleReferencesAllowed>true</multipleReferencesAllowed>" : "") + "</featureDescription>"; }
inline std::string typ(const std::string& n, const std::string& s, const std::string& feats = "") { return "<typeDescription><name>" + n + "</name><description/><supertypeName>" + s + "</supertypeName>" + (feats.empty() ? "" : "<features>" + feats + "</features>") + "</typeDescription>"; }
static const VS HOST = {"x.dup.T", "y.dup.T", "z.dup.T", "NoNs", "p.xmi.T", "p.cas.T", "s.xmiLike.T", "q.noNamespace.T", "w.dup2.T", "x.dup.myxmi", "deep.er.dup.Tx"};
inline std::string types(bool all = true) {
  std::string r, id = feat("id", "uima.cas.Integer");
  for (int k = 0; k < 9; ++k) for (int m = 0; m < 2; ++m) r += feat((m ? "ma" : "na") + KIND[k], "uima.cas." + KIND[k] + "Array", m);
  for (int k = 0; k < 4; ++k) for (int m = 0; m < 2; ++m) r += feat((m ? "ml" : "nl") + KIND[k], "uima.cas." + KIND[k] + "List", m);
  for (int k = 0; k < 4; ++k) for (int m = 0; m < 2; ++m) { r += feat((m ? "mne" : "nne") + KIND[k], "uima.cas.NonEmpty" + KIND[k] + "List", m); r += feat((m ? "mem" : "nem") + KIND[k], "uima.cas.Empty" + KIND[k] + "List", m); }
  std::string x = enumXML("s.E", {"red", "green blue", ""}) + typ("s.Node", "uima.cas.TOP", id + feat("r", "uima.cas.TOP") + feat("q", "s.Node"))
    + typ("s.P", "uima.cas.TOP", id + feat("fBoo", "uima.cas.Boolean") + feat("fByt", "uima.cas.Byte") + feat("fSho", "uima.cas.Short") + feat("fInt", "uima.cas.Integer") + feat("fLon", "uima.cas.Long") + feat("fFlo", "uima.cas.Float") + feat("fDou", "uima.cas.Double") + feat("fStr", "uima.cas.String") + feat("fEnum", "s.E"))
    + typ("s.V", "uima.cas.TOP", id + feat("value", "uima.cas.String") + feat("elements", "uima.cas.StringArray") + feat("members", "uima.cas.String") + feat("sofa", "uima.cas.TOP") + feat("size", "uima.cas.Integer") + feat("i", "uima.cas.String") + feat("text", "uima.cas.String"))
    + typ("s.R", "uima.cas.TOP", id + r) + typ("s.A", "uima.tcas.Annotation", id + feat("r", "uima.cas.TOP")) + typ("s.B", "s.A", feat("fStr", "uima.cas.String"));
  if (all) for (auto& h : HOST) x += typ(h, "uima.cas.TOP", id + feat("r", "uima.cas.TOP"));
  return x;
}
inline std::vector<IxDef> ixs() { return {{"ixP", "s.P", "sorted", {{"fLon", false}, {"fDou", true}, {"fInt", false}}}, {"ixS", "s.P", "sorted", {{"fStr", true}, {"fSho", false}, {"fByt", false}}}, {"ixB", "s.P", "bag", {{"id", false}}}}; }
static IxWorld* W; static TypeSystem* TS;
inline void init() { uhInit(); W = new IxWorld(types(), ixs()); TS = W->ts; }
inline Type ty(const std::string& n) { Type t = TS->getType(U(n)); if (!t.isValid()) { fprintf(stderr, "harness: no type %s\n", n.c_str()); _exit(96); } return t; }
inline Feature ft(const std::string& t, const std::string& f) { Feature x = ty(t).getFeatureByBaseName(U(f)); if (!x.isValid()) { fprintf(stderr, "harness: no feature %s\n", f.c_str()); _exit(96); } return x; }
inline Feature ff(FeatureStructure const& fs, const char* f) { return fs.getType().getFeatureByBaseName(U(f)); }

// ---------------------------------------------------------------- canonical form
inline std::string q(const UnicodeStringRef& r) { if (!r.getBuffer()) return "null"; std::string s = "\""; for (int i = 0; i < r.length(); ++i) { UChar c = r.getBuffer()[i]; if (c >= 32 && c < 127 && c != '"' && c != '\\') s += (char)c; else s += mc::fmt("\\u%04x", c); if (s.size() > 400 && r.length() > 500) { s += mc::fmt("..(%d,%llx)", (int)r.length(), (unsigned long long)mc::hash(r.getBuffer(), r.length() * 2)); break; } } return s + "\""; }
inline std::string fb(float f) { if (std::isnan(f)) return "nan"; uint32_t b; memcpy(&b, &f, 4); return mc::fmt("%08x(%g)", b, f); }
inline std::string db(double f) { if (std::isnan(f)) return "nan"; uint64_t b; memcpy(&b, &f, 8); return mc::fmt("%016llx(%g)", (unsigned long long)b, f); }
struct Opt { bool embed = false; bool nullStr = true; bool sofaNum = false; TypeSystem* ts = nullptr; std::set<std::string> skipTypes, skipFeats; };  // embed: values of features without multiple references are compared by value; nullStr: null elements differ from empty ones
struct Dump {
  Opt o; CAS* base; TypeSystem const& ts; std::map<int, int> num; std::vector<FeatureStructure> todo; std::map<int, std::string> sofaName; std::string out; int maxNodes = 100000;
  Dump(CAS* c, Opt oo) : o(oo), base(c->getBaseCas()), ts(c->getTypeSystem()) {}
  static bool isA(FeatureStructure const& f, const char* n) { return f.getType().getName() == U(n); }
  std::string tn(FeatureStructure const& f) { return toS(f.getType().getName()); }
  std::string ref(FeatureStructure const& f) {
    if (!f.isValid()) return "0";
    int a = addr(f); auto s = sofaName.find(a); if (s != sofaName.end()) return "sofa:" + s->second;
    auto it = num.find(a); if (it != num.end()) return mc::fmt("#%d", it->second);
    int n = (int)num.size() + 1; num[a] = n; todo.push_back(f); MC_CHECK(n < maxNodes, "endless structure"); return mc::fmt("#%d", n);
  }
  std::string strEl(UnicodeStringRef r) { return !o.nullStr && !r.getBuffer() ? "\"\"" : q(r); }
  std::string arr(FeatureStructure const& f) {
    std::string t = tn(f), s = "[";
    #define EACH(AT, expr) { AT a(f); for (size_t i = 0; i < a.size(); ++i) { auto v = a.get(i); (void)v; s += (i ? " " : "") + std::string(expr); } }
    if (t == "uima.cas.IntegerArray") EACH(IntArrayFS, mc::fmt("%d", v)) else if (t == "uima.cas.FloatArray") EACH(FloatArrayFS, fb(v)) else if (t == "uima.cas.StringArray") EACH(StringArrayFS, strEl(v))
    else if (t == "uima.cas.BooleanArray") EACH(BooleanArrayFS, (v ? "true" : "false")) else if (t == "uima.cas.ByteArray") EACH(ByteArrayFS, mc::fmt("%d", (int)(signed char)v)) else if (t == "uima.cas.ShortArray") EACH(ShortArrayFS, mc::fmt("%d", v))
    else if (t == "uima.cas.LongArray") EACH(LongArrayFS, mc::fmt("%lld", (long long)v)) else if (t == "uima.cas.DoubleArray") EACH(DoubleArrayFS, db(v)) else EACH(ArrayFS, ref(v))
    return s + "]";
  }
  std::string list(FeatureStructure f) {
    std::string s = "("; int n = 0;
    while (f.isValid()) {
      std::string t = tn(f); if (t.find("Empty") != std::string::npos && t.find("NonEmpty") == std::string::npos) return s + ")";
      Feature h = ff(f, "head"), tl = ff(f, "tail"); MC_CHECK(h.isValid() && tl.isValid(), "not a list node: %s", t.c_str());
      s += (n ? " " : ""); if (t == "uima.cas.NonEmptyIntegerList") s += mc::fmt("%d", f.getIntValue(h)); else if (t == "uima.cas.NonEmptyFloatList") s += fb(f.getFloatValue(h)); else if (t == "uima.cas.NonEmptyStringList") s += strEl(f.getStringValue(h)); else s += ref(f.getFSValue(h));
      f = f.getFSValue(tl); MC_CHECK(++n < 1000, "endless list");
    }
    return s + "..null)";
  }
  std::string value(FeatureStructure const& f, Feature const& x) {
    Type r; x.getRangeType(r); std::string rn = toS(r.getName());
    if (rn == "uima.cas.Integer") return mc::fmt("%d", f.getIntValue(x));
    if (rn == "uima.cas.Float") return fb(f.getFloatValue(x));
    if (rn == "uima.cas.Double") return db(f.getDoubleValue(x));
    if (rn == "uima.cas.Boolean") return f.getBooleanValue(x) ? "true" : "false";
    if (rn == "uima.cas.Byte") return mc::fmt("%d", (int)(signed char)f.getByteValue(x));
    if (rn == "uima.cas.Short") return mc::fmt("%d", f.getShortValue(x));
    if (rn == "uima.cas.Long") return mc::fmt("%lld", (long long)f.getLongValue(x));
    if (rn == "uima.cas.String" || r.isStringSubType()) return !o.nullStr && rn == "uima.cas.String" && tn(f) == "uima.cas.NonEmptyStringList" ? strEl(f.getStringValue(x)) : q(f.getStringValue(x));
    FeatureStructure v = f.getFSValue(x); if (!v.isValid()) return "0";
    bool isL = tn(f).find("List") != std::string::npos && tn(f).compare(0, 9, "uima.cas.") == 0;
    if (o.embed && !x.isMultipleReferencesAllowed() && !isL && rn.compare(0, 9, "uima.cas.") == 0) { if (rn.size() > 5 && rn.compare(rn.size() - 5, 5, "Array") == 0) return arr(v); if (rn.size() > 4 && rn.compare(rn.size() - 4, 4, "List") == 0) return list(v); }
    return ref(v);
  }
  std::string node(FeatureStructure const& f) {
    std::string t = tn(f), s = t;
    if (t.size() > 5 && t.compare(0, 9, "uima.cas.") == 0 && t.compare(t.size() - 5, 5, "Array") == 0) return s + arr(f);
    std::vector<Feature> fs; f.getType().getAppropriateFeatures(fs); std::map<std::string, std::string> vals;
    std::vector<std::pair<std::string, Feature>> sorted; for (auto& x : fs) sorted.emplace_back(toS(x.getName()), x); std::sort(sorted.begin(), sorted.end(), [](auto& a, auto& b) { return a.first < b.first; });
    s += "{"; for (auto& x : sorted) if (!o.skipFeats.count(t + ":" + x.first)) s += " " + x.first + "=" + value(f, x.second); return s + " }";
  }
  std::string key(FeatureStructure const& f) { std::string t = tn(f); Feature x = ff(f, "id"); return t + (x.isValid() ? mc::fmt(" %06d", f.getIntValue(x) + 500000) : ""); }
  std::string shallow(FeatureStructure const& f) { Dump d(base, o); d.sofaName = sofaName; return key(f) + d.node(f); }
  std::string run() {
    std::map<std::string, std::pair<CAS*, FeatureStructure>> views; FeatureStructure none;
    views["_InitialView"] = {base->getView(U("_InitialView")), none};
    FSIterator si = base->getSofaIterator(); int ns = 0;
    for (si.moveToFirst(); si.isValid(); si.moveToNext()) { SofaFS s(si.get()); std::string n = toS(s.getSofaID()); CAS* v = base->getView(s); MC_CHECK(v && v->isView(), "no view for sofa '%s'", n.c_str()); MC_CHECK(n == "_InitialView" || !views.count(n), "two sofas are called '%s'", n.c_str()); MC_CHECK(base->getView(U(n)) == v, "sofa '%s' and the view of that name differ", n.c_str()); MC_CHECK(v->getSofa() == s, "the sofa of view '%s'", n.c_str()); MC_CHECK(v->getSofaNum() == s.getSofaRef(), "sofa number of view '%s'", n.c_str()); views[n] = {v, s}; sofaName[(int)addr(s)] = n; ++ns; }
        for (auto& v : views) {
      CAS* c = v.second.first; std::vector<lowlevel::TyFS> ix; c->getLowlevelIndexRepository().getIndexedFSs(ix); std::sort(ix.begin(), ix.end()); ix.erase(std::unique(ix.begin(), ix.end()), ix.end());
      std::vector<std::pair<std::string, FeatureStructure>> roots; for (auto a : ix) { FeatureStructure f = internal::FSPromoter::promoteFS(a, *c); if (o.skipTypes.count(tn(f))) continue; roots.emplace_back(key(f), f); }
      if (roots.empty() && !v.second.second.isValid()) continue;
      bool dup = false; std::sort(roots.begin(), roots.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (size_t i = 1; i < roots.size(); ++i) if (roots[i].first == roots[i - 1].first) dup = true;
      if (dup) { for (auto& r : roots) r.first = shallow(r.second); std::sort(roots.begin(), roots.end(), [](auto& a, auto& b) { return a.first < b.first; }); }
      out += "view " + v.first; if (!v.second.second.isValid()) out += " without sofa";
      else { SofaFS s(v.second.second); out += " mime=" + q(s.getSofaMime()) + " string=" + q(s.getLocalStringData()) + " uri=" + q(s.getSofaURI()) + " array=" + ref(s.getLocalFSData()); if (o.sofaNum) out += mc::fmt(" num=%d", s.getSofaRef()); }
      out += " doc=" + std::string(toS(c->getDocumentText()).empty() ? "none" : q(c->getDocumentText())) + " indexed:"; for (auto& r : roots) out += " " + ref(r.second); out += "\n";
      // the indexes hold what is indexed, in order
      size_t na = 0; Type A = ts.getType(U("uima.tcas.Annotation")); for (auto& r : roots) if (A.subsumes(r.second.getType())) ++na;
      size_t n2 = 0; int b0 = -1, e0 = 0; for (ANIterator it = c->getAnnotationIndex().iterator(); it.isValid(); it.moveToNext()) { AnnotationFS a = it.get(); if (o.skipTypes.count(tn(a))) continue; int b = a.getBeginPosition(), e = a.getEndPosition(); MC_CHECK(b > b0 || (b == b0 && e <= e0), "annotation index of '%s' out of order", v.first.c_str()); b0 = b; e0 = e; ++n2; MC_CHECK(n2 <= na, "the annotation index of '%s' has too many members", v.first.c_str()); }
      MC_CHECK(n2 == na, "the annotation index of '%s' has %zu of %zu members", v.first.c_str(), n2, na);
      if (ts.getType(U("s.P")).isValid()) { Type P = ts.getType(U("s.P")); size_t np = 0; for (auto& r : roots) if (tn(r.second) == "s.P") ++np;
        std::set<std::string> ids; { std::vector<icu::UnicodeString> all = c->getIndexRepository().getAllIndexIDs(); for (auto& i : all) ids.insert(toS(i)); }
        if (ids.count("ixP")) { out += " ixP:"; size_t n = 0; for (FSIterator it = c->getIndexRepository().getIndex(U("ixP")).iterator(); it.isValid(); it.moveToNext()) { FeatureStructure f = it.get(); out += mc::fmt(" %lld/", (long long)f.getLongValue(ff(f, "fLon"))) + db(f.getDoubleValue(ff(f, "fDou"))); ++n; MC_CHECK(n <= np, "ixP"); } MC_CHECK(n == np, "index ixP of '%s' has %zu of %zu members", v.first.c_str(), n, np);
          out += " ixS:"; n = 0; for (FSIterator it = c->getIndexRepository().getIndex(U("ixS")).iterator(); it.isValid(); it.moveToNext()) { FeatureStructure f = it.get(); out += " " + q(f.getStringValue(ff(f, "fStr"))) + mc::fmt("/%d/%d", f.getShortValue(ff(f, "fSho")), (int)(signed char)f.getByteValue(ff(f, "fByt"))); ++n; } MC_CHECK(n == np, "index ixS of '%s' has %zu of %zu members", v.first.c_str(), n, np);
          n = 0; for (FSIterator it = c->getIndexRepository().getIndex(U("ixB")).iterator(); it.isValid(); it.moveToNext()) ++n; MC_CHECK(n == np, "index ixB of '%s' has %zu of %zu members", v.first.c_str(), n, np); out += "\n"; } }
      if (!c->getDocumentText().getBuffer() || !c->getDocumentText().length()) {} else { AnnotationFS d = c->getDocumentAnnotation(); MC_CHECK(d.isValid() && d.getBeginPosition() == 0 && (int)d.getEndPosition() == c->getDocumentText().length(), "document annotation of '%s'", v.first.c_str()); bool f = false; for (auto& r : roots) if (addr(r.second) == addr(d)) f = true; MC_CHECK(f, "the document annotation of '%s' is not indexed", v.first.c_str()); }
    }
    for (size_t i = 0; i < todo.size(); ++i) { FeatureStructure f = todo[i]; std::string s = node(f); out += mc::fmt("#%zu ", i + 1) + s + "\n"; }
    return out;
  }
};
inline std::string dump(CAS* c, Opt o = Opt()) { Dump d(c, o); return d.run(); }
inline void same(const std::string& a, const std::string& b, const std::string& what) {
  if (a == b) { ++mc::X().checks; return; }
  size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; size_t l = a.rfind('\n', i); l = l == std::string::npos ? 0 : l + 1; if (i > l + 200) l = i - 200;
  mc::fail("%s: content differs: expected '%s', found '%s'", what.c_str(), a.substr(l, 500).c_str(), b.substr(std::min(l, b.size()), 500).c_str());
}

// ---------------------------------------------------------------- populations
static int NEXT; // next id
struct Claims { bool allChars = false; bool nullEl = true; bool lists = true; bool hostile = true; bool any16 = false; };
inline FeatureStructure mk(CAS* c, const std::string& t) { FeatureStructure f = c->createFS(ty(t)); Feature i = ff(f, "id"); if (i.isValid()) f.setIntValue(i, ++NEXT); return f; }
inline AnnotationFS ann(CAS* c, const std::string& t, int b, int e) { AnnotationFS a = c->createAnnotation(ty(t), b, e); a.setIntValue(ff(a, "id"), ++NEXT); return a; }
inline void ix(CAS* c, FeatureStructure f) { c->getIndexRepository().addFS(f); }
static const VS STR = {"a", "", " ", "a b", "  lead", "trail  ", "a\tb", "a\nb", "a\r\nb\r", "\n", "<&>\"'", "]]>", "&amp;&#10;&lt;", "\xC3\xA9", "\xE6\x97\xA5\xE6\x9C\xAC", "\xF0\x9F\x98\x80x", "\xC2\x85", "\xE2\x80\xA8", "\xEF\xBF\xBD", "\xC2\xA0", "0", "null", "\x7F", "<?xml?><!--", "%s%n", "\xC2\x80\xDF\xBF", "x\xEE\x80\x80", "-", "\\", "a=\"b\" c='d'"};
inline std::vector<icu::UnicodeString> strs(const Claims& c) { std::vector<icu::UnicodeString> v; for (auto& s : STR) v.push_back(U(s)); icu::UnicodeString l; for (int i = 0; i < 300; ++i) l.append((UChar)(i % 50 ? 'a' + i % 26 : '&')); v.push_back(l); if (c.allChars) { UChar a[] = {1, 'x', 0, 'y', 0xFFFE, 0xFFFF, 0xD800, 'z', 0xDC00, 0x1F}; v.push_back(icu::UnicodeString(a, 10)); UChar z[] = {0}; v.push_back(icu::UnicodeString(z, 1)); } return v; }
static const std::vector<double> DBL = {0.0, 1.5, -1.0 / 3, 3.14159265358979312, 123456789.123456789, 1e300, 2.2250738585072014e-308, 4.9e-324, 1.7976931348623157e308, 0.1, -0.0, 16777217.0, 9007199254740993.0, INFINITY, -INFINITY, NAN};
static const std::vector<float> FLT = {0.0f, 1.5f, -1.0f / 3, 3.14159274f, 1.23456794e8f, 3.4028235e38f, 1.17549435e-38f, 1.4e-45f, 0.1f, -0.0f, 16777216.0f, 9.999999e-5f, INFINITY, -INFINITY, NAN};
static const std::vector<int> INT = {0, 1, -1, 2147483647, -2147483647 - 1, 127, 65536};
static const std::vector<long long> LNG = {0, 1, -1, 9223372036854775807LL, -9223372036854775807LL - 1, 4294967296LL, -4294967297LL, 2147483648LL};
static const std::vector<int> SHO = {0, 1, -1, 32767, -32768, 256, 255}, BYT = {0, 1, -1, 127, -128, 48, 10, 32, 13};
inline void setStr(FeatureStructure& f, const char* n, const icu::UnicodeString& s) { f.setStringValue(ff(f, n), UnicodeStringRef(s)); }
inline size_t primValues(int f, const Claims& c) { size_t n[] = {2, BYT.size(), SHO.size(), INT.size(), LNG.size(), FLT.size(), DBL.size(), strs(c).size(), 3}; return n[f]; }
inline void setPrim(FeatureStructure& p, int f, int v, const Claims& c) {
  switch (f) { case 0: p.setBooleanValue(ff(p, "fBoo"), v); break; case 1: p.setByteValue(ff(p, "fByt"), (char)BYT[v]); break; case 2: p.setShortValue(ff(p, "fSho"), (short)SHO[v]); break; case 3: p.setIntValue(ff(p, "fInt"), INT[v]); break; case 4: p.setLongValue(ff(p, "fLon"), LNG[v]); break;
    case 5: p.setFloatValue(ff(p, "fFlo"), FLT[v]); break; case 6: p.setDoubleValue(ff(p, "fDou"), DBL[v]); break; case 7: setStr(p, "fStr", strs(c)[v]); break; case 8: setStr(p, "fEnum", U(VS{"red", "green blue", ""}[v])); break; }
}
// element v of an array or list of kind k
inline size_t elValues(int k, const Claims& c) { size_t n[] = {2, INT.size(), FLT.size(), strs(c).size() + (c.nullEl ? 1 : 0), 2, BYT.size(), SHO.size(), LNG.size(), DBL.size()}; return n[k]; }
inline FeatureStructure mkArr(CAS* c, int k, const std::vector<int>& v, FeatureStructure el, const Claims& cl) {
  size_t n = v.size(); auto ss = strs(cl);
  switch (k) {
    case 0: { ArrayFS a = c->createArrayFS(n); for (size_t i = 0; i < n; ++i) if (v[i]) a.set(i, el); return a; }
    case 1: { IntArrayFS a = c->createIntArrayFS(n); for (size_t i = 0; i < n; ++i) a.set(i, INT[v[i]]); return a; }
    case 2: { FloatArrayFS a = c->createFloatArrayFS(n); for (size_t i = 0; i < n; ++i) a.set(i, FLT[v[i]]); return a; }
    case 3: { StringArrayFS a = c->createStringArrayFS(n); for (size_t i = 0; i < n; ++i) if (v[i] < (int)ss.size()) a.set(i, UnicodeStringRef(ss[v[i]])); return a; }
    case 4: { BooleanArrayFS a = c->createBooleanArrayFS(n); for (size_t i = 0; i < n; ++i) a.set(i, v[i]); return a; }
    case 5: { ByteArrayFS a = c->createByteArrayFS(n); for (size_t i = 0; i < n; ++i) a.set(i, (char)BYT[v[i]]); return a; }
    case 6: { ShortArrayFS a = c->createShortArrayFS(n); for (size_t i = 0; i < n; ++i) a.set(i, (short)SHO[v[i]]); return a; }
    case 7: { LongArrayFS a = c->createLongArrayFS(n); for (size_t i = 0; i < n; ++i) a.set(i, LNG[v[i]]); return a; }
    default: { DoubleArrayFS a = c->createDoubleArrayFS(n); for (size_t i = 0; i < n; ++i) a.set(i, DBL[v[i]]); return a; }
  }
}
inline FeatureStructure mkList(CAS* c, int k, const std::vector<int>& v, FeatureStructure el, const Claims& cl, FeatureStructure tail = FeatureStructure()) {
  auto ss = strs(cl); FeatureStructure cur = tail.isValid() ? tail : c->createFS(ty("uima.cas.Empty" + KIND[k] + "List"));
  for (size_t i = v.size(); i-- > 0;) { FeatureStructure n = c->createFS(ty("uima.cas.NonEmpty" + KIND[k] + "List")); Feature h = ff(n, "head");
    switch (k) { case 0: if (v[i]) n.setFSValue(h, el); break; case 1: n.setIntValue(h, INT[v[i]]); break; case 2: n.setFloatValue(h, FLT[v[i]]); break; default: if (v[i] < (int)ss.size()) n.setStringValue(h, UnicodeStringRef(ss[v[i]])); }
    n.setFSValue(ff(n, "tail"), cur); cur = n; }
  return cur;
}
// all vectors of length 0..n over d values: length, then elements; long vectors use a window of values
inline std::vector<int> vec(int maxLen, int dom, bool full) { int n = mc::choose(maxLen + 1); std::vector<int> v; if (full) { for (int i = 0; i < n; ++i) v.push_back(mc::choose(dom)); } else if (n) { int s = mc::choose(dom); for (int i = 0; i < n; ++i) v.push_back((s + i) % dom); } return v; }

inline CAS* newCas() { NEXT = 0; return W->cas(); }
// scenario names are used for coverage
inline CAS* populate(int scenario, const Claims& cl) {
  CAS* c = newCas(); struct Guard { CAS* c; bool ok = false; ~Guard() { if (!ok) delete c->getBaseCas(); } } g{c};
  switch (scenario) {
    case 0: { mc::cover("primitives"); // every feature with every value, alone and next to another structure
      int f = mc::choose(9), v = mc::choose((int)primValues(f, cl)); FeatureStructure p = mk(c, "s.P"); setPrim(p, f, v, cl); mc::step("s.P feature %d value %d", f, v); ix(c, p);
      if (mc::flip()) { FeatureStructure o = mk(c, "s.P"); int f2 = mc::choose(9); setPrim(o, f2, (int)primValues(f2, cl) - 1, cl); ix(c, o); } break; }
    case 1: { mc::cover("strings"); // every string in every place
      auto ss = strs(cl); int w = mc::choose(11); icu::UnicodeString s = ss[mc::choose((int)ss.size())]; mc::step("string %s at %d", q(UnicodeStringRef(s)).c_str(), w);
      FeatureStructure r; auto holder = [&](const char* f, FeatureStructure v) { r = mk(c, "s.R"); r.setFSValue(ff(r, f), v); ix(c, r); };
      auto sa = [&] { StringArrayFS a = c->createStringArrayFS(2); a.set(1, UnicodeStringRef(s)); a.set(0, UnicodeStringRef(U("z"))); return a; };
      auto sl = [&] { FeatureStructure e = mkList(c, 3, {0}, r, cl), n = c->createFS(ty("uima.cas.NonEmptyStringList")); n.setStringValue(ff(n, "head"), UnicodeStringRef(s)); n.setFSValue(ff(n, "tail"), e); return n; };
      switch (w) { case 0: holder("maString", sa()); break; case 1: holder("naString", sa()); break; case 2: holder("mlString", sl()); break; case 3: holder("nlString", sl()); break;
        case 4: c->setDocumentText(UnicodeStringRef(s)); break; case 5: c->setSofaDataURI(s.isEmpty() ? U("u") : s, s); break; case 6: { CAS* v = c->createView(U("o")); v->setSofaDataString(s, U("t/x")); break; }
        case 7: { s = U(toS(s)); if (s.isEmpty()) s = U("e"); CAS* v = c->createView(s); AnnotationFS a = ann(v, "s.A", 0, 1); ix(v, a); break; }
        case 8: { c->setDocumentText(U("text")); DocumentFS d = c->getDocumentAnnotation(); d.setLanguage(Language("en")); d.setStringValue(ff(d, "language"), UnicodeStringRef(s)); break; }
        case 9: { AnnotationFS a = ann(c, "s.B", 0, 0); a.setStringValue(ff(a, "fStr"), UnicodeStringRef(s)); ix(c, a); break; }
        default: { StringArrayFS a = sa(); ix(c, a); } } break; }
    case 2: { mc::cover("arrays"); // every kind, flag and element
      int k = mc::choose(9), how = mc::choose(6), dom = (int)elValues(k, cl); std::vector<int> v = vec(dom < 3 ? 3 : 2, dom, dom < 10 || mc::thorough()); mc::step("%s array of %zu, %d", KIND[k].c_str(), v.size(), how);
      FeatureStructure el = mk(c, "s.Node"), a = mkArr(c, k, v, el, cl), r = mk(c, "s.R");
      if (how == 0 || how == 2 || how == 4) r.setFSValue(ff(r, ("ma" + KIND[k]).c_str()), a); if (how == 1 || how == 2) r.setFSValue(ff(r, ("na" + KIND[k]).c_str()), a);
      if (how == 3) { FeatureStructure n = mk(c, "s.Node"); n.setFSValue(ff(n, "r"), a); ix(c, n); } if (how == 4) { FeatureStructure r2 = mk(c, "s.R"); r2.setFSValue(ff(r2, ("ma" + KIND[k]).c_str()), a); ix(c, r2); } if (how == 5) ix(c, a);
      ix(c, r); FeatureStructure after = mk(c, "s.P"); after.setLongValue(ff(after, "fLon"), 77); ix(c, after); if (mc::flip()) { FeatureStructure r3 = mk(c, "s.R"); r3.setFSValue(ff(r3, ("ma" + KIND[k]).c_str()), mkArr(c, k, {}, el, cl)); ix(c, r3); } break; }
    case 3: { mc::cover("lists"); if (!cl.lists) mc::note("lists");
      int k = mc::choose(4), how = mc::choose(9), dom = (int)elValues(k, cl); std::vector<int> v = vec(dom < 3 ? 3 : 2, dom, dom < 10 || mc::thorough()); mc::step("%s list of %zu, %d", KIND[k].c_str(), v.size(), how);
      FeatureStructure el = mk(c, "s.Node"), l = mkList(c, k, v, el, cl), r = mk(c, "s.R"); std::string m = "ml" + KIND[k], n = "nl" + KIND[k];
      if (how == 0 || how == 2 || how == 4) r.setFSValue(ff(r, m.c_str()), l); if (how == 1 || how == 2) r.setFSValue(ff(r, n.c_str()), l);
      if (how == 3) { FeatureStructure x = mk(c, "s.Node"); x.setFSValue(ff(x, "r"), l); ix(c, x); } if (how == 4) { FeatureStructure r2 = mk(c, "s.R"); r2.setFSValue(ff(r2, m.c_str()), mkList(c, k, {0}, el, cl, l)); ix(c, r2); } if (how == 5) ix(c, l); if (how == 6) { r.setFSValue(ff(r, n.c_str()), mkList(c, k, {1}, el, cl, l)); }
      if (how >= 7) r.setFSValue(ff(r, ((how == 8 ? "m" : "n") + std::string(v.empty() ? "em" : "ne") + KIND[k]).c_str()), l);
      ix(c, r); break; }
    case 4: { mc::cover("graphs"); // three nodes, every reference, every subset indexed
      FeatureStructure n[3] = {mk(c, "s.Node"), mk(c, "s.Node"), mk(c, "s.A")}; c->setDocumentText(U("abc")); AnnotationFS an = AnnotationFS(ann(c, "s.A", 1, 2)); n[2] = an;
      for (int i = 0; i < 3; ++i) { int r = mc::choose(4); if (r) n[i].setFSValue(ff(n[i], "r"), n[r - 1]); if (i < 2) { int z = mc::choose(3); if (z) n[i].setFSValue(ff(n[i], "q"), n[z - 1]); } }
      int m = 1 + mc::choose(7); for (int i = 0; i < 3; ++i) if (m >> i & 1) ix(c, n[i]); mc::step("graph indexed %d", m); break; }
    case 5: { mc::cover("views"); // histories of views, data and index operations
      std::vector<CAS*> v = {c}; std::vector<int> data = {0}; std::vector<FeatureStructure> fs; std::set<int> has; int N = mc::thorough() ? 5 : 4;
      for (int i = 0; i < N; ++i) { int op = mc::choose(8); if (op == 0 && v.size() == 1 && i) op = 7;
        int t = op == 0 ? 0 : mc::choose((int)v.size()); CAS* w = v[t]; mc::step("op %d view %d", op, t);
        switch (op) { case 0: v.push_back(c->createView(U(mc::fmt("v%zu", v.size())))); data.push_back(0); break;
          case 1: if (!data[t]) { w->setDocumentText(U("text of it")); data[t] = 1; } break;
          case 2: if (!data[t]) { IntArrayFS a = c->createIntArrayFS(2); a.set(0, 5); w->setSofaDataArray(a, U("x/y")); data[t] = 1; } break;
          case 3: if (!data[t]) { w->setSofaDataURI(U("file:/none"), U("m")); data[t] = 1; } break;
          case 4: { AnnotationFS a = ann(w, "s.A", i, i + 1); if (fs.empty()) has.insert(t); fs.push_back(a); ix(w, a); break; }
          case 5: { FeatureStructure f = mk(c, "s.Node"); if (fs.empty()) has.insert(t); fs.push_back(f); ix(w, f); break; }
          case 6: if (!fs.empty() && has.insert(t).second) ix(w, fs[0]); break;
          case 7: { FeatureStructure p = mk(c, "s.P"); p.setLongValue(ff(p, "fLon"), -i * 5000000000LL); p.setDoubleValue(ff(p, "fDou"), i); if (fs.empty()) has.insert(t); fs.push_back(p); ix(w, p); break; } } }
      break; }
    case 6: { mc::cover("names"); // types whose names collide in the encoding
      int m = 1 + mc::choose(mc::thorough() ? (1 << HOST.size()) - 1 : (1 << 6) - 1); if (!mc::thorough() && mc::flip()) m <<= 5; FeatureStructure prev; mc::step("types %x", m); for (size_t i = 0; i < HOST.size(); ++i) if (m >> i & 1) { FeatureStructure f = mk(c, HOST[i]); if (prev.isValid()) f.setFSValue(ff(f, "r"), prev); prev = f; ix(c, f); } if (mc::flip()) { FeatureStructure f = mk(c, "s.V"); auto ss = strs(cl); const char* N[] = {"value", "members", "i", "text"}; for (int k = 0; k < 4; ++k) f.setStringValue(ff(f, N[k]), UnicodeStringRef(ss[(m + k) % 3])); if (m & 1) f.setFSValue(ff(f, "sofa"), prev); f.setIntValue(ff(f, "size"), m); if (m & 2) f.setFSValue(ff(f, "elements"), mkArr(c, 3, {0, 2, 3}, prev, cl)); ix(c, f); }
      break; }
    case 7: { mc::cover("large"); // content beyond a page of every heap
      int k = mc::choose(11); auto ss = strs(cl); mc::step("large %d", k);
      if (k < 9) { FeatureStructure el = mk(c, "s.Node"); int dom = (int)elValues(k, cl); std::vector<int> v(k == 3 ? 6000 : 10001); for (size_t i = 0; i < v.size(); ++i) v[i] = (int)(i * 7 % dom); FeatureStructure a = mkArr(c, k, v, el, cl), r = mk(c, "s.R"); r.setFSValue(ff(r, ("ma" + KIND[k]).c_str()), a); ix(c, r); FeatureStructure p = mk(c, "s.P"); setPrim(p, 4, 3, cl); setPrim(p, 7, 4, cl); setPrim(p, 2, 3, cl); setPrim(p, 1, 4, cl); ix(c, p); }
      else if (k == 9) { icu::UnicodeString t; for (int i = 0; i < 25000; ++i) t.append((UChar)('a' + i % 26)); c->setDocumentText(UnicodeStringRef(t)); for (int i = 0; i < 40; ++i) { AnnotationFS a = ann(c, "s.B", i * 3 % 17, 100 + i % 5); a.setStringValue(ff(a, "fStr"), UnicodeStringRef(ss[i % ss.size()])); ix(c, a); } }
      else { FeatureStructure prev; for (int i = 0; i < 3000; ++i) { FeatureStructure n = mk(c, "s.Node"); if (prev.isValid()) n.setFSValue(ff(n, "q"), prev); prev = n; } for (int i = 0; i < 30; ++i) { FeatureStructure p = mk(c, "s.P"); setPrim(p, 4, i % (int)LNG.size(), cl); setPrim(p, 6, i % 13, cl); setPrim(p, 7, i % (int)ss.size(), cl); ix(c, p); } if (!mc::thorough()) {} ix(c, prev); }
      break; }
    case 8: { mc::cover("removed"); // some structures are no longer reachable, some unindexed again
      FeatureStructure a = mk(c, "s.Node"), b = mk(c, "s.P"), d = mk(c, "s.R"); c->setDocumentText(U("some text")); AnnotationFS e = ann(c, "s.A", 0, 4); CAS* v = c->createView(U("w")); int m = mc::choose(16), r = mc::choose(16); FeatureStructure x[4] = {a, b, d, e}; for (int i = 0; i < 4; ++i) { ix(c, x[i]); if (m >> i & 1) ix(v, x[i]); } for (int i = 0; i < 4; ++i) if (r >> i & 1) c->getIndexRepository().removeFS(x[i]); mc::step("w %d removed %d", m, r); break; }
    case 9: { mc::cover("empty"); if (mc::flip()) c->setDocumentText(U(mc::flip() ? "x" : "")); if (mc::flip()) c->createView(U("v")); break; }
    case 10: { mc::cover("cross"); // references across views, sofas as values, data of one sofa used elsewhere
      CAS* v = c->createView(U("v")); c->setDocumentText(U("abc")); int k = mc::choose(4); if (k == 1) v->setDocumentText(U("defg")); FeatureStructure arr; if (k == 2) { ByteArrayFS b = c->createByteArrayFS(3); b.set(0, 'x'); b.set(2, (char)-1); v->setSofaDataArray(b, U("")); arr = b; } if (k == 3) { FeatureStructure l = mkArr(c, 3, {0, 1, 4}, arr, cl); v->setSofaDataArray(l, U("l")); arr = l; }
      AnnotationFS a = ann(c, "s.A", 0, 3), b = ann(v, "s.A", 1, 2); int t = mc::choose(6); FeatureStructure tg[6] = {a, b, c->getSofa(), v->getSofa(), c->getDocumentAnnotation(), arr}; if (tg[t].isValid()) a.setFSValue(ff(a, "r"), tg[t]); if (mc::flip()) b.setFSValue(ff(b, "r"), a);
      int m = mc::choose(16); if (m & 1) ix(c, a); if (m & 2) ix(v, a); if (m & 4) ix(c, b); if (m & 8) ix(v, b); mc::step("target %d data %d indexed %d", t, k, m); break; }
  }
  g.ok = true; return c;
}
static const int NSCEN = 11;
static const char* SCEN[] = {"primitives", "strings", "arrays", "lists", "graphs", "views", "names", "large", "removed", "empty", "cross"};
// a target that has been used before
inline void dirty(CAS* c) {
  c->setDocumentText(U("old document text, longer than others")); CAS* v = c->createView(U("v1")); v->setDocumentText(U("old view")); CAS* u = c->createView(U("old")); IntArrayFS a = c->createIntArrayFS(3); a.set(1, 9); u->setSofaDataArray(a, U("m"));
  for (int i = 0; i < 3; ++i) { CAS* w = i == 0 ? c : i == 1 ? v : u; AnnotationFS x = ann(w, "s.A", i, 3); ix(w, x); FeatureStructure p = mk(c, "s.P"); p.setLongValue(ff(p, "fLon"), 5 - i); p.setShortValue(ff(p, "fSho"), 3); setStr(p, "fStr", U("old")); p.setByteValue(ff(p, "fByt"), 1); ix(w, p); FeatureStructure n = mk(c, "s.Node"); ix(w, n); }
  for (int i = 0; i < 3; ++i) mkArr(c, i == 0 ? 5 : i == 1 ? 6 : 7, std::vector<int>(10, 1), FeatureStructure(), Claims());
}
// the CAS can still be used: new content lands where it should
inline void usable(CAS* c, const Opt& o) {
  CAS* b = c->getBaseCas(); CAS* v = b->getView(U("_InitialView")); size_t n0; { std::vector<lowlevel::TyFS> ixd; v->getLowlevelIndexRepository().getIndexedFSs(ixd); n0 = ixd.size(); }
  FeatureStructure p = v->createFS(ty("s.P")); p.setLongValue(ff(p, "fLon"), 1234567890123LL); p.setShortValue(ff(p, "fSho"), -7); p.setByteValue(ff(p, "fByt"), 9); p.setDoubleValue(ff(p, "fDou"), 2.5); setStr(p, "fStr", U("after")); p.setBooleanValue(ff(p, "fBoo"), true); ix(v, p);
  CAS* nv = b->createView(U("new view")); nv->setDocumentText(U("new text")); AnnotationFS a = nv->createAnnotation(nv->getTypeSystem().getType(U("s.A")), 0, 3); ix(nv, a);
  std::set<int> nums; FSIterator si = b->getSofaIterator(); for (si.moveToFirst(); si.isValid(); si.moveToNext()) MC_CHECK(nums.insert(SofaFS(si.get()).getSofaRef()).second, "after reading: a new view gets a sofa number in use");
  MC_CHECK(p.getLongValue(ff(p, "fLon")) == 1234567890123LL && p.getShortValue(ff(p, "fSho")) == -7 && p.getByteValue(ff(p, "fByt")) == 9 && p.getStringValue(ff(p, "fStr")) == U("after") && p.getDoubleValue(ff(p, "fDou")) == 2.5, "after reading: a new structure does not keep its values");
  MC_CHECK(toS(a.getCoveredText()) == "new" && nv->getAnnotationIndex().getSize() == 2, "after reading: a new view");
  { std::vector<lowlevel::TyFS> ixd; v->getLowlevelIndexRepository().getIndexedFSs(ixd); MC_CHECK(ixd.size() == n0 + 1, "after reading: adding to an index"); }
}
}
#endif
