// D01: reading a descriptor gives what it says; writing it and reading it again gives the same component
#include "uh.hpp"
#include <xercesc/framework/MemBufInputSource.hpp>
#include <xercesc/parsers/XercesDOMParser.hpp>
#include <xercesc/dom/DOM.hpp>
#include <xercesc/sax/SAXParseException.hpp>
#include <xercesc/sax/ErrorHandler.hpp>
#include <functional>
#include <algorithm>
#include <climits>
#include <map>
#include <set>
void mc_init() { uhInit(); }
#define CK(c, ...) do { ++mc::X().checks; if (!(c)) mc::fail(__VA_ARGS__); } while (0)
typedef std::string Str; typedef AnalysisEngineDescription AED; typedef AnalysisEngineMetaData MD;
// ---- a document as a tree
struct N { Str tag; std::vector<std::pair<Str, Str>> at; Str text; std::vector<N> k;
  N& add(const N& n) { k.push_back(n); return *this; } N* kid(const Str& t) { for (auto& x : k) if (x.tag == t) return &x; return nullptr; } Str attr(const Str& a) const { for (auto& x : at) if (x.first == a) return x.second; return ""; } };
static N E(const Str& t, std::vector<N> k = {}) { N n; n.tag = t; n.k = k; return n; }
static N L(const Str& t, const Str& x) { N n; n.tag = t; n.text = x; return n; }
static N A(N n, const Str& a, const Str& v) { n.at.push_back({a, v}); return n; }
static Str esc(const Str& s, bool at) { Str o; for (char c : s) switch (c) { case '<': o += "&lt;"; break; case '&': o += "&amp;"; break; case '>': o += "&gt;"; break; case '"': o += at ? "&quot;" : "\""; break; case '\n': o += at ? "&#10;" : "\n"; break; default: o += c; } return o; }
enum { COMPACT, INDENTED, COMMENTS, CDATA, REFS };
static Str xml(const N& n, int st, int d = 0) {
  Str s = "<" + n.tag; for (auto& a : n.at) s += " " + a.first + "=\"" + esc(a.second, true) + "\""; if (n.k.empty() && n.text.empty()) return s + (st == INDENTED ? "></" + n.tag + ">" : "/>"); s += ">";
  if (n.k.empty()) switch (st) {
    case INDENTED: s += "\n\t" + esc(n.text, false) + "\n "; break;
    case COMMENTS: { size_t h = n.text.size() / 2; while (h && (n.text[h] & 0xc0) == 0x80) --h; Str a = n.text.substr(0, h), b = n.text.substr(h); s += "<!-- a comment -->" + esc(a, false) + "<!-- another --><?pi x?>" + esc(b, false); break; }
    case CDATA: { size_t p = n.text.find("]]>"); if (p == Str::npos) s += "<![CDATA[" + n.text + "]]>"; else s += "<![CDATA[" + n.text.substr(0, p + 2) + "]]>" + "<![CDATA[" + n.text.substr(p + 2) + "]]>"; break; }
    case REFS: { icu::UnicodeString u = U(n.text); for (int i = 0; i < u.length(); i = u.moveIndex32(i, 1)) s += mc::fmt("&#x%x;", (unsigned)u.char32At(i)); break; }
    default: s += esc(n.text, false); }
  for (auto& x : n.k) { if (st == INDENTED) s += "\n" + Str(d + 1, ' '); if (st == COMMENTS) s += "<!-- " + x.tag + " -->"; s += xml(x, st, d + 1); }
  if (st == INDENTED && !n.k.empty()) s += "\n"; return s + "</" + n.tag + ">";
}
// ---- what a tree means: defaults dropped, groups separated, unordered parts sorted
static Str trim(const Str& s) { icu::UnicodeString u = U(s); u.trim(); return toS(u); }
static std::vector<Str> words(const Str& s) { std::vector<Str> r; std::istringstream i(s); Str w; while (i >> w) r.push_back(w); return r; }
static Str canon(const N& n) {
  static const std::set<Str> ORD = {"priorityList", "keys", "array", "fixedFlow", "capabilityLanguageFlow", "capabilities", "typePriorities"}, KEEP = {"string", "priorityList", "typePriority", "capability", "fsIndexKey", "fixedFlow", "capabilityLanguageFlow", "nameValuePair", "node", "language", "type"};
  static const std::map<Str, Str> DEF = {{"modifiesCas", "true"}, {"multipleDeploymentAllowed", "true"}, {"outputsNewCASes", "false"}, {"multiValued", "false"}, {"mandatory", "false"}, {"multipleReferencesAllowed", "false"}, {"comparator", "standard"}};
  Str t = trim(n.text); if (n.tag == "float") t = mc::fmt("%a", strtof(t.c_str(), 0)); else if (n.tag == "integer") t = mc::fmt("%ld", strtol(t.c_str(), 0, 10)); else if (n.tag == "restrictOverrideTo") { auto w = words(t); std::sort(w.begin(), w.end()); t = ""; for (auto& x : w) t += x + " "; }
  auto d = DEF.find(n.tag); if (d != DEF.end() && t == d->second) return ""; std::vector<Str> v; Str a; std::vector<Str> av;
  for (auto& x : n.at) { if (x.first.substr(0, 5) == "xmlns" || x.first == "allAnnotatorFeatures") continue; if (x.first == "searchStrategy" && x.second == "none") continue; av.push_back(x.first + "='" + x.second + "'"); } std::sort(av.begin(), av.end()); for (auto& x : av) a += " " + x;
  bool group = n.tag == "configurationParameters" || n.tag == "configurationParameterSettings"; std::map<Str, std::vector<Str>> groups;
  for (auto& c : n.k) {
    if (group && (c.tag == "configurationGroup" || c.tag == "settingsForGroup")) { for (auto& w : words(c.attr(c.tag == "settingsForGroup" ? "name" : "names"))) { auto& g = groups[c.tag + " " + w]; for (auto& m : c.k) g.push_back(canon(m)); } continue; }
    Str s = canon(c); if (!s.empty()) v.push_back(s); }
  for (auto& g : groups) { std::sort(g.second.begin(), g.second.end()); Str s; for (auto& x : g.second) s += x; if (!s.empty() || g.first[0] == 'c') v.push_back("[" + g.first + ":" + s + "]"); }
  if (n.tag == "configurationParameters" && v.empty()) return ""; // without parameters the strategy has no meaning
  if (v.empty() && t.empty() && a.empty() && !KEEP.count(n.tag)) return ""; if (!ORD.count(n.tag)) std::sort(v.begin(), v.end()); Str s; for (auto& x : v) s += x; return "[" + n.tag + a + ":" + t + s + "]";
}
static void strategyOfUngrouped(N& n) { if (n.tag == "configurationParameters") { bool g = false; for (auto& c : n.k) g |= c.tag != "configurationParameter"; if (!g) n.at.clear(); } for (auto& c : n.k) strategyOfUngrouped(c); }
static void expand(N& n, const N* types) { // allAnnotatorFeatures
  if (N* t = n.kid("typeSystemDescription")) types = t->kid("types"); std::vector<N> out; for (auto& c : n.k) { out.push_back(c); if (c.tag == "type" && c.attr("allAnnotatorFeatures") == "true" && types) for (auto& td : types->k) if (const_cast<N&>(td).kid("name")->text == c.text) if (N* fs = const_cast<N&>(td).kid("features")) for (auto& f : fs->k) out.push_back(L("feature", c.text + ":" + f.kid("name")->text)); }
  n.k = out; for (auto& c : n.k) expand(c, types);
}
static Str meaning(N n) { strategyOfUngrouped(n); expand(n, nullptr); return canon(n); }
static Str withoutParams(N n) { std::function<void(N&)> f = [&](N& x) { std::vector<N> k; for (auto& c : x.k) if (c.tag != "configurationParameters") { f(c); k.push_back(c); } x.k = k; }; expand(n, nullptr); f(n); return canon(n); }
// ---- the tree of a written document, with an XML parser of our own choice
using namespace xercesc;
static Str xs(const XMLCh* c) { icu::UnicodeString u((const UChar*)c); return toS(u); }
static N tree(const DOMNode* e) { N n; n.tag = xs(e->getNodeName()); DOMNamedNodeMap* m = e->getAttributes(); for (XMLSize_t i = 0; m && i < m->getLength(); ++i) n.at.push_back({xs(m->item(i)->getNodeName()), xs(m->item(i)->getNodeValue())}); for (const DOMNode* c = e->getFirstChild(); c; c = c->getNextSibling()) { if (c->getNodeType() == DOMNode::ELEMENT_NODE) n.k.push_back(tree(c)); else if (c->getNodeType() == DOMNode::TEXT_NODE || c->getNodeType() == DOMNode::CDATA_SECTION_NODE) n.text += xs(c->getNodeValue()); } if (!n.k.empty()) n.text = ""; return n; }
struct EH : ErrorHandler { void warning(const SAXParseException&) {} void error(const SAXParseException& e) { throw e; } void fatalError(const SAXParseException& e) { throw e; } void resetErrors() {} };
static N parseTree(const Str& x, const char* what) { EH eh; XercesDOMParser p; p.setErrorHandler(&eh); p.setDoNamespaces(true); MemBufInputSource is((XMLByte const*)x.data(), x.size(), "out"); try { p.parse(is); } catch (SAXParseException& e) { mc::note("%s", x.c_str()); mc::fail("%s is not well-formed XML: %s", what, xs(e.getMessage()).c_str()); } return tree(p.getDocument()->getDocumentElement()); }
// ---- the tree of a description, through its getters
static Str b2(bool b) { return b ? "true" : "false"; }
static N keyN(const FSIndexKeyDescription* k) { N n = E("fsIndexKey"); if (k->isTypePriority()) return n.add(E("typePriority")); n.add(L("featureName", toS(k->getFeatureName()))).add(L("comparator", k->getComparator() == FSIndexKeyDescription::STANDARD ? "standard" : "reverse")); return n; }
static N indexesN(const MD::TyVecpFSIndexDescriptions& v) { N n = E("fsIndexes"); for (auto d : v) { N x = E("fsIndexDescription"); x.add(L("label", toS(d->getLabel()))).add(L("typeName", toS(d->getTypeName()))).add(L("kind", d->getIndexKind() == FSIndexDescription::BAG ? "bag" : d->getIndexKind() == FSIndexDescription::SET ? "set" : "sorted")); N ks = E("keys"); for (auto k : d->getFSIndexKeys()) ks.add(keyN(k)); n.add(x.add(ks)); } return n; }
static N priosN(const MD::TyVecpTypePriorities& v) { N n = E("typePriorities"); for (auto p : v) { N x = E("priorityList"); for (auto& t : p->getTypeOrder()) x.add(L("type", toS(t))); n.add(x); } return n; }
static N mappingsN(const AED::TyVecpSofaMappings& v) { N n = E("sofaMappings"); for (auto m : v) n.add(E("sofaMapping", {L("componentKey", toS(m->getComponentKey())), L("componentSofaName", toS(m->getComponentSofaName())), L("aggregateSofaName", toS(m->getAggregateSofaName()))})); return n; }
static N valueN(NameValuePair* p) {
  auto one = [&](const char* k, const Str& s) { return L(k, s); }; N v = E("value"), a = E("array"); bool m = p->isMultiValued(); N& to = m ? a : v;
  switch (p->getType()) {
    case ConfigurationParameter::STRING: if (m) for (auto& s : p->extractStringValues()) to.add(one("string", toS(s))); else to.add(one("string", toS(p->extractStringValue()))); break;
    case ConfigurationParameter::INTEGER: if (m) for (int i : p->extractIntValues()) to.add(one("integer", std::to_string(i))); else to.add(one("integer", std::to_string(p->extractIntValue()))); break;
    case ConfigurationParameter::FLOAT: if (m) for (float f : p->extractFloatValues()) to.add(one("float", mc::fmt("%a", f))); else to.add(one("float", mc::fmt("%a", p->extractFloatValue()))); break;
    default: if (m) for (bool f : p->extractBoolValues()) to.add(one("boolean", b2(f))); else to.add(one("boolean", b2(p->extractBoolValue()))); }
  if (m) v.add(a); return v;
}
static N settingsN(MD& md, const N* in) { // the settings the document gives, as the description has them
  N n = E("configurationParameterSettings"); if (!in) return n;
  auto get = [&](const Str& g, const Str& p) { N x = E("nameValuePair"); NameValuePair* v = nullptr; try { v = g.empty() ? md.getNameValuePair(U(p)) : md.getNameValuePair(U(g), U(p), MD::NONE); } catch (uima::Exception&) { } if (!v) return L("missing", p); x.add(L("name", toS(v->getName()))).add(valueN(v)); return x; };
  for (auto& c : in->k) { if (c.tag == "nameValuePair") n.add(get("", trim(const_cast<N&>(c).kid("name")->text))); else for (auto& w : words(c.attr("name"))) { N g = A(E("settingsForGroup"), "name", w); for (auto& p : c.k) g.add(get(w, trim(const_cast<N&>(p).kid("name")->text))); n.add(g); } }
  return n;
}
static N descN(AED& d, const N& in) {
  N r = E(toS(d.getXmlRootTag())); r.add(L("frameworkImplementation", d.getFrameworkImplName() == AED::JAVA ? "org.apache.uima.java" : "org.apache.uima.cpp")); bool cc = r.tag == "casConsumerDescription"; if (!cc) r.add(L("primitive", b2(d.isPrimitive()))); else CK(d.isPrimitive(), "a CAS consumer is not primitive"); if (cc || d.isPrimitive()) r.add(L(cc ? "implementationName" : "annotatorImplementationName", toS(d.getAnnotatorImpName())));
  N mdn = E(cc ? "processingResourceMetaData" : "analysisEngineMetaData"); MD& md = *d.getAnalysisEngineMetaData(); N im = *const_cast<N&>(in).kid(mdn.tag);
  mdn.add(L("name", toS(md.getName()))).add(L("description", toS(md.getDescription()))).add(L("version", toS(md.getVersion()))).add(L("vendor", toS(md.getVendor()))); mdn.add(settingsN(md, im.kid("configurationParameterSettings")));
  if (N* p = im.kid("configurationParameters")) { bool g = false; for (auto& c : p->k) g |= c.tag != "configurationParameter"; CK(md.hasGroups() == g, "hasGroups is wrong"); CK(md.hasDefaultGroup() == !p->attr("defaultGroup").empty(), "hasDefaultGroup is wrong"); Str st = p->attr("searchStrategy"); if (g) CK(md.getSearchStrategy() == (st == "default_fallback" ? MD::DEFAULT_FALLBACK : st == "language_fallback" ? MD::LANGUAGE_FALLBACK : MD::NONE), "the search strategy is wrong"); }
  N ty = E("types"); if (auto ts = md.getTypeSystemDescription()) for (auto t : ts->getTypeDescriptions()) { N x = E("typeDescription", {L("name", toS(t->getName())), L("description", toS(t->getDescription())), L("supertypeName", toS(t->getSuperTypeName()))}), fs = E("features"), av = E("allowedValues"); for (auto f : t->getFeatureDescriptions()) fs.add(E("featureDescription", {L("name", toS(f->getName())), L("description", toS(f->getDescription())), L("rangeTypeName", toS(f->getRangeTypeName())), L("elementType", toS(f->getElementType())), L("multipleReferencesAllowed", b2(f->isMultipleReferencesAllowed()))})); for (auto v : t->getAllowedValues()) av.add(E("value", {L("string", toS(v->getName())), L("description", toS(v->getDescription()))})); ty.add(x.add(fs).add(av)); }
  mdn.add(E("typeSystemDescription", {ty})); mdn.add(priosN(md.getTypePriorities())); mdn.add(E("fsIndexCollection", {indexesN(md.getFSIndexDescriptions())}));
  N cs = E("capabilities"); for (auto c : md.getCapabilites()) { N x = E("capability"), i = E("inputs"), o = E("outputs"), is = E("inputSofas"), os = E("outputSofas"), l = E("languagesSupported"); for (auto& t : c->getCapabilityTypes(Capability::INPUT)) i.add(L("type", toS(t))); for (auto& t : c->getCapabilityFeatures(Capability::INPUT)) i.add(L("feature", toS(t))); for (auto& t : c->getCapabilityTypes(Capability::OUTPUT)) o.add(L("type", toS(t))); for (auto& t : c->getCapabilityFeatures(Capability::OUTPUT)) o.add(L("feature", toS(t))); for (auto& t : c->getCapabilitySofas(Capability::INPUTSOFA)) is.add(L("sofaName", toS(t))); for (auto& t : c->getCapabilitySofas(Capability::OUTPUTSOFA)) os.add(L("sofaName", toS(t))); for (auto& t : c->getSupportedLanguages()) l.add(L("language", toS(t))); cs.add(x.add(i).add(o).add(is).add(os).add(l)); } mdn.add(cs);
  if (auto o = md.getOperationalProperties()) mdn.add(E("operationalProperties", {L("modifiesCas", b2(o->getModifiesCas())), L("multipleDeploymentAllowed", b2(o->isMultipleDeploymentAllowed())), L("outputsNewCASes", b2(o->getOutputsNewCASes()))}));
  if (auto f = md.getFlowConstraints()) { N x = E(f->getFlowConstraintsType() == FlowConstraints::FIXED ? "fixedFlow" : "capabilityLanguageFlow"); for (auto& n : f->getNodes()) x.add(L("node", toS(n))); mdn.add(E("flowConstraints", {x})); }
  if (!d.isPrimitive()) { N ds = E("delegateAnalysisEngineSpecifiers"); N* id = const_cast<N&>(in).kid("delegateAnalysisEngineSpecifiers"); for (auto& p : d.getDelegates()) { N x = A(E("delegateAnalysisEngine"), "key", toS(p.first)); const N* sub = nullptr; if (id) for (auto& c : id->k) if (c.attr("key") == toS(p.first)) sub = &c.k[0]; if (sub) { CK(d.getDelegate(p.first) == p.second, "getDelegate(%s) is another one", toS(p.first).c_str()); x.add(descN(*p.second, *sub)); } ds.add(x); } r.add(ds); }
  r.add(mdn); r.add(mappingsN(d.getSofaMappings())); return r;
}
// ---- the check
static void read(AED& d, const Str& x, const char* what) { XMLParser p; MemBufInputSource is((XMLByte const*)x.data(), x.size(), "sys"); try { p.parseAnalysisEngineDescription(d, is); } catch (uima::Exception& e) { mc::note("%s", x.c_str()); mc::fail("%s is refused: %s", what, e.getErrorInfo().getMessage().asString().c_str()); } }
static const Str HEAD = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>";
static void same(const Str& got, const Str& want, const char* what) { if (got == want) { ++mc::X().checks; return; } size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i; i = i > 40 ? i - 40 : 0; mc::note("got %s", got.c_str()); mc::note("want %s", want.c_str()); mc::fail("%s: ...%s... instead of ...%s...", what, got.substr(i, 160).c_str(), want.substr(i, 160).c_str()); }
static void roundTrip(N root, int style) {
  root.at.push_back({"xmlns", "http://uima.apache.org/resourceSpecifier"}); Str x = HEAD + xml(root, style), m = meaning(root), g = withoutParams(root); mc::state(x); if (x.size() < 3000) mc::note("%s", x.c_str());
  AED d; if (style == COMPACT && x.size() % 2) { TextAnalysisEngineSpecifierBuilder b; try { b.buildTaeFromMemory(d, U(x)); } catch (uima::Exception& e) { mc::fail("the document is refused: %s", e.getErrorInfo().getMessage().asString().c_str()); } } else read(d, x, "the document");
  same(withoutParams(descN(d, root)), g, "read from the document"); icu::UnicodeString out("left over"); d.toXMLBuffer(out); Str o = toS(out); N t = parseTree(o, "what toXMLBuffer writes"); same(meaning(t), m, "written by toXMLBuffer");
  AED d2; read(d2, o, "what toXMLBuffer writes"); same(withoutParams(descN(d2, root)), g, "read again"); icu::UnicodeString out2; d2.toXMLBuffer(out2); same(meaning(parseTree(toS(out2), "the second writing")), m, "written again"); mc::outcome(m);
}
static void standalone(AED& d) {
  TextAnalysisEngineSpecifierBuilder b; MD& md = *d.getAnalysisEngineMetaData();
  { icu::UnicodeString s; b.appendToXMLBuffer(md.getFSIndexDescriptions(), s); Str want = canon(indexesN(md.getFSIndexDescriptions())); same(canon(parseTree(toS(s), "the index description")), want, "index description"); MD::TyVecpFSIndexDescriptions v; b.buildFromXMLBuffer(v, s); same(canon(indexesN(v)), want, "index description read again");
    MD::TyVecpFSIndexDescriptions w; b.buildFromXMLBuffer(w, U("<fsIndexCollection>") + s + U("</fsIndexCollection>")); same(canon(indexesN(w)), want, "index collection read again"); for (auto p : v) delete p; for (auto p : w) delete p; }
  if (!md.getTypePriorities().empty()) { icu::UnicodeString s; b.appendToXMLBuffer(md.getTypePriorities(), s); Str want = canon(priosN(md.getTypePriorities())); same(canon(parseTree(toS(s), "the priorities")), want, "priorities"); MD::TyVecpTypePriorities v; b.buildFromXMLBuffer(v, s); same(canon(priosN(v)), want, "priorities read again"); for (auto p : v) delete p; }
  if (!d.getSofaMappings().empty()) { icu::UnicodeString s; b.appendToXMLBuffer(d.getSofaMappings(), s); Str want = canon(mappingsN(d.getSofaMappings())); same(canon(parseTree(toS(s), "the mappings")), want, "mappings"); AED::TyVecpSofaMappings v; b.buildFromXMLBuffer(v, s); same(canon(mappingsN(v)), want, "mappings read again"); for (auto p : v) delete p; }
}
// ---- documents
static const std::vector<Str> POOL = {"plain", "a<b&c>\"d'", "]]>", "\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80", Str(600, 'x') + "end", "two  words", "line1\nline2", "&amp;", "a]]>b<c"}; // not empty
static Str text() { return POOL[mc::choose((int)POOL.size())]; }
static Str word() { static const std::vector<Str> W = {"plain", "a<b&c>\"d'", "]]>", "\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80", Str(600, 'x') + "end"}; return W[mc::choose((int)W.size())]; }
struct Doc { N root, md; };
static Doc doc(int kind) { Doc d; static const char* T[] = {"analysisEngineDescription", "taeDescription", "casConsumerDescription", "analysisEngineDescription"}; d.root = E(T[kind], {L("frameworkImplementation", "org.apache.uima.cpp")}); if (kind == 2) d.root.add(L("implementationName", "impl")); else { d.root.add(L("primitive", kind == 3 ? "false" : "true")); if (kind != 3) d.root.add(L("annotatorImplementationName", "impl")); } d.md = E(kind == 2 ? "processingResourceMetaData" : "analysisEngineMetaData", {L("name", "n")}); return d; }
static N done(Doc& d) { N r = d.root; if (N* m = r.kid("sofaMappings")) { N sm = *m; std::vector<N> k; for (auto& c : r.k) if (c.tag != "sofaMappings") k.push_back(c); r.k = k; r.add(d.md); r.add(sm); } else r.add(d.md); return r; }
static const char* TY[] = {"Boolean", "Integer", "Float", "String"}; static const char* VT[] = {"boolean", "integer", "float", "string"};
static N param(const Str& n, int t, bool multi, bool mand, const Str& restr, const Str& desc) { N p = E("configurationParameter", {L("name", n), L("description", desc), L("type", TY[t]), L("multiValued", b2(multi)), L("mandatory", b2(mand))}); if (!restr.empty()) p.add(L("restrictOverrideTo", restr)); return p; }
static N val(int t, bool multi, std::vector<Str> v) { N x = E("value"), a = E("array"); for (auto& s : v) (multi ? a : x).add(L(VT[t], s)); if (multi) x.add(a); return x; }
static N nvp(const Str& n, N v) { return E("nameValuePair", {L("name", n), v}); }
static N feat(const Str& n, const Str& r, const Str& d = "", const Str& el = "", int mult = 0) { N f = E("featureDescription", {L("name", n), L("description", d), L("rangeTypeName", r)}); if (!el.empty()) f.add(L("elementType", el)); if (mult) f.add(L("multipleReferencesAllowed", b2(mult == 1))); return f; }
static N type(const Str& n, const Str& sup, const Str& d, std::vector<N> fs, std::vector<N> av = {}) { N t = E("typeDescription", {L("name", n), L("description", d), L("supertypeName", sup)}); if (!fs.empty()) t.add(E("features", fs)); if (!av.empty()) t.add(E("allowedValues", av)); return t; }
static int style() { return mc::choose(5); }
static void sHeader() { // names and texts
  int kind = mc::choose(3); Doc d = doc(kind); if (mc::flip()) d.root.k[0].text = "org.apache.uima.java"; int f = mc::choose(6); Str t = f == 5 ? "" : text(); static const char* F[] = {"name", "description", "version", "vendor"}; for (int i = 0; i < 4; ++i) { Str x = i == f ? t : f == 5 ? "" : Str("the ") + F[i]; if (i) d.md.add(L(F[i], x)); else d.md.k[0].text = x; } if (f == 4) d.root.kid(kind == 2 ? "implementationName" : "annotatorImplementationName")->text = t; int st = style(); mc::cover("texts"); roundTrip(done(d), st);
}
static void sParams() { // plain parameters
  Doc d = doc(mc::flip() ? 3 : 0); N ps = E("configurationParameters"); static const char* ST[] = {"", "none", "default_fallback", "language_fallback"}; int w = mc::choose(3), t = mc::choose(4); Str n = "P", de = "about it", r; bool mu = false, ma = false; if (w == 0) { mu = mc::flip(); ma = mc::flip(); static const char* R[] = {"", "a", "a b", "\xc3\xa9 a"}; r = R[mc::choose(4)]; const char* s = ST[mc::choose(4)]; if (*s) ps = A(ps, "searchStrategy", s); } else if (w == 1) n = text(); else de = text();
  ps.add(param(n, t, mu, ma, r, de)); if (mc::flip()) ps.add(param("Other", 3, true, false, "", "")); d.md.add(ps); int st = w ? style() : 0; if (d.root.kid("primitive")->text == "false") d.md.add(E("flowConstraints", {E("fixedFlow")})); mc::cover("plain parameters"); roundTrip(done(d), st);
}
static void sGroups() { // parameters in groups and their settings
  Doc d = doc(mc::flip() ? 2 : 0); N ps = E("configurationParameters"), ss = E("configurationParameterSettings"); static const char* ST[] = {"", "none", "default_fallback", "language_fallback"}; bool th = mc::thorough(); int si = mc::choose(4); const char* s = ST[si]; Str g = si > 1 && !th ? Str("plain") : word(); int def = mc::choose(3); if (def) ps = A(ps, "defaultGroup", def == 1 ? g : "zz"); if (*s) ps = A(ps, "searchStrategy", s); int com = mc::choose(3); if (com) { N c = E("commonParameters", {param("C", 1, false, false, "", "")}); if (com == 2) c.add(param("C2", 3, true, true, "", "x<y")); ps.add(c); }
  int shape = mc::choose(4); static const char* NM[] = {"", " b", " b c", " b"}; N cg = A(E("configurationGroup"), "names", g + NM[shape]); if (shape != 3) cg.add(param("P", 3, false, true, "", "d")); ps.add(cg); if (mc::flip()) ps.add(A(E("configurationGroup", {param("P", 0, true, false, "", "")}), "names", "other")); if (def == 2) ps.add(A(E("configurationGroup"), "names", "zz"));
  int set = mc::choose(4); bool oth = ps.k.size() > 2; if (set && shape != 3) ss.add(A(E("settingsForGroup", {nvp("P", val(3, false, {"v"}))}), "name", set == 2 && shape ? g + " b" : g)); if (com && set > 1) ss.add(A(E("settingsForGroup", {nvp("C", val(1, false, {"7"}))}), "name", shape ? "b" : g)); d.md.add(ps).add(ss); mc::cover("groups"); roundTrip(done(d), set == 1 && (th || (si == 1 && !oth)) ? style() : 0);
}
static const std::vector<std::vector<Str>> VALS = {{"true", "false"}, {"0", "-1", "2147483647", "-2147483648", "42"}, {"0", "-1.5", "0.1", "3.4028235e38", "1e-30", "-1.17549435e-38", "123456.789", "16777217", "1e10"}, POOL};
static void sSettings() {
  Doc d = doc(0); int t = mc::choose(4); bool multi = mc::flip(); auto& V = VALS[t]; std::vector<Str> v; int n = multi ? 1 + mc::choose(3) : 1, f = mc::choose((int)V.size()); for (int i = 0; i < n; ++i) v.push_back(V[(f + i) % V.size()]); if (t == 3 && mc::choose(4) == 3) v[0] = "";
  d.md.add(E("configurationParameters", {param("P", t, multi, false, "", ""), param("Q<", 3, false, false, "", "")})); N ss = E("configurationParameterSettings", {nvp("P", val(t, multi, v))}); if (mc::flip()) ss.add(nvp("Q<", val(3, false, {"q"}))); d.md.add(ss); int st = style(); mc::cover("settings"); roundTrip(done(d), st);
}
static void sAssigned() { // what a program sets is what is written
  int t = mc::choose(4); bool multi = mc::flip(), had = mc::flip(); auto& V = VALS[t]; int n = multi ? mc::choose(4) : 1, f = n ? mc::choose((int)V.size()) : 0; std::vector<Str> v; for (int i = 0; i < n; ++i) v.push_back(V[(f + i) % V.size()]); bool grouped = mc::flip(); Str g = "g<1>";
  Doc d = doc(0); N p = param("P", t, multi, false, "", ""); N ps = E("configurationParameters"); if (grouped) ps.add(A(E("configurationGroup", {p}), "names", g)); else ps.add(p); d.md.add(ps); auto set = [&](N v) { N ss = E("configurationParameterSettings"); if (grouped) ss.add(A(E("settingsForGroup", {nvp("P", v)}), "name", g)); else ss.add(nvp("P", v)); return ss; }; N old = d.md; if (had) d.md.add(set(val(t, multi, {V[0]}))); N root = done(d); root.at.push_back({"xmlns", "http://uima.apache.org/resourceSpecifier"}); mc::step("%d values from %d, %s%s", n, f, TY[t], grouped ? ", in a group" : "");
  AED ad; read(ad, HEAD + xml(root, 0), "the document"); ad.validate(); ad.commit(); AnnotatorContext ac(&ad); TyErrorId e; icu::UnicodeString P("P"), G = U(g);
#define AS(x) (grouped ? ac.assignValue(G, P, x) : ac.assignValue(P, x))
  switch (t) { case 0: { std::vector<bool> b; for (auto& s : v) b.push_back(s == "true"); e = multi ? AS(b) : AS(bool(b[0])); break; } case 1: { std::vector<int> b; for (auto& s : v) b.push_back((int)strtol(s.c_str(), 0, 10)); e = multi ? AS(b) : AS(b[0]); break; } case 2: { std::vector<float> b; for (auto& s : v) b.push_back(strtof(s.c_str(), 0)); e = multi ? AS(b) : AS(b[0]); break; } default: { std::vector<icu::UnicodeString> b; for (auto& s : v) b.push_back(U(s)); e = multi ? AS(b) : AS(b[0]); } }
  CK(e == UIMA_ERR_NONE, "the assignment is refused"); Doc w = d; w.md = old; w.md.add(set(val(t, multi, v))); N want = done(w); Str m = meaning(want); mc::state(m); icu::UnicodeString out; ad.toXMLBuffer(out); same(meaning(parseTree(toS(out), "what toXMLBuffer writes")), m, "written after an assignment");
  AED d2; Str o = toS(out); if (!n) { mc::cover("empty array"); bool ok = true; try { XMLParser p; MemBufInputSource is((XMLByte const*)o.data(), o.size(), "sys"); p.parseAnalysisEngineDescription(d2, is); } catch (uima::Exception&) { ok = false; } MC_CHECK_K("empty-array", ok, "a descriptor written with an empty array setting is refused when read again"); return; } read(d2, o, "what toXMLBuffer writes"); if (n) { same(withoutParams(descN(d2, want)), withoutParams(want), "read again after an assignment"); } icu::UnicodeString o2; d2.toXMLBuffer(o2); if (n) same(meaning(parseTree(toS(o2), "the second writing")), m, "written again after an assignment"); mc::cover("assigned"); mc::outcome(m);
}
static void sTypes() {
  Doc d = doc(mc::choose(3)); N ts = E("types"); int w = mc::choose(5); auto av = [&](const Str& s, const Str& de) { return E("value", {L("string", s), L("description", de)}); };
  if (w == 0) { static const char* R[] = {"uima.cas.Integer", "uima.cas.String", "uima.cas.FSArray", "uima.cas.FSList", "x.B"}; std::vector<N> fs; int n = mc::choose(3); for (int i = 0; i < n; ++i) fs.push_back(feat("f" + std::to_string(i), R[mc::choose(5)], "", mc::flip() ? "x.B" : "", mc::choose(3))); ts.add(type("x.A", mc::flip() ? "x.B" : "uima.tcas.Annotation", "", fs)); if (mc::flip()) ts.add(type("x.B", "uima.cas.TOP", "", {})); else ts.add(type("x.B", "uima.cas.TOP", "", {feat("g", "uima.cas.Float")})); }
  else if (w == 1) ts.add(type("x.A", "uima.cas.TOP", text(), {feat("f", "uima.cas.Integer")})); else if (w == 2) ts.add(type("x.A", "uima.cas.TOP", "", {feat("f", "uima.cas.Integer", text())}));
  else { Str s = "v", de = "d"; (w == 3 ? s : de) = text(); std::vector<N> vs = {av(s, de)}; if (mc::flip()) vs.push_back(av("second", "")); ts.add(type("x.E", "uima.cas.String", "", {}, vs)); ts.add(type("x.A", "uima.cas.TOP", "", {feat("f", "x.E")})); }
  int st = w == 0 ? 0 : style(); d.md.add(E("typeSystemDescription", {ts})); mc::cover("types"); roundTrip(done(d), st);
}
static N key(int k, const Str& f) { return k == 2 ? E("fsIndexKey", {E("typePriority")}) : E("fsIndexKey", {L("featureName", f), L("comparator", k ? "reverse" : "standard")}); }
static void sIndexes() {
  bool th = mc::thorough(); int w = mc::choose(3); Doc d = doc(w == 0 && !th ? 0 : mc::choose(3)); N ix = E("fsIndexes"); static const char* K[] = {"bag", "set", "sorted"}; N one = E("fsIndexDescription"); std::vector<N> ks;
  if (w == 0) { int n = mc::choose(4); for (int i = 0; i < n; ++i) ks.push_back(key(mc::choose(3), "f" + std::to_string(i))); one.add(L("label", "Ix")); } else if (w == 1) one.add(L("label", text())); else { one.add(L("label", "Ix")); ks.push_back(key(mc::choose(2), text())); }
  one.add(L("typeName", "x.A")).add(L("kind", K[mc::choose(3)])); if (!ks.empty()) one.add(E("keys", ks)); ix.add(one); bool all = th || w == 0; if (all && mc::flip()) ix.add(E("fsIndexDescription", {L("label", "Second"), L("typeName", "uima.tcas.Annotation"), L("kind", "bag")}));
  N pr = E("typePriorities"); int np = all ? mc::choose(4) : 0; static const std::vector<std::vector<Str>> P = {{"x.A"}, {"x.A", "x.B"}, {"x.B", "x.A", "uima.tcas.Annotation"}}; for (int i = 0; i < (np + 1) / 2; ++i) { N l = E("priorityList"); for (auto& t : P[(np + i) % 3]) l.add(L("type", t)); pr.add(l); } if (np) d.md.add(pr);
  d.md.add(mc::flip() ? ix : E("fsIndexCollection", {ix})); int st = th || w ? style() : 0; N r = done(d); N wrapped = r; N& m = *wrapped.kid(d.md.tag); for (auto& c : m.k) if (c.tag == "fsIndexes") { N x = c; c = E("fsIndexCollection", {x}); } // both forms mean the same
  if (r.kid(d.md.tag)->kid("fsIndexes")) { r.at.push_back({"xmlns", "http://uima.apache.org/resourceSpecifier"}); AED a; read(a, HEAD + xml(r, st), "the document"); same(withoutParams(descN(a, wrapped)), withoutParams(wrapped), "read from a bare index list"); standalone(a); } else { roundTrip(r, st); r.at.push_back({"xmlns", "http://uima.apache.org/resourceSpecifier"}); AED a; read(a, HEAD + xml(r, st), "the document"); standalone(a); } mc::cover("indexes");
}
static void sCaps() {
  Doc d = doc(mc::choose(2)); if (mc::flip()) d.md.add(E("typeSystemDescription", {E("types", {type("x.A", "uima.tcas.Annotation", "", {feat("f", "uima.cas.Integer"), feat("g", "uima.cas.String")})})})); N cs = E("capabilities"); int n = mc::choose(3); for (int i = 0; i < n; ++i) { N c = E("capability"); int w = i ? mc::choose(2) : mc::choose(4);
    N in = E("inputs"), out = E("outputs"), is = E("inputSofas"), os = E("outputSofas"), l = E("languagesSupported"); if (w == 0) { int k = mc::choose(8); if (k & 1) in.add(L("type", "x.A")); if (k & 2) in.add(L("feature", "x.A:f")); if (k & 4) { in.add(A(L("type", "x.A"), "allAnnotatorFeatures", "true")); out.add(A(L("type", "x.A"), "allAnnotatorFeatures", "false")); } if (mc::flip()) out.add(L("type", "x.B")).add(L("feature", "x.B:f")).add(L("type", "x.C")); } if (w == 1) { is.add(L("sofaName", "s1")); os.add(L("sofaName", "s2")).add(L("sofaName", "s3")); l.add(L("language", "en")).add(L("language", "x-unspecified")); } if (w == 2) { Str t = text(); (mc::flip() ? is : os).add(L("sofaName", t)); } if (w == 3) l.add(L("language", word()));
    c.add(in).add(out).add(is).add(os).add(l); cs.add(c); } d.md.add(cs); bool th = mc::thorough(); int k = th || !n ? mc::choose(9) : 8; if (k < 8) d.md.add(E("operationalProperties", {L("modifiesCas", b2(k & 1)), L("multipleDeploymentAllowed", b2(k & 2)), L("outputsNewCASes", b2(k & 4))})); mc::cover("capabilities"); roundTrip(done(d), k == 8 && (th || n < 2) ? style() : 0);
}
static N primitive(const Str& name) { Doc d = doc(mc::thorough() ? mc::choose(3) : (int)name.size() % 3); d.md.k[0].text = name; d.md.add(E("typeSystemDescription", {E("types", {type("x." + Str(1, name[0] & 0x7f ? 'A' : 'B'), "uima.cas.TOP", "", {feat("f", "uima.cas.Integer")})})})); return done(d); }
static void sAggregate() {
  Doc d = doc(3); int nd = mc::choose(3); int wh = mc::choose(5); Str t = wh ? (wh == 1 ? word() : text()) : ""; Str k1 = wh == 1 ? t : "d1"; N ds = E("delegateAnalysisEngineSpecifiers"); bool nest = false; if (nd > 0) ds.add(A(E("delegateAnalysisEngine", {primitive("first")}), "key", k1)); if (nd > 1) { nest = mc::flip(); if (nest) { Doc m = doc(3); m.md.k[0].text = "middle"; N x = E("delegateAnalysisEngineSpecifiers", {A(E("delegateAnalysisEngine", {primitive("inner")}), "key", "in")}); m.root.add(x); m.md.add(E("flowConstraints", {E("fixedFlow", {L("node", "in")})})); m.root.add(E("sofaMappings", {E("sofaMapping", {L("componentKey", "in"), L("componentSofaName", "a"), L("aggregateSofaName", "b")})})); ds.add(A(E("delegateAnalysisEngine", {done(m)}), "key", "d2")); } else ds.add(A(E("delegateAnalysisEngine", {primitive("second")}), "key", "d2")); }
  d.root.add(ds); bool th = mc::thorough(); int fl = wh && !th ? 1 : mc::choose(4); N f = E(fl == 1 ? "fixedFlow" : "capabilityLanguageFlow"); if (nd) f.add(L("node", wh == 4 ? t : k1)); if (nd > 1) f.add(L("node", "d2")); if (fl == 3) f.add(L("node", k1)); if (fl) d.md.add(E("flowConstraints", {f})); int nm = wh && !th ? 2 : mc::choose(3); N sm = E("sofaMappings"); if (nm) { N m = E("sofaMapping", {L("componentKey", wh == 2 ? t : k1)}); if (nm == 2) m.add(L("componentSofaName", wh == 3 ? t : "in")); m.add(L("aggregateSofaName", wh == 3 ? t : "out")); sm.add(m); if (nm == 2) sm.add(E("sofaMapping", {L("componentKey", "d2"), L("componentSofaName", "_InitialView"), L("aggregateSofaName", "x")})); d.root.add(sm); }
  int st = wh ? style() : 0; N r = done(d); mc::cover(fl ? "aggregate" : "no flow"); roundTrip(r, st); if (nm) { r.at.push_back({"xmlns", "http://uima.apache.org/resourceSpecifier"}); AED a; read(a, HEAD + xml(r, st), "the document"); standalone(a); }
}
static void combined() { // every combination of absent, empty and filled sections
  int kind = mc::choose(4); Doc d = doc(kind); auto c = [&](int n) { return mc::choose(mc::thorough() ? n : n > 2 ? n : 2); }; int pa = c(4), se = pa ? mc::choose(2) : 0, ty = c(3), pr = c(2), ix = c(3), ca = c(3), op = c(2), st = mc::thorough() ? mc::choose(5) : (pa + ty + ix) % 5;
  d.md.add(L("description", "de<s>")).add(L("version", "1.0")); N p1 = param("P", 2, true, true, kind == 3 ? "d1" : "", "p&"), ss = E("configurationParameterSettings"); if (pa == 1) d.md.add(E("configurationParameters")); if (pa == 2) { d.md.add(E("configurationParameters", {p1})); if (se) ss.add(nvp("P", val(2, true, {"0.1", "7"}))); } if (pa == 3) { d.md.add(A(E("configurationParameters", {A(E("configurationGroup", {p1}), "names", "en de")}), "searchStrategy", "language_fallback")); if (se) ss.add(A(E("settingsForGroup", {nvp("P", val(2, true, {"0.1", "7"}))}), "name", "en")); } if (se || pa == 1) d.md.add(ss);
  if (kind == 3) d.md.add(E("flowConstraints", {E("fixedFlow", {L("node", "d1")})})); if (ty) d.md.add(ty == 1 ? E("typeSystemDescription", {E("types")}) : E("typeSystemDescription", {E("types", {type("x.A", "uima.tcas.Annotation", "t<", {feat("f", "uima.cas.Integer")})})})); if (pr) d.md.add(E("typePriorities", {E("priorityList", {L("type", "x.A"), L("type", "x.B")})})); if (ix) d.md.add(E("fsIndexCollection", {ix == 1 ? E("fsIndexes") : E("fsIndexes", {E("fsIndexDescription", {L("label", "I&"), L("typeName", "x.A"), L("kind", "sorted"), E("keys", {key(1, "f"), key(2, "")})})})}));
  if (ca) d.md.add(ca == 1 ? E("capabilities", {E("capability")}) : E("capabilities", {E("capability", {E("inputs", {A(L("type", "x.A"), "allAnnotatorFeatures", "true")}), E("outputs"), E("languagesSupported", {L("language", "en")})})})); if (op) d.md.add(E("operationalProperties", {L("modifiesCas", "false"), L("multipleDeploymentAllowed", "true"), L("outputsNewCASes", "false")})); if (kind == 3) { Doc i = doc(mc::choose(3)); d.root.add(E("delegateAnalysisEngineSpecifiers", {A(E("delegateAnalysisEngine", {done(i)}), "key", "d1")})); if (mc::flip()) d.root.add(E("sofaMappings", {E("sofaMapping", {L("componentKey", "d1"), L("componentSofaName", "a"), L("aggregateSofaName", "b")})})); } mc::cover("combined"); roundTrip(done(d), st);
}
void mc_body() { switch (mc::choose(11)) { case 0: return sHeader(); case 1: return sParams(); case 2: return sGroups(); case 3: return sSettings(); case 4: return sAssigned(); case 5: return sTypes(); case 6: return sIndexes(); case 7: return sCaps(); case 8: return sAggregate(); default: return combined(); case 10: return; } }
int main(int c, char** v) { return mc::run(c, v); }
