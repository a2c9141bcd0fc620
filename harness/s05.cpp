// S05: damaged XML input is refused cleanly and leaves the CAS usable
#include "ser.hpp"
#include "uima/xmiwriter.hpp"
#include "uima/xmideserializer.hpp"
#include "uima/xcasdeserializer.hpp"
#include "uima/xmlwriter.hpp"
#include "uima/taespecifierbuilder.hpp"
#include <sys/stat.h>
#include "xercesc/sax2/SAX2XMLReader.hpp"
#include "xercesc/sax2/XMLReaderFactory.hpp"
#include "xercesc/sax2/DefaultHandler.hpp"
#include "xercesc/sax2/Attributes.hpp"
#include "xercesc/sax/SAXParseException.hpp"
using namespace ser; namespace xe = XERCES_CPP_NAMESPACE;
// ---------------------------------------------------------------- a document as a tree
struct Node { std::string name; std::vector<std::pair<std::string, std::string>> attr; std::vector<Node> ch; std::string text; };
static std::string esc(const std::string& s) { std::string r; for (char c : s) { if (c == '<') r += "&lt;"; else if (c == '&') r += "&amp;"; else if (c == '"') r += "&quot;"; else r += c; } return r; }
static void put(const Node& n, std::string& o) { o += "<" + n.name; for (auto& a : n.attr) o += " " + a.first + "=\"" + esc(a.second) + "\""; o += ">"; o += esc(n.text); for (auto& c : n.ch) put(c, o); o += "</" + n.name + ">"; }
static std::string xml(const Node& n) { std::string o = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>"; put(n, o); return o; }
static std::string X(const XMLCh* s) { icu::UnicodeString u((const UChar*)s); std::string r; u.toUTF8String(r); return r; }
struct Tree : xe::DefaultHandler {   // parses into a tree, telling whether the text is well formed
  Node root; std::vector<Node*> st; std::vector<Node> hold; bool bad = false; std::map<const Node*, std::string> dummy; bool keep; std::vector<std::pair<std::string, std::vector<std::pair<std::string, std::string>>>> flat; std::vector<int> depth; int d = 0;
  explicit Tree(bool k = true) : keep(k) {}
  void error(const xe::SAXParseException&) { bad = true; } void fatalError(const xe::SAXParseException&) { bad = true; }
  void startElement(const XMLCh* const uri, const XMLCh* const local, const XMLCh* const qn, const xe::Attributes& a) {
    Node n; n.name = X(qn); for (XMLSize_t i = 0; i < a.getLength(); ++i) n.attr.emplace_back(X(a.getQName(i)), X(a.getValue(i)));
    flat.emplace_back(X(uri) + " " + X(local), n.attr); depth.push_back(++d); hold.push_back(n); }
  void characters(const XMLCh* const s, const XMLSize_t n) { if (hold.empty()) return; icu::UnicodeString u((const UChar*)s, (int)n); std::string r; u.toUTF8String(r); if (r.find_first_not_of(" \n\t\r") != std::string::npos) hold.back().text += r; }
  void endElement(const XMLCh* const, const XMLCh* const, const XMLCh* const) { --d; Node n = hold.back(); hold.pop_back(); if (hold.empty()) root = n; else hold.back().ch.push_back(n); }
};
static bool parse(const std::string& x, Tree& t) {
  static xe::SAX2XMLReader* rd = nullptr; if (!rd) { rd = xe::XMLReaderFactory::createXMLReader(); rd->setFeature(xe::XMLUni::fgSAX2CoreNameSpaces, true); rd->setFeature(xe::XMLUni::fgSAX2CoreNameSpacePrefixes, true); }
  rd->setContentHandler(&t); rd->setErrorHandler(&t); xe::MemBufInputSource in((const XMLByte*)x.data(), x.size(), "mem"); try { rd->parse(in); } catch (xe::XMLException&) { t.bad = true; } catch (xe::SAXException&) { t.bad = true; } return !t.bad; }
static void all(Node& n, std::vector<Node*>& o) { o.push_back(&n); for (auto& c : n.ch) all(c, o); }
static Node* parent(Node& r, Node* x, int& at) { for (size_t i = 0; i < r.ch.size(); ++i) { if (&r.ch[i] == x) { at = (int)i; return &r; } if (Node* p = parent(r.ch[i], x, at)) return p; } return nullptr; }
// ---------------------------------------------------------------- documents
static std::string types5() {
  return enumXML("t.E", {"red", "green"}) + typ("t.N", "uima.cas.TOP", feat("id", "uima.cas.Integer") + feat("r", "uima.cas.TOP") + feat("q", "t.N") + feat("s", "uima.cas.String") + feat("f", "uima.cas.Float") + feat("bo", "uima.cas.Boolean") + feat("by", "uima.cas.Byte") + feat("sh", "uima.cas.Short") + feat("lo", "uima.cas.Long") + feat("d", "uima.cas.Double") + feat("e", "t.E")
    + feat("af", "uima.cas.FSArray", true) + feat("nf", "uima.cas.FSArray") + feat("ai", "uima.cas.IntegerArray", true) + feat("ns", "uima.cas.StringArray") + feat("nb", "uima.cas.ByteArray") + feat("nl", "uima.cas.FSList") + feat("ml", "uima.cas.FSList", true) + feat("sl", "uima.cas.StringList") + feat("il", "uima.cas.IntegerList", true))
    + typ("t.A", "uima.tcas.Annotation", feat("id", "uima.cas.Integer") + feat("r", "uima.cas.TOP"));
}
static void fill(CAS* c, bool big) {
  c->setDocumentText(U("Text \xC3\xA9.")); TypeSystem const& ts = c->getTypeSystem(); FeatureStructure n = c->createFS(ts.getType(U("t.N"))); n.setIntValue(ff(n, "id"), 1); n.setStringValue(ff(n, "s"), UnicodeStringRef(U("a<b"))); n.setFloatValue(ff(n, "f"), 1.5f); 
  AnnotationFS a = c->createAnnotation(ts.getType(U("t.A")), 0, 4); a.setIntValue(ff(a, "id"), 2); a.setFSValue(ff(a, "r"), n); c->getIndexRepository().addFS(a);
  if (!big) { c->getIndexRepository().addFS(n); n.setFSValue(ff(n, "q"), n); return; }
  FeatureStructure m = c->createFS(ts.getType(U("t.N"))); m.setIntValue(ff(m, "id"), 3); n.setFSValue(ff(n, "q"), m); m.setFSValue(ff(m, "r"), a); c->getIndexRepository().addFS(m);
  n.setBooleanValue(ff(n, "bo"), true); n.setByteValue(ff(n, "by"), 7); n.setShortValue(ff(n, "sh"), -2); n.setLongValue(ff(n, "lo"), 5000000000LL); n.setDoubleValue(ff(n, "d"), 0.25); n.setStringValue(ff(n, "e"), UnicodeStringRef(U("red")));
  ArrayFS af = c->createArrayFS(2); af.set(0, a); af.set(1, m); n.setFSValue(ff(n, "af"), af); m.setFSValue(ff(m, "af"), af); ArrayFS nf = c->createArrayFS(1); nf.set(0, n); n.setFSValue(ff(n, "nf"), nf);
  IntArrayFS ai = c->createIntArrayFS(2); ai.set(0, 4); n.setFSValue(ff(n, "ai"), ai); StringArrayFS ns = c->createStringArrayFS(2); ns.set(0, UnicodeStringRef(U("x"))); ns.set(1, UnicodeStringRef(U("y z"))); n.setFSValue(ff(n, "ns"), ns); ByteArrayFS nb = c->createByteArrayFS(2); nb.set(0, 17); nb.set(1, -1); n.setFSValue(ff(n, "nb"), nb);
  for (const char* k : {"nl", "ml"}) { ListFS l = c->createListFS(); l.addLast(a); l.addLast(m); n.setFSValue(ff(n, k), l); } StringListFS sl = c->createStringListFS(); sl.addLast(U("p")); n.setFSValue(ff(n, "sl"), sl); IntListFS il = c->createIntListFS(); il.addLast(9); n.setFSValue(ff(n, "il"), il);
  CAS* v = c->createView(U("v")); ByteArrayFS da = c->createByteArrayFS(3); da.set(0, 1); v->setSofaDataArray(da, U("m/x")); v->getIndexRepository().addFS(n); CAS* w = c->createView(U("w")); w->setSofaDataURI(U("file:/nowhere"), U("m/y")); w->getIndexRepository().addFS(a);
}
static std::string XMI[2], XCAS[2], WANT5[2][2]; static Node TR[2][2]; static std::vector<std::string> DESC; static std::vector<Node> DT; static TypeSystem* T5; static IxWorld* W5;
static Opt opt5(bool xmi) { Opt o; o.embed = xmi; o.nullStr = false; return o; }
static void readX(CAS* c, int fmt, const std::string& x, int mode) { xe::MemBufInputSource in((const XMLByte*)x.data(), x.size(), "mem"); if (fmt) XCASDeserializer::deserialize(in, *c); else if (mode == 2) { XmiSerializationSharedData sd; XmiDeserializer::deserialize(in, *c, sd); } else XmiDeserializer::deserialize(in, *c, mode == 1); }
static std::string CAPS(const std::string& t) { return "<capability><inputs><type allAnnotatorFeatures=\"true\">" + t + "</type></inputs><outputs><type>" + t + "</type><feature>" + t + ":id</feature></outputs><inputSofas><sofaName>i</sofaName></inputSofas><outputSofas><sofaName>o</sofaName></outputSofas><languagesSupported><language>en</language></languagesSupported></capability>"; }
static std::string prim(bool full) {
  std::string m = "<name>n</name><description>d</description><version>1</version><vendor>v</vendor><configurationParameters defaultGroup=\"g\" searchStrategy=\"language_fallback\"><commonParameters><configurationParameter><name>c</name><type>String</type><multiValued>true</multiValued><mandatory>false</mandatory></configurationParameter></commonParameters><configurationGroup names=\"g en\"><configurationParameter><name>p</name><type>Integer</type><multiValued>false</multiValued><mandatory>true</mandatory></configurationParameter></configurationGroup></configurationParameters>"
    "<configurationParameterSettings><settingsForGroup name=\"g\"><nameValuePair><name>p</name><value><integer>3</integer></value></nameValuePair><nameValuePair><name>c</name><value><array><string>a</string><string>b</string></array></value></nameValuePair></settingsForGroup><settingsForGroup name=\"en\"><nameValuePair><name>p</name><value><integer>4</integer></value></nameValuePair></settingsForGroup></configurationParameterSettings>"
    "<typeSystemDescription><types>" + typ("t.A", "uima.tcas.Annotation", feat("id", "uima.cas.Integer")) + enumXML("t.E", {"red"}) + "</types></typeSystemDescription>";
  if (full) m += "<typePriorities><priorityList><type>t.A</type><type>uima.tcas.Annotation</type></priorityList></typePriorities><fsIndexCollection><fsIndexes><fsIndexDescription><label>x</label><typeName>t.A</typeName><kind>sorted</kind><keys><fsIndexKey><featureName>id</featureName><comparator>reverse</comparator></fsIndexKey><fsIndexKey><typePriority/></fsIndexKey></keys></fsIndexDescription></fsIndexes></fsIndexCollection><capabilities>" + CAPS("t.A") + "</capabilities><operationalProperties><modifiesCas>true</modifiesCas><multipleDeploymentAllowed>true</multipleDeploymentAllowed><outputsNewCASes>false</outputsNewCASes></operationalProperties>";
  return "<analysisEngineDescription><frameworkImplementation>org.apache.uima.cpp</frameworkImplementation><primitive>true</primitive><annotatorImplementationName>none</annotatorImplementationName><analysisEngineMetaData>" + m + "</analysisEngineMetaData></analysisEngineDescription>";
}
static std::string small() { return "<analysisEngineDescription><frameworkImplementation>org.apache.uima.cpp</frameworkImplementation><primitive>true</primitive><annotatorImplementationName>none</annotatorImplementationName><analysisEngineMetaData><name>n</name><configurationParameters><configurationParameter><name>p</name><type>Integer</type></configurationParameter></configurationParameters><configurationParameterSettings><nameValuePair><name>p</name><value><integer>3</integer></value></nameValuePair></configurationParameterSettings></analysisEngineMetaData></analysisEngineDescription>"; }
static std::string aggr() {
  return "<analysisEngineDescription><frameworkImplementation>org.apache.uima.cpp</frameworkImplementation><primitive>false</primitive><delegateAnalysisEngineSpecifiers><delegateAnalysisEngine key=\"a\">" + small() + "</delegateAnalysisEngine><delegateAnalysisEngine key=\"b\">" + small() + "</delegateAnalysisEngine></delegateAnalysisEngineSpecifiers><analysisEngineMetaData><name>n</name><configurationParameters><configurationParameter><name>p</name><type>Integer</type><overrides><parameter>a/p</parameter></overrides></configurationParameter></configurationParameters>"
    "<flowConstraints><fixedFlow><node>a</node><node>b</node></fixedFlow></flowConstraints><capabilities>" + CAPS("uima.tcas.Annotation") + "</capabilities></analysisEngineMetaData><sofaMappings><sofaMapping><componentKey>a</componentKey><componentSofaName>i</componentSofaName><aggregateSofaName>o</aggregateSofaName></sofaMapping></sofaMappings></analysisEngineDescription>";
}
static const VS PRIO = {"<typePriorities><priorityList><type>uima.tcas.Annotation</type><type>uima.cas.TOP</type></priorityList></typePriorities>"}, FSIX = {"<fsIndexes><fsIndexDescription><label>x</label><typeName>uima.tcas.Annotation</typeName><kind>sorted</kind><keys><fsIndexKey><featureName>begin</featureName><comparator>standard</comparator></fsIndexKey></keys></fsIndexDescription></fsIndexes>"};
enum { D_PRIM, D_AGGR, D_TS, D_IX, D_PRIO, D_N };
// reads a descriptor in the way that fits its kind
static void readD(int kind, const std::string& x) {
  ErrorInfo ei;
  if (kind == D_PRIM || kind == D_AGGR) {
    { XMLParser p; AnalysisEngineDescription d; xe::MemBufInputSource in((const XMLByte*)x.data(), x.size(), "mem"); p.parseAnalysisEngineDescription(d, in); AnalysisEngineMetaData* m = d.getAnalysisEngineMetaData(); if (m) { TypeSystem* ts = Framework::createTypeSystem(*m, ei); if (ts) { CAS* c = Framework::createCAS(*ts, *m, ei); if (c) { c->setDocumentText(U("x")); delete c; } delete ts; } } }
    std::string dir = mc::X().scratch + mc::fmt("/%d", (int)getpid()); mkdir(dir.c_str(), 0700); std::string fn = dir + "/d.xml"; FILE* f = fopen(fn.c_str(), "wb"); fwrite(x.data(), 1, x.size(), f); fclose(f);
    AnalysisEngine* e = Framework::createAnalysisEngine(fn.c_str(), ei); MC_CHECK(!e, "an engine without annotator"); MC_CHECK(ei.getErrorId() != 0, "refused without an error"); if (ei.getErrorId() == UIMA_ERR_RESOURCE_CORRUPTED) { ExcIllFormedInputError ex(ei); throw ex; } return; }
  if (kind == D_TS) { TypeSystem* ts = Framework::createTypeSystemFromXMLBuffer(x.c_str(), ei); if (!ts) { ExcIllFormedInputError e(ei); throw e; } delete ts; return; }
  CAS* c;
  xe::MemBufInputSource in((const XMLByte*)x.data(), x.size(), "mem"); XMLParser p; AnalysisEngineMetaData::TyVecpFSIndexDescriptions ix; AnalysisEngineMetaData::TyVecpTypePriorities pr; std::string other = kind == D_IX ? PRIO[0] : FSIX[0]; xe::MemBufInputSource in2((const XMLByte*)other.data(), other.size(), "mem2");
  struct Free { AnalysisEngineMetaData::TyVecpFSIndexDescriptions& a; AnalysisEngineMetaData::TyVecpTypePriorities& b; ~Free() { for (auto x : a) delete x; for (auto x : b) delete x; } } fr{ix, pr};
  if (kind == D_IX) { p.parseFSIndexDescription(ix, in); p.parseTypePriorities(pr, in2); } else { p.parseTypePriorities(pr, in); p.parseFSIndexDescription(ix, in2); }
  c = Framework::createCAS(*T5, ix, pr, ei); if (!c) { ExcIllFormedInputError e(ei); throw e; } c->setDocumentText(U("x")); delete c;
}
void mc_init() {
  uhInit(); W5 = new IxWorld(types5(), {}); T5 = W5->ts; W = W5; TS = T5;
  for (int big = 0; big < 2; ++big) { CAS* c = W5->cas(); { CasHolder h(c); fill(c, big); std::ostringstream o, o2; XmiWriter w(*c, true, nullptr); w.write(o); XMI[big] = o.str(); XCASWriter w2(*c, true); w2.write(o2); XCAS[big] = o2.str(); for (int f = 0; f < 2; ++f) WANT5[f][big] = dump(c, opt5(!f)); }
    for (int f = 0; f < 2; ++f) { Tree t; if (!parse(f ? XCAS[big] : XMI[big], t)) { fprintf(stderr, "harness: own document\n"); _exit(96); } TR[f][big] = t.root; } }
  DESC = {prim(true), aggr(), tsXML(typ("t.B", "t.A") + typ("t.A", "uima.tcas.Annotation", feat("id", "uima.cas.Integer", true)) + enumXML("t.E", {"red", "b"})), FSIX[0], PRIO[0]};
  for (auto& d : DESC) { Tree t; if (!parse(d, t)) { fprintf(stderr, "harness: own descriptor\n"); _exit(96); } DT.push_back(t.root); }
}
// ---------------------------------------------------------------- looking at whatever was accepted
template<class F> static void maybe(F f) { try { f(); } catch (uima::Exception&) {} }
static void walk(CAS* c) {
  std::vector<FeatureStructure> todo; std::set<int> seen; size_t h = 0; auto add = [&](FeatureStructure const& f) { if (f.isValid() && seen.insert(addr(f)).second) todo.push_back(f); };
  std::vector<CAS*> vs{c->getBaseCas(), c->getBaseCas()->getView(U("_InitialView"))}; maybe([&] { FSIterator si = c->getSofaIterator(); for (si.moveToFirst(); si.isValid(); si.moveToNext()) { FeatureStructure s = si.get(); add(s); maybe([&] { CAS* v = c->getView(SofaFS(s)); if (v) vs.push_back(v); }); maybe([&] { CAS* v = c->getView(U(toS(SofaFS(s).getSofaID()))); if (v) vs.push_back(v); }); } });
  for (auto v : vs) { maybe([&] { std::vector<lowlevel::TyFS> ix; v->getLowlevelIndexRepository().getIndexedFSs(ix); for (auto a : ix) add(internal::FSPromoter::promoteFS(a, *v)); }); maybe([&] { h += v->getDocumentText().length(); }); if (v->isView() && v->getSofa().isValid()) { maybe([&] { add(v->getSofaDataArray()); }); maybe([&] { h += v->getSofaDataURI().length(); }); } maybe([&] { if (v->isView()) for (ANIterator it = v->getAnnotationIndex().iterator(); it.isValid(); it.moveToNext()) { maybe([&] { h += it.get().getCoveredText().length(); }); } }); }
  for (size_t i = 0; i < todo.size(); ++i) { FeatureStructure f = todo[i]; std::string t = toS(f.getType().getName());
    if (t.size() > 5 && t.compare(0, 9, "uima.cas.") == 0 && t.compare(t.size() - 5, 5, "Array") == 0) {
      #define A5(T, N) if (t == "uima.cas." N) { T a(f); for (size_t k = 0; k < std::min<size_t>(a.size(), 2000); ++k) h += (size_t)a.get(k); }
      A5(IntArrayFS, "IntegerArray") A5(FloatArrayFS, "FloatArray") A5(BooleanArrayFS, "BooleanArray") A5(ByteArrayFS, "ByteArray") A5(ShortArrayFS, "ShortArray") A5(LongArrayFS, "LongArray") A5(DoubleArrayFS, "DoubleArray")
      if (t == "uima.cas.StringArray") { StringArrayFS a(f); for (size_t k = 0; k < std::min<size_t>(a.size(), 2000); ++k) h += toS(a.get(k)).size(); }
      if (t == "uima.cas.FSArray") { ArrayFS a(f); for (size_t k = 0; k < std::min<size_t>(a.size(), 2000); ++k) add(a.get(k)); } continue; }
    std::vector<Feature> fs; f.getType().getAppropriateFeatures(fs); for (auto& x : fs) maybe([&] { Type r; x.getRangeType(r); std::string n = toS(r.getName());
      if (n == "uima.cas.Integer") h += f.getIntValue(x); else if (n == "uima.cas.Float") h += (size_t)f.getFloatValue(x); else if (n == "uima.cas.String" || r.isStringSubType()) h += toS(f.getStringValue(x)).size(); else if (n == "uima.cas.Boolean") h += f.getBooleanValue(x); else if (n == "uima.cas.Byte") h += f.getByteValue(x); else if (n == "uima.cas.Short") h += f.getShortValue(x); else if (n == "uima.cas.Long") h += (size_t)f.getLongValue(x); else if (n == "uima.cas.Double") { double d = f.getDoubleValue(x); h += d == d; } else add(f.getFSValue(x)); }); }
  mc::state(mc::hash(&h, sizeof h));
}
// what a reader that is not lenient has to refuse
static bool num(const std::string& s) { if (s.empty() || s.size() > 9 || s[0] == '0') return false; for (char c : s) if (c < '0' || c > '9') return false; return true; }
static std::string mustRefuse(const Tree& t) {
  std::set<int> ids; for (auto& e : t.flat) for (auto& a : e.second) if (a.first == "xmi:id") ids.insert(atoi(a.second.c_str()));
  for (size_t i = 1; i < t.flat.size(); ++i) { auto& e = t.flat[i]; if (t.depth[i] != 2) continue; size_t sp = e.first.find(' '); std::string u = e.first.substr(0, sp), l = e.first.substr(sp + 1); if (t.root.ch.size() && u == "http://www.omg.org/XMI") continue;
    std::string n; if (u == "http:///uima/noNamespace.ecore") n = l; else { if (u.compare(0, 8, "http:///") || u.size() < 15 || u.compare(u.size() - 6, 6, ".ecore")) continue; n = u.substr(8, u.size() - 14) + "." + l; for (auto& c : n) if (c == '/') c = '.'; }
    if (n == "uima.cas.NULL") continue;
    if (n == "uima.cas.View") { for (auto& a : e.second) if (a.first == "members") { std::istringstream is(a.second); std::string k; while (is >> k) if (num(k) && !ids.count(atoi(k.c_str()))) return "a view member that does not exist: " + k; } continue; }
    Type ty = T5->getType(U(n)); if (!ty.isValid()) return "unknown type " + n;
    if (n.size() > 5 && n.compare(n.size() - 5, 5, "Array") == 0) { for (auto& a : e.second) if (n == "uima.cas.FSArray" && a.first == "elements") { std::istringstream is(a.second); std::string k; while (is >> k) if (num(k) && !ids.count(atoi(k.c_str()))) return "an array element that does not exist: " + k; } continue; }
    for (auto& a : e.second) { if (a.first == "xmi:id" || a.first.compare(0, 5, "xmlns") == 0) continue; Feature f = ty.getFeatureByBaseName(U(a.first)); if (!f.isValid()) return "unknown feature " + a.first + " of " + n; Type r; f.getRangeType(r); std::string rn = toS(r.getName());
      if ((rn == "uima.cas.FSArray" || rn == "uima.cas.FSList") && !f.isMultipleReferencesAllowed()) { std::istringstream is(a.second); std::string k; while (is >> k) if (num(k) && !ids.count(atoi(k.c_str()))) return "an element of " + a.first + " that does not exist: " + k; }
      if ((rn == "uima.cas.TOP" || rn == "t.N" || rn == "uima.cas.Sofa" || ((rn.find("Array") != std::string::npos || rn.find("List") != std::string::npos) && f.isMultipleReferencesAllowed())) && num(a.second) && !ids.count(atoi(a.second.c_str()))) return "a reference that does not exist: " + a.first + "=" + a.second; }
    for (size_t k = i + 1; k < t.flat.size() && t.depth[k] > 2; ++k) if (t.depth[k] == 3) { std::string c = t.flat[k].first; c = c.substr(c.find(' ') + 1); if (!ty.getFeatureByBaseName(U(c)).isValid()) return "unknown feature " + c + " of " + n; if (false) break; }
    for (size_t k = i + 1; k < t.flat.size() && t.depth[k] > 2; ++k) if (t.depth[k] > 3) return "elements nested too deep"; }
  return "";
}
// ---------------------------------------------------------------- alterations
static const char BYTES[] = {'<', '>', '"', '&', '\0', '\xFF', '9', '/'};
static std::string damage(const std::string& x, bool few = false) {   // at the level of bytes
  int nb = mc::thorough() ? 8 : few ? 3 : 6; int k = mc::choose(nb + 3), n = (int)x.size(), p = mc::choose(n); std::string s = x; if (k < nb) s[p] = BYTES[k]; else if (k == nb) s.resize(p); else if (k == nb + 1) s.erase(p, 1); else s.insert(p, 1, s[p]);
  mc::cover(k == nb ? "cut off" : "byte"); mc::step("byte %d alteration %d", p, k); return s; }
static const VS VAL = {"", "0", "-1", "1", "2", "3", "7", "500", "x", "1 2", " ", "1 99", "-2147483648", "4294967297", "_InitialView", "true", "2147483647"};
static bool huge(const std::string& a, const std::string& v) { return (a == "size" || a == "sofaNum") && (v == "4294967297" || v == "2147483647"); }
static const VS FEW = {"", "1", "-1", "x", "500"};
static void alter(Node& r, const VS& names, const VS& attrs, bool values = false) {   // at the level of elements and attributes
  std::vector<Node*> o; all(r, o); int e = mc::choose((int)o.size()); Node* n = o[e]; int at = 0; Node* p = parent(r, n, at); int na = (int)n->attr.size(); if (values && !na) return; int k = values ? 3 * mc::choose(na) + mc::choose(2) : mc::choose(na * 3 + 11);
  if (k < na * 3) { int a = k / 3; std::string was = n->attr[a].first; mc::cover("attribute");
    if (k % 3 == 0) { std::string v = mc::pick(values ? FEW : VAL); if (huge(was, v)) v = "9"; n->attr[a].second = v; mc::step("element %d (%s): %s=%s", e, n->name.c_str(), was.c_str(), v.c_str()); }
    else if (k % 3 == 1) { n->attr.erase(n->attr.begin() + a); mc::step("element %d (%s): without %s", e, n->name.c_str(), was.c_str()); }
    else { std::string v = mc::pick(attrs); n->attr[a].first = v; mc::step("element %d (%s): %s becomes %s", e, n->name.c_str(), was.c_str(), v.c_str()); } return; }
  k -= na * 3; mc::cover("element"); std::string nm = n->name; const char* what = "";
  switch (k) {
    case 0: if (p) p->ch.erase(p->ch.begin() + at); else r.ch.clear(); what = "removed"; break;
    case 1: if (p) { Node c = *n; p->ch.insert(p->ch.begin() + at, c); } else r.ch.insert(r.ch.end(), r.ch.begin(), r.ch.begin() + std::min<size_t>(3, r.ch.size())); what = "doubled"; break;
    case 2: if (p) { Node c = *n; p->ch.erase(p->ch.begin() + at); p->ch.push_back(c); } what = "moved last"; break;
    case 3: if (p) { Node c = *n; p->ch.erase(p->ch.begin() + at); p->ch.insert(p->ch.begin(), c); } what = "moved first"; break;
    case 4: n->name = mc::pick(names); what = "renamed"; break;
    case 5: { Node c; c.name = mc::pick(attrs); c.text = mc::pick(VS{"", "1", "x", "500"}); n->ch.push_back(c); what = c.name.c_str(); mc::step("element %d (%s): child %s '%s'", e, nm.c_str(), c.name.c_str(), c.text.c_str()); what = "given a child"; break; }
    case 6: n->text = mc::pick(VS{"", "x", "1", "-1", "500", "1e400"}); what = "given text"; break;
    case 7: { Node c = *n; Node w; w.name = c.name; w.ch = {c}; *n = w; what = "wrapped"; break; }
    case 8: if (p && at > 0) { Node c = *n; p->ch.erase(p->ch.begin() + at); p->ch[at - 1].ch.push_back(c); } what = "moved into its neighbour"; break;
    case 9: { std::string a = mc::pick(attrs), v = mc::pick(mc::thorough() ? VAL : FEW); for (auto& x : n->attr) if (x.first == a) return; if (huge(a, v)) v = "9"; n->attr.emplace_back(a, v); mc::step("element %d (%s): with %s=%s", e, nm.c_str(), a.c_str(), v.c_str()); what = "given an attribute"; break; }
    default: n->attr.clear(); n->ch.clear(); n->text.clear(); what = "emptied"; }
  mc::step("element %d (%s) %s", e, nm.c_str(), what);
}
static const VS XMIN = {"t:N", "t:A", "t:Unknown", "cas:NULL", "cas:View", "cas:Sofa", "cas:IntegerArray", "cas:FSArray", "cas:StringArray", "cas:ByteArray", "cas:NonEmptyFSList", "cas:EmptyFSList", "cas:NonEmptyStringList", "cas:TOP", "cas:Integer", "cas:String", "tcas:DocumentAnnotation", "xmi:Documentation", "N", "xmi:XMI", "t:E", "cas:LongArray", "cas:AnnotationBase", "cas:FSList"};
static const VS XMIA = {"zz", "r", "q", "s", "id", "e", "af", "nf", "ai", "ns", "nb", "nl", "ml", "il", "sofa", "begin", "end", "sofaNum", "sofaID", "sofaArray", "elements", "members", "xmi:id", "head", "tail", "lo", "sh", "by"};
static const VS XCN = {"t.N", "t.A", "t.Unknown", "uima.cas.Sofa", "uima.cas.IntegerArray", "uima.cas.FSArray", "uima.cas.StringArray", "uima.cas.ByteArray", "uima.cas.NonEmptyFSList", "uima.cas.EmptyFSList", "uima.cas.NonEmptyStringList", "uima.cas.TOP", "uima.cas.Integer", "uima.cas.String", "uima.tcas.DocumentAnnotation", "uima.tcas.Document", "CAS", "i", "t.E", "uima.cas.LongArray", "uima.cas.AnnotationBase", "uima.cas.FSList"};
static const VS XCA = {"zz", "_ref_r", "_ref_q", "r", "s", "id", "e", "_ref_af", "_ref_nl", "_ref_sofa", "sofa", "begin", "end", "sofaNum", "sofaID", "_ref_sofaArray", "size", "_id", "_indexed", "_content", "head", "_ref_head", "_ref_tail", "i", "value", "lo", "sh", "by", "sofaString"};
static const VS DNQ = {"zz", "name", "value", "type", "types", "capability", "node", "import", "analysisEngineMetaData", "fsIndexKey"};
static const VS XMINQ = {"t:N", "t:A", "t:Unknown", "cas:NULL", "cas:View", "cas:Sofa", "cas:IntegerArray", "cas:FSArray", "cas:NonEmptyFSList", "cas:Integer", "tcas:DocumentAnnotation", "xmi:XMI", "t:E"}, XMIAQ = {"zz", "r", "s", "e", "af", "nf", "nb", "ml", "sofa", "sofaNum", "elements", "xmi:id", "head", "lo"};
static VS DN, DA = {"key", "name", "names", "location", "defaultGroup", "searchStrategy", "allAnnotatorFeatures", "xmlns", "zz"};
static bool refused(int fmt, CAS* c, const std::string& x, int mode) { try { readX(c, fmt, x, mode); return false; } catch (uima::Exception&) { return true; } }
static void tryX(int fmt, int big, const std::string& x) {
  Tree t; bool ok = parse(x, t); mc::note("%s", x.substr(0, 4000).c_str()); mc::outcome(x); mc::state(x);
  for (int mode = 0; mode < (fmt ? 1 : 3); mode += mc::thorough() ? 1 : 2) {
    CAS* c = W5->cas(); CasHolder h(c); bool r = refused(fmt, c, x, mode); mc::cover(ok ? r ? "well formed, refused" : "accepted" : "not well formed");
    if (!ok) MC_CHECK(r, "a document that is not well formed is accepted (mode %d)", mode);
    else if (!fmt && mode == 0) { std::string why = mustRefuse(t); MC_CHECK(why.empty() || r, "accepted in spite of %s", why.c_str()); if (!why.empty()) mc::cover("must be refused"); }
    else if (fmt) MC_CHECK(r || t.root.name == "CAS", "a document whose root is <%s> is accepted", t.root.name.c_str());
    if (!r) walk(c);
    c->reset(); readX(c, fmt, fmt ? XCAS[big] : XMI[big], mode); same(WANT5[fmt][big], dump(c, opt5(!fmt)), "a valid document read after the damaged one");
  }
}
static void tryD(int kind, const std::string& x) {
  Tree t; bool ok = parse(x, t); mc::note("%s", x.substr(0, 4000).c_str()); mc::outcome(x); bool r = false; try { readD(kind, x); } catch (uima::Exception&) { r = true; }
  mc::cover(ok ? r ? "descriptor refused" : "descriptor accepted" : "descriptor not well formed"); if (!ok) MC_CHECK(r, "a descriptor that is not well formed is accepted");
  else if (kind <= D_TS) { std::string n = t.root.name; bool root = kind == D_TS ? n == "typeSystemDescription" : n == "analysisEngineDescription" || n == "taeDescription" || n == "casConsumerDescription"; MC_CHECK(root || r, "a descriptor whose root is <%s> is accepted", n.c_str()); }
  if (mc::thorough()) readD(kind, DESC[kind]);
}
void mc_body() {
  if (DN.empty()) { std::set<std::string> s; for (auto& d : DT) { std::vector<Node*> o; Node c = d; all(c, o); for (auto n : o) s.insert(n->name); } for (auto& n : s) DN.push_back(n); DN.push_back("import"); DN.push_back("xi:include"); DN.push_back("envVarRef"); DN.push_back("zz"); DN.push_back("capabilityLanguageFlow"); DN.push_back("float"); DN.push_back("boolean"); DN.push_back("casConsumerDescription"); }
  int sc = mc::choose(5);
  if (sc == 0) { int f = mc::choose(2); tryX(f, 0, damage(f ? XCAS[0] : XMI[0])); return; }
  if (sc == 1) { int f = mc::choose(2); Node n = TR[f][1]; alter(n, f ? XCN : mc::thorough() ? XMIN : XMINQ, f ? XCA : mc::thorough() ? XMIA : XMIAQ); tryX(f, 1, xml(n)); return; }
  if (sc == 2) { int f = mc::choose(2); mc::cover("two alterations"); Node n = TR[f][0]; alter(n, f ? XCN : XMIN, f ? XCA : XMIA, !mc::thorough());   // then an attribute gets another value
    std::vector<Node*> o; all(n, o); std::vector<std::pair<Node*, int>> at; for (auto q : o) if (q != o[0]) for (size_t i = 0; i < q->attr.size(); ++i) at.emplace_back(q, (int)i); if (at.empty()) return; auto a = at[mc::choose((int)at.size())]; a.first->attr[a.second].second = mc::pick(mc::thorough() ? VS{"", "1", "-1"} : VS{"1"}); mc::step("%s.%s", a.first->name.c_str(), a.first->attr[a.second].first.c_str());
    tryX(f, 0, xml(n)); return; }
  if (sc == 3) { int k = mc::pick(std::vector<int>{D_PRIM, D_TS, D_IX, D_PRIO}); tryD(k, damage(k == D_PRIM ? small() : DESC[k], k <= D_TS)); return; }
  int k = mc::choose(D_N); Node n = DT[k]; alter(n, mc::thorough() ? DN : DNQ, mc::thorough() ? DA : VS{"key", "name", "zz"}); tryD(k, xml(n));
}
int main(int c, char** v) { return mc::run(c, v); }
