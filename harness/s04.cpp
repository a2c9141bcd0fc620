// S04: content unknown to the type system survives a lenient XMI round trip with shared data
#include "ser.hpp"
#include "uima/xmiwriter.hpp"
#include "uima/xmideserializer.hpp"
#include "xercesc/sax2/SAX2XMLReader.hpp"
#include "xercesc/sax2/XMLReaderFactory.hpp"
#include "xercesc/sax2/DefaultHandler.hpp"
#include "xercesc/sax2/Attributes.hpp"
#include "xercesc/sax/SAXParseException.hpp"
#include "xercesc/util/XMLUniDefs.hpp"
using namespace ser; namespace xe = XERCES_CPP_NAMESPACE;
// ---------------------------------------------------------------- type systems
struct F { const char* n; const char* range; bool multi; };
static const F KF[] = {{"s", "uima.cas.String", 0}, {"n", "uima.cas.Integer", 0}, {"r", "uima.cas.TOP", 0}, {"q", "t.X", 0}, {"af", "uima.cas.FSArray", 1}, {"nf", "uima.cas.FSArray", 0}, {"as", "uima.cas.StringArray", 1}, {"ns", "uima.cas.StringArray", 0}, {"ai", "uima.cas.IntegerArray", 1}, {"ni", "uima.cas.IntegerArray", 0}, {"nb", "uima.cas.ByteArray", 0}, {"ab", "uima.cas.ByteArray", 1}, {"lf", "uima.cas.FSList", 1}, {"nlf", "uima.cas.FSList", 0}, {"ls", "uima.cas.StringList", 1}, {"nls", "uima.cas.StringList", 0}, {"li", "uima.cas.IntegerList", 1}, {"nli", "uima.cas.IntegerList", 0}, {"e", "t.E", 0}, {"d", "uima.cas.Double", 0}};
static const int NKF = sizeof KF / sizeof *KF;
static const VS TYPES = {"t.K", "t.X", "t.A", "u.t.X", "NoNs", "k.cas.C", "t.KK"};
struct Cut { std::set<std::string> types; std::set<std::string> feats; };   // feats: names of features of every own type
static std::string typesFor(const Cut& c) {
  std::string r; if (!c.types.count("t.E")) r += enumXML("t.E", {"red", "green &amp; blue"});
  for (auto& t : TYPES) { if (c.types.count(t)) continue; if (t == "t.KK" && c.types.count("t.K")) continue;
    if (t == "t.KK") { r += typ(t, "t.K", c.feats.count("kk") ? "" : feat("kk", "uima.cas.String")); continue; }
    std::string f = feat("id", "uima.cas.Integer"); for (auto& k : KF) { if (c.feats.count(k.n)) continue; if (k.n == std::string("q") && c.types.count("t.X")) continue; if (k.n == std::string("e") && c.types.count("t.E")) continue; f += feat(k.n, k.range, k.multi); }
    r += typ(t, t == "t.A" ? "uima.tcas.Annotation" : "uima.cas.TOP", f); }
  return r;
}
static std::vector<Cut> CUTS; static std::vector<IxWorld*> CW;
static const int NC = 9;   // the first NC cuts are general, then one per feature
void mc_init() {
  uhInit();
  CUTS = {{{}, {}}, {{"t.X"}, {}}, {{"t.A"}, {}}, {{"t.K", "t.KK"}, {}}, {{"t.X", "u.t.X", "NoNs", "k.cas.C"}, {}}, {{"t.K", "t.X", "t.A", "u.t.X", "NoNs", "k.cas.C", "t.KK", "t.E"}, {}}, {{"t.KK"}, {}}, {{"t.X"}, {"s", "r", "af", "nlf", "ns", "d"}}, {{}, {"kk"}}};
  for (auto& k : KF) CUTS.push_back({{}, {k.n}});
  std::set<std::string> all; for (auto& k : KF) all.insert(k.n); CUTS.push_back({{}, all});
  for (auto& c : CUTS) CW.push_back(new IxWorld(typesFor(c), {}));
  W = CW[0]; TS = W->ts;
}
// ---------------------------------------------------------------- contents, described independently of any type system
struct V { char k = 0; std::vector<int> i; std::vector<std::string> s; std::vector<int> nul; };   // k: I S R(ref) D, arrays f s i b, lists F L(str) G(int); in refs -1 is null
struct N { std::string t; std::map<std::string, V> f; int view = 0; std::vector<int> in; int b = 0, e = 0; };   // in: views it is indexed in
struct Spec { std::vector<N> n; int views = 1; std::vector<int> sofa{0}; };   // sofa: 0 none, 1 text, 2 uri, 3 array of ints
static std::vector<FeatureStructure> build(const Spec& sp, CAS* c) {
  TypeSystem const& ts = c->getTypeSystem(); std::vector<CAS*> v{c}; for (int i = 1; i < sp.views; ++i) v.push_back(c->createView(U(mc::fmt("v%d", i))));
  for (int i = 0; i < sp.views; ++i) { if (sp.sofa[i] == 1) v[i]->setDocumentText(U("some text")); if (sp.sofa[i] == 2) v[i]->setSofaDataURI(U("file:/none"), U("m/u")); if (sp.sofa[i] == 3) { IntArrayFS a = c->createIntArrayFS(2); a.set(0, 5); a.set(1, -1); v[i]->setSofaDataArray(a, U("x/y")); } }
  std::vector<FeatureStructure> o;
  for (size_t i = 0; i < sp.n.size(); ++i) { Type t = ts.getType(U(sp.n[i].t)); if (!t.isValid()) { o.push_back(FeatureStructure()); continue; } if (sp.n[i].t == "t.A") o.push_back(v[sp.n[i].view]->createAnnotation(t, sp.n[i].b, sp.n[i].e)); else o.push_back(c->createFS(t)); o[i].setIntValue(ff(o[i], "id"), (int)i + 1); }
  auto ref = [&](int i) { return i < 0 ? FeatureStructure() : o[i]; };
  for (size_t i = 0; i < sp.n.size(); ++i) if (o[i].isValid()) for (auto& kv : sp.n[i].f) { Feature x = ff(o[i], kv.first.c_str()); if (!x.isValid()) continue; const V& v = kv.second;
    auto set = [&](FeatureStructure const& a) { if (a.isValid()) o[i].setFSValue(x, a); };
    switch (v.k) {
      case 'I': o[i].setIntValue(x, v.i[0]); break; case 'D': o[i].setDoubleValue(x, v.i[0] / 8.0); break; case 'S': o[i].setStringValue(x, UnicodeStringRef(U(v.s[0]))); break; case 'R': set(ref(v.i[0])); break;
      case 'f': { ArrayFS a = c->createArrayFS(v.i.size()); for (size_t k = 0; k < v.i.size(); ++k) if (ref(v.i[k]).isValid()) a.set(k, ref(v.i[k])); set(a); break; }
      case 's': { StringArrayFS a = c->createStringArrayFS(v.s.size()); for (size_t k = 0; k < v.s.size(); ++k) a.set(k, UnicodeStringRef(U(v.s[k]))); set(a); break; }
      case 'i': { IntArrayFS a = c->createIntArrayFS(v.i.size()); for (size_t k = 0; k < v.i.size(); ++k) a.set(k, v.i[k]); set(a); break; }
      case 'b': { ByteArrayFS a = c->createByteArrayFS(v.i.size()); for (size_t k = 0; k < v.i.size(); ++k) a.set(k, (char)v.i[k]); set(a); break; }
      default: { const char* kind = v.k == 'F' ? "FS" : v.k == 'L' ? "String" : "Integer"; FeatureStructure cur = c->createFS(ts.getType(U(std::string("uima.cas.Empty") + kind + "List"))); size_t n = v.k == 'L' ? v.s.size() : v.i.size();
        for (size_t k = n; k-- > 0;) { FeatureStructure d = c->createFS(ts.getType(U(std::string("uima.cas.NonEmpty") + kind + "List"))); Feature h = ff(d, "head"); if (v.k == 'F') { if (ref(v.i[k]).isValid()) d.setFSValue(h, ref(v.i[k])); } else if (v.k == 'L') d.setStringValue(h, UnicodeStringRef(U(v.s[k]))); else d.setIntValue(h, v.i[k]); d.setFSValue(ff(d, "tail"), cur); cur = d; }
        set(cur); } } }
  for (size_t i = 0; i < sp.n.size(); ++i) if (o[i].isValid()) for (int w : sp.n[i].in) v[w]->getIndexRepository().addFS(o[i]);
  return o;
}
// ---------------------------------------------------------------- documents
struct El { std::string name; std::map<std::string, std::string> attr; std::map<std::string, std::vector<std::string>> ch; };
static std::string X(const XMLCh* s) { icu::UnicodeString u((const UChar*)s); std::string r; u.toUTF8String(r); return r; }
struct Doc : xe::DefaultHandler {
  std::map<int, El> el; std::vector<El> views; std::string err; int depth = 0; El cur; std::string child, buf;
  void error(const xe::SAXParseException& e) { note(e); } void fatalError(const xe::SAXParseException& e) { note(e); }
  void note(const xe::SAXParseException& e) { if (err.empty()) err = mc::fmt("line %d column %d: ", (int)e.getLineNumber(), (int)e.getColumnNumber()) + X(e.getMessage()); }
  void startElement(const XMLCh* const uri, const XMLCh* const local, const XMLCh* const qn, const xe::Attributes& a) {
    ++depth; buf.clear(); if (depth == 2) { cur = El(); cur.name = X(uri) + " " + X(local); for (XMLSize_t i = 0; i < a.getLength(); ++i) cur.attr[X(a.getQName(i))] = X(a.getValue(i)); } else if (depth == 3) child = X(qn); else if (depth > 3) err = "nested too deep"; }
  void characters(const XMLCh* const s, const XMLSize_t n) { buf += [&] { icu::UnicodeString u((const UChar*)s, (int)n); std::string r; u.toUTF8String(r); return r; }(); }
  void endElement(const XMLCh* const, const XMLCh* const, const XMLCh* const) {
    if (depth == 3) cur.ch[child].push_back(buf);
    if (depth == 2) { if (cur.attr.count("xmi:id")) { int id = atoi(cur.attr["xmi:id"].c_str()); if (id && el.count(id)) err = mc::fmt("two elements with xmi:id %d", id); el[id] = cur; } else views.push_back(cur); }
    --depth; }
};
static void parse(const std::string& x, Doc& d) {
  static xe::SAX2XMLReader* rd = nullptr; if (!rd) { rd = xe::XMLReaderFactory::createXMLReader(); rd->setFeature(xe::XMLUni::fgSAX2CoreNameSpaces, true); }
  rd->setContentHandler(&d); rd->setErrorHandler(&d); xe::MemBufInputSource in((const XMLByte*)x.data(), x.size(), "mem"); rd->parse(in); MC_CHECK(d.err.empty(), "the document is not valid: %s\n%s", d.err.c_str(), x.substr(0, 4000).c_str()); }
static std::string typeOf(const El& e) { size_t sp = e.name.find(' '); std::string u = e.name.substr(0, sp), l = e.name.substr(sp + 1); if (u == "http:///uima/noNamespace.ecore") return l; std::string n = u.substr(8, u.size() - 14); for (auto& c : n) if (c == '/') c = '.'; return n + "." + l; }
static std::string txt(const El& e) { std::string s = typeOf(e) + " {"; for (auto& a : e.attr) s += " " + a.first + "=\"" + a.second + "\""; for (auto& c : e.ch) { s += " " + c.first + ":"; for (auto& v : c.second) s += "<" + v + ">"; } return s + " }"; }
static bool unknown(const Doc& d, TypeSystem const& ts) {
  for (auto& p : d.el) { if (!p.first) continue; Type t = ts.getType(U(typeOf(p.second))); if (!t.isValid()) return true; std::string n = typeOf(p.second); if (n.compare(0, 9, "uima.cas.") == 0 && n.find("Array") != std::string::npos) continue; if (n == "uima.cas.Sofa") continue;
    for (auto& a : p.second.attr) if (a.first != "xmi:id" && !t.getFeatureByBaseName(U(a.first)).isValid()) return true; for (auto& a : p.second.ch) if (!t.getFeatureByBaseName(U(a.first)).isValid()) return true; }
  return false;
}
static std::string members(const Doc& d) { std::set<std::string> s; for (auto& v : d.views) { std::multiset<int> m; std::istringstream is(v.attr.count("members") ? v.attr.at("members") : ""); int k; while (is >> k) m.insert(k); std::string t = "sofa " + (v.attr.count("sofa") ? v.attr.at("sofa") : "-") + ":"; for (int k : m) t += mc::fmt(" %d", k); if (m.empty()) continue; s.insert(t); } std::string r; for (auto& t : s) r += t + "\n"; return r; }
static void keeps(const Doc& a, const Doc& b, const std::string& x, const std::string& y) {   // every element of a is in b, with the same identifier and content
  for (auto& p : a.el) { if (!p.first) continue; auto it = b.el.find(p.first); MC_CHECK(it != b.el.end(), "the element with xmi:id %d is lost: %s", p.first, txt(p.second).c_str());
    MC_CHECK(txt(it->second) == txt(p.second), "the element with xmi:id %d changes from %s to %s", p.first, txt(p.second).c_str(), txt(it->second).c_str()); }
}
static std::string write(CAS* c, XmiSerializationSharedData* sd) { std::ostringstream o; XmiWriter w(*c, true, sd); w.write(o); return o.str(); }
static void read(const std::string& x, CAS* c, XmiSerializationSharedData* sd, bool lenient) { xe::MemBufInputSource in((const XMLByte*)x.data(), x.size(), "mem"); if (sd) XmiDeserializer::deserialize(in, *c, *sd); else XmiDeserializer::deserialize(in, *c, lenient); }
static const VS STRS = {"plain", "", "a b  c", "<&\"'>", "l1\nl2\tt", "\xC3\xA9\xE6\x97\xA5\xF0\x9F\x98\x80", " lead", "7"};
static Opt opt() { Opt o; o.embed = true; o.nullStr = false; return o; }
// what the reduced CAS has to hold, and the full document it has to give back
// the same document with other namespace prefixes
static std::string sub(std::string s, const std::string& a, const std::string& b) { for (size_t p = 0; (p = s.find(a, p)) != std::string::npos; p += b.size()) s.replace(p, a.size(), b); return s; }
static std::string rename(std::string x, int style) { if (!style) return x;
  std::map<std::string, std::string> uri; for (size_t p = 0; (p = x.find(" xmlns:", p)) != std::string::npos;) { size_t e = x.find('=', p), f = x.find('"', e + 2); uri[x.substr(p + 7, e - p - 7)] = x.substr(e + 2, f - e - 2); p = f; }
  std::vector<std::string> ps; for (auto& u : uri) if (u.first != "xmi") ps.push_back(u.first); std::map<std::string, std::string> to;
  if (style == 1) for (size_t i = 0; i < ps.size(); ++i) to[ps[i]] = ps[(i + 1) % ps.size()];                       // every prefix stands for another namespace
  if (style == 2) for (size_t i = 0; i < ps.size(); ++i) to[ps[i]] = ps[(i + ps.size() - 1) % ps.size()];
  if (style == 3) for (auto& q : ps) to[q] = "a";                                                                     // declared on each element, all alike
  if (style == 4) for (auto& q : ps) to[q] = q == "t" ? "" : q;                                                       // a default namespace
  if (style == 5) for (auto& q : ps) to[q] = q == "t" ? "noNamespace" : q == "noNamespace" ? "t" : q == "cas" ? "xmi2" : q + ".x-1";
  if (style == 6) for (auto& q : ps) to[q] = "";                                                                      // a default namespace declared on each element
  for (auto& q : ps) { bool each = style == 3 || style == 6; std::string n = to[q].empty() ? "" : "\x01" + to[q] + "\x02", decl = to[q].empty() ? " xmlns=" : " xmlns\x02\x01" + to[q] + "=";
    x = sub(x, "</" + q + ":", "</" + n); for (size_t p = 0; (p = x.find("<" + q + ":", p)) != std::string::npos;) { size_t e = p + 1 + q.size() + 1; size_t g = x.find_first_of(" />", e); std::string name = x.substr(e, g - e); std::string r = "<" + n + name + (each ? decl + "\"" + uri[q] + "\"" : ""); x.replace(p, g - p, r); p += r.size(); }
    x = sub(x, " xmlns:" + q + "=\"" + uri[q] + "\"", each ? "" : decl + "\"" + uri[q] + "\""); }
  x = sub(x, "\x01", ""); x = sub(x, "\x02", ":"); return x;
}
static void trip(const Spec& sp, const std::vector<int>& cuts, int style = 0) {
  CAS* full = CW[0]->cas(); CasHolder hf(full); build(sp, full); std::string want = dump(full, opt()); mc::state(want); mc::outcome(want + mc::fmt("/%d", cuts[0]));
  std::string x = rename(write(full, nullptr), style), cur = x; Doc d0; parse(x, d0); if (style) { CAS* b = CW[0]->cas(); CasHolder hb(b); read(x, b, nullptr, false); same(want, dump(b, opt()), "a document with other prefixes"); }
  for (size_t k = 0; k < cuts.size(); ++k) {
    IxWorld* w = CW[cuts[k]]; bool unk = unknown(d0, *w->ts); if (unk) mc::cover("unknown content"); else mc::cover("all known");
    CAS* ex = w->cas(); CasHolder he(ex); build(sp, ex); std::string wr = dump(ex, opt());
    CAS* r = w->cas(); CasHolder hr(r); XmiSerializationSharedData sd; read(cur, r, &sd, true); same(wr, dump(r, opt()), "read with shared data");
    if (k == 0) {
      { CAS* l = w->cas(); CasHolder hl(l); read(cur, l, nullptr, true); same(wr, dump(l, opt()), "read leniently"); }
      { CAS* s = w->cas(); CasHolder hs(s); bool th = throwsUima([&] { read(cur, s, nullptr, false); }); MC_CHECK(th == unk, unk ? "unknown content is accepted without lenience" : "a document without unknown content is refused"); if (!th) same(wr, dump(s, opt()), "read without lenience"); else { mc::cover("refused"); s->getBaseCas()->reset(); read(cur, s, nullptr, true); same(wr, dump(s, opt()), "read after a refusal"); } }
    }
    std::string y = write(r, &sd); Doc d1; parse(y, d1); keeps(d0, d1, cur, y); MC_CHECK(members(d0) == members(d1), "the members of the views change from\n%sto\n%s", members(d0).c_str(), members(d1).c_str());
    { std::string y2 = write(r, &sd); Doc d2; parse(y2, d2); keeps(d1, d2, y, y2); MC_CHECK(d1.el.size() == d2.el.size() && members(d1) == members(d2), "writing twice gives another document"); }
    { CAS* b = CW[0]->cas(); CasHolder hb(b); read(y, b, nullptr, false); same(want, dump(b, opt()), "written by the reduced CAS and read back"); }
    cur = y;
  }
}
static N node(const std::string& t, std::vector<int> in = {0}, int b = 0, int e = 1) { N n; n.t = t; n.in = in; n.b = b; n.e = e; return n; }
static V val(char k, std::vector<int> i, std::vector<std::string> s = {}) { V v; v.k = k; v.i = i; v.s = s; return v; }
// values of a feature; node 0 is the host, 1 a t.K, 2 a t.X, 3 a t.A
static std::vector<V> valsOf(const F& f) {
  std::string r = f.range; std::vector<V> o; auto strs = [&](char k) { o.push_back(val(k, {}, {})); for (auto& s : STRS) o.push_back(val(k, {}, {s})); o.push_back(val(k, {}, {"a", "", "b c"})); o.push_back(val(k, {}, {"<", "1", "2"})); };
  auto refs = [&](char k) { o.push_back(val(k, {})); for (int a = -1; a < 4; ++a) { o.push_back(val(k, {a})); for (int b = -1; b < 4; ++b) o.push_back(val(k, {a, b, 2})); } };
  if (r == "uima.cas.String") for (auto& s : STRS) o.push_back(val('S', {}, {s}));
  else if (r == "uima.cas.Integer") for (int i : {0, 7, -2147483647}) o.push_back(val('I', {i})); else if (r == "uima.cas.Double") for (int i : {0, 1, -9}) o.push_back(val('D', {i}));
  else if (r == "t.E") { o.push_back(val('S', {}, {"red"})); o.push_back(val('S', {}, {"green & blue"})); }
  else if (r == "uima.cas.TOP") for (int a = 0; a < 4; ++a) o.push_back(val('R', {a})); else if (r == "t.X") o.push_back(val('R', {2}));
  else if (r == "uima.cas.FSArray") refs('f'); else if (r == "uima.cas.StringArray") strs('s'); else if (r == "uima.cas.IntegerArray") for (auto& v : std::vector<std::vector<int>>{{}, {1}, {3, -4, 5}}) o.push_back(val('i', v)); else if (r == "uima.cas.ByteArray") for (auto& v : std::vector<std::vector<int>>{{}, {1}, {3, -4, 127}}) o.push_back(val('b', v));
  else if (r == "uima.cas.FSList") refs('F'); else if (r == "uima.cas.StringList") strs('L'); else for (auto& v : std::vector<std::vector<int>>{{}, {1}, {3, -4, 5}}) o.push_back(val('G', v));
  return o;
}
// after reading, the reduced CAS is changed and written; the same change to the full CAS must give the same content
static void changed() {
  mc::cover("changed"); Spec sp; sp.views = 2; sp.sofa = {1, mc::choose(2)}; sp.n = {node("t.K", {0, 1}), node("t.A", {0}, 1, 3), node("t.X", {0}), node("t.X", {})}; sp.n[0].f["r"] = val('R', {mc::choose(2) ? 2 : 3}); sp.n[0].f["s"] = val('S', {}, {"old"}); sp.n[0].f["as"] = val('s', {}, {"x", "y"}); sp.n[1].f["r"] = val('R', {3}); sp.n[2].f["r"] = val('R', {0}); sp.n[2].f["af"] = val('f', {0, 1, 3, -1}); sp.n[0].f["af"] = val('f', {2, 1, 3}); sp.n[0].f["nlf"] = val('F', {3, 1});
  int cut = mc::pick(std::vector<int>{1, 4, 7, 9, 9 + 2, 9 + 4}); 
  CAS* c[2] = {CW[0]->cas(), CW[cut]->cas()}; CasHolder h0(c[0]), h1(c[1]); build(sp, c[0]); std::string x = write(c[0], nullptr); Doc d0; parse(x, d0); XmiSerializationSharedData sd; read(x, c[1], &sd, true);
  int ops[3] = {mc::choose(9), mc::choose(9), mc::thorough() ? mc::choose(9) : 8}; mc::step("cut %d changes %d %d %d", cut, ops[0], ops[1], ops[2]);
  for (int w = 0; w < 2; ++w) { CAS* v[2] = {c[w]->getBaseCas()->getView(U("_InitialView")), c[w]->getBaseCas()->getView(U("v1"))}; TypeSystem const& ts = c[w]->getTypeSystem(); int id = 50;
    std::map<int, FeatureStructure> m; for (int q = 0; q < 2; ++q) { std::vector<lowlevel::TyFS> ix; v[q]->getLowlevelIndexRepository().getIndexedFSs(ix); for (auto a : ix) { FeatureStructure f = internal::FSPromoter::promoteFS(a, *v[q]); Feature i = ff(f, "id"); if (i.isValid()) m[f.getIntValue(i)] = f; } }
    FeatureStructure k = m[1], a = m[2]; MC_CHECK(k.isValid() && a.isValid(), "the known structures are not found");
    for (int o : ops) switch (o) {
      case 0: { FeatureStructure n = v[0]->createFS(ts.getType(U("t.K"))); n.setIntValue(ff(n, "id"), ++id); if (!CUTS[cut].feats.count("r")) n.setFSValue(ff(n, "r"), k); v[1]->getIndexRepository().addFS(n); break; }
      case 1: { AnnotationFS n = v[0]->createAnnotation(ts.getType(U("t.A")), 0, 2); n.setIntValue(ff(n, "id"), ++id); v[0]->getIndexRepository().addFS(n); break; }
      case 2: { if (ff(k, "s").isValid()) k.setStringValue(ff(k, "s"), UnicodeStringRef(U("new"))); else break; break; }
      case 3: { k.setIntValue(ff(k, "n"), 99); break; }
      case 4: { v[0]->getIndexRepository().removeFS(a); v[1]->getIndexRepository().removeFS(k); break; }
      case 5: { v[0]->getIndexRepository().removeFS(k); v[0]->getIndexRepository().addFS(k); break; }
      case 6: { StringArrayFS n = v[0]->createStringArrayFS(1); n.set(0, UnicodeStringRef(U("z"))); k.setFSValue(ff(k, "as"), n); break; }
      case 7: { CAS* nv = c[w]->getBaseCas()->createView(U(mc::fmt("w%d", ++id))); nv->setDocumentText(U("new view")); AnnotationFS n = nv->createAnnotation(ts.getType(U("t.A")), 0, 2); n.setIntValue(ff(n, "id"), ++id); nv->getIndexRepository().addFS(n); break; }
      default: break; } }
  Cut cc = CUTS[cut]; if (cc.feats.count("s")) for (int o : ops) if (o == 2) return;
  std::string want = dump(c[0], opt()), y = write(c[1], &sd); mc::outcome(want); Doc d1; parse(y, d1); for (auto& p : d0.el) if (p.first) MC_CHECK(d1.el.count(p.first) && typeOf(d1.el[p.first]) == typeOf(p.second), "the element with xmi:id %d is lost", p.first);
  CAS* b = CW[0]->cas(); CasHolder hb(b); read(y, b, nullptr, false); same(want, dump(b, opt()), "changed by the reduced CAS and read back");
}
void mc_body() {
  int sc = mc::choose(6); Spec sp;
  if (sc == 0) { mc::cover("features"); // one feature of one host with each value
    std::string h = mc::pick(VS{"t.K", "t.X", "u.t.X", "NoNs", "k.cas.C", "t.KK"}); int f = mc::choose(NKF); auto vs = valsOf(KF[f]); V v = vs[mc::choose((int)vs.size())]; int cut = h == "t.K" ? mc::choose(NC + 2) : mc::pick((mc::thorough() ? std::vector<int>{1, 4, 5, 6, 8} : std::vector<int>{4, 5, 8})); if (cut == NC) cut = NC + f; if (cut == NC + 1) cut = (int)CUTS.size() - 1;
    sp.sofa = {1}; sp.n = {node(h), node("t.K"), node("t.X", mc::flip() ? std::vector<int>{0} : std::vector<int>{}), node("t.A", {0}, 0, 4)}; sp.n[0].f[KF[f].n] = v; if (h == "t.KK") sp.n[0].f["kk"] = val('S', {}, {"<k>"}); mc::step("%s.%s cut %d", h.c_str(), KF[f].n, cut); trip(sp, {cut}); return; }
  if (sc == 1) { mc::cover("graphs"); // three nodes, every reference
    VS t = {mc::pick(VS{"t.K", "t.X"}), mc::pick(mc::thorough() ? VS{"t.X", "t.A", "u.t.X"} : VS{"t.X", "t.A"}), mc::pick(VS{"t.K", "t.X"})}; for (auto& s : t) sp.n.push_back(node(s, {}, 1, 2)); for (int i = 0; i < 3; ++i) { int r = mc::choose(4); if (r) sp.n[i].f["r"] = val('R', {r - 1}); }
    int m = 1 + mc::choose(7); for (int i = 0; i < 3; ++i) if (m >> i & 1) sp.n[i].in = {0}; sp.sofa = {1}; trip(sp, {mc::pick(mc::thorough() ? std::vector<int>{1, 2, 4, 5} : std::vector<int>{1, 5})}); return; }
  if (sc == 2) { mc::cover("views"); // members of views with and without sofa
    sp.views = 1 + mc::choose(3); sp.sofa.clear(); for (int i = 0; i < sp.views; ++i) sp.sofa.push_back(mc::choose(4)); if (sp.views == 3) sp.sofa[2] = 1;
    VS t = {"t.K", "t.X", "t.X", "t.A"}; for (int i = 0; i < 4; ++i) { sp.n.push_back(node(t[i], {}, 0, 2)); int m = i == 2 && sp.views == 3 ? 4 : i == 3 && !mc::thorough() ? 1 : mc::choose(1 << std::min(sp.views, 2)); for (int k = 0; k < 3; ++k) if (m >> k & 1) sp.n[i].in.push_back(k); }
    sp.n[0].f["r"] = val('R', {1}); if (sp.sofa[0] != 0) sp.n[3].view = 0; else if (sp.views > 1) sp.n[3].view = 1; trip(sp, {mc::pick(mc::thorough() ? std::vector<int>{1, 4, 5, 2} : std::vector<int>{1, 5})}); return; }
  if (sc == 3) { mc::cover("chains"); // through two type systems lacking different things
    std::vector<int> C = {0, 1, 2, 3, 4, 5, 6, 7, 8, (int)CUTS.size() - 1}; int a = mc::pick(C), b = mc::pick(C); sp.sofa = {1, mc::choose(2)}; sp.views = 2; int w = mc::choose(3);
    VS t = {"t.K", "t.X", "t.A", "u.t.X", "NoNs", "k.cas.C", "t.KK"}; for (size_t i = 0; i < t.size(); ++i) { sp.n.push_back(node(t[i], i % 2 ? std::vector<int>{0} : std::vector<int>{0, 1}, 0, 3)); for (auto& k : KF) { auto vs = valsOf(k); sp.n[i].f[k.n] = vs[(i * 3 + w * 5 + vs.size() / 2) % vs.size()]; if (KF[3].n == k.n) sp.n[i].f[k.n] = val('R', {1}); } }
    sp.n[6].f["kk"] = val('S', {}, {STRS[w]}); trip(sp, {a, b}); return; }
  if (sc == 4) { mc::cover("prefixes"); // the document uses other namespace prefixes than the writer
    int style = 1 + mc::choose(6), m = mc::choose(1 << TYPES.size()), cut = mc::pick(std::vector<int>{1, 2, 3, 4, 5}); sp.sofa = {1}; for (size_t i = 0; i < TYPES.size(); ++i) if (m >> i & 1) { sp.n.push_back(node(TYPES[i], {0}, 0, 2)); sp.n.back().f["r"] = val('R', {(int)sp.n.size() - 2}); sp.n.back().f["ns"] = val('s', {}, {"a", "b"}); } mc::step("prefixes %d types %x cut %d", style, m, cut); trip(sp, {cut}, style); return; }
  changed();
}
int main(int c, char** v) { return mc::run(c, v); }
