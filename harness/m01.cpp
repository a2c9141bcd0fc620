// M01: error reports are complete: messages carry their parameters, error infos their contexts, failures the names of what failed
#include "uh.hpp"
#include "uima/msg.h"
#include "uima/xmideserializer.hpp"
#include "uima/xcasdeserializer.hpp"
#include "uima/xmltypesystemreader.hpp"
#include "engx.hpp"
#include "xercesc/framework/MemBufInputSource.hpp"
#include <climits>
#include <cmath>
using std::string; using std::vector;
static string rep(size_t n, char c = 'x') { return string(n, c); }
// ---------------------------------------------------------------- messages
// a message text with its parameters left open, found by formatting it with one-character parameters
struct Piece { string text; int param; };
static vector<Piece> pieces(TyMessageId id) {
  vector<string> p; for (int i = 0; i < 9; ++i) p.push_back(string(1, char(1 + i))); string s = ErrorMessage(id, p).asString();
  vector<Piece> r; string cur; for (char c : s) if (c >= 1 && c <= 9) { r.push_back({cur, c - 1}); cur.clear(); } else cur += c;
  r.push_back({cur, -1}); return r;
}
static string expected(const vector<Piece>& t, const vector<string>& p) { string s; for (auto& x : t) { s += x.text; if (x.param >= 0) s += (size_t) x.param < p.size() ? p[x.param] : "???"; } return s; }
static void same(const string& got, const string& want, const char* what) {
  if (got == want) { mc::outcome(mc::fmt("%zu", std::hash<string>()(want))); return; }
  size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
  mc::fail("%s: %zu characters instead of %zu, first difference at %zu: '%s' instead of '%s'", what, got.size(), want.size(), i, got.substr(i, 30).c_str(), want.substr(i, 30).c_str());
}
static const vector<size_t>& lengths() { static vector<size_t> q = {0, 1, 40, 4000, 4095, 4096, 4097, 20000}, t; if (t.empty()) { t = q; for (size_t n = 4020; n < 4110; ++n) t.push_back(n); t.push_back(1 << 20); } return mc::thorough() ? t : q; }
static string text(int pos, size_t n) { string s; while (s.size() < n) s += mc::fmt("p%d %%1%%%%.", pos); return s.substr(0, n); }
static void messages() {
  int id = 1 + mc::choose(UIMA_MSG_ID_SIGNATURE_END); mc::step("message %d", id); vector<Piece> t = pieces(id); int used = 0; for (auto& x : t) used = std::max(used, x.param + 1);
  mc::cover(used == 0 ? "no parameter" : used == 1 ? "one parameter" : "several parameters"); mc::state(mc::fmt("m%d", id));
  size_t total = 0; for (auto& x : t) total += x.text.size(); MC_CHECK(total + used > 0, "message %d has no text", id);
  auto check = [&](const vector<string>& p) { string got = ErrorMessage(id, p).asString(); same(got, expected(t, p), mc::fmt("message %d with %zu parameters", id, p.size()).c_str());
    ErrorMessage m(id); for (auto& s : p) m.addParam(s); same(m.asString(), got, "message with added parameters"); MC_CHECK(m.getMessageParams() == p && m.getMessageID() == id, "parameters or id changed");
    if (p.size() == 1) { same(ErrorMessage(id, p[0]).asString(), got, "string parameter"); same(ErrorMessage(id, p[0].c_str()).asString(), got, "char* parameter"); same(ErrorMessage(id, U(p[0])).asString(), got, "UnicodeString parameter"); icu::UnicodeString u(U(p[0])); same(ErrorMessage(id, (const UChar*) u.getTerminatedBuffer()).asString(), got, "UChar* parameter");
      ErrorMessage a(id), b(id), c(id); a.addParam(u); b.addParam((const UChar*) u.getTerminatedBuffer()); c.addParam(p[0].c_str()); same(a.asString(), got, "added UnicodeString"); same(b.asString(), got, "added UChar*"); same(c.asString(), got, "added char*"); }
    ErrorMessage cp(m); m.reset(); same(cp.asString(), got, "copied message"); MC_CHECK(m.getMessageParams().empty(), "parameters left after reset"); };
  const auto& L = lengths(); bool big = used <= 2; vector<string> p;
  for (int n = 0; n <= used + 1; ++n) { vector<size_t> idx(n, 0); // every length in every place for up to two, one odd length otherwise
    if (n <= 2 && big) { for (;;) { p.clear(); for (int i = 0; i < n; ++i) p.push_back(text(i, L[idx[i]])); check(p); int i = 0; while (i < n && ++idx[i] == L.size()) idx[i++] = 0; if (i == n) break; } }
    else for (size_t a : {size_t(1), size_t(2000), size_t(4096)}) for (int odd = 0; odd < n; ++odd) for (size_t l : L) { p.clear(); for (int i = 0; i < n; ++i) p.push_back(text(i, i == odd ? l : a)); check(p); } }
}
static void numbers() {
  mc::cover("numbers"); TyMessageId id = UIMA_MSG_ID_LITERAL_STRING; same(ErrorMessage(id, "a %1 %2 %%").asString(), "a %1 %2 %%", "literal");
  for (int v : {0, 1, -1, 42, INT_MAX, INT_MIN}) { string w = std::to_string(v); same(ErrorMessage(id, v).asString(), w, "int"); ErrorMessage m(id); m.addParam(v); same(m.asString(), w, "added int"); same(ErrorMessage(id, (long) v).asString(), w, "long"); }
  for (unsigned v : {0u, 1u, 42u, (unsigned) INT_MAX, 0x80000000u, UINT_MAX}) { string w = std::to_string(v); same(ErrorMessage(id, v).asString(), w, "unsigned int"); ErrorMessage m(id); m.addParam(v); same(m.asString(), w, "added unsigned int"); same(ErrorMessage(id, (unsigned long) v).asString(), w, "unsigned long"); }
  for (long v : {LONG_MAX, LONG_MIN, 4294967296L}) { string w = std::to_string(v); same(ErrorMessage(id, v).asString(), w, "long"); }
  for (unsigned long v : {ULONG_MAX, (unsigned long) LONG_MAX + 1}) same(ErrorMessage(id, v).asString(), std::to_string(v), "unsigned long");
  for (double v : {0.0, 1.5, -2.25, 1e10, 1e300, -1e300, 1e-300}) { double back = 0; string s = ErrorMessage(id, v).asString(); MC_CHECK(sscanf(s.c_str(), "%lf", &back) == 1 && (v == 0 ? back == 0 : fabs(back / v - 1) < 1e-4 || fabs(v) < 1e-6), "double %g is reported as %s", v, s.c_str()); }
  for (int bad : {UIMA_MSG_ID_SIGNATURE_END + 1, 100000}) { string s = ErrorMessage(bad).asString(); MC_CHECK(s.find(std::to_string(bad)) != string::npos, "unknown message %d is reported as '%s'", bad, s.c_str()); }
  same(ErrorMessage(id, U("\xc3\xa9\xe2\x82\xac")).asString(), "\xc3\xa9\xe2\x82\xac", "text beyond ASCII");
}
// ---------------------------------------------------------------- error infos
struct MCtx { string text; int file, line; };
struct MInfo { TyErrorId id = 0; string text; bool rec = true; vector<MCtx> ctx; bool set = false; };
static void infos() {
  mc::cover("error info"); ErrorInfo e[2]; MInfo m[2]; string fresh = e[0].getMessage().asString(); m[0].text = m[1].text = fresh; int depth = mc::thorough() ? 6 : 5;
  static const char* file[] = {0, "a.cpp", "b.cpp"}; static const char* fn[] = {0, "f()", "g()"};
  for (int d = 0; d < depth; ++d) {
    int op = mc::choose(8);
    switch (op) {
      case 0: { int v = 1 + mc::choose(2); long id = v == 1 ? 5 : -7; mc::step("id %ld", id); e[0].setErrorId(id); m[0].id = id; break; }
      case 1: { size_t n = mc::flip() ? 5000 : 3; string s = text(d, n); mc::step("message of %zu", n); e[0].setMessage(ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, s)); m[0].text = s; break; }
      case 2: { bool r = mc::flip(); e[0].setSeverity(r ? ErrorInfo::recoverable : ErrorInfo::unrecoverable); m[0].rec = r; mc::step("severity"); break; }
      case 3: { int k = mc::choose(3); string s = mc::fmt("context%d.", d); mc::step("context %d", k); e[0].addContext(ErrorContext(ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, s), file[k], fn[k], k ? 100 + d : 0)); m[0].ctx.push_back({s, k, k ? 100 + d : 0}); break; }
      case 4: e[0].reset(); m[0] = MInfo(); m[0].text = fresh; mc::step("reset"); break;
      case 5: e[1] = e[0]; m[1] = m[0]; mc::step("assign"); break;
      case 6: std::swap(e[0], e[1]); std::swap(m[0], m[1]); mc::step("exchange"); break;
      case 7: { mc::step("throw"); try { try { Uima_runtime_error x(e[0]); UIMA_EXC_THROW(x, UIMA_MSG_ID_LITERAL_STRING + 1); } catch (Exception& x) { MC_CHECK(x.getErrorInfo().contextCount() == m[0].ctx.size() + 1, "context not added when thrown"); UIMA_EXC_ADD_CONTEXT(x, UIMA_MSG_ID_LITERAL_STRING + 1); string s = x.asString(); MC_CHECK(s.find("Uima_runtime_error") != string::npos && s.find(x.getErrorInfo().asString()) != string::npos, "exception text '%s'", s.c_str()); e[0] = x.getErrorInfo(); throw; } }
        catch (std::exception& x) { MC_CHECK(string(x.what()).find("Uima_runtime_error") != string::npos, "what() is %s", x.what()); } string t = ErrorMessage(UIMA_MSG_ID_LITERAL_STRING + 1).asString(); m[0].ctx.push_back({t, 0, 0}); m[0].ctx.push_back({t, 0, 0}); break; } }
    for (int k = 0; k < 2; ++k) { MC_CHECK(e[k].getErrorId() == m[k].id && e[k].isRecoverable() == m[k].rec && e[k].getMessage().asString() == m[k].text && e[k].contextCount() == m[k].ctx.size(), "error info %d differs: id %ld recoverable %d '%s' contexts %zu", k, (long) e[k].getErrorId(), e[k].isRecoverable(), e[k].getMessage().asString().substr(0, 80).c_str(), e[k].contextCount());
      string s = e[k].asString(); std::ostringstream o; o << e[k]; MC_CHECK(o.str() == s, "streamed text differs"); size_t pos = 0;
      auto next = [&](const string& w) { size_t q = s.find(w, pos); MC_CHECK(q != string::npos, "'%s' missing in its place in '%s'", w.substr(0, 60).c_str(), s.substr(0, 300).c_str()); pos = q + w.size(); };
      if (m[k].id) { next(std::to_string(m[k].id)); next(m[k].rec ? "Yes" : "No"); next(m[k].text); for (auto& c : m[k].ctx) { next(c.text); if (c.file) { next(file[c.file]); next(fn[c.file]); next(std::to_string(c.line)); } } }
      for (size_t i = 0; i < m[k].ctx.size(); ++i) { auto* c = e[k].contextPtrAtIndex(i); MC_CHECK(c && c->getMessage().asString() == m[k].ctx[i].text && (int) c->getLineNumber() == m[k].ctx[i].line, "context %zu differs", i); }
      MC_CHECK(e[k].contextPtrAtIndex(m[k].ctx.size()) == NULL, "context beyond the last"); mc::state(mc::fmt("%d %ld %d %zu %zu", k, (long) m[k].id, m[k].rec, m[k].text.size(), m[k].ctx.size())); }
  }
}
// ---------------------------------------------------------------- failures
struct Fail { const char* name; std::function<string(const string& n, vector<string>& want)> run; };
static string infoText(const ErrorInfo& e) { return e.getErrorId() == UIMA_ERR_NONE ? "" : e.asString(); }
static string thrown(std::function<void()> f) { try { f(); return ""; } catch (Exception& x) { return x.asString(); } }
static string spill(const string& s, const char* ext) { string f = mc::X().scratch + mc::fmt("/m%d.", getpid()) + ext; FILE* h = fopen(f.c_str(), "w"); fwrite(s.data(), 1, s.size(), h); fclose(h); return f; }
static TypeSystem* TSY; static CAS* CA;
static string engErr(const string& xml) { ErrorInfo e; AnalysisEngine* a = Framework::createAnalysisEngine(false, U(xml), e); if (a) { delete a; return ""; } return infoText(e); }
static string tsErr(const string& types) { ErrorInfo e; try { TypeSystem* t = Framework::createTypeSystemFromXMLBuffer(tsXML(types).c_str(), e); if (t) { delete t; return ""; } return infoText(e); } catch (Exception& x) { return x.asString(); } }
static string xmi(const string& body) { string x = "<?xml version=\"1.0\"?><xmi:XMI xmlns:xmi=\"http://www.omg.org/XMI\" xmlns:m=\"http:///m.ecore\" xmi:version=\"2.0\">" + body + "</xmi:XMI>"; return thrown([&] { CA->reset(); xercesc::MemBufInputSource is((XMLByte const*) x.data(), x.size(), "memory.xmi"); XmiDeserializer::deserialize(is, *CA); }); }
static string xcas(const string& x) { return thrown([&] { CA->reset(); xercesc::MemBufInputSource is((XMLByte const*) x.data(), x.size(), "memory.xcas"); XCASDeserializer d; d.deserialize(is, *CA); }); }
static ED base() { ED d; d.name = "e"; d.impl = exeDir() + "/librec.so"; return d; }
static vector<Fail>& fails() { static vector<Fail> f = {
  {"unknown range", [](const string& n, vector<string>& w) { w = {n}; return tsErr(typeXML("m.T", "uima.cas.TOP", {{"f", n}})); }},
  {"unknown supertype", [](const string& n, vector<string>& w) { w = {n}; return tsErr(typeXML("m.T", n)); }},
  {"conflicting ranges", [](const string& n, vector<string>& w) { w = {n}; return tsErr(typeXML("m.T", "uima.cas.TOP", {{n, "uima.cas.Integer"}}) + typeXML("m.T", "uima.cas.TOP", {{n, "uima.cas.String"}})); }},
  {"missing library", [](const string& n, vector<string>& w) { ED d = base(); d.impl = "/nowhere/lib" + n + ".so"; w = {n}; return engErr(edXML(d)); }},
  {"XMI type", [](const string& n, vector<string>& w) { w = {n}; return xmi("<m:" + n + " xmi:id=\"1\"/>"); }},
  {"XMI feature", [](const string& n, vector<string>& w) { w = {n}; return xmi("<m:A xmi:id=\"1\" " + n + "=\"1\"/>"); }},
  {"XMI syntax", [](const string& n, vector<string>& w) { w = {"memory.xmi", "m:A"}; return xmi("<m:A xmi:id=\"1\"></m:" + n + ">"); }},
  {"XCAS syntax", [](const string& n, vector<string>& w) { w = {"memory.xcas", n.substr(0, 60)}; return xcas("<CAS><" + n + "></m.A></CAS>"); }},
  {"descriptor syntax", [](const string& n, vector<string>& w) { string f = spill("<analysisEngineDescription>\n</" + n + ">", "xml"); w = {f.substr(f.rfind('/') + 1), "2"}; ErrorInfo e; AnalysisEngine* a = Framework::createAnalysisEngine(f.c_str(), e); unlink(f.c_str()); return a ? "" : infoText(e); }},
  {"descriptor tag", [](const string& n, vector<string>& w) { ED d = base(); d.settings = "<configurationParameterSettings><nameValuePair><name>p</name><value><" + n + "/></value></nameValuePair></configurationParameterSettings>"; w = {n}; return engErr(edXML(d, true)); }},
  {"missing descriptor", [](const string& n, vector<string>& w) { w = {n}; ErrorInfo e; AnalysisEngine* a = Framework::createAnalysisEngine(("/nowhere/" + n + ".xml").c_str(), e); return a ? "" : infoText(e); }},
  {"view", [](const string& n, vector<string>& w) { w = {n}; return thrown([&] { CA->reset(); CA->getView(U(n)); }); }},
  {"second view", [](const string& n, vector<string>& w) { w = {n}; return thrown([&] { CA->reset(); CA->createView(U(n)); CA->createView(U(n)); }); }},
  {"feature of another type", [](const string& n, vector<string>& w) { w = {"fb", "m.A"}; return thrown([&] { CA->reset(); FeatureStructure a = CA->createFS(TSY->getType("m.A")); a.setIntValue(TSY->getType("m.B").getFeatureByBaseName("fb"), 1); }); }},
  {"feature of another kind", [](const string& n, vector<string>& w) { w = {"not a string"}; return thrown([&] { CA->reset(); FeatureStructure a = CA->createFS(TSY->getType("m.A")); a.setStringValue(TSY->getType("m.A").getFeatureByBaseName("fa"), U("x")); }); }},
  {"array index", [](const string& n, vector<string>& w) { w = {std::to_string(n.size()), "3"}; return thrown([&] { CA->reset(); IntArrayFS a = CA->createIntArrayFS(3); a.get(n.size() + 3 - 3 < 3 ? 3 : n.size()); }); }},
  {"index label", [](const string& n, vector<string>& w) { w = {n}; return thrown([&] { CA->reset(); CA->setDocumentText(U("x")); CA->getIndexRepository().getIndex(U(n)); }); }},
  {"XML type system", [](const string& n, vector<string>& w) { w = {n}; return thrown([&] { struct Def : internal::CASDefinition { Def() : CASDefinition((AnnotatorContext const*) 0) {} } d; d.init(); XMLTypeSystemReader rd(d); rd.readMemory((string("<type_system><type name=\"uima.cas.TOP\"><type name=\"m.A\"><feature name=\"f\" range=\"") + n + "\"/></type></type></type_system>").c_str(), U("me")); }); }},
}; return f; }
static void failures() {
  auto& f = fails()[mc::choose(fails().size())]; mc::cover(f.name); mc::step("%s", f.name);
  bool file = !strcmp(f.name, "missing library") || !strcmp(f.name, "missing descriptor");
  vector<size_t> L = file ? vector<size_t>{4, 60, 200} : vector<size_t>{4, 60, 1000, 3900, 4000, 4090, 4096, 4100, 10000, 30000}; if (mc::thorough() && !file) for (size_t n = 3970; n < 4110; ++n) L.push_back(n);
  for (size_t n : L) for (int beyond = 0; beyond < 2; ++beyond) { if (beyond && file) continue; vector<string> w; string name = "Q" + rep(n - 1, 'q'); if (beyond) name = "Q\xc3\xa9" + rep(n, 'q');
    string s = f.run(name, w); if (getenv("M01_SHOW")) fprintf(stderr, "--- %s %zu\n%s\n", f.name, n, s.substr(0, 700).c_str());
    MC_CHECK(!s.empty(), "%s with a name of %zu characters does not fail", f.name, n); if (!strcmp(f.name, "array index") && beyond) continue;
    for (auto& x : w) MC_CHECK(s.find(x) != string::npos, "%s: '%s' (%zu characters) is not in the report '%s'", f.name, x.substr(0, 40).c_str(), x.size(), s.substr(0, 300).c_str());
    MC_CHECK(s.find("0x") == string::npos, "%s: the report '%s' has an address", f.name, s.substr(0, 300).c_str());
    mc::state(mc::fmt("%s %zu %d", f.name, n, beyond)); mc::outcome(mc::fmt("%s %zu", f.name, s.size())); }
}
void mc_init() { uhInit(); TSY = makeTS(tsXML(typeXML("m.A", "uima.cas.TOP", {{"fa", "uima.cas.Integer"}}) + typeXML("m.B", "uima.cas.TOP", {{"fb", "uima.cas.Integer"}}))); { ErrorInfo e; Eng* g = new Eng(base()); CA = Framework::createCAS(*TSY, *g->desc->getAnalysisEngineMetaData(), e); if (!CA) mc::fail("no CAS"); }}
void mc_body() { switch (mc::choose(4)) { case 0: messages(); break; case 1: infos(); break; case 2: failures(); break; case 3: numbers(); break; } }
int main(int c, char** v) { return mc::run(c, v); }
