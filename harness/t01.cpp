// T01: engines and CASes owned by different threads do not interfere
#include "engx.hpp"
#include "ix.hpp"
#include "t01rt.hpp"
#include "uima/internal_casserializer.hpp"
#include "uima/internal_casdeserializer.hpp"
#include "uima/xmiwriter.hpp"
#include "uima/xmideserializer.hpp"
#include "uima/xcasdeserializer.hpp"
#include "uima/xmlwriter.hpp"
#include "uima/xmltypesystemreader.hpp"
#include "uima/xmltypesystemwriter.hpp"
#include "uima/casdefinition.hpp"
#include "uima/fsfilterbuilder.hpp"
#include <sys/wait.h>
using namespace uima;
#include "uima/caspool.hpp"
static std::string TYPES() { auto F = [](const char* n, const char* r) { return std::pair<std::string, std::string>(n, r); };
  return typeXML("t.A", "uima.tcas.Annotation", {F("n", "uima.cas.Integer"), F("s", "uima.cas.String"), F("r", "uima.cas.TOP"), F("arr", "uima.cas.StringArray"), F("l", "uima.cas.IntegerList"), F("d", "uima.cas.Double")}) + typeXML("t.B", "t.A", {F("e", "t.E")}) + enumXML("t.E", {"x", "y"}); }
static std::string dump(CAS* c) { std::string o; ANIndex ix = c->getAnnotationIndex(); ANIterator it = ix.iterator(); for (it.moveToFirst(); it.isValid(); it.moveToNext()) { AnnotationFS a = it.get(); o += toS(a.getType().getName()) + mc::fmt("[%zu,%zu] ", a.getBeginPosition(), a.getEndPosition()); 
    std::vector<Feature> fs; a.getType().getAppropriateFeatures(fs); for (auto& f : fs) { Type r; f.getRangeType(r); std::string rn = toS(r.getName()); o += toS(f.getName()) + "="; if (rn == "uima.cas.Integer") o += mc::fmt("%d", a.getIntValue(f)); else if (rn == "uima.cas.Double") o += mc::fmt("%g", a.getDoubleValue(f)); else if (rn == "uima.cas.String" || rn == "t.E") o += toS(a.getStringValue(f)); else if (rn == "uima.cas.StringArray") { StringArrayFS s = a.getStringArrayFSValue(f); if (s.isValid()) for (size_t i = 0; i < s.size(); ++i) o += toS(s.get(i)) + ","; } else if (rn == "uima.cas.IntegerList") { IntListFS l = a.getIntListFSValue(f); if (l.isValid()) { int g = 0; while (!l.isEmpty() && g++ < 50) { o += mc::fmt("%d,", l.getHead()); l = l.getTail(); } } } else if (rn == "uima.cas.TOP") { FeatureStructure q = a.getFSValue(f); o += q.isValid() ? toS(q.getType().getName()) : "0"; } o += " "; } }
  UnicodeStringRef t = c->getDocumentText(); return o + "|" + toS(t); }
static void put(CAS* c, int n, int base) { TypeSystem const& ts = c->getTypeSystem(); Type A = ts.getType("t.A"), B = ts.getType("t.B"); auto f = [&](const char* x) { return B.getFeatureByBaseName(x); }; AnnotationFS prev;
  for (int k = 0; k < n; ++k) { AnnotationFS a = c->createAnnotation(k % 2 ? B : A, k, k + 1 + base); a.setIntValue(f("n"), base * 100 + k); a.setStringValue(f("s"), U(mc::fmt("s%d-%d", base, k))); a.setDoubleValue(f("d"), base + k / 4.0); if (k) a.setFSValue(f("r"), prev); StringArrayFS s = c->createStringArrayFS(2); s.set(0, U(mc::fmt("e%d", base))); s.set(1, U("z")); a.setFSValue(f("arr"), s); IntListFS l = c->createIntListFS(); l.addFirst(base); l.addLast(7); a.setFSValue(f("l"), l); if (k % 2) a.setStringValue(f("e"), U(base % 2 ? "x" : "y")); c->getIndexRepository().addFS(a); prev = a; } }
static std::vector<IxDef> IXS() { return {{"ixN", "t.A", "sorted", {{"n", false}, {"s", true}}}, {"ixB", "t.A", "set", {{"n", false}}}}; }
static int who(const std::string& s) { return s[s.size() - 1] - '0'; }
struct Def : uima::internal::CASDefinition { Def() : CASDefinition((AnnotatorContext const*)0) {} };
struct Hk : RecHook {
  bool make() { return true; } void made(int) {} void gone(int) {} CAS* next(int, const std::string&, AnnotatorContext*) { return nullptr; }
  int call(int, const std::string& name, const char* cb, AnnotatorContext* ctx, CAS* cas, const ResultSpecification* rs, const TypeSystem*) {
    if (strcmp(cb, "process")) return 0; int i = who(name), v = -1; if (ctx->extractValue(U("P"), v) != UIMA_ERR_NONE) v = -2; put(cas, 2, 1 + i); ctx->getLogger().logMessage(mc::fmt("m%d v%d", i, v)); AnnotationFS a = cas->createAnnotation(cas->getTypeSystem().getType("t.A"), v, v + 1); a.setStringValue(a.getType().getFeatureByBaseName("s"), U("by " + name)); cas->getIndexRepository().addFS(a); return 0; } };
struct Lg : Logger { std::vector<std::string> got[2]; void log(LogStream::EnEntryType t, std::string c, std::string m, std::string msg, long code) { if (msg.size() < 3 || !strchr("mwe", msg[0]) || (msg[1] != '0' && msg[1] != '1') || msg[2] != ' ') return; int i = msg[1] - '0'; got[i].push_back(mc::fmt("%d %s %s %ld", (int)t, c.c_str(), msg.c_str(), code)); } };
static Lg* LG;
static ED prim(int i, const char* n) { ED d; d.name = mc::fmt("%s%d", n, i); d.types = TYPES(); d.params = "<configurationParameters><configurationParameter><name>P</name><type>Integer</type><multiValued>false</multiValued><mandatory>false</mandatory></configurationParameter><configurationParameter><name>Q</name><type>String</type><multiValued>true</multiValued><mandatory>false</mandatory></configurationParameter></configurationParameters>";
  d.settings = mc::fmt("<configurationParameterSettings><nameValuePair><name>P</name><value><integer>%d</integer></value></nameValuePair><nameValuePair><name>Q</name><value><array><string>a%d</string><string>b</string></array></value></nameValuePair></configurationParameterSettings>", 3 + i, i); d.caps[0].outTypes = {"t.A", "t.B"}; d.caps[0].langs = {"en"}; return d; }
static ED agg(int i, const char* lib = nullptr) { ED d; d.name = mc::fmt("agg%d", i); d.delegates = {{"K1", prim(i, "one")}, {"K2", prim(i, "two")}}; d.flow = {"K1", "K2"}; if (lib) for (auto& p : d.delegates) p.second.impl = exeDir() + lib; return d; }
// ---------------------------------------------------------------- what a thread does
static const char* NAME[] = {"process", "xmi", "xcas", "binary", "errors", "parameters", "logging", "indexes", "create engine", "create type system", "pool", "views and streams", "type system reader", "descriptor writer"}; enum { NOPS = 14 };
struct Th { int op, i; std::unique_ptr<Eng> g; CAS* c = nullptr; CAS* c2 = nullptr; IxWorld* w = nullptr; std::string xml; std::unique_ptr<CASPool> pool; std::unique_ptr<LogFacility> lf; AnalysisEngineDescription* d = nullptr; };
static void setup(Th& t, int op, int i) {
  t.op = op; t.i = i;
  if (op == 0 || op == 5) { t.g.reset(new Eng(op ? prim(i, "par") : agg(i))); t.g->create(); if (!t.g->e) mc::fail("engine refused: %s", t.g->err.getMessage().asString().c_str()); t.c = t.g->e->newCAS(); }
  if (op == 1 || op == 2 || op == 3 || op == 4 || op == 7 || op == 12) { t.w = new IxWorld(TYPES(), IXS()); t.c = t.w->cas(); t.c2 = t.w->cas(); if (op != 7 && op != 12) { t.c->setDocumentText(U(mc::fmt("text %d", i))); put(t.c, 3, 1 + i); } }
  if (op == 11) { t.w = new IxWorld(TYPES(), IXS()); t.c = t.w->cas(); t.xml = mc::fmt("%s/t01-%d-%d", mc::X().scratch.c_str(), (int)getpid(), i); FILE* f = fopen(t.xml.c_str(), "w"); fprintf(f, "file of %d", i); fclose(f); }
  if (op == 6) t.lf.reset(new LogFacility(U(mc::fmt("origin%d", i))));
  if (op == 10) { t.g.reset(new Eng(prim(i, "pool"))); t.pool.reset(new CASPool(*t.g->desc, 1)); }
  if (op == 13) t.g.reset(new Eng(agg(i)));
  if (op == 8) { t.xml = mc::fmt("%s/t01-%d-%d.xml", mc::X().scratch.c_str(), (int)getpid(), i); std::string x = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>" + edXML(agg(i, i ? "/./librec.so" : "/././librec.so"), true); Eng(prim(i, "warm")).create(); FILE* f = fopen(t.xml.c_str(), "w"); fwrite(x.data(), x.size(), 1, f); fclose(f); }
  if (op == 9 || op == 4) t.xml = tsXML(typeXML(mc::fmt("t.X%d", i), "uima.tcas.Annotation", {{"f", "uima.cas.String"}}) + typeXML("t.Y", mc::fmt("t.X%d", i)));
}
static std::string act(Th& t) {
  std::string r; int i = t.i;
  try { switch (t.op) {
    case 0: { t.c->setDocumentText(U(mc::fmt("text %d of process", i))); TyErrorId e = t.g->e->process(*t.c); r = mc::fmt("%d ", e) + dump(t.c); break; }
    case 1: { std::ostringstream o; XmiWriter w(*t.c, true); w.write(o); r = o.str(); xercesc::MemBufInputSource in((const XMLByte*)r.data(), r.size(), "mem"); XmiDeserializer::deserialize(in, *t.c2); r += dump(t.c2); break; }
    case 2: { std::ostringstream o; XCASWriter w(*t.c, true); w.write(o); r = o.str(); xercesc::MemBufInputSource in((const XMLByte*)r.data(), r.size(), "mem"); XCASDeserializer::deserialize(in, *t.c2, nullptr); r += dump(t.c2); break; }
    case 3: { internal::SerializedCAS sc; internal::CASSerializer s(true); s.serializeData(*t.c, sc); internal::CASDeserializer d; d.deserializeData(sc, *t.c2); r = dump(t.c2); size_t n = s.getBlobSize(*t.c); std::vector<char> b(n + 8); n = s.getBlob(*t.c, b.data(), b.size()); t.c2->reset(); d.deserializeBlob(b.data(), *t.c2); r += dump(t.c2); break; }
    case 4: { ErrorInfo e; std::string bad = t.xml.substr(0, t.xml.size() - 30); TypeSystem* ts = Framework::createTypeSystemFromXMLBuffer(bad.c_str(), e); r = mc::fmt("%d %ld ", ts != nullptr, (long)e.getErrorId()) + e.getMessage().asString(); try { t.c = nullptr; CAS* c = t.c2; StringArrayFS a = c->createStringArrayFS(1 + i); a.get(7 + i); } catch (Exception& x) { r += x.getErrorInfo().getMessage().asString(); std::ostringstream o; o << x.getErrorInfo().getErrorId() << " " << x.getErrorInfo(); r += o.str(); } try { t.c2->getView(U(mc::fmt("none%d", i))); } catch (Exception& x) { r += x.getErrorInfo().asString(); } r += AnalysisEngine::getErrorIdAsCString(UIMA_ERR_ENGINE_OUT_OF_MEMORY + i); break; }
    case 5: { AnnotatorContext& ac = t.g->e->getAnnotatorContext(); int v = 0; ac.assignValue(U("P"), 40 + i); TyErrorId e = ac.extractValue(U("P"), v); r = mc::fmt("%d %d ", (int)e, v); std::vector<icu::UnicodeString> q; e = ac.extractValue(U("Q"), q); r += mc::fmt("%d ", (int)e); for (auto& s : q) r += toS(s) + ","; e = t.g->e->reconfigure(); r += mc::fmt("%d ", (int)e); t.c->setDocumentText(U(mc::fmt("text %d", i))); e = t.g->e->process(*t.c); r += mc::fmt("%d ", (int)e) + dump(t.c); r += mc::fmt("%d", (int)t.g->e->destroy()); break; }
    case 6: { for (int k = 0; k < 3; ++k) { t.lf->logMessage(mc::fmt("m%d %d", i, k), k); t.lf->logWarning(mc::fmt("w%d %d", i, k), k); t.lf->getLogStream(LogStream::EnError) << "e" << i << " " << k; t.lf->getLogStream(LogStream::EnError).flush(); } for (auto& s : LG->got[i]) r += s + ";"; break; }
    case 7: { t.c->setDocumentText(U(mc::fmt("text %d", i))); put(t.c, 3, 1 + i); auto ix = t.c->getIndexRepository().getIndex(U("ixN")); for (auto it = ix.iterator(); it.isValid(); it.moveToNext()) r += mc::fmt("%d ", it.get().getIntValue(it.get().getType().getFeatureByBaseName("n"))); auto ib = t.c->getIndexRepository().getIndex(U("ixB")); r += mc::fmt("%zu ", ib.getSize()); ANIndex an = t.c->getAnnotationIndex(); ANIterator it = an.iterator(); it.moveToLast(); while (it.isValid()) { r += mc::fmt("%zu ", it.get().getBeginPosition()); it.moveToPrevious(); }
      FSFilterBuilder const& fb = t.c->getFSFilterBuilder(); Type A = t.c->getTypeSystem().getType("t.A"); std::vector<Feature> fp(1, A.getFeatureByBaseName("n")); FSFilter* f = fb.createIntFeatureFilter(fp, FSFilterBuilder::GREATER, (1 + i) * 100); it = an.filteredIterator(f); for (; it.isValid(); it.moveToNext()) r += mc::fmt("f%zu ", it.get().getBeginPosition()); delete f; it.moveToFirst(); it = an.iterator(); it.moveToFirst(); AnnotationFS d = it.get(); it = an.subIterator(d); for (; it.isValid(); it.moveToNext()) r += toS(it.get().getCoveredText()) + ";"; r += toS(A.getName()); t.c->getIndexRepository().removeFS(d); { auto ia = t.c->getIndexRepository().getIndex(U("ixN")); r += mc::fmt("%zu", ia.getSize()); } t.c->reset(); r += mc::fmt("%d", (int)t.c->getDocumentText().length()); t.c->setDocumentText(U("again")); put(t.c, 2, i); r += dump(t.c); break; }
    case 8: { ErrorInfo e; AnalysisEngine* a = Framework::createAnalysisEngine(t.xml.c_str(), e); r = mc::fmt("%d %ld %s ", a != nullptr, (long)e.getErrorId(), a ? "" : e.getMessage().asString().c_str()); if (a) { CAS* c = a->newCAS(); c->setDocumentText(U(mc::fmt("text %d", i))); r += mc::fmt("%d ", (int)a->process(*c)) + dump(c); a->destroy(); delete c->getBaseCas(); delete a; } break; }
    case 9: { ErrorInfo e; TypeSystem* ts = Framework::createTypeSystemFromXMLBuffer(t.xml.c_str(), e); r = mc::fmt("%d %ld ", ts != nullptr, (long)e.getErrorId()); if (ts) { std::vector<Type> v; ts->getTopType().getSubTypes(v); for (auto& x : v) r += toS(x.getName()) + " "; CAS* c = Framework::createCAS(*ts, e); if (c) { c->setDocumentText(U("d")); AnnotationFS a = c->createAnnotation(ts->getType("t.Y"), i, i + 1); a.setStringValue(ts->getType("t.Y").getFeatureByBaseName("f"), U("v")); c->getIndexRepository().addFS(a); r += mc::fmt("%zu", c->getAnnotationIndex().getSize()); delete c->getBaseCas(); } delete ts; } break; }
    case 10: { CAS& c = t.pool->getCAS(); c.setDocumentText(U(mc::fmt("p%d", i))); put(&c, 2, i + 1); r = dump(&c); try { t.pool->getCAS(); r += "!"; } catch (CASPoolException& e) { r += "empty"; } t.pool->releaseCAS(c); CAS& d = t.pool->getCAS(); r += &d == &c ? "same" : "other"; r += mc::fmt("%zu", d.getAnnotationIndex().getSize()); break; }
    case 11: { CAS* v = t.c->createView(U(mc::fmt("view%d", i))); v->setDocumentText(U("in view")); SofaFS s = t.c->createSofa(U(mc::fmt("remote%d", i)), U("text/plain")); s.setRemoteSofaURI(U("file:" + t.xml)); SofaDataStream* st = s.getSofaDataStream(); if (!st) r = "no stream"; else { char b[32]; memset(b, 0, sizeof b); int n = st->read(b, 1, 20); r = mc::fmt("%d %s ", n, b); delete st; } Language l(i ? "de-CH" : "en-US"); r += l.asString() + mc::fmt("%d ", (int)l.matches(Language("en"))); UnicodeStringRef u = v->getDocumentText(); std::string x; u.extractUTF8(x); r += x; std::ostringstream o; o << u; r += o.str(); break; }
    case 12: { XMLTypeSystemWriter w(*t.c); std::ostringstream o; w.write(o); r = o.str(); Def d; d.init(); XMLTypeSystemReader rd(d); rd.readMemory(r.c_str(), U("me")); d.commit(); auto& ts = d.getTypeSystem(); std::vector<lowlevel::TyFSType> v; ts.getSubsumedTypes(ts.getTopType(), v); for (auto x : v) { r += toS(ts.getTypeName(x)) + ":"; std::vector<lowlevel::TyFSFeature> fs; ts.getAppropriateFeatures(x, fs); for (auto f : fs) r += toS(ts.getFeatureBaseName(f)) + " " + toS(ts.getTypeName(ts.getRangeType(f))) + ","; } break; }
    case 13: { icu::UnicodeString o; t.g->desc->toXMLBuffer(o); r = toS(o); break; }
  } } catch (Exception& x) { r += "EX " + x.getErrorInfo().getMessage().asString(); } catch (std::exception& x) { r += std::string("STD ") + x.what(); }
  return r;
}
void mc_init() { mc::disarmIdle(); /* schedules run in child processes with their own limit */ uhInit(); recHook = new Hk; LG = new Lg; ResourceManager::getInstance().registerLogger(LG); }
void mc_body() {
  int a = mc::choose(NOPS), b = mc::choose(NOPS), first = mc::choose(2), warm = mc::thorough() ? mc::choose(2) : 0, chunks = 8, chunk = mc::choose(chunks); bool diag = a == b; if (b < a || (diag && first && !mc::thorough())) return;
  int pfd[2]; if (pipe(pfd)) _exit(96); fflush(stdout); fflush(stderr);
  pid_t pid = fork(); 
  if (!pid) { close(pfd[0]); std::string msg; rt::Report r;
    try { if (warm) for (int k = 0; k < 2; ++k) { Th w; setup(w, k ? b : a, k); act(w); LG->got[k].clear(); } Th t[2]; setup(t[0], a, 0); setup(t[1], b, 1); std::function<std::string()> op[2] = {[&] { return act(t[0]); }, [&] { return act(t[1]); }}; std::string ex[2] = {rt::solo(op[0], 0), rt::solo(op[1], 1)};
      for (int k = 0; k < 2; ++k) { if (!ex[k].compare(0, 6, "FAILED")) msg = "alone: " + ex[k]; if (getenv("T01_SHOW")) fprintf(stderr, "solo %d: %s\n", k, ex[k].substr(0, 600).c_str()); }
      if (msg.empty()) { r = rt::explore(op, ex, first, chunk, chunks, getenv("T01_F") || (diag && !warm && mc::thorough()), true, ~0ull); if (r.bad) msg = r.what; } if (getenv("T01_SHOW")) fprintf(stderr, "schedules %llu points %llu conflicts %llu hidden %llu\n", (unsigned long long)r.schedules, (unsigned long long)r.points, (unsigned long long)r.conflicts, (unsigned long long)r.hidden); }
    catch (mc::Violation& v) { msg = v.msg; } uint64_t h[3] = {r.schedules, r.points, r.conflicts}; if (write(pfd[1], h, sizeof h) < 0) _exit(96); if (!msg.empty()) if (write(pfd[1], msg.data(), msg.size()) < 0) _exit(96); _exit(0); }
  close(pfd[1]); std::string in; char buf[4096]; ssize_t n; while ((n = read(pfd[0], buf, sizeof buf)) > 0) in.append(buf, n); close(pfd[0]); int st; waitpid(pid, &st, 0);
  mc::step("%s%s beside %s, thread %d interrupted", warm ? "warm " : "", NAME[a], NAME[b], first + 1);
  if (in.size() < 24) mc::fail("set-up of %s beside %s ended with status %x", NAME[a], NAME[b], st);
  uint64_t h[3]; memcpy(h, in.data(), 24); mc::X().checks += h[0]; for (uint64_t k = 0; k < h[0]; ++k) mc::state(mc::fmt("%d %d %d %d %d %llu", a, b, first, warm, chunk, (unsigned long long)k)); mc::outcome(mc::fmt("%d %d %d", a, b, first)); mc::cover(NAME[a]); if (h[2]) mc::cover("memory used by both threads"); 
  if (in.size() > 24) mc::fail("%s in thread 1, %s in thread 2: %s", NAME[a], NAME[b], in.substr(24).c_str());
}
int main(int c, char** v) { return mc::run(c, v); }
