// E01: the engine life cycle obeys its protocol
#include "engx.hpp"
#include "uima/internal_engine_base.hpp"
#include "uima/casiterator.hpp"
#include <stdexcept>
enum { OK, CODE, UEXC, SEXC };
static const int BASE = 4700;
struct Ev { int serial; std::string name, cb; int out; int id; };
static std::vector<Ev> lg; static size_t pos; static int budget, faults; static bool deleting; static CAS* nextCas; static std::string docText; static const TypeSystem* wantTS; static bool hn;
static void boom(int id) { throw Exception(ErrorMessage(UIMA_MSG_ID_LOG_ERROR, "planned"), (TyErrorId)id, ErrorInfo::recoverable); }
struct H : RecHook {
  int pick(int kinds) { if (budget <= 0) return 0; int k = mc::choose(kinds); if (k) { --budget; ++faults; } return k; }
  bool make() { mc::Callback cbk; int k = pick(2); lg.push_back({0, "", "make", k, 0}); return k == 0; }
  void made(int s) { lg.push_back({s, "", "made", 0, 0}); }
  void gone(int s) { lg.push_back({s, "", "gone", 0, 0}); }
  int call(int s, const std::string& n, const char* cb, AnnotatorContext*, CAS* c, const ResultSpecification*, const TypeSystem* ts) {
    mc::Callback cbk; std::string b = cb; int k, id = BASE + (int)lg.size();
    if (b == "hasNext") { k = pick(2) ? UEXC : OK; }
    else if (b == "getCasInstancesRequired") k = pick(2) ? UEXC : OK;
    else if (b == "process") k = pick(4);
    else k = pick(3);
    if (c) { DocumentFS d = c->getDocumentAnnotation(); MC_CHECK(d.isValid() && toS(c->getDocumentText()) == docText, "process is given a CAS with document '%s' instead of '%s'", toS(c->getDocumentText()).c_str(), docText.c_str()); }
    if (ts) MC_CHECK(ts->getType("t.A").isValid(), "typeSystemInit is given a type system without the declared type");
    mc::note("   %s %s -> %s", n.c_str(), cb, k == OK ? "ok" : k == CODE ? "error code" : k == UEXC ? "exception" : "std::exception");
    lg.push_back({s, n, b, k, id});
    if (k == UEXC) boom(id);
    if (k == SEXC) throw std::runtime_error("planned");
    if (b == "hasNext") return hn = mc::flip();
    return k == CODE ? id : 0;
  }
  CAS* next(int s, const std::string& n, AnnotatorContext*) { mc::Callback cbk; int k = pick(2) ? UEXC : OK, id = BASE + (int)lg.size(); lg.push_back({s, n, "next", k, id}); if (k) boom(id); return nextCas; }
};
struct Node { std::string name; std::vector<Node> kids; int serial = 0; int state = 0; bool leaked = false; };   // state 0 none 1 ready 2 destroyed
struct Res { int kind = OK; int id = 0; };
static std::string made() { std::string s; for (auto& e : lg) s += mc::fmt("%s/%s/%d/%d ", e.name.c_str(), e.cb.c_str(), e.serial, e.out); return s; }
static Ev expect(Node& n, const char* cb) {
  MC_CHECK(pos < lg.size(), "callback %s of %s is not made (made: %s)", cb, n.name.c_str(), made().c_str());
  Ev& e = lg[pos++];
  MC_CHECK(e.cb == cb && (e.cb == "make" || e.cb == "made" || e.serial == n.serial), "callback %s of %s (instance %d) is expected, but %s of '%s' (instance %d) is made", cb, n.name.c_str(), n.serial, e.cb.c_str(), e.name.c_str(), e.serial);
  MC_CHECK(e.name.empty() || e.name == n.name, "callback %s of %s reaches %s", cb, n.name.c_str(), e.name.c_str());
  return e;
}
static Res code(const Ev& e) { Res r; if (e.out) { r.kind = CODE; r.id = e.id; } return r; }
static Res destroyN(Node& n) {
  Res r; if (n.state != 1) return r; n.state = 2;
  if (n.kids.empty()) { Ev e = expect(n, "destroy"); r = code(e); if (e.out == UEXC) n.leaked = true; else expect(n, "gone"); return r; }
  for (size_t i = n.kids.size(); i-- > 0;) { Res k = destroyN(n.kids[i]); if (k.kind) r = k; }
  return r;
}
static Res createN(Node& n) {
  Res r; n.state = 1;
  if (n.kids.empty()) {
    Ev m = expect(n, "make"); if (m.out) { n.state = 2; r.kind = CODE; r.id = UIMA_ERR_ANNOTATOR_COULD_NOT_CREATE; return r; }
    MC_CHECK(pos < lg.size() && lg[pos].cb == "made", "no instance is made"); n.serial = lg[pos++].serial;
    r = code(expect(n, "initialize")); if (!r.kind) r = code(expect(n, "typeSystemInit")); if (!r.kind) r = code(expect(n, "getCasInstancesRequired"));
    if (r.kind) destroyN(n);
    return r;
  }
  for (size_t i = 0; i < n.kids.size(); ++i) { r = createN(n.kids[i]); if (r.kind) { while (i-- > 0) destroyN(n.kids[i]); n.state = 2; return r; } }
  return r;
}
static Res processN(Node& n) {
  Res r; if (n.kids.empty()) { Ev e = expect(n, "process"); r.kind = e.out; r.id = e.out ? e.id : 0; return r; }
  for (auto& k : n.kids) { Res q = processN(k); if (q.kind) r = q; if (q.kind >= UEXC) return r; }
  return r;
}
static Res allN(Node& n, const char* cb) {
  Res r; if (n.kids.empty()) return code(expect(n, cb));
  for (auto& k : n.kids) { Res q = allN(k, cb); if (q.kind) r = q; }
  return r;
}
static Res reinitN(Node& n) {
  Res r; if (n.kids.empty()) r = code(expect(n, "typeSystemInit")); else for (auto& k : n.kids) { Res q = reinitN(k); if (q.kind) r = q; }
  if (r.kind) destroyN(n);
  return r;
}
static void leaves(Node& n, std::vector<Node*>& v) { if (n.kids.empty()) v.push_back(&n); for (auto& k : n.kids) leaves(k, v); }
static ED edOf(const Node& n) { ED d; d.name = n.name; d.types = typeXML("t.A", "uima.tcas.Annotation"); for (auto& k : n.kids) { d.delegates.push_back({"k" + k.name, edOf(k)}); d.flow.push_back("k" + k.name); } return d; }
// runs a call; kind of outcome
template<class F> static Res run(F f) {
  Res r;
  try { r.id = f(); if (r.id) r.kind = CODE; }
  catch (Exception& e) { r.kind = UEXC; r.id = e.getErrorInfo().getErrorId(); }
  catch (std::exception&) { r.kind = SEXC; }
  return r;
}
static const char* kn[] = {"success", "an error code", "an exception", "a std::exception"};
static void same(const Res& g, const Res& w, const char* op) {
  MC_CHECK(g.kind == w.kind && (w.kind == SEXC || g.id == w.id), "%s ends with %s %d instead of %s %d", op, kn[g.kind], g.id, kn[w.kind], w.id);
  MC_CHECK(pos == lg.size(), "%s makes the additional callback %s of '%s' (instance %d)", op, lg[pos].cb.c_str(), lg[pos].name.c_str(), lg[pos].serial);
}
static H hook;
void mc_init() { uhInit(); recHook = &hook; }
static void finish(Eng& g, Node& root) {
  mc::step("delete the engine"); Res r; bool ok = true; try { g.drop(); } catch (...) { ok = false; } MC_CHECK(ok, "deleting the engine throws"); destroyN(root);
  MC_CHECK(pos == lg.size(), "deleting the engine makes the additional callback %s of '%s'", lg[pos].cb.c_str(), lg[pos].name.c_str()); (void)r;
}
static void tally(Node& root) {
  std::vector<Node*> v; leaves(root, v); std::map<int, int> made, gone; for (auto& e : lg) { if (e.cb == "made") made[e.serial]++; if (e.cb == "gone") gone[e.serial]++; }
  for (auto& m : made) { bool leaked = false; for (auto* n : v) if (n->serial == m.first) leaked = n->leaked; MC_CHECK(gone[m.first] == (leaked ? 0 : 1), "annotator instance %d is deleted %d times", m.first, gone[m.first]); }
}
void mc_body() {
  static const char* shapes[] = {"primitive", "aggregate of two", "aggregate of an aggregate and a primitive"};
  int sh = mc::choose(3); Node root; root.name = "r"; auto N = [](const char* n) { Node x; x.name = n; return x; };
  if (sh == 1) root.kids = {N("a"), N("b")};
  if (sh == 2) { Node x = N("x"); x.kids = {N("a"), N("b")}; root.kids = {x, N("c")}; }
  mc::step("%s", shapes[sh]); mc::cover(shapes[sh]);
  bool creationFaults = mc::flip();
  lg.clear(); pos = 0; faults = 0; budget = creationFaults ? 2 : 0; docText = "some text";
  Eng g(edOf(root)); mc::step("create the engine"); g.create(); if (!g.e) mc::note("   creation fails: %ld %s", (long)g.err.getErrorId(), g.err.getMessage().asString().c_str()); Res want = createN(root);
  MC_CHECK(pos == lg.size(), "creating the engine makes the additional callback %s of '%s'", lg[pos].cb.c_str(), lg[pos].name.c_str());
  if (want.kind) { MC_CHECK(!g.e, "an engine is made although a callback failed"); MC_CHECK(g.err.getErrorId() == want.id, "creation fails with error %ld instead of %d", (long)g.err.getErrorId(), want.id); mc::cover("creation fails"); tally(root); mc::outcome("no engine"); return; }
  MC_CHECK(g.e, "no engine is made: error %ld", (long)g.err.getErrorId()); mc::cover("creation succeeds");
  if (creationFaults) { if (!faults) mc::cover("no fault"); budget = 1; finish(g, root); tally(root); return; }
  CAS* cas = nullptr; std::unique_ptr<CAS> own; std::unique_ptr<CASIterator> it; int depth = mc::thorough() ? 4 : 3; budget = mc::thorough() ? 2 : 1;
  internal::EngineBase& eb = internal::EngineBase::promoteEngine(*g.e); std::string st;
  static const char* on[] = {"process", "process with results", "processAndOutputNewCASes", "iterator", "batchProcessComplete", "collectionProcessComplete", "reconfigure", "reinitTypeSystem", "initialize", "destroy"};
  auto needCas = [&]() { if (!cas) { cas = g.e->newCAS(); own.reset(cas->getBaseCas()); cas->setDocumentText(UnicodeStringRef(U(docText))); nextCas = cas; } };
  for (int i = 0; i < depth; ++i) {
    int op = mc::choose(10); bool ready = root.state == 1; const char* nm = on[op]; Res got, w; w.kind = CODE; w.id = UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE; int f0 = faults;
    if (op <= 2) needCas();
    mc::step("%s%s", nm, ready ? "" : " (after destroy)");
    switch (op) {
      case 0: got = run([&] { return g.e->process(*cas); }); if (ready) w = processN(root); break;
      case 1: { ResultSpecification rs; rs.add(cas->getTypeSystem().getType("t.A")); got = run([&] { return g.e->process(*cas, rs); }); if (ready) w = processN(root); break; }
      case 2: { std::unique_ptr<CASIterator> n; got = run([&] { n.reset(new CASIterator(g.e->processAndOutputNewCASes(*cas))); return 0; });
        if (ready) { w = processN(root); if (w.kind == CODE) { w.kind = UEXC; w.id = UIMA_ERR_PROCESS_OUTPUT_CAS; } } else w.kind = UEXC;
        if (n) it = std::move(n); break; }
      case 3: {
        if (!it) { mc::cover("no iterator yet"); w = Res(); break; }
        int which = mc::choose(2); mc::note("   %s", which ? "next" : "hasNext"); bool h = false; CAS* c = nullptr;
        got = run([&] { if (which) c = &it->next(); else h = it->hasNext(); return 0; });
        if (!ready) { if (!which && got.kind == OK) { MC_CHECK(!h, "the iterator of a destroyed engine has a next CAS"); w = got; } else { MC_CHECK(got.kind == UEXC, "next of an iterator of a destroyed engine is not refused"); w = got; } mc::cover("iterator after destroy"); break; }
        w = Res();
        if (root.kids.empty()) { Ev e = expect(root, which ? "next" : "hasNext"); w = code(e); if (w.kind) w.kind = UEXC; else if (which) MC_CHECK(c == nextCas, "next delivers another CAS"); else MC_CHECK(h == hn, "hasNext answers %d instead of %d", h, hn); }
        else { if (which) { MC_CHECK(got.kind == UEXC, "next of an engine without outputs is not refused"); w = got; } else MC_CHECK(!h, "an engine without outputs has a next CAS"); }
        break; }
      case 4: got = run([&] { return g.e->batchProcessComplete(); }); if (ready) w = allN(root, "batchProcessComplete"); break;
      case 5: got = run([&] { return g.e->collectionProcessComplete(); }); if (ready) w = allN(root, "collectionProcessComplete"); break;
      case 6: got = run([&] { return g.e->reconfigure(); }); if (ready) w = allN(root, "reconfigure"); break;
      case 7: got = run([&] { return eb.reinitTypeSystem(); }); if (ready) w = reinitN(root); break;
      case 8: got = run([&] { return g.e->initialize(*g.desc); }); break;
      case 9: got = run([&] { return g.e->destroy(); }); if (ready) w = destroyN(root); break;
    }
    same(got, w, nm); if (faults > f0) mc::cover(mc::fmt("fault in %s", nm).c_str()); mc::cover(mc::fmt("%s %s", nm, ready ? "ready" : "destroyed").c_str());
    MC_CHECK(eb.isInitialized() == (root.state == 1), "isInitialized() is %d after %s", eb.isInitialized(), nm);
    st += mc::fmt("%d%d%d.", op, got.kind, root.state); mc::state(st);
  }
  it.reset(); own.reset(); finish(g, root); tally(root); mc::outcome(st);
}
int main(int c, char** v) { return mc::run(c, v); }
