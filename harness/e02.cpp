// E02: aggregates run their delegates exactly as the flow prescribes
#include "engx.hpp"
#include <functional>
static void boom(int id) { throw Exception(ErrorMessage(UIMA_MSG_ID_LOG_ERROR, "planned"), (TyErrorId)id, ErrorInfo::recoverable); }
struct H : RecHook {
  std::vector<std::string> lg; std::function<int(const std::string&, AnnotatorContext*, CAS*)> onProcess; std::function<int(const std::string&, const std::string&)> onOther;
  bool make() { return true; } void made(int) {} void gone(int) {}
  int call(int, const std::string& n, const char* cb, AnnotatorContext* x, CAS* c, const ResultSpecification*, const TypeSystem*) {
    mc::Callback k; std::string b = cb; mc::note("   %s %s", n.c_str(), cb); if (b == "getCasInstancesRequired") return 0;
    lg.push_back(n + ":" + b);
    if (b == "process") return onProcess ? onProcess(n, x, c) : 0;
    return onOther ? onOther(n, b) : 0;
  }
  CAS* next(int, const std::string&, AnnotatorContext*) { return nullptr; }
};
static H hook;
void mc_init() { uhInit(); recHook = &hook; }
static std::string join(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += x + " "; return s; }
static ED prim(const std::string& n) { ED d; d.name = n; d.types = typeXML("t.A", "uima.tcas.Annotation", {{"m", "uima.cas.String"}}); return d; }
static ED agg(const std::string& n, std::vector<std::pair<std::string, ED>> del, std::vector<std::string> flow) { ED d = prim(n); d.delegates = del; d.flow = flow; return d; }
// the primitives of an engine in order
static void flat(const ED& d, std::vector<std::string>& v) { if (d.delegates.empty()) { v.push_back(d.name); return; } for (auto& f : d.flow) for (auto& p : d.delegates) if (p.first == f) flat(p.second, v); }
static std::vector<std::string> marks(CAS* c) { std::vector<std::string> v; ANIndex ix = c->getAnnotationIndex(c->getTypeSystem().getType("t.A")); ANIterator it = ix.iterator(); Feature f = c->getTypeSystem().getType("t.A").getFeatureByBaseName("m"); for (it.moveToFirst(); it.isValid(); it.moveToNext()) v.push_back(toS(it.get().getStringValue(f))); return v; }
static void mark(CAS* c, const std::string& n) { int k = (int)marks(c).size(); AnnotationFS a = c->createAnnotation(c->getTypeSystem().getType("t.A"), k, k); a.setStringValue(c->getTypeSystem().getType("t.A").getFeatureByBaseName("m"), U(n)); c->getIndexRepository().addFS(a); }
struct Out { int kind = 0, id = 0; };   // 0 ok 1 code 2 exception
template<class F> static Out run(F f) { Out o; try { o.id = f(); o.kind = o.id ? 1 : 0; } catch (Exception& e) { o.kind = 2; o.id = e.getErrorInfo().getErrorId(); } return o; }
// every order and subset, two nesting levels, one failing delegate
static void flows() {
  static std::vector<std::vector<int>> fl; if (fl.empty()) for (int a = 0; a < 3; ++a) { fl.push_back({a}); for (int b = 0; b < 3; ++b) if (b != a) { fl.push_back({a, b}); for (int c = 0; c < 3; ++c) if (c != a && c != b) fl.push_back({a, b, c}); } }
  auto& f = mc::pick(fl); std::vector<std::pair<std::string, ED>> del; std::vector<std::string> flow; static const char* keys[] = {"k0", "k1", "k2"};
  bool rev = mc::thorough() ? mc::flip() : (f[0] + f.size()) % 2;
  for (int j = 0; j < 3; ++j) {
    int i = rev ? 2 - j : j; bool used = std::find(f.begin(), f.end(), i) != f.end(); int kind = used ? mc::choose(4) : 0; std::string n = mc::fmt("d%d", i); ED d;
    if (kind == 0) d = prim(n);
    else if (kind < 3) { d = agg(n, {{"a", prim(n + "a")}, {"b", prim(n + "b")}}, kind == 1 ? std::vector<std::string>{"b", "a"} : std::vector<std::string>{"a"}); mc::cover("nested"); }
    else { d = agg(n, {{"k0", prim(n + "p")}, {"k1", agg(n + "q", {{"k0", prim(n + "r")}, {"k1", prim(n + "s")}}, {"k1", "k0"})}}, {"k1", "k0"}); mc::cover("nested twice"); }
    del.push_back({keys[i], d});
  }
  for (int i : f) flow.push_back(keys[i]);
  ED root = agg("root", del, flow); std::vector<std::string> order; flat(root, order);
  mc::step("flow %s", join(order).c_str());
  Eng g(root); hook.lg.clear(); hook.onProcess = nullptr; hook.onOther = nullptr; g.create(); MC_CHECK(g.e, "the aggregate is refused: %ld", (long)g.err.getErrorId());
  std::vector<std::string> w; for (auto& n : order) { w.push_back(n + ":initialize"); w.push_back(n + ":typeSystemInit"); }
  MC_CHECK(hook.lg == w, "creation calls %s instead of %s", join(hook.lg).c_str(), join(w).c_str());
  CAS* c = g.e->newCAS(); std::unique_ptr<CAS> own(c->getBaseCas()); c->setDocumentText(UnicodeStringRef(U("0123456789abcdefghij")));
  int op = mc::choose(5); int fk = mc::choose(3), fp = fk ? mc::choose((int)order.size()) : -1; static const char* ops[] = {"process", "processAndOutputNewCASes", "batchProcessComplete", "collectionProcessComplete", "reconfigure"};
  mc::step("%s, %s", ops[op], fk == 0 ? "no failure" : mc::fmt("%s fails by %s", order[fp].c_str(), fk == 1 ? "code" : "exception").c_str()); mc::cover(mc::fmt("%s %d", ops[op], fk).c_str());
  auto fault = [&](const std::string& n) { if (fp >= 0 && order[fp] == n) { if (fk == 2) boom(4321); return 4320; } return 0; };
  std::vector<std::string> seen;
  hook.onProcess = [&](const std::string& n, AnnotatorContext*, CAS* v) { std::vector<std::string> m = marks(v); MC_CHECK(m == seen, "%s sees the results of '%s' instead of '%s'", n.c_str(), join(m).c_str(), join(seen).c_str()); mark(v, n); seen.push_back(n); return fault(n); };
  hook.onOther = [&](const std::string& n, const std::string&) { return fault(n); };
  hook.lg.clear(); w.clear(); Out o, e;
  for (size_t i = 0; i < order.size(); ++i) { w.push_back(order[i] + ":" + (op <= 1 ? "process" : ops[op])); if (op <= 1 && fk == 2 && (int)i == fp) break; }
  if (fk) { e.kind = fk; e.id = fk == 2 ? 4321 : 4320; if (op > 1) e.kind = 1; if (op == 1) { e.kind = 2; if (fk == 1) e.id = UIMA_ERR_PROCESS_OUTPUT_CAS; } }
  switch (op) {
    case 0: o = run([&] { return g.e->process(*c); }); break;
    case 1: o = run([&] { CASIterator it = g.e->processAndOutputNewCASes(*c); MC_CHECK(!it.hasNext(), "an aggregate without CAS multipliers delivers a CAS"); return 0; }); break;
    case 2: o = run([&] { return g.e->batchProcessComplete(); }); break;
    case 3: o = run([&] { return g.e->collectionProcessComplete(); }); break;
    case 4: o = run([&] { return g.e->reconfigure(); }); break;
  }
  MC_CHECK(hook.lg == w, "%s calls %s instead of %s", ops[op], join(hook.lg).c_str(), join(w).c_str());
  MC_CHECK(o.kind == e.kind && o.id == e.id, "%s ends with kind %d, error %d instead of kind %d, error %d", ops[op], o.kind, o.id, e.kind, e.id);
  // the engine is usable afterwards
  fp = -1; hook.lg.clear(); w.clear(); for (auto& n : order) w.push_back(n + ":process"); o = run([&] { return g.e->process(*c); }); MC_CHECK(hook.lg == w && o.kind == 0, "afterwards process calls %s instead of %s", join(hook.lg).c_str(), join(w).c_str());
  MC_CHECK(marks(c) == seen, "the CAS holds '%s' instead of '%s'", join(marks(c)).c_str(), join(seen).c_str());
  own.reset(); hook.lg.clear(); w.clear(); for (size_t i = order.size(); i-- > 0;) w.push_back(order[i] + ":destroy"); g.drop(); MC_CHECK(hook.lg == w, "deletion calls %s instead of %s", join(hook.lg).c_str(), join(w).c_str());
  mc::outcome(join(order) + mc::fmt("%d%d%d", op, fk, fp)); mc::cover("flow");
}
// ---- views
typedef std::map<std::string, std::string> M;
static std::string mapXML(const std::string& key, const M& m) { std::string s; for (auto& p : m) s += "<sofaMapping><componentKey>" + key + "</componentKey>" + (p.first == "_InitialView" ? "" : "<componentSofaName>" + p.first + "</componentSofaName>") + "<aggregateSofaName>" + p.second + "</aggregateSofaName></sofaMapping>"; return s; }
static std::string at(const M& m, const std::string& n) { auto i = m.find(n); return i == m.end() ? n : i->second; }
static std::string showM(const M& m) { std::string s; for (auto& p : m) s += p.first + "->" + p.second + " "; return s; }
static M chooseM(const std::vector<std::string>& in, const std::vector<std::string>& init, const std::vector<std::string>& out) { M m; auto p = [&](const char* n, const std::vector<std::string>& v) { int k = mc::choose((int)v.size() + 1); if (k) m[n] = v[k - 1]; }; p("in", in); p("_InitialView", init); p("out", out); return m; }
// root { x { c, d }, e }: every mapping at both levels
static void views() {
  bool th = mc::thorough();
  static const std::vector<std::string> pre = {"_InitialView", "in", "A"};
  M mx = chooseM({"A", "_InitialView"}, {"A"}, {"in", "O"}), mc_ = chooseM(th ? std::vector<std::string>{"A", "in", "_InitialView"} : std::vector<std::string>{"A", "_InitialView"}, {"in"}, {"out", "o2"}), me; if (mc::flip()) { me["in"] = "O"; me["out"] = "in"; me["_InitialView"] = "A"; }
  bool awareC = mc::flip(), awareX = mc::flip(), awareE = mc::flip(); bool again = mc::choose(2);
  ED c = prim("c"), d = prim("d"), e = prim("e"); if (awareC) c.caps[0].inSofas = {"in"}, c.caps[0].outSofas = {"out"}; if (awareE) e.caps[0].inSofas = {"in"};
  ED x = agg("x", {{"kc", c}, {"kd", d}}, {"kc", "kd"}); if (awareX) x.caps[0].inSofas = {"in"}; x.mappings = mapXML("kc", mc_);
  ED root = agg("root", {{"kx", x}, {"ke", e}}, {"kx", "ke"}); root.caps[0].inSofas = {"in"}; root.mappings = mapXML("kx", mx) + mapXML("ke", me);
  mc::step("x: %s| c: %s| e: %s| aware c%d x%d e%d%s", showM(mx).c_str(), showM(mc_).c_str(), showM(me).c_str(), awareC, awareX, awareE, again ? ", second engine of the description" : "");
  Eng g(root); hook.lg.clear(); hook.onProcess = nullptr; hook.onOther = nullptr; g.create(); MC_CHECK(g.e, "the aggregate is refused: %ld", (long)g.err.getErrorId()); if (again) { g.drop(); g.create(); MC_CHECK(g.e, "the second aggregate is refused"); mc::cover("second engine"); }
  CAS* v0 = g.e->newCAS(); std::unique_ptr<CAS> own(v0->getBaseCas()); CAS* b = own.get(); v0->setDocumentText(UnicodeStringRef(U("text of _InitialView"))); for (size_t i = 1; i < pre.size(); ++i) { CAS* v = b->createView(U(pre[i])); v->setDocumentText(UnicodeStringRef(U("text of " + pre[i]))); }
  std::map<std::string, std::vector<std::string>> have; for (auto& p : pre) have[p] = {}; bool dead = false;
  auto abs = [&](const std::string& who, const std::string& n) { if (who == "c") return at(mx, at(mc_, n)); if (who == "d") return at(mx, n); return at(me, n); };
  auto view = [&](const std::string& who, CAS* v, const std::string& a, const char* what) {
    MC_CHECK(have.count(a), "%s gets a view for %s that does not exist ('%s')", who.c_str(), what, a.c_str());
    std::string t = toS(v->getDocumentText()); MC_CHECK(t == "text of " + a, "%s gets for %s the view with '%s' instead of the one named %s", who.c_str(), what, t.c_str(), a.c_str());
    MC_CHECK(marks(v) == have[a], "%s sees in %s '%s' instead of '%s'", who.c_str(), a.c_str(), join(marks(v)).c_str(), join(have[a]).c_str());
    mark(v, who); have[a].push_back(who);
  };
  hook.onProcess = [&](const std::string& n, AnnotatorContext* x, CAS* v) -> int {
    bool aware = n == "c" ? awareC : n == "e" ? awareE : false;
    if (!aware) { view(n, v, abs(n, "_InitialView"), "the default view"); mc::cover("default view"); return 0; }
    MC_CHECK(toS(x->mapToSofaID(U("in")).getSofaId()) == abs(n, "in"), "%s's context maps 'in' to '%s' instead of '%s'", n.c_str(), toS(x->mapToSofaID(U("in")).getSofaId()).c_str(), abs(n, "in").c_str());
    CAS* w = nullptr; try { w = v->getView(U("in")); } catch (Exception&) {}
    MC_CHECK((w != nullptr) == (have.count(abs(n, "in")) > 0), "%s: getView('in') %s although view '%s' %s", n.c_str(), w ? "succeeds" : "fails", abs(n, "in").c_str(), w ? "does not exist" : "exists");
    if (w) { view(n, w, abs(n, "in"), "'in'"); mc::cover("named view"); }
    std::string o = abs(n, "out"); w = nullptr; try { w = v->createView(U("out")); } catch (Exception&) {}
    MC_CHECK((w == nullptr) == (have.count(o) > 0), "%s: createView('out') %s although view '%s' %s", n.c_str(), w ? "succeeds" : "fails", o.c_str(), w ? "exists" : "does not exist");
    if (w) { have[o] = {}; w->setDocumentText(UnicodeStringRef(U("text of " + o))); view(n, w, o, "'out'"); mc::cover("created view"); } else mc::cover("existing view");
    return 0;
  };
  // an engine that declares no sofas is given its default view, which must exist
  auto missing = [&](const std::string& a) { return !have.count(a); };
  Out o = run([&] { return g.e->process(*v0); });
  (void)missing; (void)dead;
  // with these mappings every default view exists unless it is mapped to a view that is not there
  bool noX = !awareX && !have.count(at(mx, "_InitialView"));
  std::vector<std::string> w; if (!noX) { w.push_back("c:process"); w.push_back("d:process"); } w.push_back("e:process");
  std::vector<std::string> l; for (auto& s : hook.lg) if (s.find(":process") != std::string::npos) l.push_back(s);
  MC_CHECK(o.kind == 0 && l == w, "process ends with kind %d, error %d and calls %s instead of %s", o.kind, o.id, join(l).c_str(), join(w).c_str());
  // the application's own names are not mapped
  for (auto& h : have) { CAS* v = nullptr; try { v = b->getView(U(h.first)); } catch (Exception&) {} MC_CHECK(v, "after processing the application does not find the view '%s'", h.first.c_str()); std::string t = toS(v->getDocumentText()); MC_CHECK(t == "text of " + h.first, "after processing the application gets for '%s' the view with '%s'", h.first.c_str(), t.c_str()); MC_CHECK(marks(v) == h.second, "after processing '%s' holds '%s' instead of '%s'", h.first.c_str(), join(marks(v)).c_str(), join(h.second).c_str()); }
  std::string s; for (auto& h : have) s += h.first + ":" + join(h.second) + ";"; mc::outcome(s); mc::state(s); own.reset(); mc::cover("views");
}
// a delegate whose default view does not exist is not called with another one; the failure is reported
static void missingView() {
  int where = mc::choose(3); bool aware = mc::flip(); ED a = prim("a"), b = prim("b"), d = prim("d"); ED n = agg("n", {{"ka", a}, {"kb", b}}, {"ka", "kb"}); if (aware) n.caps[0].inSofas = {"z"};
  ED root = agg("root", {{"kn", n}, {"kd", d}}, {"kn", "kd"}); if (where == 0) n.mappings = mapXML("kb", {{"_InitialView", "gone"}}); if (where == 1) root.mappings = mapXML("kd", {{"_InitialView", "gone"}}); if (where == 2) root.mappings = mapXML("kn", {{"_InitialView", "gone"}}); root.delegates[0].second = n;
  mc::step("missing default view of %s", where == 0 ? "a nested delegate" : where == 1 ? "a delegate" : "an aggregate"); Eng g(root); hook.lg.clear(); hook.onProcess = nullptr; hook.onOther = nullptr; g.create(); MC_CHECK(g.e, "refused");
  CAS* v0 = g.e->newCAS(); std::unique_ptr<CAS> own(v0->getBaseCas()); v0->setDocumentText(UnicodeStringRef(U("t"))); hook.lg.clear(); Out o = run([&] { return g.e->process(*v0); });
  MC_CHECK(o.kind, "a missing view is not reported"); for (auto& s : hook.lg) { bool bad = (where == 0 && s == "b:process") || (where == 1 && s == "d:process") || (where == 2 && (s == "a:process" || s == "b:process")); MC_CHECK(!bad, "%s although its view does not exist", s.c_str()); }
  mc::cover("missing view"); mc::outcome(join(hook.lg));
}
void mc_body() { switch (mc::choose(3)) { case 0: flows(); break; case 1: views(); break; default: missingView(); } }
int main(int c, char** v) { return mc::run(c, v); }
