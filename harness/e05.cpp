// E05: a CAS pool hands each CAS to one owner at a time and never loses one
#include "engx.hpp"
#include "uima/caspool.hpp"
#include <functional>
struct H : RecHook {
  int required = 0; std::function<void(const std::string&, AnnotatorContext*)> onProcess;
  bool make() { return true; } void made(int) {} void gone(int) {}
  int call(int, const std::string& n, const char* cb, AnnotatorContext* x, CAS*, const ResultSpecification*, const TypeSystem*) {
    if (!strcmp(cb, "getCasInstancesRequired")) return required;
    if (strcmp(cb, "process")) return 0;
    mc::Callback k; onProcess(n, x); return 0;
  }
  CAS* next(int, const std::string&, AnnotatorContext*) { return nullptr; }
};
static H hook;
void mc_init() { uhInit(); recHook = &hook; }
static ED prim(const std::string& n) { ED d; d.name = n; d.types = typeXML("t.A", "uima.tcas.Annotation", {{"m", "uima.cas.String"}}); return d; }
// the content of a CAS as its holder sees it
static std::string content(CAS* v) {
  CAS* b = v->getBaseCas(); std::string s; UnicodeStringRef t = v->getDocumentText(); s += t.getBuffer() ? toS(t) : "-"; s += mc::fmt("|%zu", v->getAnnotationIndex().getSize());
  int n = 0; FSIterator it = b->getSofaIterator(); for (it.moveToFirst(); it.isValid(); it.moveToNext()) ++n; return s + mc::fmt("|%d", n);
}
static void use(CAS* v, int k) {
  std::string t = mc::fmt("content %d", k); v->setDocumentText(UnicodeStringRef(U(t))); AnnotationFS a = v->createAnnotation(v->getTypeSystem().getType("t.A"), 0, 1 + k % 3); v->getIndexRepository().addFS(a);
  CAS* w = v->getBaseCas()->createView(U("other")); w->setDocumentText(UnicodeStringRef(U("more")));
}
struct Pool { std::function<CAS&()> get; std::function<void(CAS&)> release; size_t n; };
// a history over some pools
static void history(std::vector<Pool> ps, int depth, CAS* foreign) {
  struct Held { CAS* v; int pool; std::string c; }; std::vector<Held> held, gone; int serial = 0; std::map<CAS*, int> known; std::string fc = content(foreign);
  std::vector<size_t> out(ps.size(), 0), seen(ps.size(), 0);
  for (int s = 0; s < depth; ++s) {
    int P = (int)ps.size(); std::vector<std::pair<int, int>> ops; for (int p = 0; p < P; ++p) { ops.push_back({0, p}); ops.push_back({1, p}); for (size_t i = 0; i < held.size(); ++i) if (held[i].pool != p) { ops.push_back({2, p}); break; } }
    for (size_t i = 0; i < held.size(); ++i) { ops.push_back({3, (int)i}); ops.push_back({4, (int)i}); if (held[i].c == "-|0|0") ops.push_back({5, (int)i}); }
    if (!gone.empty()) { bool again = false; for (auto& x : held) again |= x.v == gone.back().v; if (!again) ops.push_back({6, 0}); }
    auto o = ops[mc::choose((int)ops.size())]; int kind = o.first, op = o.second;
    if (kind == 0) {
      mc::step("get from %d", op); CAS* c = nullptr; bool ex = false; try { c = &ps[op].get(); } catch (CASPoolException& e) { ex = true; }
      if (out[op] == ps[op].n) { MC_CHECK(ex, "an exhausted pool of %zu hands out a CAS", ps[op].n); mc::cover("exhausted"); continue; }
      MC_CHECK(!ex, "a pool of %zu with %zu handed out refuses", ps[op].n, out[op]); ++out[op]; MC_CHECK(c != c->getBaseCas(), "the pool hands out a base CAS");
      for (auto& x : held) MC_CHECK(x.v->getBaseCas() != c->getBaseCas(), "the pool hands out a CAS that someone holds"); MC_CHECK(c->getBaseCas() != foreign->getBaseCas(), "the pool hands out a CAS of someone else");
      if (!known.count(c->getBaseCas())) { known[c->getBaseCas()] = op; ++seen[op]; MC_CHECK(seen[op] <= ps[op].n, "a pool of %zu has %zu CASes", ps[op].n, seen[op]); } else { MC_CHECK(known[c->getBaseCas()] == op, "a CAS of another pool"); mc::cover("reused"); }
      MC_CHECK(content(c) == "-|0|0", "the CAS handed out is not empty: %s", content(c).c_str()); held.push_back({c, op, ""}); held.back().c = content(c);
    } else if (kind == 5) { mc::step("use %d", op); use(held[op].v, ++serial); held[op].c = content(held[op].v); MC_CHECK(held[op].c != "-|0|0", "using a CAS has no effect"); mc::cover("used"); }
    else if (kind == 3 || kind == 4) { Held x = held[op]; mc::step("release %d%s", op, kind == 4 ? " by another view" : ""); CAS* v = x.v; if (kind == 4) v = x.c == "-|0|0" ? v->getBaseCas() : v->getBaseCas()->getView(U("other")); ps[x.pool].release(*v); held.erase(held.begin() + op); gone.push_back(x); --out[x.pool]; mc::cover(kind == 4 ? "released by view" : "released"); }
    else if (kind == 1) { mc::step("release a foreign CAS to %d", op); ps[op].release(*foreign); mc::cover("foreign"); }
    else if (kind == 6) { mc::step("release once more"); ps[gone.back().pool].release(*gone.back().v); mc::cover("double"); }
    else { int i = 0; while (held[i].pool == op) ++i; mc::step("release %d to the other pool", i); ps[op].release(*held[i].v); mc::cover("wrong pool"); }
    for (auto& x : held) MC_CHECK(content(x.v) == x.c, "the content of a CAS its holder has not released changes to %s from %s", content(x.v).c_str(), x.c.c_str());
    MC_CHECK(content(foreign) == fc, "the content of a foreign CAS changes to %s", content(foreign).c_str());
    mc::state(mc::fmt("%zu/%zu", out[0], ps[0].n));
  }
  // everything released is available
  for (auto& x : held) { ps[x.pool].release(*x.v); } for (size_t p = 0; p < ps.size(); ++p) { std::set<CAS*> s; for (size_t i = 0; i < ps[p].n; ++i) { CAS* c = nullptr; try { c = &ps[p].get(); } catch (CASPoolException&) { mc::fail("only %zu of %zu CASes are available at the end", i, ps[p].n); } MC_CHECK(s.insert(c->getBaseCas()).second, "a CAS is handed out twice at the end"); MC_CHECK(content(c) == "-|0|0", "not empty at the end"); } bool ex = false; try { ps[p].get(); } catch (CASPoolException&) { ex = true; } MC_CHECK(ex, "one CAS too many at the end"); for (CAS* c : s) ps[p].release(*c); }
  mc::outcome(mc::fmt("%zu %zu %zu %d", held.size(), gone.size(), seen[0], serial));
}
static void direct() {
  int n = mc::choose(4); mc::step("pool of %d", n); Eng g(prim("p")); CASPool pool(*g.desc, n); CASPool fp(*g.desc, 1); CAS* f = &fp.getCAS(); use(f, 9);
  history({{[&]() -> CAS& { return pool.getCAS(); }, [&](CAS& c) { pool.releaseCAS(c); }, (size_t)n}}, n == 0 ? 2 : n == 3 && !mc::thorough() ? 5 : mc::thorough() ? 7 : 6, f); mc::cover("pool");
}
static void context() {
  int n = mc::choose(3), two = mc::choose(2); hook.required = n; ED root; if (two) { root = prim("root"); root.delegates = {{"a", prim("a")}, {"b", prim("b")}}; root.flow = {"a", "b"}; } else root = prim("a");
  mc::step("annotators requiring %d", n); Eng g(root); g.create(); MC_CHECK(g.e, "the engine is refused"); CAS* c = g.e->newCAS(); std::unique_ptr<CAS> own(c->getBaseCas()); c->setDocumentText(UnicodeStringRef(U("t")));
  Eng d(prim("f")); CASPool fp(*d.desc, 1); CAS* f = &fp.getCAS(); use(f, 9); std::vector<AnnotatorContext*> xs;
  auto play = [&](int depth) { std::vector<Pool> ps; for (AnnotatorContext* x : xs) ps.push_back({[x]() -> CAS& { return x->getEmptyCAS(); }, [x](CAS& v) { x->releaseCAS(v); }, (size_t)n}); if (n == 0) { for (auto& p : ps) { bool ex = false; try { p.get(); } catch (CASPoolException&) { ex = true; } MC_CHECK(ex, "an annotator that requires no CAS gets one"); p.release(*f); } mc::cover("none required"); } else history(ps, depth, f); };
  hook.onProcess = [&](const std::string& nm, AnnotatorContext* x) { xs.push_back(x); if (nm == (two ? "b" : "a")) play(mc::thorough() ? 6 : 4); };
  MC_CHECK(g.e->process(*c) == UIMA_ERR_NONE, "processing fails"); mc::poll();
  // a second document finds the pool as the first left it
  xs.clear(); if (mc::flip()) { MC_CHECK(g.e->reconfigure() == UIMA_ERR_NONE, "reconfigure fails"); mc::cover("reconfigured"); } hook.onProcess = [&](const std::string& nm, AnnotatorContext* x) { xs.push_back(x); if (nm == (two ? "b" : "a")) play(1); };
  MC_CHECK(g.e->process(*c) == UIMA_ERR_NONE, "processing fails"); mc::poll(); own.reset(); g.drop(); mc::cover(two ? "two contexts" : "context");
}
void mc_body() { hook.required = 0; if (mc::choose(2) == 0) { mc::step("== pool"); direct(); } else { mc::step("== context"); context(); } }
int main(int c, char** v) { return mc::run(c, v); }
