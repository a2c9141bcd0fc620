// C06: filters evaluate their formula (three valued: true, false, refused)
#include "uh.hpp"
#include "uima/fsfilterbuilder.hpp"
#include <cmath>
static TypeSystem* ts; static Type tA, tB, tC, tTop; static Feature fi, ff, fs_, fr, fd, fbi, fe;
void mc_init() {
  uhInit(); ts = makeTS(tsXML(enumXML("m.E", {"ab", ""}) + typeXML("m.A","uima.cas.TOP",{{"i","uima.cas.Integer"},{"f","uima.cas.Float"},{"s","uima.cas.String"},{"r","m.A"},{"d","uima.cas.Double"},{"e","m.E"}}) + typeXML("m.B","m.A",{{"bi","uima.cas.Integer"}}) + typeXML("m.C","uima.cas.TOP")));
  tA = ts->getType("m.A"); tB = ts->getType("m.B"); tC = ts->getType("m.C"); tTop = ts->getTopType();
  fi = tA.getFeatureByBaseName("i"); ff = tA.getFeatureByBaseName("f"); fs_ = tA.getFeatureByBaseName("s"); fr = tA.getFeatureByBaseName("r"); fd = tA.getFeatureByBaseName("d"); fe = tA.getFeatureByBaseName("e"); fbi = tB.getFeatureByBaseName("bi");
}
// the model of a structure
struct Obj { FeatureStructure fs; int type = 0; /*A B C*/ int i = 0; float f = 0; icu::UnicodeString s; int bi = 0; Obj* r = nullptr; };
enum V { F = 0, T = 1, R = 2 };   // R: refused with an exception
typedef FSFilterBuilder FB;
// a formula
struct Fm { int k; /*0 type 1 int 2 float 3 string 4 match 5 and 6 or 7 not*/ Type t; int tn; bool sub; std::vector<Feature> path; FB::EnComparisonOperator op; int iv; float fv; icu::UnicodeString sv; std::shared_ptr<Fm> a, b; std::string txt; };
typedef std::shared_ptr<Fm> P;
static std::string pn(const std::vector<Feature>& p) { std::string s; for (auto& f : p) s += "/" + toS(f.getName()); return s; }
static const char* opn[] = {"==", ">", "<"};
static P ty(Type t, int n, bool sub) { P p(new Fm); p->k = 0; p->t = t; p->tn = n; p->sub = sub; p->txt = mc::fmt("type%s%d", sub ? "<=" : "==", n); return p; }
static P in(std::vector<Feature> path, int op, int v) { P p(new Fm); p->k = 1; p->path = path; p->op = (FB::EnComparisonOperator)op; p->iv = v; p->txt = pn(path) + opn[op] + std::to_string(v); return p; }
static P fl(std::vector<Feature> path, int op, float v) { P p(new Fm); p->k = 2; p->path = path; p->op = (FB::EnComparisonOperator)op; p->fv = v; p->txt = pn(path) + opn[op] + std::to_string(v); return p; }
static P st(std::vector<Feature> path, icu::UnicodeString v) { P p(new Fm); p->k = 3; p->path = path; p->sv = v; p->txt = pn(path) + "=='" + toS(v) + "'"; return p; }
static P ma(std::vector<Feature> path, P a) { P p(new Fm); p->k = 4; p->path = path; p->a = a; p->txt = pn(path) + "(" + a->txt + ")"; return p; }
static P bi(int k, P a, P b) { P p(new Fm); p->k = k; p->a = a; p->b = b; p->txt = k == 7 ? "not(" + a->txt + ")" : "(" + a->txt + (k == 5 ? " and " : " or ") + b->txt + ")"; return p; }
static FSFilter* build(FB const& b, P p) {
  switch (p->k) {
    case 0: return b.createTypeFilter(p->t, p->sub);
    case 1: return b.createIntFeatureFilter(p->path, p->op, p->iv);
    case 2: return b.createFloatFeatureFilter(p->path, p->op, p->fv);
    case 3: { std::vector<UChar> buf(p->sv.getBuffer(), p->sv.getBuffer() + p->sv.length()); buf.push_back('X'); FSFilter* f = b.createStringFeatureFilter(p->path, buf.data(), p->sv.length()); for (auto& c : buf) c = 'Q'; return f; }   // the buffer is copied
    case 4: return b.createMatchFilter(p->path, build(b, p->a));
    case 5: { FSFilter* x = build(b, p->a); return b.createANDFilter(x, build(b, p->b)); }
    case 6: { FSFilter* x = build(b, p->a); return b.createORFilter(x, build(b, p->b)); }
    default: return b.createNOTFilter(build(b, p->a));
  }
}
static bool step1(Obj*& o, Feature const& f) { if (!o || o->type == 2 || f != fr) return false; o = o->r; return true; }
template<class X> static V cmp(int op, X a, X b) { return op == 0 ? V(a == b) : op == 1 ? V(a > b) : V(a < b); }
static V ev(P p, Obj* o) {
  switch (p->k) {
    case 0: if (!o) return R; if (!p->sub) return V(o->type == p->tn); return V(p->tn == 3 || p->tn == o->type || (p->tn == 0 && o->type == 1));
    case 1: case 2: case 3: {
      for (size_t i = 0; i + 1 < p->path.size(); ++i) if (!step1(o, p->path[i])) return R;
      Feature f = p->path.back(); if (!o || o->type == 2) return R;
      if (p->k == 1) { if (f == fi) return cmp(p->op, o->i, p->iv); if (f == fbi && o->type == 1) return cmp(p->op, o->bi, p->iv); return R; }
      if (p->k == 2) return f == ff ? cmp(p->op, o->f, p->fv) : R;
      return f == fs_ ? V(o->s == p->sv) : f == fe ? V(p->sv.isEmpty()) : R; }
    case 4: for (auto& f : p->path) if (!step1(o, f)) return R; return ev(p->a, o);
    case 5: { V a = ev(p->a, o); return a == T ? ev(p->b, o) : a; }
    case 6: { V a = ev(p->a, o); return a == F ? ev(p->b, o) : a; }
    default: { V a = ev(p->a, o); return a == R ? R : V(!a); }
  }
}
struct World {
  CAS* c; std::vector<Obj> o;
  World() : o(9) {
    ErrorInfo e; c = Framework::createCAS(*ts, e); c->createFS(tC);
    static const int tp[] = {0,0,0,1,1,1,2,0,1}; static const int iv[] = {0,5,-7,4,5,6,0,(int)0x80000000,2147483647}; static const float fv[] = {0,1.5f,-1.5f,NAN,1.5f,INFINITY,0,-0.0f,-INFINITY};
    static const icu::UnicodeString sv[] = {U(""),U("ab"),U("a"),U("abc"),U("ab"),U("\xF0\x9F\x98\x80"),U(""),icu::UnicodeString((UChar)'a') + (UChar)0,U("AB")};
    static const int rf[] = {-1,0,2,1,3,6,-1,4,8};
    for (int k = 0; k < 9; ++k) { o[k].type = tp[k]; o[k].fs = c->createFS(tp[k] == 0 ? tA : tp[k] == 1 ? tB : tC); }
    for (int k = 0; k < 9; ++k) if (tp[k] != 2) {
      o[k].i = iv[k]; o[k].f = fv[k]; o[k].s = sv[k]; if (rf[k] >= 0 && tp[rf[k]] != 2) o[k].r = &o[rf[k]];
      FeatureStructure f = o[k].fs; if (k) { f.setIntValue(fi, iv[k]); f.setFloatValue(ff, fv[k]); f.setStringValue(fs_, sv[k]); } if (o[k].r) f.setFSValue(fr, o[k].r->fs);
      if (tp[k] == 1) { o[k].bi = 10 * k; f.setIntValue(fbi, 10 * k); } }
  }
  ~World() { delete c->getBaseCas(); }
};
static std::vector<P> atoms(int which) {
  std::vector<P> a; typedef std::vector<Feature> L;
  Type tt[] = {tA, tB, tC, tTop}; for (int i = 0; i < 4; ++i) for (int s = 0; s < 2; ++s) if (which == 0 || i == 1) a.push_back(ty(tt[i], i, s));
  std::vector<L> ip = which == 0 ? std::vector<L>{{fi},{fbi},{fr,fi},{fr,fr,fi},{fr,fbi},{ff},{fd},{fi,fi},{fr}} : std::vector<L>{{fi},{fbi},{fr,fi}};
  for (auto& p : ip) for (int op = 0; op < 3; ++op) for (int v : which == 0 ? std::vector<int>{0,5,-7,40,(int)0x80000000,2147483647} : std::vector<int>{5}) if (which == 0 || op != 2) a.push_back(in(p, op, v));
  std::vector<L> fp = which == 0 ? std::vector<L>{{ff},{fr,ff},{fi},{fd}} : std::vector<L>{{ff}};
  for (auto& p : fp) for (int op = 0; op < 3; ++op) for (float v : which == 0 ? std::vector<float>{0,1.5f,-1.5f,NAN,INFINITY} : std::vector<float>{1.5f}) if (which == 0 || op == 2) a.push_back(fl(p, op, v));
  std::vector<L> sp = which == 0 ? std::vector<L>{{fs_},{fr,fs_},{fr,fr,fs_},{fi},{fe}} : std::vector<L>{{fs_}};
  for (auto& p : sp) for (const char* v : which == 0 ? std::vector<const char*>{"","ab","a","abc","AB","\xF0\x9F\x98\x80"} : std::vector<const char*>{"ab"}) a.push_back(st(p, U(v)));
  return a;
}
static void verify(World& w, P p) {
  mc::step("%s", p->txt.c_str()); FSFilter* f = build(w.c->getFSFilterBuilder(), p); std::string sig;
  for (int pass = 0; pass < 2; ++pass) for (size_t k = 0; k < w.o.size(); ++k) {
    V want = ev(p, &w.o[k]); bool got = false; bool th = throwsUima([&]{ got = f->isFiltered(w.o[k].fs); });
    MC_CHECK(th == (want == R) && (th || got == (want == T)), "%s on structure %zu: %s, expected %s", p->txt.c_str(), k, th ? "refused" : got ? "true" : "false", want == R ? "refused" : want == T ? "true" : "false"); sig += "FTR"[want]; }
  FeatureStructure inv; bool th = throwsUima([&]{ f->isFiltered(inv); }); MC_CHECK(th == (ev(p, nullptr) == R), "%s on an invalid structure", p->txt.c_str());
  f->deInit(); delete f; mc::state(sig); mc::outcome(sig + p->txt);
}
// user filters: every combination evaluates its operands left to right and only as far as needed, releases each exactly once
struct Spy : FSFilter { std::string* log; int id; V v; Spy(std::string* l, int i, V x) : log(l), id(i), v(x) {} bool isFiltered(FeatureStructure const&) const { *log += 'a' + id; if (v == R) throw std::runtime_error("spy"); return v == T; } void deInit() { *log += 'A' + id; } ~Spy() { *log += '0' + id; } };
static FSFilter* comb(FB const& b, int k, FSFilter* x, FSFilter* y) { return k == 0 ? b.createANDFilter(x, y) : b.createORFilter(x, y); }
static V mev(int k, V a, V b, std::string& l, char x, char y) { l += x; if (a == R) return R; if ((k == 0) == (a == F)) return a; l += y; return b; }
static void spies() {
  World w; FB const& b = w.c->getFSFilterBuilder(); std::string log, want; V v[3]; for (auto& x : v) x = V(mc::choose(3)); int shape = mc::choose(5), k1 = mc::choose(2), k2 = mc::choose(2); bool neg = mc::flip();
  FSFilter* s[3]; for (int i = 0; i < 3; ++i) s[i] = new Spy(&log, i, v[i]); FSFilter* f; V r; std::string tail;
  auto inner = [&](int i, int j, int k, std::string& l) { return mev(k, v[i], v[j], l, 'a' + i, 'a' + j); };
  if (shape == 0) { f = comb(b, k1, s[0], s[1]); r = inner(0, 1, k1, want); tail = "A0B1"; delete s[2]; log.clear(); }
  else if (shape == 1) { f = comb(b, k2, comb(b, k1, s[0], s[1]), s[2]); r = inner(0, 1, k1, want); if (r != R && (k2 == 0) == (r == T)) { want += 'c'; r = v[2]; } tail = "A0B1C2"; }
  else if (shape == 2) { f = comb(b, k2, s[0], comb(b, k1, s[1], s[2])); want = "a"; r = v[0]; if (r != R && (k2 == 0) == (r == T)) r = inner(1, 2, k1, want); tail = "A0B1C2"; }
  else if (shape == 3) { f = comb(b, k1, b.createNOTFilter(s[0]), s[1]); V n = v[0] == R ? R : V(!v[0]); r = mev(k1, n, v[1], want, 'a', 'b'); tail = "A0B1"; delete s[2]; log.clear(); }
  else { f = b.createMatchFilter({fr}, comb(b, k1, s[0], s[1])); r = inner(0, 1, k1, want); tail = "A0B1"; delete s[2]; log.clear(); }
  if (neg) { f = b.createNOTFilter(f); if (r != R) r = V(!r); }
  mc::step("shape %d %d %d %d over %d %d %d", shape, k1, k2, neg, v[0], v[1], v[2]);
  V got; try { got = V(f->isFiltered(w.o[1].fs)); } catch (std::runtime_error&) { got = R; }
  MC_CHECK(got == r, "result %d, expected %d", got, r); MC_CHECK(log == want, "operands evaluated: %s, expected %s", log.c_str(), want.c_str());
  log.clear(); f->deInit(); delete f; MC_CHECK(log == tail, "operands released: %s, expected %s", log.c_str(), tail.c_str()); mc::outcome(mc::fmt("%d%d%d%d%d%d%d", shape, k1, k2, neg, v[0], v[1], v[2])); mc::cover("spies");
}
static void formulas() {
  World w; static std::vector<P> A = atoms(0), B = atoms(1); static const std::vector<std::vector<Feature>> mp = {{fr},{fr,fr},{fi},{fr,fi}};
  switch (mc::choose(6)) {
    case 0: verify(w, mc::pick(A)); mc::cover("atoms"); break;
    case 1: verify(w, bi(7, mc::pick(A), P())); mc::cover("not"); break;
    case 2: { int k = 5 + mc::choose(2); P a = mc::pick(A); P b = mc::pick(B); if (mc::flip()) std::swap(a, b); verify(w, bi(k, a, b)); mc::cover("binary"); break; }
    case 3: { auto& m = mp[mc::choose(4)]; P a = mc::pick(A); if (mc::flip()) a = bi(7, a, P()); verify(w, ma(m, a)); mc::cover("match"); break; }
    case 4: { int k = 5 + mc::choose(2), l = 5 + mc::choose(2); P a = mc::pick(mc::thorough() ? A : B), b = mc::pick(B), c = mc::pick(B); int s = mc::choose(4); P x = bi(k, a, b); if (s & 1) x = bi(7, x, P()); verify(w, s & 2 ? bi(l, x, c) : bi(l, c, x)); mc::cover("nested"); break; }
    case 5: { P a = mc::pick(B), b = mc::pick(B); int k = 5 + mc::choose(2), s = mc::choose(3); verify(w, s == 0 ? ma({fr}, bi(k, a, ma({fr}, b))) : s == 1 ? bi(k, ma({fr}, a), bi(7, ma({fr, fr}, b), P())) : bi(7, ma({fr}, bi(7, bi(k, a, b), P())), P())); mc::cover("nestedMatch"); break; }
  }
}
void mc_body() { if (mc::flip()) spies(); else formulas(); }
int main(int c, char** v) { return mc::run(c, v); }
