// C05: subiterators, unambiguous, filtered and type set iterators; covered text
#include "ix.hpp"
#include "uima/fsfilterbuilder.hpp"
#include <algorithm>
static IxWorld* W; static Type TA, TB, TN;   // p.B has priority over p.A
static std::vector<std::pair<int,int>> spans;
void mc_init() {
  uhInit();
  W = new IxWorld(typeXML("p.A","uima.tcas.Annotation",{{"k","uima.cas.Integer"}}) + typeXML("p.B","uima.tcas.Annotation"), {{"bag","uima.tcas.Annotation","bag",{}},{"set","uima.tcas.Annotation","set",{{"begin",false}}}}, {{"p.B","p.A"}});
  TA = W->ts->getType("p.A"); TB = W->ts->getType("p.B"); TN = W->ts->getType("uima.tcas.Annotation");
  int P = mc::thorough() ? 5 : 4; for (int b = 0; b < P; ++b) for (int e = b; e < P; ++e) spans.push_back({b, e});
}
struct A { int t, b, e; AnnotationFS fs; };   // t: 0 = p.B, 1 = p.A (order of priority)
static int cmp(const A& x, const A& y) { if (x.b != y.b) return x.b < y.b ? -1 : 1; if (x.e != y.e) return x.e > y.e ? -1 : 1; return x.t < y.t ? -1 : x.t > y.t; }
static A mk(CAS* v, int idx) { A a; a.t = idx % 2; a.b = spans[idx / 2].first; a.e = spans[idx / 2].second; a.fs = v->createAnnotation(a.t ? TA : TB, a.b, a.e); return a; }
static std::vector<A*> base(ANIndex x, std::vector<A>& all) {
  std::vector<A*> s; for (ANIterator it = x.iterator(); it.isValid(); it.moveToNext()) { A* p = nullptr; for (auto& a : all) if (a.fs == it.get()) p = &a; MC_CHECK(p, "a structure that was not added"); s.push_back(p); MC_CHECK(s.size() <= all.size(), "too many"); } return s; }
static void walk(FSIterator it, std::vector<A*>& s, bool back, bool peekBack, const char* what) {
  int n = s.size(); size_t steps = 0;
  auto at = [&](int i, const char* how) { if (i < 0 || i >= n) MC_CHECK(!it.isValid(), "%s: %s: valid beyond the selection of %d", what, how, n); else { MC_CHECK(it.isValid(), "%s: %s: invalid at %d of %d", what, how, i, n); MC_CHECK(it.get() == s[i]->fs, "%s: %s: not the element %d of %d", what, how, i, n); } };
  at(0, "created"); it.moveToFirst(); at(0, "moveToFirst");
  for (int i = 0; i < n; ++i) { at(i, "moveToNext"); FeatureStructure p = it.peekNext(); MC_CHECK(i + 1 < n ? p == s[i+1]->fs : !p.isValid(), "%s: peekNext at %d of %d", what, i, n); 
    if (peekBack) { p = it.peekPrevious(); MC_CHECK(i > 0 ? p == s[i-1]->fs : !p.isValid(), "%s: peekPrevious at %d of %d", what, i, n); } at(i, "peeking"); it.moveToNext(); }
  at(n, "end"); it.moveToNext(); at(n, "moveToNext at the end");
  if (back) { it.moveToPrevious(); MC_CHECK(!it.isValid(), "%s: moveToPrevious on an invalid iterator", what);
    it.moveToLast(); for (int i = n - 1; i >= 0; --i) { at(i, "moveToPrevious"); it.moveToPrevious(); } at(-1, "begin");
    for (int i = 0; i < n; ++i) { it.moveTo(s[i]->fs); at(i, "moveTo"); it.moveToNext(); at(i + 1, "moveTo and next"); it.moveTo(s[i]->fs); it.moveToPrevious(); at(i - 1, "moveTo and previous");
      it.moveTo(s[i]->fs); FSIterator c(it); it.moveToLast(); at(n - 1, "moveToLast"); it = c; at(i, "copy"); } }
  it.moveToFirst(); at(0, "moveToFirst again");
}
static void populate(CAS* v, std::vector<A>& a, int n) {
  int lo = 0; for (int i = 0; i < n; ++i) { lo += mc::choose(spans.size() * 2 - lo); a.push_back(mk(v, lo)); }
  bool rev = n > 1 && mc::flip(); if (rev) std::reverse(a.begin(), a.end());
  for (auto& x : a) { v->getIndexRepository().addFS(x.fs); mc::step("add %s %d-%d", x.t ? "p.A" : "p.B", x.b, x.e); }
}
static std::string sig(std::vector<A*>& s) { std::string r; for (auto* p : s) r += mc::fmt("%d.%d.%d ", p->t, p->b, p->e); return r; }
// 1: subiterators
static void subs() {
  CasHolder c(W->cas()); std::vector<A> a; populate(c.c, a, mc::choose(mc::thorough() ? 5 : 4));
  int bi = mc::choose(a.size() + spans.size() * 2); A out; A* b; if (bi < (int)a.size()) b = &a[bi]; else { out = mk(c.c, bi - a.size()); b = &out; }
  mc::step("bounded by %s %d-%d %s", b->t ? "p.A" : "p.B", b->b, b->e, b == &out ? "(not indexed)" : "");
  for (int q = 0; q < 3; ++q) {
    Type ty = q == 0 ? TN : q == 1 ? TA : TB; ANIndex x = c->getAnnotationIndex(ty); std::vector<A*> s = base(x, a), sel;
    for (size_t i = 1; i < s.size(); ++i) MC_CHECK(cmp(*s[i-1], *s[i]) <= 0, "index out of order");
    ANIterator it = x.subIterator(b->fs); std::vector<A*> got; for (; it.isValid(); it.moveToNext()) { for (auto* p : s) if (p->fs == it.get()) got.push_back(p); MC_CHECK(got.size() <= a.size(), "too many"); }
    // elements that compare equal to the bounding annotation may be before or after it
    for (auto* p : s) if (p != b && p->b < b->e) { int k = cmp(*p, *b); if (k > 0 || (k == 0 && std::count(got.begin(), got.end(), p))) sel.push_back(p); }
    walk(x.subIterator(b->fs, enAmbiguous), sel, true, true, "subiterator");
    if (b->fs.isValid()) walk(b->fs.subIterator(ty, enAmbiguous), sel, true, true, "subiterator of the annotation");
    std::vector<A*> un; for (auto* p : sel) if (un.empty() || p->b >= un.back()->e) un.push_back(p);
    walk(x.subIterator(b->fs, enUnambiguous), un, true, true, "unambiguous subiterator");
    mc::state(sig(sel)); mc::outcome(sig(sel) + "/" + sig(un));
  }
  mc::cover("subs");
}
// 2: unambiguous iterators over the whole index
static void unamb() {
  CasHolder c(W->cas()); std::vector<A> a; populate(c.c, a, mc::choose(mc::thorough() ? 6 : 5));
  for (int q = 0; q < 3; ++q) { Type ty = q == 0 ? TN : q == 1 ? TA : TB; ANIndex x = c->getAnnotationIndex(ty); std::vector<A*> s = base(x, a), un; for (auto* p : s) if (un.empty() || p->b >= un.back()->e) un.push_back(p);
    walk(x.unambiguousIterator(), un, false, false, "unambiguous iterator"); mc::outcome(sig(un)); }
  mc::cover("unamb");
}
// 3: filtered and type set iterators, against every accepted subset
struct PF : public uima::FSFilter { std::set<lowlevel::TyFS> keep; bool isFiltered(FeatureStructure const& f) const { return !keep.count(addr(f)); } };
static void filt() {
  CasHolder c(W->cas()); std::vector<A> a; int n = mc::choose(mc::thorough() ? 5 : 4); static const int alpha[] = {0, 1, 4, 5, 8}; // few spans: what matters here is which are kept
  for (int i = 0; i < n; ++i) { a.push_back(mk(c.c, alpha[mc::choose(5)])); } for (auto& x : a) { c->getIndexRepository().addFS(x.fs); mc::step("add %s %d-%d", x.t ? "p.A" : "p.B", x.b, x.e); }
  int mask = mc::choose(1 << n); PF f; for (int i = 0; i < n; ++i) if (mask >> i & 1) { f.keep.insert(addr(a[i].fs)); mc::step("the filter keeps %d", i); }
  for (int q = 0; q < 3; ++q) { Type ty = q == 0 ? TN : q == 1 ? TA : TB; ANIndex x = c->getAnnotationIndex(ty); std::vector<A*> s = base(x, a), k; for (auto* p : s) if (f.keep.count(addr(p->fs))) k.push_back(p); walk(x.filteredIterator(&f), k, true, true, "filtered iterator"); mc::outcome("f" + sig(k)); }
  for (const char* id : {"bag","set"}) { FSIndex x = c->getIndexRepository().getIndex(U(id)); std::vector<A*> s = base(ANIndex(x), a), k; for (auto* p : s) if (f.keep.count(addr(p->fs))) k.push_back(p); walk(x.filteredIterator(&f), k, true, true, id); }
  for (int m = 0; m < 8; ++m) { std::set<Type> ts; if (m & 1) ts.insert(TA); if (m & 2) ts.insert(TB); if (m & 4) ts.insert(TN); ANIndex x = c->getAnnotationIndex(); std::vector<A*> s = base(x, a), k; for (auto* p : s) if ((p->t ? m & 1 : m & 2)) k.push_back(p); walk(x.typeSetIterator(ts), k, true, true, "type set iterator"); mc::outcome("t" + sig(k)); }
  mc::cover("filt");
}
// 4: positioning at a begin
static void begins() {
  CasHolder c(W->cas()); std::vector<A> a; populate(c.c, a, mc::choose(4)); A b = mk(c.c, mc::choose(spans.size()) * 2);
  ANIndex x = c->getAnnotationIndex(); std::vector<A*> s = base(x, a); ANIterator it = x.iterator(); int st = mc::choose(3); if (st == 1) it.moveToLast(); if (st == 2) it.moveToNext();
  bool r = c->moveToBeginPosition(it, b.fs); A* e = nullptr; for (auto* p : s) if (p->b == b.b) { e = p; break; }
  mc::step("move to begin %d", b.b); MC_CHECK(r == (e != nullptr), "moveToBeginPosition answers %d", r); if (e) MC_CHECK(it.isValid() && it.get().getBeginPosition() == (size_t)b.b, "not at an annotation with that begin");
  mc::cover("begins");
}
// 5: covered text
static void covered() {
  static const char* texts[] = {"", "a", "ab\xC3\xA9", "x\xF0\x90\x90\x80y"}; int t = mc::choose(5); bool after = mc::flip(); bool second = mc::flip(); int b = mc::choose(6), e = mc::choose(6);
  CasHolder c(W->cas()); CAS* v = second ? c->createView(U("v2")) : c.c;
  icu::UnicodeString txt; if (t < 4) txt = U(texts[t]); auto set = [&] { if (t < 4) v->setDocumentText(UnicodeStringRef(txt)); };
  if (second) { icu::UnicodeString o = U("other text!"); c->setDocumentText(UnicodeStringRef(o)); }
  AnnotationFS a; if (!after) set(); a = v->createAnnotation(TA, b, e); v->getIndexRepository().addFS(a); if (after) set();
  mc::step("text %d %s, view %s, annotation %d-%d", t, after ? "set after the annotation was created" : "", second ? "v2" : "initial", b, e);
  MC_CHECK(a.getBeginPosition() == (size_t)b && a.getEndPosition() == (size_t)e, "begin or end"); if (b <= e) MC_CHECK(a.getLength() == (size_t)(e - b), "length");
  UnicodeStringRef r; bool th = throwsUima([&]{ r = a.getCoveredText(); });
  bool fits = t < 4 && b <= e && e <= txt.length(); bool attached = second || (!after && t < 4);   // an annotation belongs to the subject its view had when it was created
  if (fits && attached && txt.length() > 0) { MC_CHECK(!th, "covered text refused"); MC_CHECK(toS(r) == toS(txt.tempSubString(b, e - b)), "covered text '%s' of %d-%d", toS(r).c_str(), b, e); mc::outcome(toS(r)); }
  else if (!fits) MC_CHECK(th || r.length() == 0, "covered text of a span outside the document has length %d", (int)r.length());
  AnnotationFS none; MC_CHECK(throwsUima([&]{ none.getCoveredText(); }), "covered text of no annotation");
  mc::cover("covered");
}
void mc_body() { switch (mc::choose(5)) { case 0: subs(); break; case 1: unamb(); break; case 2: filt(); break; case 3: begins(); break; case 4: covered(); break; } }
int main(int c, char** v) { return mc::run(c, v); }
