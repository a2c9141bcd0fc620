// C02: arrays are fixed length vectors, lists are linked sequences
#include "uh.hpp"
#include <algorithm>
static TypeSystem* ts;
void mc_init() { uhInit(); ts = makeTS(tsXML(enumXML("m.E",{"a","b"}) + typeXML("m.H","uima.cas.TOP",{{"i","uima.cas.Integer"},{"fl","uima.cas.FSList"},{"il","uima.cas.IntegerList"},{"nl","uima.cas.FloatList"},{"sl","uima.cas.StringList"},{"o","uima.cas.TOP"}}))); }
struct CH { CAS* c; CH() { ErrorInfo e; c = Framework::createCAS(*ts, e); } ~CH() { delete c->getBaseCas(); } CAS* operator->() { return c; } };
// ------- arrays -------
// one trait per element type: values by small index; 0 is the default
static std::vector<FeatureStructure> fsv;   // structures used as elements (per execution)
static const icu::UnicodeString sv[] = { icu::UnicodeString(), U("a"), U("bc\xC3\xA9"), icu::UnicodeString((UChar)0) + "z", U("") };
struct TInt { typedef IntArrayFS A; typedef int T; static const char* n() { return "int"; } static A mk(CAS* c, size_t k) { return c->createIntArrayFS(k); } static T v(int i) { static T x[] = {0,1,-1,2147483647,(int)0x80000000}; return x[i]; } static bool eq(T const& t, int i) { return t == v(i); } enum { bulk = 1 }; };
struct TFlt { typedef FloatArrayFS A; typedef float T; static const char* n() { return "float"; } static A mk(CAS* c, size_t k) { return c->createFloatArrayFS(k); } static T v(int i) { static T x[] = {0,1.5f,-0.25f,3e38f,1e-40f}; return x[i]; } static bool eq(T const& t, int i) { return t == v(i); } enum { bulk = 1 }; };
struct TBool { typedef BooleanArrayFS A; typedef bool T; static const char* n() { return "boolean"; } static A mk(CAS* c, size_t k) { return c->createBooleanArrayFS(k); } static T v(int i) { return i & 1; } static bool eq(T const& t, int i) { return t == v(i); } enum { bulk = 1 }; };
struct TByte { typedef ByteArrayFS A; typedef char T; static const char* n() { return "byte"; } static A mk(CAS* c, size_t k) { return c->createByteArrayFS(k); } static T v(int i) { static T x[] = {0,1,-1,127,-128}; return x[i]; } static bool eq(T const& t, int i) { return t == v(i); } enum { bulk = 1 }; };
struct TShort { typedef ShortArrayFS A; typedef short T; static const char* n() { return "short"; } static A mk(CAS* c, size_t k) { return c->createShortArrayFS(k); } static T v(int i) { static T x[] = {0,1,-1,32767,-32768}; return x[i]; } static bool eq(T const& t, int i) { return t == v(i); } enum { bulk = 1 }; };
struct TLong { typedef LongArrayFS A; typedef INT64 T; static const char* n() { return "long"; } static A mk(CAS* c, size_t k) { return c->createLongArrayFS(k); } static T v(int i) { static T x[] = {0,1LL << 40,-1,INT64_MAX,INT64_MIN}; return x[i]; } static bool eq(T const& t, int i) { return t == v(i); } enum { bulk = 1 }; };
struct TDbl { typedef DoubleArrayFS A; typedef double T; static const char* n() { return "double"; } static A mk(CAS* c, size_t k) { return c->createDoubleArrayFS(k); } static T v(int i) { static T x[] = {0,1.5,-1e300,1e-300,4e15}; return x[i]; } static bool eq(T const& t, int i) { return t == v(i); } enum { bulk = 1 }; };
struct TStr { typedef StringArrayFS A; typedef UnicodeStringRef T; static const char* n() { return "string"; } static A mk(CAS* c, size_t k) { return c->createStringArrayFS(k); } static T v(int i) { return i == 0 ? UnicodeStringRef() : UnicodeStringRef(sv[i]); } static bool eq(T const& t, int i) { return t.length() == sv[i].length() && !u_memcmp(t.getBuffer(), sv[i].getBuffer(), t.length()); } enum { bulk = 0 }; };
struct TFs { typedef ArrayFS A; typedef FeatureStructure T; static const char* n() { return "FS"; } static A mk(CAS* c, size_t k) { return c->createArrayFS(k); } static T v(int i) { return fsv[i]; } static bool eq(T const& t, int i) { return i == 0 ? !t.isValid() : t.isValid() && t == fsv[i]; } enum { bulk = 0 }; };
static void prep(CAS* c) { fsv.clear(); fsv.push_back(FeatureStructure()); for (int i = 0; i < 4; ++i) fsv.push_back(c->createFS(ts->getType("m.H"))); }
template<class X> struct AM {
  typename X::A a; std::vector<int> m;
  void check(const char* w) { MC_CHECK(a.size() == m.size(), "%s: size %zu, expected %zu", w, a.size(), m.size()); for (size_t i = 0; i < m.size(); ++i) MC_CHECK(X::eq(a.get(i), m[i]), "%s: element %zu of %zu is not value %d", w, i, m.size(), m[i]); }
};
// sizes that place arrays around the page end of every heap
template<class X> static void arr() {
  static const int sizes[] = {0,1,2,3,5}; CH c; prep(c.c); int pad = mc::choose(4); 
  if (pad) { static const int near[] = {0, 9990, 9995, 9999}; mc::step("another %s array of %d elements first", X::n(), near[pad]); AM<X> big; big.a = X::mk(c.c, near[pad]); }
  AM<X> b[3]; int n = sizes[mc::choose(5)]; int ns[3] = {2, n, 2};
  for (int i = 0; i < 3; ++i) { b[i].a = X::mk(c.c, ns[i]); b[i].m.assign(ns[i], 0); b[i].check("new"); } mc::step("%s arrays of 2, %d, 2 elements", X::n(), n);
  for (int j = 0; j < 2; ++j) { b[0].a.set(j, X::v(1)); b[0].m[j] = 1; b[2].a.set(j, X::v(3)); b[2].m[j] = 3; }
  int D = pad ? 1 : mc::thorough() ? 3 : 2;
  for (int d = 0; d < D; ++d) {
    bool few = d + 1 < D;   // all but the last operation from a smaller alphabet
    int op = mc::choose(X::bulk ? 4 : 3);
    if (op == 0) { static const size_t off[] = {0,1,2,3,4,5,6,100000,(size_t)-1,(size_t)1 << 32,((size_t)1 << 32) - 1}; size_t i = off[few ? mc::choose(3) : mc::choose(11)]; int v = few ? 2 : mc::choose(5); mc::step("set [%zu] to value %d", i, v);
      bool th = throwsUima([&]{ b[1].a.set(i, X::v(v)); }); MC_CHECK(th == (i >= (size_t)n), "set of index %zu of %d %s", i, n, th ? "refused" : "accepted"); if (!th) b[1].m[i] = v;
      typename X::T r; th = throwsUima([&]{ r = b[1].a.get(i); }); MC_CHECK(th == (i >= (size_t)n), "get of index %zu of %d %s", i, n, th ? "refused" : "accepted"); }
    else if (op == 1) { mc::step("other arrays and growth"); auto g = X::mk(c.c, 9000); for (int i = 0; i < 9000; i += 997) g.set(i, X::v(2)); AM<X> h; h.a = g; h.m.assign(9000, 0); for (int i = 0; i < 9000; i += 997) h.m[i] = 2; h.check("large"); }
    else if (op == 2) { mc::step("clone"); AM<X> k; k.a = (typename X::A)b[1].a.clone(); k.m = b[1].m; k.check("clone"); MC_CHECK(!(k.a == b[1].a), "the clone is the structure itself"); for (int i = 0; i < n; ++i) { k.a.set(i, X::v(4)); } b[1].check("after writing to the clone"); if (n) { b[1].a.set(0, X::v(2)); b[1].m[0] = 2; k.m.assign(n, 4); k.check("clone after writing to the original"); } }
    else {
      int p, q, o; bool to; if (few) { p = mc::choose(2); q = mc::choose(2) + p + 1; to = false; o = mc::choose(2); } else { p = mc::choose(7); q = mc::choose(7); to = mc::flip(); o = mc::choose(3); } size_t s = p, e = q; if (q == 6) e = (size_t)-1; if (p == 6) s = (size_t)-1;
      mc::step("copy%sArray [%zu,%zu) offset %d", to ? "To" : "From", s, e, o);
      std::vector<int> m(12, 3); if (!to) for (int i = 0; i < 12; ++i) m[i] = 1 + i % 4; std::unique_ptr<typename X::T[]> ext(new typename X::T[12]); for (int i = 0; i < 12; ++i) ext[i] = X::v(m[i]);
      if (to) { bool ok = s <= e && e <= (size_t)n; bool second = mc::flip(); bool th = throwsUima([&]{ if (second) b[1].a.copyToArray(s, ext.get(), o, e - s); else b[1].a.copyToArray(s, e, ext.get(), o); });
        MC_CHECK(th == !ok, "range [%zu,%zu) of %d elements %s", s, e, n, th ? "refused" : "accepted"); if (ok) for (size_t i = s; i < e; ++i) m[o + i - s] = b[1].m[i]; }
      else { if (p == 6 || (q == 6 && p < 6)) { if (q == 6 && p == 6) continue; }   // the external source has 12 elements
        bool ok = s <= e && e - s <= 12 && o + (e - s) <= (size_t)n; bool th = throwsUima([&]{ b[1].a.copyFromArray(ext.get(), s, e, o); });
        MC_CHECK(th == !ok, "%zu elements to offset %d of %d %s", e - s, o, n, th ? "refused" : "accepted"); if (ok) for (size_t i = s; i < e; ++i) b[1].m[o + i - s] = m[i]; }
      for (int i = 0; i < 12; ++i) MC_CHECK(X::eq(ext[i], m[i]), "external element %d after the copy", i);
    }
    for (int i = 0; i < 3; ++i) b[i].check(i == 1 ? "array" : "neighbour");
    std::string st = X::n(); for (int v : b[1].m) st += mc::fmt(",%d", v); mc::state(st); mc::outcome(st + mc::fmt(" %d", pad));
  }
  mc::cover(std::string("array-") + X::n());
}
static void arrays() { switch (mc::choose(9)) { case 0: arr<TInt>(); break; case 1: arr<TFlt>(); break; case 2: arr<TBool>(); break; case 3: arr<TByte>(); break; case 4: arr<TShort>(); break; case 5: arr<TLong>(); break; case 6: arr<TDbl>(); break; case 7: arr<TStr>(); break; case 8: arr<TFs>(); break; } }
// creating arrays as plain structures, treating one kind as another
static void kinds() {
  static const char* names[] = {"uima.cas.IntegerArray","uima.cas.FloatArray","uima.cas.StringArray","uima.cas.FSArray","uima.cas.BooleanArray","uima.cas.ByteArray","uima.cas.ShortArray","uima.cas.LongArray","uima.cas.DoubleArray","uima.cas.Integer","uima.cas.String","m.E","uima.cas.Double","uima.cas.Long"};
  CH c; prep(c.c); int k = mc::choose(14); mc::step("create a structure of type %s", names[k]); FeatureStructure f;
  MC_CHECK(throwsUima([&]{ f = c->createFS(ts->getType(names[k])); }), "createFS of %s accepted", names[k]);
  FeatureStructure ar[9] = {c->createIntArrayFS(2), c->createFloatArrayFS(2), c->createStringArrayFS(2), c->createArrayFS(2), c->createBooleanArrayFS(2), c->createByteArrayFS(2), c->createShortArrayFS(2), c->createLongArrayFS(2), c->createDoubleArrayFS(2)};
  for (int i = 0; i < 10; ++i) { FeatureStructure x = i < 9 ? ar[i] : fsv[1];
    bool r[9] = { throwsUima([&]{ IntArrayFS a(x); a.size(); }), throwsUima([&]{ FloatArrayFS a(x); a.size(); }), throwsUima([&]{ StringArrayFS a(x); a.size(); }), throwsUima([&]{ ArrayFS a(x); a.size(); }), throwsUima([&]{ BooleanArrayFS a(x); a.size(); }), throwsUima([&]{ ByteArrayFS a(x); a.size(); }), throwsUima([&]{ ShortArrayFS a(x); a.size(); }), throwsUima([&]{ LongArrayFS a(x); a.size(); }), throwsUima([&]{ DoubleArrayFS a(x); a.size(); }) };
    for (int j = 0; j < 9; ++j) MC_CHECK(r[j] == (i != j), "array %d used as array kind %d: refused %d", i, j, r[j]);
    bool l[4] = { throwsUima([&]{ ListFS a(x); a.getLength(); }), throwsUima([&]{ IntListFS a(x); a.getLength(); }), throwsUima([&]{ FloatListFS a(x); a.getLength(); }), throwsUima([&]{ StringListFS a(x); a.getLength(); }) };
    for (int j = 0; j < 4; ++j) MC_CHECK(l[j], "structure %d used as list kind %d accepted", i, j); }
  IntArrayFS ia; StringArrayFS sa; ArrayFS fa; MC_CHECK(throwsUima([&]{ ia.size(); }) && throwsUima([&]{ ia.get(0); }) && throwsUima([&]{ ia.set(0, 1); }) && throwsUima([&]{ sa.get(0); }) && throwsUima([&]{ fa.get(0); }) && throwsUima([&]{ int d[2]; ia.copyToArray(0, 1, d, 0); }), "an invalid array is used");
  ListFS lf; IntListFS li; MC_CHECK(throwsUima([&]{ lf.getLength(); }) && throwsUima([&]{ lf.isEmpty(); }) && throwsUima([&]{ li.getHead(); }) && throwsUima([&]{ li.addLast(1); }) && throwsUima([&]{ li.addFirst(1); }) && throwsUima([&]{ li.moveToNext(); }) && throwsUima([&]{ li.getTail(); }) && throwsUima([&]{ li.removeElement(1); }), "an invalid list is used");
  ListFS ls[1] = {c->createListFS()}; (void)ls; FeatureStructure lsx[4] = {c->createListFS(), c->createIntListFS(), c->createFloatListFS(), c->createStringListFS()};
  for (int i = 0; i < 4; ++i) { FeatureStructure x = lsx[i]; bool l[4] = { throwsUima([&]{ ListFS a(x); a.getLength(); }), throwsUima([&]{ IntListFS a(x); a.getLength(); }), throwsUima([&]{ FloatListFS a(x); a.getLength(); }), throwsUima([&]{ StringListFS a(x); a.getLength(); }) }; for (int j = 0; j < 4; ++j) MC_CHECK(l[j] == (i != j), "list %d used as list kind %d", i, j); }
  mc::cover("kinds");
}
// ------- lists -------
struct LInt { typedef IntListFS L; typedef int T; static const char* n() { return "int"; } static const char* f() { return "il"; } static L mk(CAS* c) { return c->createIntListFS(); } static L get(FeatureStructure o, Feature f) { return o.getIntListFSValue(f); } static T v(int i) { return TInt::v(i); } static bool eq(T const& t, int i) { return t == v(i); } };
struct LFlt { typedef FloatListFS L; typedef float T; static const char* n() { return "float"; } static const char* f() { return "nl"; } static L mk(CAS* c) { return c->createFloatListFS(); } static L get(FeatureStructure o, Feature f) { return o.getFloatListFSValue(f); } static T v(int i) { return TFlt::v(i); } static bool eq(T const& t, int i) { return t == v(i); } };
struct LStr { typedef StringListFS L; typedef UnicodeStringRef T; static const char* n() { return "string"; } static const char* f() { return "sl"; } static L mk(CAS* c) { return c->createStringListFS(); } static L get(FeatureStructure o, Feature f) { return o.getStringListFSValue(f); } static T v(int i) { return TStr::v(i); } static bool eq(T const& t, int i) { return TStr::eq(t, i); } };
struct LFs { typedef ListFS L; typedef FeatureStructure T; static const char* n() { return "FS"; } static const char* f() { return "fl"; } static L mk(CAS* c) { return c->createListFS(); } static L get(FeatureStructure o, Feature f) { return o.getListFSValue(f); } static T v(int i) { return fsv[i]; } static bool eq(T const& t, int i) { return TFs::eq(t, i); } };
struct Node { bool ne; int head, tail; };   // model: the linked nodes in the heap
template<class X> struct LM {
  std::vector<Node> nd; std::vector<int> h; std::vector<typename X::L> l;
  int mk(bool ne, int head, int tail) { nd.push_back({ne, head, tail}); return nd.size() - 1; }
  int last(int k) { while (nd[nd[k].tail].ne) k = nd[k].tail; return k; }
  bool cyc(int k) { for (int i = 0; i < 40; ++i) { if (!nd[k].ne) return false; k = nd[k].tail; } return true; }
  bool reaches(int a, int b) { for (int i = 0; i < 40; ++i) { if (a == b) return true; if (!nd[a].ne) return false; a = nd[a].tail; } return true; }
  void checkOne(typename X::L a, int k, const char* w) {
    size_t len = 0; for (int q = k; nd[q].ne; q = nd[q].tail) ++len;
    MC_CHECK(a.getLength() == len, "%s: length %zu, expected %zu", w, a.getLength(), len);
    for (size_t i = 0; ; ++i) { MC_CHECK(a.isEmpty() == !nd[k].ne, "%s: isEmpty at %zu", w, i); if (!nd[k].ne) break; MC_CHECK(X::eq(a.getHead(), nd[k].head), "%s: element %zu is not value %d", w, i, nd[k].head);
      k = nd[k].tail; typename X::L t(a.getTail()); if (i & 1) a = t; else { a.moveToNext(); MC_CHECK(a == t, "moveToNext and getTail differ"); } }
    MC_CHECK(throwsUima([&]{ a.getHead(); }) && throwsUima([&]{ a.getTail(); }) && throwsUima([&]{ a.moveToNext(); }) && throwsUima([&]{ a.setHead(X::v(1)); }) && throwsUima([&]{ a.setTail(a); }), "%s: an operation on an empty list is accepted", w);
  }
  std::string sig() { std::string s; for (int k : h) { s += "|"; for (int q = k; nd[q].ne; q = nd[q].tail) s += mc::fmt("%d,", nd[q].head); } return s; }
};
template<class X> static void lst(int D) {
  CH c; prep(c.c); LM<X> m; for (int i = 0; i < 2; ++i) { m.l.push_back(X::mk(c.c)); m.h.push_back(m.mk(false, 0, -1)); }
  if (mc::flip()) { mc::step("list 0 is 1,2,1 and list 1 is 2"); for (int v : {1, 2, 1}) { m.l[0].addFirst(X::v(v)); m.h[0] = m.mk(true, v, m.h[0]); } m.l[1].addFirst(X::v(2)); m.h[1] = m.mk(true, 2, m.h[1]); }
  for (int d = 0; d < D; ++d) {
    int a = mc::choose(2), b = 1 - a, op = mc::choose(16); auto& A = m.l[a]; auto& B = m.l[b]; int ka = m.h[a], kb = m.h[b];
    if (op < 2) { mc::step("list %d addFirst %d", a, op + 1); typename X::L r(A.addFirst(X::v(op + 1))); m.h[a] = m.mk(true, op + 1, ka); m.checkOne(r, m.h[a], "returned list"); }
    else if (op < 5) { int v = op == 4 ? 0 : op - 1; mc::step("list %d addLast %d", a, v); typename X::L r(A.addLast(X::v(v))); int n; if (!m.nd[ka].ne) n = m.h[a] = m.mk(true, v, ka); else { int z = m.last(ka); n = m.mk(true, v, m.nd[z].tail); m.nd[z].tail = n; } m.checkOne(r, n, "returned list"); }
    else if (op == 5) { mc::step("append list %d to list %d", b, a);
      if (ka == kb) { bool th = throwsUima([&]{ A.append(B); }); MC_CHECK(th == m.nd[ka].ne, "appending a list to itself: refused %d", th); }
      else if (m.nd[ka].ne && m.reaches(kb, m.last(ka))) continue;   // would make a circle
      else { A.append(B); if (m.nd[ka].ne) m.nd[m.last(ka)].tail = kb; else m.h[a] = kb; } }
    else if (op == 6) { mc::step("prepend list %d to list %d", b, a);
      if (ka == kb) { bool th = throwsUima([&]{ A.prepend(B); }); MC_CHECK(th == m.nd[ka].ne, "prepending a list to itself: refused %d", th); }
      else if (m.nd[kb].ne && m.reaches(ka, m.last(kb))) continue;
      else { A.prepend(B); if (m.nd[kb].ne) { m.nd[m.last(kb)].tail = ka; m.h[a] = kb; } } }
    else if (op == 7) { mc::step("append list %d to itself", a); bool th = throwsUima([&]{ A.append(A); }); MC_CHECK(th == m.nd[ka].ne, "appending a list to itself: refused %d", th); }
    else if (op == 8) { mc::step("list %d setTail list %d", a, b); if (m.nd[ka].ne && m.reaches(kb, ka)) continue; bool th = throwsUima([&]{ A.setTail(B); }); MC_CHECK(th == !m.nd[ka].ne, "setTail: refused %d", th); if (!th) m.nd[ka].tail = kb; }
    else if (op == 9) { mc::step("list %d setHead 3", a); bool th = throwsUima([&]{ A.setHead(X::v(3)); }); MC_CHECK(th == !m.nd[ka].ne, "setHead: refused %d", th); if (!th) m.nd[ka].head = 3; }
    else if (op == 10) { mc::step("list %d moveToNext", a); bool th = throwsUima([&]{ A.moveToNext(); }); MC_CHECK(th == !m.nd[ka].ne, "moveToNext: refused %d", th); if (!th) m.h[a] = m.nd[ka].tail; }
    else if (op < 14) { int v = op - 10; mc::step("list %d removeElement %d", a, v); int p = -1, q = ka; while (m.nd[q].ne && m.nd[q].head != v) { p = q; q = m.nd[q].tail; }
      typename X::L r(A.removeElement(X::v(v)));
      if (!m.nd[q].ne) MC_CHECK(!r.isValid(), "removing an absent element returns something");
      else { if (p < 0) m.h[a] = m.nd[q].tail; else m.nd[p].tail = m.nd[q].tail; m.nd[q].tail = m.mk(false, 0, -1); m.checkOne(r, q, "removed element"); } }
    else if (op == 14) { mc::step("list %d = list %d", a, b); A = B; m.h[a] = kb; }
    else { mc::step("list %d = new", a); A = X::mk(c.c); m.h[a] = m.mk(false, 0, -1); }
    for (int i = 0; i < 2; ++i) { m.checkOne(m.l[i], m.h[i], i ? "list 1" : "list 0"); }
    mc::state(X::n() + m.sig());
  }
  // through a feature
  FeatureStructure o = c->createFS(ts->getType("m.H")); Feature f = o.getType().getFeatureByBaseName(U(X::f())); typename X::L e = X::get(o, f); MC_CHECK(e.isValid() && e.isEmpty() && e.getLength() == 0, "the list value of an unset feature is not the empty list");
  o.setFSValue(f, m.l[0]); m.checkOne(X::get(o, f), m.h[0], "list feature"); Feature fi = o.getType().getFeatureByBaseName("i"), fo = o.getType().getFeatureByBaseName("o"); MC_CHECK(throwsUima([&]{ X::get(o, fi); }) && throwsUima([&]{ X::get(o, fo); }), "a list read from a feature that is not a list");
  mc::outcome(X::n() + m.sig()); mc::cover(std::string("list-") + X::n());
}
static void lists() { bool t = mc::thorough(); switch (mc::choose(4)) { case 0: lst<LInt>(t ? 4 : 3); break; case 1: lst<LFlt>(t ? 4 : 2); break; case 2: lst<LStr>(t ? 4 : 2); break; case 3: lst<LFs>(t ? 4 : 2); break; } }
void mc_body() { switch (mc::choose(3)) { case 0: arrays(); break; case 1: kinds(); break; case 2: lists(); break; } }
int main(int c, char** v) { return mc::run(c, v); }
