// C01: feature values read back exactly as last written
#include "uh.hpp"
#include <cmath>
#include "uima/internal_fspromoter.hpp"
static TypeSystem* ts;
enum Kind { BOOL, BYTE, SHORT, INT, LONG, FLOAT, DOUBLE, STR, ENUM, REFA, REFTOP, ARR };
static const char* kindType[] = { "uima.cas.Boolean","uima.cas.Byte","uima.cas.Short","uima.cas.Integer","uima.cas.Long","uima.cas.Float","uima.cas.Double","uima.cas.String","m.E","m.A","uima.cas.TOP","uima.cas.IntegerArray" };
struct F { const char* name; Kind k; int owner; };   // owner: 0=A 1=B(of A) 2=C
static std::vector<F> feats = {
  {"fBool",BOOL,0},{"fByte",BYTE,0},{"fShort",SHORT,0},{"fInt",INT,0},{"fLong",LONG,0},{"fFloat",FLOAT,0},{"fDouble",DOUBLE,0},
  {"fStr",STR,0},{"fEnum",ENUM,0},{"fRef",REFA,0},{"fTop",REFTOP,0},
  {"gInt",INT,1},{"gStr",STR,1},{"gLong",LONG,1},{"gArr",ARR,1},{"gStr2",STR,1},
  {"cStr",STR,2},{"cInt",INT,2},{"cLong",LONG,2},{"cRef",REFA,2} };
static std::vector<Feature> fh; // handles
static Type tA, tB, tC, tZ, tTop, tIntArr;
static Type typeOf(int t) { return t == 0 ? tA : t == 1 ? tB : t == 2 ? tC : tZ; }
static bool approp(int type, int feat) { int o = feats[feat].owner; return type == o || (type == 1 && o == 0); }

void mc_init() {
  uhInit();
  std::string s;
  std::vector<std::pair<std::string,std::string>> f[3];
  for (auto& x : feats) f[x.owner].push_back({x.name, kindType[x.k]});
  s += enumXML("m.E", {"red","green",""});
  s += typeXML("m.A", "uima.cas.TOP", f[0]) + typeXML("m.B", "m.A", f[1]) + typeXML("m.C", "uima.cas.TOP", f[2]) + typeXML("m.Z", "uima.cas.TOP");
  ts = makeTS(tsXML(s));
  tA = ts->getType("m.A"); tB = ts->getType("m.B"); tC = ts->getType("m.C"); tZ = ts->getType("m.Z");
  tTop = ts->getType("uima.cas.TOP"); tIntArr = ts->getType("uima.cas.IntegerArray");
  for (auto& x : feats) fh.push_back(typeOf(x.owner).getFeatureByBaseName(x.name));
}

struct V { int64_t i = 0; double d = 0; std::u16string s; bool null = true; int ref = -1;
  bool operator==(const V& o) const { return i == o.i && memcmp(&d, &o.d, 8) == 0 && s == o.s && null == o.null && ref == o.ref; } };
static std::u16string u(const char16_t* p, size_t n) { return std::u16string(p, n); }

// number of values in each kind's alphabet
static V val(Kind k, int n, int nfs) {
  V v; v.null = false;
  switch (k) {
  case BOOL: { v.i = n & 1; break; }
  case BYTE: { static int a[] = {1,0,-1,127,-128,65}; v.i = a[n % 6]; break; }
  case SHORT: { static int a[] = {1,0,-1,32767,-32768,256}; v.i = a[n % 6]; break; }
  case INT: { static int64_t a[] = {1,0,-1,2147483647LL,-2147483647LL-1,65536}; v.i = a[n % 6]; break; }
  case LONG: { static int64_t a[] = {1,0,-1,INT64_MAX,INT64_MIN,0x100000000LL}; v.i = a[n % 6]; break; }
  case FLOAT: { static float a[] = {1.5f,0.f,-0.f,3.4028235e38f,1e-45f,-INFINITY}; v.d = a[n % 6]; break; }
  case DOUBLE: { static double a[] = {1.5,0.,-0.,1.7976931348623157e308,4.9e-324,INFINITY}; v.d = a[n % 6]; break; }
  case STR: { switch (n % 6) {
     case 0: v.s = u"ab"; break; case 1: v.s = u""; break; case 2: v.s = u(u"a\0b", 3); break;
     case 3: v.s = std::u16string(300, u'x') + u"y"; break; case 4: v.s = u"\xD834\xDD1E\x00e9"; break; case 5: v.s = std::u16string(21000, u'z') + u"w"; break; }
     break; }
  case ENUM: { static const char16_t* a[] = {u"red", u"green", u""}; v.s = a[n % 3]; break; }
  case REFA: case REFTOP: { v.ref = n % (nfs + 1) - 1; v.null = v.ref < 0; break; }
  case ARR: { v.ref = -1; v.null = true; break; }
  }
  return v;
}
static V defv(Kind k) { V v; v.null = (k >= STR); return v; }

struct Obj { int type; FeatureStructure fs; std::map<int, V> v; };
struct W {
  CAS* cas; std::vector<Obj> o; std::vector<std::u16string> extra;
  W() { ErrorInfo e; cas = Framework::createCAS(*ts, e); MC_CHECK(cas, "createCAS failed"); }
  ~W() { delete cas->getBaseCas(); }
  int create(int t) { Obj x; x.type = t; x.fs = cas->createFS(typeOf(t)); for (size_t f = 0; f < feats.size(); ++f) if (approp(t, f)) x.v[f] = defv(feats[f].k); o.push_back(x); return o.size() - 1; }
  V read(int i, int f) {
    FeatureStructure& s = o[i].fs; V v; Feature& h = fh[f];
    switch (feats[f].k) {
    case BOOL: v.null = false; v.i = s.getBooleanValue(h); break;
    case BYTE: v.null = false; v.i = (signed char)s.getByteValue(h); break;
    case SHORT: v.null = false; v.i = s.getShortValue(h); break;
    case INT: v.null = false; v.i = s.getIntValue(h); break;
    case LONG: v.null = false; v.i = s.getLongValue(h); break;
    case FLOAT: v.null = false; v.d = s.getFloatValue(h); break;
    case DOUBLE: v.null = false; v.d = s.getDoubleValue(h); break;
    case STR: case ENUM: { UnicodeStringRef r = s.getStringValue(h); v.null = r.getBuffer() == nullptr; v.s.assign((const char16_t*)r.getBuffer(), r.length()); break; }
    default: { FeatureStructure r = s.getFSValue(h); v.null = !r.isValid(); if (!v.null) { v.ref = -2; for (size_t j = 0; j < o.size(); ++j) if (o[j].fs == r) v.ref = j; } }
    }
    return v;
  }
  static std::string show(const V& v) { std::string t; for (auto c : v.s.substr(0, 20)) t += mc::fmt(c >= 32 && c < 127 ? "%c" : "\\%04x", c); return mc::fmt("{i=%lld d=%.17g s=%s(%zu) null=%d ref=%d}", (long long)v.i, v.d, t.c_str(), v.s.size(), v.null, v.ref); }
  // rangeFits: reference type check
  bool refOk(int f, int r) { if (r < 0) return true; if (feats[f].k == REFTOP) return true; return feats[f].k == REFA && (o[r].type == 0 || o[r].type == 1); }
  void write(int i, int f, const V& v, int style = 0) {
    FeatureStructure& s = o[i].fs; Feature& h = fh[f];
    mc::step("fs%d.%s = %s style %d", i, feats[f].name, show(v).c_str(), style);
    bool expectThrow = false;
    switch (feats[f].k) {
    case BOOL: s.setBooleanValue(h, v.i != 0); break;
    case BYTE: s.setByteValue(h, (char)v.i); break;
    case SHORT: s.setShortValue(h, (short)v.i); break;
    case INT: s.setIntValue(h, (int)v.i); break;
    case LONG: s.setLongValue(h, v.i); break;
    case FLOAT: s.setFloatValue(h, (float)v.d); break;
    case DOUBLE: s.setDoubleValue(h, v.d); break;
    case STR: case ENUM:
      if (style == 0) { icu::UnicodeString us((const UChar*)v.s.data(), v.s.size()); s.setStringValue(h, us); }
      else if (style == 1) s.setStringValue(h, (UChar const*)v.s.data(), v.s.size());
      else s.setStringValue(h, UnicodeStringRef((UChar const*)v.s.data(), v.s.size()));
      break;
    default:
      if (v.ref < 0) return;   // no way to un-set is promised
      expectThrow = !refOk(f, v.ref);
      if (expectThrow) { MC_CHECK(throwsUima([&]{ s.setFSValue(h, o[v.ref].fs); }), "wrong-type reference accepted"); return; }
      s.setFSValue(h, o[v.ref].fs);
    }
    o[i].v[f] = v;
  }
  void verify(const char* when) {
    std::string st;
    for (size_t i = 0; i < o.size(); ++i) {
      MC_CHECK(o[i].fs.isValid() && o[i].fs.getType() == typeOf(o[i].type), "%s: fs%zu type changed", when, i);
      st += mc::fmt("|%d", o[i].type);
      for (auto& p : o[i].v) {
        V r = read(i, p.first);
        MC_CHECK(r == p.second, "%s: fs%zu.%s reads %s, last write %s", when, i, feats[p.first].name, show(r).c_str(), show(p.second).c_str());
        st += show(p.second);
      }
    }
    mc::state(st); mc::outcome(st);
  }
  int clone(int i) {
    mc::step("clone fs%d", i);
    FeatureStructure c = o[i].fs.clone();
    Obj x = o[i]; x.fs = c; MC_CHECK(!(c == o[i].fs), "clone is the same structure"); o.push_back(x); return o.size() - 1;
  }
  void cloneAs(int i, int t) {
    mc::step("clone fs%d as type %d", i, t);
    FeatureStructure c = o[i].fs.clone(typeOf(t));
    Obj x; x.type = t; x.fs = c;
    for (size_t f = 0; f < feats.size(); ++f) if (approp(t, f)) x.v[f] = (approp(o[i].type, f)) ? o[i].v[f] : defv(feats[f].k);
    o.push_back(x);
  }
  void grow(int how) {
    mc::step("grow %d", how);
    switch (how) {
    case 0: cas->createIntArrayFS(12000); break;
    case 1: { FeatureStructure t = cas->createFS(tC); std::u16string s(11000, u'q'); t.setStringValue(fh[16], (UChar const*)s.data(), s.size()); break; }
    case 2: { for (int i = 0; i < 40; ++i) { FeatureStructure t = cas->createFS(tC); t.setLongValue(fh[18], -i); } break; }
    case 3: { StringArrayFS a = cas->createStringArrayFS(5200); icu::UnicodeString x("k"); for (int i = 0; i < 5200; ++i) a.set(i, x); break; }
    }
  }
  // fill storage so that it ends r cells before a page boundary
  void prefill(int mode, int r) {
    mc::step("prefill mode %d rest %d", mode, r);
    if (mode == 1) cas->createIntArrayFS(9990 - r);
    if (mode == 2) { FeatureStructure t = cas->createFS(tC); std::u16string s(9998 - r, u'p'); t.setStringValue(fh[16], (UChar const*)s.data(), s.size()); }
    if (mode == 3) { StringArrayFS a = cas->createStringArrayFS(4999 - r); icu::UnicodeString x("k"); for (int i = 0; i < 4999 - r; ++i) a.set(i, x); }
  }
};

// 1: one feature, all values, around storage boundaries
static void single() {
  int f = mc::choose(feats.size()); int kn[] = {2,6,6,6,6,6,6,6,3,3,4,1};
  int mode = mc::choose(4); int r = mode == 0 ? 0 : mc::choose(mode == 1 ? 75 : 6);
  W w; w.prefill(mode, r);
  int t = feats[f].owner; w.create(t); w.create(0);
  int depth = mode == 0 ? 3 : 1;
  for (int d = 0; d < depth; ++d) {
    int who = d == 0 ? 0 : mc::choose(2); if (!approp(w.o[who].type, f)) who = 0;
    int v = mc::choose(kn[feats[f].k]);
    int style = (feats[f].k == STR && d == 0 && mode == 0) ? mc::choose(3) : 0;
    w.write(who, f, val(feats[f].k, v, w.o.size()), style); w.verify("after write");
  }
  if (mode) { int n = w.create(1); if (f < 16) { w.write(n, f, val(feats[f].k, 0, w.o.size())); } w.clone(0); w.verify("after growth"); w.clone(n); w.verify("after growth"); }
  mc::cover("single");
}
// 2: histories over two features and several structures
static void history() {
  int f1 = mc::choose(16), f2 = mc::choose(16);
  if (f1 == f2 || f1 > f2) return;
  W w; w.create(1); w.create(0);
  int fs[2] = {f1, f2}; int D = mc::thorough() ? 4 : 3;
  for (int d = 0; d < D; ++d) {
    int op = mc::choose(13);
    int last = w.o.size() - 1;
    if (op < 4) w.write(0, fs[op & 1], val(feats[fs[op & 1]].k, op < 2 ? 0 : 3, w.o.size()));
    else if (op < 6) { int f = fs[op & 1]; int tgt = last; if (!approp(w.o[tgt].type, f)) { if (approp(w.o[1].type, f)) tgt = 1; else return; } w.write(tgt, f, val(feats[f].k, 4, w.o.size())); }
    else if (op == 6) w.clone(0);
    else if (op == 7) w.clone(last);
    else if (op < 12) w.grow(op - 8);
    else { mc::step("reset"); w.cas->reset(); w.o.clear(); w.create(1); w.create(0); mc::cover("reset"); }
    w.verify("history");
  }
  mc::cover("history");
}
// 3: string copied from one structure to another inside the same CAS
static void alias() {
  int r = mc::choose(40); int len = mc::choose(6); static int lens[] = {0, 1, 2, 5, 9, 30}; int src = mc::choose(2), dst = mc::choose(2);
  W w; int a = w.create(1), b = w.create(1);
  V v; v.null = false; v.s = std::u16string(lens[len], u'm');
  w.write(a, 12, v); w.write(src ? b : a, 7, v);
  w.prefill(2, r + 20);
  mc::step("copy string value between structures");
  UnicodeStringRef sr = w.o[src ? b : a].fs.getStringValue(fh[7]);
  int d = dst ? b : a;
  w.o[d].fs.setStringValue(fh[15], sr); w.o[d].v[15] = v;
  w.verify("alias");
  UnicodeStringRef sr2 = w.o[d].fs.getStringValue(fh[15]);
  w.o[a].fs.setStringValue(fh[15], sr2); w.o[a].v[15] = v;
  w.verify("alias2");
  V ve; ve.null = false; ve.s = u"green"; w.write(a, 8, ve);
  mc::step("copy enumerated value between structures"); w.prefill(2, r % 12);
  UnicodeStringRef sr3 = w.o[a].fs.getStringValue(fh[8]);
  w.o[b].fs.setStringValue(fh[8], sr3); w.o[b].v[8] = ve;
  w.verify("alias3");
  mc::cover("alias");
}
// 4: wrong accessor / wrong feature / wrong value
static void misuse() {
  int t = mc::choose(4), f = mc::choose(feats.size()), acc = mc::choose(16);
  W w; int x = w.create(t); int other = w.create(1); w.create(2); w.create(3);
  for (auto& p : std::map<int, V>(w.o[x].v)) w.write(x, p.first, val(feats[p.first].k, 0, w.o.size()));
  for (auto& p : std::map<int, V>(w.o[other].v)) w.write(other, p.first, val(feats[p.first].k, 3, w.o.size()));
  w.verify("before misuse");
  FeatureStructure& s = w.o[x].fs; Feature h = fh[f];
  bool ok = approp(t, f); Kind k = feats[f].k; bool legal = false;
  static Kind ak[] = {BOOL,BYTE,SHORT,INT,LONG,FLOAT,DOUBLE};
  if (acc < 14) legal = ok && k == ak[acc % 7]; else legal = ok && (k == STR || k == ENUM);
  mc::step("type %d feature %s accessor %d (legal %d)", t, feats[f].name, acc, legal);
  if (legal) { mc::cover("misuse-legal"); return; }
  bool th = throwsUima([&]{
    switch (acc) {
    case 0: s.getBooleanValue(h); break; case 1: s.getByteValue(h); break; case 2: s.getShortValue(h); break; case 3: s.getIntValue(h); break;
    case 4: s.getLongValue(h); break; case 5: s.getFloatValue(h); break; case 6: s.getDoubleValue(h); break;
    case 7: s.setBooleanValue(h, true); break; case 8: s.setByteValue(h, 3); break; case 9: s.setShortValue(h, 3); break; case 10: s.setIntValue(h, 3); break;
    case 11: s.setLongValue(h, 3); break; case 12: s.setFloatValue(h, 3); break; case 13: s.setDoubleValue(h, 3); break;
    case 14: s.getStringValue(h); break; case 15: s.setStringValue(h, icu::UnicodeString("red")); break; } });
  w.verify("after misuse");
  MC_CHECK(th, "access through inappropriate feature or type was not refused");
  mc::cover("misuse");
}
static void misuseRef() {
  int t = mc::choose(4), f = mc::choose(feats.size()), act = mc::choose(8);
  W w; int x = w.create(t); w.create(1); w.create(2); w.create(3);
  for (auto& p : std::map<int, V>(w.o[x].v)) w.write(x, p.first, val(feats[p.first].k, 0, w.o.size()));
  FeatureStructure& s = w.o[x].fs; Feature h = fh[f]; Kind k = feats[f].k; bool isRef = k >= REFA;
  if (act == 0) {
    if (approp(t, f) && isRef) return;
    mc::step("getFSValue type %d %s", t, feats[f].name);
    MC_CHECK(throwsUima([&]{ s.getFSValue(h); }), "getFSValue of non-reference or inappropriate feature %s of type %d not refused", feats[f].name, t);
  } else if (act < 5) {
    int r = act - 1; bool legal = approp(t, f) && isRef && k != ARR && w.refOk(f, r); if (legal) return;
    mc::step("setFSValue type %d %s to fs%d", t, feats[f].name, r);
    MC_CHECK(throwsUima([&]{ s.setFSValue(h, w.o[r].fs); }), "setFSValue with wrong type or feature not refused");
  } else if (act == 7) {
    mc::step("setFSValue type %d %s to no structure", t, feats[f].name);
    FeatureStructure none; if (!approp(t, f) || !isRef) return;
    MC_CHECK(throwsUima([&]{ s.setFSValue(h, none); }), "setFSValue with invalid structure not refused");
  } else if (act == 5) {
    mc::step("string outside the allowed set");
    if (k != ENUM || !approp(t, f)) return;
    MC_CHECK(throwsUima([&]{ s.setStringValue(h, icu::UnicodeString("blue")); }), "value outside enumeration accepted");
    MC_CHECK(throwsUima([&]{ s.setStringValue(h, icu::UnicodeString("re")); }), "value outside enumeration accepted");
    MC_CHECK(throwsUima([&]{ s.setStringValue(h, icu::UnicodeString("redd")); }), "value outside enumeration accepted");
  } else {
    mc::step("invalid handles");
    Feature inv; FeatureStructure none;
    MC_CHECK(throwsUima([&]{ s.getIntValue(inv); }), "invalid feature handle not refused");
    MC_CHECK(throwsUima([&]{ none.getIntValue(h); }), "invalid structure not refused");
    MC_CHECK(throwsUima([&]{ none.setIntValue(h, 1); }), "invalid structure not refused");
    MC_CHECK(throwsUima([&]{ none.getType(); }), "invalid structure not refused");
  }
  w.verify("after misuseRef"); mc::cover("misuseRef");
}
// 5: clone as another type, then independence
static void cloneAs() {
  int t = mc::choose(4), t2 = mc::choose(4), g = mc::choose(5), setOn = mc::choose(3);
  W w; w.prefill(g == 4 ? 1 : 0, 30); int x = w.create(t); w.create(1);
  for (auto& p : std::map<int, V>(w.o[x].v)) w.write(x, p.first, val(feats[p.first].k, 0, w.o.size()));
  if (setOn == 2) w.clone(x); else w.cloneAs(x, t2);
  w.verify("clone");
  if (g < 4) w.grow(g);
  int tgt = setOn == 1 ? x : (int)w.o.size() - 1;
  for (auto& p : std::map<int, V>(w.o[tgt].v)) { w.write(tgt, p.first, val(feats[p.first].k, 3, w.o.size())); w.verify("independent"); }
  mc::cover("cloneAs");
}
// 6: many structures: every structure keeps its values while many more are made
static void bulk() {
  int n = 20 + 300 * mc::choose(8); int kinds = mc::choose(3);
  W w; for (int i = 0; i < 12; ++i) { int x = w.create(kinds == 2 ? 2 : (i + kinds) % 3); for (auto& p : std::map<int, V>(w.o[x].v)) { int vi = (i + p.first) % 5; w.write(x, p.first, val(feats[p.first].k, vi, w.o.size())); } }
  mc::step("create %d structures with distinct values", n);
  std::vector<FeatureStructure> v; for (int i = 0; i < n; ++i) { FeatureStructure s = w.cas->createFS(tC); s.setIntValue(fh[17], i * 7); s.setLongValue(fh[18], (INT64)i << 33); s.setStringValue(fh[16], icu::UnicodeString("s") + (UChar)(0x30 + i % 50)); v.push_back(s); }
  for (int i = 0; i < n; ++i) { MC_CHECK(v[i].getIntValue(fh[17]) == i * 7 && v[i].getLongValue(fh[18]) == ((INT64)i << 33), "bulk %d", i); UnicodeStringRef r = v[i].getStringValue(fh[16]); MC_CHECK(r.length() == 2 && r.getBuffer()[1] == 0x30 + i % 50, "bulk string %d", i); }
  w.verify("bulk"); mc::cover("bulk");
}
// 7: the iterator over the whole CAS lists every structure in creation order
static void whole() {
  W w; CAS* base = w.cas->getBaseCas(); std::vector<int> want; int D = mc::thorough() ? 4 : 3; std::string st;
  auto seq = [&](CAS* c) { std::vector<int> g; FSIterator it = c->iterator(); int n = 0; while (it.isValid()) { g.push_back((int)internal::FSPromoter::demoteFS(it.get())); it.moveToNext(); MC_CHECK(++n < 60, "endless iteration"); } return g; };
  auto ver = [&](const char* when) { std::vector<int> a = seq(base), b = seq(w.cas); MC_CHECK(a == want && b == want, "%s: the iterator over the CAS lists %zu/%zu structures, expected %zu", when, a.size(), b.size(), want.size()); };
  auto add = [&](FeatureStructure f) { want.push_back((int)internal::FSPromoter::demoteFS(f)); };
  ver("empty");
  for (int d = 0; d < D; ++d) {
    int op = mc::choose(23); int n = (op >= 5 && op < 14) ? (std::vector<int>{0, 1, 3})[mc::choose(3)] : 0; mc::step("op %d size %d", op, n); st += mc::fmt("%d.%d ", op, n); 
    switch (op) {
    case 0: case 1: case 2: case 3: add(w.cas->createFS(typeOf(op))); break;
    case 4: { FeatureStructure f = w.cas->createFS(tC); f.setStringValue(fh[16], U("xyz")); f.setLongValue(fh[18], 1LL << 40); add(f); break; }
    case 5: add(w.cas->createIntArrayFS(n)); break; case 6: add(w.cas->createFloatArrayFS(n)); break; case 7: add(w.cas->createStringArrayFS(n)); break; case 8: add(w.cas->createArrayFS(n)); break;
    case 9: add(w.cas->createByteArrayFS(n)); break; case 10: add(w.cas->createBooleanArrayFS(n)); break; case 11: add(w.cas->createShortArrayFS(n)); break; case 12: { LongArrayFS l = w.cas->createLongArrayFS(n); for (int i = 0; i < n; ++i) l.set(i, -1); add(l); break; }
    case 13: { DoubleArrayFS l = w.cas->createDoubleArrayFS(n); for (int i = 0; i < n; ++i) l.set(i, 1e300); add(l); break; }
    case 14: { IntListFS l = w.cas->createIntListFS(); add(l); break; } case 15: add(w.cas->createListFS()); break;
    case 16: if (w.cas->getSofa().isValid()) break; case 17: { bool had = w.cas->getSofa().isValid(); AnnotationFS a; if (op == 17) { a = w.cas->createAnnotation(ts->getType("uima.tcas.Annotation"), 0, 1); if (!had && w.cas->getSofa().isValid()) add(w.cas->getSofa()); add(a); } else { w.cas->setDocumentText(U("abc")); add(w.cas->getSofa()); add(w.cas->getDocumentAnnotation()); } break; }
    case 18: MC_CHECK(throwsUima([&]{ w.cas->createFS(tIntArr); }), "createFS of an array type"); break;
    case 19: MC_CHECK(throwsUima([&]{ w.cas->createFS(ts->getType("uima.cas.Integer")); }) && throwsUima([&]{ w.cas->createFS(Type()); }), "createFS of a simple type"); break;
    case 20: MC_CHECK(throwsUima([&]{ w.cas->createAnnotation(tA, 0, 1); }), "createAnnotation of another type"); break;
    case 21: if (!want.empty()) { FSIterator it = base->iterator(); FeatureStructure f = it.get(); try { FeatureStructure c = f.clone(); add(c); } catch (Exception&) { } } break;
    case 22: w.cas->reset(); want.clear(); break;
    }
    ver("after op");
  }
  mc::state(st); mc::outcome(st); mc::cover("whole");
}
void mc_body() {
  switch (mc::choose(8)) { case 7: whole(); break; case 0: history(); break; case 1: single(); break; case 2: alias(); break; case 3: misuse(); break; case 4: misuseRef(); break; case 5: cloneAs(); break; case 6: bulk(); break; }
}
int main(int c, char** v) { return mc::run(c, v); }
