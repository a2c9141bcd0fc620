// C04: index iterators visit members in key order and navigate consistently
#include "ix.hpp"
#include <algorithm>
#include <limits>
static IxWorld* W; static std::vector<IxWorld*> PW; static std::vector<std::vector<int>> PW_order;
static const char* ptn[] = {"p.A","p.B","p.A1"};   // p.A and p.B are annotations, p.A1 a subtype of p.A
struct KT { const char* range; const char* name; std::vector<std::string> vals; };
static const icu::UnicodeString SUR = icu::UnicodeString((UChar32)0x10400);
static std::vector<KT> kts = {
  {"uima.cas.Integer","i",{"-2147483648","-1","0","1","2147483647"}}, {"uima.cas.Float","f",{"-3e38","-1.5","0","1e-30","3e38"}},
  {"uima.cas.String","s",{"","a","ab","b","\xC3\xA9"}}, {"m.E","e",{"a","ab","b","c"}}, {"uima.cas.Boolean","z",{"0","1"}},
  {"uima.cas.Byte","y",{"-128","-1","0","127"}}, {"uima.cas.Short","h",{"-32768","-1","0","32767"}},
  {"uima.cas.Long","l",{"-9223372036854775808","-1","0","4294967296","9223372036854775807"}}, {"uima.cas.Double","d",{"-1e300","-1.5","0","1e-300","1e300"}} };
static std::vector<std::pair<std::string,std::string>> feats() { std::vector<std::pair<std::string,std::string>> r; for (auto& k : kts) r.push_back({k.name, k.range}); r.push_back({"i2","uima.cas.Integer"}); r.push_back({"s2","uima.cas.String"}); return r; }
void mc_init() {
  uhInit();
  std::vector<IxDef> ix;
  for (auto& k : kts) { ix.push_back({std::string(k.name) + "-up","m.X","sorted",{{k.name,false}}}); ix.push_back({std::string(k.name) + "-down","m.X","sorted",{{k.name,true}}}); }
  for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) { ix.push_back({mc::fmt("is%d%d",a,b),"m.X","sorted",{{"i",(bool)a},{"s",(bool)b}}}); ix.push_back({mc::fmt("dl%d%d",a,b),"m.X","sorted",{{"d",(bool)a},{"l",(bool)b},{"i",false}}}); }
  ix.push_back({"set","m.X","set",{{"i",false}}}); ix.push_back({"rset","m.X","set",{{"i",true}}}); ix.push_back({"bag","m.X","bag",{}});
  W = new IxWorld(enumXML("m.E",{"a","ab","b","c"}) + typeXML("m.X","uima.cas.TOP",feats()) + typeXML("m.Y","m.X") + typeXML("m.Z","m.X"), ix);
  std::string an = typeXML("p.A","uima.tcas.Annotation") + typeXML("p.B","uima.tcas.Annotation",{{"i","uima.cas.Integer"}}) + typeXML("p.A1","p.A",{{"i","uima.cas.Integer"}});
  std::vector<int> perm = {0,1,2};
  do {
    // the full order as one list; and, for a rotation, split over two lists that overlap
    std::vector<std::vector<std::string>> one = {{}}, two = {{},{}};
    for (int p : perm) one[0].push_back(ptn[p]);
    two[0] = {ptn[perm[1]], ptn[perm[2]]}; two[1] = {ptn[perm[0]], ptn[perm[1]]};
    for (auto& pr : {one, two}) { PW.push_back(new IxWorld(an, {{"tp","uima.tcas.Annotation","sorted",{{"",false}}},{"tpr","uima.tcas.Annotation","sorted",{{"begin",true},{"",true}}}}, pr)); PW_order.push_back(perm); }
  } while (std::next_permutation(perm.begin(), perm.end()));
}
static void setV(FeatureStructure f, const std::string& feat, const std::string& v) {
  Feature ft = f.getType().getFeatureByBaseName(U(feat)); char k = feat[0];
  switch (k) { case 'i': f.setIntValue(ft, atoi(v.c_str())); break; case 'f': f.setFloatValue(ft, strtof(v.c_str(), 0)); break; case 's': case 'e': f.setStringValue(ft, U(v)); break;
    case 'z': f.setBooleanValue(ft, v == "1"); break; case 'y': f.setByteValue(ft, atoi(v.c_str())); break; case 'h': f.setShortValue(ft, atoi(v.c_str())); break;
    case 'l': f.setLongValue(ft, strtoll(v.c_str(), 0, 10)); break; case 'd': f.setDoubleValue(ft, strtod(v.c_str(), 0)); break; } }
struct Rec { FeatureStructure fs; std::vector<int> key; };   // key: rank of each key in ascending order of the index
static int cmpKey(const std::vector<int>& a, const std::vector<int>& b) { for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
static std::vector<int> seqOf(FSIndex x, std::vector<Rec>& r, bool ordered, const char* what) {   // one forward iteration, as indexes into r
  std::vector<int> s; 
  for (FSIterator it = x.iterator(); it.isValid(); it.moveToNext()) { int k = -1; for (size_t i = 0; i < r.size(); ++i) if (r[i].fs == it.get()) k = i; MC_CHECK(k >= 0, "%s: a structure that was not added", what); s.push_back(k); MC_CHECK(s.size() <= r.size(), "%s: more structures than added", what); }
  if (ordered) for (size_t i = 1; i < s.size(); ++i) MC_CHECK(cmpKey(r[s[i-1]].key, r[s[i]].key) <= 0, "%s: position %zu is less than position %zu", what, i, i - 1);
  // backwards
  std::vector<int> b; FSIterator it = x.iterator(); for (it.moveToLast(); it.isValid(); it.moveToPrevious()) { MC_CHECK(b.size() < s.size(), "%s: backwards is longer than forwards", what); MC_CHECK(r[s[s.size() - 1 - b.size()]].fs == it.get(), "%s: backwards differs from forwards at %zu from the end", what, b.size()); b.push_back(0); }
  MC_CHECK(b.size() == s.size(), "%s: backwards is shorter than forwards", what);
  return s;
}
// 1: order by one key of each kind
static void oneKey() {
  auto& k = mc::pick(kts); bool down = mc::flip(); int n = mc::choose(mc::thorough() ? 6 : 5); int nt = mc::choose(2);
  CasHolder c(W->cas()); std::vector<Rec> r; Type tt[3] = {W->ts->getType("m.X"),W->ts->getType("m.Y"),W->ts->getType("m.Z")};
  for (int i = 0; i < n; ++i) { int v = mc::choose(k.vals.size()); Rec e; e.fs = c->createFS(tt[nt ? i % 3 : 0]); setV(e.fs, k.name, k.vals[v]); e.key = {down ? -v : v}; c->getIndexRepository().addFS(e.fs); r.push_back(e); mc::step("add %s=%s", k.name, k.vals[v].c_str()); }
  std::string id = std::string(k.name) + (down ? "-down" : "-up");
  auto s = seqOf(c->getIndexRepository().getIndex(U(id)), r, true, id.c_str()); MC_CHECK((int)s.size() == n, "%zu of %d members visited", s.size(), n);
  std::string o = id; for (int x : s) o += mc::fmt(" %d", r[x].key[0]); mc::outcome(o); mc::state(o); mc::cover("oneKey");
}
// 2: several keys
static void multiKey() {
  int a = mc::choose(2), b = mc::choose(2); int n = 2 + mc::choose(mc::thorough() ? 3 : 2); int t = mc::choose(2);
  CasHolder c(W->cas()); std::vector<Rec> r, r2; Type ty = W->ts->getType(t ? "m.Y" : "m.X");
  for (int i = 0; i < n; ++i) { int v = mc::choose(2), w = mc::choose(3); Rec e; e.fs = c->createFS(ty); setV(e.fs, "i", v ? "5" : "-5"); const char* ss[] = {"","k","kk"}; setV(e.fs, "s", ss[w]); 
    setV(e.fs, "d", v ? "2.5" : "-2.5"); const char* ls[] = {"-4294967296","0","4294967297"}; setV(e.fs, "l", ls[w]);
    e.key = {a ? -v : v, b ? -w : w}; c->getIndexRepository().addFS(e.fs); r.push_back(e); mc::step("add (%d,%d)", v, w); }
  auto s = seqOf(c->getIndexRepository().getIndex(U(mc::fmt("is%d%d",a,b))), r, true, "two keys"); MC_CHECK((int)s.size() == n, "members lost");
  for (auto& e : r) e.key.push_back(0); s = seqOf(c->getIndexRepository().getIndex(U(mc::fmt("dl%d%d",a,b))), r, true, "three keys"); MC_CHECK((int)s.size() == n, "members lost");
  mc::cover("multiKey");
}
// 3: text keys: order of code units, shorter first
static void textKey() {
  static std::vector<icu::UnicodeString> v = { U(""), icu::UnicodeString((UChar)0x1), U("A"), U("a"), U("aa"), icu::UnicodeString((UChar)0xD801).append((UChar)0xDC00), icu::UnicodeString((UChar)0xE000), icu::UnicodeString((UChar)0xFFFD) };
  bool down = mc::flip(); CasHolder c(W->cas()); std::vector<Rec> r; Type ty = W->ts->getType("m.X"); Feature f = ty.getFeatureByBaseName("s");
  int n = mc::thorough() ? 4 : 3;
  for (int i = 0; i < n; ++i) { int k = mc::choose(v.size()); Rec e; e.fs = c->createFS(ty); e.fs.setStringValue(f, UnicodeStringRef(v[k])); e.key = {down ? -k : k}; c->getIndexRepository().addFS(e.fs); r.push_back(e); mc::step("add text %d", k); }
  auto s = seqOf(c->getIndexRepository().getIndex(U(down ? "s-down" : "s-up")), r, true, "text key"); MC_CHECK((int)s.size() == n, "members lost"); mc::cover("textKey");
}
// 4: annotation index and type priority
static void annots() {
  int w = mc::choose(PW.size()); IxWorld* P = PW[w]; int rank[3]; for (int i = 0; i < 3; ++i) rank[PW_order[w][i]] = i;
  CasHolder c(P->cas()); CAS* v = c.c; std::vector<Rec> r, rt, rr;
  static const int sp[][2] = {{0,0},{0,2},{0,5},{1,2},{2,2},{2,5}}; int n = mc::thorough() ? 3 : 2; int ns = mc::choose(2) ? 6 : 2; if (ns == 2) n++;
  for (int i = 0; i < n; ++i) { int t = mc::choose(3), p = mc::choose(ns); AnnotationFS a = v->createAnnotation(P->ts->getType(ptn[t]), sp[p][0], sp[p][1]); v->getIndexRepository().addFS(a); mc::step("add %s %d-%d", ptn[t], sp[p][0], sp[p][1]);
    r.push_back({a, {sp[p][0], -sp[p][1], rank[t]}}); rt.push_back({a, {rank[t]}}); rr.push_back({a, {-sp[p][0], rank[t]}}); }
  auto s = seqOf(v->getAnnotationIndex(), r, true, "annotation index"); MC_CHECK((int)s.size() == n, "members lost");
  auto s2 = seqOf(v->getIndexRepository().getIndex(U("tp")), rt, true, "type priority index"); MC_CHECK((int)s2.size() == n, "members lost");
  auto s3 = seqOf(v->getIndexRepository().getIndex(U("tpr")), rr, true, "reverse type priority index"); MC_CHECK((int)s3.size() == n, "members lost");
  int na = 0; for (auto& e : r) if (e.fs.getType() != P->ts->getType("p.B")) ++na;
  auto s4 = seqOf(v->getAnnotationIndex(P->ts->getType("p.A")), r, true, "annotation index of p.A"); MC_CHECK((int)s4.size() == na, "members of a subtype lost");
  std::string o = mc::fmt("%d:", w); for (int x : s) o += mc::fmt(" %d,%d,%d", r[x].key[0], r[x].key[1], r[x].key[2]); mc::outcome(o); mc::state(o); mc::cover("annots");
}
// 5: navigation
static void nav() {
  static const char* ids[] = {"i-up","i-down","set","rset","bag"}; int id = mc::choose(5);
  static const std::vector<std::vector<std::pair<int,int>>> pops = {   // (type, i), in order of addition
    {}, {{0,2}}, {{1,2}}, {{0,2},{0,4}}, {{0,4},{0,2}}, {{0,2},{1,2}}, {{1,4},{0,2},{2,3}}, {{0,2},{0,2},{0,2}}, {{2,1},{2,2},{2,3}}, {{0,2},{1,2},{2,2},{0,4}}, {{0,1},{0,2},{0,2},{0,4},{1,0}} };
  int pi = mc::choose(pops.size()); auto& pop = pops[pi]; int qt = mc::choose(2);
  static const int nn[] = {0,1,0};  (void)nn;
  CasHolder c(W->cas()); Type tt[3] = {W->ts->getType("m.X"),W->ts->getType("m.Y"),W->ts->getType("m.Z")}; Type q = tt[qt ? 2 : 0];
  FSIndexRepository& ir = c->getIndexRepository(); std::vector<Rec> r; bool rev = id == 1 || id == 3;
  for (auto& p : pop) { Rec e; e.fs = c->createFS(tt[p.first]); setV(e.fs, "i", mc::fmt("%d", p.second)); e.key = {rev ? -p.second : p.second}; ir.addFS(e.fs); r.push_back(e); }
  mc::step("index %s, population %d, queried for %s", ids[id], pi, qt ? "m.Z" : "m.X");
  FSIndex x = ir.getIndex(U(ids[id]), q);
  bool ordered = id < 2; std::vector<int> s = seqOf(x, r, ordered, ids[id]); int n = s.size();
  // probes: a member of the sequence or a new structure
  FSIterator it = x.iterator(); int pos = 0; auto norm = [&] { if (pos < 0 || pos >= n) pos = -1; }; norm();
  if (pi < 3 && mc::choose(2)) { FSIterator d; MC_CHECK(!d.isValid(), "a default constructed iterator is valid"); d.moveToNext(); d.moveToPrevious(); d.moveToFirst(); d.moveToLast(); MC_CHECK(!d.isValid(), "a default constructed iterator became valid"); d = it; it = d; }
  int D = mc::thorough() ? 5 : 3;
  bool unk = false;
  for (int d = 0; d <= D; ++d) {
    if (!unk) {
      MC_CHECK(it.isValid() == (pos >= 0), "validity %d, cursor %d of %d", it.isValid(), pos, n);
      if (pos >= 0) { MC_CHECK(it.get() == r[s[pos]].fs, "the iterator is not at position %d", pos);
        FeatureStructure a = it.peekNext(), b = it.peekPrevious();
        MC_CHECK(pos + 1 < n ? a == r[s[pos+1]].fs : !a.isValid(), "peekNext from %d of %d", pos, n);
        MC_CHECK(pos > 0 ? b == r[s[pos-1]].fs : !b.isValid(), "peekPrevious from %d of %d", pos, n);
        MC_CHECK(it.isValid() && it.get() == r[s[pos]].fs, "peeking moved the iterator"); }
      else MC_CHECK(!it.peekNext().isValid() && !it.peekPrevious().isValid(), "peeking an invalid iterator yields something");
    }
    mc::state(mc::fmt("%d.%d.%d.%d", id, pi, qt, pos));
    if (d == D) break;
    int op = mc::choose(6 + n + 4);
    if (op == 0) { mc::step("next"); it.moveToNext(); if (pos >= 0) ++pos; norm(); }
    else if (op == 1) { mc::step("previous"); it.moveToPrevious(); if (pos >= 0) --pos; norm(); }
    else if (op == 2) { mc::step("first"); it.moveToFirst(); pos = 0; norm(); unk = false; }
    else if (op == 3) { mc::step("last"); it.moveToLast(); pos = n - 1; norm(); unk = false; }
    else if (op == 4) { mc::step("copy"); FSIterator j(it); it.moveToFirst(); it = j; j.moveToLast(); }
    else if (op == 5) { mc::step("assign itself, and over another"); it = *&it; FSIterator j = x.iterator(); j.moveToLast(); j = it; it.moveToNext(); it = j; }
    else if (op < 6 + n) { pos = op - 6; mc::step("moveTo member %d", pos); it.moveTo(r[s[pos]].fs); unk = false; }
    else {   // a structure that is not a member
      int v = op - 6 - n + 1; mc::step("moveTo a structure with key %d that is not a member", v);
      FeatureStructure p = c->createFS(q); setV(p, "i", mc::fmt("%d", v)); std::vector<int> key = {rev ? -v : v}; it.moveTo(p);
      if (id == 4) { unk = true; }     // unordered: which member it is moved to is not specified
      else if (ordered) { pos = -1; for (int i = 0; i < n; ++i) if (cmpKey(r[s[i]].key, key) >= 0) { pos = i; break; } unk = false; }
      else { bool eq = false; for (int i = 0; i < n; ++i) if (!cmpKey(r[s[i]].key, key)) eq = true; 
        if (eq) { MC_CHECK(it.isValid(), "moveTo a key the set holds is invalid"); pos = -1; for (int i = 0; i < n; ++i) if (it.get() == r[s[i]].fs) pos = i; MC_CHECK(pos >= 0 && !cmpKey(r[s[pos]].key, key), "moveTo reached another key"); unk = false; } else unk = true; }
      if (unk && it.isValid()) { bool m = false; for (int i = 0; i < n; ++i) if (it.get() == r[s[i]].fs) m = true; MC_CHECK(m, "moveTo reached a structure that is not a member"); }
    }
  }
  mc::cover("nav");
}
void mc_body() { switch (mc::choose(5)) { case 0: oneKey(); break; case 1: multiKey(); break; case 2: textKey(); break; case 3: annots(); break; case 4: nav(); break; } }
int main(int c, char** v) { return mc::run(c, v); }
