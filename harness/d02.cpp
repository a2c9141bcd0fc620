// D02: a description put together from imported files means what it would mean in one piece
#include "uh.hpp"
#include "uima/taespecifierbuilder.hpp"
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <map>
#include <set>
typedef std::string Str; typedef AnalysisEngineDescription AED;
static Str R; // the root of everything, with the directories m, m/s, o, data...
void mc_init() { uhInit(); }
static void setup() { if (!R.empty()) return; R = mc::X().scratch + mc::fmt("/d02-%d", (int)getpid()); for (const char* d : {"", "/m", "/m/s", "/o", "/w", "/data", "/data/descriptors", "/data/specifiers", "/m/\xC3\xA4 \xE2\x82\xAC"}) mkdir((R + d).c_str(), 0755); }
static void clear() { for (const char* d : {"/m", "/m/s", "/o", "/w", "/data", "/data/descriptors", "/data/specifiers", "/m/\xC3\xA4 \xE2\x82\xAC"}) for (const char* f : {"M.xml", "a.xml", "b.xml", "x.xml", "d.xml", "t.xml", "\xC3\xA4\xC3\xB6.xml", "\xE2\x82\xAC long enough \xE2\x82\xAC\xE2\x82\xAC\xE2\x82\xAC.xml"}) unlink((R + d + "/" + f).c_str()); }
static void put(const Str& p, const Str& x) { std::ofstream o(p.c_str(), std::ios::binary); o << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" << x; if (!o.flush()) mc::fail("harness: cannot write %s", p.c_str()); }
static std::vector<Str> parts(const Str& p) { std::vector<Str> v; Str w; for (char c : p + "/") { if (c == '/') { if (!w.empty()) v.push_back(w); w = ""; } else w += c; } return v; }
enum { REL, DOT, DETOUR, ABS, MIXED };
// the location of file "to" as written in file "from" (both absolute)
static Str spell(const Str& from, const Str& to, int how, bool first) {
  if (how == MIXED) how = first ? REL : DOT; if (how == ABS) return to; auto f = parts(from), t = parts(to); f.pop_back(); size_t i = 0; while (i < f.size() && i + 1 < t.size() && f[i] == t[i]) ++i; Str s; for (size_t j = i; j < f.size(); ++j) s += "../"; for (size_t j = i; j < t.size(); ++j) s += t[j] + (j + 1 < t.size() ? "/" : "");
  if (how == DOT) s = "./" + s; if (how == DETOUR) s = "../" + f.back() + "/" + s; return s; }
enum { TYPES, PRIOS, INDEXES, KINDS };
static const char* KN[] = {"types", "priorities", "indexes"};
static Str imports(const std::vector<Str>& v) { if (v.empty()) return ""; Str s; for (auto& x : v) s += "<import location=\"" + x + "\"/>"; return "<imports>" + s + "</imports>"; }
static Str typeX(const Str& n, const Str& f = "") { return "<typeDescription><name>" + n + "</name><description/><supertypeName>uima.tcas.Annotation</supertypeName>" + (f.empty() ? "" : "<features><featureDescription><name>" + f + "</name><description/><rangeTypeName>uima.cas.Integer</rangeTypeName></featureDescription></features>") + "</typeDescription>"; }
static Str own(int k, const Str& id) { switch (k) { case TYPES: return typeX("m.T" + id) + typeX("m.Shared", "f" + id); case PRIOS: return "<priorityList><type>m.P" + id + "</type><type>m.Q" + id + "</type></priorityList>"; default: return "<fsIndexDescription><label>ix" + id + "</label><typeName>uima.tcas.Annotation</typeName><kind>sorted</kind><keys><fsIndexKey><featureName>begin</featureName><comparator>standard</comparator></fsIndexKey></keys></fsIndexDescription>"; } }
static Str part(int k, const Str& im, const Str& o, bool root) { Str ns = root ? " xmlns=\"http://uima.apache.org/resourceSpecifier\"" : ""; switch (k) {
  case TYPES: return "<typeSystemDescription" + ns + ">" + (root ? "<name>n</name>" : "") + im + "<types>" + o + "</types></typeSystemDescription>";
  case PRIOS: return "<typePriorities" + ns + ">" + im + o + "</typePriorities>";
  default: return "<fsIndexCollection" + ns + ">" + im + "<fsIndexes>" + o + "</fsIndexes></fsIndexCollection>"; } }
static Str ae(const Str& name, const Str& body, const Str& delegates, const Str& flow, bool root = true) { return Str("<analysisEngineDescription") + (root ? " xmlns=\"http://uima.apache.org/resourceSpecifier\"" : "") + "><frameworkImplementation>org.apache.uima.cpp</frameworkImplementation><primitive>" + (delegates.empty() ? "true" : "false") + "</primitive>" + (delegates.empty() ? Str("<annotatorImplementationName>none</annotatorImplementationName>") : "<delegateAnalysisEngineSpecifiers>" + delegates + "</delegateAnalysisEngineSpecifiers>") +
  "<analysisEngineMetaData><name>" + name + "</name><description/><version>1</version><vendor/><configurationParameters/><configurationParameterSettings/>" + (flow.empty() ? "" : "<flowConstraints><fixedFlow>" + flow + "</fixedFlow></flowConstraints>") + body + "<capabilities/></analysisEngineMetaData></analysisEngineDescription>"; }
static Str aeBody(int k, const Str& p) { Str ty = "<typeSystemDescription><types>" + typeX("m.Pa") + typeX("m.Qa") + typeX("m.Pb") + typeX("m.Qb") + typeX("m.PM") + typeX("m.QM") + typeX("m.P0") + typeX("m.Q0") + typeX("m.P1") + typeX("m.Q1") + typeX("m.P2") + typeX("m.Q2") + typeX("m.P3") + typeX("m.Q3") + typeX("m.P4") + typeX("m.Q4") + "</types></typeSystemDescription>"; return k == TYPES ? p : k == PRIOS ? ty + p : ty + p; }
// what a description says, as far as the kind is concerned
static Str says(int k, const AED& d) {
  auto* md = d.getAnalysisEngineMetaData(); std::multiset<Str> s; if (k == TYPES) { if (auto* t = md->getTypeSystemDescription()) for (auto* x : t->getTypeDescriptions()) { Str v = toS(x->getName()); std::set<Str> f; for (auto* y : x->getFeatureDescriptions()) f.insert(toS(y->getName())); for (auto& y : f) v += "." + y; s.insert(v); } }
  else if (k == PRIOS) { std::set<Str> u; for (auto* p : md->getTypePriorities()) { Str v; for (auto& t : p->getTypeOrder()) v += toS(t) + "<"; u.insert(v); } s.insert(u.begin(), u.end()); } else for (auto* i : md->getFSIndexDescriptions()) s.insert(toS(i->getLabel()));
  Str r; for (auto& x : s) r += x + " "; return r; }
static Str shouldSay(int k, const std::set<Str>& ids) { std::set<Str> s; Str sh = "m.Shared"; for (auto& i : ids) sh += ".f" + i; for (auto& i : ids) { if (k == TYPES) { s.insert("m.T" + i + ""); s.insert(sh); } else if (k == PRIOS) s.insert("m.P" + i + "<m.Q" + i + "<"); else s.insert("ix" + i); } Str r; for (auto& x : s) r += x + " "; return r; }
// reads the file and compares, then makes a CAS of it
static void readIt(int k, const Str& file, const std::set<Str>& ids, bool cas) {
  AED d; XMLParser p; Str why; try { p.parseAnalysisEngineDescription(d, U(file)); } catch (uima::Exception& e) { why = e.getErrorInfo().getMessage().asString(); if (why.empty()) why = "?"; }
  MC_CHECK(why.empty(), "%s: the description is refused: %s", KN[k], why.c_str()); Str g = says(k, d), w = shouldSay(k, ids); mc::outcome(g); MC_CHECK(g == w, "%s: the description says %s, expected %s", KN[k], g.c_str(), w.c_str());
  if (!cas) return; try { d.validate(); d.commit(); } catch (uima::Exception& e) { mc::fail("%s: not valid: %s", KN[k], e.getErrorInfo().getMessage().asString().c_str()); }
  ErrorInfo e; std::unique_ptr<TypeSystem> ts(Framework::createTypeSystem(*d.getAnalysisEngineMetaData(), e)); MC_CHECK(ts && e.getErrorId() == 0, "%s: no type system: %s", KN[k], e.getMessage().asString().c_str());
  std::unique_ptr<CAS> c(Framework::createCAS(*ts, *d.getAnalysisEngineMetaData(), e)); MC_CHECK(c && e.getErrorId() == 0, "%s: no CAS: %s", KN[k], e.getMessage().asString().c_str());
  for (const char* id : {"M", "a", "b"}) { bool in = ids.count(id); if (k == TYPES) { Type t = ts->getType(U("m.T" + Str(id))); MC_CHECK(t.isValid() == in, "type m.T%s", id); } else if (k == INDEXES) { bool ok = true; try { ok = c->getView(CAS::NAME_DEFAULT_SOFA)->getIndexRepository().getIndex(U("ix" + Str(id))).isValid(); } catch (uima::Exception&) { ok = false; } MC_CHECK(ok == in, "index ix%s is %savailable", id, ok ? "" : "not "); } } }
static const std::vector<std::vector<int>> SUB = {{}, {0}, {1}, {0, 1}, {1, 0}};
// files a and b, importing each other and themselves, read through M
static void graph() {
  setup(); int k = mc::choose(KINDS); const auto& im = mc::pick(SUB); const auto& ia = mc::pick(SUB); const auto& ib = mc::pick(SUB); static const char* PL[] = {"/m", "/m/s", "/o", "/m/\xC3\xA4 \xE2\x82\xAC"}; int pa = mc::choose(3), pb = mc::choose(mc::thorough() ? 3 : 2), how = mc::choose(5), var = mc::choose(mc::thorough() ? 5 : 3);
  // var 0 plain, 1 working directory is that of M, 2 names beyond ASCII, 3 name relative to the working directory, 4 both
  Str an = "a.xml", bn = "b.xml"; if (var == 2 || var == 4) { an = "\xC3\xA4\xC3\xB6.xml"; bn = "\xE2\x82\xAC long enough \xE2\x82\xAC\xE2\x82\xAC\xE2\x82\xAC.xml"; } Str da = PL[pa]; if (var == 2 && pa == 1) da = PL[3]; Str dbb = PL[pb]; Str f[3] = {R + da + "/" + an, R + dbb + "/" + bn, R + "/m/M.xml"};
  auto locs = [&](int from, const std::vector<int>& v) { std::vector<Str> r; for (int t : v) r.push_back(spell(f[from], f[t], how, from == 2 || (from == 0 && t == 1))); return imports(r); };
  clear(); Str xs[3] = {part(k, locs(0, ia), own(k, "a"), true), part(k, locs(1, ib), own(k, "b"), true), ae("M", aeBody(k, part(k, locs(2, im), own(k, "M"), false)), "", "")}; for (int i = 0; i < 3; ++i) put(f[i], xs[i]);
  std::set<Str> ids = {"M"}; std::vector<int> q(im); while (!q.empty()) { int i = q.back(); q.pop_back(); if (!ids.insert(i ? "b" : "a").second) continue; for (int j : i ? ib : ia) q.push_back(j); }
  if (chdir((R + (var == 1 || var == 3 ? "/m" : "/w")).c_str())) mc::fail("harness: chdir"); auto txt = [](const std::vector<int>& v) { Str s; for (int i : v) s += i ? "b" : "a"; return s; };
  mc::step("%s: M imports [%s], a in %s imports [%s], b in %s imports [%s], locations written in way %d, variant %d", KN[k], txt(im).c_str(), da.c_str(), txt(ia).c_str(), dbb.c_str(), txt(ib).c_str(), how, var); mc::state(mc::fmt("%d %s %s %s %d%d %d %d", k, txt(im).c_str(), txt(ia).c_str(), txt(ib).c_str(), pa, pb, how, var));
  readIt(k, var == 3 ? "M.xml" : f[2], ids, mc::thorough() || var == 0); mc::cover(KN[k]); if (ids.size() == 3 && (!ia.empty() && !ib.empty())) mc::cover("cycle"); if (im.size() == 2) mc::cover("diamond"); if (pa != pb) mc::cover("several directories");
}
// the places a file is looked for in
static void places() {
  setup(); int k = mc::choose(KINDS + 1); int set = mc::choose(32), abs = mc::choose(2); Str name = mc::flip() ? "x.xml" : "\xC3\xA4\xC3\xB6.xml"; clear(); static const char* PL[] = {"/w", "/m", "/data", "/data/descriptors", "/data/specifiers"}; int first = -1;
  for (int i = 0; i < 5; ++i) if (set >> i & 1) { if (first < 0) first = i; Str id = mc::fmt("%d", i); put(R + PL[i] + "/" + name, k == KINDS ? ae("D" + id, "", "", "") : part(k, "", own(k, id), true)); }
  Str loc = name; if (abs) { loc = R + PL[1] + "/" + name; first = set >> 1 & 1 ? 1 : -1; } mc::step("%s %s in the places %d, %s", k == KINDS ? "delegate" : KN[k], name.c_str(), set, abs ? "absolute" : "relative"); mc::state(mc::fmt("%d %d %d %s", k, set, abs, name.c_str()));
  put(R + "/m/M.xml", k == KINDS ? ae("M", "", "<delegateAnalysisEngine key=\"K\"><import location=\"" + loc + "\"/></delegateAnalysisEngine>", "<node>K</node>") : ae("M", aeBody(k, part(k, imports({loc}), own(k, "M"), false)), "", ""));
  if (chdir((R + "/w").c_str())) mc::fail("harness: chdir"); ResourceManager::getInstance().setNewLocationData(util::Location((R + "/data").c_str())); AED d; XMLParser p; Str why; try { p.parseAnalysisEngineDescription(d, U(R + "/m/M.xml")); } catch (uima::Exception& e) { why = e.getErrorInfo().getMessage().asString(); if (why.empty()) why = "?"; }
  if (first < 0) { MC_CHECK(!why.empty(), "an import of a file that is nowhere is accepted"); mc::cover("missing"); return; } MC_CHECK(why.empty(), "refused: %s", why.c_str());
  if (k == KINDS) { auto* x = d.getDelegate(U("K")); MC_CHECK(x, "no delegate"); Str n = toS(x->getAnalysisEngineMetaData()->getName()); mc::outcome(n); MC_CHECK(n == mc::fmt("D%d", first), "the delegate is %s, expected D%d", n.c_str(), first); } else { Str g = says(k, d), w = shouldSay(k, {"M", mc::fmt("%d", first)}); mc::outcome(g); MC_CHECK(g == w, "the description says %s, expected %s", g.c_str(), w.c_str()); }
  mc::cover(mc::fmt("found in place %d", first).c_str()); }
static Str tree(const AED& d, const Str& ind = "") { Str s = toS(d.getAnalysisEngineMetaData()->getName()) + "(" + says(TYPES, d) + "|" + says(PRIOS, d) + "|" + says(INDEXES, d) + ")"; std::map<Str, Str> m; for (auto& x : d.getDelegates()) m[toS(x.first)] = tree(*x.second); if (!m.empty()) { s += "{"; for (auto& x : m) s += x.first + "=" + x.second + ","; s += "}"; } return s; }
// an aggregate whose delegate is an aggregate again, each imported, included or written in place, with its own imports
static void delegates() {
  setup(); clear(); static const char* PL[] = {"/m", "/m/s", "/o"}; int pd = mc::choose(3), px = mc::choose(3), pt = mc::choose(3), how = mc::choose(4), md = mc::choose(3), mx = mc::choose(3), tk = mc::choose(4), twice = mc::choose(2); Str f = R + "/m/M.xml", fd = R + PL[pd] + "/d.xml", fx = R + PL[px] + "/x.xml", ft = R + PL[pt] + "/t.xml";
  // tk 0..2: what the innermost imports, 3: nothing; in place = the imports are relative to the enclosing file
  Str at = mx == 2 ? (md == 2 ? f : fd) : fx; auto one = [&](const Str& key, int mode, const Str& from, const Str& file, const Str& x) { Str l = spell(from, file, how, true); return "<delegateAnalysisEngine key=\"" + key + "\">" + (mode == 0 ? "<import location=\"" + l + "\"/>" : mode == 1 ? "<includeFile>" + l + "</includeFile>" : x) + "</delegateAnalysisEngine>"; };
  Str body; if (tk < KINDS) body = part(tk, imports({spell(at, ft, how, true)}), own(tk, "x"), false); Str X = ae("X", tk < KINDS ? body : "", "", "", mx != 2), from = md == 2 ? f : fd;
  Str D = ae("D", part(TYPES, "", own(TYPES, "d"), false), one("X", mx, from, fx, X) + (twice ? one("Y", mx, from, fx, X) : ""), Str("<node>X</node>") + (twice ? "<node>Y</node>" : ""), md != 2), M = ae("M", "", one("D", md, f, fd, D), "<node>D</node>");
  put(f, M); if (md != 2) put(fd, D); if (mx != 2) put(fx, X); if (tk < KINDS) put(ft, part(tk, "", own(tk, "t"), true)); if (chdir((R + "/w").c_str())) mc::fail("harness: chdir");
  mc::step("delegate D in %s by %d, its delegate X in %s by %d%s, %s imported from %s, way %d", PL[pd], md, PL[px], mx, twice ? " twice" : "", tk < KINDS ? KN[tk] : "nothing", PL[pt], how); mc::state(mc::fmt("%d%d%d %d %d%d %d%d", pd, px, pt, how, md, mx, tk, twice));
  Str x = "X("; for (int k = 0; k < KINDS; ++k) x += (k ? "|" : "") + (k == tk ? shouldSay(k, {"x", "t"}) : Str()); x += ")"; Str want = "M(||){D=D(" + shouldSay(TYPES, {"d"}) + "||){X=" + x + "," + (twice ? "Y=" + x + "," : "") + "},}";
  AED d; XMLParser p; Str why; try { p.parseAnalysisEngineDescription(d, U(f)); } catch (uima::Exception& e) { why = e.getErrorInfo().getMessage().asString(); if (why.empty()) why = "?"; } MC_CHECK(why.empty(), "refused: %s", why.c_str()); Str g = tree(d); mc::outcome(g); MC_CHECK(g == want, "read %s, expected %s", g.c_str(), want.c_str()); mc::cover(md == 2 ? "in place" : md ? "included" : "imported"); if (twice) mc::cover("imported twice"); }
static void (*const sc[])() = {places, graph, delegates};
void mc_body() { sc[mc::choose(3)](); }
int main(int c, char** v) { return mc::run(c, v); }
