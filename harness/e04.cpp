// E04: configuration parameters resolve by group, language and override rules
#include "engx.hpp"
#include <climits>
#include <map>
#include <set>
#include <optional>
void mc_init() { uhInit(); }
#define CK(c, ...) do { ++mc::X().checks; if (!(c)) mc::fail(__VA_ARGS__); } while (0)
typedef std::string Str; typedef std::map<Str, std::set<Str>> Params; // parameter -> delegates it is restricted to
static const Str NOG = "*"; // asked for without a group
struct Lv { bool grouped = false; Str def; int strat = 0; std::map<Str, Params> groups; Params common, plain; std::map<Str, std::map<Str, Str>> values; Str kind = "integer"; bool multi = false; bool namesTogether = false; };
static Str one(const Str& kind, const Str& v) { return "<" + kind + ">" + v + "</" + kind + ">"; }
static Str typeName(const Str& k) { return k == "integer" ? "Integer" : k == "float" ? "Float" : k == "boolean" ? "Boolean" : "String"; }
static Str paramXML(const Lv& l, const Str& n, const std::set<Str>& r) { Str s = "<configurationParameter><name>" + n + "</name><description/><type>" + typeName(l.kind) + "</type><multiValued>" + (l.multi ? "true" : "false") + "</multiValued><mandatory>false</mandatory>"; if (!r.empty()) { s += "<restrictOverrideTo>"; bool f = true; for (auto& k : r) { s += (f ? "" : " ") + k; f = false; } s += "</restrictOverrideTo>"; } return s + "</configurationParameter>"; }
static Str nvXML(const Lv& l, const std::map<Str, Str>& m) { Str s; for (auto& p : m) s += "<nameValuePair><name>" + p.first + "</name><value>" + (l.multi ? "<array>" + p.second + "</array>" : p.second[0] == '<' ? p.second : one(l.kind, p.second)) + "</value></nameValuePair>"; return s; }
static Str paramsXML(const Lv& l) {
  static const char* ST[] = {"none", "default_fallback", "language_fallback", ""}; Str s = "<configurationParameters"; if (!l.def.empty()) s += " defaultGroup=\"" + l.def + "\""; if (*ST[l.strat]) s += Str(" searchStrategy=\"") + ST[l.strat] + "\""; s += ">";
  for (auto& p : l.plain) s += paramXML(l, p.first, p.second);
  if (!l.common.empty()) { s += "<commonParameters>"; for (auto& p : l.common) s += paramXML(l, p.first, p.second); s += "</commonParameters>"; }
  std::set<Str> done; for (auto& g : l.groups) if (!done.count(g.first)) { Str n = g.first; if (l.namesTogether) for (auto& h : l.groups) if (h.first != g.first && h.second == g.second) { n += " " + h.first; done.insert(h.first); } s += "<configurationGroup names=\"" + n + "\">"; for (auto& p : g.second) s += paramXML(l, p.first, p.second); s += "</configurationGroup>"; }
  return s + "</configurationParameters>";
}
static Str settingsXML(const Lv& l) { Str s = "<configurationParameterSettings>"; for (auto& g : l.values) if (!g.second.empty()) s += g.first == NOG ? nvXML(l, g.second) : "<settingsForGroup name=\"" + g.first + "\">" + nvXML(l, g.second) + "</settingsForGroup>"; return s + "</configurationParameterSettings>"; }
// what the descriptor says
enum { FOUND, UNSET, UNDEF };
struct Got { int r; Str v; bool operator==(const Got& o) const { return r == o.r && (r != FOUND || v == o.v); } Str str() const { return r == FOUND ? "=" + v : r == UNSET ? "unset" : "undefined"; } };
static bool visible(const std::set<Str>& r, const Str& key) { return r.empty() || key.empty() || r.count(key); }
static bool defined(const Lv& l, const Str& g, const Str& p, const Str& key) { // group g, or the common ones
  const Params* m = nullptr; if (!l.grouped) { if (g != NOG) return false; m = &l.plain; } else { auto it = l.groups.find(g); if (it != l.groups.end()) m = &it->second; }
  if (m && m->count(p)) return visible(m->at(p), key); auto c = l.common.find(p); return c != l.common.end() && visible(c->second, key);
}
static Got own(const Lv& l, Str g, const Str& p, int strat, const Str& key) {
  if (!l.grouped) { if (g != NOG) return {UNDEF}; if (!defined(l, g, p, key)) return {UNDEF}; auto v = l.values.find(NOG); if (v != l.values.end() && v->second.count(p)) return {FOUND, v->second.at(p)}; return {UNSET}; }
  if (g == NOG) { if (l.def.empty()) return {UNDEF}; g = l.def; strat = l.strat; }
  std::vector<Str> c = {g}; if (strat == 2) { Str h = g; size_t i; while ((i = h.rfind('-')) != Str::npos) c.push_back(h = h.substr(0, i)); } if ((strat == 1 || strat == 2) && !l.def.empty()) c.push_back(l.def);
  bool def = false; for (auto& h : c) { bool d = defined(l, h, p, key); auto v = l.values.find(h); if (v != l.values.end() && v->second.count(p)) { if (!d) return {UNDEF}; return {FOUND, v->second.at(p)}; } def |= d; }
  return {def ? UNSET : UNDEF};
}
struct Ctx { Lv* l; Ctx* parent; Str key; AnnotatorContext* ac; Str name; };
static Got look(const Ctx& c, const Str& g, const Str& p, int strat, const Str& key) { Got o = own(*c.l, g, p, strat, key); if (o.r == UNDEF || !c.parent) return o; Got u = look(*c.parent, g, p, strat, c.key); return u.r == FOUND ? u : o; }
static Got look(const Ctx& c, const Str& g, const Str& p) { return look(c, g, p, c.l->strat, ""); }
// where an assignment goes: the outermost enclosing aggregate whose parameter overrides this one
static Lv* target(const Ctx& c, const Str& g, const Str& p, const Str& key, Str& at) {
  Str h = g; if (g == NOG && c.l->grouped) h = c.l->def; if (!defined(*c.l, h, p, key)) return nullptr;
  if (c.parent) if (Lv* u = target(*c.parent, g, p, c.key, at)) return u;
  if (c.l->grouped && !c.l->groups.count(h) && (h != c.l->def || h.empty())) return nullptr; at = h; return c.l;
}
static Got real(const AnnotatorContext* ac, const Str& g, const Str& p) {
  int v = -12345; TyErrorId e; try { e = g == NOG ? ac->extractValue(U(p), v) : ac->extractValue(U(g), U(p), v); } catch (uima::Exception&) { CK(v == -12345, "a failing read of %s changed the variable", p.c_str()); return {UNDEF}; }
  if (e == UIMA_ERR_NONE) return {FOUND, std::to_string(v)}; CK(v == -12345, "a failing read of %s changed the variable", p.c_str()); return {e == UIMA_ERR_CONFIG_NAME_VALUE_PAIR_NOT_FOUND ? UNSET : UNDEF};
}
static void parse(AnalysisEngineDescription& d, const Str& body) { Str x = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>" + body; XMLParser p; xercesc::MemBufInputSource is((XMLByte const*)x.data(), x.size(), "sys"); p.parseAnalysisEngineDescription(d, is); d.validate(); d.commit(); }
static Str groupsOf(const Ctx& c, const Str& p) { Str s; std::set<icu::UnicodeString> v = c.ac->getGroupNamesForParameter(U(p)); for (auto& x : v) s += toS(x) + " "; return s; }
static void readAll(std::vector<Ctx>& cs, const std::vector<Str>& gs, const std::vector<Str>& ps) {
  for (auto& c : cs) for (auto& p : ps) {
    for (auto& g : gs) { Got w = look(c, g, p), r = real(c.ac, g, p); CK(w == r, "%s reads %s of group '%s' as %s instead of %s", c.name.c_str(), p.c_str(), g.c_str(), r.str().c_str(), w.str().c_str());
      if (g != NOG && c.l->grouped) CK(c.ac->isParameterDefined(U(g), U(p)) == defined(*c.l, g, p, ""), "%s: isParameterDefined(%s, %s) is wrong", c.name.c_str(), g.c_str(), p.c_str()); }
    Str h = c.l->grouped ? c.l->def : NOG; if (!h.empty()) CK(c.ac->isParameterDefined(U(p)) == defined(*c.l, h, p, ""), "%s: isParameterDefined(%s) is wrong", c.name.c_str(), p.c_str());
    if (c.l->grouped && !c.parent) { Str want; std::set<Str> s; for (auto& g : c.l->groups) if (defined(*c.l, g.first, p, "")) s.insert(g.first); if (!c.l->def.empty() && defined(*c.l, c.l->def, p, "")) s.insert(c.l->def); for (auto& x : s) want += x + " "; CK(groupsOf(c, p) == want, "the groups defining %s are %s instead of %s", p.c_str(), groupsOf(c, p).c_str(), want.c_str()); }
  }
}
static void assign(std::vector<Ctx>& cs, int ci, const Str& g, const Str& p, int v) {
  Ctx& c = cs[ci]; Str at; Lv* t = target(c, g, p, "", at); TyErrorId e; try { e = g == NOG ? c.ac->assignValue(U(p), v) : c.ac->assignValue(U(g), U(p), v); } catch (uima::Exception&) { e = UIMA_ERR_CONFIG_INVALID_PARAM_NAME; }
  mc::step("%s sets %s of group '%s' to %d", c.name.c_str(), p.c_str(), g.c_str(), v); CK((e == UIMA_ERR_NONE) == (t != nullptr), "%s: setting %s of group '%s' %s", c.name.c_str(), p.c_str(), g.c_str(), e == UIMA_ERR_NONE ? "succeeds" : "is refused"); if (t) { t->values[at][p] = std::to_string(v); mc::cover(t == c.l ? "set own" : "set override"); } else mc::cover("set refused");
}
static const std::vector<Str> PS = {"P", "Q"};
// one component with groups
static void noGroups() {
  Lv l; l.strat = mc::choose(4); int k = mc::choose(3); l.plain["Q"]; if (k) l.plain["P"]; if (k == 2) l.values[NOG]["P"] = "5"; if (mc::flip()) l.values[NOG]["Q"] = "6"; ED d; d.name = "one"; d.impl = "none"; d.params = paramsXML(l); d.settings = settingsXML(l); mc::step("%s %s", d.params.c_str(), d.settings.c_str());
  AnalysisEngineDescription ad; parse(ad, edXML(d, true)); AnnotatorContext ac(&ad); std::vector<Ctx> cs = {{&l, nullptr, "", &ac, "the component"}}; static const std::vector<Str> gs = {NOG, "en"}; mc::state(d.params + d.settings); readAll(cs, gs, PS);
  for (int i = 0; i < 2; ++i) { int t = mc::choose(5); if (!t) break; assign(cs, 0, gs[(t - 1) / 2], PS[(t - 1) % 2], 20 + i); readAll(cs, gs, PS); } mc::cover("no groups"); mc::outcome(d.params + d.settings);
}
static void oneLevel() {
  if (mc::flip()) return noGroups();
  Lv l; l.grouped = true; static const Str G[] = {"en", "en-US", "de"}; static const Str D[] = {"", "en", "de", "zz"}; l.def = D[mc::choose(4)]; l.strat = mc::choose(4); int com = mc::choose(2); if (com) l.common["P"]; int n = 0; bool any = com;
  for (auto& g : G) { int k = mc::choose(com ? 3 : 4); if (k == 0) continue; l.groups[g]["Q"]; l.values[g]["Q"] = std::to_string(100 + n); any = true; if (!com && k >= 2) l.groups[g]["P"]; if (k == (com ? 2 : 3)) l.values[g]["P"] = std::to_string(10 + n); ++n; }
  if (!any) return; l.namesTogether = n > 1 && mc::flip();
  ED d; d.name = "one"; d.impl = "none"; d.params = paramsXML(l); d.settings = settingsXML(l); mc::step("%s %s", d.params.c_str(), d.settings.c_str());
  AnalysisEngineDescription ad; parse(ad, edXML(d, true)); AnnotatorContext ac(&ad); std::vector<Ctx> cs = {{&l, nullptr, "", &ac, "the component"}}; static const std::vector<Str> gs = {NOG, "en", "en-US", "en-US-x", "de", "fr", "fr-en", "zz"};
  mc::state(d.params + d.settings); readAll(cs, gs, PS); mc::cover(l.strat == 2 ? "language fallback" : l.strat == 1 ? "default fallback" : "no fallback");
  for (int i = 0; i < (mc::thorough() ? 2 : 1); ++i) { int k = mc::choose((int)gs.size() + 2); if (!k) break; if (k == (int)gs.size() + 1) assign(cs, 0, gs[1], "R", 7); else assign(cs, 0, gs[k - 1], "P", 20 + i); readAll(cs, gs, PS); }
  mc::outcome(d.params + d.settings);
}
static Lv level(int k, int base, const Str& keyA, const Str& keyB) { // 0: undefined; 1..: see below
  Lv l; l.plain["Q"]; l.values[NOG]["Q"] = std::to_string(base + 9); if (k == 0) return l; std::set<Str> r; int q = k - 1;
  if (k >= 17) { l.plain["P"] = {keyA, keyB, "zz"}; if (k == 18) l.values[NOG]["P"] = std::to_string(base); return l; }
  if (q < 6) { if (q / 2 == 1) r = {keyA}; if (q / 2 == 2) r = {keyB}; l.plain["P"] = r; if (q % 2) l.values[NOG]["P"] = std::to_string(base); return l; }
  q -= 6; l = Lv(); l.grouped = true; l.groups["en"]["Q"]; l.groups["de"]["Q"]; l.values["en"]["Q"] = std::to_string(base + 8); l.values["de"]["Q"] = std::to_string(base + 9);
  if (q < 8) { l.def = "en"; l.strat = q % 2 ? 1 : 0; bool restr = q >= 4; if (restr) r = {keyA}; l.groups["en"]["P"] = r; l.groups["de"]["P"] = r; if (q & 2) l.values["en"]["P"] = std::to_string(base + 1); else l.values["de"]["P"] = std::to_string(base + 2); return l; }
  q -= 8; if (q == 0) { l.groups["en"]["P"]; l.values["en"]["P"] = std::to_string(base + 1); return l; }
  l.common["P"]; l.def = "de"; l.values["en"]["P"] = std::to_string(base + 1); return l;
}
static ED prim(const Lv& l, const Str& n) { ED d; d.name = n; d.impl = "none"; d.params = paramsXML(l); d.settings = settingsXML(l); return d; }
static ED aggr(const Lv& l, const Str& n, std::vector<std::pair<Str, ED>> del) { ED d; d.name = n; d.delegates = del; for (auto& x : del) d.flow.push_back(x.first); d.params = paramsXML(l); d.settings = settingsXML(l); return d; }
static void levels() {
  bool th = mc::thorough(), deep = mc::flip(); static const std::vector<int> AQ = {0, 1, 2, 4, 6, 7, 10, 11, 15, 16, 18}, DQ = {0, 1, 2, 9, 10, 15}, D2 = {0, 2};
  int kr = th ? mc::choose(19) : deep ? AQ[mc::choose((int)AQ.size())] : mc::choose(19), km = deep ? (th ? mc::choose(19) : AQ[mc::choose((int)AQ.size())]) : 0, k1 = DQ[mc::choose((int)DQ.size())], k2 = D2[mc::choose(2)];
  Lv r = level(kr, 100, deep ? "m" : "d1", "d2"), m = level(km, 200, "d1", "d2"), a = level(k1, 300, "x", "y"), b = level(k2, 400, "x", "y");
  ED ea = prim(a, "a"), eb = prim(b, "b"), top = deep ? aggr(r, "r", {{"m", aggr(m, "m", {{"d1", ea}, {"d2", eb}})}}) : aggr(r, "r", {{"d1", ea}, {"d2", eb}}); Str x = edXML(top, true); mc::step("root %d, middle %d, delegates %d and %d%s", kr, km, k1, k2, deep ? ", nested" : ""); mc::note("%s", x.c_str());
  AnalysisEngineDescription ad; parse(ad, x); AnnotatorContext ac(&ad); std::vector<Ctx> cs; cs.reserve(4); cs.push_back({&r, nullptr, "", &ac, "the root"}); if (deep) cs.push_back({&m, &cs[0], "m", ac.getDelegate("m"), "the middle"}); Ctx* up = &cs.back(); Ctx c1 = {&a, up, "d1", up->ac->getDelegate("d1"), "delegate 1"}, c2 = {&b, up, "d2", up->ac->getDelegate("d2"), "delegate 2"}; cs.push_back(c1); cs.push_back(c2);
  for (auto& c : cs) CK(c.ac != nullptr, "no context for %s", c.name.c_str()); static const std::vector<Str> gs = {NOG, "en", "de", "en-US"}; mc::state(x); readAll(cs, gs, PS); mc::cover(deep ? "nested override" : "override");
  int n = th && !deep ? 2 : 1; for (int i = 0; i < n; ++i) { int k = mc::choose(1 + 3 * (int)cs.size()); if (!k) break; assign(cs, (k - 1) / 3, gs[(k - 1) % 3], "P", 20 + i); readAll(cs, gs, PS); }
  mc::outcome(x);
}
// types and multiplicities
enum { TB, TI, TF, TS };
struct Val { int t; bool multi; std::vector<bool> b; std::vector<int> i; std::vector<float> f; std::vector<icu::UnicodeString> s; };
static Str show(const Val& v) { Str r = v.multi ? "[" : ""; for (bool x : v.b) r += x ? "T " : "F "; for (int x : v.i) r += std::to_string(x) + " "; for (float x : v.f) r += mc::fmt("%a ", x); for (auto& x : v.s) r += "'" + toS(x) + "' "; return r; }
template<class T, class F> static void rd(const char* what, bool ok, bool set, T init, const T& want, F f) { T o = init; TyErrorId e; try { e = f(o); } catch (uima::Exception&) { e = UIMA_ERR_CONFIG_INVALID_TYPE_FOR_PARAM; } CK((e == UIMA_ERR_NONE) == (ok && set), "reading it as %s %s", what, e == UIMA_ERR_NONE ? "succeeds" : "fails"); if (e == UIMA_ERR_NONE) CK(o == want, "reading it as %s gives another value", what); else { CK(o == init, "a failed read as %s changed the variable", what); if (!set) CK(e == UIMA_ERR_CONFIG_NAME_VALUE_PAIR_NOT_FOUND, "reading an unset parameter gives error %d", (int)e); } }
static void readTypes(AnnotatorContext& ac, const Str& g, const std::optional<Val>& v) {
  bool set = v.has_value(); Val z; z.t = TI; z.multi = false; const Val& w = set ? *v : z; auto P = U("P"), G = U(g); bool gr = g != NOG;
#define RD(T, name, tt, mm, init, want) rd<T>(name, w.t == tt && w.multi == mm, set, init, (w.t == tt && w.multi == mm && set) ? (want) : (init), [&](T& o) { return gr ? ac.extractValue(G, P, o) : ac.extractValue(P, o); })
  RD(bool, "bool", TB, false, false, bool(w.b[0])); RD(bool, "bool", TB, false, true, bool(w.b[0])); RD(int, "int", TI, false, -77, w.i[0]); RD(size_t, "size_t", TI, false, (size_t)77, (size_t)w.i[0]); RD(float, "float", TF, false, -7.25f, w.f[0]); RD(icu::UnicodeString, "string", TS, false, icu::UnicodeString("init"), w.s[0]);
  RD(Str, "UTF-8", TS, false, Str("init"), toS(w.s[0]));
  RD(std::vector<bool>, "bools", TB, true, (std::vector<bool>{true, true, true, false}), w.b); RD(std::vector<int>, "ints", TI, true, (std::vector<int>{-77}), w.i); RD(std::vector<float>, "floats", TF, true, (std::vector<float>{-7.25f}), w.f); RD(std::vector<icu::UnicodeString>, "strings", TS, true, (std::vector<icu::UnicodeString>{"init"}), w.s);
  std::vector<Str*> o; TyErrorId e; try { e = gr ? ac.extractValue(G, P, o) : ac.extractValue(P, o); } catch (uima::Exception&) { e = 1; } bool ok = set && w.t == TS && w.multi; CK((e == UIMA_ERR_NONE) == ok, "reading it as UTF-8 strings %s", ok ? "fails" : "succeeds"); if (ok) { CK(o.size() == w.s.size(), "the number of strings"); for (size_t i = 0; i < o.size(); ++i) CK(*o[i] == toS(w.s[i]), "string %zu", i); } else CK(o.empty(), "a failed read changed the variable"); ac.release(o); CK(o.empty(), "release leaves strings");
}
static const std::vector<int> IV = {0, -1, INT_MAX, INT_MIN, 42}; static const std::vector<float> FV = {0, -1.5f, 3.4e38f, 1.4e-45f, 0.1f}; static const std::vector<icu::UnicodeString> SV = {icu::UnicodeString(""), icu::UnicodeString("a b"), icu::UnicodeString::fromUTF8("\xc3\xa9\xf0\x9f\x98\x80"), icu::UnicodeString(" pad ")};
static void types() {
  Lv l; static const char* K[] = {"boolean", "integer", "float", "string"}; int t = mc::choose(4); l.kind = K[t]; l.multi = mc::flip(); int grouped = mc::choose(3); Str g = NOG; bool set = mc::flip(); std::optional<Val> cur; Str lit;
  if (set) { Val v; v.t = t; v.multi = l.multi; int n = l.multi ? 1 + mc::choose(3) : 1, first = mc::choose(4); for (int i = 0; i < n; ++i) { int k = (first + i) % 4; Str x; switch (t) { case TB: { static const char* B[] = {"true", "false", "true", "false"}; x = B[k]; v.b.push_back(k % 2 == 0); break; } case TI: x = std::to_string(IV[k]); v.i.push_back(IV[k]); break; case TF: { static const char* F[] = {"0", "-1.5", "3.4E38", "0.1"}; x = F[k]; v.f.push_back(strtof(F[k], 0)); break; } default: { static const char* S[] = {"a b", "\xc3\xa9\xf0\x9f\x98\x80", "&lt;&amp;&gt;", ""}; static const char* R[] = {"a b", "\xc3\xa9\xf0\x9f\x98\x80", "<&>", ""}; x = S[k]; v.s.push_back(icu::UnicodeString::fromUTF8(R[k])); } } lit += one(l.kind, x); } cur = v; }
  if (grouped) { l.grouped = true; g = "en"; l.def = "en"; if (grouped == 1) l.groups["en"]["P"]; else { l.groups["en"]; l.common["P"]; } } else l.plain["P"]; if (set) l.values[g]["P"] = lit;
  ED d = prim(l, "t"); mc::step("%s %s", d.params.c_str(), d.settings.c_str()); AnalysisEngineDescription ad; parse(ad, edXML(d, true)); AnnotatorContext ac(&ad); mc::state(d.params + d.settings); Str ask = grouped && mc::flip() ? NOG : g; readTypes(ac, ask, cur);
  for (int step = 0; step < (mc::thorough() ? 2 : 1); ++step) {
    int k = mc::choose(12); Val v; v.multi = k >= 6; int n = v.multi ? mc::choose(3) : 1; int first = n ? mc::choose(4) : 0; auto P = U("P"), G = U(ask); bool gr = ask != NOG; TyErrorId e = 0; auto ix = [&](int i, size_t m) { return (first + i) % m; };
    std::vector<size_t> z; std::vector<double> db; for (int i = 0; i < n; ++i) switch (k % 6) { case 0: v.b.push_back((first + i) % 2); break; case 1: v.i.push_back(IV[ix(i, 5)]); break; case 2: z.push_back((size_t)ix(i, 4) * 3); v.i.push_back((int)ix(i, 4) * 3); break; case 3: v.f.push_back(FV[ix(i, 5)]); break; case 4: db.push_back((double)FV[ix(i, 5)]); v.f.push_back(FV[ix(i, 5)]); break; default: v.s.push_back(SV[ix(i, 4)]); }
    v.t = k % 6 == 0 ? TB : k % 6 <= 2 ? TI : k % 6 <= 4 ? TF : TS;
#define AS(x) e = gr ? ac.assignValue(G, P, x) : ac.assignValue(P, x)
    try { switch (k) { case 0: { bool x = v.b[0]; AS(x); break; } case 1: AS(v.i[0]); break; case 2: AS(z[0]); break; case 3: AS(v.f[0]); break; case 4: AS(db[0]); break; case 5: AS(v.s[0]); break; case 6: AS(v.b); break; case 7: AS(v.i); break; case 8: AS(z); break; case 9: AS(v.f); break; case 10: AS(db); break; default: AS(v.s); } } catch (uima::Exception&) { e = 1; }
    bool ok = v.t == t && v.multi == l.multi; mc::step("assign %s of kind %d", show(v).c_str(), k); CK((e == UIMA_ERR_NONE) == ok, "assigning %s to a %s%s parameter %s", show(v).c_str(), l.kind.c_str(), l.multi ? " array" : "", ok ? "fails" : "succeeds"); if (ok) { cur = v; mc::cover("assigned"); } else mc::cover("type mismatch"); readTypes(ac, ask, cur); readTypes(ac, g, cur);
  }
  mc::outcome(d.params + d.settings + (cur ? show(*cur) : "-"));
}
// a running engine: what the application sets is what the annotators read
struct H : RecHook { std::map<Str, std::vector<Str>> reads; bool make() { return true; } void made(int) {} void gone(int) {} CAS* next(int, const Str&, AnnotatorContext*) { return nullptr; }
  int call(int, const Str& n, const char* cb, AnnotatorContext* c, CAS*, const ResultSpecification*, const TypeSystem*) { if (!strcmp(cb, "initialize") || !strcmp(cb, "process") || !strcmp(cb, "reconfigure")) { mc::Callback k; reads[n].push_back(real(c, NOG, "P").str()); } return 0; } };
static void engine() {
  int kr = mc::choose(7), k1 = mc::choose(3), k2 = mc::choose(3); Lv r = level(kr, 100, "d1", "d2"), a = level(k1, 300, "x", "y"), b = level(k2, 400, "x", "y"); H h; recHook = &h; ED ea = prim(a, "a"), eb = prim(b, "b"); ea.impl = eb.impl = ""; ED top = aggr(r, "r", {{"d1", ea}, {"d2", eb}}); mc::step("engine %d %d %d", kr, k1, k2);
  Eng g(top); g.create(); CK(g.e != nullptr, "the engine is not created"); std::unique_ptr<CAS, void (*)(CAS*)> cas(g.e->newCAS(), [](CAS* c) { delete c->getBaseCas(); }); cas->setDocumentText(icu::UnicodeString("text").getTerminatedBuffer(), 4, true); Ctx cr = {&r, nullptr, "", &g.e->getAnnotatorContext(), "root"}, c1 = {&a, &cr, "d1", nullptr, "a"}, c2 = {&b, &cr, "d2", nullptr, "b"};
  auto want = [&](const char* when) { Str x = look(c1, NOG, "P").str(), y = look(c2, NOG, "P").str(); CK(!h.reads["a"].empty() && h.reads["a"].back() == x, "%s: annotator 1 reads %s instead of %s", when, h.reads["a"].empty() ? "nothing" : h.reads["a"].back().c_str(), x.c_str()); CK(!h.reads["b"].empty() && h.reads["b"].back() == y, "%s: annotator 2 reads %s instead of %s", when, h.reads["b"].empty() ? "nothing" : h.reads["b"].back().c_str(), y.c_str()); h.reads.clear(); };
  want("initialize"); for (int i = 0; i < 2; ++i) { if (mc::flip()) { std::vector<Ctx> v = {cr}; assign(v, 0, NOG, "P", 20 + i); } if (mc::flip()) { g.e->reconfigure(); want("reconfigure"); } g.e->process(*cas); want("process"); }
  mc::cover("engine"); mc::outcome(mc::fmt("e%d%d%d", kr, k1, k2)); cas.reset(); g.drop();
}
void mc_body() { switch (mc::choose(4)) { case 0: oneLevel(); break; case 1: levels(); break; case 2: types(); break; default: engine(); } }
int main(int c, char** v) { return mc::run(c, v); }
