// U02: language codes parse, print and match consistently
#include "uh.hpp"
#include <functional>
void mc_init() { uhInit(); }
struct M { bool valid = false; std::string lang, terr; };
static bool letter(UChar32 c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static M parse(const std::u16string& s) {
  M m; auto low = [](char16_t c) { return (char)(c >= 'A' && c <= 'Z' ? c + 32 : c); }; if (s.empty()) { m.valid = true; return m; }
  if (s.size() != 2 && s.size() != 5) return m; for (size_t i = 0; i < s.size(); ++i) if (i == 2 ? s[i] != '-' && s[i] != '_' : !letter(s[i])) return m;
  m.valid = true; m.lang = {low(s[0]), low(s[1])}; if (s.size() == 5) m.terr = {low(s[3]), low(s[4])}; return m;
}
static std::string canon(const M& m) { return m.terr.empty() ? m.lang : m.lang + "-" + m.terr; }
static std::string hex(const std::u16string& s) { std::string r; for (char16_t c : s) r += c > 32 && c < 127 ? std::string(1, (char)c) : mc::fmt("\\u%04x", c); return r; }
static void same(const Language& l, const M& m, const char* how, const std::u16string& s) {
  ++mc::X().checks; if (l.isValid() != m.valid) mc::fail("'%s' is %s (%s)", hex(s).c_str(), m.valid ? "taken to be invalid" : "accepted", how); if (!m.valid) return;
  if (l.asString() != canon(m) || toS(l.asUnicodeString()) != canon(m)) mc::fail("'%s' is printed as '%s' (%s)", hex(s).c_str(), l.asString().c_str(), how);
  if (m.lang != l.getLanguageCode() || m.terr != l.getTerritoryCode() || l.hasLanguage() != !m.lang.empty() || l.hasTerritory() != !m.terr.empty()) mc::fail("'%s' has language '%s' and territory '%s' (%s)", hex(s).c_str(), l.getLanguageCode(), l.getTerritoryCode(), how);
}
static std::string utf8(const std::u16string& s) { icu::UnicodeString u((const UChar*)s.data(), (int)s.size()); return toS(u); }
static void one(const std::u16string& s, bool full) {
  M m = parse(s); std::string b = utf8(s); icu::UnicodeString u((const UChar*)s.data(), (int)s.size());
  same(Language(u), m, "UnicodeString", s); same(Language(b), m, "std::string", s);
  if (full) { same(Language(UnicodeStringRef(u)), m, "UnicodeStringRef", s); if (b.find('\0') == std::string::npos) same(Language(b.c_str()), m, "char const *", s); Language l("fr-ca"); l.setValue(b); same(l, m, "setValue", s); Language c(l); same(c, m, "copy", s); c = Language("de"); c = l; same(c, m, "assignment", s); }
  if (m.valid) {
    Language l(b); Language n(l.asNumber()); same(n, m, "number", s); if (!(n == l) || n != l || n.asNumber() != l.asNumber()) mc::fail("'%s' does not keep its identity through its number", b.c_str());
    M k = m; k.terr.clear(); same(Language(l.getLanguage()), k, "number of the language", s); if ((l.getLanguage() | l.getTerritory()) != l.asNumber()) mc::fail("the numbers of the parts of '%s' do not make up its number", b.c_str());
  }
}
// every language, territory, separator and letter case
static void codes() {
  int a = mc::choose(26), sep = mc::choose(2), cs = mc::choose(mc::thorough() ? 16 : 4); mc::step("%c*, %s, case %d", 'a' + a, sep ? "_" : "-", cs); if (!mc::thorough()) cs = (cs << 2) | cs;
  auto ch = [&](int i, int k) { return (char16_t)((cs >> k & 1 ? 'A' : 'a') + i); };
  for (int b = 0; b < 26; ++b) { one(std::u16string{ch(a, 0), ch(b, 1)}, true);
    for (char16_t x : {u'a', u'Z', u'-', u' ', u'\0', u'\u4e00'}) for (int k = 1; k < 30; k = k < 4 ? k + 1 : k * 2 + 1) { std::u16string t{ch(a, 0), ch(b, 1), sep ? u'_' : u'-', ch(25 - a, 2), ch(b, 3)}; one(t, true); for (int i = 0; i < k; ++i) t += x; one(t, true); one(t + u"-us", true); } for (int c = 0; c < 26; ++c) for (int d = 0; d < 26; ++d) one(std::u16string{ch(a, 0), ch(b, 1), sep ? u'_' : u'-', ch(c, 2), ch(d, 3)}, false); }
  mc::cover("codes"); mc::outcome(mc::fmt("c%d %d %d", a, sep, cs));
}
// every short text over a boundary alphabet
static void texts() {
  static const std::vector<char16_t> al = {'a', 'z', 'x', 'A', 'Z', '-', '_', '0', '@', '[', '`', '{', '?', 0, 0xe9, 0x165, 0x4e00, 0x2d00, 0x130};
  int a = mc::choose((int)al.size()), b = mc::choose((int)al.size() + 1); mc::step("texts starting with %x, %x", al[a], b ? al[b - 1] : 0); std::u16string p(1, al[a]); one(p, true); if (!b) { mc::cover("one character"); return; } p += al[b - 1]; one(p, true);
  int more = mc::thorough() ? 4 : 3; std::function<void(std::u16string)> go = [&](std::u16string s) { if ((int)s.size() >= 2 + more) return; for (char16_t c : al) { std::u16string t = s + c; one(t, t.size() <= 4 || mc::thorough()); go(t); } }; go(p);
  for (int len : {30, 31, 32, 33, 64, 1000}) { std::u16string t = p; while ((int)t.size() < len) t += u'a'; one(t, true); std::u16string z = p; z.resize(len, 0); one(z, true); }
  mc::cover("texts"); mc::outcome(hex(p));
}
// matching, equality and order of every pair and triple
static void pairs() {
  static const char* L[] = {"", "en", "en-us", "EN_US", "en-gb", "fr", "fr-ca", "ca", "us-en", "us", "ne", "es-mx", "xh", "zz-zz", "aa", "aa-aa"}; const int n = sizeof L / sizeof *L; int a = mc::choose(n), b = mc::choose(n); mc::step("'%s' and '%s'", L[a], L[b]);
  auto m16 = [](const char* s) { std::u16string u; while (*s) u += (char16_t)*s++; return parse(u); }; M ma = m16(L[a]), mb = m16(L[b]); Language x(L[a]), y(L[b]);
  bool eq = canon(ma) == canon(mb), mt = ma.lang.empty() || mb.lang.empty() || (ma.lang == mb.lang && (ma.terr.empty() || mb.terr.empty() || ma.terr == mb.terr));
  MC_CHECK((x == y) == eq && (x != y) == !eq, "equal %d", x == y); MC_CHECK(x.matches(y) == mt, "matching is %d", x.matches(y)); MC_CHECK((x.asNumber() == y.asNumber()) == eq, "numbers"); MC_CHECK((x < y) + (y < x) + (x == y) == 1, "'<' is not an order");
  for (int c = 0; c < n; ++c) { Language z(L[c]); if (x < y && y < z) MC_CHECK(x < z, "'<' is not transitive with '%s'", L[c]); if (x == y) MC_CHECK((x < z) == (y < z) && x.matches(z) == y.matches(z), "equal languages differ from '%s'", L[c]); }
  MC_CHECK(!Language("??").isValid() && !Language(Language::INVALID).isValid() && Language(Language::UNSPECIFIED).isValid() && Language() == Language(""), "special languages"); mc::cover("pairs"); mc::outcome(mc::fmt("%d %d", eq, mt));
}
void mc_body() { switch (mc::choose(3)) { case 0: codes(); break; case 1: texts(); break; default: pairs(); } }
int main(int c, char** v) { return mc::run(c, v); }
