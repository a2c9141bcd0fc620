// U01: string references compare, search and convert like the text they denote
#include "uh.hpp"
#include "uima/cp2ucnvrt.hpp"
#include "uima/u2cpcnvrt.hpp"
#include "uima/strtools.hpp"
typedef std::u16string S16; typedef UnicodeStringRef R;
void mc_init() { uhInit(); }
static std::string hex(const S16& s) { std::string r = "'"; for (char16_t c : s) r += c > 32 && c < 127 ? std::string(1, (char)c) : mc::fmt("\\u%04x", c); return r + "'"; }
// a text in memory of its own, so that reading outside of it is seen
struct Mem { UChar* p; S16 s; explicit Mem(const S16& t) : p((UChar*)malloc(t.size() * 2 + (t.empty() ? 1 : 0))), s(t) { memcpy((void*)p, t.data(), t.size() * 2); } ~Mem() { free(p); } Mem(const Mem&) = delete; R ref() const { return R(p, (int32_t)s.size()); } };
#define CK(c, ...) do { ++mc::X().checks; if (!(c)) mc::fail(__VA_ARGS__); } while (0)
static void pin(const S16& s, int& st, int& ln) { int n = (int)s.size(); st = std::max(0, std::min(st, n)); ln = std::max(0, std::min(ln, n - st)); }
static S16 sub(const S16& s, int st, int ln) { pin(s, st, ln); return s.substr(st, ln); }
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static int cmp(const S16& a, const S16& b) { size_t n = std::min(a.size(), b.size()); for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return sgn((int)a.size() - (int)b.size()); }
static std::vector<int> cps(const S16& s) { std::vector<int> v; for (size_t i = 0; i < s.size(); ++i) { int c = s[i]; if (c >= 0xd800 && c < 0xdc00 && i + 1 < s.size() && s[i + 1] >= 0xdc00 && s[i + 1] < 0xe000) c = 0x10000 + ((c - 0xd800) << 10) + (s[++i] - 0xdc00); v.push_back(c); } return v; }
static bool wellFormed(const S16& s);
static int cmpCP(const S16& a, const S16& b) { auto x = cps(a), y = cps(b); return x < y ? -1 : y < x; }
static icu::UnicodeString IU(const S16& s) { return icu::UnicodeString((const UChar*)s.data(), (int)s.size()); }
static int find(const S16& s, const S16& t, int st, int ln, bool last) { if (t.empty()) return -1; pin(s, st, ln); int r = -1; for (int i = st; i + (int)t.size() <= st + ln; ++i) if (s.compare(i, t.size(), t) == 0) { r = i; if (!last) break; } return r; }
static const std::vector<char16_t> AL = {'a', 'B', ' ', 0, 0xd83d, 0xde00, 0xff21, 0xe9};
static std::vector<S16> texts(int n) { std::vector<S16> v(1), c(1); for (int i = 0; i < n; ++i) { std::vector<S16> d; for (auto& s : c) for (char16_t x : AL) d.push_back(s + x); v.insert(v.end(), d.begin(), d.end()); c = d; } return v; }
static bool wellFormed(const S16& s) { for (int c : cps(s)) if (c >= 0xd800 && c < 0xe000) return false; return true; }
static std::string utf8(const S16& s) { std::string r; for (int c : cps(s)) { if (c < 0x80) r += (char)c; else if (c < 0x800) { r += (char)(0xc0 | c >> 6); r += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { r += (char)(0xe0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); } else { r += (char)(0xf0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); } } return r; }
static std::vector<int> pos(const S16& s) { std::vector<int> v; for (int i = -2; i <= (int)s.size() + 2; ++i) v.push_back(i); v.push_back(0x7fffffff); return v; }
// two whole texts
static void pair(const Mem& a, const Mem& b, const R& x, const R& y) {
  const S16 &s = a.s, &t = b.s; std::string n = hex(s) + " and " + hex(t); const char* N = n.c_str(); int c = cmp(s, t), cc = cmpCP(s, t); icu::UnicodeString us = IU(s), ut = IU(t);
  CK(bool(x == y) == (c == 0) && bool(x != y) == (c != 0), "%s are taken as %s", N, x == y ? "equal" : "different");
  CK((x < y) == (c < 0) && (x <= y) == (c <= 0) && (x > y) == (c > 0) && (x >= y) == (c >= 0), "the order of %s is wrong", N);
  CK(sgn(x.compare(y)) == c && sgn(x.compare(ut)) == c && sgn(x.compare(y.getBuffer(), y.length())) == c, "comparison of %s gives %d", N, x.compare(y));
  if (wellFormed(s) && wellFormed(t)) CK(sgn(x.compareCodePointOrder(y)) == cc && sgn(x.compareCodePointOrder(y.getBuffer(), y.length())) == cc, "code point comparison of %s gives %d", N, x.compareCodePointOrder(y));
  for (uint32_t o : {0u, (uint32_t)U_FOLD_CASE_EXCLUDE_SPECIAL_I, (uint32_t)U_COMPARE_CODE_POINT_ORDER}) CK(sgn(x.caseCompare(y, o)) == sgn(us.caseCompare(ut, o)), "case comparison of %s gives %d", N, x.caseCompare(y, o));
  bool sw = s.size() >= t.size() && s.compare(0, t.size(), t) == 0, ew = s.size() >= t.size() && s.compare(s.size() - t.size(), t.size(), t) == 0;
  CK(x.startsWith(y) == sw && x.startsWith(y.getBuffer(), y.length()) == sw, "%s: startsWith is %d", N, x.startsWith(y)); CK(x.endsWith(y) == ew && x.endsWith(y.getBuffer(), y.length()) == ew, "%s: endsWith is %d", N, x.endsWith(y));
  CK(x.indexOf(y) == find(s, t, 0, 99, false), "%s: indexOf is %d", N, x.indexOf(y)); CK(x.lastIndexOf(y) == find(s, t, 0, 99, true), "%s: lastIndexOf is %d", N, x.lastIndexOf(y));
}
static void pairs() {
  static std::vector<S16> T3 = texts(3), T2 = texts(2); bool th = mc::thorough(); auto& A = T3; auto& B = th ? T3 : T2; int i = mc::choose((int)A.size()); Mem a(A[i]); mc::step("%s against %zu texts", hex(a.s).c_str(), B.size());
  for (auto& t : B) { Mem b(t); pair(a, b, a.ref(), b.ref()); if (!th) pair(b, a, b.ref(), a.ref()); if (t.empty()) { pair(a, b, a.ref(), R()); pair(b, a, R(), a.ref()); if (a.s.empty()) pair(a, b, R(), R()); } }
  // with themselves and with others of the same start
  Mem b(a.s); pair(a, b, a.ref(), b.ref()); for (char16_t c : AL) { Mem d(a.s + c); pair(a, d, a.ref(), d.ref()); pair(d, a, d.ref(), a.ref()); }
  mc::cover("pairs"); mc::outcome(hex(a.s));
}
// every range of one text against every range of another
static void ranges() {
  static std::vector<S16> T = texts(2), L; if (L.empty()) { L = T; for (const char16_t* p : {u"aba", u"aab", u"abab", u"\xd83d\xde00" u"a", u"\xd83d\xd83d\xde00"}) L.push_back(p); } bool th = mc::thorough();
  Mem a(L[mc::choose((int)L.size())]); Mem b(th ? T[mc::choose((int)T.size())] : T[mc::choose(1 + (int)AL.size())]); const S16 &s = a.s, &t = b.s; R x = a.ref(), y = b.ref(); mc::step("ranges of %s and %s", hex(s).c_str(), hex(t).c_str()); icu::UnicodeString us = IU(s), ut = IU(t);
  for (int st : pos(s)) for (int ln : pos(s)) {
    S16 p = sub(s, st, ln); std::string n = mc::fmt("%s [%d,%d] and %s", hex(s).c_str(), st, ln, hex(t).c_str()); const char* N = n.c_str();
    CK(sgn(x.compare(st, ln, y)) == cmp(p, t), "%s: compare gives %d", N, x.compare(st, ln, y)); if (wellFormed(p) && wellFormed(t)) CK(sgn(x.compareCodePointOrder(st, ln, y)) == cmpCP(p, t), "%s: code point compare gives %d", N, x.compareCodePointOrder(st, ln, y)); CK(sgn(x.caseCompare(st, ln, y, 0)) == sgn(IU(p).caseCompare(ut, 0)), "%s: case compare gives %d", N, x.caseCompare(st, ln, y, 0));
    CK(x.indexOf(y, st, ln) == find(s, t, st, ln, false) && x.indexOf(y.getBuffer(), y.length(), st, ln) == find(s, t, st, ln, false), "%s: indexOf is %d", N, x.indexOf(y, st, ln)); CK(x.lastIndexOf(y, st, ln) == find(s, t, st, ln, true) && x.lastIndexOf(y.getBuffer(), y.length(), st, ln) == find(s, t, st, ln, true), "%s: lastIndexOf is %d", N, x.lastIndexOf(y, st, ln));
    if (t.size() == 1) { CK(x.indexOf((UChar)t[0], st, ln) == find(s, t, st, ln, false) && x.indexOf((UChar32)t[0], st, ln) == find(s, t, st, ln, false), "%s: indexOf is %d", N, x.indexOf((UChar)t[0], st, ln)); CK(x.lastIndexOf((UChar)t[0], st, ln) == find(s, t, st, ln, true) && x.lastIndexOf((UChar32)t[0], st, ln) == find(s, t, st, ln, true), "%s: lastIndexOf is %d", N, x.lastIndexOf((UChar)t[0], st, ln)); }
    else if (cps(t).size() == 1 && !t.empty()) { UChar32 c = cps(t)[0]; CK(x.indexOf(c, st, ln) == find(s, t, st, ln, false) && x.lastIndexOf(c, st, ln) == find(s, t, st, ln, true), "%s: indexOf a supplementary character is %d", N, x.indexOf(c, st, ln)); }
    icu::UnicodeString out("old"); x.extract(st, ln, out); CK(out == IU(p), "%s: extract gives '%s'", N, toS(out).c_str()); Mem d(S16(p.size() + 2, u'#')); x.extract(st, ln, d.p, 1); CK(d.p[0] == '#' && d.p[p.size() + 1] == '#' && memcmp(d.p + 1, p.data(), p.size() * 2) == 0, "%s: extract into a buffer", N);
    if (wellFormed(p)) { std::string o = "old"; int k = x.extract(st, ln, o, "utf-8"); CK(o == utf8(p) && k == (int)o.size(), "%s: extract as UTF-8 gives '%s'", N, o.c_str()); }
    if (st >= 0 && st <= (int)s.size() && ln >= 0 && ln <= (int)s.size() + 2) { icu::UnicodeString o2; x.extractBetween(st, st + ln, o2); CK(o2 == IU(p), "%s: extractBetween", N); CK(sgn(x.compareBetween(st, st + ln, y, 0, y.length())) == cmp(p, t), "%s: compareBetween", N); }
    CK(x.countChar32(st, ln) == (int)cps(p).size(), "%s: %d characters", N, x.countChar32(st, ln));
    if (t.size() <= (th ? 2 : 1) && s.size() <= 2) for (int b0 : pos(t)) for (int bl : pos(t)) { S16 q = sub(t, b0, bl); CK(sgn(x.compare(st, ln, y, b0, bl)) == cmp(p, q), "%s[%d,%d]: compare gives %d", N, b0, bl, x.compare(st, ln, y, b0, bl)); if (wellFormed(p) && wellFormed(q)) CK(sgn(x.compareCodePointOrder(st, ln, y, b0, bl)) == cmpCP(p, q), "%s[%d,%d]: code point compare", N, b0, bl); CK(sgn(x.caseCompare(st, ln, y, b0, bl, 0)) == sgn(IU(p).caseCompare(IU(q), 0)), "%s[%d,%d]: case compare", N, b0, bl); CK(x.indexOf(y, b0, bl, st, ln) == find(s, q, st, ln, false) && x.lastIndexOf(y, b0, bl, st, ln) == find(s, q, st, ln, true), "%s[%d,%d]: indexOf is %d", N, b0, bl, x.indexOf(y, b0, bl, st, ln)); }
  }
  for (int b0 : pos(t)) for (int bl : pos(t)) { S16 q = sub(t, b0, bl); bool sw = s.size() >= q.size() && s.compare(0, q.size(), q) == 0, ew = s.size() >= q.size() && s.compare(s.size() - q.size(), q.size(), q) == 0; CK(x.startsWith(y, b0, bl) == sw && x.endsWith(y, b0, bl) == ew, "%s and %s [%d,%d]: startsWith %d endsWith %d", hex(s).c_str(), hex(t).c_str(), b0, bl, x.startsWith(y, b0, bl), x.endsWith(y, b0, bl)); }
  for (int st : pos(s)) {
    CK(x.indexOf(y, st) == find(s, t, st, 0x7fffffff, false) && x.lastIndexOf(y, st) == find(s, t, st, 0x7fffffff, true), "%s from %d and %s: indexOf is %d, lastIndexOf is %d", hex(s).c_str(), st, hex(t).c_str(), x.indexOf(y, st), x.lastIndexOf(y, st));
    if (t.size() == 1) CK(x.indexOf((UChar)t[0], st) == find(s, t, st, 0x7fffffff, false) && x.lastIndexOf((UChar)t[0], st) == find(s, t, st, 0x7fffffff, true), "%s from %d and %s: indexOf", hex(s).c_str(), st, hex(t).c_str());
    if (t.empty()) {
      CK(x.charAt(st) == us.charAt(st) && x.char32At(st) == us.char32At(st), "%s: character at %d", hex(s).c_str(), st); CK(x.getChar32Start(st) == us.getChar32Start(st) && x.getChar32Limit(st) == us.getChar32Limit(st), "%s: character bounds at %d", hex(s).c_str(), st);
      for (int d = -3; d <= 3; ++d) CK(x.moveIndex32(st, d) == us.moveIndex32(st, d), "%s: moveIndex32(%d,%d)", hex(s).c_str(), st, d);
    }
  }
  mc::cover("ranges"); mc::outcome("r" + hex(s) + hex(t));
}
static void trims() {
  static const std::vector<char16_t> al = {'a', ' ', '\t', ',', ';', 0x3000, 0xa0}; S16 s; int n = mc::choose(mc::thorough() ? 7 : 6); int first = n ? mc::choose((int)al.size()) : 0; mc::step("texts of %d characters", n); std::vector<S16> v(1); for (int i = 0; i < n; ++i) { std::vector<S16> d; for (auto& x : v) for (size_t k = 0; k < al.size(); ++k) if (i || (int)k == first) d.push_back(x + al[k]); v = d; }
  auto trim = [](S16 x) { while (!x.empty() && u_isspace(x.back())) x.pop_back(); while (!x.empty() && u_isspace(x[0])) x.erase(0, 1); return x; };
  for (auto& x : v) {
    Mem a(x); R r = strtrim(a.ref()); CK(S16((const char16_t*)r.getBuffer(), r.length()) == trim(x), "%s is trimmed to %d characters", hex(x).c_str(), r.length());
    std::string b; bool ascii = true; for (char16_t c : x) { ascii &= c < 128; b += (char)c; } if (ascii) { S16 w = trim(x); CK(strtrim(b) == std::string(w.begin(), w.end()), "the string '%s' is trimmed to '%s'", b.c_str(), strtrim(b).c_str()); }
    for (int k = 0; k < 4; ++k) { bool tr = k & 1, em = k & 2; std::vector<S16> w; S16 cur; auto put = [&]() { S16 p = tr ? trim(cur) : cur; if (em || !p.empty()) w.push_back(p); cur.clear(); }; for (char16_t c : x) if (c == ',' || c == ';') put(); else cur += c; if (!cur.empty()) put();
      std::vector<R> o; static const UChar del[] = {',', ';', 0}; int m = delimitedUnicodeStringRef2Vector(o, a.p, (int)x.size(), del, tr, em); bool ok = m == (int)w.size() && o.size() == w.size(); for (size_t i = 0; ok && i < w.size(); ++i) ok = S16((const char16_t*)o[i].getBuffer(), o[i].length()) == w[i]; CK(ok, "%s is split into %d pieces instead of %zu", hex(x).c_str(), m, w.size()); }
  }
  mc::cover("trims"); mc::outcome(mc::fmt("t%d %d", n, first));
}
struct CP { const char* name; bool (*can)(int); };
static bool any(int c) { return c < 0xd800 || c >= 0xe000; } static bool l1(int c) { return c < 256; } static bool asc(int c) { return c < 128; }
static const CP PAGES[] = {{"utf-8", any}, {"iso-8859-1", l1}, {"us-ascii", asc}, {"utf-16be", any}, {"utf-16", any}, {"utf-32le", any}};
static std::string bytes(const S16& s, int p) { std::string r; switch (p) { case 0: return utf8(s); case 1: case 2: for (char16_t c : s) r += (char)c; return r; case 3: for (char16_t c : s) { r += (char)(c >> 8); r += (char)c; } return r; case 5: for (int c : cps(s)) for (int i = 0; i < 4; ++i) r += (char)(c >> 8 * i); return r; default: return "?"; } }
static bool can(const S16& s, int p) { for (int c : cps(s)) if (!PAGES[p].can(c)) return false; return true; }
static void convert() {
  static std::vector<S16> T, P; static const int K[] = {0, 253, 254, 255, 256, 257, 1000}; if (T.empty()) { for (auto& s : texts(2)) { T.push_back(s); } P = {u"", u"\x20ac", u"\xd83d\xde00", u"\xd83d", u"a"}; }
  int p = mc::choose(6), k = K[mc::choose(7)]; bool fill = k ? mc::flip() : false; mc::step("%s after %d characters", PAGES[p].name, k); Unicode2CodePageConverter u(PAGES[p].name); CodePage2UnicodeConverter c(PAGES[p].name);
  for (auto& tail : T) for (auto& before : P) {
    S16 s = S16(k, fill ? (p == 1 || p == 2 ? u'z' : u'\x20ac') : u'a') + tail; Mem a(s); R x = a.ref(); std::string h = mc::fmt("%s after %d", hex(tail).c_str(), k);
    if (!before.empty()) { char junk[16]; try { u.convertFromUnicode(junk, sizeof junk, (const UChar*)before.data(), before.size()); } catch (CodePageConversionException&) {} UChar uj[16]; try { c.convertToUnicode(uj, 16, "\xe2\x82", 2); } catch (CodePageConversionException&) {} mc::cover("after another conversion"); }
    if (p == 0) { std::string o = "old"; int n = x.extractUTF8(o); CK(n == (int)o.size(), "extractUTF8 of %s returns %d", h.c_str(), n); std::ostringstream os; os << x; if (wellFormed(s)) CK(o == utf8(s) && x.asUTF8() == o && os.str() == o, "%s as UTF-8 is '%s'", h.c_str(), o.c_str()); else mc::cover("unpaired surrogate"); }
    if (!can(s, p)) continue;
    std::string want = p == 4 ? "" : bytes(s, p), o = "old"; int n = x.extract(o, PAGES[p].name); if (p == 4) want = o; CK(o == want && n == (int)o.size(), "%s as %s has %zu bytes", h.c_str(), PAGES[p].name, o.size());
    size_t m = u.getMaximumSize(a.p, s.size()); CK(m == want.size(), "the size of %s as %s is given as %zu instead of %zu", h.c_str(), PAGES[p].name, m, want.size());
    std::string b(m, '#'); std::unique_ptr<char[]> exact(new char[m ? m : 1]); size_t w = u.convertFromUnicode(exact.get(), m, a.p, s.size()); CK(w == m && std::string(exact.get(), m) == want, "%s is converted wrongly to %s", h.c_str(), PAGES[p].name);
    std::unique_ptr<char[]> src(new char[m ? m : 1]); memcpy(src.get(), want.data(), m); size_t l = c.getMaximumLength(src.get(), m); CK(l == s.size(), "the length of %s read from %s is given as %zu", h.c_str(), PAGES[p].name, l);
    std::unique_ptr<UChar[]> ub(new UChar[l ? l : 1]); size_t g = c.convertToUnicode(ub.get(), l, src.get(), m); CK(g == l && memcmp(ub.get(), s.data(), l * 2) == 0, "%s is converted wrongly from %s", h.c_str(), PAGES[p].name);
    if (l > 1) { std::unique_ptr<UChar[]> sb(new UChar[l - 1]); size_t e = c.convertToUnicode(sb.get(), l - 1, src.get(), m); CK(e == l, "the size needed is given as %zu", e); }
    if (p == 0 || p == 1) { UErrorCode er = U_ZERO_ERROR; UConverter* cv = ucnv_open(PAGES[p].name, &er); std::unique_ptr<char[]> e2(new char[m + 1]); int q = x.extract(e2.get(), (int)m + 1, cv, er); CK(q == (int)m && !memcmp(e2.get(), want.data(), m), "%s extracted with a converter", h.c_str()); ucnv_close(cv); std::unique_ptr<char[]> e3(new char[m + 1]); q = x.extract(0, x.length(), e3.get(), (uint32_t)m + 1, PAGES[p].name); CK(q == (int)m && !memcmp(e3.get(), want.data(), m), "%s extracted by code page", h.c_str()); }
  }
  if (mc::flip()) { bool ex = false; try { Unicode2CodePageConverter bad("no-such-page"); } catch (CodePageConversionException&) { ex = true; } CK(ex, "an unknown code page is accepted"); ex = false; try { CodePage2UnicodeConverter bad("no-such-page"); } catch (CodePageConversionException&) { ex = true; } CK(ex, "an unknown code page is accepted"); Mem a(u"abc"); std::string o = "old"; a.ref().extract(o, "no-such-page"); CK(o.empty(), "text in an unknown code page"); }
  mc::cover("convert"); mc::outcome(mc::fmt("c%d %d", p, k));
}
void mc_body() { switch (mc::choose(4)) { case 0: pairs(); break; case 1: ranges(); break; case 2: trims(); break; default: convert(); } }
int main(int c, char** v) { return mc::run(c, v); }
