// C10: sofa data streams deliver the subject bytes exactly
#include "uh.hpp"
#include "uima/sofastream.hpp"
#include <cstring>
#include <algorithm>
#include <dlfcn.h>
#include <unistd.h>
static TypeSystem* TS; static CAS* C0;
static std::string exeDir() { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b); std::string s(b, n); return s.substr(0, s.rfind('/')); }
void mc_init() { std::string m = "  mem:" + exeDir() + "/libmemstream.so   gone:" + exeDir() + "/libgone.so"; setenv("UIMACPP_STREAMHANDLERS", m.c_str(), 1); uhInit(); dlopen((exeDir() + "/libmemstream.so").c_str(), RTLD_NOW); TS = makeTS(tsXML("")); ErrorInfo e; C0 = Framework::createCAS(*TS, e); }
enum Kind { TEXT, INT, FLT, BOOL, BYTE, SHORT, LONG, DBL, MEM };
struct Src { Kind k; std::string name; std::string text; int n; std::string bytes; int es; };
static std::vector<Src> SRC;
static std::string pat(int n) { std::string s; for (int i = 0; i < n; ++i) s += (char)(0x91 + 7 * i); return s; }
static void sources() {
  for (const char* t : {"", "a", "bcd", "a\xC3\xA9\xE4\xB8\x80\xF0\x9F\x98\x80z"}) SRC.push_back({TEXT, mc::fmt("text of %zu bytes", strlen(t)), t, 0, t, 1});
  static const char* nm[] = {"", "int", "float", "boolean", "byte", "short", "long", "double"}; static const int es[] = {1, 4, 4, 1, 1, 2, 8, 8};
  for (int k = INT; k <= DBL; ++k) for (int n : {0, 1, 3}) SRC.push_back({(Kind)k, mc::fmt("%s array of %d", nm[k], n), "", n, "", es[k]});
  for (int n : {0, 1, 8, 11}) SRC.push_back({MEM, mc::fmt("remote of %d bytes", n), "", n, pat(n), 1});
}
static icu::UnicodeString hexURI(const std::string& b) { std::string s = "mem:"; for (unsigned char c : b) s += mc::fmt("%02x", c); return U(s); }
template<class A, class V> static FeatureStructure fill(A a, std::vector<V> v, std::string& bytes) { for (size_t i = 0; i < v.size() && i < a.size(); ++i) a.set(i, v[i]); for (size_t i = 0; i < a.size(); ++i) bytes.append((const char*)&v[i], sizeof(V)); return a; }
static void setup(CAS* view, Src& s, int how) {
  CAS* b = view->getBaseCas(); FeatureStructure f; std::string& o = s.bytes;
  switch (s.k) {
    case TEXT: { icu::UnicodeString t = U(s.text); if (how == 0) view->setDocumentText(UnicodeStringRef(t)); else view->setSofaDataString(t, U("text/plain")); return; }
    case MEM: view->setSofaDataURI(hexURI(s.bytes), U("x/y")); return;
    case INT: o.clear(); f = fill(view->createIntArrayFS(s.n), std::vector<int>{-2, 0x01020304, 77}, o); break;
    case FLT: o.clear(); f = fill(view->createFloatArrayFS(s.n), std::vector<float>{-0.5f, 3.25e20f, 77}, o); break;
    case BOOL: o.clear(); f = view->createBooleanArrayFS(s.n); { BooleanArrayFS a(f); for (int i = 0; i < s.n; ++i) { a.set(i, i % 2 == 0); o += (char)(i % 2 == 0); } } break;
    case BYTE: o.clear(); f = fill(view->createByteArrayFS(s.n), std::vector<char>{'a', (char)0xF0, 0}, o); break;
    case SHORT: o.clear(); f = fill(view->createShortArrayFS(s.n), std::vector<short>{-2, 0x0102, 77}, o); break;
    case LONG: o.clear(); f = fill(view->createLongArrayFS(s.n), std::vector<INT64>{-2, 0x0102030405060708LL, 77}, o); break;
    case DBL: o.clear(); f = fill(view->createDoubleArrayFS(s.n), std::vector<double>{-0.5, 3.25e200, 77}, o); break;
  }
  (void)b; view->setSofaDataArray(f, U("data"));
}
static void grow(CAS* v) { v->createIntArrayFS(25000); v->createByteArrayFS(25000); v->createShortArrayFS(25000); v->createLongArrayFS(25000); v->createStringArrayFS(3); }
// reads n elements of es bytes, returns what was delivered; -1 is end of data
static int rd(SofaDataStream* s, int es, size_t n, std::string& out, bool& refused) {
  std::vector<char> buf(es * n + 16, (char)0xCC); refused = false; int r = -9;
  try { r = s->read(buf.data() + 8, es, n); } catch (uima::Exception&) { refused = true; r = -9; }
  for (int i = 0; i < 8; ++i) MC_CHECK(buf[i] == (char)0xCC && buf[8 + es * n + i] == (char)0xCC, "read of %zu elements of %d bytes writes outside the buffer", n, es);
  out.clear(); if (r > 0) { MC_CHECK(r <= (int)n, "read of %zu elements reports %d", n, r); out.assign(buf.data() + 8, (size_t)r * es); } return r;
}
static std::string swapped(std::string s, int es) { for (size_t i = 0; i + es <= s.size(); i += es) std::reverse(s.begin() + i, s.begin() + i + es); return s; }
static std::string hex(const std::string& s) { std::string o; for (unsigned char c : s) o += mc::fmt("%02x", c); return o; }
static void rest(SofaDataStream* st, const Src& s, size_t pos, int es) {
  std::string got, o; bool ref; int r; size_t n = 0;
  while ((r = rd(st, es, 1, o, ref)) > 0) { got += o; MC_CHECK(++n < 100, "%s: reading never ends", s.name.c_str()); }
  MC_CHECK(!ref && r == -1, "%s: the end of the data is reported as %d%s", s.name.c_str(), r, ref ? " (refused)" : "");
  std::string want = s.bytes.substr(pos); if (s.k == MEM) want = swapped(want.substr(0, want.size() / es * es), es);
  MC_CHECK(got == want, "%s: from %zu on the stream delivers %s, expected %s", s.name.c_str(), pos, hex(got).c_str(), hex(want).c_str());
  r = rd(st, es, 2, o, ref); MC_CHECK(!ref && r == -1, "%s: a read after the end gives %d", s.name.c_str(), r);
}
static void sizes(SofaDataStream* st, const Src& s, size_t pos) {
  INT64 t = st->getTotalStreamSizeInBytes(), a = st->howManyBytesAvailable();
  MC_CHECK(t == (INT64)s.bytes.size(), "%s: total size is %lld, expected %zu", s.name.c_str(), (long long)t, s.bytes.size());
  MC_CHECK(a == (INT64)(s.bytes.size() - pos), "%s: at %zu %lld bytes are available, expected %zu", s.name.c_str(), pos, (long long)a, s.bytes.size() - pos);
}
static void history() {
  if (SRC.empty()) sources();
  C0->getBaseCas()->reset(); CAS* base = C0->getBaseCas();
  Src s = mc::pick(SRC); int how = mc::choose(2); mc::step("%s", s.name.c_str());
  CAS* view = how ? base->createView(U("V")) : base->getView(U("_InitialView")); setup(view, s, how);
  std::unique_ptr<SofaDataStream> st(how ? view->getSofa().getSofaDataStream() : view->getSofaDataStream()); MC_CHECK(st != nullptr, "%s: no stream", s.name.c_str());
  std::unique_ptr<SofaDataStream> other(view->getSofaDataStream());
  { std::string o; bool ref; int r = rd(st.get(), 1, 1, o, ref); MC_CHECK(ref || r < 0, "%s: a stream that is not open can be read", s.name.c_str()); }
  size_t mb = how ? 3 : 0; MC_CHECK(st->open(mb) == 0 && other->open() == 0, "%s: open fails", s.name.c_str());
  size_t pos = 0, N = s.bytes.size(); sizes(st.get(), s, pos); mc::cover(s.k == TEXT ? "text" : s.k == MEM ? "remote" : "array"); if (!N) mc::cover("empty");
  int depth = mc::thorough() ? 4 : 3; std::string tr;
  for (int d = 0; d < depth; ++d) {
    std::vector<std::pair<int, INT64>> seeks = {{SEEK_SET, 0}, {SEEK_SET, 1}, {SEEK_SET, (INT64)N}, {SEEK_SET, (INT64)N + 1}, {SEEK_SET, -1}, {SEEK_CUR, 0}, {SEEK_CUR, 1}, {SEEK_CUR, -1}, {SEEK_CUR, (INT64)N}, {SEEK_CUR, (INT64)N + 1}, {SEEK_CUR, -(INT64)N - 1}, {SEEK_END, 0}, {SEEK_END, 1}, {SEEK_END, -1}, {SEEK_END, (INT64)N + 1}, {SEEK_END, -(INT64)N - 1}, {SEEK_SET, 1LL << 32}, {99, 0}};
    int op = mc::choose(1 + 7 + (int)seeks.size() + 3); if (op == 0) break; --op;
    if (op < 7) {
      static const int mes[] = {1, 2, 4, 8, 1, 1, 1}; int es = op < 5 ? s.es : 1; if (s.k == MEM) es = mes[op];
      size_t left = N - pos, n = s.k == MEM ? (op == 4 ? 0 : op == 5 ? left : op == 6 ? left + 3 : 1 + (es > 1 && left >= 2u * es)) : std::vector<size_t>{0, 1, 2, left / es, left / es + 3, left, left + 2}[op];
      mc::step("read %zu of %d", n, es); std::string o; bool ref; int r = rd(st.get(), es, n, o, ref);
      size_t full = std::min(n, left / es); bool partial = n > full && left % es; 
      if (op >= 5 && es != s.es && ref) { mc::cover("element size refused"); }        // reading an array byte by byte may be refused: nothing is moved
      else {
        MC_CHECK(!ref, "%s: read of %zu elements of %d bytes is refused", s.name.c_str(), n, es);
        if (n == 0) { MC_CHECK(r == 0 || (left == 0 && r == -1), "%s: a read of nothing gives %d", s.name.c_str(), r); }
        else if (left == 0) { MC_CHECK(r == -1, "%s: a read at the end gives %d", s.name.c_str(), r); mc::cover("end"); }
        else if (!partial) { std::string w = s.bytes.substr(pos, full * es); if (s.k == MEM && es > 1) w = swapped(w, es); MC_CHECK(r == (int)full && o == w, "%s: read of %zu elements of %d bytes at %zu gives %d: %s, expected %zu: %s", s.name.c_str(), n, es, pos, r, hex(o).c_str(), full, hex(w).c_str()); pos += full * es; mc::cover(full < n ? "short read" : "read"); }
        else { std::string w = s.bytes.substr(pos, full * es); if (s.k == MEM && es > 1) w = swapped(w, es); MC_CHECK(o.compare(0, w.size(), w) == 0, "%s: read of %zu elements of %d bytes at %zu", s.name.c_str(), n, es, pos); pos = N - (size_t)st->howManyBytesAvailable(); MC_CHECK(pos <= N, "%s: available bytes", s.name.c_str()); mc::cover("broken element"); }
      }
    } else if (op < 7 + (int)seeks.size()) {
      auto q = seeks[op - 7]; mc::step("seek %lld from %d", (long long)q.second, q.first); int r = -9; bool ref = false; try { r = st->seek(q.second, q.first); } catch (uima::Exception&) { ref = true; }
      bool okk = !ref && r == 0;
      if (q.first == SEEK_END) {       // the sign convention of the two kinds of stream differs: only the distance is claimed
        INT64 dist = q.second < 0 ? -q.second : q.second; if (dist > (INT64)N) MC_CHECK(!okk, "%s: seek to %lld from the end succeeds", s.name.c_str(), (long long)q.second);
        if (okk) pos = N - dist; else MC_CHECK(dist != 0, "%s: seek to the end is refused", s.name.c_str());
        if (dist == 1 && N) { std::unique_ptr<SofaDataStream> p(view->getSofaDataStream()); p->open(); int r2 = -9; try { r2 = p->seek(-q.second, q.first); } catch (uima::Exception&) {} MC_CHECK((r2 == 0) != okk, "%s: seeks before and behind the end are %s", s.name.c_str(), okk ? "accepted" : "refused"); }
      } else {
        INT64 to = q.first == SEEK_SET ? q.second : (INT64)pos + q.second; bool valid = q.first != 99 && to >= 0 && to <= (INT64)N;
        MC_CHECK(okk == valid, "%s: at %zu a seek to %lld from %s is %s", s.name.c_str(), pos, (long long)q.second, q.first == SEEK_SET ? "the start" : q.first == SEEK_CUR ? "here" : "nowhere", okk ? "accepted" : "refused"); if (valid) pos = to;
      }
      mc::cover(okk ? "seek" : "seek refused");
    } else if (op == 7 + (int)seeks.size()) { mc::step("grow"); grow(view); mc::cover("grow"); }
    else if (op == 8 + (int)seeks.size()) { mc::step("reopen"); st->close(); MC_CHECK(s.k == MEM || true, ""); if (s.k == MEM) st.reset(view->getSofaDataStream()); st->open(); pos = 0; mc::cover("reopen"); }
    else { mc::step("data pointer"); const char* p = (const char*)st->getDataPointer(); if (N) MC_CHECK(p && std::string(p, N) == s.bytes, "%s: the data pointer", s.name.c_str()); }
    sizes(st.get(), s, pos); mc::state(mc::fmt("%s@%zu", s.name.c_str(), pos)); tr += mc::fmt("%zu,", pos);
  }
  int es = s.k == MEM ? 1 << mc::choose(3) : s.es;
  if ((N - pos) % es == 0) rest(st.get(), s, pos, es); else { MC_CHECK(st->seek(0, SEEK_SET) == 0, "seek to the start"); if (N % es == 0) rest(st.get(), s, 0, es); }
  rest(other.get(), s, 0, 1 == s.es || s.k == MEM ? 1 : s.es); mc::outcome(s.name + tr);
}
static void refused() {
  C0->getBaseCas()->reset(); CAS* v = C0->getBaseCas()->createView(U("W")); int c = mc::choose(7); mc::cover("refusals"); std::unique_ptr<SofaDataStream> s;
  if (c == 0) { mc::step("no data"); bool ref = false; try { s.reset(v->getSofaDataStream()); ref = s == nullptr || s->open() != 0; } catch (uima::Exception&) { ref = true; } MC_CHECK(ref, "a stream on a view without data"); }
  else if (c <= 3 || c == 5) { static const char* us[] = {"nosuch:00", "noscheme", ":0011", "", "gone:41"}; const char* u = us[c - 1]; mc::step("uri %s", u); v->setSofaDataURI(U(u), U("")); s.reset(v->getSofaDataStream()); MC_CHECK(s && throwsUima([&]{ s->open(); }), "a stream on '%s' is opened", u); MC_CHECK(throwsUima([&]{ char b[4]; s->read(b, 1, 1); }) && throwsUima([&]{ s->seek(0, SEEK_SET); }) && throwsUima([&]{ s->getTotalStreamSizeInBytes(); }) && throwsUima([&]{ s->howManyBytesAvailable(); }), "a stream that could not be opened is used"); }
  else if (c == 4) { mc::step("string array"); StringArrayFS a = v->createStringArrayFS(2); bool ref = false; try { v->setSofaDataArray(a, U("x")); s.reset(v->getSofaDataStream()); ref = s == nullptr || s->open() != 0; } catch (uima::Exception&) { ref = true; } MC_CHECK(ref, "a stream on strings is opened"); }
  else { mc::step("lone surrogate"); UChar t[2] = {0xD800, 'a'}; v->setDocumentText(t, 2, true); s.reset(v->getSofaDataStream()); try { if (s->open() == 0) { char b[20]; MC_CHECK(s->getTotalStreamSizeInBytes() >= 0 && s->read(b, 1, 20) <= 20, "text that has no UTF-8 form"); } } catch (uima::Exception&) {} }
}
void mc_body() { if (mc::choose(2) == 0) history(); else refused(); }
int main(int c, char** v) { return mc::run(c, v); }
