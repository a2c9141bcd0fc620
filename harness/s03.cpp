// S03: binary serialization (vectors, blob, blob of the opposite byte order)
#include "ser.hpp"
#include "uima/internal_casserializer.hpp"
#include "uima/internal_casdeserializer.hpp"
#include "uima/internal_serializedcas.hpp"
using namespace ser; using namespace uima::internal;
void mc_init() { ser::init(); }
static void sw(char* p, int n) { std::reverse(p, p + n); }
// independent re-encoding of a blob in the opposite byte order
static void swapAll(std::vector<char>& b) {
  size_t o = 0; auto u32 = [&](size_t at) { uint32_t x; memcpy(&x, &b[at], 4); return x; };
  auto seg = [&](int w, int align) { size_t n = u32(o); sw(&b[o], 4); o += 4; for (size_t i = 0; i < n; ++i) sw(&b[o + i * w], w); o += (n * w + align - 1) / align * align; };
  sw(&b[0], 4); sw(&b[4], 4); o = 8; seg(4, 4); seg(2, 4); seg(4, 4); seg(4, 4); seg(1, 4); seg(2, 4); seg(8, 4); MC_CHECK(o == b.size(), "the blob has %zu bytes, its parts %zu", b.size(), o);
}
void mc_body() {
  Claims cl; cl.allChars = true; Opt o; o.sofaNum = true;
  // every content in three form/target pairs; small contents in all of them
  int sc = mc::choose(NSCEN), how, tgt; bool all = mc::thorough() || sc == 8 || sc == 9;
  if (all) { how = mc::choose(6); tgt = mc::choose(3); } else { static const int P[3][2] = {{0, 1}, {2, 1}, {3, 0}}; int i = mc::choose(3); how = P[i][0]; tgt = P[i][1]; }
  CAS* src = populate(sc, cl); CasHolder hs(src); std::string want = dump(src, o); mc::state(want); mc::outcome(want);
  CAS* dst = W->cas(); CasHolder hd(dst); if (tgt == 1) dirty(dst); if (tgt == 2) { dirty(dst); dst->getBaseCas()->reset(); } int save = NEXT;
  auto blob = [&](CAS* c) { CASSerializer s(true); size_t n = s.getBlobSize(*c); MC_CHECK(n % 4 == 0 || true, "size"); std::unique_ptr<char[]> p(new char[n]); memset(p.get(), 0x5A, n); size_t g = s.getBlob(*c, p.get(), n); MC_CHECK(g == n && g > 0, "the announced size is %zu, the size %zu", n, g); return std::vector<char>(p.get(), p.get() + g); };
  mc::step("form %d target %d scenario %s", how, tgt, SCEN[sc]);
  CAS* s = !all || mc::flip() ? src : src->getBaseCas(); CAS* d = !all || mc::flip() ? dst : dst->getBaseCas();
  auto read = [&](CAS* d2, CAS* from, int how) {
    if (how < 2) { mc::cover(how ? "vectors without copy" : "vectors"); SerializedCAS sc2; CASSerializer x(how == 0); x.serializeData(*from, sc2); CASDeserializer y; y.deserializeData(sc2, *d2); return; }
    std::vector<char> b = blob(from); bool swapped = how == 3 || how == 5; if (swapped) { swapAll(b); mc::cover("swapped"); } else mc::cover("blob");
    std::unique_ptr<int[]> buf(new int[b.size() / 4 + 1]); memcpy(buf.get(), b.data(), b.size());
    CASDeserializer y; y.deserializeBlob(buf.get(), *d2); if (how >= 4) { y.deserializeBlob(buf.get(), *d2); mc::cover("the same bytes read twice"); } };
  read(d, s, how);
  same(want, dump(dst, o), "read back"); same(want, dump(src, o), "source after writing");
  // again from the copy, into a CAS in yet another state
  { CAS* t = W->cas(); CasHolder ht(t); read(t, d, (how + 2) % 4); same(want, dump(t, o), "written again and read back"); }
  NEXT = save; usable(dst, o); same(want, dump(src, o), "source after using the copy");
}
int main(int c, char** v) { return mc::run(c, v); }
