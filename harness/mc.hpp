// Stateless bounded-exhaustive explorer.
// The harness supplies  void mc_body();  it calls mc::choose(n) for every
// nondeterministic choice; the explorer runs it once per choice sequence
// (depth-first, complete).  mc::step() records one operation executed on the
// implementation, mc::check() one comparison with the reference model,
// mc::state() a canonical model state.
#ifndef MC_HPP
#define MC_HPP
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <exception>
#include <functional>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>

void mc_body();
// optional per-process initialisation (defined by each harness)
void mc_init();
// turns a library exception into text; defined by each harness (rethrows inside)
std::string mc_exception_text();

namespace mc {

struct Violation { std::string msg; };
struct Skip {};            // not in this shard
struct Abandon {};         // end of this execution (known finding / infeasible)

struct Shared { volatile uint64_t execs; volatile uint32_t n; volatile uint32_t choice[4096]; };

struct Explorer {
  std::vector<uint32_t> prefix, choices, dom;
  size_t pos = 0;
  bool replay = false, thorough = false, verbose = false;
  unsigned shard = 0, nshards = 1;
  uint64_t idx = 0, prod = 1; bool owned = true, decided = false;
  uint64_t execs = 0, steps = 0, checks = 0;
  std::unordered_set<uint64_t> states, outcomes;
  uint64_t outcome = 1469598103934665603ull;
  std::map<std::string, uint64_t> cover, known;
  std::set<std::string> knownKeys;
  std::string log;
  std::vector<std::string> samples;
  Shared* sh = nullptr;
  int hangSecs = 20;
  // library code may swallow what is thrown through it from a callback: the end of an execution is remembered here
  int inCallback = 0; bool ended = false; std::string pendErr;
  bool logging = false;
  std::string scratch;
  // only filter: first choice fixed
};
inline Explorer& X() { static Explorer x; return x; }

inline uint64_t hash(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}
inline uint64_t hash(const std::string& s, uint64_t h = 1469598103934665603ull) { return hash(s.data(), s.size(), h); }

inline bool thorough() { return X().thorough; }
inline bool logging() { return X().logging; }

inline int choose(int n) {
  Explorer& x = X();
  if (n <= 0) { fprintf(stderr, "mc: choose(%d)\n", n); _exit(96); }
  uint32_t c;
  if (x.ended) { if (x.inCallback) return 0; throw Skip(); }
  if (x.pos < x.prefix.size()) {
    c = x.prefix[x.pos];
    if ((int)c >= n) { fprintf(stderr, "mc: replay diverged: choice %u of %d at %zu\n", c, n, x.pos); _exit(95); }
    if (x.pos < x.dom.size()) {
      if (x.dom[x.pos] != (uint32_t)n) { fprintf(stderr, "mc: nondeterministic harness: domain %u became %d at %zu\n", x.dom[x.pos], n, x.pos); _exit(95); }
    } else x.dom.push_back(n);
  } else { c = 0; x.dom.push_back(n); }
  x.choices.push_back(c);
  if (x.sh && x.pos < 4096) { x.sh->choice[x.pos] = c; x.sh->n = (uint32_t)x.pos + 1; }
  ++x.pos;
  if (!x.decided) {
    x.idx = x.idx * n + c; x.prod *= n;
    if (x.prod >= (uint64_t)x.nshards * 24) {
      x.decided = true;
      // scatter, so that neighbouring (similar cost) subtrees spread over shards
      uint64_t h = x.idx * 0x9E3779B97F4A7C15ull; h ^= h >> 29;
      x.owned = x.replay || (h % x.nshards) == x.shard;
      if (!x.owned) { x.ended = true; if (!x.inCallback) throw Skip(); }
    }
  }
  return (int)c;
}
// while harness code runs inside the library
struct Callback { Callback() { ++X().inCallback; } ~Callback() { --X().inCallback; } };
inline void poll() { Explorer& x = X(); ++x.checks; if (x.ended && !x.inCallback) throw Skip(); }
inline bool flip() { return choose(2) != 0; }
template<class T> inline const T& pick(const std::vector<T>& v) { return v[choose((int)v.size())]; }

inline std::string vfmt(const char* f, va_list ap) {
  char buf[4096]; vsnprintf(buf, sizeof buf, f, ap); return buf;
}
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return s; }

// one operation executed on the implementation
inline void step(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline void step(const char* f, ...) {
  Explorer& x = X(); ++x.steps;
  if (x.logging) {
    va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap);
    x.log += s; x.log += '\n';
    if (x.replay) { fprintf(stderr, "  op: %s\n", s.c_str()); fflush(stderr); }
  }
}
inline void note(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline void note(const char* f, ...) {
  Explorer& x = X();
  if (x.logging) {
    va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap);
    x.log += s; x.log += '\n';
    if (x.replay) { fprintf(stderr, "  -- %s\n", s.c_str()); fflush(stderr); }
  }
}
inline void state(uint64_t h) { X().states.insert(h); }
inline void state(const std::string& s) { X().states.insert(hash(s)); }
inline void outcome(uint64_t h) { X().outcome = hash(&h, sizeof h, X().outcome); }
inline void outcome(const std::string& s) { outcome(hash(s)); }
inline void cover(const std::string& n) { ++X().cover[n]; }

[[noreturn]] inline void fail(const char* f, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] inline void fail(const char* f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); if (X().pendErr.empty()) X().pendErr = s; throw Violation{s}; }
#define MC_CHECK(cond, ...) do { mc::poll(); if (!(cond) && !mc::X().ended) mc::fail(__VA_ARGS__); } while (0)
// a failure identified by key: reported as KNOWN-FINDING if listed, else a violation
[[noreturn]] inline void failKeyed(const std::string& key, const std::string& msg) {
  Explorer& x = X();
  if (x.knownKeys.count(key)) { ++x.known[key]; throw Abandon(); }
  if (x.pendErr.empty()) x.pendErr = "[" + key + "] " + msg;
  throw Violation{"[" + key + "] " + msg};
}
#define MC_CHECK_K(key, cond, ...) do { mc::poll(); if (!(cond) && !mc::X().ended) mc::failKeyed(key, mc::fmt(__VA_ARGS__)); } while (0)

inline std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

inline void onHang(int) {
  static const char m[] = "MC-HANG\n"; (void)!write(2, m, sizeof m - 1); _exit(97);
}
// A blocked execution uses no CPU time: every 15 s of real time, an execution that is still the same one and used
// (nearly) no CPU time counts as idle; four idle periods in a row are a hang.
struct Idle { volatile uint64_t visit, seen; volatile clock_t cpu; volatile int n; };
inline Idle& idle() { static Idle i; return i; }
inline void onTick(int s) {
  Idle& i = idle(); clock_t c = clock();
  if (i.visit == i.seen && c - i.cpu < 250000) { if (++i.n >= 4) onHang(s); }
  else i.n = 0;
  i.seen = i.visit; i.cpu = c;
}
inline void armIdle() {
  idle().n = 0;
  struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = onTick; a.sa_flags = SA_RESTART; sigaction(SIGALRM, &a, nullptr);
  struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = t.it_interval.tv_sec = 15; setitimer(ITIMER_REAL, &t, nullptr);
}
inline void disarmIdle() { struct itimerval t; memset(&t, 0, sizeof t); setitimer(ITIMER_REAL, &t, nullptr); }
inline void arm(int secs) {
  struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = secs; setitimer(ITIMER_PROF, &t, nullptr);
}

// runs the body once with X().prefix; returns violation text or ""
inline bool runOnce(std::string& err, bool& skipped) {
  Explorer& x = X();
  x.pos = 0; x.choices.clear(); x.idx = 0; x.prod = 1; x.decided = false; x.owned = true; x.log.clear(); x.ended = false; x.inCallback = 0; x.pendErr.clear();
  x.outcome = 1469598103934665603ull; skipped = false;
  uint64_t s0 = x.steps, c0 = x.checks;
  bool bad = false;
  try { mc_body(); }
  catch (Skip&) { skipped = true; }
  catch (Abandon&) {}
  catch (Violation& v) { err = v.msg; bad = true; }
  catch (...) { err = "unexpected exception: " + mc_exception_text(); bad = true; }
  if (x.ended) { skipped = true; bad = false; }
  else if (!bad && !x.pendErr.empty()) { err = x.pendErr; bad = true; }
  if (!skipped && !x.decided) {
    uint64_t h = x.idx * 0x9E3779B97F4A7C15ull; h ^= h >> 29;
    if (!x.replay && (h % x.nshards) != x.shard) skipped = true;
  }
  if (skipped) { x.steps = s0; x.checks = c0; return false; }
  x.outcomes.insert(x.outcome);
  return bad;
}

inline int run(int argc, char** argv) {
  Explorer& x = X();
  std::string out, replayStr; uint64_t stopAt = 0;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--shard") { sscanf(argv[++i], "%u/%u", &x.shard, &x.nshards); }
    else if (a == "--out") out = argv[++i];
    else if (a == "--scratch") x.scratch = argv[++i];
    else if (a == "--thorough") x.thorough = true;
    else if (a == "--hang") x.hangSecs = atoi(argv[++i]);
    else if (a == "--known") x.knownKeys.insert(argv[++i]);
    else if (a == "--replay") { x.replay = true; replayStr = argv[++i]; }
    else if (a == "--stop-at") stopAt = strtoull(argv[++i], 0, 10);
    else { fprintf(stderr, "mc: bad arg %s\n", a.c_str()); return 96; }
  }
  signal(SIGPROF, onHang);
  arm(300);
  armIdle();
  mc_init();
  if (x.replay) {
    const char* p = replayStr.c_str();
    while (*p) { char* e; x.prefix.push_back(strtoul(p, &e, 10)); p = (*e == ',') ? e + 1 : e; if (e == p && *p) break; }
    x.logging = true;
    arm(x.hangSecs);
    std::string err; bool sk; bool bad = runOnce(err, sk);
    if (bad) { printf("REPLAY-VIOLATION %s\n", err.c_str()); return 1; }
    printf("REPLAY-OK\n%s", x.log.c_str()); return 0;
  }
  if (!out.empty()) {
    int fd = open((out + ".cur").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(Shared))) { perror("cur"); return 96; }
    x.sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
  }
  std::string vio; std::vector<uint32_t> vioChoices; uint64_t visited = 0;
  for (;;) {
    if ((visited & 63) == 0) arm(x.hangSecs);
    idle().visit = ++visited;
    if (x.sh) { x.sh->execs = visited; x.sh->n = 0; }
    // record two spread samples
    x.logging = (x.execs == 3 || x.execs == 1000) && x.samples.size() < 2;
    std::string err; bool sk; bool bad = runOnce(err, sk);
    if (!sk) {
      ++x.execs;
      if (x.logging && !x.log.empty()) x.samples.push_back(x.log);
    }
    if (bad && !sk) { vio = err; vioChoices = x.choices; break; }
    if (stopAt && visited >= stopAt) break;
    // next choice sequence
    x.dom.resize(x.choices.size());
    std::vector<uint32_t> c = x.choices;
    while (!c.empty() && c.back() + 1 >= x.dom[c.size() - 1]) c.pop_back();
    if (c.empty()) break;
    ++c.back();
    x.dom.resize(c.size());
    x.prefix = c;
  }
  arm(0); disarmIdle();
  if (!out.empty()) {
    FILE* f = fopen((out + ".json").c_str(), "w");
    fprintf(f, "{\"execs\":%llu,\"visited\":%llu,\"steps\":%llu,\"checks\":%llu,\"states\":%zu,\"outcomes\":%zu,\"violation\":%s,\"choices\":[",
            (unsigned long long)x.execs, (unsigned long long)visited, (unsigned long long)x.steps, (unsigned long long)x.checks, x.states.size(), x.outcomes.size(),
            vio.empty() ? "null" : jstr(vio).c_str());
    for (size_t i = 0; i < vioChoices.size(); ++i) fprintf(f, "%s%u", i ? "," : "", vioChoices[i]);
    fprintf(f, "],\"cover\":{");
    bool first = true;
    for (auto& k : x.cover) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(k.first).c_str(), (unsigned long long)k.second); first = false; }
    fprintf(f, "},\"known\":{"); first = true;
    for (auto& k : x.known) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(k.first).c_str(), (unsigned long long)k.second); first = false; }
    fprintf(f, "},\"samples\":["); first = true;
    for (auto& k : x.samples) { fprintf(f, "%s%s", first ? "" : ",", jstr(k).c_str()); first = false; }
    fprintf(f, "]}\n"); fclose(f);
    f = fopen((out + ".states").c_str(), "wb");
    for (uint64_t h : x.states) fwrite(&h, 8, 1, f);
    fclose(f);
    f = fopen((out + ".outcomes").c_str(), "wb");
    for (uint64_t h : x.outcomes) fwrite(&h, 8, 1, f);
    fclose(f);
  } else {
    printf("execs=%llu steps=%llu checks=%llu states=%zu outcomes=%zu %s\n", (unsigned long long)x.execs, (unsigned long long)x.steps, (unsigned long long)x.checks, x.states.size(), x.outcomes.size(), vio.c_str());
    for (auto& k : x.cover) printf("  cover %s %llu\n", k.first.c_str(), (unsigned long long)k.second);
    if (!vio.empty()) { printf("choices "); for (auto c : vioChoices) printf("%u,", c); printf("\n"); }
  }
  fflush(stdout);
  _exit(vio.empty() ? 0 : 1);   // no static destructors: their order is not what is checked
}

} // namespace mc
#endif
