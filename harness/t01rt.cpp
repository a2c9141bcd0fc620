#include "t01rt.hpp"
#include <asm/prctl.h>
#include <cstdarg>
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <locale.h>
#include <ucontext.h>
#include <unistd.h>
#define NI __attribute__((noinline))
namespace rt {
// ---------------------------------------------------------------- fibers
struct Fiber { ucontext_t ctx; unsigned long fs = 0; char* stack = nullptr; bool done = false, blocked = false; const std::function<std::string()>* op = nullptr; std::string result; };
static Fiber F[2]; static ucontext_t mainCtx; static unsigned long mainFs; static const size_t STACK = 16u << 20;
static int cur = -1; static int guards[2]; static bool hooksOn = false;
static unsigned long getFs() { unsigned long v = 0; syscall(SYS_arch_prctl, ARCH_GET_FS, &v); return v; }
static NI void setFs(unsigned long v) { syscall(SYS_arch_prctl, ARCH_SET_FS, v); }
struct Park { volatile unsigned long fs; };
static void* park(void* p) { Park* k = (Park*)p; free(malloc(100)); std::string* s = new std::string(100, 'x'); delete s; void* keep = malloc(64); (void)keep; k->fs = getFs(); __sync_synchronize(); for (;;) { struct timespec t = {1000, 0}; nanosleep(&t, nullptr); } return nullptr; }
static void parkThreads() { if (F[0].fs) return; mainFs = getFs(); for (int i = 0; i < 2; ++i) { static Park p[2]; pthread_t t; pthread_create(&t, nullptr, park, &p[i]); while (!p[i].fs) usleep(100); F[i].fs = p[i].fs; F[i].stack = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); } }
// ---------------------------------------------------------------- what is shared with the forked processes
enum { SETN = 1 << 20 };
struct Shm { uint32_t n; volatile uint64_t schedules, points, events; volatile int bad; char what[6000]; char res[2][1 << 16]; int nres[2]; uint64_t conf; }; static uint64_t* GD; enum { GDN = 1 << 14 };
static Shm* S; struct Tab { uint64_t key[SETN]; uint8_t val[SETN]; }; static Tab* T[2]; static uint64_t* CF; enum { CFN = 1 << 16 };
static void shm() { if (S) return; auto m = [](size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(96); } return p; }; S = (Shm*)m(sizeof(Shm)); T[0] = (Tab*)m(sizeof(Tab)); T[1] = (Tab*)m(sizeof(Tab)); CF = (uint64_t*)m(CFN * 8); GD = (uint64_t*)m(GDN * 8); }
static void say(const char* f, ...) { if (S->bad) return; S->bad = 1; va_list ap; va_start(ap, f); vsnprintf(S->what, sizeof S->what, f, ap); va_end(ap); }
static inline size_t h64(uint64_t k) { k *= 0x9E3779B97F4A7C15ull; return (size_t)(k >> 20); }
// ---------------------------------------------------------------- switching
static void exitChild(int c) { _exit(c); }
static NI void to(int f) { int was = cur; cur = f; setFs(F[f].fs); swapcontext(was < 0 ? &mainCtx : &F[was].ctx, &F[f].ctx); }
static NI void toMain() { int was = cur; cur = -1; setFs(mainFs); swapcontext(&F[was].ctx, &mainCtx); }
static void trampoline(int i) { F[i].result = (*F[i].op)(); F[i].done = true; hooksOn = hooksOn; if (F[1 - i].op && !F[1 - i].done) to(1 - i); else toMain(); abort(); }
static void prepare(int i, const std::function<std::string()>* op) { F[i].op = op; F[i].done = F[i].blocked = false; guards[i] = 0; if (!op) return; getcontext(&F[i].ctx); F[i].ctx.uc_stack.ss_sp = F[i].stack; F[i].ctx.uc_stack.ss_size = STACK; F[i].ctx.uc_link = nullptr; makecontext(&F[i].ctx, (void (*)())trampoline, 1, i); }
static void yieldBlocked() { if (cur < 0) return; int o = 1 - cur; if (!F[o].op || F[o].done || F[o].blocked) { say("deadlock: a thread waits and nobody can release it"); exitChild(3); } F[cur].blocked = true; to(o); F[cur].blocked = false; }
static bool guardKnown(uint64_t a, bool add) { size_t i = h64(a) & (GDN - 1); while (GD[i]) { if (GD[i] == a) return true; i = (i + 1) & (GDN - 1); } if (add) GD[i] = a; return false; }
// ---------------------------------------------------------------- points
enum { OFF, RECORD, SEARCH, LEVEL2, RUN }; static int mode = OFF; static uint64_t pointNo, chunk_, chunks_, maxP; static bool functions_, two_; static int first_; static int lastEvent[3];
static const std::string* expect_; static uint64_t firstPoint, secondPoint; static void* pcFirst; static void* pcSecond; static uint64_t spin;
static std::string sym(void* pc) { Dl_info d; if (pc && dladdr(pc, &d) && d.dli_sname) { int st; char* n = abi::__cxa_demangle(d.dli_sname, 0, 0, &st); std::string s = n ? n : d.dli_sname; free(n); return s; } char b[32]; snprintf(b, sizeof b, "%p", pc); return b; }
static bool conflicting(uint64_t g) { size_t i = h64(g) & (CFN - 1); while (CF[i]) { if (CF[i] == g) return true; i = (i + 1) & (CFN - 1); } return false; }
static NI void verdict() { // both threads have ended
  for (int i = 0; i < 2; ++i) if (F[i].result != expect_[i]) { size_t k = 0; while (k < F[i].result.size() && k < expect_[i].size() && F[i].result[k] == expect_[i][k]) ++k; size_t b = k > 60 ? k - 60 : 0; say("thread %d yields '...%s' instead of '...%s' when thread %d is interrupted in %s (point %llu)%s%s", i + 1, F[i].result.substr(b, 200).c_str(), expect_[i].substr(b, 200).c_str(), first_ + 1, sym(pcFirst).c_str(), (unsigned long long)firstPoint, secondPoint ? " and the other in " : "", secondPoint ? sym(pcSecond).c_str() : ""); return; } }
static void wd() { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = 20; setitimer(ITIMER_PROF, &t, nullptr); signal(SIGPROF, SIG_DFL); }
static NI bool forkAt(uint64_t p, void* pc, int level) { // true in the child
  if (getenv("T01_PTS") && level == 1) fprintf(stderr, "pt %llu %s\n", (unsigned long long)p, sym(pc).c_str()); __sync_fetch_and_add(&S->schedules, 1); pid_t c = (pid_t)syscall(SYS_fork); if (c < 0) { perror("fork"); _exit(96); } if (c == 0) { (level == 1 ? firstPoint : secondPoint) = p; (level == 1 ? pcFirst : pcSecond) = pc; wd(); return true; }
  int st = 0; while (waitpid(c, &st, 0) < 0 && errno == EINTR) {} if (S->bad) _exit(3);
  if (!WIFEXITED(st) || WEXITSTATUS(st)) { (level == 1 ? firstPoint : secondPoint) = p; (level == 1 ? pcFirst : pcSecond) = pc; say("%s %d when thread %d is interrupted in %s (point %llu)%s%s", WIFSIGNALED(st) ? (WTERMSIG(st) == SIGPROF ? "hang, signal" : "crash, signal") : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), first_ + 1, sym(pcFirst).c_str(), (unsigned long long)firstPoint, level == 2 ? " and the other in " : "", level == 2 ? sym(pcSecond).c_str() : ""); _exit(3); } return false; }
static void unwatch();
static NI void point(void* pc, bool conf) {
  if (mode == SEARCH && cur == first_) { uint64_t p = ++pointNo; if (!conf && !functions_) return; if (p % chunks_ != chunk_ || p > maxP) return; mode = OFF; if (forkAt(p, pc, 1)) { pointNo = 0; mode = two_ && conf ? LEVEL2 : RUN; if (mode == RUN) unwatch(); if (!F[1 - first_].done) to(1 - first_); return; } mode = SEARCH; }
  else if (mode == LEVEL2 && cur == 1 - first_ && conf && !F[first_].done) { uint64_t p = ++pointNo; mode = OFF; if (forkAt(p, pc, 2)) { mode = RUN; unwatch(); to(first_); return; } mode = LEVEL2; } }
static inline void access(void* pc, uintptr_t a, size_t n, bool w) {
  if (cur < 0 || mode == OFF || mode == RUN) return; char* st = F[cur].stack; if ((char*)a >= st && (char*)a < st + STACK) return;
  for (uint64_t g = a >> 3, e = (a + (n ? n - 1 : 0)) >> 3; g <= e; ++g) { if (mode == RECORD) { Tab* t = T[cur]; size_t i = h64(g) & (SETN - 1); while (t->key[i] && t->key[i] != g) i = (i + 1) & (SETN - 1); if (!t->key[i]) { t->key[i] = g; } t->val[i] |= w ? 2 : 1; } else if (conflicting(g)) { point(pc, true); return; } } }
static inline void func(void* pc) { if (cur < 0 || mode == OFF || mode == RUN) return; if (mode == SEARCH) point(pc, false); }
// ---------------------------------------------------------------- accesses by code without hooks: the static data of the program is made inaccessible while a thread's accesses are recorded
struct Range { uintptr_t a, b; }; static Range R[64]; static uint64_t hiddenPoints; static int nR; static uintptr_t open_[16]; static int nOpen; static const uintptr_t PG = 4096;
static bool inR(uintptr_t a) { for (int i = 0; i < nR; ++i) if (a >= R[i].a && a < R[i].b) return true; return false; }
static void record(uint64_t g, int bits) { Tab* t = T[cur]; size_t i = h64(g) & (SETN - 1); while (t->key[i] && t->key[i] != g) i = (i + 1) & (SETN - 1); if (!t->key[i]) t->key[i] = g; t->val[i] |= bits; }
static void onSegv(int, siginfo_t* si, void* u) {
  uintptr_t a = (uintptr_t)si->si_addr; ucontext_t* uc = (ucontext_t*)u; if (!inR(a) || nOpen >= 16) { signal(SIGSEGV, SIG_DFL); return; }
  if (cur >= 0) { if (mode == RECORD) { if (!guards[cur]) record(a >> 3, uc->uc_mcontext.gregs[REG_ERR] & 2 ? 8 : 4); } else if ((mode == SEARCH || mode == LEVEL2) && conflicting(a >> 3)) { ++hiddenPoints; point((void*)uc->uc_mcontext.gregs[REG_RIP], true); } }
  if (!nR) return; mprotect((void*)(a & ~(PG - 1)), PG, PROT_READ | PROT_WRITE); open_[nOpen++] = a & ~(PG - 1); uc->uc_mcontext.gregs[REG_EFL] |= 0x100; }
static void onTrap(int, siginfo_t*, void* u) { for (int i = 0; nR && i < nOpen; ++i) mprotect((void*)open_[i], PG, PROT_NONE); nOpen = 0; ((ucontext_t*)u)->uc_mcontext.gregs[REG_EFL] &= ~0x100; }
static void handlers() { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_flags = SA_SIGINFO | SA_NODEFER; sa.sa_sigaction = onSegv; sigaction(SIGSEGV, &sa, nullptr); sa.sa_sigaction = onTrap; sigaction(SIGTRAP, &sa, nullptr); for (int i = 0; i < nR; ++i) mprotect((void*)R[i].a, R[i].b - R[i].a, PROT_NONE); }
static void watch() {
  char exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); if (n < 0) _exit(96); exe[n] = 0; nR = 0; FILE* f = fopen("/proc/self/maps", "r"); char line[8192]; bool own = false; uintptr_t last = 0;
  while (fgets(line, sizeof line, f)) { unsigned long a, b; char p[8]; int k = 0; if (sscanf(line, "%lx-%lx %7s %*s %*s %*s %n", &a, &b, p, &k) < 3) continue; char* nl = strchr(line, '\n'); if (nl) *nl = 0; bool mine = k && !strcmp(line + k, exe), anon = !k || !line[k]; if (p[1] == 'w' && nR < 64 && (mine || (anon && own && a == last))) { R[nR].a = a; R[nR].b = b; ++nR; } own = mine || (anon && own && a == last); last = b; } fclose(f); if (!nR) _exit(96);
  handlers(); }
static void unwatch() { for (int i = 0; i < nR; ++i) mprotect((void*)R[i].a, R[i].b - R[i].a, PROT_READ | PROT_WRITE); nR = 0; signal(SIGSEGV, SIG_DFL); signal(SIGTRAP, SIG_DFL); }
// ---------------------------------------------------------------- interface
static std::string runChild(const std::function<void()>& body) { memset((void*)S, 0, sizeof(Shm)); fflush(stdout); fflush(stderr); pid_t c = (pid_t)syscall(SYS_fork); if (c == 0) { wd(); body(); _exit(0); } int st = 0; while (waitpid(c, &st, 0) < 0 && errno == EINTR) {} if (S->bad) return ""; if (!WIFEXITED(st) || WEXITSTATUS(st)) say("%s %d", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); return ""; }
std::string solo(const std::function<std::string()>& op, int which) { shm(); parkThreads(); memset(T[which], 0, sizeof(Tab)); runChild([&] { prepare(which, &op); prepare(1 - which, nullptr); mode = RECORD; watch(); to(which); mode = OFF; unwatch(); S->nres[which] = (int)F[which].result.size(); if (S->nres[which] > (int)sizeof S->res[0]) { say("harness: result too long"); _exit(3); } memcpy(S->res[which], F[which].result.data(), F[which].result.size()); });
  if (S->bad) return std::string("FAILED ") + S->what; return std::string(S->res[which], S->nres[which]); }
Report explore(const std::function<std::string()> op[2], const std::string expect[2], int first, unsigned chunk, unsigned chunks, bool functions, bool two, uint64_t maxPoints) {
  shm(); parkThreads(); Report r; memset(CF, 0, CFN * 8); nR = 0; uint64_t nc = 0; for (size_t i = 0; i < SETN; ++i) if (uint64_t g = T[0]->key[i]) { size_t j = h64(g) & (SETN - 1); while (T[1]->key[j] && T[1]->key[j] != g) j = (j + 1) & (SETN - 1); if (T[1]->key[j] == g && ((T[0]->val[i] | T[1]->val[j]) & 10)) { ++nc; auto hid = [](int v) { return ((v & 8) && !(v & 2)) || ((v & 4) && !(v & 3)); }; if (hid(T[0]->val[i]) || hid(T[1]->val[j])) { ++r.hidden; uintptr_t pg = (g << 3) & ~(PG - 1); int q = 0; while (q < nR && R[q].a != pg) ++q; if (q == nR && nR < 64) { R[q].a = pg; R[q].b = pg + PG; ++nR; } } if (nc > CFN / 2) continue; size_t k = h64(g) & (CFN - 1); while (CF[k]) k = (k + 1) & (CFN - 1); CF[k] = g; if (getenv("T01_SHOW")) fprintf(stderr, "   shared %p %s %d %d\n", (void*)(g << 3), sym((void*)(g << 3)).c_str(), T[0]->val[i], T[1]->val[j]); } }
  runChild([&] { first_ = first; chunk_ = chunk; chunks_ = chunks; maxP = maxPoints; functions_ = functions; two_ = two; expect_ = expect; pointNo = 0; firstPoint = secondPoint = 0; prepare(0, &op[0]); prepare(1, &op[1]); mode = SEARCH; handlers(); struct itimerval t; memset(&t, 0, sizeof t); setitimer(ITIMER_PROF, &t, nullptr); to(first); bool top = !firstPoint; mode = OFF; unwatch(); if (top) S->points = pointNo; verdict(); if (top) __sync_fetch_and_add(&S->schedules, 1); });
  r.schedules = S->schedules; r.points = S->points; r.conflicts = nc; r.bad = S->bad; r.what = S->what; return r; }
} // namespace rt
// ---------------------------------------------------------------- the hooks the compiler calls
using namespace rt;
#define PC __builtin_return_address(0)
template<class T> static T nxt(const char* n) { return (T)dlsym(RTLD_NEXT, n); }
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) { func(PC); } void __tsan_func_exit() { func(PC); }
#define A(N) void __tsan_read##N(void* a) { access(PC, (uintptr_t)a, N, false); } void __tsan_write##N(void* a) { access(PC, (uintptr_t)a, N, true); } void __tsan_unaligned_read##N(void* a) { access(PC, (uintptr_t)a, N, false); } void __tsan_unaligned_write##N(void* a) { access(PC, (uintptr_t)a, N, true); } void __tsan_volatile_read##N(void* a) { access(PC, (uintptr_t)a, N, false); } void __tsan_volatile_write##N(void* a) { access(PC, (uintptr_t)a, N, true); } void __tsan_read_write##N(void* a) { access(PC, (uintptr_t)a, N, true); } void __tsan_unaligned_read_write##N(void* a) { access(PC, (uintptr_t)a, N, true); } void __tsan_unaligned_volatile_read##N(void* a) { access(PC, (uintptr_t)a, N, false); } void __tsan_unaligned_volatile_write##N(void* a) { access(PC, (uintptr_t)a, N, true); }
A(1) A(2) A(4) A(8) A(16)
void __tsan_vptr_update(void** a, void*) { access(PC, (uintptr_t)a, 8, true); } void __tsan_vptr_read(void** a) { access(PC, (uintptr_t)a, 8, false); }
void __tsan_read_range(void* a, size_t n) { access(PC, (uintptr_t)a, n, false); } void __tsan_write_range(void* a, size_t n) { access(PC, (uintptr_t)a, n, true); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { access(PC, (uintptr_t)s, n, false); access(PC, (uintptr_t)d, n, true); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { access(PC, (uintptr_t)s, n, false); access(PC, (uintptr_t)d, n, true); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (n) access(PC, (uintptr_t)d, n, true); return memset(d, c, n); }
static void at(void* pc, const volatile void* a, size_t n, bool w) { if (cur < 0) return; if (++spin > 100000) { spin = 0; if (F[1 - cur].op && !F[1 - cur].done) to(1 - cur); } if (n == 1 && !w && *(volatile char*)a == 1 && mode != RECORD && guardKnown((uint64_t)a, false)) return; /* a static that has been initialised: nobody writes this again */ access(pc, (uintptr_t)a, n, w); }
#define AT(B, T) T __tsan_atomic##B##_load(const volatile T* a, int) { at(PC, a, B / 8, false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } void __tsan_atomic##B##_store(volatile T* a, T v, int) { at(PC, a, B / 8, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { at(PC, a, B / 8, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { at(PC, a, B / 8, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { at(PC, a, B / 8, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { at(PC, a, B / 8, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { at(PC, a, B / 8, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { at(PC, a, B / 8, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int) { at(PC, a, B / 8, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
 int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { at(PC, a, B / 8, true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { at(PC, a, B / 8, true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int, int) { at(PC, a, B / 8, true); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
// ---------------------------------------------------------------- waiting
int pthread_mutex_lock(pthread_mutex_t* m) { static auto real = nxt<int (*)(pthread_mutex_t*)>("pthread_mutex_lock"); static auto tr = nxt<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock"); if (cur < 0) return real(m); access(PC, (uintptr_t)m, 8, true); for (;;) { int r = tr(m); if (r != EBUSY) return r; yieldBlocked(); } }
int pthread_mutex_unlock(pthread_mutex_t* m) { static auto real = nxt<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); int r = real(m); if (cur >= 0) access(PC, (uintptr_t)m, 8, true); return r; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { static auto real = nxt<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock"); static auto tr = nxt<int (*)(pthread_rwlock_t*)>("pthread_rwlock_tryrdlock"); if (cur < 0) return real(m); access(PC, (uintptr_t)m, 8, true); for (;;) { int r = tr(m); if (r != EBUSY) return r; yieldBlocked(); } }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { static auto real = nxt<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock"); static auto tr = nxt<int (*)(pthread_rwlock_t*)>("pthread_rwlock_trywrlock"); if (cur < 0) return real(m); access(PC, (uintptr_t)m, 8, true); for (;;) { int r = tr(m); if (r != EBUSY) return r; yieldBlocked(); } }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { static auto real = nxt<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait"); if (cur < 0) return real(c, m); pthread_mutex_unlock(m); yieldBlocked(); return pthread_mutex_lock(m); }
// functions of the C library that keep their state in static memory
static uint64_t libcState[8];
#define NR(ret, name, params, args, k) ret name params { static auto real = nxt<ret (*) params>(#name); if (cur < 0) return real args; access(PC, (uintptr_t)&libcState[k], 8, true); ret r = real args; access(PC, (uintptr_t)&libcState[k], 8, true); return r; }
NR(char*, strtok, (char* a, const char* b), (a, b), 0) NR(char*, asctime, (const struct tm* a), (a), 1) NR(char*, ctime, (const time_t* a), (a), 1) NR(struct tm*, localtime, (const time_t* a), (a), 2) NR(struct tm*, gmtime, (const time_t* a), (a), 2) NR(char*, setlocale, (int c, const char* l), (c, l), 3) NR(int, setenv, (const char* a, const char* b, int c), (a, b, c), 4) NR(int, putenv, (char* a), (a), 4) NR(char*, strsignal, (int a), (a), 5) NR(char*, tmpnam, (char* a), (a), 6)
int sched_yield() { if (cur >= 0 && F[1 - cur].op && !F[1 - cur].done) to(1 - cur); return 0; }
}
namespace __cxxabiv1 { // initialisation of local statics: byte 0 done, byte 1 in progress
extern "C" int __cxa_guard_acquire(__guard* g) { char* c = (char*)g; if (__atomic_load_n(c, __ATOMIC_ACQUIRE)) return 0; if (cur >= 0) { access(__builtin_return_address(0), (uintptr_t)g, 2, true); while (c[1]) { yieldBlocked(); if (c[0]) return 0; } } if (c[0]) return 0; c[1] = 1; if (GD) guardKnown((uint64_t)g, true); if (cur >= 0) ++guards[cur]; return 1; }
extern "C" void __cxa_guard_release(__guard* g) { char* c = (char*)g; if (cur >= 0 && guards[cur]) --guards[cur]; if (cur >= 0) access(__builtin_return_address(0), (uintptr_t)g, 2, true); c[1] = 0; __atomic_store_n(c, 1, __ATOMIC_RELEASE); }
extern "C" void __cxa_guard_abort(__guard* g) { if (cur >= 0 && guards[cur]) --guards[cur]; ((char*)g)[1] = 0; }
}
