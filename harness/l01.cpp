// L01: every log message at or above the level reaches every registered logger once, in order, with type, origin, text and code
#include "uh.hpp"
#include "eng.hpp"
#include "engx.hpp"
#include "uima/log.hpp"
#include <sys/wait.h>
#include <fstream>
using std::string; using std::vector;
typedef LogStream::EnEntryType Ty; static const Ty TY[] = {LogStream::EnMessage, LogStream::EnWarning, LogStream::EnError}; static const char* TN[] = {"message", "warning", "error"};
struct Rec { int type; string origin, text; long code; bool operator==(const Rec& o) const { return type == o.type && origin == o.origin && text == o.text && (code == o.code || code == -99 || o.code == -99); } };
static string show(const vector<Rec>& v) { string s; for (auto& r : v) s += mc::fmt("[%s %s '%s' %ld] ", TN[r.type], r.origin.c_str(), r.text.substr(0, 40).c_str(), r.code); return s; }
struct Lg : Logger { vector<Rec> got; bool boom = false; void log(Ty t, string c, string m, string msg, long code) override { if (boom) { boom = false; throw std::runtime_error("logger"); } got.push_back({(int) t, c, msg, code}); if (!m.empty()) mc::fail("method %s", m.c_str()); } };
struct MF { LogFacility* f; string origin; int level; string pend; int ptype = 0; int known = 1; long eid = 0; string etext; LogStream* os = nullptr; };
static string etext(long id, const string& s) { ErrorInfo e(ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, s), id, ErrorInfo::recoverable); return e.asString(); }
static void histories() {
  ResourceManager& R = ResourceManager::getInstance(); Lg lg[2]; vector<Rec> want[2]; vector<int> reg; int own = mc::choose(3), level = (own + 1) % 3; R.getLoggers().clear(); R.setLoggingLevel(TY[level]); mc::cover("history");
  vector<MF> f; f.push_back({new LogFacility(U("o\xc3\xa9wn"), TY[own]), "o\xc3\xa9wn", own}); f.push_back({new LogFacility(U("second")), "second", level}); R.registerLogger(&lg[0]); reg = {0};
  auto emit = [&](MF& m, int t, const string& s, long code) { if (t >= m.level) for (int j : reg) want[j].push_back({t, m.origin, s, code}); };
  auto err = [&](MF& m, int t, long id, const string& s) { if (t == 2) { m.known = 2; m.eid = id; m.etext = s; } };
  auto pend = [&](MF& m) { if (!m.pend.empty()) { emit(m, m.ptype, m.pend, 0); err(m, m.ptype, UIMA_ERR_USER_ANNOTATOR_ERROR_UNSPECIFIED, m.pend); m.pend.clear(); } };
  auto query = [&](MF& x, bool text) { if (x.known) { if (text) { const char* c = x.f->getLastErrorAsCStr(); mc::cover("last error as text"); if (!x.eid) MC_CHECK(!c, "%s: last error '%s' but there was none", x.origin.c_str(), c); else MC_CHECK(c && string(c).find(x.etext) != string::npos && string(c).find(std::to_string(x.eid)) != string::npos, "%s: text of the last error is '%s' instead of %ld '%s'", x.origin.c_str(), c ? c : "NULL", x.eid, x.etext.c_str()); }
      ErrorInfo const& e = x.f->getLastError(); MC_CHECK((long) e.getErrorId() == x.eid, "%s: last error %ld instead of %ld", x.origin.c_str(), (long) e.getErrorId(), x.eid); if (x.eid) { string s = e.getMessage().asString(); MC_CHECK(s.find(x.etext) != string::npos, "%s: last error '%s' instead of '%s'", x.origin.c_str(), s.c_str(), x.etext.c_str()); size_t q = s.find(x.etext); MC_CHECK(s.find(x.etext, q + 1) == string::npos, "last error has its text twice: %s", s.c_str()); } } };
  int depth = mc::thorough() ? 4 : 3;
  for (int d = 0; d < depth; ++d) {
    int op = mc::choose(10); int k = op < 6 || op == 9 ? mc::choose(2) : 0; MF& m = f[k];
    switch (op) {
      case 0: { int t = mc::choose(3), form = mc::choose(3), code = form == t ? 0 : 77; string s = mc::fmt("text %d %%1 %s", d, form == 2 ? "\xc3\xa9" : ""); mc::step("%s %s form %d code %d", m.origin.c_str(), TN[t], form, code); mc::cover(mc::fmt("plain %s", TN[t]).c_str());
        icu::UnicodeString u(U(s)); switch (t * 3 + form) { case 0: m.f->logMessage(s.c_str(), code); break; case 1: m.f->logMessage(s, code); break; case 2: m.f->logMessage(u, code); break; case 3: m.f->logWarning(s.c_str(), code); break; case 4: m.f->logWarning(s, code); break; case 5: m.f->logWarning(u, code); break; case 6: m.f->logError(s.c_str(), code); break; case 7: m.f->logError(s, code); break; case 8: m.f->logError(u, code); break; }
        emit(m, t, s, code); err(m, t, code ? code : UIMA_ERR_USER_ANNOTATOR_ERROR_UNSPECIFIED, s); break; }
      case 1: { int t = 1 + mc::choose(2); string s = mc::fmt("info %d", d); ErrorInfo e(ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, s), 55, ErrorInfo::recoverable); mc::step("%s %s info", m.origin.c_str(), TN[t]); mc::cover("error info"); if (t == 1) m.f->logWarning(e); else m.f->logError(e); emit(m, t, e.asString(), -99); if (t == 1) m.known = 0; else err(m, t, 55, s); break; }
      case 2: { int t = mc::choose(3); mc::step("%s stream %s", m.origin.c_str(), TN[t]); mc::cover("stream"); pend(m); LogStream& o = m.f->getLogStream(TY[t]); m.os = &o; string s = mc::fmt("part %d\n", d); o << "part " << d << std::endl; m.pend = s; m.ptype = t; break; }
      case 3: { mc::step("%s flush", m.origin.c_str()); mc::cover("flush"); if (mc::flip()) m.f->flushLogStream(); else if (!m.pend.empty()) { LogStream& o = *m.os; o << "more"; m.pend += "more"; o.flush(); } pend(m); break; }
      case 4: { int t = mc::choose(3); mc::step("%s macro %s", m.origin.c_str(), TN[t]); mc::cover("macro"); pend(m); string s = mc::fmt("x=%d y", d); if (t == 0) { UIMA_LOG_STREAM_MESSAGE((*m.f), "x=" << d << " y"); } else if (t == 1) { UIMA_LOG_STREAM_WARNING((*m.f), "x=" << d << " y"); } else { UIMA_LOG_STREAM_ERROR((*m.f), "x=" << d << " y"); } emit(m, t, s, 0); err(m, t, UIMA_ERR_USER_ANNOTATOR_ERROR_UNSPECIFIED, s); break; }
      case 5: { mc::step("%s made anew", m.origin.c_str()); mc::cover("made anew"); pend(m); delete m.f; m.f = new LogFacility(U(m.origin)); m.level = level; m.known = 1; m.eid = 0; break; }
      case 6: { int j = mc::choose(2); auto it = std::find(reg.begin(), reg.end(), j); if (mc::flip()) { if (it != reg.end()) mc::cover("registered twice"); mc::step("register %d", j); R.registerLogger(&lg[j]); reg.push_back(j); } else { mc::step("unregister %d", j); mc::cover("unregister"); bool t = throwsUima([&] { R.unregisterLogger(&lg[j]); }); MC_CHECK(t == (it == reg.end()), "unregistering logger %d %s", j, t ? "refused" : "not refused"); if (!t) reg.erase(it); } break; }
      case 7: level = mc::choose(3); mc::step("level %d", level); mc::cover("level"); R.setLoggingLevel(TY[level]); MC_CHECK(R.getLoggingLevel() == TY[level], "level not kept"); break;
      case 8: { if (std::find(reg.begin(), reg.end(), 0) == reg.end() || own > 2) break; mc::step("throwing logger"); mc::cover("throwing logger"); lg[0].boom = true; bool thrown = false; size_t n[2] = {lg[0].got.size(), lg[1].got.size()}; try { f[0].f->logError("thrown away"); } catch (std::runtime_error&) { thrown = true; } MC_CHECK(thrown, "exception of a logger swallowed"); f[0].known = 0; for (int j = 0; j < 2; ++j) lg[j].got.resize(n[j]); break; }
    }
    for (int j = 0; j < 2; ++j) MC_CHECK(lg[j].got == want[j], "logger %d got %s instead of %s", j, show(lg[j].got).c_str(), show(want[j]).c_str());
    if (op == 9 || d + 1 == depth) for (auto& x : f) if (op != 9 || &x == &m || d + 1 == depth) query(x, op == 9 ? mc::flip() : d % 2);
    mc::state(mc::fmt("%zu %zu %d %d %s %s", want[0].size(), want[1].size(), level, own, f[0].pend.c_str(), f[1].pend.c_str()));
  }
  for (auto& x : f) { pend(x); delete x.f; } for (int j = 0; j < 2; ++j) MC_CHECK(lg[j].got == want[j], "after deletion logger %d got %s instead of %s", j, show(lg[j].got).c_str(), show(want[j]).c_str()); mc::outcome(show(want[0]) + show(want[1]));
  for (int j : reg) R.unregisterLogger(&lg[j]); R.setLoggingLevel(LogStream::EnMessage);
}
// ---------------------------------------------------------------- engines: every component logs under its own name
static Lg* EL;
struct Hk : RecHook { vector<string> called; bool fail = false; bool make() override { return true; } void made(int) override {} void gone(int) override {} CAS* next(int, const string&, AnnotatorContext*) override { return NULL; }
  int call(int, const string& name, const char* cb, AnnotatorContext* c, CAS*, const ResultSpecification*, const TypeSystem*) override { if (!c || strcmp(cb, "process")) return 0; called.push_back(name); LogFacility& l = c->getLogger(); l.logMessage(string("M ") + cb); l.logWarning(string("W ") + cb, 3); UIMA_LOG_STREAM_ERROR(l, "E " << cb); if (fail && !strcmp(cb, "process")) { Uima_runtime_error x(ErrorMessage(UIMA_MSG_ID_LITERAL_STRING, "broken"), 77, ErrorInfo::recoverable); throw x; } return 0; } };
static Hk* HK;
static void engines() {
  int form = mc::choose(3), level = mc::choose(3); bool fail = mc::flip(), drop = mc::flip(); mc::step("engine form %d level %d fail %d", form, level, fail); mc::cover(form ? "aggregate" : "primitive"); ResourceManager& R = ResourceManager::getInstance(); R.setLoggingLevel(TY[level]); R.getLoggers().clear(); Lg lg; R.registerLogger(&lg); HK->called.clear(); HK->fail = fail;
  ED d; d.name = "top"; if (form) { ED a; a.name = "one"; ED b; b.name = "two"; if (form == 2) { ED in; in.name = "in"; in.delegates = {{"Z", b}}; in.flow = {"Z"}; b = in; } d.delegates = {{"A", a}, {"B", b}}; d.flow = {"A", "B"}; }
  { Eng g(d); g.create(); MC_CHECK(g.e, "engine: %s", g.err.asString().c_str()); { std::unique_ptr<CAS> c(g.e->newCAS()); c->getView(CAS::NAME_DEFAULT_SOFA)->setDocumentText(U("text")); lg.got.clear(); HK->called.clear(); R.setLoggingLevel(LogStream::EnMessage);
      bool t = throwsUima([&] { g.e->process(*c->getView(CAS::NAME_DEFAULT_SOFA)); }); MC_CHECK(t == fail, "process"); vector<Rec> w; for (auto& n : HK->called) { if (level <= 0) w.push_back({0, n, "M process", 0}); if (level <= 1) w.push_back({1, n, "W process", 3}); w.push_back({2, n, "E process", 0}); }
      vector<Rec> got; int broken = 0; for (auto& r : lg.got) if (r.text.find("broken") != string::npos) { ++broken; MC_CHECK(r.type == 2 && !r.origin.empty(), "failure logged as %s", show({r}).c_str()); } else if (r.text.size() == 9) got.push_back(r);
      MC_CHECK(got == w, "loggers got %s instead of %s", show(got).c_str(), show(w).c_str()); MC_CHECK(fail == (broken > 0), "failing process logged %d times", broken);
      if (fail) { ErrorInfo const& e = g.e->getAnnotatorContext().getLogger().getLastError(); MC_CHECK((long) e.getErrorId() == 77, "last error of the engine is %ld", (long) e.getErrorId()); }
      if (!HK->called.empty()) { string s; for (auto& n : HK->called) s += n + " "; mc::outcome(s); } MC_CHECK(HK->called == (fail ? vector<string>{form ? "one" : "top"} : form ? vector<string>{"one", "two"} : vector<string>{"top"}), "called"); mc::state(mc::fmt("%d %d %d", form, level, fail)); }
    HK->fail = false; if (drop) g.drop(); }
  R.unregisterLogger(&lg); R.setLoggingLevel(LogStream::EnMessage);
}
// a lock that has been freed still works by accident: refuse it
#include <dlfcn.h>
static std::set<void*>& liveLocks() { static std::set<void*> s; return s; }
static apr_status_t lockGone(void* m) { liveLocks().erase(m); return APR_SUCCESS; }
extern "C" apr_status_t apr_thread_mutex_create(apr_thread_mutex_t** m, unsigned flags, apr_pool_t* p) { static auto real = (apr_status_t (*)(apr_thread_mutex_t**, unsigned, apr_pool_t*)) dlsym(RTLD_NEXT, "apr_thread_mutex_create"); apr_status_t r = real(m, flags, p); if (r == APR_SUCCESS) { liveLocks().insert(*m); apr_pool_cleanup_register(p, *m, lockGone, apr_pool_cleanup_null); } return r; }
extern "C" apr_status_t apr_thread_mutex_lock(apr_thread_mutex_t* m) { static auto real = (apr_status_t (*)(apr_thread_mutex_t*)) dlsym(RTLD_NEXT, "apr_thread_mutex_lock"); if (!liveLocks().count(m)) mc::fail("a destroyed lock is used"); return real(m); }
// ---------------------------------------------------------------- the file logger and the life of the resource manager
static string slurp(const string& f) { std::ifstream i(f.c_str(), std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void lines(const string& file, const vector<Rec>& w, bool only) {
  std::istringstream in(slurp(file)); vector<string> l; string x; while (std::getline(in, x)) if (x.size() > 24 && x.find("ResourceManager Instance") == string::npos) l.push_back(x);
  MC_CHECK(l.size() == w.size(), "%zu lines instead of %zu:\n%s", l.size(), w.size(), slurp(file).c_str());
  for (size_t i = 0; i < w.size(); ++i) { string t = l[i].substr(24); static const char* T[] = {" INFO: ", " WARNING: ", " SEVERE: "}; MC_CHECK(!t.compare(0, strlen(T[w[i].type]), T[w[i].type]), "line '%s' for %s", t.c_str(), TN[w[i].type]); bool rc = t.find(mc::fmt("RC=%ld ", w[i].code)) != string::npos; MC_CHECK(rc || (!w[i].type && !w[i].code), "code missing in '%s'", t.c_str()); string tail = w[i].origin + " " + w[i].text; MC_CHECK(t.size() >= tail.size() && t.substr(t.size() - tail.size()) == tail, "line '%s' instead of '%s'", t.c_str(), tail.c_str()); }
}
static void files() {
  bool env = mc::flip(); int lives = 1 + mc::choose(3), n = mc::choose(4); mc::step("%s lives %d messages %d", env ? "environment" : "registered", lives, n); mc::cover(env ? "log file from the environment" : "file logger"); if (lives > 1) mc::cover("resource manager made again");
  string file = mc::X().scratch + mc::fmt("/l%d.log", getpid()); unlink(file.c_str()); int pfd[2]; if (pipe(pfd)) _exit(96); fflush(stdout); fflush(stderr); pid_t pid = fork();
  if (!pid) { string msg; try { vector<Rec> w; if (env) setenv("UIMACPP_LOGFILE", file.c_str(), 1);
      for (int k = 0; k < lives; ++k) { if (k || env) { ResourceManager::deleteInstance(); ResourceManager::createInstance("AGAIN"); } ResourceManager& R = ResourceManager::getInstance(); FileLogger* fl = NULL; Lg lg; R.registerLogger(&lg); size_t from = w.size(); if (!env) R.registerLogger(fl = new FileLogger(file)); { LogFacility f(U("who"), LogStream::EnMessage);
          for (int i = 0; i < n; ++i) { string s = mc::fmt("m%d.%d", k, i) + (i == 2 ? string(6000, 'y') : ""); if (i % 3 == 0) f.logMessage(s, i); else if (i % 3 == 1) f.logWarning(s, i); else f.logError(s, i); w.push_back({i % 3, "who", s, i}); lines(file, w, true); }
          R.getLogger().logMessage("framework"); w.push_back({0, "org.apache.uima.cpp", "framework", 0}); lines(file, w, true); MC_CHECK(lg.got == vector<Rec>(w.begin() + from, w.end()), "logger got %s", show(lg.got).c_str()); }
        ErrorInfo e; TypeSystem* ts = Framework::createTypeSystemFromXMLBuffer(tsXML(typeXML("m.T", "uima.tcas.Annotation")).c_str(), e); MC_CHECK(ts && ts->getType("m.T").isValid(), "no type system in life %d", k); delete ts; R.unregisterLogger(&lg); if (fl) { R.unregisterLogger(fl); delete fl; } }
    } catch (mc::Violation& v) { msg = v.msg; } catch (Exception& x) { msg = "exception " + x.asString(); } msg = msg.empty() ? "ok" : msg; if (write(pfd[1], msg.data(), msg.size()) < 0) _exit(96); _exit(0); }
  close(pfd[1]); string in; char buf[4096]; ssize_t r; while ((r = read(pfd[0], buf, sizeof buf)) > 0) in.append(buf, r); close(pfd[0]); int st; waitpid(pid, &st, 0); unlink(file.c_str()); mc::state(mc::fmt("%d %d %d", env, lives, n));
  if (in.empty()) mc::fail("process ended with status %x", st); if (in != "ok") mc::fail("%s", in.c_str());
}
void mc_init() { unsetenv("UIMACPP_LOGFILE"); uhInit(); recHook = HK = new Hk; }
void mc_body() { switch (mc::choose(3)) { case 0: histories(); break; case 1: engines(); break; case 2: files(); break; } }
int main(int c, char** v) { return mc::run(c, v); }
