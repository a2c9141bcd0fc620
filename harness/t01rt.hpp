// A controlled scheduler for two threads of the instrumented library.
// The library is compiled with -fsanitize=thread, but linked with the hooks below instead of the
// sanitizer's runtime: every function entry and exit, and every access to memory that both threads
// touch, is a point at which the scheduler may switch.  Both threads run as fibers on one OS thread,
// each with the thread-local storage of a parked pthread; a schedule is explored by forking the process.
#ifndef T01RT_HPP
#define T01RT_HPP
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace rt {
struct Report { uint64_t schedules = 0, points = 0, conflicts = 0, hidden = 0; bool bad = false; std::string what; };
// explores two threads from the present state: every schedule with one switch away from a running thread
// (its point numbers p with p % chunks == chunk), and with two switches at accesses to shared memory if asked for
Report explore(const std::function<std::string()> op[2], const std::string expect[2], int first, unsigned chunk, unsigned chunks, bool functions, bool two, uint64_t maxPoints);
// what one thread alone yields
std::string solo(const std::function<std::string()>& op, int which);
}
#endif
