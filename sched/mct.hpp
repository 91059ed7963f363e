// A stateless model checker for threads: the code under test is compiled with -fsanitize=thread, but linked with this
// runtime instead of the compiler's.  Threads run one at a time; every atomic operation, lock, initialisation guard and
// every point a harness marks is a scheduling point, and all schedules with at most a given number of preemptions are
// executed, each in a process of its own.  All other accesses are checked for data races (vector clocks, following the
// C++ memory orders) and for use of freed memory, so that interleaving at these points loses nothing.
#ifndef MCT_HPP
#define MCT_HPP
#include <functional>
#include <string>
#include <stddef.h>

namespace mct
{
struct Model
{
  std::function<long()> count;
  std::function<std::string(long)> describe;
  std::function<void(long)> body;       // runs in the first thread of a fresh process
  std::function<int(long)> bound;       // preemptions to explore, -1: all schedules
};
int main(int argc, char **argv, Model const &m);
void spawn(std::function<void()> f);    // start a thread
void join();                            // wait for all started threads
int self();                             // 0, 1, ...
void point(char const *what);           // a scheduling point
void wait_until(std::function<bool()> c);   // block until the condition holds
void fail(char const *key, char const *fmt, ...) __attribute__((format(printf, 2, 3)));
void outcome(unsigned long long h);
long live();                            // allocations not released
bool thorough();
// the caller accesses state that the library does not protect (for instance in a library that is not instrumented)
void touch(void const *addr, size_t n, bool write, char const *what);
}
#endif
