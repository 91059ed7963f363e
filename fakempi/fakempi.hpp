// Harness-side interface of the scheduled MPI model.
#ifndef FAKEMPI_HPP
#define FAKEMPI_HPP
#include <string>
#include <vector>
#include <cstdarg>
#include <functional>
namespace fk
{
int rank();                 // world rank (0 when not inside a world)
int np();
// Report a violation observed by this rank in the current scenario.
void fail(char const *key, char const *fmt, ...) __attribute__((format(printf, 2, 3)));
void point();               // an explicit scheduling point
unsigned long long hash(void const *p, size_t n, unsigned long long h = 1469598103934665603ull);
void outcome(unsigned long long h); // contributes to the distinct-outcome statistics

// A family of scenarios, enumerated by index.
struct Model
{
  std::function<void()> init;                         // run once on each rank
  std::function<long()> count;
  std::function<std::string(long)> describe;
  std::function<void(long)> body;                     // runs on every rank
  std::function<int(long)> bound;                     // -1: canonical schedules only; k>=0: DFS with k preemptions
  std::function<void()> fini;                         // run once on each rank at the end
  bool check_leaks = true;
};
int main(int argc, char **argv, Model &m);
}
#endif
