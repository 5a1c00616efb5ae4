// mcrt: a stateless model checker for pthread programs compiled with
// -fsanitize=thread instrumentation and linked with mcrt.cc instead of the
// ThreadSanitizer runtime.  See DESIGN.md.
#ifndef MCRT_H_
#define MCRT_H_
#include <functional>
#include <string>
#include <vector>

namespace mcrt {

struct Scenario {
  std::string name;
  // Runs once per worker process, uncontrolled, before the executions.
  std::function<void()> setup;
  // One execution, under the controlled scheduler, in a fresh process image.
  // Returns the observed outcome.
  std::function<std::string()> run;
  int quick_bound = 1;      // deviations from the default schedule; -1: unbounded
  int thorough_bound = 2;
  bool same_outcome = true; // every schedule has to give the same outcome
  int spurious = 0;         // spurious wake-ups per execution
  int horizon = 20000;      // scheduling points per execution
  bool rotate = false;      // the default schedule switches to the next thread at every point
};

// Reports a violation in the current execution and ends it.
[[noreturn]] void Fail(const std::string& msg);
inline void Assert(bool ok, const std::string& msg) { if (!ok) Fail(msg); }

// Heap blocks (operator new) allocated in this execution and still live.
long LiveBlocks();

int Main(int argc, char** argv, const std::vector<Scenario>& scenarios);

}  // namespace mcrt
#endif
