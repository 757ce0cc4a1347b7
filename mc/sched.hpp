// Controlled scheduler: serialises all threads created while active and
// explores their interleavings by stateless search (see sched.cpp).
#pragma once
#include <functional>
#include <string>
#include <vector>
namespace sched {
struct Choice {
  int taken, alternatives;
};
struct Outcome {
  std::vector<Choice> choices; // every choice point of the execution
  std::string error;           // deadlock / divergence
  unsigned long points = 0;    // scheduling points passed
  int preemptions = 0;
};
// Runs f (on the calling thread) under control. `prefix` fixes the first
// choices, later ones take alternative 0 (no preemption, lowest thread).
Outcome execute(const std::function<void()> &f, const std::vector<int> &prefix,
                int preemptionBound);
void point();            // explicit scheduling point
void markTask(bool on);  // allocations of this thread become scheduling points
bool active();
extern unsigned hardwareThreads;
} // namespace sched
