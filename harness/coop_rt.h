#pragma once
#include <cxxabi.h>
#include <functional>
#include <string>
#include <vector>
namespace coop {
struct Decision { int chosen, n; bool costly; int dflt; int spent_before = 0; };
struct Options {
  int budget = 2;                   // preemptions, short counts and the like per schedule
  std::size_t max_runs = 20000, random_runs = 0, max_steps = 20000;
  unsigned long seed = 1;
};
struct Outcome {
  std::vector<Decision> path;
  std::vector<int> blocked;         // threads that can never go on
  std::string trouble;
  bool complete = true;
};
std::size_t explore(const Options& o, const std::function<void()>& setup, const std::function<bool(const Outcome&)>& report);
Outcome replay(const std::vector<int>& choices, const Options& o, const std::function<void()>& setup);
}  // namespace coop
