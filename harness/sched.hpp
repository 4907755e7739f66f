// A controlled scheduler for real threads: code that was compiled with thread
// sanitizer instrumentation calls into this runtime before every memory access,
// which makes every access to shared memory a scheduling point. One thread runs
// at a time, so all interleavings can be enumerated by a depth first search over
// the choices.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched {
struct Point {
  int chosen;            // the thread that ran on
  int before;            // the thread that reached the point (-1: it ended or blocked there)
  std::vector<int> enabled;
};
struct Execution {
  std::vector<Point> points;
  bool deadlock = false;
  bool overrun = false;
  bool diverged = false;  // the prefix could not be followed
  std::string what;
};
// Run the bodies as threads. At the i-th choice, thread prefix[i] continues;
// beyond the prefix, the current thread does while it can.
Execution run(const std::vector<std::function<void()>>& bodies, const int* prefix, int length);

// Runs schedules in child processes of a process that does nothing else, so that
// every execution starts in the same state, including the layout of the heap.
// `verify` judges the execution in the child; what it returns, if anything,
// comes back in Execution::what.
class Executor {
 public:
  Executor(const std::function<std::vector<std::function<void()>>()>& fresh, const std::function<std::string(const Execution&)>& verify);
  ~Executor();
  Execution run(const std::vector<int>& prefix);

 private:
  int pid = -1, request = -1, response = -1;
  int* shared = nullptr;
};

struct Stats {
  uint64_t executions = 0, points = 0, maxdepth = 0;
  bool complete = true;
};
// Enumerate all executions with at most `preemptions` preemptions. `fresh`
// makes the bodies of an execution, `verify` judges its result, `done` is
// called with every schedule that was executed.
template <typename Done>
Stats explore(const std::function<std::vector<std::function<void()>>()>& fresh, const std::function<std::string(const Execution&)>& verify, Done&& done, int preemptions, uint64_t limit) {
  Stats st;
  Executor executor(fresh, verify);
  std::vector<int> prefix;
  while (true) {
    Execution e;
    for (int attempt = 0; attempt < 5; attempt++) {
      e = executor.run(prefix);
      if (e.what != "D") break;
    }
    if (e.what == "D") {
      // cannot be explored further from here
      st.complete = false;
      return st;
    }
    st.executions++;
    st.points += e.points.size();
    if (e.points.size() > st.maxdepth) st.maxdepth = e.points.size();
    std::vector<int> choices;
    for (auto& p : e.points) choices.push_back(p.chosen);
    done(e, choices);
    if (st.executions >= limit) {
      st.complete = false;
      return st;
    }
    // the next choice sequence in depth first order
    std::vector<int> used(e.points.size() + 1, 0);  // preemptions before point i
    for (size_t i = 0; i < e.points.size(); i++) used[i + 1] = used[i] + (e.points[i].before >= 0 && e.points[i].chosen != e.points[i].before);
    bool more = false;
    for (size_t i = e.points.size(); i-- && !more;) {
      auto& p = e.points[i];
      // alternatives are tried in the order: the current thread, then the others by number
      std::vector<int> order;
      if (p.before >= 0) order.push_back(p.before);
      for (int t : p.enabled)
        if (t != p.before) order.push_back(t);
      size_t k = 0;
      while (order[k] != p.chosen) k++;
      for (k++; k < order.size(); k++) {
        if (p.before >= 0 && used[i] + 1 > preemptions) break;
        prefix.assign(choices.begin(), choices.begin() + static_cast<long>(i));
        prefix.push_back(order[k]);
        more = true;
        break;
      }
    }
    if (!more) return st;
  }
}
}  // namespace sched
