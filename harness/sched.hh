// A controlled scheduler: threads run one at a time, the scheduler decides who
// runs next at every synchronisation operation, time is virtual, and plain
// memory accesses of instrumented code are checked for data races.
#pragma once
#include <cstdint>
#include <functional>
#include <iosfwd>
#include <string>
#include <vector>

namespace sched {
  struct Plan {
    uint64_t seed{};       // random choices
    int mode{};            // 0: uniform, 1: priorities with change points, 2: prefix, then never preempt
    int preemptions{2};    // mode 2: how many preemptions a schedule may have
    bool spurious{};       // condition waits may return by themselves
    bool timers{true};     // timed waits may run out although other threads could run
    std::vector<int> prefix;
    int limit{200000};
  };
  struct Outcome {
    std::string trace;     // the events
    std::vector<std::pair<int, int>> choices; // mode 2: alternatives and the one taken
  };

  // runs `body` in a child process under the plan
  Outcome run(Plan const &plan, std::function<void()> const &body);

  // ---- called by the program under test (its driver part)
  struct Ev {
    char const *e{""};
    char const *op{""};
    long a{}, b{};
    std::string s{};
    int t{-1};
  };
  void log(Ev const &e);       // an event of the calling client
  void client(int id);         // the calling thread is client `id`
  void workers(bool on);       // log beginning and end of threads that are no clients
  void clients(bool on);       // the threads that the main thread makes now are clients
  void settle();               // until no other thread can run
  void timestamps(bool on);    // events carry the virtual time in ms
  void wait_flag(int const *f); // these two order nothing but the two threads' next steps
  void raise_flag(int *f);
  void sleep_virtual(long ns);
  bool self_is_client();
} // namespace sched
