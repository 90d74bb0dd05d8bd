// Conformance driver for spec/PoolLite.tla.
#include "conc.hh"
#include <cmdr11/cmdr_pool.hh>

using namespace cmdr::pool;
using namespace conc;

struct Failure {
  long k;
};

struct Lite : World {
  thread_pool_lite *pool{}; // a task may use it while it is being destroyed
  std::array<std::future<long>, 128> futures;
  int gate{};

  Lite() { sched::workers(true); }

  long work(long k, long kind) {
    sched::log({"start", "", k});
    if (kind == 2) sched::wait_flag(&gate);
    if (kind == 3) {
      int const as = 100 + int(k);
      sched::log({"call", "queue", k + 50, 0, "", as});
      long const r = queue(k + 50, 0);
      sched::log({"ret", "queue", r, 0, "", as});
    }
    sched::log({"end", "", k});
    if (kind == 1) throw Failure{k};
    return k;
  }
  long queue(long k, long kind) {
    try {
      if (k % 2) futures[std::size_t(k)] = pool->enqueue([this](long a, long b) { return work(a, b); }, k, kind);
      else futures[std::size_t(k)] = pool->enqueue([this, k, kind] { return work(k, kind); });
    } catch (std::runtime_error const &) {
      return -9;
    }
    return 0;
  }
  void op(int, Op const &o) override {
    if (o.name == "settle") {
      sched::settle();
      sched::log({"settle"});
      return;
    }
    if (o.name == "get" && !futures[std::size_t(o.a)].valid()) return;
    operation(o.name.c_str(), o, [&]() -> long {
      if (o.name == "create") pool = new thread_pool_lite(std::size_t(o.a));
      else if (o.name == "queue") return queue(o.a, o.b);
      else if (o.name == "get") {
        try {
          return futures[std::size_t(o.a)].get();
        } catch (Failure const &e) {
          return e.k == o.a ? -1 : -4;
        } catch (std::future_error const &e) {
          return e.code() == std::future_errc::broken_promise ? -2 : -3;
        }
      } else if (o.name == "open") sched::raise_flag(&gate);
      else if (o.name == "destroy") delete pool;
      else throw std::runtime_error("bad operation");
      return 0;
    });
  }
};

int main(int argc, char **argv) {
  return run_main(argc, argv, [](auto const &) -> World * { return new Lite(); });
}
