// Conformance driver for spec/Pool.tla.
#include "conc.hh"
#include <cmdr11/cmdr_pool.hh>

using namespace cmdr::pool;
using namespace conc;

struct Failure {
  long k;
};

struct Pool : World {
  thread_pool *pool{}; // a task may use it while it is being destroyed
  std::array<std::future<long>, 128> futures;
  int gate{};

  Pool() { sched::workers(true); }

  long work(long k, long kind) {
    sched::log({"start", "", k});
    if (kind == 2) sched::wait_flag(&gate);
    if (kind == 3) {
      int const as = 100 + int(k);
      sched::log({"call", "queue", k + 50, 0, "", as});
      queue(k + 50, 0);
      sched::log({"ret", "queue", 0, 0, "", as});
    }
    sched::log({"end", "", k});
    if (kind == 1) throw Failure{k};
    return k;
  }
  void queue(long k, long kind) {
    auto f = [this, k, kind] { return work(k, kind); };
    if (k % 2) futures[std::size_t(k)] = pool->queue_task(f);
    else futures[std::size_t(k)] = pool->queue_task(std::move(f));
  }
  void op(int, Op const &o) override {
    if (o.name == "settle") {
      sched::settle();
      sched::log({"settle"});
      return;
    }
    if (o.name == "get" && !futures[std::size_t(o.a)].valid()) return;
    auto x = o;
    if (o.name == "create") x.b = std::thread::hardware_concurrency();
    operation(o.name.c_str(), x, [&]() -> long {
      if (o.name == "create") pool = new thread_pool(int(o.a));
      else if (o.name == "queue") queue(o.a, o.b);
      else if (o.name == "get") {
        try {
          return futures[std::size_t(o.a)].get();
        } catch (Failure const &e) {
          return e.k == o.a ? -1 : -4;
        } catch (std::future_error const &e) {
          return e.code() == std::future_errc::broken_promise ? -2 : -3;
        }
      } else if (o.name == "open") sched::raise_flag(&gate);
      else if (o.name == "active") return long(pool->active_threads());
      else if (o.name == "join") pool->join();
      else if (o.name == "destroy") delete pool;
      else throw std::runtime_error("bad operation");
      return 0;
    });
  }
};

int main(int argc, char **argv) {
  return run_main(argc, argv, [](auto const &) -> World * { return new Pool(); });
}
