// Conformance driver for spec/CondWait.tla.
#include "conc.hh"
#include <chrono>
#include <cmdr11/cmdr_pool.hh>

using namespace cmdr::pool;
using namespace conc;
using ms = std::chrono::milliseconds;

template<class CW>
struct Cond : World {
  CW cw;
  template<class... A>
  explicit Cond(A... a)
      : cw(a...) { sched::timestamps(true); }
  void op(int t, Op const &o) override {
    operation(o.name.c_str(), o, [&]() -> long {
      if (o.name == "wait") {
        if (t % 2) cw.wait();
        else return cw.wait_for();
        return 1;
      }
      if (o.name == "waitfor") {
        if (t % 3 == 0) return cw.wait_until(std::chrono::steady_clock::now() + ms(o.a));
        if (t % 3 == 1) return cw.wait_until(std::chrono::system_clock::now() + ms(o.a));
        return cw.wait_for(ms(o.a));
      }
      if (o.name == "set") {
        if (t % 2) cw.set();
        else cw_setter<CW> setter(cw);
      } else if (o.name == "setall") cw.set_for_all();
      else if (o.name == "kill") {
        if constexpr (std::is_base_of_v<conditional_wait_for_bool, CW>) cw.kill();
        else cw.set_for_all();
      } else if (o.name == "ask") {
        if constexpr (std::is_same_v<timer_killer, CW>) return cw.terminated();
      } else throw std::runtime_error("bad operation");
      return 0;
    });
  }
};

int main(int argc, char **argv) {
  return run_main(argc, argv, [](auto const &cfg) -> World * {
    auto kind = cfg.at("kind");
    if (kind == "bool") return new Cond<conditional_wait_for_bool>();
    if (kind == "killer") return new Cond<timer_killer>();
    return new Cond<conditional_wait_for_int>(std::stoi(cfg.at("max")));
  });
}
