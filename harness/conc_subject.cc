// Conformance driver for spec/Subject.tla.
#include "conc.hh"
#include <cmdr11/cmdr_common.hh>

using namespace cmdr::util;
using namespace conc;

struct Event {
  long v{};
};

template<bool CNS>
struct Subjects : World {
  using Subject = observable<Event, true, CNS>;
  using Shared  = typename Subject::observer_t_shared;
  using Weak    = typename Subject::observer_t;
  struct Obs : observer<Event> {
    long id;
    explicit Obs(long i)
        : id(i) {}
    void observe(Event const &e) override { sched::log({"seen", "", id, e.v}); }
  };
  Subject subject;
  std::array<Shared, 64> obs; // each one is handled by one client
  std::array<std::unique_ptr<registerer<Event, true, CNS>>, 64> scopes;

  Subjects() {
    for (int t = 1; t < 5; t++)
      for (int k: {t, 10 * t + 1, 10 * t + 2}) obs[std::size_t(k)] = std::make_shared<Obs>(k);
  }
  void op(int, Op const &o) override {
    operation(o.name.c_str(), o, [&]() -> long {
      auto const k = std::size_t(o.a);
      if (o.name == "add") {
        Weak w = obs[k];
        if (o.b >= 4 && !scopes[k]) scopes[k] = std::make_unique<registerer<Event, true, CNS>>(subject, obs[k]);
        else if (o.b % 4 == 0) subject += obs[k];
        else if (o.b % 4 == 1) subject.add_observer(w);
        else if (o.b % 4 == 2) (void) (subject + obs[k]);
        else (void) (subject + w);
      } else if (o.name == "rem") {
        if (scopes[k]) scopes[k].reset();
        else if (o.b % 4 == 0) subject -= obs[k];
        else if (o.b % 4 == 1) subject.remove_observer(obs[k].get());
        else if (o.b % 4 == 2) (void) (subject - obs[k]);
        else subject -= obs[k].get();
      } else if (o.name == "drop") {
        obs[k].reset();
        if (scopes[k]) scopes[k].reset();
      } else if (o.name == "emit") subject.emit(Event{o.a});
      else throw std::runtime_error("bad operation");
      return 0;
    });
  }
};

int main(int argc, char **argv) {
  return run_main(argc, argv, [](auto const &cfg) -> World * {
    if (cfg.at("cns") == "1") return new Subjects<true>();
    return new Subjects<false>();
  });
}
