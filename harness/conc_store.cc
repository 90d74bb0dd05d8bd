// Conformance driver for spec/SharedStore.tla.
#include "conc.hh"
#include <cmdr11/cmdr_var_t.hh>

using namespace conc;
using cmdr::vars::variable;
using Store = cmdr::vars::store;

struct Shared : World {
  Store store;
  static S text(long v) { return "v" + std::to_string(v); }
  // half of the values are numbers, the others are strings
  static long number(variable const &v) {
    if (!v.has_value()) return -3;
    if (v.type() == typeid(long)) return v.as<long>();
    if (v.type() == typeid(S)) return std::atol(v.as<S>().c_str() + 1);
    return -4;
  }
  void set(Op const &o) {
    auto const &k = o.s;
    auto dot      = k.find('.');
    if (o.b % 4 == 0) store.set_raw(k.c_str(), o.a);
    else if (o.b % 4 == 1) store.set_raw(k.c_str(), text(o.a));
    else if (o.b % 4 == 2) store.set_raw(k.c_str(), variable{o.a});
    else if (dot == S::npos) store.set_raw_p("", k.c_str(), text(o.a));
    else store.set_raw_p(k.substr(0, dot).c_str(), k.substr(dot + 1).c_str(), text(o.a));
  }
  void op(int, Op const &o) override {
    operation(o.name.c_str(), o, [&]() -> long {
      if (o.name == "set") set(o);
      else if (o.name == "has") return store.has(o.b % 2 ? "" : nullptr, o.s.c_str());
      else if (o.name == "get") {
        auto const &c = store;
        return (o.b % 2 ? &store.get_raw(o.s) : &c.get_raw(o.s.c_str())) != &Store::node::null_element();
      } else if (o.name == "sub") return store.subtree(o.s.c_str()) != nullptr;
      else if (o.name == "val") return store.has("", o.s.c_str()) ? number(store.get_raw(o.s)) : -1;
      else if (o.name == "walk") store.walk_by_full_keys([](auto const &kv) { sched::log({"leaf", "", number(*kv.second), 0, kv.first}); });
      else throw std::runtime_error("bad operation");
      return 0;
    });
  }
};

int main(int argc, char **argv) {
  return run_main(argc, argv, [](auto const &) -> World * { return new Shared(); });
}
