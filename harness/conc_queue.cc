// Conformance driver for spec/MsgQueue.tla.
#include "conc.hh"
#include <cmdr11/cmdr_pool.hh>

using namespace cmdr::pool;
using namespace conc;

using Message = std::unique_ptr<S>;
struct Queue : World {
  threaded_message_queue<Message> q;
  void op(int, Op const &o) override {
    operation(o.name.c_str(), o, [&]() -> long {
      if (o.name == "put") q.emplace_back(std::make_unique<S>("a message that is longer than the small buffer: " + std::to_string(o.a)));
      else if (o.name == "pop") {
        auto m = q.pop_front();
        if (!m) return 0;
        if (!*m) return -1;
        return std::atol((*m)->substr((*m)->find(':') + 1).c_str());
      } else if (o.name == "clear") q.clear();
      else if (o.name == "empty") return q.empty();
      else throw std::runtime_error("bad operation");
      return 0;
    });
  }
};

int main(int argc, char **argv) {
  return run_main(argc, argv, [](auto const &) -> World * { return new Queue(); });
}
