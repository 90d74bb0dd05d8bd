// Conformance driver for spec/Redirect.tla.
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include <cmdr11/cmdr_ios.hh>
#include <cmdr11/cmdr_os_io_redirect.hh>

#include "jsonout.hh"

using SV = std::vector<std::string>;

static std::string play(std::vector<SV> const &ops) {
  auto *o0 = std::cout.rdbuf(), *e0 = std::cerr.rdbuf(), *l0 = std::clog.rdbuf(), *i0 = std::cin.rdbuf();
  std::map<std::string, std::stringbuf> sinks;
  std::map<std::string, std::unique_ptr<std::stringbuf>> sources;
  for (auto const *s: {"screen", "A", "B"}) sinks[s];
  for (auto const *s: {"keyboard", "X", "Y"}) {
    std::string t;
    for (int i = 1; i < 60; i++) t += s + std::to_string(i) + "\n";
    sources[s] = std::make_unique<std::stringbuf>(t);
  }
  std::cout.rdbuf(&sinks["screen"]);
  std::cerr.rdbuf(&sinks["screen"]);
  std::clog.rdbuf(&sinks["screen"]);
  std::cin.rdbuf(sources["keyboard"].get());
  std::map<std::string, std::ostream *> devs{{"cout", &std::cout}, {"cerr", &std::cerr}, {"clog", &std::clog}};
  auto sink   = [&](std::string const &s) -> std::streambuf * { return s == "none" ? nullptr : &sinks.at(s); };
  auto source = [&](std::string const &s) -> std::streambuf * { return s == "none" ? nullptr : sources.at(s).get(); };
  std::string got;
  std::size_t at = 0;
  // every scope is a block of its own
  std::function<void()> block = [&] {
    while (at < ops.size()) {
      auto const &f = ops[at++];
      if (f[0] == "leave") return;
      if (f[0] == "one" && f[1] == "cout") {
        cmdr::os::pipe_stdout_to p(sink(f[2]));
        block();
      } else if (f[0] == "one" && f[1] == "cerr") {
        cmdr::os::pipe_stderr_to p(sink(f[2]));
        block();
      } else if (f[0] == "one") {
        cmdr::os::pipe_stdlog_to p(sink(f[2]));
        block();
      } else if (f[0] == "in") {
        cmdr::os::pipe_stdin_to p(source(f[1]));
        block();
      } else if (f[0] == "all") {
        cmdr::os::pipe_all_to p(sink(f[1]), source(f[2]));
        block();
      } else if (f[0] == "flags") {
        cmdr::io::ios_flags_saver p(*devs.at(f[1]));
        block();
      } else if (f[0] == "state") {
        cmdr::io::ios_state_saver p(*devs.at(f[1]));
        block();
      } else if (f[0] == "hex") {
        *devs.at(f[1]) << (f[2] == "True" ? std::hex : std::dec);
      } else if (f[0] == "fill") {
        devs.at(f[1])->fill(f[2][0]);
      } else if (f[0] == "write") {
        *devs.at(f[1]) << f[1] << ":";
        devs.at(f[1])->width(5);
        *devs.at(f[1]) << 255 << "\n";
      } else if (f[0] == "read") {
        std::string l;
        std::getline(std::cin, l);
        got += (got.empty() ? "" : ",") + jq(l);
      }
    }
  };
  block();
  std::string text;
  for (auto &s: sinks) text += (text.empty() ? "" : ",") + jq(s.first) + ":" + jq(s.second.str());
  std::cout.rdbuf(o0);
  std::cerr.rdbuf(e0);
  std::clog.rdbuf(l0);
  std::cin.rdbuf(i0);
  for (auto &d: devs) d.second->copyfmt(std::ios(nullptr));
  return "\"sinks\":{" + text + "},\"got\":[" + got + "]";
}

int main() {
  std::string line, id;
  std::vector<SV> ops;
  while (std::getline(std::cin, line)) {
    SV f(1);
    for (char c: line)
      if (c == '\t') f.emplace_back();
      else
        f.back() += c;
    if (f[0] == "case") {
      id = f[1];
      ops.clear();
    } else if (f[0] == "end") {
      auto r = play(ops);
      std::cout << "{\"case\":" << id << "," << r << "}\n";
    } else
      ops.push_back(f);
  }
  return 0;
}
