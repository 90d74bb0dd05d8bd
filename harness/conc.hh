// Runs client programs under many schedules; see sched.hh.
//
//   prog <TAB> id <TAB> key=value ... <TAB> main's operations <TAB> client 1's operations <TAB> ...
//
// An operation is name[:number[:number[:text]]]. Main's operations before "|" run first, those after the
// last "|" when all clients are done, the rest at the same time as the clients.
#pragma once
#include "sched.hh"
#include <cstdlib>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <thread>

namespace conc {
  using S  = std::string;
  using SV = std::vector<S>;
  inline SV cut(S const &s, char c) {
    SV r;
    S x;
    for (char ch: s)
      if (ch == c) {
        r.push_back(x);
        x.clear();
      } else
        x += ch;
    r.push_back(x);
    return r;
  }
  struct Op {
    S name;
    long a{}, b{};
    S s;
  };
  inline std::vector<Op> parse(S const &line) {
    std::vector<Op> r;
    for (auto &w: cut(line, ' '))
      if (!w.empty()) {
        auto f = cut(w, ':');
        f.resize(4);
        r.push_back({f[0], std::atol(f[1].c_str()), std::atol(f[2].c_str()), f[3]});
      }
    return r;
  }
  // what the programs work on
  struct World {
    virtual ~World() = default;
    virtual void op(int t, Op const &o) = 0; // logs call and return
  };
  using Maker = std::function<World *(std::map<S, S> const &cfg)>;

  struct Program {
    S id;
    std::map<S, S> cfg;
    std::vector<Op> first, middle, last;
    std::vector<std::vector<Op>> clients;
  };
  inline void body(Program const &p, Maker const &mk) {
    World *w = mk(p.cfg);
    for (auto &o: p.first) w->op(0, o);
    std::vector<std::thread> ts;
    sched::clients(true);
    for (std::size_t i = 0; i < p.clients.size(); i++)
      ts.emplace_back([&, i] {
        sched::client(int(i) + 1);
        for (auto &o: p.clients[i]) w->op(int(i) + 1, o);
      });
    sched::clients(false);
    for (auto &o: p.middle) w->op(0, o);
    for (auto &t: ts) t.join();
    for (auto &o: p.last) w->op(0, o);
  }

  inline S plan_text(sched::Plan const &p) {
    S s = std::to_string(p.seed) + ' ' + std::to_string(p.mode) + ' ' + std::to_string(p.preemptions) + ' ' + std::to_string(p.spurious) + ' ' + std::to_string(p.timers);
    for (int k: p.prefix) s += ' ' + std::to_string(k);
    return s;
  }
  // explore(program): `random` schedules by chance, then up to `systematic` ones in order with few preemptions
  inline void explore(Program const &p, Maker const &mk, long random, long systematic, int preemptions, bool spurious, bool timers, unsigned long seed) {
    std::map<S, std::pair<long, S>> seen;
    long n = 0;
    auto once = [&](sched::Plan const &plan) {
      auto o = sched::run(plan, [&] { body(p, mk); });
      n++;
      auto &x = seen[o.trace];
      if (x.first++ == 0) x.second = plan_text(plan);
      return o;
    };
    unsigned long h = seed;
    for (char c: p.id) h = h * 131 + (unsigned char) c;
    for (long k = 0; k < random; k++) {
      sched::Plan plan;
      plan.seed     = h * 1000003 + (unsigned long) k;
      plan.mode     = k % 3 == 0 ? 0 : 1;
      plan.spurious = spurious && k % 4 == 1;
      plan.timers   = timers && k % 2 == 0;
      once(plan);
    }
    bool complete = false;
    if (systematic > 0) {
      sched::Plan plan;
      plan.mode        = 2;
      plan.preemptions = preemptions;
      plan.timers      = timers;
      for (long k = 0; k < systematic; k++) {
        auto o = once(plan);
        auto c = o.choices;
        while (!c.empty() && c.back().second + 1 >= c.back().first) c.pop_back();
        if (c.empty()) {
          complete = true;
          break;
        }
        c.back().second++;
        plan.prefix.clear();
        for (auto &x: c) plan.prefix.push_back(x.second);
      }
    }
    for (auto &[t, x]: seen) std::cout << "trace\t" << p.id << '\t' << x.first << '\t' << x.second << '\t' << t << '\n';
    std::cout << "stats\t" << p.id << '\t' << n << '\t' << seen.size() << '\t' << complete << std::endl;
  }

  inline int run_main(int argc, char **argv, Maker const &mk) {
    std::ios::sync_with_stdio(false);
    if (argc < 7) return 2;
    long const random = std::atol(argv[1]), systematic = std::atol(argv[2]);
    int const preemptions = std::atoi(argv[3]);
    bool const spurious = std::atoi(argv[4]), timers = std::atoi(argv[5]);
    unsigned long const seed = std::strtoul(argv[6], nullptr, 10);
    S line;
    while (std::getline(std::cin, line)) {
      auto f = cut(line, '\t');
      if (f[0] != "prog" && f[0] != "replay") continue;
      Program p;
      p.id = f[1];
      for (auto &kv: cut(f[2], ' ')) {
        auto e = kv.find('=');
        if (e != S::npos) p.cfg[kv.substr(0, e)] = kv.substr(e + 1);
      }
      auto parts = cut(f[3], '|');
      parts.resize(3);
      p.first = parse(parts[0]), p.middle = parse(parts[1]), p.last = parse(parts[2]);
      if (f[0] == "prog") {
        for (std::size_t i = 4; i < f.size(); i++) p.clients.push_back(parse(f[i]));
        explore(p, mk, random, systematic, preemptions, spurious, timers, seed);
      } else { // replay <TAB> id <TAB> cfg <TAB> main <TAB> plan <TAB> client 1 ...
        for (std::size_t i = 5; i < f.size(); i++) p.clients.push_back(parse(f[i]));
        std::istringstream is(f[4]);
        sched::Plan plan;
        is >> plan.seed >> plan.mode >> plan.preemptions >> plan.spurious >> plan.timers;
        for (int k; is >> k;) plan.prefix.push_back(k);
        auto o = sched::run(plan, [&] { body(p, mk); });
        std::cout << "trace\t" << p.id << "\t1\t" << plan_text(plan) << '\t' << o.trace << std::endl;
      }
    }
    return 0;
  }

  // an operation of the program: its call and its return are events
  template<class F>
  void operation(char const *name, Op const &o, F &&f) {
    sched::log({"call", name, o.a, o.b, o.s});
    long r = f();
    sched::log({"ret", name, r, 0, ""});
  }
} // namespace conc
