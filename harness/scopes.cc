// Conformance driver for spec/Scopes.tla: real scopes, nested by recursion and ended by leaving them or by exceptions.
#include <cmdr11/cmdr_common.hh>
#include <cmdr11/cmdr_os_io_redirect.hh>

#include "jsonout.hh"
#include <algorithm>
#include <map>
#include <sstream>
#include <vector>

using S = std::string;
using namespace cmdr::os;

struct Op {
  S op, kind, out, in;
  int n;
};
struct Unwind {
  int k;
};
struct Closable {
  std::vector<int> *ran;
  int id;
  void close() { ran->push_back(-id); }
};

struct Play {
  std::vector<Op> ops;
  std::size_t at{};
  std::map<S, std::stringbuf> outs, ins;
  std::vector<int> ran;
  std::ostringstream seen;

  std::streambuf *out(S const &s) { return s.empty() ? nullptr : &outs[s]; }
  std::streambuf *in(S const &s) { return s.empty() ? nullptr : &ins[s]; }
  static int words(S const &t) { return int(std::count(t.begin(), t.end(), ' ')); }
  void show(int got) {
    seen << (seen.str().empty() ? "{" : ",{") << "\"got\":" << got << ",\"ran\":[";
    for (std::size_t i = 0; i < ran.size(); i++) seen << (i ? "," : "") << ran[i];
    seen << "],\"len\":{";
    int n = 0;
    for (auto &[k, b]: outs) seen << (n++ ? "," : "") << '"' << k << "\":" << words(b.str());
    seen << "}}";
  }
  // runs until the scope it is called in ends
  void body() {
    while (at < ops.size()) {
      auto const o = ops[at++];
      if (o.op == "open") {
        try {
          scope(o);
        } catch (Unwind const &u) {
          if (u.k > 1) throw Unwind{u.k - 1};
          show(0);
        }
      } else if (o.op == "write") {
        (o.kind == "cout" ? std::cout : o.kind == "cerr" ? std::cerr : std::clog) << o.n << ' ' << std::flush;
        show(0);
      } else if (o.op == "read") {
        S w;
        std::cin >> w;
        S const want = o.kind + "-";
        show(w.rfind(want, 0) == 0 ? std::stoi(w.substr(want.size())) : -1);
      } else if (o.op == "close") {
        closing = true;
        return;
      } else if (o.op == "throw") throw Unwind{o.n};
    }
  }
  bool closing{};
  void inside() {
    show(0);
    body();
  }
  void scope(Op const &o) {
    enter(o);
    if (closing) { // the scope has ended
      closing = false;
      show(0);
    }
  }
  void enter(Op const &o) {
    auto act = [this, n = o.n] { ran.push_back(n); };
    Closable c{&ran, o.n};
    if (o.kind == "stdout") {
      pipe_stdout_to s(out(o.out));
      inside();
    } else if (o.kind == "stderr") {
      pipe_stderr_to s(out(o.out));
      inside();
    } else if (o.kind == "stdlog") {
      pipe_stdlog_to s(out(o.out));
      inside();
    } else if (o.kind == "stdin") {
      pipe_stdin_to s(in(o.in));
      inside();
    } else if (o.kind == "all") {
      pipe_all_to s(out(o.out), in(o.in));
      inside();
    } else if (o.kind == "defer") {
      cmdr::util::defer<bool> d(act);
      inside();
    } else if (o.kind == "close") {
      cmdr::util::defer<Closable> d(c);
      inside();
    } else if (o.kind == "deduced") {
      cmdr::util::defer d(c);
      inside();
    } else if (o.kind == "closefn") {
      cmdr::util::defer<Closable, std::function<void()>> d(c, act);
      inside();
    } else if (o.kind == "fnclose") {
      cmdr::util::defer<Closable, std::function<void()>> d(std::function<void()>(act), c);
      inside();
    } else throw std::runtime_error("bad scope");
  }
};

int main() {
  auto *real_in = std::cin.rdbuf();
  std::istream is(real_in);
  std::ostream os(std::cout.rdbuf());
  S line;
  auto cut = [](S const &s) {
    std::vector<S> r;
    std::istringstream x(s);
    for (S w; std::getline(x, w, '\t');) r.push_back(w);
    return r;
  };
  while (std::getline(is, line)) {
    auto f = cut(line);
    Play p;
    S base;
    for (std::size_t i = 2; i + 4 < f.size(); i += 5) p.ops.push_back({f[i], f[i + 1] == "-" ? "" : f[i + 1], f[i + 2] == "-" ? "" : f[i + 2], f[i + 3] == "-" ? "" : f[i + 3], std::stoi(f[i + 4])});
    for (S s: {"cout", "cerr", "clog", "t1", "t2", "t3"}) p.outs[s];
    for (S s: {"cin", "i1", "i2"}) {
      S t;
      for (int k = 1; k < 60; k++) t += s + '-' + std::to_string(k) + ' ';
      p.ins[s].str(t);
    }
    struct Own { // the streams of this process
      std::streambuf *o = std::cout.rdbuf(), *e = std::cerr.rdbuf(), *l = std::clog.rdbuf(), *i = std::cin.rdbuf();
      ~Own() { std::cout.rdbuf(o), std::cerr.rdbuf(e), std::clog.rdbuf(l), std::cin.rdbuf(i); }
    };
    bool back;
    {
      Own own;
      std::cout.rdbuf(&p.outs["cout"]), std::cerr.rdbuf(&p.outs["cerr"]), std::clog.rdbuf(&p.outs["clog"]), std::cin.rdbuf(&p.ins["cin"]);
      p.body();
      back = std::cout.rdbuf() == &p.outs["cout"] && std::cerr.rdbuf() == &p.outs["cerr"] && std::clog.rdbuf() == &p.outs["clog"] && std::cin.rdbuf() == &p.ins["cin"];
    }
    os << "{\"case\":" << f[1] << ",\"seen\":[" << p.seen.str() << "],\"back\":" << (back ? "true" : "false") << ",\"text\":{";
    int n = 0;
    for (auto &[k, b]: p.outs) os << (n++ ? "," : "") << '"' << k << "\":" << jq(b.str());
    os << "},\"after\":[";
    for (std::size_t i = 0; i < p.ran.size(); i++) os << (i ? "," : "") << p.ran[i];
    os << "]}" << std::endl;
  }
  return 0;
}
