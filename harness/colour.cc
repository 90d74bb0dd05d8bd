// Conformance driver for spec/Colour.tla: writes to a string, and reports the bytes.
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>

#include <cmdr11/cmdr11.hh>

#include "colour_names.hh"
#include "jsonout.hh"

using cmdr::terminal::colors::colorize;
using SV = std::vector<std::string>;
using C2 = colorize::Colors256;

#define X(n) {#n, C2::n},
static std::map<std::string, C2> const named{COLOUR_NAMES(X)};
#undef X

static void mod(colorize &c, std::string const &m, int how) { // 0 off, 1 on, 2 reset_
#define M(x) if (m == #x) { if (how == 2) c.reset_##x(); else if (how == 1) c.x(); else c.x(false); }
  M(bold) M(dim) M(italic) M(underline) M(blink) M(rblink) M(reverse) M(hidden) M(crossed)
#undef M
}

static void name(std::ostream &os, std::string const &what, std::string const &n) {
#define N(w, x) if (what == #w && n == #x) os << colorize::w::x;
  N(style, reset) N(style, bold) N(style, dim) N(style, italic) N(style, underline) N(style, blink) N(style, rblink) N(style, reversed) N(style, conceal) N(style, crossed)
  N(reset, all) N(reset, bold) N(reset, dim) N(reset, italic) N(reset, underline) N(reset, blink) N(reset, rblink) N(reset, reversed) N(reset, conceal) N(reset, crossed)
#define B(w) N(w, black) N(w, red) N(w, green) N(w, yellow) N(w, blue) N(w, magenta) N(w, cyan) N(w, gray)
  B(fg) B(bg) B(fgB) B(bgB) N(fg, reset) N(bg, reset)
}

static void colour(colorize &c, bool fore, SV const &f) { // fg k kind ...
  if (f[2] == "rgb") {
    int r = std::stoi(f[3]), g = std::stoi(f[4]), b = std::stoi(f[5]);
    fore ? c.fg(r, g, b) : c.bg(r, g, b);
  } else {
    C2 x = f[2] == "default" ? C2::Default : f[2] == "named" ? named.at(f[3]) : static_cast<C2>(std::stoi(f[3]));
    fore ? c.fg(x) : c.bg(x);
  }
}

static std::string play(std::vector<SV> const &ops) {
  std::ostringstream os;
  std::map<std::string, std::unique_ptr<colorize>> cols;
  std::vector<std::unique_ptr<std::string>> kept; // s(char const *) keeps no copy
  unsetenv("COLORTERM");
  for (auto const &f: ops) {
    auto const &o = f[0];
    bool b        = f.back() == "True";
    if (o == "term") setenv("TERM", f[1].c_str(), 1);
    else if (o == "default") colorize::set_default_colorful(b);
    else if (o == "new") cols[f[1]] = std::make_unique<colorize>(colorize::create());
    else if (o == "name") name(os, f[1], f[2]);
    else if (o == "write") os << f[1];
    else {
      colorize &c = *cols.at(f[1]);
      if (o == "mod") mod(c, f[2], b);
      else if (o == "unmod") mod(c, f[2], 2);
      else if (o == "resetall") c.reset_all();
      else if (o == "fg" || o == "bg") colour(c, o == "fg", f);
      else if (o == "cc") {
        kept.push_back(std::make_unique<std::string>(f[2]));
        c.s(kept.back()->c_str());
      } else if (o == "ss") c.s(f[2]);
      else if (o == "auto") c.auto_reset(b);
      else if (o == "enable") c.enable(b);
      else if (o == "clear") c.clear();
      else if (o == "print") {
        if (f[2] == "string") os << c.as_string();
        else os << c;
      } else os << "?" << o;
    }
  }
  return os.str();
}

// The default of a process is set once, so every history has its own; many histories share one if they do not set it.
int main() {
  std::string line, id;
  std::vector<SV> ops;
  while (std::getline(std::cin, line)) {
    SV f(1);
    for (char c: line)
      if (c == '\t') f.emplace_back();
      else
        f.back() += c;
    if (f[0] == "case") {
      id = f[1];
      ops.clear();
    } else if (f[0] == "end") {
      bool own = false;
      for (auto const &o: ops) own = own || o[0] == "default";
      if (!own) {
        std::cout << "{\"case\":" << id << ",\"out\":" << jq(play(ops)) << "}\n";
        continue;
      }
      std::cout.flush();
      pid_t p = fork();
      if (p == 0) {
        std::cout << "{\"case\":" << id << ",\"out\":" << jq(play(ops)) << "}\n";
        std::cout.flush();
        _exit(0);
      }
      int st = 0;
      waitpid(p, &st, 0);
      if (st != 0) std::cout << "{\"case\":" << id << ",\"crash\":" << st << "}\n";
    } else
      ops.push_back(f);
  }
  return 0;
}
