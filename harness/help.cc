// Conformance driver for spec/Help.tla: builds the menu, asks for help screens on terminals of given widths and reports what was printed.
#include "shared.hh"

#include <algorithm>
#include <fcntl.h>
#include <fstream>
#include <pty.h>
#include <sys/ioctl.h>

static S plain(S const &s) {
  S o;
  for (std::size_t i = 0; i < s.size(); i++) {
    if (s[i] == '\\' && i + 1 < s.size()) {
      i++;
      o += s[i] == 'n' ? '\n' : s[i];
    } else
      o += s[i];
  }
  return o;
}

static SV fields(S const &line) {
  auto f = split(line, '\t');
  for (auto &x: f) x = plain(x);
  return f;
}

static void build(std::vector<SV> const &menu, SV const &st, bool again) {
  cmdr::app *app = nullptr;
  std::map<S, cmdr::opt::cmd *> at;
  for (auto const &f: menu) {
    if (f[0] == "app" && again) at[""] = &cmdr::get_app();
    else if (f[0] == "app") {
      auto &cli = cmdr::cli(f[1].c_str(), f[2].c_str(), f[3].c_str(), f[4].c_str(), f[5].c_str(), f[6].c_str());
      if (!st[1].empty()) cli.header(st[1].c_str());
      if (!st[2].empty()) cli.set_tail_line(st[2]);
      cli.set_no_tail_line(st[3] == "1");
      cli.set_no_cmdr_endings(st[4] == "1");
      cli.set_alias_right_align(st[5] == "1");
      if (st[6] != "-1") cli.set_minimal_tab_stop(std::stoi(st[6]));
      app   = &cli;
      at[""] = app;
    } else if (f[0] == "cmd") { // id owner long short aliases group hidden desc ldesc examples
      cmdr::opt::sub_cmd c{};
      c(f[3].c_str(), f[4].empty() ? nullptr : f[4].c_str());
      if (!f[5].empty()) c.underlying().title_aliases(split(f[5], ','));
      if (!f[6].empty()) c.group(f[6].c_str());
      if (f[7] == "1") c.hidden(true);
      c.description(f[8].c_str(), f[9].empty() ? nullptr : f[9].c_str());
      if (!f[10].empty()) c.examples(f[10].c_str());
      *at.at(f[2]) += c;
      at[f[1]] = at.at(f[2])->last_added_command();
    } else { // owner long short aliases group toggle hidden desc envs type default placeholder order
      with_typed(f[10], f[11], [&](auto &&v) {
        cmdr::opt::opt a{v};
        a(f[2].c_str(), f[3].empty() ? nullptr : f[3].c_str());
        if (!f[4].empty()) a.underlying().title_aliases(split(f[4], ','));
        if (f[13] == "1" && !f[6].empty()) a.toggle_group(f[6].c_str());
        if (!f[5].empty()) a.group(f[5].c_str());
        if (f[13] != "1" && !f[6].empty()) a.toggle_group(f[6].c_str());
        if (f[7] == "1") a.hidden(true);
        a.description(f[8].c_str());
        if (!f[9].empty())
          for (auto &e: split(f[9], ',')) a.env_vars(e.c_str());
        if (!f[12].empty()) a.placeholder(f[12].c_str());
        *at.at(f[1]) += a;
      });
    }
  }
}

// ask mode width shell term env=value|... words
static S ask(SV const &f) {
  auto &cli = cmdr::get_app();
  clearenv();
  if (!f[2].empty()) setenv("SHELL", f[2].c_str(), 1);
  if (!f[3].empty()) setenv("TERM", f[3].c_str(), 1);
  for (auto &e: split(f[4], '|'))
    if (auto p = e.find('='); p != S::npos) setenv(e.substr(0, p).c_str(), e.substr(p + 1).c_str(), 1);
  int w  = std::stoi(f[1]);
  int fd = -1, m = -1;
  if (w > 0) {
    struct winsize ws {};
    ws.ws_row = 24;
    ws.ws_col = (unsigned short) w;
    if (openpty(&m, &fd, nullptr, nullptr, &ws) != 0) _exit(7);
  } else
    fd = open("/dev/null", O_WRONLY);
  std::cout.flush();
  int saved = dup(1);
  dup2(fd, 1);
  std::ostringstream out;
  auto *old = std::cout.rdbuf(out.rdbuf());
  SV words{"app"};
  words.insert(words.end(), f.begin() + 5, f.end());
  std::vector<char *> av;
  for (auto &x: words) av.push_back(x.data());
  av.push_back(nullptr);
  S tail;
  try {
    cli.run((int) words.size(), av.data());
  } catch (std::exception const &e) {
    tail = S("\n!") + e.what();
  }
  std::cout.rdbuf(old);
  dup2(saved, 1);
  close(saved);
  close(fd);
  if (m >= 0) close(m);
  return out.str() + tail;
}

// The application of a menu in a file, run with the words given to it (for completions, by the shell).
static int as_application(S const &file, int argc, char *argv[]) {
  std::vector<SV> menu;
  std::ifstream in(file);
  for (S line; std::getline(in, line);) menu.push_back(fields(line));
  build(menu, SV{"setting", "", "", "0", "0", "0", "-1"}, false);
  return cmdr::get_app().run(argc, argv);
}

int main(int argc, char *argv[]) {
  if (auto *file = getenv("VERIF_MENU"); file) return as_application(file, argc, argv);
  std::vector<SV> menu, asks;
  SV st;
  S line, idx;
  S exe = argv[0];
  if (auto p = exe.rfind('/'); p != S::npos) exe = exe.substr(p + 1);
  while (std::getline(std::cin, line)) {
    auto f = fields(line);
    if (f[0] == "app" || f[0] == "cmd" || f[0] == "flag") menu.push_back(f);
    else if (f[0] == "case") {
      idx = f[1];
      asks.clear();
    } else if (f[0] == "setting") st = f;
    else if (f[0] == "ask") asks.push_back(f);
    else if (f[0] == "endcase")
      forked(idx, [&](std::ostream &os) {
        clearenv();
        build(menu, st, false);
        os << "\"exe\":" << jq(exe) << ",\"shown\":[";
        int i = 0;
        for (auto &a: asks) {
          if (i) {
            cmdr::get_app().reset();
            build(menu, st, true);
          }
          os << (i ? "," : "") << jq(ask(a));
          i++;
        }
        os << ']';
      });
  }
  return 0;
}
