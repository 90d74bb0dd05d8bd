// Conformance driver for the command-line processor (spec/CmdrParser.tla).
//
// Reads a menu and test cases (tab-separated lines, made by bin/check.py from what TLC emits), builds the
// menu through the public API, runs each case in a forked child, and prints one JSON object per case.

#include <sys/wait.h>
#include <unistd.h>

#include "shared.hh"

struct CmdDef {
  S id, lng, shrt;
  SV aliases;
  S owner;
  bool hidden;
  int hit;
};
struct FlagDef {
  S id, cmd, lng, shrt;
  SV aliases;
  S type, dflt, group;
  bool required, hidden;
  SV envs;
  int act;
};
static std::vector<CmdDef> g_cmds;
static std::vector<FlagDef> g_flags;
static bool g_decorate; // put commands and flags into display groups
static std::map<S, cmdr::opt::cmd *> g_cmdp;
static std::map<S, cmdr::opt::arg *> g_flagp;

// ---- per run settings and the event log -------------------------------------------------------
struct Slot {
  S kind;
  int arg;
};
static std::map<S, Slot> g_slots;
static std::vector<std::tuple<S, S, S>> g_load;
static std::ostringstream g_log;
static int g_nlog;

static S idof(cmdr::opt::cmd const &c) {
  for (auto &[k, p]: g_cmdp)
    if (p == &c) return k;
  if (&c == static_cast<cmdr::opt::cmd const *>(&cmdr::get_app())) return "";
  auto k = c.dotted_key(); // a built-in command
  return k.rfind("app.cli.", 0) == 0 ? k.substr(8) : "?" + k;
}
static S idof(cmdr::opt::arg const &a) {
  auto k = a.dotted_key();
  return k.rfind("app.cli.", 0) == 0 ? k.substr(8) : "?" + k;
}
static void event(S const &e, S const &id, SV const *args) {
  if (g_nlog++) g_log << ',';
  g_log << "{\"e\":" << jq(e) << ",\"id\":" << jq(id) << ",\"args\":";
  if (args) {
    g_log << '[';
    for (std::size_t i = 0; i < args->size(); i++) g_log << (i ? "," : "") << jq((*args)[i]);
    g_log << ']';
  } else
    g_log << "null";
  g_log << '}';
}

static int behave(S const &slot, cmdr::opt::cmd const &c, SV const &args) {
  event(slot, idof(c), &args);
  auto &s = g_slots.at(slot);
  if (s.kind == "throw") throw std::runtime_error("handler failed");
  if (s.kind == "request") throw cmdr::opt::cmdr_requests_exception((cmdr::opt::Action) s.arg);
  return s.arg;
}

// help-screen groups: unsorted, named, numbered, numbered alike, numbers only
template<class F>
static void decorate(S const &id, F const &set) {
  static char const *const groups[] = {nullptr, "20.Beta", "Alpha", "20.Other", "3333", "9000.Same", "3333.x", "Zeta."};
  std::size_t h = 7;
  for (char c: id) h = h * 31 + (unsigned char) c;
  if (auto *g = groups[h / 3 % 8]) set(g);
}

static void build() {
  using namespace cmdr::opt;
  auto &cli = cmdr::get_app();
  g_cmdp.clear();
  g_flagp.clear();
  auto cmd_of = [&](S const &id) -> cmd & { return id.empty() ? static_cast<cmd &>(cli) : *g_cmdp.at(id); };
  for (auto &d: g_cmds) {
    sub_cmd sc{};
    sc(d.lng.c_str(), d.shrt.empty() ? nullptr : d.shrt.c_str());
    sc.underlying().title_aliases(d.aliases);
    sc.description(("DESC-C-" + d.id + ".").c_str());
    sc.hidden(d.hidden);
    if (g_decorate) decorate(d.id, [&](char const *g) { sc.group(g); });
    auto &o = cmd_of(d.owner);
    o += sc;
    g_cmdp[d.id] = o.last_added_command();
    if (d.hit != -1) {
      int rc = d.hit;
      g_cmdp[d.id]->on_command_hit([rc](cmd const &c, SV const &a) {
        event("cmd-hit", idof(c), &a);
        return (Action) rc;
      });
    }
  }
  for (auto &d: g_flags) {
    auto &o  = cmd_of(d.cmd);
    auto add = [&](auto &&op) {
      op(d.lng.c_str(), d.shrt.empty() ? nullptr : d.shrt.c_str());
      op.underlying().title_aliases(d.aliases);
      op.description(("DESC-F-" + d.id + ".").c_str());
      op.required(d.required);
      op.hidden(d.hidden);
      if (g_decorate && d.group.empty()) decorate(d.id, [&](char const *g) { op.group(g); });
      if (!d.group.empty()) op.toggle_group(d.group.c_str());
      for (auto &e: d.envs) op.env_vars(e.c_str());
      if (d.act != 99) {
        int rc = d.act;
        op.on_hit([rc](cmd const &, arg const &f, SV const &a) {
          event("flag-hit", idof(f), &a);
          return (Action) rc;
        });
      }
      o += op;
    };
    if (d.type == "bool" && d.dflt == "false") add(opt{});
    else with_typed(d.type, d.dflt, [&](auto &&v) { add(opt{v}); });
    g_flagp[d.id] = o.last_added_arg();
  }
  cli.set_global_on_loading_externals([](cmdr::app &) {
    for (auto const &t: g_load)
      with_typed(std::get<1>(t), std::get<2>(t), [&](auto &&v) {
        cmdr::get_app().store().set_raw(std::get<0>(t).c_str(), v);
      });
  });
  cli.set_global_on_arg_matched_handlers([](cmdr::opt::arg *a) { event("arg-matched", idof(*a), nullptr); });
  cli.set_global_on_cmd_matched_handlers([](cmdr::opt::cmd *c) { event("cmd-matched", idof(*c), nullptr); });
  cli.set_global_on_post_run_handlers([](cmdr::app const &) { event("postrun", "", nullptr); });
}

static auto const default_not_hooked = [](cmdr::opt::cmd const &, SV const &) { return 0; };

// What the application was told since it was made or reset: what a run does not ask for is only taken back where it was set, so that
// a reset application runs as a new one would.
static struct {
  bool strictCmd{true}, strictFlag{true};
  std::set<S> slots;
  bool quiet{};
} g_told;

static void attach() {
  auto &cli = cmdr::get_app();
  auto has  = [](char const *s) { return g_slots.count(s) != 0; };
  auto fn   = [](char const *slot) {
    return [slot](cmdr::opt::cmd const &c, SV const &a) { return behave(slot, c, a); };
  };
  auto put = [&](char const *slot, auto const &set) {
    if (has(slot)) {
      set(fn(slot));
      g_told.slots.insert(slot);
    } else if (g_told.slots.erase(slot))
      set(nullptr);
  };
  put("gpre", [&](auto const &f) { cli.set_global_pre_invoke_handler(f); });
  put("gpost", [&](auto const &f) { cli.set_global_post_invoke_handler(f); });
  if (has("nothooked")) {
    cli.set_global_on_command_not_hooked(fn("nothooked"));
    g_told.quiet = false;
  } else if (!g_told.quiet) {
    cli.set_global_on_command_not_hooked(default_not_hooked);
    g_told.quiet = true;
  }
  put("pre", [&](auto const &f) {
    for (auto &[id, c]: g_cmdp) c->on_pre_invoke(f);
  });
  put("inv", [&](auto const &f) {
    for (auto &[id, c]: g_cmdp) c->on_invoke(f);
  });
  put("post", [&](auto const &f) {
    for (auto &[id, c]: g_cmdp) c->on_post_invoke(f);
  });
}

// Whatever an application was told before a reset is gone afterwards.
static void soil() {
  using namespace cmdr::opt;
  auto &cli = cmdr::get_app();
  auto stale = [](cmd const &c, SV const &a) {
    event("stale", idof(c), &a);
    return 0;
  };
  cli.set_global_pre_invoke_handler(stale);
  cli.set_global_post_invoke_handler(stale);
  cli.set_global_on_command_not_hooked(stale);
  cli.set_global_on_loading_externals([](cmdr::app &a) {
    event("stale", "", nullptr);
    a.store().set_raw("app.cli.stale", 1);
  });
  cli.set_global_on_arg_matched_handlers([](arg *a) { event("stale", idof(*a), nullptr); });
  cli.set_global_on_cmd_matched_handlers([](cmd *c) { event("stale", idof(*c), nullptr); });
  cli.set_global_on_post_run_handlers([](cmdr::app const &) { event("stale", "", nullptr); });
  cli.on_invoke(stale);
  cli.on_pre_invoke(stale);
  cli.on_post_invoke(stale);
  cli.on_command_hit([](cmd const &c, SV const &a) {
    event("stale", idof(c), &a);
    return Action::OK;
  });
  cli.treat_unknown_input_command_as_error(false);
  cli.treat_unknown_input_flag_as_error(false);
  cli.set("stale.value", 1);
  cli.store().set_raw("app.cli.verbose", true);
}

static void out_hits(std::ostream &os, cmdr::opt::bas const &b) {
  os << "{\"n\":" << b.hit_count() << ",\"title\":" << jq(b.hit_title()) << ",\"long\":" << (b.hit_long() ? "true" : "false")
     << ",\"spec\":" << (b.hit_special() ? "true" : "false") << ",\"env\":" << (b.hit_env() ? "true" : "false") << '}';
}
static bool fresh(cmdr::opt::bas const &b) {
  return b.hit_count() == 0 && b.hit_title().empty() && !b.hit_long() && !b.hit_special() && !b.hit_env();
}

static const char *const kBuiltinCmds[] = {"help", "version", "print", "generate", "generate.doc", "generate.manual", "generate.shell"};

static cmdr::opt::cmd const *find_cmd(S const &id) {
  cmdr::opt::cmd const *p = &cmdr::get_app();
  for (auto &x: split(id, '.')) {
    p = &(*p)(x.c_str());
    if (!p->valid()) return nullptr;
  }
  return p;
}

static int do_run(SV const &words, Snap const &base, std::ostream &os) {
  auto &cli = cmdr::get_app();
  g_log.str("");
  g_nlog = 0;
  attach();
  std::vector<char *> argv;
  SV store{"prog"};
  for (auto &w: words) store.push_back(w);
  for (auto &w: store) argv.push_back(w.data());
  argv.push_back(nullptr);
  int rc = 0;
  S thrown;
  std::ostringstream cap, cape;
  auto *so = std::cout.rdbuf(cap.rdbuf());
  auto *se = std::cerr.rdbuf(cape.rdbuf());
  try {
    rc = cli.run((int) store.size(), argv.data());
  } catch (cmdr::exception::cmdr_biz_error const &) {
    thrown = "biz";
  } catch (std::exception const &e) {
    thrown = e.what();
  } catch (...) {
    thrown = "?";
  }
  std::cout.rdbuf(so);
  std::cerr.rdbuf(se);

  os << "{\"ret\":" << rc << ",\"thrown\":" << jq(thrown) << ",\"log\":[" << g_log.str() << "],\"out\":" << jq(cap.str())
     << ",\"err\":" << jq(cape.str().substr(0, 3000));
  os << ",\"chits\":{";
  int i = 0;
  for (auto &[id, p]: g_cmdp)
    if (!fresh(*p)) {
      os << (i++ ? "," : "") << jq(id) << ':';
      out_hits(os, *p);
    }
  for (auto *id: kBuiltinCmds)
    if (auto *p = find_cmd(id); p && !fresh(*p)) {
      os << (i++ ? "," : "") << jq(id) << ':';
      out_hits(os, *p);
    }
  os << "},\"fhits\":{";
  i = 0;
  cli.walk_args([&](cmdr::opt::arg &a) {
    if (!fresh(a)) {
      os << (i++ ? "," : "") << jq(idof(a)) << ':';
      out_hits(os, a);
    }
  });
  os << "},\"chosen\":{";
  i = 0;
  {
    std::map<S, std::map<S, S>> m;
    for (auto &f: g_flags)
      if (!f.group.empty() && f.type == "bool") {
        cmdr::opt::cmd *c = f.cmd.empty() ? (cmdr::opt::cmd *) &cli : g_cmdp.at(f.cmd);
        try {
          m[f.cmd][f.group] = c->toggle_group(f.group);
        } catch (std::exception const &) {
          m[f.cmd][f.group] = "?none";
        }
      }
    for (auto &[c, gs]: m) {
      os << (i++ ? "," : "") << jq(c) << ":{";
      int j = 0;
      for (auto &[g, v]: gs) os << (j++ ? "," : "") << jq(g) << ':' << jq(v);
      os << '}';
    }
  }
  os << "},\"store\":{";
  i         = 0;
  auto snap = snapshot();
  for (auto &[k, v]: snap) {
    auto it = base.find(k);
    if (it != base.end() && it->second == v) continue;
    os << (i++ ? "," : "") << jq(k) << ":{\"t\":" << jq(v.first) << ",\"v\":" << jq(v.second) << '}';
  }
  for (auto &[k, v]: base)
    if (!snap.count(k)) os << (i++ ? "," : "") << jq(k) << ":{\"t\":\"gone\",\"v\":\"\"}";
  os << "}}";
  return rc;
}

struct Step {
  char kind; // R run, X reset
  SV words;
  std::map<S, S> env;
  std::vector<std::tuple<S, S, S>> load;
  std::map<S, Slot> slots;
  bool strictCmd{true}, strictFlag{true}, nocatch{false};
};

int main(int argc, char **argv) {
  (void) argc;
  std::ios::sync_with_stdio(true);
  clearenv();
  setenv("PATH", "/usr/bin:/bin", 1);
  std::cout.rdbuf(); // keep
  (void) argv;
  auto &cli = cmdr::cli("conf", "1.2.3", "author", "Copyright", "DESC-ROOT.", "");
  // a new application registers into a store; nothing else may be there
  std::vector<Step> steps;
  Step cur;
  S line, idx;
  Snap base;
  bool built = false;
  while (std::getline(std::cin, line)) {
    auto f = split(line, '\t');
    if (f[0] == "cmd") {
      g_cmds.push_back({f[1], f[2], f[3], f[4].empty() ? SV{} : split(f[4], ','), f[5], f[6] == "1", std::stoi(f[7])});
    } else if (f[0] == "flag") {
      g_flags.push_back({f[1], f[2], f[3], f[4], f[5].empty() ? SV{} : split(f[5], ','), f[6], f[7], f[8], f[9] == "1",
                         f[10] == "1", f[11].empty() ? SV{} : split(f[11], ','), std::stoi(f[12])});
    } else if (f[0] == "endmenu") {
      build();
      base  = snapshot();
      built = true;
      std::cout << "{\"menu\":{";
      int i = 0;
      for (auto &[k, v]: base) std::cout << (i++ ? "," : "") << jq(k) << ":{\"t\":" << jq(v.first) << ",\"v\":" << jq(v.second) << '}';
      std::cout << "},\"descs\":{" << jq("") << ':' << jq(cli.description());
      for (auto &[k, p]: g_cmdp) std::cout << ',' << jq(k) << ':' << jq(p->description());
      for (auto *id: kBuiltinCmds)
        if (auto *p = find_cmd(id); p) std::cout << ',' << jq(id) << ':' << jq(p->description());
      std::cout << "}}\n" << std::flush;
    } else if (f[0] == "decorate") {
      g_decorate = true;
    } else if (f[0] == "case") {
      steps.clear();
      idx = f[1];
      cur = Step{};
    } else if (f[0] == "env") {
      cur.env[f[1]] = f[2];
    } else if (f[0] == "load") {
      cur.load.emplace_back(f[1], f[2], f[3]);
    } else if (f[0] == "slot") {
      cur.slots[f[1]] = {f[2], std::stoi(f[3])};
    } else if (f[0] == "opt") {
      cur.strictCmd  = f[1] == "1";
      cur.strictFlag = f[2] == "1";
      cur.nocatch    = f[3] == "1";
    } else if (f[0] == "run") {
      cur.kind = 'R';
      cur.words.assign(f.begin() + 1, f.end());
      steps.push_back(cur);
      cur = Step{};
    } else if (f[0] == "reset") {
      Step s{};
      s.kind = 'X';
      steps.push_back(s);
    } else if (f[0] == "endcase") {
      if (!built) return 9;
      std::cout.flush();
      pid_t pid = fork();
      if (pid == 0) {
        alarm(30);
        std::ostringstream os;
        os << "{\"case\":" << idx << ",\"runs\":[";
        int n = 0;
        for (auto &s: steps) {
          if (s.kind == 'X') {
            soil();
            cli.reset();
            g_told = {};
            build();
            continue;
          }
          for (auto &[k, v]: s.env) setenv(k.c_str(), v.c_str(), 1);
          g_load  = s.load;
          g_slots = s.slots;
          if (g_told.strictCmd != s.strictCmd) cli.treat_unknown_input_command_as_error(g_told.strictCmd = s.strictCmd);
          if (g_told.strictFlag != s.strictFlag) cli.treat_unknown_input_flag_as_error(g_told.strictFlag = s.strictFlag);
          cli.set_no_catch_cmdr_biz_error(s.nocatch);
          os << (n++ ? "," : "");
          do_run(s.words, base, os);
          for (auto &[k, v]: s.env) unsetenv(k.c_str());
        }
        os << "]}\n";
        std::cout << os.str() << std::flush;
        _exit(0);
      }
      int st = 0;
      waitpid(pid, &st, 0);
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) std::cout << "{\"case\":" << idx << ",\"crash\":" << st << "}\n" << std::flush;
      static int hung = 0;
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM && ++hung == 2) return 8; // enough is known
    }
  }
  return 0;
}
