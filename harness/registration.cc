// Conformance driver for spec/Registration.tla: replays a history of additions and reports what is registered.
#include "shared.hh"

struct Op {
  bool isCmd;
  S owner, lng, shrt;
  SV aliases;
  S t, v, group;
};

static std::vector<std::pair<S, void const *>> g_added;
static std::map<S, cmdr::opt::cmd *> g_cmd;
static std::map<S, cmdr::opt::arg *> g_arg;

static S cid(cmdr::opt::cmd const *c) {
  if (!c || !c->valid()) return "";
  for (auto &[k, p]: g_cmd)
    if (p == c) return k;
  return "!" + c->dotted_key();
}
static S aid(cmdr::opt::arg const *a) {
  if (!a || !a->valid()) return "";
  for (auto &[k, p]: g_arg)
    if (p == a) return k;
  return "!" + a->dotted_key();
}

template<class M, class F>
static void jmap(std::ostream &os, M const &m, F &&f) {
  os << '{';
  int i = 0;
  for (auto &[k, v]: m) {
    os << (i++ ? "," : "") << jq(k) << ':';
    f(v);
  }
  os << '}';
}

static void play(std::vector<Op> const &ops, SV const &titles, std::ostream &os) {
  auto &cli = cmdr::get_app();
  auto base = snapshot();
  S err;
  int done = 0;
  cli.set_global_on_arg_added_handlers([](cmdr::opt::arg *a) { g_added.emplace_back("flag", a); });
  cli.set_global_on_cmd_added_handlers([](cmdr::opt::cmd *c) { g_added.emplace_back("cmd", c); });
  auto join = [](S const &o, S const &l) { return o.empty() ? l : o + "." + l; };
  try {
    for (auto &o: ops) {
      cmdr::opt::cmd &owner = o.owner.empty() ? static_cast<cmdr::opt::cmd &>(cli) : *g_cmd.at(o.owner);
      if (o.isCmd) {
        cmdr::opt::sub_cmd c{};
        c(o.lng.c_str(), o.shrt.empty() ? nullptr : o.shrt.c_str());
        c.underlying().title_aliases(o.aliases);
        owner += c;
        g_cmd[join(o.owner, o.lng)] = owner.last_added_command();
      } else {
        with_typed(o.t, o.v, [&](auto &&v) {
          cmdr::opt::opt a{v};
          a(o.lng.c_str(), o.shrt.empty() ? nullptr : o.shrt.c_str());
          a.underlying().title_aliases(o.aliases);
          if (!o.group.empty()) {
            if (o.t == "bool") a.toggle_group(o.group.c_str());
            else a.group(o.group.c_str());
          }
          owner += a;
        });
        g_arg[join(o.owner, o.lng)] = owner.last_added_arg();
      }
      done++;
    }
  } catch (std::exception const &e) {
    err = "error";
  } catch (...) {
    err = "?";
  }
  os << "\"done\":" << done << ",\"err\":" << jq(err);
  if (!err.empty()) return;
  os << ",\"order\":[";
  for (std::size_t i = 0; i < g_added.size(); i++) {
    auto &[k, p] = g_added[i];
    os << (i ? "," : "") << '[' << jq(k) << ','
       << jq(k == "cmd" ? cid((cmdr::opt::cmd const *) p) : aid((cmdr::opt::arg const *) p)) << ']';
  }
  auto owner_of = [&](cmdr::opt::bas const *b) {
    return b->owner() == static_cast<cmdr::opt::cmd *>(&cli) ? S() : cid(b->owner());
  };
  os << "],\"cmds\":";
  jmap(os, g_cmd, [&](auto *c) { os << jq(owner_of(c)); });
  os << ",\"flags\":";
  jmap(os, g_arg, [&](auto *a) { os << jq(owner_of(a)); });
  os << ",\"dotted\":";
  std::map<S, S> dk;
  for (auto &[k, p]: g_cmd) dk["c:" + k] = p->dotted_key();
  for (auto &[k, p]: g_arg) dk["f:" + k] = p->dotted_key();
  jmap(os, dk, [&](S const &x) { os << jq(x); });
  os << ",\"store\":{";
  int i = 0;
  for (auto &[k, v]: snapshot()) {
    auto it = base.find(k);
    if (it != base.end() && it->second == v) continue;
    os << (i++ ? "," : "") << jq(k) << ":{\"t\":" << jq(v.first) << ",\"v\":" << jq(v.second) << '}';
  }
  os << '}';
  std::map<S, cmdr::opt::cmd *> all = g_cmd;
  all[""]                           = &cli;
  auto look                         = [&](char const *name, auto &&fn) {
    os << ",\"" << name << "\":";
    jmap(os, all, [&](cmdr::opt::cmd *c) {
      std::map<S, S> m;
      for (auto &t: titles)
        if (auto id = fn(*c, t); !id.empty()) m[t] = id;
      jmap(os, m, [&](S const &x) { os << jq(x); });
    });
  };
  look("find", [](cmdr::opt::cmd &c, S const &t) { return cid(&c(t.c_str())); });
  look("findx", [](cmdr::opt::cmd &c, S const &t) { return cid(&c(t.c_str(), true)); });
  look("findf", [](cmdr::opt::cmd &c, S const &t) { return aid(&c[t.c_str()]); });
  look("findf1", [](cmdr::opt::cmd &c, S const &t) { return aid(&c[("-" + t).c_str()]); });
  look("findf2", [](cmdr::opt::cmd &c, S const &t) { return aid(&c[("--" + t).c_str()]); });
  // the same through a command that must not be changed
  using CC = cmdr::opt::cmd const;
  auto cidc = [](cmdr::opt::cmd const *p) { return cid(const_cast<cmdr::opt::cmd *>(p)); };
  auto aidc = [](cmdr::opt::arg const *p) { return aid(const_cast<cmdr::opt::arg *>(p)); };
  look("cfind", [&](CC &c, S const &t) { return cidc(&c(t.c_str())); });
  look("cfindx", [&](CC &c, S const &t) { return cidc(&c(t.c_str(), true)); });
  look("cfindf", [&](CC &c, S const &t) { return aidc(&c[t.c_str()]); });
  look("cfindf1", [&](CC &c, S const &t) { return aidc(&c[("-" + t).c_str()]); });
  os << ",\"leaf\":[";
  i = 0;
  for (auto &[k, c]: all)
    if (c->no_sub_commands() && !c->has_sub_commands()) os << (i++ ? "," : "") << jq(k);
  os << "],\"walk\":[";
  SV w;
  cli.walk_args([&](cmdr::opt::arg &a) {
    auto id = aid(&a);
    if (!id.empty() && id[0] != '!') w.push_back(id);
  });
  for (std::size_t k = 0; k < w.size(); k++) os << (k ? "," : "") << jq(w[k]);
  os << "],\"groups\":";
  std::map<S, std::map<S, S>> gs;
  for (auto &o: ops)
    if (!o.isCmd && !o.group.empty() && o.t == "bool") {
      try {
        gs[o.owner][o.group] = all.at(o.owner)->toggle_group(o.group);
      } catch (std::exception const &) {
        gs[o.owner][o.group] = "?";
      }
    }
  jmap(os, gs, [&](std::map<S, S> const &m) { jmap(os, m, [&](S const &x) { os << jq(x); }); });
}

int main() {
  clearenv();
  (void) cmdr::cli("conf", "1.2.3", "author", "Copyright", "DESC-ROOT.", "");
  SV titles;
  std::vector<Op> ops;
  S line, idx;
  while (std::getline(std::cin, line)) {
    auto f = split(line, '\t');
    if (f[0] == "titles") titles.assign(f.begin() + 1, f.end());
    else if (f[0] == "case") {
      idx = f[1];
      ops.clear();
    } else if (f[0] == "cmd" || f[0] == "flag") {
      Op o{f[0] == "cmd", f[1], f[2], f[3], f[4].empty() ? SV{} : split(f[4], ','), "", "", ""};
      if (!o.isCmd) {
        o.t     = f[5];
        o.v     = f[6];
        o.group = f[7];
      }
      ops.push_back(o);
    } else if (f[0] == "endcase")
      forked(idx, [&](std::ostream &os) { play(ops, titles, os); });
  }
  return 0;
}
