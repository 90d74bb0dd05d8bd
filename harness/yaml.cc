// Conformance driver for spec/Yaml.tla: documents in files are loaded through the loader, within a run of an application.
#include "shared.hh"

#include <filesystem>
#include <fstream>

#include "addons/loaders/yaml_loader.hh"

using cmdr::vars::variable;

static void jval(std::ostream &os, variable const &v) {
  if (v.type() == typeid(std::vector<variable>)) {
    os << "{\"t\":\"list\",\"v\":[";
    int i = 0;
    for (auto const &x: std::any_cast<std::vector<variable>>(v.underlying_value())) {
      os << (i++ ? "," : "");
      jval(os, x);
    }
    os << "]}";
    return;
  }
  os << "{\"t\":" << jq(type_tag(v.type())) << ",\"v\":" << jq(show(v.underlying_value())) << '}';
}

static S unhex(S const &h) {
  S s;
  for (std::size_t i = 0; i + 1 < h.size(); i += 2) s += (char) std::stoi(h.substr(i, 2), nullptr, 16);
  return s;
}

static const char *const places[] = {"", "envfile.yml", "home/.config/yvapp/yvapp.yml", "home/.yvapp/yvapp.yml", "yvapp.yml", ".yvapp.yml", "given.yml"};

struct Case {
  S idx, mode;
  std::vector<std::pair<int, S>> docs;
  std::vector<SV> presets;
};

static void play(Case const &c, std::ostream &os) {
  namespace fs = std::filesystem;
  using namespace cmdr::opt;
  char tmpl[]  = "yamlXXXXXX";
  fs::path dir = fs::absolute(mkdtemp(tmpl));
  fs::current_path(dir);
  setenv("HOME", (dir / "home").c_str(), 1);
  auto &cli = cmdr::cli("yvapp", "1.2.3", "x", "y", "z");
  cli += opt(S("dflt"))("name", "n").description("d");
  cli += sub_cmd{}("go").description("g").on_invoke([](cmd const &, string_array const &) -> int { return 0; });
  SV args{"yvapp"};
  bool asdir = c.mode == "dirs";
  for (auto &[n, text]: c.docs) {
    fs::path p = dir / places[n];
    if (asdir && (n == 1 || n == 6)) p = dir / (n == 1 ? "envdir" : "givendir") / "yvapp.yml";
    fs::create_directories(p.parent_path());
    std::ofstream(p) << text;
    auto arg = asdir ? p.parent_path().string() : p.string();
    if (n == 1) setenv("CONFIG_FILE", arg.c_str(), 1);
    if (n == 6) args.insert(args.end(), {"--config", arg});
  }
  for (auto &p: c.presets) {
    if (p[1] == "bool") cli.store().set_raw(unhex(p[0]).c_str(), unhex(p[2]) == "true");
    else cli.store().set_raw(unhex(p[0]).c_str(), unhex(p[2]));
  }
  int rc = 0;
  std::map<S, int> before;
  if (c.mode == "load") {
    for (auto &[k, v]: snapshot()) before[k] = 1;
    for (auto &[n, text]: c.docs) cmdr::addons::loaders::yaml_loader().load_to((dir / places[n]).string(), cli);
  } else {
    cli.set_global_on_loading_externals(cmdr::addons::loaders::yaml_loader{}());
    args.push_back("go");
    std::vector<char *> av;
    for (auto &a: args) av.push_back(a.data());
    av.push_back(nullptr);
    rc = cli.run((int) args.size(), av.data());
  }
  os << "\"rc\":" << rc << ",\"store\":{";
  int i = 0;
  SV keys;
  cli.store().walk_by_full_keys([&](std::pair<S, cmdr::vars::store::node_pointer> const &p) { keys.push_back(p.first); });
  for (auto &k: keys) {
    if (k == "app.config.file.files") continue;
    os << (i++ ? "," : "") << jq(k) << ':';
    jval(os, cli.store().get_raw(k));
  }
  os << "},\"files\":[";
  if (cli.has("config.file.files")) {
    i = 0;
    for (auto const &f: cli.get("config.file.files").as<SV &>()) {
      auto p = fs::path(f).is_absolute() ? fs::path(f).lexically_relative(dir) : fs::path(f);
      int n  = 0;
      for (int k = 1; k <= 6; k++)
        if (p == places[k]) n = k;
      if (p == "envdir/yvapp.yml") n = 1;
      if (p == "givendir/yvapp.yml") n = 6;
      os << (i++ ? "," : "") << n;
    }
  }
  os << ']';
  fs::current_path(dir.parent_path());
  fs::remove_all(dir);
}

int main() {
  S line;
  Case c;
  while (std::getline(std::cin, line)) {
    auto f = split(line, '\t');
    if (f[0] == "case") c = Case{f[1], f[2], {}, {}};
    else if (f[0] == "preset") c.presets.push_back({f[1], f[2], f[3]});
    else if (f[0] == "doc") c.docs.emplace_back(std::stoi(f[1]), unhex(f[2]));
    else if (f[0] == "endcase") forked(c.idx, [&](std::ostream &os) { play(c, os); });
  }
}
