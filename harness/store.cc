// Conformance driver for spec/Store.tla: replays operations on the option store of an application and shows every view of it.
#include "shared.hh"

using cmdr::vars::variable;

struct Op {
  S op, key, t, v;
  int slot, at, route;
};

static std::map<int, variable *> g_refs;
static std::map<int, S> g_refkey;

static std::pair<S, S> split_at(S const &key, int at) {
  std::size_t p = S::npos;
  for (int i = 0, from = 0; i < at; i++) {
    p    = key.find('.', (std::size_t) from);
    from = (int) p + 1;
  }
  return at == 0 ? std::make_pair(S(), key) : std::make_pair(key.substr(0, p), key.substr(p + 1));
}

template<class F>
static void typed(S const &t, S const &v, F &&f) {
  if (t == "char*") f((char const *) strdup(v.c_str()));
  else with_typed(t, v, f);
}

static void apply(Op const &o) {
  auto &cli   = cmdr::get_app();
  auto &store = cli.store();
  if (o.op == "set" || o.op == "setp") {
    auto [pre, rest] = split_at(o.key, o.at);
    typed(o.t, o.v, [&, pre = pre, rest = rest](auto &&v) {
      if (o.op == "setp") {
        if (o.route % 3 == 0) store.set_raw_p(pre.c_str(), rest.c_str(), v);
        else if (o.route % 3 == 1) store.set_raw_p(pre.c_str(), rest.c_str(), variable{v});
        else {
          variable x{v};
          store.set_raw_p(pre.empty() ? nullptr : pre.c_str(), rest.c_str(), x);
        }
      } else if (o.route % 4 == 0) store.set_raw(o.key.c_str(), v);
      else if (o.route % 4 == 1) store.set_raw(o.key.c_str(), variable{v});
      else if (o.route % 4 == 2 || o.key.rfind("app.", 0) != 0) {
        variable x{v};
        store.set_raw(o.key.c_str(), x);
      } else if (o.route % 8 == 3) cli.set(o.key.c_str() + 4, v);
      else {
        variable x{v};
        cli.set(o.key.c_str() + 4, x);
      }
    });
  } else if (o.op == "setsub") {
    auto [pre, rest] = split_at(o.key, o.at);
    auto n           = store.subtree(pre.c_str());
    if (!n) throw std::runtime_error("no subtree " + pre);
    typed(o.t, o.v, [&, rest = rest](auto &&v) { n->set(rest.c_str(), v); });
  } else if (o.op == "ref") {
    auto [pre, rest] = split_at(o.key, 1);
    variable *p      = nullptr;
    if (o.route % 3 == 0) p = &store.get_raw(o.key);
    else if (o.route % 3 == 1) p = &store.get_raw_p("", o.key.c_str());
    else if (pre == "app" && o.key.size() > 4) p = &cli.get(rest);
    else p = &store.get_raw(o.key.c_str());
    g_refs[o.slot]   = p;
    g_refkey[o.slot] = o.key;
  } else if (o.op == "wref") {
    typed(o.t, o.v, [&](auto &&v) {
      std::any a{v};
      if (o.route % 2) g_refs.at(o.slot)->emplace(a);
      else *g_refs.at(o.slot) = v;
    });
  } else if (o.op == "clear") {
    g_refs.at(o.slot)->reset();
  } else if (o.op == "probe") {
    (void) store.get_raw(o.key).empty();
    (void) store.has("", o.key.c_str());
    (void) store.subtree(o.key.c_str());
  } else if (o.op == "reset") {
    store.reset();
    g_refs.clear();
    g_refkey.clear();
  }
}

static void jval(std::ostream &os, variable const &v) {
  os << "{\"t\":" << jq(type_tag(v.type())) << ",\"v\":" << jq(show(v.underlying_value())) << '}';
}

using Node = cmdr::vars::store::node_pointer;
using Pair = std::pair<S, Node>;

static void lines(std::ostream &os, S const &text) {
  auto v = split(text, '\n');
  os << '[';
  int i = 0;
  for (std::size_t k = 1; k < v.size(); k++) // the first line is the title
    if (!v[k].empty()) os << (i++ ? "," : "") << jq(v[k]);
  os << ']';
}

static void play(std::vector<Op> const &ops, SV const &keys, SV const &prefixes, std::ostream &os) {
  auto &cli          = cmdr::get_app();
  auto &store        = cli.store();
  auto const &cstore = store;
  store.reset();
  store.set_dump_with_type_name(false);
  os << "\"seen\":[";
  bool refs_ok = true;
  for (std::size_t n = 0; n < ops.size(); n++) {
    apply(ops[n]);
    os << (n ? ",{" : "{");
    int i = 0;
    for (auto &k: keys) {
      auto const &v = cstore.get_raw(k);
      if (!v.has_value() && !cstore.has("", k.c_str())) continue;
      os << (i++ ? "," : "") << jq(k) << ':';
      jval(os, v);
    }
    os << '}';
    for (auto &[s, p]: g_refs) refs_ok = refs_ok && p == &store.get_raw(g_refkey[s]);
  }
  os << "],\"attached\":" << (refs_ok ? "true" : "false") << ",\"refs\":{";
  int i = 0;
  for (auto &[s, p]: g_refs) {
    os << (i++ ? "," : "") << '"' << s << "\":";
    jval(os, *p);
  }
  // every way of reading a key
  os << "},\"routes\":{";
  i = 0;
  for (auto &k: keys) {
    int depth = (int) std::count(k.begin(), k.end(), '.');
    os << (i++ ? "," : "") << jq(k) << ":[";
    std::vector<std::pair<variable const *, bool>> got;
    got.emplace_back(&store.get_raw(k.c_str()), store.has(nullptr, k.c_str()));
    got.emplace_back(&cstore.get_raw(k.c_str()), cstore.has("", k.c_str()));
    for (int at = 0; at <= depth; at++) {
      auto [pre, rest] = split_at(k, at);
      got.emplace_back(&store.get_raw_p(pre, rest), store.has(pre.c_str(), rest.c_str()));
      got.emplace_back(&store.get_raw_p(pre.c_str(), rest.c_str()), store.has(pre.c_str(), rest.c_str()));
      got.emplace_back(&cstore.get_raw_p(pre, rest), cstore.has(pre.c_str(), rest.c_str()));
      got.emplace_back(&cstore.get_raw_p(pre.c_str(), rest.c_str()), cstore.has(pre.c_str(), rest.c_str()));
      // the application's own view of its part of the store
      S const was = cli.store_prefix();
      cli.store_prefix(pre.c_str());
      got.emplace_back(&cli.get(rest), cli.has(rest.c_str()));
      got.emplace_back(&std::as_const(cli).get(rest.c_str()), std::as_const(cli).has(rest.c_str()));
      cli.store_prefix(was.c_str());
    }
    if (k.rfind("app.", 0) == 0) {
      got.emplace_back(&cli.get(k.c_str() + 4), cli.store().has("app", k.c_str() + 4));
      got.emplace_back(&cli.get(k.substr(4)), cli.store().has("app", k.c_str() + 4));
      got.emplace_back(&std::as_const(cli).get(k.substr(4)), true);
      got.back().second = cli.store().has("app", k.c_str() + 4);
      got.emplace_back(&std::as_const(cli).get(k.c_str() + 4), std::as_const(cli).has(k.c_str() + 4));
    }
    for (std::size_t n = 0; n < got.size(); n++) {
      os << (n ? ",[" : "[");
      jval(os, *got[n].first);
      os << ',' << (got[n].second ? "true" : "false") << ']';
    }
    os << ']';
  }
  os << "},\"walk\":[";
  i = 0;
  store.walk_by_full_keys([&](Pair const &p) {
    os << (i++ ? ",[" : "[") << jq(p.first) << ',';
    jval(os, *p.second);
    os << ']';
  });
  os << "],\"full\":";
  {
    std::ostringstream t;
    store.dump_full_keys(t);
    lines(os, t.str());
  }
  os << ",\"fullf\":";
  {
    std::ostringstream t;
    store.dump_full_keys_f(t, [](Pair const &p) { return p.first.size() % 2 == 0; });
    lines(os, t.str());
  }
  os << ",\"tree\":";
  {
    std::ostringstream t;
    store.dump_tree(t);
    lines(os, t.str());
  }
  os << ",\"treef\":";
  {
    std::ostringstream t;
    store.dump_tree_f(t, [](Pair const &p) { return p.first != "app.a"; });
    lines(os, t.str());
  }
  os << ",\"sub\":{";
  i = 0;
  for (auto &p: prefixes) {
    auto n = store.subtree(p.c_str());
    if (!n || n->is_null()) continue;
    os << (i++ ? "," : "") << jq(p) << ":{\"walk2\":[";
    int j = 0;
    store.walk_by_full_keys([&](Pair const &q) {
      os << (j++ ? ",[" : "[") << jq(q.first) << ',';
      jval(os, n->get_raw(q.first));
      os << ',' << (n->has("", q.first.c_str()) ? "true" : "false") << ']';
    }, n.get());
    os << "],\"full\":";
    std::ostringstream t;
    store.dump_full_keys(t, nullptr, n.get());
    lines(os, t.str());
    os << '}';
  }
  os << '}';
}

int main() {
  clearenv();
  (void) cmdr::cli("conf", "1.2.3", "author", "Copyright", "DESC-ROOT.", "");
  SV keys, prefixes;
  std::vector<Op> ops;
  S line, idx;
  while (std::getline(std::cin, line)) {
    auto f = split(line, '\t');
    if (f[0] == "keys") keys.assign(f.begin() + 1, f.end());
    else if (f[0] == "prefixes") prefixes.assign(f.begin() + 1, f.end());
    else if (f[0] == "case") {
      idx = f[1];
      ops.clear();
    } else if (f[0] == "op") ops.push_back({f[1], f[2], f[3], f[4], std::stoi(f[5]), std::stoi(f[6]), std::stoi(f[7])});
    else if (f[0] == "endcase")
      forked(idx, [&](std::ostream &os) { play(ops, keys, prefixes, os); });
  }
  return 0;
}
