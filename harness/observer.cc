// Conformance driver for spec/Observer.tla and spec/Signal.tla.
#include "shared.hh"

using namespace cmdr::util;

struct Event {
  int v{};
};
using Log = std::vector<std::pair<int, int>>;

template<bool L, bool C>
struct World {
  using Subject = observable<Event, L, C>;
  struct Obs : observer<Event> {
    int id;
    Log &log;
    Obs(int i, Log &l)
        : id(i), log(l) {}
    void observe(Event const &e) override { log.emplace_back(id, e.v); }
  };
  using Shared = typename Subject::observer_t_shared;
  using Weak   = typename Subject::observer_t;

  Subject subject;
  Log log;
  std::map<int, Shared> obs;
  std::map<int, std::unique_ptr<Shared>> handle; // the variable a scope was opened with
  std::map<int, std::unique_ptr<registerer<Event, L, C>>> scopes;

  void play(std::vector<SV> const &ops, std::ostream &os) {
    os << '[';
    int n = 0;
    for (auto &f: ops) {
      log.clear();
      int o = std::stoi(f[2]), s = std::stoi(f[3]), v = std::stoi(f[4]), route = std::stoi(f[5]);
      if (f[1] == "create") obs[o] = Shared(new Obs(o, log));
      else if (f[1] == "add") {
        Weak w = obs[o];
        if (route % 4 == 0) subject += obs[o];
        else if (route % 4 == 1) subject.add_observer(w);
        else if (route % 4 == 2) (void) (subject + obs[o]);
        else (void) (subject + w);
      } else if (f[1] == "remove") {
        if (route % 4 == 0) subject -= obs[o];
        else if (route % 4 == 1) subject.remove_observer(obs[o].get());
        else if (route % 4 == 2) (void) (subject - obs[o]);
        else subject -= obs[o].get();
      } else if (f[1] == "destroy") {
        for (auto &[k, h]: handle)
          if (*h == obs[o]) h->reset();
        obs[o].reset();
      } else if (f[1] == "open") {
        handle[s] = std::make_unique<Shared>(obs[o]);
        scopes[s] = std::make_unique<registerer<Event, L, C>>(subject, *handle[s]);
      } else if (f[1] == "rebind") {
        Shared other;
        for (auto &[k, x]: obs)
          if (k != o && x && route % 2) other = x;
        *handle[s] = other;
        other.reset();
      } else if (f[1] == "close") {
        scopes.erase(s);
        handle.erase(s);
      } else if (f[1] == "emit") subject.emit(Event{v});
      os << (n++ ? ",[" : "[");
      for (std::size_t i = 0; i < log.size(); i++) os << (i ? "," : "") << '[' << log[i].first << ',' << log[i].second << ']';
      os << ']';
    }
    os << ']';
    scopes.clear();
  }
};

// ---- signals
static std::vector<std::pair<int, SV>> g_calls;

template<int ID, class... A>
static void freef(A const &...a) { g_calls.emplace_back(ID, SV{a...}); }
template<class... A>
struct Slots {
  int id{};
  void member(A const &...a) { g_calls.emplace_back(id, SV{a...}); }
  void operator()(A const &...a) { g_calls.emplace_back(id, SV{a...}); }
  template<int ID>
  static void sm(A const &...a) { g_calls.emplace_back(ID, SV{a...}); }
};

template<int ID, class Sig, class... A>
static void connect_id(Sig &sig, S const &kind, SV const &map, std::map<int, Slots<A...>> &objs) {
  using namespace std::placeholders;
  auto on = [&](auto &&...x) {
    if constexpr (sizeof...(A) == 2) {
      if (map[0] == "2" && map[1] == "1") {
        sig.on(std::forward<decltype(x)>(x)..., _2, _1);
        return;
      }
      if (map[0] == "1" && map[1] == "1") {
        sig.connect(std::forward<decltype(x)>(x)..., _1, _1);
        return;
      }
      if (map[0] == "k") {
        sig.on(std::forward<decltype(x)>(x)..., S("k"));
        return;
      }
    }
    if (ID % 2) sig.on(std::forward<decltype(x)>(x)...);
    else sig.connect(std::forward<decltype(x)>(x)...);
  };
  objs[ID].id = ID;
  if (kind == "free") on(freef<ID, A...>);
  else if (kind == "static") on(&Slots<A...>::template sm<ID>);
  else if (kind == "lambda") {
    int id = ID;
    on([id](A const &...a) { g_calls.emplace_back(id, SV{a...}); });
  } else if (kind == "generic") on([](auto &&...a) { g_calls.emplace_back(ID, SV{a...}); });
  else if (kind == "functor") on(Slots<A...>{ID});
  else if (kind == "copy") on(&Slots<A...>::member, Slots<A...>{ID});
  else if (kind == "pointer") on(&Slots<A...>::member, &objs[ID]);
  else if (kind == "taker") { // takes its arguments away
    auto fn = [](A &&...a) {
      SV got;
      (void) std::initializer_list<int>{(got.push_back(std::move(a)), 0)...};
      g_calls.emplace_back(ID, got);
    };
    if (ID % 2) sig.on(fn);
    else sig.connect(fn);
  } else throw std::runtime_error("bad kind");
}

template<class... A, std::size_t... I>
static void signals(std::vector<SV> ops, std::ostream &os, std::index_sequence<I...>) {
  std::vector<cmdr::util::signal<A...>> sigs(2);
  std::map<int, Slots<A...>> objs;
  int n = 0;
  os << '[';
  for (auto &f: ops) {
    g_calls.clear();
    auto &sig = sigs[std::size_t(f[2] == "2")];
    f.erase(f.begin() + 2);
    if (f[1] == "copy") {
      auto &to = sigs[std::size_t(f[2] == "2")];
      if (n % 2) to = sig;
      else {
        cmdr::util::signal<A...> another{sig};
        std::swap(to, another);
      }
    } else if (f[1] == "connect") {
      SV map = split(f[4], ',');
      switch (std::stoi(f[2])) {
        case 1: connect_id<1, cmdr::util::signal<A...>, A...>(sig, f[3], map, objs); break;
        case 2: connect_id<2, cmdr::util::signal<A...>, A...>(sig, f[3], map, objs); break;
        case 3: connect_id<3, cmdr::util::signal<A...>, A...>(sig, f[3], map, objs); break;
        case 4: connect_id<4, cmdr::util::signal<A...>, A...>(sig, f[3], map, objs); break;
        case 5: connect_id<5, cmdr::util::signal<A...>, A...>(sig, f[3], map, objs); break;
        default: throw std::runtime_error("too many slots");
      }
    } else {
      SV a(f.begin() + 2, f.end());
      if (n % 2) sig.emit(std::move(a[I])...);
      else sig(S(a[I])...);
    }
    os << (n++ ? ",[" : "[");
    for (std::size_t i = 0; i < g_calls.size(); i++) {
      os << (i ? "," : "") << '[' << g_calls[i].first << ",[";
      for (std::size_t k = 0; k < g_calls[i].second.size(); k++) os << (k ? "," : "") << jq(g_calls[i].second[k]);
      os << "]]";
    }
    os << ']';
  }
  os << ']';
}

// the bindable observable: one subject, arguments bound in front of it
template<int ID>
static void bound1(S const &k, S const &e) { g_calls.emplace_back(ID, SV{k, e}); }
template<int ID>
static void bind_id(observable_bindable<S> &ob, S const &kind, bool k, std::map<int, Slots<S>> &objs, std::map<int, Slots<S, S>> &objs2) {
  objs[ID].id = objs2[ID].id = ID;
  auto on = [&](auto &&...x) {
    if (ID % 2) ob.on(std::forward<decltype(x)>(x)...);
    else ob.add_callback(std::forward<decltype(x)>(x)...);
  };
  if (kind == "free" || kind == "static") k ? on(bound1<ID>, S("k")) : on(freef<ID, S>);
  else if (kind == "lambda" || kind == "generic" || kind == "taker")
    k ? on([](S const &c, S const &e) { g_calls.emplace_back(ID, SV{c, e}); }, S("k")) : on([](S const &e) { g_calls.emplace_back(ID, SV{e}); });
  else if (kind == "functor") k ? on(Slots<S, S>{ID}, S("k")) : on(Slots<S>{ID});
  else if (kind == "copy") k ? on(&Slots<S, S>::member, Slots<S, S>{ID}, S("k")) : on(&Slots<S>::member, Slots<S>{ID});
  else k ? on(&Slots<S, S>::member, &objs2[ID], S("k")) : on(&Slots<S>::member, &objs[ID]);
}
static void bindables(std::vector<SV> ops, std::ostream &os) {
  std::vector<observable_bindable<S>> obs(2);
  std::map<int, Slots<S>> objs;
  std::map<int, Slots<S, S>> objs2;
  int n = 0;
  os << '[';
  for (auto &f: ops) {
    g_calls.clear();
    auto &ob = obs[std::size_t(f[2] == "2")];
    f.erase(f.begin() + 2);
    if (f[1] == "copy") {
      auto &to = obs[std::size_t(f[2] == "2")];
      if (n % 2) to = ob;
      else {
        observable_bindable<S> another{ob};
        std::swap(to, another);
      }
    } else if (f[1] == "connect") {
      bool k = f[4].substr(0, 1) == "k";
      switch (std::stoi(f[2])) {
        case 1: bind_id<1>(ob, f[3], k, objs, objs2); break;
        case 2: bind_id<2>(ob, f[3], k, objs, objs2); break;
        case 3: bind_id<3>(ob, f[3], k, objs, objs2); break;
        case 4: bind_id<4>(ob, f[3], k, objs, objs2); break;
        case 5: bind_id<5>(ob, f[3], k, objs, objs2); break;
        default: throw std::runtime_error("too many slots");
      }
    } else ob.emit(f[2]);
    os << (n++ ? ",[" : "[");
    for (std::size_t i = 0; i < g_calls.size(); i++) {
      os << (i ? "," : "") << '[' << g_calls[i].first << ",[";
      for (std::size_t k = 0; k < g_calls[i].second.size(); k++) os << (k ? "," : "") << jq(g_calls[i].second[k]);
      os << "]]";
    }
    os << ']';
  }
  os << ']';
}

int main() {
  std::vector<SV> ops;
  S line, idx, mode;
  while (std::getline(std::cin, line)) {
    auto f = split(line, '\t');
    if (f[0] == "case") {
      idx  = f[1];
      mode = f[2];
      ops.clear();
    } else if (f[0] == "op") ops.push_back(f);
    else if (f[0] == "endcase")
      forked(idx, [&](std::ostream &os) {
        if (mode == "observer") {
          os << "\"runs\":[";
          World<true, true>{}.play(ops, os);
          os << ',';
          World<true, false>{}.play(ops, os);
          os << ',';
          World<false, true>{}.play(ops, os);
          os << ',';
          World<false, false>{}.play(ops, os);
          os << ']';
        } else {
          os << "\"seen\":";
          if (mode == "0") signals<>(ops, os, std::index_sequence<>{});
          else if (mode == "1") signals<S>(ops, os, std::make_index_sequence<1>{});
          else if (mode == "2") signals<S, S>(ops, os, std::make_index_sequence<2>{});
          else if (mode == "3") signals<S, S, S>(ops, os, std::make_index_sequence<3>{});
          else bindables(ops, os);
        }
      });
  }
  return 0;
}
