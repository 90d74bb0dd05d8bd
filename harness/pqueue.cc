// Conformance driver for spec/PriorityQueue.tla.
#include <algorithm>
#include <deque>
#include <iostream>
#include <list>
#include <map>
#include <sstream>
#include <string>
#include <vector>

#include <cmdr11/cmdr_priority_queue.hh>

// The null element is of the second-lowest priority: an element that equals it must be treated like any other.
struct E {
  int p{}, id{};
  bool operator==(E const &o) const { return p == o.p; }
};
struct Diff {
  int operator()(E const &a, E const &b) const { return a.p - b.p; }
};
struct Sign {
  int operator()(E const &a, E const &b) const { return a.p < b.p ? -1 : a.p > b.p ? 1 : 0; }
};

template<class Q>
static void play(std::vector<int> const &ops, std::ostream &os) {
  Q q;
  int next = 1, n = 0;
  os << '[';
  for (int p: ops) {
    int popped = 0;
    if (p) {
      E e{p - 2, next++};
      if (n % 2) q.push(e);
      else q.push_back(e);
    } else if (n % 3 == 2 && !q.empty()) {
      popped = q.front().id;
      q.pop_front();
    } else {
      E e    = q.pop();
      popped = e.id == 0 && Q::is_null(e) ? -1 : e.id;
    }
    auto ids = [&](std::vector<int> const &v) {
      os << '[';
      for (std::size_t i = 0; i < v.size(); i++) os << (i ? "," : "") << v[i];
      os << ']';
    };
    std::vector<int> a, b, c;
    std::size_t bound = 1000;
    for (auto it = q.begin(); it != q.end() && bound--; ++it) a.push_back((*it).id);
    bound = 1000;
    for (auto it = q.begin(); !(it == q.end()) && bound--;) {
      auto copy = it;
      auto was  = it++;
      if (!(copy == was) || copy != was || copy == it || !(copy != it)) b.push_back(-9);
      b.push_back(was->id);
    }
    bound = 1000;
    for (auto &e: q) {
      if (!bound--) break;
      c.push_back(e.id);
    }
    std::vector<int> d;
    q.dump([&](auto *el) {
      for (auto const &e: el->_list) d.push_back(e.id);
    });
    os << (n++ ? ",{" : "{") << "\"popped\":" << popped << ",\"size\":" << q.size() << ",\"empty\":" << (q.empty() ? "true" : "false")
       << ",\"front\":" << (q.empty() ? 0 : q.front().id) << ",\"its\":[";
    ids(a);
    os << ',';
    ids(b);
    os << ',';
    ids(c);
    os << ',';
    ids(d);
    os << "]}";
  }
  os << ']';
}

using cmdr::queue::priority_queue;

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    std::string w;
    int idx, rev, p;
    is >> w >> idx >> rev;
    std::vector<int> ops;
    while (is >> p) ops.push_back(p);
    std::ostringstream os;
    os << "{\"case\":" << idx << ",\"runs\":[";
    if (rev) {
      play<priority_queue<E, int, Diff, std::list<E>, true>>(ops, os);
      os << ',';
      play<priority_queue<E, int, Sign, std::deque<E>, true>>(ops, os);
    } else {
      play<priority_queue<E, int, Diff, std::list<E>, false>>(ops, os);
      os << ',';
      play<priority_queue<E, int, Sign, std::deque<E>, false>>(ops, os);
    }
    os << "]}\n";
    std::cout << os.str() << std::flush;
  }
  return 0;
}
