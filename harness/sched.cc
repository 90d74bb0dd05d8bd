#include "sched.hh"
#include <atomic>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <stdexcept>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

namespace {
  constexpr int MAXT = 24;
  struct VC {
    uint32_t c[MAXT]{};
    void join(VC const &o) {
      for (int i = 0; i < MAXT; i++)
        if (o.c[i] > c[i]) c[i] = o.c[i];
    }
  };
  enum Kind { NONE, MUTEX, RW, COND, JOIN, FUTEX, ONCE, GUARD, SLEEP, SETTLE, NEVER };
  struct Th {
    int id{}, cid{-1};
    int go{};
    bool runnable{true}, done{}, announced{}, timedout{}, worker{};
    Kind kind{NONE};
    void const *obj{};
    int64_t deadline{-1};
    long prio{};
    VC vc;
    void *(*fn)(void *){};
    void *arg{}, *ret{};
    pthread_t os{};
  };
  Th th[MAXT];
  int nth = 0;
  thread_local Th *me = nullptr;
  // the runtime's own memory accesses are none of its business (inline library
  // functions may be shared with instrumented code)
  thread_local int busy = 0;
  struct Busy {
    Busy() { busy++; }
    ~Busy() { busy--; }
  };
  bool active = false, log_workers = false, hiring = false;
  int64_t vnow = 1000000000000LL;
  sched::Plan plan;
  uint64_t rng = 1;
  long steps = 0, yields = 0;
  int preempted = 0;
  std::vector<long> change_at;
  long low_prio = 0;
  std::vector<std::pair<int, int>> choices;
  std::string trace;
  int out_fd = -1;
  std::vector<std::string> races;

  uint64_t rnd() {
    rng ^= rng << 13, rng ^= rng >> 7, rng ^= rng << 17;
    return rng;
  }
  uint64_t rnd(uint64_t n) { return (rnd() >> 11) % n; }
  bool chance(unsigned per1000) { return rnd(1000) < per1000; }

  void put(std::string const &s) {
    std::size_t n = 0;
    while (n < s.size()) {
      auto k = ::write(out_fd, s.data() + n, s.size() - n);
      if (k <= 0) break;
      n += std::size_t(k);
    }
  }
  bool stamps = false;
  void event(int t, char const *e, char const *op, long a, long b, std::string const &s) {
    Busy busy_here;
    if (trace.size() > 1) trace += ',';
    long const ts = stamps ? long((vnow - 1000000000000LL) / 1000000) : 0;
    trace += "{\"e\":\"" + std::string(e) + "\",\"t\":" + std::to_string(t) + ",\"op\":\"" + op + "\",\"a\":" + std::to_string(a) + ",\"b\":" + std::to_string(b) + ",\"s\":\"" + s + "\",\"ts\":" + std::to_string(ts) + "}";
  }
  [[noreturn]] void finish() {
    busy++;
    for (auto &r: races) event(0, "race", "", 0, 0, r);
    std::string c;
    for (auto &[n, k]: choices) c += std::to_string(n) + ' ' + std::to_string(k) + ' ';
    put("[" + trace + "]\n" + c + "\n");
    ::_exit(0);
  }
  [[noreturn]] void finish(char const *what, std::string const &s = {}) {
    event(0, what, "", 0, 0, s);
    finish();
  }
  void on_signal(int sig) { finish("crash", "signal " + std::to_string(sig)); }

  void futex_wait(int *a, int v) { ::syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
  void futex_wake(int *a) { ::syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

  void wait_go() {
    while (__atomic_load_n(&me->go, __ATOMIC_ACQUIRE) == 0) futex_wait(&me->go, 0);
    __atomic_store_n(&me->go, 0, __ATOMIC_RELEASE);
  }
  void announce() {
    if (!me->announced) {
      me->announced = true;
      if (me->worker) event(me->id, "tstart", "", 0, 0, "");
    }
  }
  void transfer(Th *n) {
    if (n == me) return;
    bool const gone = me->done;
    __atomic_store_n(&n->go, 1, __ATOMIC_RELEASE);
    futex_wake(&n->go);
    if (gone)
      for (;;) ::pause();
    wait_go();
  }
  void wake(Th &t, bool timedout = false) {
    t.runnable = true;
    t.timedout = timedout;
    t.kind     = NONE;
    t.deadline = -1;
  }
  Th *earliest() {
    Th *b = nullptr;
    for (int i = 0; i < nth; i++)
      if (!th[i].done && !th[i].runnable && th[i].deadline >= 0 && (!b || th[i].deadline < b->deadline)) b = &th[i];
    return b;
  }
  void fire(Th *t) {
    if (vnow < t->deadline) vnow = t->deadline;
    wake(*t, true);
  }
  // choice among n alternatives; 0 is the default
  int choose(int n, bool preemption = false) {
    if (n <= 1) return 0;
    if (plan.mode != 2) return int(rnd(uint64_t(n)));
    if (preemption && preempted >= plan.preemptions) return 0;
    int k = 0;
    if (choices.size() < plan.prefix.size()) k = plan.prefix[choices.size()];
    if (k >= n) k = 0;
    choices.emplace_back(n, k);
    if (preemption && k) preempted++;
    return k;
  }

  // who runs next
  Th *pick(bool yielding = false) {
    Busy busy_now;
    if (++steps > plan.limit) finish("endless");
    if (plan.spurious && plan.mode != 2 && chance(30)) {
      Th *c[MAXT];
      int n = 0;
      for (int i = 0; i < nth; i++)
        if (!th[i].done && !th[i].runnable && th[i].kind == COND) c[n++] = &th[i];
      if (n) wake(*c[rnd(uint64_t(n))]);
    }
    if (plan.timers && plan.mode != 2 && chance(40))
      if (Th *t = earliest()) fire(t);
    for (;;) {
      Th *c[MAXT];
      int n = 0;
      if (me->runnable && !me->done && !yielding) c[n++] = me;
      for (int k = 1; k <= nth; k++) {
        Th *t = &th[(me->id + k) % nth];
        if (t != me && t->runnable && !t->done) c[n++] = t;
      }
      if (me->runnable && !me->done && yielding) c[n++] = me;
      if (n == 0) {
        Th *s = nullptr;
        for (int i = 0; i < nth; i++)
          if (!th[i].done && !th[i].runnable && th[i].kind == SETTLE) s = &th[i];
        if (s) {
          wake(*s);
          continue;
        }
        Th *t = earliest();
        if (!t) finish("quiet");
        fire(t);
        continue;
      }
      if (plan.mode == 0) return c[rnd(uint64_t(n))];
      if (plan.mode == 1) {
        for (long at: change_at)
          if (at == steps) me->prio = --low_prio;
        if (yielding) me->prio = --low_prio;
        Th *b = c[0];
        for (int i = 1; i < n; i++)
          if (c[i]->prio > b->prio) b = c[i];
        return b;
      }
      bool const free_choice = yielding || !me->runnable || me->done;
      int extra              = 0;
      Th *t                  = plan.timers ? earliest() : nullptr;
      if (t) extra = 1;
      if (yielding) return c[0]; // round robin, no branching
      int k = choose(n + extra, !free_choice);
      if (k == n) {
        fire(t);
        return t;
      }
      return c[k];
    }
  }
  bool on() { return active && me != nullptr && busy == 0; }
  void point(bool yielding = false) {
    if (!on()) return;
    transfer(pick(yielding));
  }
  void block(Kind k, void const *obj, int64_t deadline = -1) {
    me->runnable = false;
    me->timedout = false;
    me->kind     = k;
    me->obj      = obj;
    me->deadline = deadline;
    transfer(pick());
  }
  void wake_all(Kind k, void const *obj) {
    for (int i = 0; i < nth; i++)
      if (!th[i].done && !th[i].runnable && th[i].kind == k && th[i].obj == obj) wake(th[i]);
  }

  struct Sync {
    Th *owner{};
    int count{};
    VC vc;       // released by the owner (or writer)
    VC rvc;      // released by readers
    int readers[MAXT]{}, nreaders{};
    int state{};
  };
  std::unordered_map<void const *, Sync> syncs;
  Sync &sync_of(void const *p) {
    Busy busy_here;
    return syncs[p];
  }
  void acquire(VC const &v) { me->vc.join(v); }
  void release(VC &v) {
    v.join(me->vc);
    me->vc.c[me->id]++;
  }

  // ---- data races
  struct Acc {
    uint8_t tid, mask, flags; // flags: 1 write, 2 atomic, 4 given back
    uint32_t clk;
    void const *pc;
  };
  std::unordered_map<uintptr_t, std::vector<Acc>> shadow;

  void access(uintptr_t a, std::size_t size, bool write, bool atomic, void const *pc) {
    if (!on()) return;
    Busy busy_here;
    while (size) {
      uintptr_t const cell = a >> 3;
      unsigned const off = unsigned(a & 7), n = unsigned(std::min<std::size_t>(size, 8 - off));
      uint8_t const mask = uint8_t(((1u << n) - 1) << off);
      auto &v            = shadow[cell];
      bool mine          = false;
      for (auto &x: v) {
        if ((x.flags & 4) && (x.mask & mask)) {
          char b[64];
          std::snprintf(b, sizeof b, "freed %p %p", x.pc, pc);
          if (races.size() < 3) races.emplace_back(b);
          continue;
        }
        if (x.tid == me->id) {
          if (x.mask == mask && x.flags == uint8_t(write | (atomic << 1))) x.clk = me->vc.c[me->id], x.pc = pc, mine = true;
          continue;
        }
        if ((x.mask & mask) && ((x.flags & 1) || write) && !((x.flags & 2) && atomic) && x.clk > me->vc.c[x.tid]) {
          char b[64];
          std::snprintf(b, sizeof b, "%p %p", x.pc, pc);
          if (races.size() < 3) races.emplace_back(b);
          x.clk = 0;
        }
      }
      if (!mine) v.push_back({uint8_t(me->id), mask, uint8_t(write | (atomic << 1)), me->vc.c[me->id], pc});
      a += n, size -= n;
    }
  }

  int (*real_create)(pthread_t *, pthread_attr_t const *, void *(*) (void *), void *);
  void *trampoline(void *p) {
    me = static_cast<Th *>(p);
    wait_go();
    announce();
    me->ret = me->fn(me->arg);
    if (me->worker) event(me->id, "texit", "", 0, 0, "");
    me->vc.c[me->id]++;
    me->done     = true;
    me->runnable = false;
    wake_all(JOIN, me);
    transfer(pick());
    return nullptr;
  }
  int64_t ns_of(timespec const *t) {
    if (t->tv_sec > 4000000000LL) return INT64_MAX / 2;
    return int64_t(t->tv_sec) * 1000000000LL + t->tv_nsec;
  }
  void unlock_raw(Sync &s, void const *m) {
    release(s.vc);
    s.owner = nullptr;
    wake_all(MUTEX, m);
  }
  void lock_raw(Sync &s, void const *m) {
    while (s.owner) block(MUTEX, m);
    s.owner = me;
    s.count = 1;
    acquire(s.vc);
  }
  int cond_wait(void *c, pthread_mutex_t *m, int64_t deadline) {
    if (!on()) finish("misuse", "blocking outside of the controlled part");
    point();
    auto &s = sync_of(m);
    if (s.owner != me) finish("misuse", "waiting without the lock");
    if (deadline >= 0 && deadline <= vnow) {
      unlock_raw(s, m);
      point();
      lock_raw(s, m);
      return ETIMEDOUT;
    }
    unlock_raw(s, m);
    block(COND, c, deadline >= INT64_MAX / 4 ? -1 : deadline);
    bool const to = me->timedout;
    lock_raw(sync_of(m), m);
    return to ? ETIMEDOUT : 0;
  }
} // namespace

extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!on()) return 0;
  point();
  auto &s = sync_of(m);
  if (s.owner == me) {
    if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
      s.count++;
      return 0;
    }
    for (;;) block(NEVER, m);
  }
  lock_raw(s, m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!on()) return 0;
  point();
  auto &s = sync_of(m);
  if (s.owner == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
    s.count++;
    return 0;
  }
  if (s.owner) return EBUSY;
  lock_raw(s, m);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!on()) return 0;
  auto &s = sync_of(m);
  if (s.owner != me) finish("misuse", "unlocking a mutex that is not owned");
  if (--s.count > 0) return 0;
  unlock_raw(s, m);
  point();
  return 0;
}
int pthread_mutex_init(pthread_mutex_t *m, pthread_mutexattr_t const *a) {
  std::memset(m, 0, sizeof *m);
  if (a) m->__data.__kind = *reinterpret_cast<int const *>(a) & 3;
  Busy busy_here;
  syncs.erase(m);
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) {
  Busy busy_here;
  auto i = syncs.find(m);
  if (i != syncs.end()) {
    if (active && i->second.owner) finish("misuse", "destroying a locked mutex");
    syncs.erase(i);
  }
  return 0;
}
int pthread_cond_init(pthread_cond_t *, pthread_condattr_t const *) { return 0; }
int pthread_cond_destroy(pthread_cond_t *c) {
  if (on())
    for (int i = 0; i < nth; i++)
      if (!th[i].done && !th[i].runnable && th[i].kind == COND && th[i].obj == c) finish("misuse", "destroying a condition variable that is waited on");
  return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait(c, m, -1); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, timespec const *t) { return cond_wait(c, m, ns_of(t)); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, timespec const *t) { return cond_wait(c, m, ns_of(t)); }
int pthread_cond_signal(pthread_cond_t *c) {
  if (!on()) return 0;
  point();
  Th *w[MAXT];
  int n = 0;
  for (int i = 0; i < nth; i++)
    if (!th[i].done && !th[i].runnable && th[i].kind == COND && th[i].obj == c) w[n++] = &th[i];
  if (n) wake(*w[choose(n)]);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  if (!on()) return 0;
  point();
  wake_all(COND, c);
  return 0;
}
// ---- reader-writer locks
int pthread_rwlock_init(pthread_rwlock_t *l, pthread_rwlockattr_t const *) {
  Busy busy_here;
  syncs.erase(l);
  return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t *l) {
  Busy busy_here;
  auto i = syncs.find(l);
  if (i != syncs.end()) {
    if (active && (i->second.owner || i->second.nreaders)) finish("misuse", "destroying a locked reader-writer lock");
    syncs.erase(i);
  }
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
  if (!on()) return 0;
  point();
  auto &s = sync_of(l);
  if (s.owner == me) return EDEADLK;
  while (s.owner) block(RW, l);
  s.readers[me->id]++, s.nreaders++;
  acquire(s.vc);
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) {
  if (!on()) return 0;
  point();
  auto &s = sync_of(l);
  if (s.owner) return EBUSY;
  s.readers[me->id]++, s.nreaders++;
  acquire(s.vc);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
  if (!on()) return 0;
  point();
  auto &s = sync_of(l);
  if (s.owner == me) return EDEADLK;
  while (s.owner || s.nreaders) block(RW, l);
  s.owner = me;
  acquire(s.vc);
  acquire(s.rvc);
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) {
  if (!on()) return 0;
  point();
  auto &s = sync_of(l);
  if (s.owner || s.nreaders) return EBUSY;
  s.owner = me;
  acquire(s.vc);
  acquire(s.rvc);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
  if (!on()) return 0;
  auto &s = sync_of(l);
  if (s.owner == me) {
    release(s.vc);
    s.owner = nullptr;
  } else {
    if (!s.readers[me->id]) finish("misuse", "unlocking a reader-writer lock that is not owned");
    s.readers[me->id]--, s.nreaders--;
    release(s.rvc);
  }
  wake_all(RW, l);
  point();
  return 0;
}
// ---- threads
int pthread_create(pthread_t *t, pthread_attr_t const *a, void *(*fn)(void *), void *arg) {
  if (!real_create) real_create = reinterpret_cast<decltype(real_create)>(dlsym(RTLD_NEXT, "pthread_create"));
  if (!on()) return real_create(t, a, fn, arg);
  point();
  if (nth == MAXT) finish("misuse", "too many threads");
  Th &n = th[nth];
  n.id  = nth;
  n.fn = fn, n.arg = arg;
  n.prio = long(rnd(1000000)) + 1;
  n.vc     = me->vc;
  n.worker = log_workers && !(me->id == 0 && hiring);
  n.vc.c[n.id] = 1;
  me->vc.c[me->id]++;
  nth++;
  int const r = real_create(&n.os, nullptr, trampoline, &n);
  if (r) return r;
  *t = n.os;
  point();
  return 0;
}
static Th *find(pthread_t t) {
  for (int i = 1; i < nth; i++)
    if (th[i].os == t) return &th[i];
  return nullptr;
}
int pthread_join(pthread_t t, void **ret) {
  point();
  Th *o = find(t);
  if (!o) return ESRCH;
  if (o == me) return EDEADLK;
  while (!o->done) block(JOIN, o);
  acquire(o->vc);
  if (ret) *ret = o->ret;
  return 0;
}
int pthread_detach(pthread_t) { return 0; }
int pthread_once(pthread_once_t *c, void (*fn)()) {
  if (!on()) {
    if (*c != 2) {
      fn();
      *c = 2;
    }
    return 0;
  }
  point();
  auto &s = sync_of(c);
  while (s.state == 1) block(ONCE, c);
  if (*c == 2) {
    acquire(s.vc);
    return 0;
  }
  s.state = 1;
  try {
    fn();
  } catch (...) {
    sync_of(c).state = 0;
    wake_all(ONCE, c);
    throw;
  }
  auto &s2 = sync_of(c);
  release(s2.vc);
  s2.state = 0;
  *c       = 2;
  wake_all(ONCE, c);
  return 0;
}
int __cxa_guard_acquire(uint64_t *g) {
  if (*reinterpret_cast<char *>(g)) {
    if (on()) acquire(sync_of(g).vc);
    return 0;
  }
  if (on()) {
    point();
    while (sync_of(g).state == 1) block(GUARD, g);
    if (*reinterpret_cast<char *>(g)) {
      acquire(sync_of(g).vc);
      return 0;
    }
    sync_of(g).state = 1;
  }
  return 1;
}
void __cxa_guard_release(uint64_t *g) {
  *reinterpret_cast<char *>(g) = 1;
  if (on()) {
    auto &s = sync_of(g);
    release(s.vc);
    s.state = 0;
    wake_all(GUARD, g);
  }
}
void __cxa_guard_abort(uint64_t *g) {
  if (on()) {
    sync_of(g).state = 0;
    wake_all(GUARD, g);
  }
}
// ---- time
int sched_yield() {
  point(true);
  return 0;
}
int clock_gettime(clockid_t c, timespec *t) {
  if (!active) return int(::syscall(SYS_clock_gettime, c, t));
  vnow += 100;
  t->tv_sec = vnow / 1000000000, t->tv_nsec = vnow % 1000000000;
  return 0;
}
static int sleep_until(int64_t when) {
  if (when <= vnow) point(true);
  else block(SLEEP, nullptr, when);
  return 0;
}
int nanosleep(timespec const *t, timespec *) {
  if (!on()) return 0;
  return sleep_until(vnow + ns_of(t));
}
int clock_nanosleep(clockid_t, int flags, timespec const *t, timespec *) {
  if (!on()) return 0;
  return sleep_until((flags & TIMER_ABSTIME) ? ns_of(t) : vnow + ns_of(t));
}
int usleep(useconds_t us) {
  if (!on()) return 0;
  return sleep_until(vnow + int64_t(us) * 1000);
}

// ---- callbacks of instrumented code
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define ACC(N)                                                                                      \
  void __tsan_read##N(void *p) { access(uintptr_t(p), N, false, false, PC); }                       \
  void __tsan_write##N(void *p) { access(uintptr_t(p), N, true, false, PC); }                       \
  void __tsan_unaligned_read##N(void *p) { access(uintptr_t(p), N, false, false, PC); }             \
  void __tsan_unaligned_write##N(void *p) { access(uintptr_t(p), N, true, false, PC); }             \
  void __tsan_volatile_read##N(void *p) { access(uintptr_t(p), N, false, false, PC); }              \
  void __tsan_volatile_write##N(void *p) { access(uintptr_t(p), N, true, false, PC); }
ACC(1)
ACC(2)
ACC(4)
ACC(8)
ACC(16)
void __tsan_read_range(void *p, std::size_t n) { access(uintptr_t(p), n, false, false, PC); }
void __tsan_write_range(void *p, std::size_t n) { access(uintptr_t(p), n, true, false, PC); }
void __tsan_vptr_update(void **p, void *v) {
  if (*p != v) access(uintptr_t(p), 8, true, false, PC);
}
void __tsan_vptr_read(void **p) { access(uintptr_t(p), 8, false, false, PC); }

static void atomic_hb(void const *p, std::size_t n, int order, bool reads, bool writes, void const *pc) {
  auto &s         = sync_of(p);
  bool const acq  = order == __ATOMIC_ACQUIRE || order == __ATOMIC_CONSUME || order == __ATOMIC_ACQ_REL || order == __ATOMIC_SEQ_CST;
  bool const relo = order == __ATOMIC_RELEASE || order == __ATOMIC_ACQ_REL || order == __ATOMIC_SEQ_CST;
  if (reads && acq) acquire(s.vc);
  access(uintptr_t(p), n, writes, true, pc); // a part of what is released
  if (writes) {
    if (relo) {
      if (!reads) s.vc = VC{};
      release(s.vc);
    } else if (!reads)
      s.vc = VC{}; // a relaxed store ends the release sequence
  }
}
static void atomic_op(void *p, int n, int order, bool reads, bool writes, void const *pc) {
  if (!on()) return;
  point();
  atomic_hb(p, std::size_t(n), order, reads, writes, pc);
}
using u8 = uint8_t;
using u16 = uint16_t;
using u32 = uint32_t;
using u64 = uint64_t;
#define ATOMIC(B, T)                                                                                                              \
  T __tsan_atomic##B##_load(T const *p, int o) {                                                                                   \
    atomic_op(const_cast<T *>(p), B / 8, o, true, false, PC);                                                                      \
    return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                                                   \
  }                                                                                                                                \
  void __tsan_atomic##B##_store(T *p, T v, int o) {                                                                                \
    atomic_op(p, B / 8, o, false, true, PC);                                                                                       \
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                                      \
  }                                                                                                                                \
  T __tsan_atomic##B##_exchange(T *p, T v, int o) {                                                                                \
    atomic_op(p, B / 8, o, true, true, PC);                                                                                        \
    return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                                            \
  }                                                                                                                                \
  T __tsan_atomic##B##_fetch_add(T *p, T v, int o) {                                                                               \
    atomic_op(p, B / 8, o, true, true, PC);                                                                                        \
    return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                                                             \
  }                                                                                                                                \
  T __tsan_atomic##B##_fetch_sub(T *p, T v, int o) {                                                                               \
    atomic_op(p, B / 8, o, true, true, PC);                                                                                        \
    return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                                                             \
  }                                                                                                                                \
  T __tsan_atomic##B##_fetch_and(T *p, T v, int o) {                                                                               \
    atomic_op(p, B / 8, o, true, true, PC);                                                                                        \
    return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                                                             \
  }                                                                                                                                \
  T __tsan_atomic##B##_fetch_or(T *p, T v, int o) {                                                                                \
    atomic_op(p, B / 8, o, true, true, PC);                                                                                        \
    return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                                                              \
  }                                                                                                                                \
  T __tsan_atomic##B##_fetch_xor(T *p, T v, int o) {                                                                               \
    atomic_op(p, B / 8, o, true, true, PC);                                                                                        \
    return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                                                             \
  }                                                                                                                                \
  T __tsan_atomic##B##_fetch_nand(T *p, T v, int o) {                                                                              \
    atomic_op(p, B / 8, o, true, true, PC);                                                                                        \
    return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST);                                                                            \
  }                                                                                                                                \
  int __tsan_atomic##B##_compare_exchange_strong(T *p, T *e, T v, int o, int fo) {                                                 \
    if (on()) point();                                                                                                             \
    bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                     \
    if (on()) {                                                                                                                    \
      atomic_hb(p, B / 8, ok ? o : fo, true, ok, PC);                                                                              \
    }                                                                                                                              \
    return ok;                                                                                                                     \
  }                                                                                                                                \
  int __tsan_atomic##B##_compare_exchange_weak(T *p, T *e, T v, int o, int fo) { return __tsan_atomic##B##_compare_exchange_strong(p, e, v, o, fo); } \
  T __tsan_atomic##B##_compare_exchange_val(T *p, T e, T v, int o, int fo) {                                                       \
    __tsan_atomic##B##_compare_exchange_strong(p, &e, v, o, fo);                                                                   \
    return e;                                                                                                                      \
  }
ATOMIC(8, u8)
ATOMIC(16, u16)
ATOMIC(32, u32)
ATOMIC(64, u64)
void __tsan_atomic_thread_fence(int) { point(); }
void __tsan_atomic_signal_fence(int) {}
} // extern "C"

// ---- memory is never given back, so that addresses identify objects
void *operator new(std::size_t n) {
  void *p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](std::size_t n) { return operator new(n); }
void *operator new(std::size_t n, std::align_val_t a) {
  void *p = aligned_alloc(std::size_t(a), (n + std::size_t(a) - 1) / std::size_t(a) * std::size_t(a));
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](std::size_t n, std::align_val_t a) { return operator new(n, a); }
static void given_back(void *p, void const *pc) noexcept {
  if (!p || !on()) return;
  Busy busy_here;
  std::size_t const n = malloc_usable_size(p);
  for (uintptr_t a = uintptr_t(p) & ~uintptr_t(7); a < uintptr_t(p) + n; a += 8) {
    auto i = shadow.find(a >> 3);
    if (i == shadow.end()) continue; // nobody has looked at it
    busy--;
    access(a, 8, true, false, pc);
    busy++;
    i->second.clear();
    i->second.push_back({uint8_t(me->id), 0xff, 4, 0, pc});
  }
}
void operator delete(void *p) noexcept { given_back(p, PC); }
void operator delete[](void *p) noexcept { given_back(p, PC); }
void operator delete(void *p, std::size_t) noexcept { given_back(p, PC); }
void operator delete[](void *p, std::size_t) noexcept { given_back(p, PC); }
void operator delete(void *p, std::align_val_t) noexcept { given_back(p, PC); }
void operator delete[](void *p, std::align_val_t) noexcept { given_back(p, PC); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { given_back(p, PC); }
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { given_back(p, PC); }

// ---- futures
#include <chrono>
#include <future>
namespace std {
  bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned *a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds ns) {
    point();
    int64_t const dl = timed ? s.count() * 1000000000LL + ns.count() : -1;
    if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != v) return true;
    if (timed && dl <= vnow) return false;
    block(FUTEX, a, dl);
    return !me->timedout;
  }
  bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned *a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds ns) {
    return _M_futex_wait_until(a, v, timed, s, ns);
  }
  void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned *a) {
    point();
    wake_all(FUTEX, a);
  }
} // namespace std

namespace sched {
  void log(Ev const &e) {
    if (on()) event(e.t >= 0 ? e.t : me->cid >= 0 ? me->cid : me->id, e.e, e.op, e.a, e.b, e.s);
  }
  void client(int id) { me->cid = id; }
  bool self_is_client() { return me && me->cid >= 0; }
  void workers(bool w) { log_workers = w; }
  void clients(bool w) { hiring = w; }
  void timestamps(bool w) { stamps = w; }
  void wait_flag(int const *f) {
    while (on() && !*f) block(FUTEX, f);
  }
  void raise_flag(int *f) {
    *f = 1;
    if (on()) wake_all(FUTEX, f);
  }
  void settle() {
    if (on()) block(SETTLE, nullptr);
  }
  void sleep_virtual(long ns) { sleep_until(vnow + ns); }

  Outcome run(Plan const &p, std::function<void()> const &body) {
    static std::string hung; // one run that did not end is enough: the others of this process would take as long
    if (!hung.empty()) {
      Outcome o;
      o.trace = hung;
      return o;
    }
    int fd[2];
    if (::pipe(fd)) throw std::runtime_error("pipe");
    pid_t pid = ::fork();
    if (pid < 0) throw std::runtime_error("fork");
    if (pid == 0) {
      ::close(fd[0]);
      ::alarm(12);
      for (int s: {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) ::signal(s, on_signal);
      out_fd = fd[1];
      plan   = p;
      rng    = p.seed * 0x9E3779B97F4A7C15ull + 0x1234567;
      for (int i = 0; i < 8; i++) rnd();
      nth     = 1;
      th[0].id = 0, th[0].cid = 0, th[0].announced = true;
      th[0].vc.c[0] = 1;
      th[0].prio    = long(rnd(1000000)) + 1;
      me            = &th[0];
      if (plan.mode == 1) {
        int const d = int(rnd(4));
        for (int i = 0; i < d; i++) change_at.push_back(long(rnd(i % 2 ? 60 : 300)) + 1);
      }
      active = true;
      try {
        body();
      } catch (std::exception const &e) {
        finish("crash", "exception");
      }
      event(0, "quiet", "", 0, 0, "");
      finish();
    }
    ::close(fd[1]);
    std::string got;
    char buf[65536];
    ssize_t n;
    while ((n = ::read(fd[0], buf, sizeof buf)) > 0) got.append(buf, std::size_t(n));
    ::close(fd[0]);
    int st = 0;
    ::waitpid(pid, &st, 0);
    Outcome o;
    auto nl = got.find('\n');
    if (nl == std::string::npos) {
      o.trace = "[{\"e\":\"crash\",\"t\":0,\"op\":\"\",\"a\":0,\"b\":0,\"s\":\"status " + std::to_string(st) + "\",\"ts\":0}]";
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) hung = o.trace;
      return o;
    }
    o.trace         = got.substr(0, nl);
    char const *c   = got.c_str() + nl + 1;
    char *end;
    for (;;) {
      long a = std::strtol(c, &end, 10);
      if (end == c) break;
      c      = end;
      long b = std::strtol(c, &end, 10);
      c      = end;
      o.choices.emplace_back(int(a), int(b));
    }
    return o;
  }
} // namespace sched
