// The runtime behind sched.hpp: the entry points of the instrumentation, and
// versions of the blocking primitives that know about the scheduler.
#include "sched.hpp"

#include <dlfcn.h>
#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>

#include <cerrno>
#include <cstring>
#include <algorithm>
#include <exception>
#include <map>
#include <string>
#include <thread>

namespace {
constexpr int MAXT = 8;
constexpr size_t MAXPOINTS = 20000;
constexpr int FAIR = 400;

struct T {
  sem_t go;
  bool finished = false;
  const void* blocked = nullptr;
  char *lo = nullptr, *hi = nullptr;
};
struct S {
  T t[MAXT];
  int n = 0;
  int current = 0;
  int streak = 0;
  sem_t over;
  const int* prefix = nullptr;
  size_t length = 0;
  sched::Execution* e = nullptr;
  bool abort = false;
};
S s;
thread_local int self = -1;
thread_local bool inside = false;
struct Abort {};

struct M {
  int owner = -1;
  int count = 0;
};
std::map<const void*, M>* table;  // (no function-local static here: its guard is one of the functions below)
std::map<const void*, M>& mutexes() {
  if (!table) table = new std::map<const void*, M>();
  return *table;
}
bool held(const void* m) {
  auto it = mutexes().find(m);
  return it != mutexes().end() && it->second.count > 0;
}

// Decide who runs next; `before` is the calling thread if it could go on.
int choose(int before) {
  std::vector<int> en;
  for (int i = 0; i < s.n; i++)
    if (!s.t[i].finished && (!s.t[i].blocked || !held(s.t[i].blocked))) en.push_back(i);
  if (en.empty()) return -1;
  int c;
  size_t i = s.e->points.size();
  if (i < s.length) {
    c = s.prefix[i];
    if (std::find(en.begin(), en.end(), c) == en.end()) {
      s.e->diverged = true;
      c = en[0];
    }
  }
  else if (before >= 0 && s.streak < FAIR)
    c = before;
  else {
    c = en[0];
    for (int t : en)
      if (t > s.current) {
        c = t;
        break;
      }
  }
  if (before >= 0 && s.streak >= FAIR) before = -1;  // a forced switch is not a preemption
  s.e->points.push_back({c, before, en});
  return c;
}
void switch_to(int c, int me, bool wait) {
  s.streak = c == s.current ? s.streak + 1 : 0;
  s.current = c;
  if (c == me) return;
  sem_post(&s.t[c].go);
  if (wait)
    while (sem_wait(&s.t[me].go)) {
    }
}
void over(bool deadlock) {
  s.e->deadlock = deadlock;
  sem_post(&s.over);
}
void point() {
  inside = true;
  if (s.e->points.size() > MAXPOINTS) {
    s.e->overrun = true;
    sem_post(&s.over);
    while (true) pause();
  }
  int c = choose(self);
  switch_to(c, self, true);
  inside = false;
}
void access(const void* p) {
  if (self < 0 || inside) return;
  auto a = static_cast<const char*>(p);
  if (a >= s.t[self].lo && a < s.t[self].hi) return;
  point();
}
void block(const void* m) {
  // give way until m is free
  inside = true;
  while (held(m)) {
    s.t[self].blocked = m;
    int c = choose(-1);
    if (c < 0) {
      over(true);
      while (true) pause();
    }
    switch_to(c, self, true);
    s.t[self].blocked = nullptr;
  }
  inside = false;
}
}  // namespace

namespace sched {
Execution run(const std::vector<std::function<void()>>& bodies, const int* prefix, int length) {
  Execution e;
  s.n = static_cast<int>(bodies.size());
  s.prefix = prefix;
  s.length = static_cast<size_t>(length);
  s.e = &e;
  s.current = -1;
  s.streak = 0;
  sem_init(&s.over, 0, 0);
  std::vector<std::thread> ts;
  for (int i = 0; i < s.n; i++) {
    sem_init(&s.t[i].go, 0, 0);
    s.t[i].finished = false;
    s.t[i].blocked = nullptr;
  }
  mallopt(M_ARENA_MAX, 1);
  for (int i = 0; i < s.n; i++) {
    ts.emplace_back([i, &bodies] {
      inside = true;
      pthread_attr_t a;
      void* lo;
      size_t size;
      pthread_getattr_np(pthread_self(), &a);
      pthread_attr_getstack(&a, &lo, &size);
      pthread_attr_destroy(&a);
      s.t[i].lo = static_cast<char*>(lo);
      s.t[i].hi = s.t[i].lo + size;
      sem_post(&s.over);
      while (sem_wait(&s.t[i].go)) {
      }
      self = i;
      inside = false;
      bodies[static_cast<size_t>(i)]();
      inside = true;
      s.t[i].finished = true;
      bool all = true;
      for (int j = 0; j < s.n; j++) all &= s.t[j].finished;
      if (all) {
        self = -1;
        over(false);
        return;
      }
      int c = choose(-1);
      self = -1;
      if (c < 0) {
        over(true);
        return;
      }
      switch_to(c, i, false);
    });
    // one thread after the other, so that their memory is laid out in the same way every time
    while (sem_wait(&s.over)) {
    }
  }
  inside = true;
  int c = choose(-1);
  switch_to(c, -1, false);
  while (sem_wait(&s.over)) {
  }
  inside = false;
  if (e.deadlock || e.overrun)
    for (auto& t : ts) t.detach();
  else
    for (auto& t : ts) t.join();
  return e;
}

Executor::Executor(const std::function<std::vector<std::function<void()>>()>& fresh, const std::function<std::string(const Execution&)>& verify) {
  shared = static_cast<int*>(mmap(nullptr, (MAXPOINTS + 100) * sizeof(int), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  int req[2], res[2];
  if (pipe(req) || pipe(res)) _exit(4);
  pid = fork();
  if (pid) {
    close(req[0]);
    close(res[1]);
    request = req[1];
    response = res[0];
    return;
  }
  // The process that all executions are forked from: it must not touch the heap.
  close(req[1]);
  close(res[0]);
  char r;
  while (read(req[0], &r, 1) == 1) {
    pid_t child = fork();
    if (child == 0) {
      Execution e = sched::run(fresh(), shared + 1, shared[0]);
      std::string out, what;
      auto put = [&](int v) { out.append(reinterpret_cast<const char*>(&v), sizeof v); };
      what = e.diverged ? "D" : e.deadlock ? "deadlock" : e.overrun ? "no end" : "";
      if (what.empty()) {
        try {
          what = verify(e);
        } catch (const std::exception& x) {
          what = std::string("exception ") + x.what();
        }
      }
      put(static_cast<int>(e.points.size()));
      for (auto& p : e.points) {
        put(p.chosen);
        put(p.before);
        put(static_cast<int>(p.enabled.size()));
        for (int t : p.enabled) put(t);
      }
      out += what;
      int size = static_cast<int>(out.size());
      out.insert(0, reinterpret_cast<const char*>(&size), sizeof size);
      for (size_t i = 0; i < out.size();) {
        auto n = write(res[1], out.data() + i, out.size() - i);
        if (n <= 0) _exit(3);
        i += static_cast<size_t>(n);
      }
      _exit(0);
    }
    // give up on an execution that does not end
    int status = -1;
    for (int wait = 0;; wait++) {
      if (waitpid(child, &status, WNOHANG) == child) break;
      if (wait > 300000) {
        kill(child, SIGKILL);
        waitpid(child, &status, 0);
        status = -1;
        break;
      }
      usleep(wait < 100 ? 20 : 100);
    }
    if (status != 0) {
      int bad[2] = {-1, status};
      if (write(res[1], bad, sizeof bad) != sizeof bad) _exit(3);
    }
  }
  _exit(0);
}

Executor::~Executor() {
  close(request);
  close(response);
  kill(pid, SIGKILL);
  waitpid(pid, nullptr, 0);
  munmap(shared, (MAXPOINTS + 100) * sizeof(int));
}

Execution Executor::run(const std::vector<int>& prefix) {
  Execution e;
  shared[0] = static_cast<int>(prefix.size());
  std::copy(prefix.begin(), prefix.end(), shared + 1);
  if (write(request, "x", 1) != 1) {
    e.what = "the executor died";
    return e;
  }
  std::string in;
  auto fill = [&](size_t n) {
    while (in.size() < n) {
      char buf[65536];
      auto k = read(response, buf, std::min(sizeof buf, n - in.size()));
      if (k < 0 && errno == EINTR) continue;
      if (k <= 0) return false;
      in.append(buf, static_cast<size_t>(k));
    }
    return true;
  };
  size_t at = 0;
  auto get = [&] {
    int v;
    memcpy(&v, in.data() + at, sizeof v);
    at += sizeof v;
    return v;
  };
  if (!fill(4)) {
    e.what = "the executor died";
    return e;
  }
  int size = get();
  if (size < 0) {
    fill(8);
    int status = get();
    e.what = status == -1 ? "no progress for 30 s" : WIFSIGNALED(status) ? std::string("killed by signal ") + std::to_string(WTERMSIG(status)) : "process exited";
    return e;
  }
  if (!fill(4 + static_cast<size_t>(size))) {
    e.what = "truncated";
    return e;
  }
  int n = get();
  for (int i = 0; i < n; i++) {
    Point p;
    p.chosen = get();
    p.before = get();
    int m = get();
    for (int j = 0; j < m; j++) p.enabled.push_back(get());
    e.points.push_back(p);
  }
  e.what = in.substr(at);
  return e;
}
}  // namespace sched

template <typename F>
static F next(const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (self < 0 || inside) {
    static int (*real)(pthread_mutex_t*); if (!real) real = next<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
    return real(m);
  }
  point();
  auto& x = mutexes()[m];
  if (x.owner == self && x.count && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) {
    x.count++;
    return 0;
  }
  block(m);
  auto& y = mutexes()[m];
  y.owner = self;
  y.count = 1;
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (self < 0 || inside) {
    static int (*real)(pthread_mutex_t*); if (!real) real = next<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
    return real(m);
  }
  point();
  auto& x = mutexes()[m];
  if (x.count && (x.owner != self || (m->__data.__kind & 3) != PTHREAD_MUTEX_RECURSIVE_NP)) return EBUSY;
  x.owner = self;
  x.count++;
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (self < 0 || inside) {
    static int (*real)(pthread_mutex_t*); if (!real) real = next<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
    return real(m);
  }
  auto& x = mutexes()[m];
  if (x.count) x.count--;
  if (!x.count) x.owner = -1;
  point();
  return 0;
}
int __cxa_guard_acquire(long long int* g) {
  auto b = reinterpret_cast<volatile unsigned char*>(g);
  if (self >= 0 && !inside) point();
  if (b[0]) return 0;
  if (self >= 0) {
    block(g);
    if (b[0]) return 0;
    auto& x = mutexes()[g];
    x.owner = self;
    x.count = 1;
  }
  return 1;
}
void __cxa_guard_release(long long int* g) {
  *reinterpret_cast<volatile unsigned char*>(g) = 1;
  if (self >= 0) mutexes()[g].count = 0;
}
void __cxa_guard_abort(long long int* g) {
  if (self >= 0) mutexes()[g].count = 0;
}
int sched_yield() noexcept {
  if (self >= 0 && !inside) s.streak = FAIR, point();
  return 0;
}

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access(p); }
void __tsan_vptr_read(void** p) { access(p); }
#define RW(n) \
  void __tsan_read##n(void* p) { access(p); } \
  void __tsan_write##n(void* p) { access(p); } \
  void __tsan_unaligned_read##n(void* p) { access(p); } \
  void __tsan_unaligned_write##n(void* p) { access(p); } \
  void __tsan_volatile_read##n(void* p) { access(p); } \
  void __tsan_volatile_write##n(void* p) { access(p); } \
  void __tsan_unaligned_volatile_read##n(void* p) { access(p); } \
  void __tsan_unaligned_volatile_write##n(void* p) { access(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long) { access(p); }
void __tsan_write_range(void* p, unsigned long) { access(p); }
#define AT(n, type) \
  type __tsan_atomic##n##_load(const volatile type* a, int) { access(const_cast<const type*>(a)); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##n##_store(volatile type* a, type v, int) { access(const_cast<const type*>(a)); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##n##_exchange(volatile type* a, type v, int) { access(const_cast<const type*>(a)); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##n##_fetch_add(volatile type* a, type v, int) { access(const_cast<const type*>(a)); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##n##_fetch_sub(volatile type* a, type v, int) { access(const_cast<const type*>(a)); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##n##_fetch_and(volatile type* a, type v, int) { access(const_cast<const type*>(a)); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##n##_fetch_or(volatile type* a, type v, int) { access(const_cast<const type*>(a)); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##n##_fetch_xor(volatile type* a, type v, int) { access(const_cast<const type*>(a)); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##n##_fetch_nand(volatile type* a, type v, int) { access(const_cast<const type*>(a)); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile type* a, type* c, type v, int, int) { access(const_cast<const type*>(a)); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile type* a, type* c, type v, int, int) { access(const_cast<const type*>(a)); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##n##_compare_exchange_val(volatile type* a, type c, type v, int, int) { access(const_cast<const type*>(a)); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void __tsan_acquire(void*) {}
void __tsan_release(void*) {}
}
