// See vsched.h. This file must not be compiled with -fsanitize=thread.
#include "vsched.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <map>
#include <new>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace {
constexpr int kMaxThreads = 64;
constexpr std::int64_t kMs = 1000000;
// Arbitrary, but such that clocks differ.
constexpr std::int64_t kRealStart = 1600000000LL * 1000000000LL;
constexpr std::int64_t kMonoStart = 5000LL * 1000000000LL;

struct Clock {
  std::uint32_t c[kMaxThreads] = {};
  void join(const Clock& o) {
    for (int i = 0; i < kMaxThreads; i++) c[i] = std::max(c[i], o.c[i]);
  }
};

enum class Block { none, mutex, cond, poll, join, guard, time, pred };

struct Thread {
  int id = 0;
  std::atomic<int> go{0};
  Block block = Block::none;
  void* addr = nullptr;         // Mutex, condition variable or guard.
  pollfd* fds = nullptr;
  nfds_t nfds = 0;
  std::uint64_t epoch = 0;      // When the fds were last looked at.
  Thread* target = nullptr;
  std::int64_t wake = -1;       // Virtual time in ns.
  bool timed_out = false;
  bool signalled = false;
  bool done = false;
  const std::function<bool()>* pred = nullptr;
  pthread_t handle{};
  int prio = 0;
  std::uint64_t run = 0;        // Steps since another one ran.
  Clock vc;
  char *lo = nullptr, *hi = nullptr;  // Stack.
  void* (*start)(void*) = nullptr;
  void* arg = nullptr;
  void* result = nullptr;
};

bool active = false;
__thread Thread* me = nullptr;
__thread int quiet = 0;         // In our own code.
std::vector<Thread*>* threads;
std::int64_t virtual_now;       // ns since the start.
std::uint64_t fd_epoch;
std::uint64_t step_count;
vs::options opt;
int out_fd = -1;
std::uint64_t the_seed;
std::vector<std::string>* events;
std::unordered_map<void*, Thread*>* owners;
std::unordered_map<const void*, Clock>* clocks;
std::unordered_map<std::uint64_t, Clock>* fd_clocks;
std::unordered_map<void*, Thread*>* guards;

struct Rng {
  std::uint64_t s;
  std::uint64_t operator()() {
    s += 0x9e3779b97f4a7c15ULL;
    std::uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  std::uint64_t below(std::uint64_t n) { return (*this)() % n; }
};
Rng program_rng, sched_rng;

// How the next thread is chosen.
bool by_priority;
std::uint64_t sync_switch, mem_switch;      // Per 10000, without priorities.
std::uint64_t changes[8];                   // Steps, with priorities.
int n_changes, lowest;

long futex(std::atomic<int>* a, int op, int v) {
  return syscall(SYS_futex, reinterpret_cast<int*>(a), op, v, nullptr, nullptr, 0);
}

[[noreturn]] void finish(const char* end, const std::string& more = "") {
  quiet++;
  std::string s = "{\"seed\":" + std::to_string(the_seed) + ",\"end\":\"" + end +
                  "\"" + more + ",\"steps\":" + std::to_string(step_count) +
                  ",\"ev\":[";
  for (std::size_t i = 0; i < events->size(); i++) {
    if (i) s += ',';
    s += (*events)[i];
  }
  s += "]}\n";
  std::size_t at = 0;
  while (at < s.size()) {
    long r = syscall(SYS_write, out_fd, s.data() + at, s.size() - at);
    if (r <= 0) break;
    at += r;
  }
  syscall(SYS_exit_group, 0);
  __builtin_unreachable();
}

bool fds_ready(Thread* t) {
  struct timespec zero = {0, 0};
  for (nfds_t i = 0; i < t->nfds; i++) t->fds[i].revents = 0;
  long r = syscall(SYS_ppoll, t->fds, t->nfds, &zero, nullptr, 8);
  return r != 0;
}

bool runnable(Thread* t) {
  if (t->done) return false;
  if (t->wake >= 0 && t->wake <= virtual_now) {
    if (t->block == Block::poll && fds_ready(t)) return true;
    t->timed_out = true;
    return true;
  }
  switch (t->block) {
    case Block::none: return true;
    case Block::mutex: {
      auto i = owners->find(t->addr);
      return i == owners->end() || !i->second;
    }
    case Block::cond: return t->signalled;
    case Block::poll:
      if (t->epoch == fd_epoch) return false;
      if (fds_ready(t)) return true;
      t->epoch = fd_epoch;
      return false;
    case Block::join: return t->target->done;
    case Block::guard: return guards->find(t->addr) == guards->end();
    case Block::time: return false;
    case Block::pred: return (*t->pred)();
  }
  return false;
}

Thread* choose() {
  while (true) {
    Thread* can[kMaxThreads];
    int n = 0;
    for (auto* t : *threads)
      if (runnable(t)) can[n++] = t;
    if (n) {
      if (by_priority) {
        Thread* best = can[0];
        for (int i = 1; i < n; i++)
          if (can[i]->prio > best->prio) best = can[i];
        return best;
      }
      return can[sched_rng.below(n)];
    }
    std::int64_t next = -1;
    for (auto* t : *threads)
      if (!t->done && t->wake >= 0 && (next < 0 || t->wake < next)) next = t->wake;
    if (next < 0) finish("stuck");
    virtual_now = next;
    events->push_back("{\"e\":\"tick\",\"now\":" + std::to_string(next / kMs) + "}");
  }
}

void hand_over(Thread* from, Thread* to) {
  if (to == from) return;
  to->run = 0;
  to->go.store(1);
  futex(&to->go, FUTEX_WAKE, 1);
  if (from && !from->done) {
    while (from->go.load() == 0) futex(&from->go, FUTEX_WAIT, 0);
    from->go.store(0);
  }
}

// The current thread is blocked as it says: others go on until it can.
void block() {
  Thread* t = me;
  t->timed_out = false;
  Thread* n = choose();
  hand_over(t, n);
  t->block = Block::none;
  t->wake = -1;
}

void count_step() {
  if (++step_count > opt.max_steps) finish("hang");
}

// A point at which others may go on.
void point(bool sync) {
  Thread* t = me;
  count_step();
  t->run++;
  if (by_priority) {
    bool change = t->run > 3000;
    for (int i = 0; i < n_changes; i++) change |= changes[i] == step_count;
    if (!change && !sync) return;
    if (change) {
      t->prio = --lowest;
      t->run = 0;
    }
  } else if (sched_rng.below(10000) >= (sync ? sync_switch : mem_switch) &&
             t->run < 3000) {
    return;
  }
  if (!by_priority) t->run = 0;
  Thread* n = choose();
  hand_over(t, n);
}

struct Quiet {
  Quiet() { quiet++; }
  ~Quiet() { quiet--; }
};

// Ours to handle?
bool ours() { return active && me && !quiet; }

// ------------------------------------------------------------------- memory
constexpr std::size_t kArena = 1ULL << 30;
char* arena;
std::size_t arena_used;
unsigned char* freed_map;       // By 16 bytes.
struct Access {
  std::uint32_t clk;
  std::uint8_t tid, mask, write, used;
};
struct Cell {
  Access a[4];
};
Cell* cells;                    // By 8 bytes.

bool in_arena(const void* p) {
  return arena && p >= arena && p < arena + kArena;
}

std::string place(void* pc) {
  char b[64];
  snprintf(b, sizeof(b), "%lx", reinterpret_cast<unsigned long>(pc));
  return b;
}

[[noreturn]] void report(const char* what, const void* addr, void* pc, int other) {
  finish(what, ",\"pc\":\"" + place(pc) + "\",\"thread\":" + std::to_string(me->id) +
                   ",\"other\":" + std::to_string(other));
}

void touch_cell(std::size_t cell, unsigned mask, bool write, void* pc) {
  Cell& c = cells[cell];
  Thread* t = me;
  Access* slot = nullptr;
  for (auto& a : c.a) {
    if (!a.used) {
      if (!slot) slot = &a;
      continue;
    }
    if (a.tid == t->id) {
      if (a.mask == mask && a.write <= write) slot = &a;
      continue;
    }
    if ((a.mask & mask) && (a.write || write) && a.clk > t->vc.c[a.tid])
      report("race", arena + cell * 8, pc, a.tid);
    // It happened before and so matters no more to whoever comes later,
    // unless it's a write and this is a read by just one of several.
    if ((a.mask & mask) == a.mask && write) a.used = 0, slot = slot ? slot : &a;
  }
  if (!slot) slot = &c.a[step_count & 3];
  *slot = {t->vc.c[t->id], static_cast<std::uint8_t>(t->id),
           static_cast<std::uint8_t>(mask), static_cast<std::uint8_t>(write), 1};
}

void touch_range(const void* p, std::size_t n, bool write, void* pc) {
  std::size_t at = static_cast<const char*>(p) - arena;
  if (freed_map[at >> 4]) report("freed", p, pc, -1);
  if (!opt.races) return;
  std::size_t end = at + n;
  while (at < end) {
    std::size_t cell = at >> 3, stop = std::min(end, (cell + 1) << 3);
    unsigned mask = ((1u << (stop - at)) - 1) << (at & 7);
    touch_cell(cell, mask, write, pc);
    at = stop;
  }
}

void access(const void* p, std::size_t n, bool write, void* pc) {
  if (!ours()) return;
  const char* c = static_cast<const char*>(p);
  if (c >= me->lo && c < me->hi) return;
  Quiet q;
  point(false);
  if (in_arena(p) && n) touch_range(p, n, write, pc);
}

void check_alive(const void* p, void* pc) {
  if (in_arena(p) && freed_map[(static_cast<const char*>(p) - arena) >> 4])
    report("freed", p, pc, -1);
}

void acquire(const void* o) {
  auto i = clocks->find(o);
  if (i != clocks->end()) me->vc.join(i->second);
}
void release(const void* o) {
  (*clocks)[o].join(me->vc);
  me->vc.c[me->id]++;
}

// File descriptors: both ends of a pipe have the same inode; all sockets are
// taken together.
std::uint64_t fd_key(int fd) {
  struct stat st;
  if (syscall(SYS_fstat, fd, &st) != 0) return 0;
  return S_ISFIFO(st.st_mode) ? st.st_ino * 2 + 1 : 2;
}
void acquire_fd(int fd) {
  auto i = fd_clocks->find(fd_key(fd));
  if (i != fd_clocks->end()) me->vc.join(i->second);
}
void release_fd(int fd) {
  (*fd_clocks)[fd_key(fd)].join(me->vc);
  me->vc.c[me->id]++;
}

template <typename F>
F real(const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

void set_stack(Thread* t) {
  pthread_attr_t a;
  if (pthread_getattr_np(pthread_self(), &a) == 0) {
    void* p;
    std::size_t n;
    pthread_attr_getstack(&a, &p, &n);
    t->lo = static_cast<char*>(p);
    t->hi = t->lo + n;
    pthread_attr_destroy(&a);
  }
}

Thread* new_thread() {
  if (threads->size() >= kMaxThreads) finish("hang");
  Thread* t = new Thread;
  t->id = threads->size();
  t->vc.c[t->id] = 1;
  t->prio = sched_rng.below(1000000) + 1000;
  threads->push_back(t);
  return t;
}

void* thread_main(void* p) {
  Thread* t = static_cast<Thread*>(p);
  quiet = 1;
  set_stack(t);
  while (t->go.load() == 0) futex(&t->go, FUTEX_WAIT, 0);
  t->go.store(0);
  me = t;
  quiet = 0;
  t->result = t->start(t->arg);
  quiet = 1;
  t->done = true;
  t->vc.c[t->id]++;
  hand_over(t, choose());
  return t->result;
}

void lock_mutex(void* m) {
  Thread* t = me;
  while (true) {
    auto& o = (*owners)[m];
    if (!o) {
      o = t;
      break;
    }
    t->block = Block::mutex;
    t->addr = m;
    block();
  }
  acquire(m);
}
void unlock_mutex(void* m) {
  (*owners)[m] = nullptr;
  release(m);
}
}  // namespace

// --------------------------------------------------------------------- memory
namespace {
void* allocate(std::size_t n, std::size_t align = 16) {
  if (!arena) {
    arena = static_cast<char*>(mmap(nullptr, kArena, PROT_READ | PROT_WRITE,
                                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    freed_map = static_cast<unsigned char*>(
        mmap(nullptr, kArena / 16, PROT_READ | PROT_WRITE,
             MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    cells = static_cast<Cell*>(
        mmap(nullptr, kArena / 8 * sizeof(Cell), PROT_READ | PROT_WRITE,
             MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    arena_used = 4096;
  }
  align = std::max<std::size_t>(align, 16);
  std::size_t at = (arena_used + 16 + align - 1) / align * align;
  std::size_t size = (n + 15) / 16 * 16;
  if (at + size + 16 > kArena) abort();
  *reinterpret_cast<std::size_t*>(arena + at - 16) = n;
  arena_used = at + size + 16;
  return arena + at;
}
void release_memory(void* p) {
  if (!p) return;
  if (!in_arena(p)) {
    free(p);
    return;
  }
  std::size_t at = static_cast<char*>(p) - arena;
  std::size_t n = *reinterpret_cast<std::size_t*>(arena + at - 16);
  if (ours()) {
    Quiet q;
    if (freed_map[at >> 4]) report("freed", p, __builtin_return_address(0), -1);
    if (n) touch_range(p, n, true, __builtin_return_address(0));
  }
  if (!active) {
    // What the parent process frees stays as it is.
    return;
  }
  memset(freed_map + (at >> 4), 1, std::max<std::size_t>(1, (n + 15) / 16));
  if (!quiet) memset(p, 0xdd, n);
}
}  // namespace

void* operator new(std::size_t n) { return allocate(n); }
void* operator new[](std::size_t n) { return allocate(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return allocate(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return allocate(n); }
void* operator new(std::size_t n, std::align_val_t a) { return allocate(n, std::size_t(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return allocate(n, std::size_t(a)); }
void operator delete(void* p) noexcept { release_memory(p); }
void operator delete[](void* p) noexcept { release_memory(p); }
void operator delete(void* p, std::size_t) noexcept { release_memory(p); }
void operator delete[](void* p, std::size_t) noexcept { release_memory(p); }
void operator delete(void* p, std::align_val_t) noexcept { release_memory(p); }
void operator delete[](void* p, std::align_val_t) noexcept { release_memory(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { release_memory(p); }

extern "C" {

#define PC __builtin_return_address(0)

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N)                                                              \
  void __tsan_read##N(void* p) { access(p, N, false, PC); }                \
  void __tsan_write##N(void* p) { access(p, N, true, PC); }                \
  void __tsan_unaligned_read##N(void* p) { access(p, N, false, PC); }      \
  void __tsan_unaligned_write##N(void* p) { access(p, N, true, PC); }      \
  void __tsan_volatile_read##N(void* p) { access(p, N, false, PC); }       \
  void __tsan_volatile_write##N(void* p) { access(p, N, true, PC); }       \
  void __tsan_read_write##N(void* p) { access(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) {
  // Rewriting the same value, as destructors of final classes do, is harmless.
  if (*p != v) access(p, 8, true, PC);
}
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void __tsan_mutex_pre_lock(void*, unsigned) {}
void __tsan_mutex_post_lock(void*, unsigned, int) {}
int __tsan_mutex_pre_unlock(void*, unsigned) { return 0; }
void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_mutex_pre_signal(void*, unsigned) {}
void __tsan_mutex_post_signal(void*, unsigned) {}
void __tsan_mutex_create(void*, unsigned) {}
void __tsan_mutex_destroy(void*, unsigned) {}
void __tsan_acquire(void*) {}
void __tsan_release(void*) {}
void AnnotateHappensBefore(const char*, int, const volatile void*) {}
void AnnotateHappensAfter(const char*, int, const volatile void*) {}

static void atomic_access(const volatile void* p, bool load, bool store, void* pc) {
  if (!ours()) return;
  Quiet q;
  point(true);
  const void* o = const_cast<const void*>(p);
  check_alive(o, pc);
  if (load) acquire(o);
  if (store) release(o);
}
#define ATOMIC(N, T)                                                           \
  T __tsan_atomic##N##_load(const volatile T* p, int) {                        \
    atomic_access(p, true, false, PC);                                         \
    return __atomic_load_n(p, __ATOMIC_SEQ_CST);                               \
  }                                                                            \
  void __tsan_atomic##N##_store(volatile T* p, T v, int) {                     \
    atomic_access(p, false, true, PC);                                         \
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                  \
  }                                                                            \
  T __tsan_atomic##N##_exchange(volatile T* p, T v, int) {                     \
    atomic_access(p, true, true, PC);                                          \
    return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                        \
  }                                                                            \
  T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int) {                    \
    atomic_access(p, true, true, PC);                                          \
    return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int) {                    \
    atomic_access(p, true, true, PC);                                          \
    return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int) {                    \
    atomic_access(p, true, true, PC);                                          \
    return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int) {                     \
    atomic_access(p, true, true, PC);                                          \
    return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                          \
  }                                                                            \
  T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int) {                    \
    atomic_access(p, true, true, PC);                                          \
    return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* c, T v, int, \
                                                 int) {                        \
    atomic_access(p, true, true, PC);                                          \
    return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST,       \
                                       __ATOMIC_SEQ_CST);                      \
  }                                                                            \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* c, T v, int,  \
                                               int) {                          \
    atomic_access(p, true, true, PC);                                          \
    return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST,       \
                                       __ATOMIC_SEQ_CST);                      \
  }                                                                            \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T c, T v, int, int) { \
    atomic_access(p, true, true, PC);                                          \
    __atomic_compare_exchange_n(p, &c, v, false, __ATOMIC_SEQ_CST,             \
                                __ATOMIC_SEQ_CST);                             \
    return c;                                                                  \
  }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned int)
ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------- pthreads
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!ours()) {
    if (active && me) return 0;
    static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
    return f(m);
  }
  Quiet q;
  point(true);
  check_alive(m, PC);
  lock_mutex(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!ours()) {
    if (active && me) return 0;
    static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
    return f(m);
  }
  Quiet q;
  point(true);
  check_alive(m, PC);
  if ((*owners)[m]) return EBUSY;
  lock_mutex(m);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!ours()) {
    if (active && me) return 0;
    static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
    return f(m);
  }
  Quiet q;
  point(true);
  check_alive(m, PC);
  unlock_mutex(m);
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }

static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, std::int64_t wake, void* pc) {
  Quiet q;
  point(true);
  check_alive(c, pc);
  unlock_mutex(m);
  Thread* t = me;
  int res = 0;
  if (opt.spurious && sched_rng.below(1000) < static_cast<unsigned>(opt.spurious)) {
    point(true);
  } else {
    t->block = Block::cond;
    t->addr = c;
    t->wake = wake;
    t->signalled = false;
    block();
    if (!t->signalled && t->timed_out) res = ETIMEDOUT;
    t->signalled = false;
    t->addr = nullptr;
  }
  // The mutex must still be there.
  check_alive(m, pc);
  lock_mutex(m);
  return res;
}
static std::int64_t from_abstime(clockid_t clock, const struct timespec* a) {
  std::int64_t v = a->tv_sec * 1000000000LL + a->tv_nsec;
  return std::max<std::int64_t>(0, v - (clock == CLOCK_REALTIME ? kRealStart : kMonoStart));
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!ours()) abort();
  return cond_wait(c, m, -1, PC);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* a) {
  if (!ours()) abort();
  return cond_wait(c, m, from_abstime(CLOCK_REALTIME, a), PC);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k,
                           const struct timespec* a) {
  if (!ours()) abort();
  return cond_wait(c, m, from_abstime(k, a), PC);
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!ours()) return 0;
  Quiet q;
  point(true);
  check_alive(c, PC);
  Thread* w[kMaxThreads];
  int n = 0;
  for (auto* t : *threads)
    if (!t->done && t->block == Block::cond && t->addr == c && !t->signalled) w[n++] = t;
  if (n) w[sched_rng.below(n)]->signalled = true;
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!ours()) return 0;
  Quiet q;
  point(true);
  check_alive(c, PC);
  for (auto* t : *threads)
    if (!t->done && t->block == Block::cond && t->addr == c) t->signalled = true;
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) { return 0; }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) {
  memset(c, 0, sizeof(*c));
  return 0;
}

int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
  static auto create =
      real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
  if (!ours()) return create(h, a, f, arg);
  Quiet q;
  point(true);
  Thread* t = new_thread();
  t->start = f;
  t->arg = arg;
  t->vc.join(me->vc);
  t->vc.c[t->id] = 1;
  me->vc.c[me->id]++;
  int r = create(&t->handle, a, thread_main, t);
  if (r) finish("hang");
  *h = t->handle;
  point(true);
  return 0;
}
int pthread_join(pthread_t h, void** res) {
  static auto join = real<int (*)(pthread_t, void**)>("pthread_join");
  if (!ours()) return join(h, res);
  Quiet q;
  point(true);
  // Handles are reused: the newest thread is the one that's meant.
  for (auto i = threads->rbegin(); i != threads->rend(); ++i) {
    auto* t = *i;
    if (t->id && pthread_equal(t->handle, h)) {
      if (!t->done) {
        me->block = Block::join;
        me->target = t;
        block();
      }
      me->vc.join(t->vc);
      return join(h, res);
    }
  }
  return ESRCH;
}
int pthread_detach(pthread_t h) {
  static auto detach = real<int (*)(pthread_t)>("pthread_detach");
  if (ours()) {
    Quiet q;
    point(true);
  }
  return detach(h);
}

int vs_guard_acquire(std::uint64_t* g) __asm__("__cxa_guard_acquire");
int vs_guard_acquire(std::uint64_t* g) {
  char* b = reinterpret_cast<char*>(g);
  if (!active || !me) {
    return __atomic_load_n(b, __ATOMIC_ACQUIRE) ? 0 : 1;
  }
  Quiet q;
  point(true);
  while (guards->count(g)) {
    me->block = Block::guard;
    me->addr = g;
    block();
  }
  acquire(g);
  if (*b) return 0;
  (*guards)[g] = me;
  return 1;
}
void vs_guard_release(std::uint64_t* g) __asm__("__cxa_guard_release");
void vs_guard_release(std::uint64_t* g) {
  *reinterpret_cast<char*>(g) = 1;
  if (!active || !me) return;
  Quiet q;
  guards->erase(g);
  release(g);
}
void vs_guard_abort(std::uint64_t* g) __asm__("__cxa_guard_abort");
void vs_guard_abort(std::uint64_t* g) {
  if (!active || !me) return;
  Quiet q;
  guards->erase(g);
  release(g);
}

// ------------------------------------------------------------ time, descriptors
int clock_gettime(clockid_t k, struct timespec* ts) {
  if (!active) return syscall(SYS_clock_gettime, k, ts);
  std::int64_t v = virtual_now + (k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE
                                      ? kRealStart : kMonoStart);
  ts->tv_sec = v / 1000000000;
  ts->tv_nsec = v % 1000000000;
  return 0;
}
int gettimeofday(struct timeval* tv, void*) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
static void sleep_until(std::int64_t wake) {
  Quiet q;
  point(true);
  me->block = Block::time;
  me->wake = wake;
  if (wake > virtual_now) block();
  me->block = Block::none;
  me->wake = -1;
}
int nanosleep(const struct timespec* d, struct timespec* left) {
  if (!ours()) return syscall(SYS_nanosleep, d, left);
  sleep_until(virtual_now + d->tv_sec * 1000000000LL + d->tv_nsec);
  return 0;
}
int clock_nanosleep(clockid_t k, int flags, const struct timespec* d, struct timespec*) {
  if (!ours()) return syscall(SYS_clock_nanosleep, k, flags, d, nullptr);
  if (flags & TIMER_ABSTIME) {
    sleep_until(from_abstime(k, d));
  } else {
    sleep_until(virtual_now + d->tv_sec * 1000000000LL + d->tv_nsec);
  }
  return 0;
}
int usleep(useconds_t u) {
  struct timespec d = {static_cast<time_t>(u / 1000000), static_cast<long>(u % 1000000) * 1000};
  return nanosleep(&d, nullptr);
}
int sched_yield() {
  if (ours()) {
    Quiet q;
    point(true);
  }
  return 0;
}

static int do_poll(struct pollfd* fds, nfds_t n, std::int64_t timeout_ns) {
  Quiet q;
  point(true);
  if (opt.eintr && sched_rng.below(1000) < static_cast<unsigned>(opt.eintr)) {
    errno = EINTR;
    return -1;
  }
  Thread* t = me;
  t->fds = fds;
  t->nfds = n;
  if (!fds_ready(t) && timeout_ns != 0) {
    t->block = Block::poll;
    t->epoch = fd_epoch;
    t->wake = timeout_ns < 0 ? -1 : virtual_now + timeout_ns;
    block();
  }
  struct timespec zero = {0, 0};
  for (nfds_t i = 0; i < n; i++) fds[i].revents = 0;
  long r = syscall(SYS_ppoll, fds, n, &zero, nullptr, 8);
  if (r == 0 && timeout_ns == 0) virtual_now += opt.drift;
  for (nfds_t i = 0; i < n; i++)
    if (r > 0 && fds[i].revents) acquire_fd(fds[i].fd);
  return r;
}
int poll(struct pollfd* fds, nfds_t n, int timeout) {
  if (!ours()) return syscall(SYS_poll, fds, n, timeout);
  // Days are for ever.
  return do_poll(fds, n, timeout < 0 || timeout > 100000000 ? -1 : timeout * kMs);
}
int __poll_chk(struct pollfd* fds, nfds_t n, int timeout, std::size_t) {
  return poll(fds, n, timeout);
}
int ppoll(struct pollfd* fds, nfds_t n, const struct timespec* ts, const sigset_t* s) {
  if (!ours()) return syscall(SYS_ppoll, fds, n, ts, s, 8);
  return do_poll(fds, n, ts ? ts->tv_sec * 1000000000LL + ts->tv_nsec : -1);
}

// Ends of links, and duplicates of them that don't keep them open.
static std::pair<int, int> twins[16];

// Blocks until the descriptor, if it would block, is ready.
static void until_ready(int fd, short ev) {
  long fl = syscall(SYS_fcntl, fd, F_GETFL, 0);
  if (fl < 0 || (fl & O_NONBLOCK)) return;
  while (true) {
    struct pollfd p = {fd, ev, 0};
    Thread* t = me;
    t->fds = &p;
    t->nfds = 1;
    if (fds_ready(t)) return;
    t->block = Block::poll;
    t->epoch = fd_epoch;
    t->wake = -1;
    block();
  }
}
static std::size_t partly(std::size_t n) {
  if (n > 1 && opt.partial && sched_rng.below(100) < static_cast<unsigned>(opt.partial))
    return 1 + sched_rng.below(n);
  return n;
}
ssize_t read(int fd, void* p, size_t n) {
  if (!ours()) return syscall(SYS_read, fd, p, n);
  Quiet q;
  point(true);
  until_ready(fd, POLLIN);
  long r = syscall(SYS_read, fd, p, partly(n));
  int e = errno;
  fd_epoch++;
  acquire_fd(fd);
  errno = e;
  return r;
}
ssize_t write(int fd, const void* p, size_t n) {
  if (!ours()) return syscall(SYS_write, fd, p, n);
  Quiet q;
  point(true);
  until_ready(fd, POLLOUT);
  release_fd(fd);
  long r = syscall(SYS_write, fd, p, partly(n));
  int e = errno;
  fd_epoch++;
  errno = e;
  return r;
}
ssize_t recv(int fd, void* p, size_t n, int flags) {
  if (!ours()) return syscall(SYS_recvfrom, fd, p, n, flags, nullptr, nullptr);
  Quiet q;
  point(true);
  if (!(flags & MSG_DONTWAIT)) until_ready(fd, POLLIN);
  long r = syscall(SYS_recvfrom, fd, p, partly(n), flags, nullptr, nullptr);
  int e = errno;
  fd_epoch++;
  acquire_fd(fd);
  errno = e;
  return r;
}
ssize_t send(int fd, const void* p, size_t n, int flags) {
  if (!ours()) return syscall(SYS_sendto, fd, p, n, flags, nullptr, 0);
  Quiet q;
  point(true);
  if (!(flags & MSG_DONTWAIT)) until_ready(fd, POLLOUT);
  release_fd(fd);
  long r = syscall(SYS_sendto, fd, p, partly(n), flags, nullptr, 0);
  int e = errno;
  fd_epoch++;
  errno = e;
  return r;
}
int close(int fd) {
  if (!ours()) return syscall(SYS_close, fd);
  Quiet q;
  point(true);
  release_fd(fd);
  long r = syscall(SYS_close, fd);
  int e = errno;
  for (auto& [one, two] : twins) {
    if (one == fd && two >= 0) syscall(SYS_shutdown, two, SHUT_RDWR);
    if (one == fd || two == fd) one = two = -1;
  }
  fd_epoch++;
  errno = e;
  return r;
}
int shutdown(int fd, int how) {
  if (!ours()) return syscall(SYS_shutdown, fd, how);
  Quiet q;
  point(true);
  release_fd(fd);
  long r = syscall(SYS_shutdown, fd, how);
  int e = errno;
  fd_epoch++;
  errno = e;
  return r;
}
int connect(int fd, const struct sockaddr* a, socklen_t n) {
  if (!ours()) return syscall(SYS_connect, fd, a, n);
  Quiet q;
  point(true);
  release_fd(fd);
  long r = syscall(SYS_connect, fd, a, n);
  int e = errno;
  fd_epoch++;
  errno = e;
  return r;
}
int listen(int fd, int n) {
  if (!ours()) return syscall(SYS_listen, fd, n);
  Quiet q;
  point(true);
  long r = syscall(SYS_listen, fd, n);
  int e = errno;
  fd_epoch++;
  errno = e;
  return r;
}
int accept(int fd, struct sockaddr* a, socklen_t* n) {
  if (!ours()) return syscall(SYS_accept, fd, a, n);
  Quiet q;
  point(true);
  until_ready(fd, POLLIN);
  long r = syscall(SYS_accept, fd, a, n);
  int e = errno;
  fd_epoch++;
  acquire_fd(fd);
  errno = e;
  return r;
}
int accept4(int fd, struct sockaddr* a, socklen_t* n, int flags) {
  if (!ours()) return syscall(SYS_accept4, fd, a, n, flags);
  Quiet q;
  point(true);
  until_ready(fd, POLLIN);
  long r = syscall(SYS_accept4, fd, a, n, flags);
  int e = errno;
  fd_epoch++;
  acquire_fd(fd);
  errno = e;
  return r;
}

}  // extern "C"

// ------------------------------------------------------------------ executions
namespace vs {

std::uint64_t random(std::uint64_t n) { return program_rng.below(n); }
std::int64_t now_ms() { return virtual_now / kMs; }
int self() { return me ? me->id : 0; }
int fresh() {
  static int n = 0;
  return ++n;
}
std::uint64_t steps() { return step_count; }
void set_partial(int percent) { opt.partial = percent; }
void set_twin(int fd, int twin) {
  for (auto& t : twins)
    if (t.first <= 0) {
      t = {fd, twin};
      return;
    }
}
void set_eintr(int permille) { opt.eintr = permille; }
int log_index(const std::string& text) {
  quiet++;
  events->push_back("{\"th\":" + std::to_string(self()) + ",\"now\":" +
                    std::to_string(now_ms()) + "," + text + "}");
  int r = events->size() - 1;
  quiet--;
  return r;
}
void log(const std::string& text) { log_index(text); }
void amend(int i, const std::string& text) {
  quiet++;
  auto& s = (*events)[i];
  s.pop_back();
  s += "," + text + "}";
  quiet--;
}
void yield() {
  Quiet q;
  point(true);
}
void wait_until(const std::function<bool()>& f) {
  Quiet q;
  point(true);
  while (!f()) {
    me->block = Block::pred;
    me->pred = &f;
    block();
  }
}
void quit(const std::string& end) { finish(end.c_str()); }

namespace {
void crashed(int sig) {
  if (out_fd < 0) _exit(1);
  const char* what = sig == SIGALRM ? "hang" : "crash";
  // As well as possible.
  quiet++;
  finish(what, ",\"signal\":" + std::to_string(sig));
}

void one(std::uint64_t seed, const options& o,
         const std::function<void(std::uint64_t)>& body) {
  the_seed = seed;
  opt = o;
  program_rng.s = seed * 0x2545f4914f6cdd1dULL + 77;
  program_rng();
  sched_rng.s = seed * 0xda942042e4dd58b5ULL + 12345;
  sched_rng();
  threads = new std::vector<Thread*>;
  events = new std::vector<std::string>;
  owners = new std::unordered_map<void*, Thread*>;
  clocks = new std::unordered_map<const void*, Clock>;
  fd_clocks = new std::unordered_map<std::uint64_t, Clock>;
  guards = new std::unordered_map<void*, Thread*>;
  by_priority = sched_rng.below(3) == 0;
  static const std::uint64_t syncs[] = {300, 1000, 2500, 5000, 9000};
  static const std::uint64_t mems[] = {0, 0, 3, 30, 300};
  sync_switch = syncs[sched_rng.below(5)];
  mem_switch = mems[sched_rng.below(5)];
  static const std::uint64_t spans[] = {300, 1500, 6000, 25000};
  std::uint64_t span = spans[sched_rng.below(4)];
  n_changes = sched_rng.below(7);
  for (int i = 0; i < n_changes; i++) changes[i] = 1 + sched_rng.below(span);
  lowest = 1000;
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGALRM}) {
    struct sigaction a = {};
    a.sa_handler = crashed;
    a.sa_flags = SA_ONSTACK | SA_NODEFER;
    sigaction(s, &a, nullptr);
  }
  static char alt[65536];
  stack_t st = {};
  st.ss_sp = alt;
  st.ss_size = sizeof(alt);
  sigaltstack(&st, nullptr);
  alarm(25);
  Thread* t = new_thread();
  set_stack(t);
  me = t;
  active = true;
  body(seed);
  finish("done");
}

std::uint64_t hash_events(const std::string& l) {
  std::size_t p = l.find("\"end\":");
  std::size_t q = l.find(",\"steps\":"), r = l.find(",\"ev\":");
  std::string s = l.substr(p, q - p) + l.substr(r);
  return std::hash<std::string>()(s);
}
}  // namespace

int run(std::uint64_t first, std::uint64_t n, int jobs, const std::string& file,
        const options& o, const std::function<void(std::uint64_t)>& body,
        const std::string& header) {
  if (getenv("VS_SEED")) first = strtoull(getenv("VS_SEED"), nullptr, 10), n = 1;
  FILE* out = fopen(file.c_str(), "w");
  if (!out) return 1;
  if (!header.empty()) fprintf(out, "%s\n", header.c_str());
  fflush(out);
  // One process per job, which forks one per execution.
  std::vector<pid_t> workers;
  for (int j = 0; j < jobs; j++) {
    std::string part = file + ".part" + std::to_string(j);
    pid_t w = fork();
    if (w == 0) {
      FILE* pf = fopen(part.c_str(), "w");
      std::unordered_set<std::uint64_t> seen;
      bool bad = !pf;
      std::uint64_t total = 0, total_steps = 0;
      for (std::uint64_t i = j; !bad && i < n; i += jobs) {
        int p[2];
        if (pipe(p) != 0) _exit(1);
        fcntl(p[0], F_SETPIPE_SZ, 1 << 20);
        pid_t c = fork();
        if (c == 0) {
          syscall(SYS_close, p[0]);
          syscall(SYS_close, fileno(pf));
          // Out of the way of the program's.
          out_fd = fcntl(p[1], F_DUPFD_CLOEXEC, 900);
          syscall(SYS_close, p[1]);
          one(first + i, o, body);
        }
        syscall(SYS_close, p[1]);
        std::string line;
        char b[65536];
        long r;
        while ((r = syscall(SYS_read, p[0], b, sizeof(b))) > 0) line.append(b, r);
        syscall(SYS_close, p[0]);
        int st;
        waitpid(c, &st, 0);
        if (line.empty() || line.back() != '\n' ||
            line.compare(line.size() - 3, 3, "]}\n") != 0 ||
            line.find('\n') != line.size() - 1 || line.find("{\"seed\":") != 0 ||
            line.find(",\"steps\":") > line.find(",\"ev\":")) {
          line = "{\"seed\":" + std::to_string(first + i) +
                 ",\"end\":\"crash\",\"status\":" + std::to_string(st) +
                 ",\"steps\":0,\"ev\":[]}\n";
        }
        total++;
        std::size_t sp = line.find(",\"steps\":");
        if (sp != std::string::npos) total_steps += strtoull(line.c_str() + sp + 9, nullptr, 10);
        if (seen.insert(hash_events(line)).second) fputs(line.c_str(), pf);
      }
      if (pf) fclose(pf);
      FILE* sf = fopen((part + ".stat").c_str(), "w");
      if (sf) {
        fprintf(sf, "%lu %lu\n", total, total_steps);
        fclose(sf);
      }
      _exit(bad ? 1 : 0);
    }
    workers.push_back(w);
  }
  int res = 0;
  std::unordered_set<std::uint64_t> seen;
  std::uint64_t total = 0, total_steps = 0;
  for (int j = 0; j < jobs; j++) {
    int st;
    waitpid(workers[j], &st, 0);
    if (st != 0) res = 1;
    std::string part = file + ".part" + std::to_string(j);
    FILE* f = fopen(part.c_str(), "r");
    if (!f) return 1;
    char* line = nullptr;
    std::size_t cap = 0;
    while (getline(&line, &cap, f) > 0)
      if (seen.insert(hash_events(line)).second) fputs(line, out);
    free(line);
    fclose(f);
    unlink(part.c_str());
    f = fopen((part + ".stat").c_str(), "r");
    if (f) {
      unsigned long a, b;
      if (fscanf(f, "%lu %lu", &a, &b) == 2) total += a, total_steps += b;
      fclose(f);
      unlink((part + ".stat").c_str());
    }
  }
  if (fclose(out) != 0) res = 1;
  FILE* sf = fopen((file + ".stat").c_str(), "w");
  if (sf) {
    fprintf(sf, "{\"executions\":%lu,\"steps\":%lu}\n", total, total_steps);
    fclose(sf);
  }
  return total == n ? res : 1;
}
}  // namespace vs
