// Random concurrent programs over the library's synchronization objects:
// main SEED N PROFILE OUTFILE [JOBS]. One execution per line of the result.
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdlib>
#include <exception>
#include <memory>
#include <string>
#include <thread>
#include <tuple>
#include <utility>
#include <vector>
#include "arpc/awaitable.h"
#include "arpc/context.h"
#include "arpc/binary_codecs.h"
#include "arpc/dynamic_base_class.h"
#include "arpc/errors.h"
#include "arpc/flag.h"
#include "arpc/future.h"
#include "arpc/mutex.h"
#include "arpc/queue.h"
#include "arpc/select.h"
#include "arpc/semaphore.h"
#include "arpc/serializable.h"
#include "arpc/string_adapters.h"
#include "arpc/thread.h"
#include "arpc/usage_lock.h"
#include "prog.h"
#include "vsched.h"

#define DATUM(N) \
  struct datum##N : arpc::dynamic<datum##N> { \
    int v; \
    explicit datum##N(int n = 0) : v(n) {} \
    ARPC_FIELDS(v); \
  }; \
  ARPC_REGISTER(datum##N)
DATUM(1);
DATUM(2);
DATUM(3);

namespace {
using arpc::awaitable;
using ms = std::chrono::milliseconds;

int next(int n) { return vs::random(n); }
bool chance(int p) { return next(100) < p; }
std::string S(std::int64_t n) { return std::to_string(n); }

// What a program consists of.
struct Profile {
  int locks = 0, mods = 30;
  int mutexes = 0, flags = 0, queues = 0, sems = 0, futures = 0;
  int contexts = 0;     // Per cent of the operations.
  int timeouts = 0;     // Per cent of selects with a timeout.
  int data = 0;         // Per cent of those of contexts about data.
  int handover = 0;     // Per cent of threads that are given a context.
  int multi = 0;        // Per cent of selects of several things.
  int threads = 2, ops = 4;
};

using mods = std::vector<std::string>;

// Notices when it's left behind by moving.
struct Elem {
  int v = 0;
  std::unique_ptr<int> p;
  Elem() = default;
  explicit Elem(int n) : v(n), p(new int(n)) {}
  Elem(const Elem& o) : v(o.v), p(o.p ? new int(*o.p) : nullptr) {}
  Elem(Elem&& o) noexcept : v(std::exchange(o.v, 0)), p(std::move(o.p)) {}
  Elem& operator=(Elem o) noexcept {
    v = std::exchange(o.v, 0);
    p = std::move(o.p);
    return *this;
  }
  int value() const { return p && *p == v ? v : 0; }
};

struct World {
  Profile p;
  std::vector<arpc::usage_lock<int>*> locks;
  std::vector<arpc::mutex*> mutexes;
  std::vector<arpc::flag*> flags;
  std::vector<arpc::queue<Elem>*> queues;
  std::vector<arpc::semaphore*> sems;
  std::vector<arpc::promise<int>*> promises;
  std::vector<arpc::future<int>*> futures;
  std::atomic<arpc::context*> contexts[8] = {};   // Of threads, by number.
} *w;

struct Frame {
  arpc::context* c;
  int id;
  bool current = true;
};

// Everything about the thread that runs the program.
struct Actor {
  int number;
  bool main = false;
  std::vector<int> held;
  struct Ref {
    int lock, id;
    std::shared_ptr<int> p;
  };
  std::vector<Ref> refs;
  std::vector<int> my_promises, my_futures;
  std::vector<Frame> frames;      // All contexts it owns.
  int index = 0;                  // Of the thread.
  int value = 0, context = 0;
  int fresh() { return number * 100 + ++value; }
};

// What takes so long that it doesn't matter how long: Far in the specification.
constexpr int far_away = 1500000;
ms random_timeout(int n) {
  if (n != far_away) return ms(n);
  switch (next(3)) {
    case 0: return ms::max();
    case 1: return std::chrono::hours(24 * 365 * 300);
    default: return std::chrono::hours(24 * 365);
  }
}
arpc::context::time_point random_time(int n) {
  auto now = std::chrono::time_point_cast<ms>(std::chrono::system_clock::now());
  if (n != far_away) return now + ms(n);
  return chance(50) ? arpc::context::time_point::max() : now + std::chrono::hours(24 * 365 * 400);
}
void set_time(arpc::context& c, int n) {
  if (chance(50)) c.set_timeout(random_timeout(n));
  else c.set_deadline(random_time(n));
}
int some_timeout() { return chance(8) ? far_away : next(6); }

std::string error_name(std::exception_ptr e) {
  return arpc::error_factory::analyze_exception(e).first;
}

// A call: f returns the fields with its results.
template <typename F>
bool call(const std::string& what, F f, bool may_escape = false) {
  int c = vs::log_index("\"e\":\"call\"," + what);
  std::string res;
  bool ok = true, escape = false;
  std::exception_ptr e;
  try {
    res = std::string("\"res\":\"ok\"") + (chance(8) ? prog::unwinding(f) : f());
  } catch (...) {
    e = std::current_exception();
    ok = false;
    res = "\"res\":\"" + error_name(e) + "\"";
  }
  vs::amend(c, res);
  vs::log("\"e\":\"ret\"");
  if (!ok && may_escape && chance(20)) {
    auto n = error_name(e);
    escape = n == "cancelled" || n == "deadline_exceeded";
  }
  if (escape) std::rethrow_exception(e);
  return ok;
}
std::string no_result() { return ""; }

// ------------------------------------------------------------------- selecting
struct Item {
  std::string k;
  int o = 0, v = 0;
  mods m;
};
std::string text(const mods& m) {
  std::string s = "[";
  for (auto& x : m) s += (s.size() > 1 ? ",\"" : "\"") + x + "\"";
  return s + "]";
}
mods random_mods() {
  static const char* all[] = {"add", "err", "one", "catch", "catch_aborted",
                              "catch_broken", "wrap", "guard"};
  mods m;
  if (chance(w->p.mods))
    for (int n = 1 + next(3); n > 0; n--) m.push_back(all[next(8)]);
  return m;
}
template <typename A>
A modify(A a, const mods& m) {
  for (auto& x : m) {
    if (x == "add") a = a.then([](int v) { return v + 1000; });
    else if (x == "err") a = a.then([](int) -> int { throw arpc::errors::out_of_range("mod"); });
    else if (x == "one") a = a.then([](int) {}).then([] { return 1; });
    else if (x == "catch") a = a.template except<arpc::errors::not_found>([](const auto&) { return 7; });
    else if (x == "catch_aborted") a = a.template except<arpc::errors::out_of_range>([](const auto&) { return 8; });
    else if (x == "catch_broken") a = a.template except<arpc::errors::invalid_state>([](const auto&) { return 9; });
  }
  return a;
}
// Awaitables can't be assigned.
awaitable<int> modify(awaitable<int> a, const mods& m, std::size_t k) {
  if (k == m.size()) return a;
  auto& x = m[k];
  if (x == "add") return modify(a.then([](int v) { return v + 1000; }), m, k + 1);
  if (x == "err")
    return modify(a.then([](int) -> int { throw arpc::errors::out_of_range("mod"); }), m, k + 1);
  if (x == "one") return modify(a.then([](int) {}).then([] { return 1; }), m, k + 1);
  if (x == "catch")
    return modify(a.except<arpc::errors::not_found>([](const auto&) { return 7; }), m, k + 1);
  if (x == "catch_aborted")
    return modify(a.except<arpc::errors::out_of_range>([](const auto&) { return 8; }), m, k + 1);
  if (x == "catch_broken")
    return modify(a.except<arpc::errors::invalid_state>([](const auto&) { return 9; }), m, k + 1);
  if (x == "wrap") return modify(a.decorate([](auto& f) { return f() + 500; }), m, k + 1);
  return modify(a.decorate([](auto& f) {
    try {
      return f();
    } catch (const arpc::errors::out_of_range&) {
      return 10;
    }
  }), m, k + 1);
}
std::string text(const Item& i) {
  return "{\"k\":\"" + i.k + "\",\"o\":" + S(i.o + 1) + ",\"v\":" + S(i.v) + ",\"m\":" + text(i.m) +
         "}";
}

Item plain_item(Actor& a) {
  auto& p = w->p;
  for (int tries = 0; tries < 50; tries++) {
    switch (next(7)) {
      case 6: {
        int k = a.frames.empty() ? -1 : next(a.frames.size());
        if (!p.contexts || !chance(p.contexts)) break;
        if (k < 0 || chance(30)) {
          int t = next(p.threads);
          if (w->contexts[t]) return {"wcancel", 1000 + t - 1};
        } else {
          return {chance(50) ? "wcancel" : "wdeadline", a.frames[k].id - 1};
        }
        break;
      }
      case 0:
        if (p.mutexes) {
          int m = next(p.mutexes);
          bool mine = false;
          for (int h : a.held) mine |= h == m;
          if (!mine || chance(3)) return {chance(15) ? "can_lock" : "lock", m};
        }
        break;
      case 1:
        if (p.flags && chance(p.timeouts / 2)) return {"poll", next(p.flags), 1 + next(3)};
        if (p.flags) return {"wait", next(p.flags)};
        break;
      case 2:
        if (p.queues) {
          if (chance(15)) return {chance(50) ? "can_get" : "can_put", next(p.queues)};
          if (chance(50)) return {"get", next(p.queues)};
          return {"put", next(p.queues), a.fresh()};
        }
        break;
      case 3:
        if (p.sems) return {chance(50) ? "sget" : "sput", next(p.sems)};
        break;
      case 4:
        if (!a.my_futures.empty())
          return {chance(15) ? "can_fget" : "fget", a.my_futures[next(a.my_futures.size())]};
        break;
      case 5:
        if (chance(p.timeouts)) return {"time", 0, next(5)};
        break;
    }
  }
  return {"time", 0, next(3)};
}

Item random_item(Actor& a) {
  Item i = plain_item(a);
  i.m = random_mods();
  return i;
}

awaitable<int> make_plain(const Actor& a, const Item& i) {
  auto zero = [] { return 0; };
  if (i.k == "lock") return w->mutexes[i.o]->async_lock().then(zero);
  if (i.k == "can_lock") return w->mutexes[i.o]->can_lock().then(zero);
  if (i.k == "wait") return w->flags[i.o]->async_wait().then(zero);
  if (i.k == "poll") {
    auto* f = w->flags[i.o];
    return arpc::polling(ms(i.v)).then([f, n = 0]() mutable {
      if (f->is_set()) return 0;
      if (++n == 4) throw arpc::errors::not_found("Never");
      throw arpc::errors::try_again("Not yet");
    });
  }
  if (i.k == "get") return w->queues[i.o]->async_get().then([](Elem e) { return e.value(); });
  if (i.k == "put") return w->queues[i.o]->async_put(Elem(i.v)).then(zero);
  if (i.k == "can_get") return w->queues[i.o]->can_get().then(zero);
  if (i.k == "can_put") return w->queues[i.o]->can_put().then(zero);
  if (i.k == "sget") return w->sems[i.o]->async_get().then(zero);
  if (i.k == "sput") return w->sems[i.o]->async_put().then(zero);
  if (i.k == "fget") return w->futures[i.o]->async_get();
  if (i.k == "can_fget") return w->futures[i.o]->can_get().then(zero);
  if (i.k[0] == 'w') {
    arpc::context* c = i.o + 1 >= 1000 ? w->contexts[i.o + 1 - 1000].load() : nullptr;
    for (auto& f : a.frames)
      if (f.id == i.o + 1) c = f.c;
    return (i.k == "wcancel" ? c->wait_cancelled() : c->wait_deadline()).then(zero);
  }
  return arpc::timeout(ms(i.v)).then(zero);
}

awaitable<int> make(const Actor& a, const Item& i) { return modify(make_plain(a, i), i.m, 0); }

std::string text(arpc::result_holder<int>& r) {
  if (!r) return "{\"r\":\"none\",\"v\":0}";
  try {
    int v = *r;
    return "{\"r\":\"ok\",\"v\":" + S(v) + "}";
  } catch (...) {
    return "{\"r\":\"" + error_name(std::current_exception()) + "\",\"v\":0}";
  }
}

// The direct way for a single item.
std::string direct(const Actor& a, const Item& i) {
  int v = 0;
  try {
    if (i.k == "lock") w->mutexes[i.o]->lock();
    else if (i.k == "wait") w->flags[i.o]->wait();
    else if (i.k == "get") v = w->queues[i.o]->get().value();
    else if (i.k == "put") {
      if (chance(50)) {
        w->queues[i.o]->put(Elem(i.v));
      } else {
        Elem e(i.v);
        w->queues[i.o]->put(e);
      }
    }
    else if (i.k == "sget") w->sems[i.o]->get();
    else if (i.k == "sput") w->sems[i.o]->put();
    else if (i.k == "fget") v = w->futures[i.o]->get();
    else {
      auto [r] = arpc::select(make(a, i));
      return ",\"rs\":[" + text(r) + "]";
    }
  } catch (...) {
    auto n = error_name(std::current_exception());
    if (i.k == "fget" && n != "cancelled" && n != "deadline_exceeded")
      return ",\"rs\":[{\"r\":\"" + n + "\",\"v\":0}]";
    throw;
  }
  return ",\"rs\":[{\"r\":\"ok\",\"v\":" + S(v) + "}]";
}

void note(Actor& a, const std::vector<Item>& items, const std::string& rs) {
  // Mutexes that were locked.
  std::size_t at = 0;
  for (auto& i : items) {
    at = rs.find("\"r\":\"", at);
    if (at == std::string::npos) return;
    if (i.k == "lock" && rs.compare(at + 5, 4, "none") != 0) a.held.push_back(i.o);
    at += 5;
  }
}

void do_select(Actor& a) {
  std::vector<Item> items{random_item(a)};
  if (chance(w->p.multi))
    for (int n = 1 + next(3); n > 0; n--) {
      Item i = random_item(a);
      bool dup = false;
      for (auto& j : items)
        dup |= i.k == j.k && i.k.find("lock") != std::string::npos && i.o == j.o;
      if (!dup) items.push_back(i);
    }
  std::string s = "\"op\":\"sel\",\"items\":[";
  for (std::size_t k = 0; k < items.size(); k++) s += (k ? "," : "") + text(items[k]);
  s += "]";
  call(s, [&]() -> std::string {
    std::string rs;
    if (items.size() == 1 && items[0].m.empty() && chance(60)) {
      rs = direct(a, items[0]);
    } else {
      int how = next(4);
      std::vector<std::string> r;
      if (how == 0 && items.size() == 2) {
        auto [x, y] = arpc::select(make(a, items[0]), make(a, items[1]));
        r = {text(x), text(y)};
      } else if (how <= 1 && items.size() == 3) {
        std::vector<awaitable<int>> v;
        v.push_back(make(a, items[1]));
        auto [x, y, z] = arpc::select(make(a, items[0]), std::move(v), make(a, items[2]));
        r = {text(x), text(y[0]), text(z)};
      } else if (how <= 1 && items.size() == 4) {
        std::vector<awaitable<int>> v, u;
        v.push_back(make(a, items[0]));
        v.push_back(make(a, items[1]));
        u.push_back(make(a, items[3]));
        auto [x, y, z] = arpc::select(std::move(v), make(a, items[2]), std::move(u));
        r = {text(x[0]), text(x[1]), text(y), text(z[0])};
      } else {
        std::vector<awaitable<int>> v;
        for (auto& i : items) v.push_back(make(a, i));
        auto [x] = arpc::select(std::move(v));
        for (auto& y : x) r.push_back(text(y));
      }
      rs = ",\"rs\":[";
      for (std::size_t k = 0; k < r.size(); k++) rs += (k ? "," : "") + r[k];
      rs += "]";
    }
    note(a, items, rs);
    return rs;
  }, !a.main);
}

// ------------------------------------------------------------ other operations
void push_context(Actor& a, bool shield, int timeout, bool current = true,
                  const Frame* parent = nullptr) {
  Frame f{nullptr, a.number * 50 + ++a.context, current};
  call("\"op\":\"" + std::string(current ? "push" : "child") + "\",\"ctx\":" + S(f.id) +
           ",\"shield\":" + S(shield) + ",\"timeout\":" + S(timeout) +
           ",\"parent\":" + S(parent ? parent->id : -1), [&] {
    if (parent) f.c = new arpc::context(*parent->c, current, shield);
    else if (!current) f.c = new arpc::context(arpc::context::current(), false, shield);
    else if (shield) f.c = new arpc::shield;
    else f.c = new arpc::context;
    if (timeout >= 0) set_time(*f.c, timeout);
    return "";
  });
  a.frames.push_back(f);
}
// The last current one, or any other.
void pop_context(Actor& a, std::size_t k) {
  auto f = a.frames[k];
  a.frames.erase(a.frames.begin() + k);
  call("\"op\":\"" + std::string(f.current ? "pop" : "drop") + "\",\"ctx\":" + S(f.id), [&] {
    delete f.c;
    return "";
  });
}
// May it be destroyed now?
bool last(const Actor& a, std::size_t k) {
  if (a.frames[k].current)
    for (std::size_t i = k + 1; i < a.frames.size(); i++)
      if (a.frames[i].current) return false;
  return true;
}

void release_one(Actor& a) {
  int m = a.held.back();
  a.held.pop_back();
  call("\"op\":\"unlock\",\"o\":" + S(m + 1), [&] {
    w->mutexes[m]->unlock();
    return "";
  });
}

void simple(Actor& a) {
  auto& p = w->p;
  for (int tries = 0; tries < 50; tries++) {
    switch (next(6)) {
      case 0:
        if (!p.mutexes) break;
        if (!a.held.empty() && chance(70)) {
          release_one(a);
        } else {
          int m = next(p.mutexes);
          call("\"op\":\"trylock\",\"o\":" + S(m + 1), [&] {
            bool r;
            if (chance(50)) {
              r = w->mutexes[m]->try_lock();
            } else {
              r = true;
              try {
                w->mutexes[m]->maybe_lock();
              } catch (const arpc::errors::try_again&) {
                r = false;
              }
            }
            if (r) a.held.push_back(m);
            return ",\"v\":" + S(r);
          });
        }
        return;
      case 1: {
        if (!p.flags) break;
        int f = next(p.flags);
        static const char* ops[] = {"set", "set", "reset", "isset"};
        std::string op = ops[next(4)];
        call("\"op\":\"" + op + "\",\"o\":" + S(f + 1), [&]() -> std::string {
          if (op == "set") w->flags[f]->set();
          else if (op == "reset") w->flags[f]->reset();
          else return ",\"v\":" + S(chance(50) ? w->flags[f]->is_set()
                                               : static_cast<bool>(*w->flags[f]));
          return "";
        });
        return;
      }
      case 2: {
        if (!p.queues) break;
        int q = next(p.queues);
        switch (next(5)) {
          case 0:
          case 1:
            call("\"op\":\"tryget\",\"o\":" + S(q + 1), [&] {
              return ",\"v\":" + S(w->queues[q]->maybe_get().value());
            });
            break;
          case 2:
          case 3: {
            int v = a.fresh();
            call("\"op\":\"tryput\",\"o\":" + S(q + 1) + ",\"val\":" + S(v), [&] {
              if (chance(50)) {
                w->queues[q]->maybe_put(Elem(v));
              } else {
                Elem e(v);
                w->queues[q]->maybe_put(e);
              }
              return "";
            });
            break;
          }
          case 4: {
            static const char* what[] = {"size", "empty", "full"};
            int k = next(3);
            call("\"op\":\"" + std::string(what[k]) + "\",\"o\":" + S(q + 1), [&] {
              auto& x = *w->queues[q];
              return ",\"v\":" + S(k == 0 ? x.size() : k == 1 ? x.empty() : x.full());
            });
            break;
          }
        }
        return;
      }
      case 3: {
        if (!p.sems) break;
        int q = next(p.sems);
        int k = next(5);
        static const char* what[] = {"tryget", "tryput", "size", "empty", "full"};
        call("\"op\":\"s" + std::string(what[k]) + "\",\"o\":" + S(q + 1) + ",\"val\":0",
             [&] {
          auto& x = *w->sems[q];
          int v = 0;
          if (k == 0) x.maybe_get();
          if (k == 1) x.maybe_put();
          if (k == 2) v = x.size();
          if (k == 3) v = x.empty();
          if (k == 4) v = x.full();
          return ",\"v\":" + S(v);
        });
        return;
      }
      case 4: {
        if (!a.my_promises.empty() && chance(60)) {
          int k = next(a.my_promises.size()), f = a.my_promises[k];
          auto* pr = w->promises[f];
          int how = next(7);
          int v = a.fresh();
          std::string o = ",\"o\":" + S(f + 1);
          if (how < 3) {
            call("\"op\":\"fset\",\"val\":" + S(v) + o, [&] {
              if (how == 0) {
                pr->set(arpc::result_holder<int>(std::move(v)));
              } else {
                pr->set_value(v);
              }
              return "";
            });
          } else if (how == 3) {
            call("\"op\":\"fexc\"" + o, [&] {
              pr->set_exception(std::make_exception_ptr(arpc::errors::not_found("x")));
              return "";
            });
          } else if (how == 6) {
            struct Fails {
              operator int() const { throw arpc::errors::out_of_range("no value"); }
            };
            call("\"op\":\"fthrow\"" + o, [&] {
              pr->set_value(Fails());
              return "";
            });
          } else {
            a.my_promises.erase(a.my_promises.begin() + k);
            call("\"op\":\"fdrop\"" + o, [&] {
              if (how == 4) {
                delete pr;
              } else {
                // By assignment.
                arpc::promise<int> other;
                auto keep = other.get_future();
                *pr = std::move(other);
              }
              return "";
            });
          }
          return;
        }
        if (!a.my_futures.empty()) {
          int k = next(a.my_futures.size()), f = a.my_futures[k];
          std::string o = ",\"o\":" + S(f + 1);
          if (chance(80)) {
            call("\"op\":\"ftry\"" + o, [&] {
              return ",\"v\":" + S(w->futures[f]->maybe_get());
            });
          } else {
            a.my_futures.erase(a.my_futures.begin() + k);
            call("\"op\":\"forget\"" + o, [&] {
              delete w->futures[f];
              return "";
            });
          }
          return;
        }
        break;
      }
      case 5:
        if (!chance(20)) break;
        call("\"op\":\"sleep\",\"val\":2", [&] {
          std::this_thread::sleep_for(ms(2));
          return "";
        });
        return;
    }
  }
}

int any(const Actor& a) { return a.frames.empty() ? -1 : next(a.frames.size()); }

void data_op(Actor& a, const Frame& f, bool mine = true) {
  std::string c = ",\"ctx\":" + S(f.id);
  int x = chance(50) ? a.fresh() : 0, y = chance(50) ? a.fresh() : 0,
      z = chance(50) ? a.fresh() : 0;
  std::string vals = ",\"vals\":[" + S(x) + "," + S(y) + "," + S(z) + "]";
  switch (next(4)) {
    case 0:
    case 1:
      if (!x && !y && !z) break;
      call("\"op\":\"dset\"" + vals + c, [&] {
        // In one step each.
        datum1 d(x);
        if (x && y && z) f.c->set(datum3(z), d, datum2(y));
        else if (x && y) f.c->set(datum1(x), datum2(y));
        else if (x && z) f.c->set(datum3(z), d);
        else if (y && z) f.c->set(datum3(z), datum2(y));
        else if (x) f.c->set(d);
        else if (y) f.c->set(datum2(y));
        else f.c->set(datum3(z));
        return "";
      });
      break;
    case 2:
      if (chance(20)) x = y = z = 1;
      vals = ",\"vals\":[" + S(x) + "," + S(y) + "," + S(z) + "]";
      call("\"op\":\"dreset\"" + vals + c, [&] {
        if (x && y && z && chance(50)) f.c->reset_all();
        else if (x && y && z) f.c->reset<datum3, datum1, datum2>();
        else if (x && y) f.c->reset<datum1, datum2>();
        else if (x && z) f.c->reset<datum1, datum3>();
        else if (y && z) f.c->reset<datum3, datum2>();
        else if (x) f.c->reset<datum1>();
        else if (y) f.c->reset<datum2>();
        else if (z) f.c->reset<datum3>();
        return "";
      });
      break;
  }
  if (!mine) return;
  int k = 1 + next(3);
  call("\"op\":\"dget\",\"cls\":" + S(k) + c, [&] {
    return ",\"v\":" + S(k == 1 ? f.c->get<datum1>().v : k == 2 ? f.c->get<datum2>().v
                                                           : f.c->get<datum3>().v);
  });
}

int current_id(const Actor& a) {
  int id = 2000 + a.index;
  for (auto& f : a.frames)
    if (f.current) id = f.id;
  return id;
}

void context_op(Actor& a) {
  int k = any(a);
  switch (!chance(w->p.data) ? next(10) : chance(70) ? 7 : 9) {
    case 0:
    case 1:
      if (a.frames.size() < 4) {
        bool parent = k >= 0 && chance(40);
        Frame f;
        if (parent) f = a.frames[k];
        push_context(a, chance(30), chance(40) ? some_timeout() : -1, chance(70),
                     parent ? &f : nullptr);
      }
      break;
    case 2:
      if (k >= 0 && !(a.main && a.frames[k].current) && last(a, k) &&
          (chance(15) || k + 1 == static_cast<int>(a.frames.size())))
        pop_context(a, k);
      break;
    case 3: {
      // Some thread's context.
      int t = next(w->p.threads);
      arpc::context* c = w->contexts[t];
      if (!c) break;
      if (chance(20)) {
        call("\"op\":\"ctxcancelled\",\"ctx\":" + S(1000 + t), [&] {
          return ",\"v\":" + S(c->is_cancelled());
        });
        break;
      }
      call("\"op\":\"cancel\",\"ctx\":" + S(1000 + t), [&] {
        c->cancel();
        return "";
      });
      break;
    }
    case 4: {
      if (k < 0) break;
      auto& f = a.frames[k];
      if (chance(50)) {
        call("\"op\":\"cancel\",\"ctx\":" + S(f.id), [&] {
          f.c->cancel();
          return "";
        });
      } else {
        call("\"op\":\"ctxcancelled\",\"ctx\":" + S(f.id), [&] {
          return ",\"v\":" + S(f.c->is_cancelled());
        });
      }
      break;
    }
    case 5:
    case 6:
      if (chance(60)) {
        call("\"op\":\"iscancelled\"", [&] {
          return ",\"v\":" + S(arpc::context::current().is_cancelled());
        });
      } else {
        call("\"op\":\"left\"", [&] {
          auto d = arpc::context::current().deadline_left();
          return ",\"v\":" + S(!d ? 2000000 : d->count() > 1000000000 ? far_away : d->count());
        });
      }
      break;
    case 7: {
      int t = next(w->p.threads);
      arpc::context* c = w->contexts[t];
      if (!a.main && chance(w->p.data && k >= 0 ? 20 : 40))
        data_op(a, {&arpc::context::current(),
                    current_id(a)});
      else if (c && chance(30)) data_op(a, {c, 1000 + t}, false);
      else if (k >= 0) data_op(a, a.frames[k]);
      break;
    }
    case 8: {
      int t = next(w->p.threads);
      arpc::context* c = w->contexts[t];
      if (c && chance(40)) {
        int v = some_timeout();
        call("\"op\":\"timeout\",\"ctx\":" + S(1000 + t) + ",\"val\":" + S(v), [&] {
          set_time(*c, v);
          return "";
        });
        break;
      }
      if (k < 0) break;
      int v = some_timeout();
      call("\"op\":\"timeout\",\"ctx\":" + S(a.frames[k].id) + ",\"val\":" + S(v), [&] {
        set_time(*a.frames[k].c, v);
        return "";
      });
      break;
    }
    case 9: {
      // From one to another without children.
      if (a.main || a.frames.size() < 2 || (!w->p.data && chance(50))) break;
      int to = a.frames.size() - 1, from = next(to);
      call("\"op\":\"load\",\"ctx\":" + S(a.frames[to].id) + ",\"from\":" +
               S(a.frames[from].id), [&] {
        std::string bytes;
        arpc::string_output_stream o(bytes);
        arpc::little_endian_binary_encoder e(o);
        e(*a.frames[from].c);
        arpc::string_input_stream i(bytes);
        arpc::little_endian_binary_decoder d(i);
        d(*a.frames[to].c);
        return "";
      });
      break;
    }
  }
}

void release_ref(Actor& a, int k) {
  auto r = std::move(a.refs[k]);
  a.refs.erase(a.refs.begin() + k);
  call("\"op\":\"urel\",\"o\":" + S(r.lock + 1) + ",\"ref\":" + S(r.id), [&] {
    r.p.reset();
    return "";
  });
}
void lock_op(Actor& a) {
  static int values[] = {0, 1, 2, 3};
  int u = next(w->p.locks);
  std::string o = ",\"o\":" + S(u + 1);
  auto* l = w->locks[u];
  switch (next(7)) {
    case 0:
    case 1:
    case 2: {
      int id = a.fresh();
      call("\"op\":\"uget\",\"ref\":" + S(id) + o, [&] {
        std::shared_ptr<int> p;
        if (chance(50)) p = l->get();
        else p = l->get_or_null();
        if (!p) throw arpc::errors::unavailable("null");
        int v = *p;
        // Copies are as good as the original.
        if (chance(30)) p = std::shared_ptr<int>(p);
        a.refs.push_back({u, id, p});
        return ",\"v\":" + S(v);
      });
      break;
    }
    case 3:
    case 4:
      if (!a.refs.empty()) release_ref(a, next(a.refs.size()));
      break;
    case 5: {
      int v = 1 + next(3);
      call("\"op\":\"uarm\",\"val\":" + S(v) + o, [&] {
        l->arm(&values[v]);
        return "";
      });
      break;
    }
    case 6:
      if (!a.refs.empty() && chance(90)) break;
      call("\"op\":\"udrop\",\"val\":0" + o, [&] {
        l->drop();
        return "";
      });
      break;
  }
}

void some_ops(Actor& a, int n) {
  for (int i = 0; i < n; i++) {
    if (chance(w->p.contexts)) context_op(a);
    else if (w->p.locks && chance(80)) lock_op(a);
    else if (chance(50)) do_select(a);
    else simple(a);
  }
}

void thread_body(Actor a, int ctx) {
  a.number = vs::self();
  a.index = ctx - 1000;
  vs::log("\"e\":\"begin\",\"ctx\":" + S(ctx));
  struct End {
    Actor& a;
    ~End() {
      while (!a.held.empty()) release_one(a);
      while (!a.refs.empty()) release_ref(a, a.refs.size() - 1);
      while (!a.frames.empty()) pop_context(a, a.frames.size() - 1);
      vs::log("\"e\":\"end\"");
    }
  } end{a};
  some_ops(a, 1 + next(w->p.ops));
  // Whoever keeps mutexes forever blocks the others; that's allowed.
  if (chance(5)) a.held.clear();
}

void program(std::uint64_t, const Profile& profile) {
  w = new World;
  auto& p = w->p = profile;
  p.threads = 1 + next(p.threads);
  std::string caps, scaps, futures;
  for (int i = 0; i < p.locks; i++) w->locks.push_back(new arpc::usage_lock<int>());
  for (int i = 0; i < p.mutexes; i++) w->mutexes.push_back(new arpc::mutex);
  for (int i = 0; i < p.flags; i++) w->flags.push_back(new arpc::flag);
  for (int i = 0; i < p.queues; i++) {
    int cap = chance(20) ? 1000000 : 1 + next(3);
    w->queues.push_back(cap == 1000000 ? new arpc::queue<Elem> : new arpc::queue<Elem>(cap));
    caps += (i ? "," : "") + S(cap);
  }
  for (int i = 0; i < p.sems; i++) {
    int cap = 1 + next(3);
    w->sems.push_back(new arpc::semaphore(cap));
    scaps += (i ? "," : "") + S(cap);
  }
  for (int i = 0; i < p.futures; i++) {
    w->promises.push_back(new arpc::promise<int>);
    mods m = random_mods();
    for (auto& x : m) if (x == "wrap" || x == "guard") x = "add";
    w->futures.push_back(new arpc::future<int>(modify(w->promises.back()->get_future(), m)));
    futures += (i ? "," : "") + text(m);
  }
  vs::log("\"e\":\"config\",\"mutexes\":" + S(p.mutexes) + ",\"flags\":" + S(p.flags) +
          ",\"queues\":[" + caps + "],\"sems\":[" + scaps + "],\"futures\":[" + futures +
          "],\"locks\":" + S(p.locks));
  std::vector<Actor> actors(p.threads + 1);
  Actor& m = actors[0];
  m.main = true;
  m.number = 0;
  for (int i = 0; i < p.futures; i++) {
    actors[next(p.threads + 1)].my_promises.push_back(i);
    actors[next(p.threads + 1)].my_futures.push_back(i);
  }
  if (p.contexts && chance(50)) push_context(m, false, chance(50) ? 1 + next(8) : -1);
  std::vector<arpc::thread*> threads;
  std::vector<arpc::daemon_thread*> daemons;
  std::vector<int> numbers;
  for (int i = 0; i < p.threads; i++) {
    // Numbers of threads are given in the order of their creation.
    int ctx = 1000 + i;
    bool daemon = p.contexts && chance(25);
    if (chance(p.handover)) {
      // A context that it's going to destroy.
      push_context(m, chance(20), chance(20) ? next(6) : -1, false);
      Frame parent = m.frames.back();
      push_context(m, chance(10), chance(20) ? next(6) : -1, false,
                   chance(80) ? &parent : nullptr);
      m.frames.back().current = false;
      actors[i + 1].frames.push_back(m.frames.back());
      m.frames.pop_back();
    }
    auto body = [a = actors[i + 1], ctx] { thread_body(a, ctx); };
    call("\"op\":\"spawn\",\"new\":" + S(i + 1) + ",\"ctx\":" + S(ctx) +
             ",\"daemon\":" + S(daemon), [&] {
      if (daemon) {
        daemons.push_back(new arpc::daemon_thread(std::move(body)));
        threads.push_back(nullptr);
        w->contexts[i] = &daemons.back()->get_context();
      } else {
        threads.push_back(new arpc::thread(std::move(body)));
        daemons.push_back(nullptr);
        w->contexts[i] = &threads.back()->get_context();
      }
      return "";
    });
    if (chance(30)) some_ops(m, 1);
  }
  for (int i = m.frames.size() - 1; i >= 0; i--)
    if (!m.frames[i].current && chance(30)) pop_context(m, i);
  some_ops(m, next(p.ops));
  if (p.contexts && chance(50)) {
    for (int i = 0; i < p.threads; i++)
      call("\"op\":\"cancel\",\"ctx\":" + S(1000 + i), [&] {
        w->contexts[i].load()->cancel();
        return "";
      });
  }
  while (!m.held.empty()) release_one(m);
  for (int i = 0; i < p.threads; i++)
    call("\"op\":\"join\",\"target\":" + S(i + 1), [&] {
      if (threads[i]) threads[i]->join(); else daemons[i]->join();
      return "";
    });
  for (int i = 0; i < p.threads; i++)
    call("\"op\":\"drop\",\"ctx\":" + S(1000 + i), [&] {
      delete threads[i];
      delete daemons[i];
      return "";
    });
  while (!m.frames.empty()) pop_context(m, m.frames.size() - 1);
  while (!m.refs.empty()) release_ref(m, m.refs.size() - 1);
  for (int i = 0; i < p.locks; i++)
    call("\"op\":\"udrop\",\"val\":0,\"o\":" + S(i + 1), [&] {
      delete w->locks[i];
      return "";
    });
  for (auto* x : w->mutexes) delete x;
  for (auto* x : w->flags) delete x;
  for (auto* x : w->queues) delete x;
  for (auto* x : w->sems) delete x;
}

Profile profile(const std::string& n) {
  Profile p;
  p.threads = 3;
  p.ops = 4;
  if (n == "mutex") p.mutexes = 1 + next(2), p.timeouts = 20, p.contexts = 10, p.multi = 20;
  if (n == "flag") p.flags = 1 + next(2), p.timeouts = 20, p.contexts = 10, p.multi = 20;
  if (n == "queue") p.queues = 1 + next(2), p.timeouts = 20, p.contexts = 10, p.multi = 20;
  if (n == "sem") p.sems = 1 + next(2), p.timeouts = 20, p.contexts = 10, p.multi = 20;
  if (n == "future") p.futures = 1 + next(4), p.timeouts = 20, p.contexts = 10, p.multi = 30;
  if (n == "context") p.flags = 1, p.queues = 1, p.mutexes = 1, p.contexts = 55,
                      p.timeouts = 40, p.multi = 20;
  if (n == "select") p.mutexes = 1, p.flags = 1, p.queues = 1, p.sems = next(2),
                     p.futures = next(3), p.contexts = 15, p.timeouts = 40, p.multi = 80;
  if (n == "usage") p.locks = 1 + next(2), p.ops = 5, p.flags = 1;
  if (n == "context") p.handover = 25;
  if (n == "data") p.threads = 2, p.ops = 14, p.flags = 1, p.contexts = 95, p.data = 60,
                   p.handover = 20;
  if (n == "handover") p.threads = 2, p.ops = 2, p.flags = 1, p.contexts = 80,
                       p.timeouts = 40, p.multi = 20, p.handover = 90;
  return p;
}
}  // namespace

int main(int argc, char** argv) {
  if (argc < 5) return 2;
  std::string name = argv[3];
  vs::options o;
  o.spurious = 20;
  o.eintr = 10;
  arpc::context::top();
  return vs::run(std::strtoull(argv[1], nullptr, 10) * 1000000, std::strtoull(argv[2], nullptr, 10),
                 argc > 5 ? std::atoi(argv[5]) : 8, argv[4], o,
                 [&](std::uint64_t s) { program(s, profile(name)); });
}
