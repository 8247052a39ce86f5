// Random programs over thread pools: main SEED N PROFILE OUTFILE [JOBS].
#include <atomic>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include "arpc/context.h"
#include "arpc/executor.h"
#include "arpc/flag.h"
#include "arpc/thread.h"
#include "prog.h"

namespace {
using namespace prog;

struct World {
  arpc::thread_pool* pool;
  std::vector<std::unique_ptr<arpc::flag>> flags;
  std::atomic<arpc::context*> contexts[4] = {};
  int callers = 0, workers = 0;
} *w;

// Notices the end of a function.
struct Guard {
  int task;
  bool owner = true;
  explicit Guard(int t) : task(t) {}
  Guard(Guard&& o) noexcept : task(o.task), owner(std::exchange(o.owner, false)) {}
  ~Guard() {
    if (owner) vs::log("\"e\":\"gone\",\"task\":" + S(task));
  }
};

std::exception_ptr wait_flag(int f) {
  return call("\"op\":\"wait\",\"o\":" + S(f + 1), [&] {
    w->flags[f]->wait();
    return "";
  });
}
std::exception_ptr sleep(int n) {
  return call("\"op\":\"sleep\",\"val\":" + S(n), [&] {
    arpc::select(arpc::timeout(ms(n)));
    return "";
  });
}
void set_flag(int f) {
  call("\"op\":\"set\",\"o\":" + S(f + 1), [&] {
    w->flags[f]->set();
    return "";
  });
}

std::exception_ptr run_one(int depth);

void task_body(int id, int depth) {
  vs::log("\"e\":\"start\",\"task\":" + S(id));
  std::exception_ptr e;
  for (int n = next(3); n > 0; n--) {
    switch (next(5)) {
      case 0:
        e = wait_flag(next(w->flags.size()));
        break;
      case 1:
        e = sleep(next(4));
        break;
      case 2:
        set_flag(next(w->flags.size()));
        break;
      case 3:
        if (depth < 2) e = run_one(depth + 1);
        break;
    }
    if (e && chance(70)) break;
  }
  vs::log("\"e\":\"finish\",\"task\":" + S(id));
  if (e && chance(80)) std::rethrow_exception(e);
  if (chance(25)) {
    switch (next(8)) {
      case 0:
        throw 42;
      case 1:
        throw arpc::errors::cancelled("task");
      case 2:
        throw arpc::errors::deadline_exceeded("task");
      case 3:
        throw arpc::errors::try_again("task");
      case 4:
        throw arpc::errors::invalid_state("task");
      case 5:
        throw std::runtime_error("task");
      case 6:
        throw std::string("task");
      default:
        throw arpc::errors::not_found("task");
    }
  }
}

std::exception_ptr run_one(int depth) {
  int id = vs::fresh();
  return call("\"op\":\"run\",\"task\":" + S(id), [&] {
    Guard g(id);
    w->pool->run([g(std::move(g)), id, depth] { task_body(id, depth); });
    return "";
  });
}

void caller_ops(int n) {
  for (; n > 0; n--) {
    switch (next(8)) {
      case 0:
        set_flag(next(w->flags.size()));
        break;
      case 1:
        sleep(next(3));
        break;
      case 2: {
        int t = next(4);
        arpc::context* c = w->contexts[t];
        if (!c || !chance(50)) break;
        call("\"op\":\"cancel\",\"target\":" + S(t), [&] {
          c->cancel();
          return "";
        });
        break;
      }
      default:
        run_one(0);
    }
  }
}

void program(const std::string&) {
  w = new World;
  int workers = 1 + next(3), size = next(4) - 1;
  int flags = 1 + next(2);
  for (int i = 0; i < flags; i++) w->flags.push_back(std::make_unique<arpc::flag>());
  vs::log("\"e\":\"config\",\"workers\":" + S(workers) + ",\"size\":" + S(size) + ",\"flags\":" +
          S(flags));
  w->workers = workers;
  w->pool = size < 0 ? new arpc::thread_pool(workers) : new arpc::thread_pool(workers, size);
  std::vector<std::unique_ptr<arpc::thread>> threads;
  std::vector<std::unique_ptr<arpc::flag>> go;
  int n = 1 + next(3);
  for (int i = 0; i < n; i++) go.push_back(std::make_unique<arpc::flag>());
  for (int i = 0; i < n; i++) {
    call("\"op\":\"spawn\",\"caller\":" + S(i), [&] {
      threads.push_back(std::make_unique<arpc::thread>([i] {
        vs::log("\"e\":\"begin\",\"caller\":" + S(i));
        caller_ops(1 + next(4));
        vs::log("\"e\":\"end\"");
      }));
      return "";
    });
    w->contexts[i] = &threads.back()->get_context();
  }
  caller_ops(next(3));
  if (chance(60))
    for (int i = 0; i < flags; i++) set_flag(i);
  for (int i = 0; i < n; i++)
    call("\"op\":\"join\",\"caller\":" + S(i), [&] {
      threads[i]->join();
      return "";
    });
  if (chance(50)) sleep(next(12));
  call("\"op\":\"destroy\"", [&] {
    delete w->pool;
    return "";
  });
  for (auto& c : w->contexts) c = nullptr;
  threads.clear();
}
}  // namespace

int main(int argc, char** argv) {
  if (argc < 5) return 2;
  std::string name = argv[3];
  vs::options o;
  o.spurious = 20;
  o.eintr = 10;
  arpc::context::top();
  return vs::run(std::strtoull(argv[1], nullptr, 10) * 1000000,
                 std::strtoull(argv[2], nullptr, 10), argc > 5 ? std::atoi(argv[5]) : 8, argv[4],
                 o, [&](std::uint64_t) { program(name); });
}
