// Random programs over channels and connections: main SEED N PROFILE OUTFILE
// [JOBS].
#include <fcntl.h>
#include <sys/socket.h>
#include <atomic>
#include <memory>
#include <optional>
#include <string>
#include <vector>
#include "arpc/channel.h"
#include "arpc/connection.h"
#include "arpc/context.h"
#include "arpc/select.h"
#include "arpc/thread.h"
#include "prog.h"

namespace {
using namespace prog;

// Both ends of a link, numbered 1 and 2.
struct Link {
  std::unique_ptr<arpc::connection> c[3];
  arpc::channel raw[3];
};

struct World {
  std::vector<std::unique_ptr<Link>> links{5};
  std::atomic<int> used{0};
  std::unique_ptr<arpc::connection> rec;      // Connects to new links.
  bool channels = false, small = false;
  std::atomic<arpc::context*> contexts[8] = {};
  std::atomic<int> clients{0};
  std::atomic<int> byte{0};
} *w;

void socket_pair(arpc::channel& a, arpc::channel& b) {
  int f[2];
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, f)) abort();
  if (w->small)
    for (int k : f) {
      int n = 1;
      setsockopt(k, SOL_SOCKET, SO_SNDBUF, &n, sizeof n);
    }
  a.reset(f[0]);
  b.reset(f[1]);
}

// A connection that makes a link when it's made.
class new_link : public arpc::channel_connection {
 public:
  explicit new_link(World*) : channel_connection(open()) {}

 private:
  static arpc::channel open() {
    int l = w->used + 1;
    // That the other side can't be reached.
    if (l >= 5 || chance(10)) throw arpc::errors::io_error("No connection");
    auto x = std::make_unique<Link>();
    arpc::channel mine;
    socket_pair(mine, x->raw[2]);
    x->c[2] = std::make_unique<arpc::channel_connection>(std::move(x->raw[2]));
    w->links[l] = std::move(x);
    vs::log("\"e\":\"open\",\"l\":" + S(l));
    w->used = l;
    return mine;
  }
};

std::string where(int l, int k) { return ",\"l\":" + S(l) + ",\"k\":" + S(k); }
std::string bytes_field(const std::string& s) { return ",\"d\":" + hex(s); }

arpc::connection& conn(int l, int k) { return l ? *w->links[l]->c[k] : *w->rec; }

std::string bytes(int n) {
  std::string s;
  while (n-- > 0) s += static_cast<char>(w->byte++ );
  return s;
}

void sleep(int n) {
  call("\"op\":\"sleep\",\"val\":" + S(n), [&] {
    arpc::select(arpc::timeout(ms(n)));
    return "";
  });
}

// l is 0 for the one that reconnects.
std::exception_ptr read_one(int l, int k) {
  int n = 1 + next(6);
  std::string b(n, 'x');
  std::string in = where(l, k) + ",\"n\":" + S(n);
  if (w->channels) {
    auto& c = w->links[l]->raw[k];
    switch (next(4)) {
      case 0:
        return call("\"op\":\"mread\"" + in, [&] {
          return bytes_field(b.substr(0, c.maybe_read(&b[0], n)));
        });
      case 1:
        return call("\"op\":\"avail\"" + where(l, k), [&] {
          auto [r] = arpc::select(c.can_read());
          *r;
          return "";
        });
      default:
        return call("\"op\":\"aread\"" + in, [&] {
          return bytes_field(b.substr(0, c.read(&b[0], n)));
        });
    }
  }
  auto& c = conn(l, k);
  switch (next(4)) {
    case 0:
      return call("\"op\":\"getc\"" + where(l, k) + ",\"n\":1", [&] {
        return bytes_field(std::string(1, c.getc()));
      });
    case 1:
      // Waiting for data doesn't keep others from closing.
      return call("\"op\":\"full\"" + in, [&] {
        c.read_fully(&b[0], n);
        return bytes_field(b);
      });
    default:
      return call("\"op\":\"read\"" + in, [&] {
        return bytes_field(b.substr(0, c.read(&b[0], n)));
      });
  }
}

std::exception_ptr write_one(int l, int k) {
  std::string b = bytes(1 + next(6));
  std::string in = where(l, k) + ",\"b\":" + hex(b);
  if (w->channels) {
    auto& c = w->links[l]->raw[k];
    switch (next(3)) {
      case 0:
        return call("\"op\":\"mwrite\"" + in, [&] {
          return ",\"v\":" + S(c.maybe_write(b.data(), b.size()));
        });
      default:
        return call("\"op\":\"awrite\"" + in, [&] {
          return ",\"v\":" + S(c.write(b.data(), b.size()));
        });
    }
  }
  auto& c = conn(l, k);
  if (b.size() == 1)
    return call("\"op\":\"write\"" + in, [&] {
      c.putc(b[0]);
      return "";
    });
  return call("\"op\":\"write\"" + in, [&] {
    c.write(b.data(), b.size());
    if (chance(20)) c.flush();
    return "";
  });
}

void reader(int l, int k, int n) {
  while (n-- > 0) {
    auto e = read_one(l, k);
    if (e && !is(e, "try_again") && (l || is(e, "cancelled") || chance(30))) break;
  }
}
void writer(int l, int k, int n) {
  while (n-- > 0) {
    int burst = w->small && chance(30) ? 10 : 1;
    // All bytes are different.
    while (burst-- > 0 && w->byte < 240) {
      auto e = write_one(l, k);
      if (e && !is(e, "try_again") && (l || is(e, "cancelled") || chance(30))) return;
    }
    if (chance(10)) sleep(1 + next(3));
  }
}
void close_end(int l, int k) {
  if (w->channels) {
    bool r = chance(50);
    call("\"op\":\"shut\"" + where(l, k) + ",\"r\":" + S(r), [&] {
      w->links[l]->raw[k].shutdown(r, true);
      return "";
    });
  } else {
    call("\"op\":\"close\"" + where(l, k), [&] {
      conn(l, k).disconnect();
      return "";
    });
  }
}
void look(int l, int k) {
  call("\"op\":\"connected\"" + where(l, k), [&] {
    return ",\"v\":" + S(conn(l, k).connected());
  });
}
void connect() {
  call("\"op\":\"connect\",\"l\":0,\"k\":1", [&] {
    w->rec->connect();
    return "";
  });
}
void controller(int l, int k, int n) {
  while (n-- > 0) {
    switch (next(5)) {
      case 0: {
        int t = next(8);
        arpc::context* c = w->contexts[t];
        if (!c) break;
        call("\"op\":\"cancel\",\"target\":" + S(t), [&] {
          c->cancel();
          return "";
        });
        break;
      }
      case 1:
        sleep(next(3));
        break;
      case 2:
        if (!w->channels) look(l, k);
        break;
      case 3:
        if (!l) connect();
        break;
      default:
        if (chance(60)) close_end(l, k);
    }
  }
}

void program(const std::string& profile) {
  w = new World;
  w->small = chance(50);
  vs::set_partial(chance(60) ? 40 : 0);
  w->channels = profile == "chan";
  bool rec = profile == "reconn";
  vs::log("\"e\":\"config\",\"small\":" + S(w->small));
  int threads = 0;
  std::vector<std::unique_ptr<arpc::thread>> ts;
  auto start = [&](std::function<void()> f, bool client) {
    int t = threads++;
    if (client) w->clients++;
    call("\"op\":\"spawn\",\"t\":" + S(t), [&] {
      ts.push_back(std::make_unique<arpc::thread>([f, t, client] {
        vs::log("\"e\":\"begin\",\"t\":" + S(t));
        f();
        vs::log("\"e\":\"end\"");
        if (client) w->clients--;
      }));
      return "";
    });
    w->contexts[t] = &ts.back()->get_context();
  };
  if (rec) {
    // Connections of a different kind have the same behaviour.
    w->rec = std::make_unique<arpc::reconnectable_connection<new_link>>(w);
    w->clients++;
    if (chance(70)) connect();
    if (chance(90)) start([] { reader(0, 1, 1 + next(4)); }, true);
    if (chance(90)) start([] { writer(0, 1, 1 + next(4)); }, true);
    start([] { controller(0, 1, 1 + next(5)); }, true);
    if (chance(30)) start([] { controller(0, 1, 1 + next(4)); }, true);
    for (int k = 0; k < 2; k++)
      start([k] {
        int seen = 0;
        while (true) {
          vs::wait_until([&] { return w->used > seen || !w->clients; });
          if (w->used <= seen) break;
          seen = w->used;
          if (k) reader(seen, 2, 1 + next(3));
          else writer(seen, 2, 1 + next(3));
          if (chance(30)) close_end(seen, 2);
        }
      }, false);
    w->clients--;
  } else {
    int l = 1;
    auto x = std::make_unique<Link>();
    socket_pair(x->raw[1], x->raw[2]);
    for (int k = 1; k <= 2; k++)
      if (w->channels) x->raw[k].make_non_blocking();
      else x->c[k] = std::make_unique<arpc::channel_connection>(std::move(x->raw[k]));
    w->links[l] = std::move(x);
    w->used = 1;
    vs::log("\"e\":\"open\",\"l\":1");
    for (int k = 1; k <= 2; k++) {
      if (chance(75)) start([k] { reader(1, k, 1 + next(5)); }, true);
      if (chance(75)) start([k] { writer(1, k, 1 + next(4)); }, true);
    }
    if (chance(60)) start([] { controller(1, 1 + next(2), 1 + next(3)); }, true);
  }
  for (int t = 0; t < threads; t++) {
    if (chance(15)) controller(rec ? 0 : 1, rec ? 1 : 1 + next(2), 1);
    // Whoever waits for data in vain.
    if (chance(40)) {
      sleep(20);
      for (int u = 0; u < threads; u++)
        call("\"op\":\"cancel\",\"target\":" + S(u), [&] {
          w->contexts[u].load()->cancel();
          return "";
        });
    }
    call("\"op\":\"join\",\"t\":" + S(t), [&] {
      ts[t]->join();
      return "";
    });
  }
  for (auto& c : w->contexts) c = nullptr;
  ts.clear();
  w->rec.reset();
  w->links.clear();
}
}  // namespace

int main(int argc, char** argv) {
  if (argc < 5) return 2;
  std::string name = argv[3];
  vs::options o;
  o.spurious = 20;
  o.eintr = 10;
  arpc::context::top();
  return vs::run(std::strtoull(argv[1], nullptr, 10) * 1000000,
                 std::strtoull(argv[2], nullptr, 10), argc > 5 ? std::atoi(argv[5]) : 8, argv[4],
                 o, [&](std::uint64_t) { program(name); });
}
