// Files, sockets and addresses: main SEED N MODE OUTFILE DIR, MODE among files,
// sockets, resolve, rpc.  Writes what happened, one session per line.  DIR is a
// directory for files that's used by nobody else; it's made if it isn't there.
#include <dirent.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iterator>
#include <map>
#include <memory>
#include <mutex>
#include <random>
#include <string>
#include <thread>
#include <utility>
#include <vector>
#include "arpc/address.h"
#include "arpc/address_resolver.h"
#include "arpc/awaitable.h"
#include "arpc/channel.h"
#include "arpc/client.h"
#include "arpc/connection.h"
#include "arpc/context.h"
#include "arpc/errors.h"
#include "arpc/file.h"
#include "arpc/interface.h"
#include "arpc/pipe.h"
#include "arpc/select.h"
#include "arpc/server.h"
#include "arpc/socket.h"
#include "arpc/wait.h"

namespace rpc {
ARPC_INTERFACE(Echo, (),
               (((std::string), echo, (((int), n), ((std::string), s))),
                ((int), fail, (((int), n)))));
}  // namespace rpc

namespace {
using ms = std::chrono::milliseconds;
std::mt19937_64 rng;
int next(int n) { return rng() % n; }
bool chance(int p) { return next(100) < p; }
std::string S(std::int64_t n) { return std::to_string(n); }
std::string Q(const std::string& s) { return "\"" + s + "\""; }
std::string B(const std::string& s) {
  std::string r = "[";
  for (unsigned char c : s) r += (r.size() > 1 ? "," : "") + S(c);
  return r + "]";
}
std::string some_bytes(int max) {
  std::string s(1 + next(max), 0);
  for (auto& c : s) c = next(256);
  return s;
}
std::string error_name(std::exception_ptr e) {
  return arpc::error_factory::analyze_exception(e).first;
}

// How many files and sockets we have open. Pipes are used by the library's
// threads, and come and go.
int open_files() {
  int n = 0;
  DIR* d = opendir("/proc/self/fd");
  while (auto* e = readdir(d)) {
    std::string p = std::string("/proc/self/fd/") + e->d_name;
    char b[100];
    auto r = readlink(p.c_str(), b, sizeof b);
    n += r > 0 && std::string(b, r).compare(0, 5, "pipe:") && std::string(b, r).compare(0, 5, "anon_");
  }
  closedir(d);
  return n;
}
int base_files;

struct Session {
  std::string text;
  std::string last;
  // f returns the fields of the result.
  template <typename F>
  bool op(const std::string& what, F f) {
    std::string r;
    bool ok = true;
    try {
      r = std::string("\"res\":\"ok\"") + f();
    } catch (...) {
      ok = false;
      auto e = arpc::error_factory::analyze_exception(std::current_exception());
      r = "\"res\":" + Q(e.first) + ",\"msg\":" + Q(e.second);
    }
    last = r;
    text += (text.empty() ? "" : ",") + std::string("{\"o\":") + what + "," + r + ",\"open\":" +
            S(open_files() - base_files) + "}";
    return ok;
  }
};

// What's common to all channels: moving them about.
struct Channels {
  Session& s;
  std::vector<arpc::channel> c;
  // One that's open, or not, if there is one.
  int pick(bool open) {
    int i = next(c.size());
    for (int k = 0; k < 20 && static_cast<bool>(c[i]) != open; k++) i = next(c.size());
    return i;
  }
  void shuffle() {
    int i = next(c.size()), j = next(c.size());
    std::string ij = ",\"c\":" + S(i + 1) + ",\"d\":" + S(j + 1);
    switch (next(7)) {
      case 0:
        s.op("\"swap\"" + ij, [&] { c[i].swap(c[j]); return ""; });
        break;
      case 1:
        if (i == j) break;
        s.op("\"move\"" + ij, [&] { c[i] = std::move(c[j]); return ""; });
        break;
      case 2:
        if (i == j) break;
        s.op("\"move\"" + ij, [&] {
          arpc::channel t(std::move(c[j]));
          c[i].reset();
          c[i] = arpc::channel(t.release());
          return "";
        });
        break;
      case 3:
        s.op("\"move\"" + ij, [&] { c[i].reset(c[j].release()); return ""; });
        break;
      case 4:
      case 5:
        s.op("\"close\",\"c\":" + S(i + 1), [&] {
          if (chance(50)) c[i].close();
          else if (chance(50)) c[i].reset();
          else c[i] = arpc::channel();
          return "";
        });
        break;
      case 6:
        s.op("\"dup\"" + ij, [&] { c[i] = c[j].dup(); return ""; });
        break;
    }
    s.op("\"is\",\"c\":" + S(i + 1), [&] {
      bool b(c[i]);
      if (b != (c[i].get() >= 0) || *c[i] != c[i].get()) abort();
      return ",\"v\":" + S(b);
    });
  }
};

// ----------------------------------------------------------------------- files
void files(std::ostream& out, const std::string& dir) {
  Session s;
  int mask = chance(50) ? 022 : chance(50) ? 077 : 0;
  umask(mask);
  Channels ch{s};
  ch.c.resize(3);
  static const char* names[] = {"a", "b", "dir/a", "dir"};
  // Of what some are there already.
  mkdir((dir + "/dir").c_str(), 0777);
  std::string there;
  for (int k = 0; k < 3; k++) {
    std::string p = dir + "/" + names[k];
    unlink(p.c_str());
    if (chance(30)) {
      std::string b = some_bytes(6);
      std::ofstream(p) << b;
      chmod(p.c_str(), 0640);
      there += (there.empty() ? "" : ",") + std::string("{\"n\":") + Q(names[k]) + ",\"b\":" + B(b) + "}";
    }
  }
  for (int n = 6 + next(24); n > 0; n--) {
    int what = next(10);
    int i = chance(10) ? next(3) : ch.pick(what > 1);
    auto& c = ch.c[i];
    std::string on = ",\"c\":" + S(i + 1);
    switch (what) {
      case 0:
      case 1: {
        int m = next(6), k = next(chance(10) ? 4 : 2);
        s.op("\"file\",\"mode\":" + S(m + 1) + ",\"n\":" + Q(names[k]) + on, [&] {
          std::string p = dir + "/" + names[k];
          if (m == 3 && k < 2 && chance(30)) {
            // A device that's a file.
            struct stat st;
            if (stat(p.c_str(), &st)) throw arpc::errors::io_error("none");
            arpc::char_dev_connection d(p);
            c = arpc::file(p, arpc::open_mode::READ_PLUS);
          } else {
            c = m == 0 && chance(50) ? arpc::file(p) : arpc::file(p, static_cast<arpc::open_mode>(m));
          }
          struct stat st;
          fstat(c.get(), &st);
          return ",\"perm\":" + S(st.st_mode & 07777);
        });
        break;
      }
      case 2:
      case 3: {
        std::string b = some_bytes(6);
        s.op("\"write\"" + on + ",\"b\":" + B(b), [&] {
          return ",\"v\":" + S(c && chance(70) ? c.write(b.data(), b.size())
                                               : c.maybe_write(b.data(), b.size()));
        });
        break;
      }
      case 4:
      case 5:
      case 8:
      case 9: {
        int k = 1 + next(8);
        s.op("\"read\"" + on + ",\"k\":" + S(k), [&] {
          char b[8];
          int r = c && chance(70) ? c.read(b, k) : c.maybe_read(b, k);
          return ",\"b\":" + B(std::string(b, r));
        });
        break;
      }
      case 6:
        ch.shuffle();
        break;
      case 7: {
        int k = next(3);
        s.op("\"cat\",\"n\":" + Q(names[k]), [&] {
          std::ifstream f(dir + "/" + names[k]);
          if (!f) throw arpc::errors::io_error("none");
          return ",\"b\":" + B(std::string(std::istreambuf_iterator<char>(f), {}));
        });
        break;
      }
    }
  }
  out << "{\"mask\":" << mask << ",\"files\":[" << there << "],\"ops\":[" << s.text << "]}\n";
}

// --------------------------------------------------------------------- sockets
arpc::address make_address(int family, int port) {
  arpc::address a;
  a.family() = family;
  a.socket_type() = SOCK_STREAM;
  if (family == AF_INET) {
    auto* p = reinterpret_cast<sockaddr_in*>(a.address_data());
    *p = {};
    p->sin_family = AF_INET;
    p->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    p->sin_port = htons(port);
    a.address_size() = sizeof *p;
  } else {
    auto* p = reinterpret_cast<sockaddr_in6*>(a.address_data());
    *p = {};
    p->sin6_family = AF_INET6;
    p->sin6_addr = in6addr_loopback;
    p->sin6_port = htons(port);
    a.address_size() = sizeof *p;
  }
  return a;
}
std::string text_of(const arpc::address& a) {
  return "{\"f\":" + S(a.family() == AF_INET ? 4 : a.family() == AF_INET6 ? 6 : a.family()) +
         ",\"t\":" + S(a.socket_type()) + ",\"a\":" + Q(a.as_string()) + "}";
}
// Ports nobody listens to, at the moment, that no connection gets unasked, and
// that are ours: whoever has the datagram port has the other one.
struct Port {
  arpc::channel ours;
  int number;
  Port() {
    static int given = getpid() % 200 * 100;
    for (;;) {
      number = 10000 + given++ % 20000;
      if (has(ours, SOCK_DGRAM)) {
        arpc::channel c;
        if (has(c, SOCK_STREAM) && !::listen(c.get(), 1)) return;
      }
    }
  }
  bool has(arpc::channel& c, int type) {
    c = arpc::channel(::socket(AF_INET6, type, 0));
    int on = 1;
    if (type == SOCK_STREAM) setsockopt(c.get(), SOL_SOCKET, SO_REUSEADDR, &on, sizeof on);
    sockaddr_in6 a = {};
    a.sin6_family = AF_INET6;
    a.sin6_port = htons(number);
    return !::bind(c.get(), reinterpret_cast<sockaddr*>(&a), sizeof a);
  }
};

struct Listening {
  std::unique_ptr<arpc::listener> l;
  arpc::channel raw;
  bool non_blocking = true;
  int host = 0, port = 0, waiting = 0;
};

int option(const arpc::channel& c, const std::string& k) {
  int v = 0;
  socklen_t n = sizeof v;
  if (k == "keep_alive") getsockopt(c.get(), SOL_SOCKET, SO_KEEPALIVE, &v, &n);
  if (k == "reuse_addr") getsockopt(c.get(), SOL_SOCKET, SO_REUSEADDR, &v, &n);
  if (k == "reuse_port") getsockopt(c.get(), SOL_SOCKET, SO_REUSEPORT, &v, &n);
  if (k == "no_delay") getsockopt(c.get(), IPPROTO_TCP, TCP_NODELAY, &v, &n);
  if (k == "linger") {
    struct linger l;
    n = sizeof l;
    getsockopt(c.get(), SOL_SOCKET, SO_LINGER, &l, &n);
    return l.l_onoff ? l.l_linger : -1;
  }
  if (k == "non_blocking") return (fcntl(c.get(), F_GETFL) & O_NONBLOCK) != 0;
  return v != 0;
}
// Without other addresses of a family than the local ones, asking for that
// family finds nothing.
bool has_names(int family) {
  addrinfo hints = {}, *r = nullptr;
  hints.ai_flags = AI_ADDRCONFIG;
  hints.ai_family = family;
  hints.ai_socktype = SOCK_STREAM;
  if (getaddrinfo(family == AF_INET6 ? "::1" : "127.0.0.1", "80", &hints, &r)) return false;
  freeaddrinfo(r);
  return true;
}
std::string ends_of(const arpc::channel& c) {
  return ",\"own\":" + text_of(c.own_addr()) + ",\"peer\":" + text_of(c.peer_addr()) +
         ",\"isnb\":" + S(option(c, "non_blocking"));
}

void sockets(std::ostream& out) {
  Session s;
  // Families: 4, 6, or both (0).
  static const char* hosts[] = {"127.0.0.1", "::1", ""};
  static const int fams[] = {4, 6, 0};
  Port ours[2];
  int ports[2] = {ours[0].number, ours[1].number};
  base_files = open_files();
  std::vector<Listening> ls(3);
  Channels ch{s};
  ch.c.resize(6);
  auto& c = ch.c;
  for (int n = 10 + next(60); n > 0; n--) {
    int what = next(23);
    int i = chance(10) ? next(c.size()) : ch.pick(what > 9), l = next(ls.size()), p = next(2), h = next(3);
    std::string at = ",\"l\":" + S(l + 1), on = ",\"c\":" + S(i + 1),
                to = ",\"host\":" + S(fams[h]) + ",\"port\":" + S(p + 1);
    if (chance(70) && (ls[l].l || ls[l].raw)) {
      p = ls[l].port;
      h = chance(20) ? 2 : ls[l].host == 2 ? next(2) : ls[l].host;
      to = ",\"host\":" + S(fams[h]) + ",\"port\":" + S(p + 1);
    }
    // Of sending and receiving, more.
    switch (what) {
      case 0: {
        // A listener.
        if (ls[l].l && chance(80)) break;
        bool nb = chance(70);
        int how = next(3);
        if (how == 2) {
          if (h == 2) break;
          s.op("\"bind\"" + at + to, [&] {
            ls[l] = Listening();
            ls[l].host = h, ls[l].port = p;
            auto a = make_address(h ? AF_INET6 : AF_INET, ports[p]);
            auto r = chance(50) ? arpc::socket(a)
                                : arpc::socket(h ? AF_INET6 : AF_INET, SOCK_STREAM, 0);
            r.make_non_blocking().reuse_addr().bind(a);
            if (chance(50)) r.listen();
            else r.listen(5);
            ls[l].raw = std::move(r);
            return ",\"own\":" + text_of(ls[l].raw.own_addr());
          });
          break;
        }
        s.op("\"listen\"" + at + to + ",\"nb\":" + S(nb), [&] {
          ls[l] = Listening();
          ls[l].host = h, ls[l].port = p;
          arpc::endpoint e;
          if (chance(50)) e.port(ports[p]);
          else e.service(S(ports[p]));
          if (h < 2) e.name(hosts[h]);
          if (chance(30)) e.stream();
          if (nb && chance(50)) ls[l].l = std::make_unique<arpc::listener>(e);
          else ls[l].l = std::make_unique<arpc::listener>(e, true, nb);
          ls[l].non_blocking = nb;
          return "";
        });
        break;
      }
      case 1:
        if (chance(70) || (!ls[l].l && !ls[l].raw)) break;
        s.op("\"unlisten\"" + at, [&] { ls[l] = Listening(); return ""; });
        break;
      case 2:
      case 3:
      case 4:
      case 5: {
        int how = next(4);
        // No more than listeners let wait.
        bool many = false;
        for (auto& x : ls) many |= x.port == p && x.waiting >= 4;
        if (many) break;
        for (auto& x : ls) if (x.port == p) x.waiting++;
        if (how == 0 && h < 2) {
          s.op("\"dial\"" + on + to + ",\"nb\":1", [&] {
            auto a = make_address(h ? AF_INET6 : AF_INET, ports[p]);
            auto x = arpc::socket(a);
            x.make_non_blocking();
            x.connect(a);
            c[i] = std::move(x);
            return ends_of(c[i]);
          });
          break;
        }
        bool nb = chance(70);
        s.op("\"dial\"" + on + to + ",\"nb\":" + S(nb), [&] {
          arpc::endpoint e;
          e.port(ports[p]);
          if (h < 2) e.name(hosts[h]);
          if (h < 2 && chance(30) && has_names(h ? AF_INET6 : AF_INET)) h ? e.ipv6() : e.ipv4();
          else if (chance(30)) e.ip();
          if (chance(20)) e.passive();
          // Whatever the deadline, if there is one.
          arpc::context ctx;
          if (chance(30)) ctx.set_timeout(std::chrono::seconds(1000));
          c[i] = nb && chance(50) ? arpc::dial(e) : arpc::dial(e, nb);
          return ends_of(c[i]);
        });
        break;
      }
      case 6:
      case 7:
      case 8:
      case 9: {
        if (!ls[l].l && !ls[l].raw) break;
        if (ls[l].waiting <= 0 && chance(80)) break;
        int ctx = chance(90) ? 0 : 1;
        s.op("\"accept\"" + on + at + ",\"cancelled\":" + S(ctx) + ",\"nb\":" +
                 S(ls[l].l ? ls[l].non_blocking : 0), [&] {
          arpc::context x;
          x.set_timeout(ms(30));
          if (ctx) x.cancel();
          if (ls[l].l) {
            c[i] = ls[l].l->accept();
          } else if (chance(50)) {
            c[i] = ls[l].raw.accept();
          } else {
            arpc::address a;
            auto r = ls[l].raw.accept(a);
            auto b = r.peer_addr();
            c[i] = std::move(r);
            if (a.as_string() != b.as_string()) throw arpc::errors::internal_error("address");
          }
          ls[l].waiting--;
          return ends_of(c[i]);
        });
        break;
      }
      case 10:
      case 11:
      case 16:
      case 17: {
        if (!c[i]) break;
        std::string b = some_bytes(6);
        s.op("\"send\"" + on + ",\"b\":" + B(b), [&] {
          int r = c[i].write(b.data(), b.size());
          if (chance(50)) c[i].flush();
          // So that it's sent for sure.
          int on = 1;
          setsockopt(c[i].get(), IPPROTO_TCP, TCP_NODELAY, &on, sizeof on);
          return ",\"v\":" + S(r);
        });
        break;
      }
      case 12:
      case 13:
      case 18:
      case 19:
      case 20: {
        if (!c[i]) break;
        int k = 1 + next(8);
        s.op("\"receive\"" + on + ",\"k\":" + S(k), [&] {
          char b[8];
          arpc::context x;
          x.set_timeout(ms(20));
          int r = c[i].read(b, k);
          return ",\"b\":" + B(std::string(b, r));
        });
        break;
      }
      case 14:
      case 21: {
        if (!c[i]) break;
        if (chance(50)) {
          bool r = chance(30), w = chance(60);
          s.op("\"shutdown\"" + on + ",\"rd\":" + S(r) + ",\"wr\":" + S(w), [&] {
            c[i].shutdown(r, w);
            return "";
          });
          break;
        }
        static const char* o[] = {"keep_alive", "reuse_addr", "reuse_port", "no_delay", "linger",
                                  "non_blocking"};
        std::string k = o[next(6)];
        int v = next(2);
        if (k == "linger") v = chance(50) ? -1 : next(20);
        s.op("\"option\",\"k\":" + Q(k) + ",\"v\":" + S(v) + on, [&] {
          auto& x = c[i];
          arpc::channel* r = &x;
          bool one = v && chance(50);
          if (k == "keep_alive") r = one ? &x.keep_alive() : &x.keep_alive(v);
          if (k == "reuse_addr") r = one ? &x.reuse_addr() : &x.reuse_addr(v);
          if (k == "reuse_port") r = one ? &x.reuse_port() : &x.reuse_port(v);
          if (k == "no_delay") r = one ? &x.no_delay() : &x.no_delay(v);
          if (k == "linger") r = v < 0 ? &x.linger(false) : v == 10 ? &x.linger()
                                                                    : &x.linger(true, std::chrono::seconds(v));
          if (k == "non_blocking") r = one ? &x.make_non_blocking() : &x.make_non_blocking(v);
          if (r != &x) abort();
          std::string res = ",\"is\":" + S(option(x, k));
          // Closing isn't to be about that.
          if (k == "linger") x.linger(false);
          if (k == "reuse_addr") x.reuse_addr();
          return res;
        });
        break;
      }
      case 15:
        ch.shuffle();
        break;
      case 22: {
        // Whatever it was moved to or copied from.
        if (!c[i]) break;
        s.op("\"ends\",\"c\":" + S(i + 1), [&] {
          std::string own = ",\"own\":" + text_of(c[i].own_addr());
          try {
            return own + ",\"there\":1,\"peer\":" + text_of(c[i].peer_addr());
          } catch (const arpc::errors::io_error&) {
            return own + ",\"there\":0";
          }
        });
        break;
      }
    }
  }
  out << "{\"ports\":[" << ports[0] << "," << ports[1] << "],\"ops\":[" << s.text << "]}\n";
}

// --------------------------------------------------------------------- resolve
struct Query {
  int host, port, family, type;
  bool passive;
};
Query random_query() {
  return {next(6), next(3), next(3), next(2), chance(50)};
}
const char* host_name[] = {"127.0.0.1", "::1", "", "localhost", "10.1.2.3", "no such host"};
const char* port_name[] = {"", "4711", "no such service"};
int port_number[] = {0, 80};
arpc::endpoint make_endpoint(const Query& q) {
  arpc::endpoint e;
  if (*host_name[q.host]) e.name(host_name[q.host]);
  if (*port_name[q.port]) e.service(port_name[q.port]);
  if (q.family) q.family == 1 ? e.ipv4() : e.ipv6();
  if (q.type) e.datagram();
  if (q.passive) e.passive();
  return e;
}
std::string expected(const Query& q) {
  addrinfo hints = {}, *r;
  hints.ai_flags = AI_ADDRCONFIG | AI_V4MAPPED | (q.passive ? AI_PASSIVE : 0);
  hints.ai_family = q.family == 0 ? AF_UNSPEC : q.family == 1 ? AF_INET : AF_INET6;
  hints.ai_socktype = q.type ? SOCK_DGRAM : SOCK_STREAM;
  const char *h = host_name[q.host], *p = port_name[q.port];
  if (getaddrinfo(*h ? h : nullptr, *p ? p : nullptr, &hints, &r)) return "[]";
  std::string t;
  for (auto* a = r; a; a = a->ai_next) {
    char hb[100], pb[20];
    getnameinfo(a->ai_addr, a->ai_addrlen, hb, sizeof hb, pb, sizeof pb,
                NI_NUMERICHOST | NI_NUMERICSERV);
    std::string x = hb;
    if (a->ai_family == AF_INET6) x = "[" + x + "]";
    t += (t.empty() ? "" : ",") + std::string("{\"f\":") + S(a->ai_family == AF_INET ? 4 : 6) +
         ",\"t\":" + S(a->ai_socktype) + ",\"a\":" + Q(x + ":" + pb) + "}";
  }
  freeaddrinfo(r);
  return "[" + t + "]";
}
template <typename L>
std::string list_of(L& l) {
  std::string t;
  for (auto& a : l) t += (t.empty() ? "" : ",") + text_of(a);
  return "[" + t + "]";
}
std::string results(arpc::address_list& l) {
  std::string r = ",\"as\":" + list_of(l) + ",\"size\":" + S(l.size()) + ",\"empty\":" + S(l.empty());
  // In other ways.
  std::string t;
  switch (next(4)) {
    case 0: {
      const auto& cl = l;
      t = list_of(cl);
      break;
    }
    case 1: {
      auto it = l.begin();
      auto other = l.end();
      swap(it, other);
      while (other != it) {
        auto before = other++;
        if (before == other) abort();
        t += (t.empty() ? "" : ",") + text_of(*before);
      }
      t = "[" + t + "]";
      break;
    }
    case 2: {
      arpc::address_list::const_iterator it(l.begin());
      auto end = l.cend();
      for (; !(it == end); ++it) {
        // Copies don't share anything with it.
        std::unique_ptr<arpc::address> a(new arpc::address(*it));
        arpc::address b(*a);
        arpc::address c(std::move(*a));
        a.reset();
        if (text_of(b) != text_of(c) || it->family() != b.family()) abort();
        t += (t.empty() ? "" : ",") + text_of(c);
      }
      t = "[" + t + "]";
      break;
    }
    case 3: {
      arpc::address_list m(std::move(l));
      auto it = m.cbegin();
      auto end = m.cend();
      swap(end, it);
      while (end != it) {
        auto x = end++;
        t += (t.empty() ? "" : ",") + text_of(*x);
      }
      t = "[" + t + "]";
      break;
    }
  }
  return r + ",\"again\":" + t;
}
void resolve(std::ostream& out) {
  Session s;
  auto& r = arpc::address_resolver::get();
  for (int n = 1 + next(4); n > 0; n--) {
    std::vector<Query> qs;
    for (int k = 1 + next(4); k > 0; k--) qs.push_back(random_query());
    if (chance(50)) {
      for (auto& q : qs)
        s.op("\"resolve\",\"want\":" + expected(q), [&] {
          auto e = make_endpoint(q);
          auto l = chance(50) ? r.resolve(e) : r.resolve(make_endpoint(q));
          return results(l);
        });
    } else {
      std::vector<arpc::future<arpc::address_list>> fs;
      for (auto& q : qs) {
        auto e = make_endpoint(q);
        if (chance(50)) fs.push_back(r.async_resolve(e));
        else fs.push_back(r.async_resolve(std::move(e)));
      }
      for (std::size_t k = 0; k < fs.size(); k++) {
        if (chance(15)) continue;
        s.op("\"resolve\",\"want\":" + expected(qs[k]), [&] {
          auto l = fs[k].get();
          return results(l);
        });
      }
      fs.clear();
      // So that nothing is going on.
      r.resolve(arpc::endpoint().port(1));
    }
  }
  out << "{\"ops\":[" << s.text << "]}\n";
}

// ------------------------------------------------------------------------- rpc
std::mutex count_mu;
std::map<int, int> executed;

struct EchoImpl : rpc::Echo {
  std::string echo(int n, std::string s) override {
    std::scoped_lock lock(count_mu);
    executed[n]++;
    return s + s;
  }
  int fail(int n) override {
    {
      std::scoped_lock lock(count_mu);
      executed[n]++;
    }
    throw arpc::errors::out_of_range(S(n));
  }
};

template <typename Server, typename Client>
void rpc_session(std::ostream& out, int kind) {
  Session s;
  executed.clear();
  Port ours;
  int port = ours.number;
  bool both = chance(30);
  auto where = [&](bool listening) {
    arpc::endpoint e;
    e.port(port);
    if (!listening || !both) e.name("127.0.0.1");
    return e;
  };
  arpc::server_options so;
  so.num_worker_threads = 1 + next(3);
  arpc::server_object<EchoImpl> object;
  auto server = std::make_unique<Server>(so, where(true));
    server->register_object(std::string("echo"), object);
  std::unique_ptr<Client> clients[2];
  int id = 0;
  bool running = false;
  for (int n = 5 + next(20); n > 0; n--) {
    switch (running || chance(30) ? next(8) : 0) {
      case 0:
        running = true;
        s.op("\"start\"", [&] { server->start(); return ""; });
        break;
      case 1:
        if (chance(40)) break;
        running = false;
        s.op("\"stop\"", [&] { server->stop(); return ""; });
        break;
      default: {
        int k = next(2), m = next(5), me = ++id;
        std::string arg = some_bytes(chance(10) ? 3000 : 5);
        const char* name = m == 4 ? "nobody" : "echo";
        s.op("\"call\",\"cl\":" + S(k) + ",\"m\":" + S(m) + ",\"id\":" + S(me) + ",\"arg\":" + B(arg),
             [&] {
          if (!clients[k]) clients[k] = std::make_unique<Client>(where(false));
          arpc::context ctx;
          // As long as it takes, or for a short time.
          ctx.set_timeout(ms(running ? 20000 : 200));
          auto o = clients[k]->template get_proxy<rpc::Echo>(std::string(name));
          if (m == 3) {
            o.fail(me);
            return std::string();
          }
          return ",\"v\":" + B(o.echo(me, arg));
        });
        if (chance(10)) clients[k].reset();
      }
    }
  }
  for (auto& c : clients) c.reset();
  server.reset();
  std::string counts;
  for (int i = 1; i <= id; i++) counts += (i > 1 ? "," : "") + S(executed[i]);
  out << "{\"kind\":" << kind << ",\"executed\":[" << counts << "],\"ops\":[" << s.text << "]}\n";
}
}  // namespace

int main(int argc, char** argv) {
  if (argc < 6) return 2;
  rng.seed(std::stoull(argv[1]));
  int n = std::stoi(argv[2]);
  std::string mode = argv[3];
  std::ofstream out(argv[4]);
  // What's made when it's first needed.
  arpc::address_resolver::get().resolve(arpc::endpoint().port(1));
  arpc::wait(arpc::always());
  base_files = open_files();
  mkdir(argv[5], 0777);
  for (int i = 0; i < n; i++) {
    if (mode == "files") files(out, argv[5]);
    if (mode == "sockets") sockets(out);
    if (mode == "resolve") resolve(out);
    if (mode == "rpc")
      rpc_session<arpc::server<>, arpc::client_connection<>>(out, 0);
  }
  out.close();
  return out ? 0 : 1;
}
