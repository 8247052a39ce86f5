// Random programs that call methods of remote objects: main SEED N PROFILE
// OUTFILE [JOBS].
#include <sys/socket.h>
#include <atomic>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>
#include "arpc/channel.h"
#include "arpc/client.h"
#include "arpc/connection.h"
#include "arpc/context.h"
#include "arpc/dynamic_base_class.h"
#include "arpc/flag.h"
#include "arpc/interface.h"
#include "arpc/message_defs.h"
#include "arpc/object_name.h"
#include "arpc/queue.h"
#include "arpc/select.h"
#include "arpc/server.h"
#include "arpc/string_adapters.h"
#include "arpc/thread.h"
#include "prog.h"

namespace rpc {
struct tag : arpc::dynamic<tag> {
  int v = 0;
  tag() = default;
  explicit tag(int n) : v(n) {}
  ARPC_FIELDS(v);
};

ARPC_INTERFACE(Base, (),
               (((std::string), echo, (((int), n), ((const std::string&), s))),
                ((void), note, (((int), n)))));
ARPC_INTERFACE(Api, ((Base)),
               (((int), work, (((int), n))), ((void), act, (((int), n)))));
// Not what the objects implement, but for the names.
ARPC_INTERFACE(Other, (),
               (((std::string), work, (((int), n))), ((int), missing, (((int), n)))));
}  // namespace rpc
ARPC_REGISTER(rpc::tag);

namespace {
using namespace prog;
using rpc::tag;

struct World;
World* w;

// A connection that makes a link when it's made.
class dialed : public arpc::channel_connection {
 public:
  explicit dialed(int client) : channel_connection(open(client)) {}

 private:
  static arpc::channel open(int client);
};

struct accepting {
  using protocol = arpc::protected_stream_packet_protocol<>;
  using connection_type = arpc::packet_connection_impl<arpc::channel_connection, protocol>;
  std::unique_ptr<connection_type> operator()();
};
struct accepting_serial {
  using protocol = arpc::serial_line_packet_protocol<>;
  using connection_type = arpc::packet_connection_impl<arpc::channel_connection, protocol>;
  std::unique_ptr<connection_type> operator()();
};

// What's different for the two kinds of servers.
struct any_server {
  virtual ~any_server() {}
  virtual void start() = 0;
  virtual void stop() = 0;
  virtual void add(const std::string& name, int o) = 0;
  virtual void remove_object(int o) = 0;
  virtual void remove_name(const std::string& name) = 0;
};
struct any_client {
  virtual ~any_client() {}
  // Returns the fields for the result; fails otherwise.
  virtual std::string call(const std::string& name, const std::string& method, int n,
                           const std::string& arg, const arpc::client_options& opt) = 0;
  virtual std::function<std::string()> start(const std::string& name, const std::string& method,
                                             int n, const std::string& arg,
                                             const arpc::client_options& opt,
                                             arpc::rpc_defs::request_id_type& id) = 0;
  virtual void abandon(arpc::rpc_defs::request_id_type id) = 0;
};

std::string value(int v) { return ",\"v\":" + S(v); }
std::string text(const std::string& s) { return ",\"v\":" + hex(s); }

struct Impl;
using Object = arpc::server_object<Impl>;

struct World {
  bool faults = false;
  bool small = false;                    // Little fits into links.
  bool plain = false;                    // Nothing but "work" is called.
  bool closed = false;                   // No more links.
  std::unique_ptr<any_server> server;
  std::unique_ptr<any_client> client[2];
  arpc::queue<arpc::channel> accepts;
  arpc::channel link[2];                 // To break what the client uses.
  std::mutex mu;                         // For the links.
  std::mutex dialing;
  std::atomic<int> links{0};
  std::unique_ptr<Object> object[3];
  std::vector<std::unique_ptr<arpc::flag>> flags;
  std::atomic<arpc::context*> contexts[4] = {};
};

// Two ends of a link; from one of them only little may be sent ahead.
void make_link(int* f, int narrow) {
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, f)) abort();
  int n = 1;
  if (w->small) setsockopt(f[narrow], SOL_SOCKET, SO_SNDBUF, &n, sizeof(n));
}

arpc::channel dialed::open(int client) {
  std::scoped_lock dialing(w->dialing);
  if (w->closed || (w->faults && chance(10))) {
    vs::log("\"e\":\"nolink\",\"cl\":" + S(client));
    throw arpc::errors::io_error("No connection");
  }
  int f[2];
  make_link(f, 0);
  arpc::channel mine(f[0]), theirs(f[1]);
  {
    std::scoped_lock lock(w->mu);
    if (!w->plain) {
      w->link[client] = mine.dup();
      vs::set_twin(mine.get(), w->link[client].get());
    }
  }
  vs::log("\"e\":\"link\",\"cl\":" + S(client));
  {
    arpc::context c(arpc::context::top());
    w->accepts.put(std::move(theirs));
  }
  return mine;
}
std::unique_ptr<accepting::connection_type> accepting::operator()() {
  return std::make_unique<connection_type>(w->accepts.get());
}
std::unique_ptr<accepting_serial::connection_type> accepting_serial::operator()() {
  return std::make_unique<connection_type>(w->accepts.get());
}

void sleep(int n) {
  call("\"op\":\"sleep\",\"val\":" + S(n), [&] {
    arpc::select(arpc::timeout(ms(n)));
    return "";
  });
}
std::exception_ptr wait_flag(int f) {
  return call("\"op\":\"wait\",\"o\":" + S(f + 1), [&] {
    w->flags[f]->wait();
    return "";
  });
}
void set_flag(int f) {
  call("\"op\":\"set\",\"o\":" + S(f + 1), [&] {
    w->flags[f]->set();
    return "";
  });
}

std::string message(std::exception_ptr e) {
  try {
    std::rethrow_exception(e);
  } catch (const std::exception& x) {
    return x.what();
  } catch (...) {
    return "?";
  }
}

// The objects' methods.
struct Impl : rpc::Api {
  int o;
  explicit Impl(int i) : o(i) {}

  // f returns the field of its result.
  template <typename F>
  auto run(int n, const char* m, const std::string& arg, F f) {
    auto left = arpc::context::current().deadline_left();
    vs::log("\"e\":\"exec\",\"n\":" + S(n) + ",\"o\":" + S(o) + ",\"m\":\"" + m +
            "\",\"left\":" + S(left ? left->count() : -1) +
            ",\"tag\":" + S(arpc::context::current().get<tag>().v) + arg);
    try {
      return f();
    } catch (...) {
      auto e = std::current_exception();
      vs::log("\"e\":\"done\",\"n\":" + S(n) + ",\"r\":\"" + error_name(e) + "\",\"msg\":\"" +
              message(e) + "\"");
      throw;
    }
  }
  std::string echo(int n, const std::string& s) override {
    return run(n, "echo", ",\"a\":" + hex(s), [&] {
      std::string r = s + "!" + s;
      vs::log("\"e\":\"done\",\"n\":" + S(n) + ",\"r\":\"ok\"" + text(r));
      return r;
    });
  }
  void note(int n) override {
    run(n, "note", "", [&] {
      vs::log("\"e\":\"done\",\"n\":" + S(n) + ",\"r\":\"ok\"");
    });
  }
  void steps() {
    for (int k = next(3); k > 0; k--) {
      switch (next(4)) {
        case 0:
          set_flag(next(w->flags.size()));
          break;
        case 1: {
          auto e = wait_flag(next(w->flags.size()));
          if (e) std::rethrow_exception(e);
          break;
        }
        default: {
          int n = 1 + next(6);
          auto e = call("\"op\":\"sleep\",\"val\":" + S(n), [&] {
            arpc::select(arpc::timeout(ms(n)));
            return "";
          });
          if (e) std::rethrow_exception(e);
        }
      }
    }
    switch (next(16)) {
      case 0: throw arpc::errors::not_found("thing " + S(next(10)));
      case 1: throw arpc::errors::io_error("disk " + S(next(10)));
      case 2: throw arpc::errors::cancelled("by itself");
      case 3: throw std::out_of_range("std " + S(next(10)));
    }
  }
  int work(int n) override {
    return run(n, "work", "", [&] {
      steps();
      int r = next(1000000) - 500000;
      vs::log("\"e\":\"done\",\"n\":" + S(n) + ",\"r\":\"ok\"" + value(r));
      return r;
    });
  }
  void act(int n) override {
    run(n, "act", "", [&] {
      steps();
      vs::log("\"e\":\"done\",\"n\":" + S(n) + ",\"r\":\"ok\"");
    });
  }
};

constexpr std::size_t unlimited = std::numeric_limits<std::size_t>::max();
template <typename Factory, typename Encoder, typename Decoder, std::size_t limit = unlimited>
struct server_of : any_server {
  using type = arpc::server<Encoder, Decoder, typename Factory::protocol, Encoder,
                            arpc::connection_producer<Factory, limit>>;
  type s;
  explicit server_of(const arpc::server_options& o) : s(o) {}
  void start() override { s.start(); }
  void stop() override { s.stop(); }
  void add(const std::string& name, int o) override { s.register_object(name, *w->object[o]); }
  void remove_object(int o) override { s.unregister_object(*w->object[o]); }
  void remove_name(const std::string& name) override { s.unregister_object(name); }
};
template <typename Factory, typename Encoder, typename Decoder>
struct client_of : any_client {
  arpc::client_connection<dialed, Encoder, Decoder, typename Factory::protocol> c;
  explicit client_of(int k) : c(k) {}
  std::string call(const std::string& name, const std::string& m, int n, const std::string& arg,
                   const arpc::client_options& opt) override {
    if (m == "other") return text(c.template get_proxy<rpc::Other>(name, opt).work(n));
    if (m == "missing") return value(c.template get_proxy<rpc::Other>(name, opt).missing(n));
    if (m == "note" && arg.empty()) {
      c.template get_proxy<rpc::Base>(name, opt).note(n);
      return "";
    }
    auto p = c.template get_proxy<rpc::Api>(name, opt);
    if (m == "work") return value(p.work(n));
    if (m == "act") return p.act(n), "";
    if (m == "note") return p.note(n), "";
    return text(p.echo(n, arg));
  }
  std::function<std::string()> start(const std::string& name, const std::string& m, int n,
                                     const std::string& arg, const arpc::client_options& opt,
                                     arpc::rpc_defs::request_id_type& id) override {
    auto later = [&id](auto pair, auto f) {
      id = pair.second;
      auto p = std::make_shared<decltype(pair.first)>(std::move(pair.first));
      return std::function<std::string()>([p, f] { return f(*p); });
    };
    auto num = [](auto& x) { return value(x.get()); };
    auto str = [](auto& x) { return text(x.get()); };
    auto none = [](auto& x) {
      x.get();
      return std::string();
    };
    if (m == "other" || m == "missing") {
      auto p = c.template get_proxy<rpc::Other::async>(name, opt);
      if (m == "other") return later(p.work(n), str);
      return later(p.missing(n), num);
    }
    auto p = c.template get_proxy<rpc::Api::async>(name, opt);
    if (m == "work") return later(p.work(n), num);
    if (m == "act") return later(p.act(n), none);
    if (m == "note") return later(p.note(n), none);
    return later(p.echo(n, arg), str);
  }
  void abandon(arpc::rpc_defs::request_id_type id) override { c.cancel_request(id); }
};

using LE = arpc::little_endian_binary_encoder;
using LD = arpc::little_endian_binary_decoder;
using BE = arpc::big_endian_binary_encoder;
using BD = arpc::big_endian_binary_decoder;
template <template <typename, typename, typename> class T, typename R, typename A>
std::unique_ptr<R> make(int kind, A a) {
  if (kind == 0) return std::make_unique<T<accepting, LE, LD>>(a);
  return std::make_unique<T<accepting_serial, BE, BD>>(a);
}
template <typename F, typename E, typename D>
using server_type = server_of<F, E, D>;
std::unique_ptr<any_server> make_server(int kind, const arpc::server_options& o, int limit) {
  if (limit == 1) return std::make_unique<server_of<accepting, LE, LD, 1>>(o);
  if (limit == 2) return std::make_unique<server_of<accepting_serial, BE, BD, 2>>(o);
  return make<server_type, any_server>(kind, o);
}

const char* const names[] = {"a", "b", "none"};
const char* const methods[] = {"work", "act", "echo", "note", "other", "missing"};

// Like call(), with the message of errors.
std::exception_ptr call_msg(const std::string& what, std::function<std::string()> f) {
  int c = vs::log_index("\"e\":\"call\"," + what);
  std::string res;
  std::exception_ptr e;
  try {
    res = std::string("\"res\":\"ok\"") + f();
  } catch (...) {
    e = std::current_exception();
    res = "\"res\":\"" + error_name(e) + "\",\"msg\":\"" + message(e) + "\"";
  }
  vs::amend(c, res);
  vs::log("\"e\":\"ret\"");
  return e;
}

// A call to a method, which the function gets the description of.
std::exception_ptr with_context(std::function<std::exception_ptr(const std::string&)> f) {
  std::optional<arpc::context> c;
  std::string s;
  int deadline = -1;
  if (chance(25)) {
    c.emplace();
    if (chance(60)) {
      int t = 1 + next(12);
      c->set_timeout(ms(t));
      deadline = vs::now_ms() + t;
    }
    if (chance(60)) {
      int v = 1 + next(1000);
      c->set(tag(v));
      s = ",\"tag\":" + S(v);
    }
  }
  if (s.empty()) s = ",\"tag\":0";
  return f(s + ",\"dl\":" + S(deadline));
}

struct started {
  int n;
  arpc::rpc_defs::request_id_type id;
  std::function<std::string()> get;
  bool abandoned = false;
};

void caller(int ops, int cl) {
  std::vector<std::unique_ptr<started>> open;
  while (ops-- > 0 || !open.empty()) {
    int what = next(12);
    if (ops < 0) what = 10;
    if (what < 9) {
      int n = vs::fresh();
      std::string name = names[chance(93) ? next(2) : 2];
      std::string m = methods[chance(92) ? next(4) : 4 + next(2)], arg;
      if (w->plain) m = "work";
      if (m == "echo")
        for (int k = next(5); k > 0; k--) arg += static_cast<char>(1 + next(255));
      arpc::client_options opt;
      int to = 3600000;
      if (chance(20)) {
        to = 1 + next(10);
        opt.request_timeout = ms(to);
      } else if (chance(30)) {
        to = -1;
        opt.request_timeout = std::nullopt;
      }
      bool async = chance(30);
      with_context([&](const std::string& ctx) {
        std::string d = ",\"n\":" + S(n) + ",\"cl\":" + S(cl) + ",\"name\":\"" + name +
                        "\",\"m\":\"" + m + "\",\"a\":" + hex(arg) + ",\"to\":" + S(to) + ctx;
        auto& c = *w->client[cl];
        if (!async) return call_msg("\"op\":\"rpc\"" + d, [&] { return c.call(name, m, n, arg, opt); });
        auto s = std::make_unique<started>();
        s->n = n;
        auto e = call_msg("\"op\":\"start\"" + d, [&] {
          s->get = c.start(name, m, n, arg, opt, s->id);
          return "";
        });
        if (!e) open.push_back(std::move(s));
        return e;
      });
    } else if (what == 9) {
      sleep(1 + next(4));
    } else if (!open.empty()) {
      int k = next(open.size());
      auto& s = open[k];
      if (chance(20) && !s->abandoned) {
        s->abandoned = true;
        call("\"op\":\"abandon\",\"n\":" + S(s->n), [&] {
          w->client[cl]->abandon(s->id);
          return "";
        });
      } else {
        if (chance(80)) call_msg("\"op\":\"get\",\"n\":" + S(s->n), s->get);
        open.erase(open.begin() + k);
      }
    }
  }
}

void break_link(int cl) {
  call("\"op\":\"break\",\"cl\":" + S(cl), [&] {
    std::scoped_lock lock(w->mu);
    if (w->link[cl]) w->link[cl].shutdown(true, true);
    return "";
  });
}
void on_server(const char* op, std::function<void()> f) {
  call(std::string("\"op\":\"") + op + "\"", [&] {
    f();
    return "";
  });
}
struct registered {
  int object[2] = {-1, -1};
};
void add_object(registered& r, int k, int o) {
  call("\"op\":\"add\",\"name\":\"" + std::string(names[k]) + "\",\"o\":" + S(o), [&] {
    w->server->add(names[k], o);
    return "";
  });
  r.object[k] = o;
}

void controller(int n, bool life, registered& r) {
  bool running = true;
  while (n-- > 0) {
    switch (next(life ? 9 : 5)) {
      case 0: {
        int t = next(4);
        arpc::context* c = w->contexts[t];
        if (!c) break;
        call("\"op\":\"cancel\",\"target\":" + S(t), [&] {
          c->cancel();
          return "";
        });
        break;
      }
      case 1:
      case 2:
        sleep(1 + next(5));
        break;
      case 3:
        set_flag(next(w->flags.size()));
        break;
      case 4:
        if (w->faults) break_link(next(2));
        break;
      case 5:
        if (running) on_server("stop", [&] { w->server->stop(); });
        else on_server("run", [&] { w->server->start(); });
        running = !running;
        break;
      case 6: {
        int k = next(2);
        if (r.object[k] < 0) break;
        if (chance(50)) {
          call("\"op\":\"remove\",\"name\":\"" + std::string(names[k]) + "\"", [&] {
            w->server->remove_name(names[k]);
            return "";
          });
          r.object[k] = -1;
        } else {
          int o = r.object[k];
          call("\"op\":\"removeo\",\"o\":" + S(o), [&] {
            w->server->remove_object(o);
            return "";
          });
          for (int j = 0; j < 2; j++)
            if (r.object[j] == o) r.object[j] = -1;
        }
        break;
      }
      case 7: {
        int o = next(3);
        if (w->object[o]) add_object(r, next(2), o);
        break;
      }
      case 8: {
        int o = next(3);
        if (!w->object[o] || o == r.object[0] || o == r.object[1]) break;
        call("\"op\":\"destroy\",\"o\":" + S(o), [&] {
          w->object[o].reset();
          return "";
        });
        break;
      }
    }
  }
  if (!running && chance(80)) on_server("run", [&] { w->server->start(); });
}

// Connections whose other end speaks for itself.
struct any_raw {
  virtual ~any_raw() {}
  virtual std::string request(int id, const std::string& name, const std::string& m, int n) = 0;
  virtual std::string cancel(int id) = 0;
  virtual std::string packet(const std::string& data) = 0;
  // Returns the fields for a response.
  virtual std::string receive() = 0;
  // As a server.
  virtual std::string receive_request(int& id) = 0;
  virtual std::string response(int id, int v, std::exception_ptr e) = 0;
  virtual arpc::connection& link() = 0;
};
template <typename Factory, typename Encoder, typename Decoder>
struct raw_of : any_raw {
  arpc::channel_connection c;
  typename Factory::protocol p;
  explicit raw_of(arpc::channel* ch) : c(std::move(*ch)) {}
  arpc::connection& link() override { return c; }
  template <auto m>
  std::string request_for(arpc::rpc_defs::request_id_type id, const std::string& name, int n) {
    using info = arpc::method_descriptor<m>;
    std::string r;
    arpc::string_output_stream os(r);
    {
      Encoder e(os);
      e(arpc::rpc_defs::message_type::REQUEST);
      e(id);
    }
    {
      Encoder e(os);
      e(arpc::object_name<Encoder>(name));
      e(info::name());
      constexpr auto hash = arpc::traits::type_hash_v<typename info::method_type>;
      e(hash);
      e(arpc::context::current());
    }
    {
      Encoder e(os);
      std::tuple<int> args(n);
      e(args);
    }
    return r;
  }
  std::string request(int id, const std::string& name, const std::string& m, int n) override {
    if (m == "other") return request_for<&rpc::Other::work>(id, name, n);
    if (m == "missing") return request_for<&rpc::Other::missing>(id, name, n);
    return request_for<&rpc::Api::work>(id, name, n);
  }
  std::string cancel(int id) override {
    std::string r;
    arpc::string_output_stream os(r);
    Encoder e(os);
    e(arpc::rpc_defs::message_type::CANCEL_REQUEST);
    e(static_cast<arpc::rpc_defs::request_id_type>(id));
    return r;
  }
  std::string packet(const std::string& data) override {
    std::string r;
    arpc::string_output_stream os(r);
    p.send(os, data);
    return r;
  }
  std::string receive_request(int& got_id) override {
    auto data = p.receive(c);
    arpc::string_input_stream is(data);
    arpc::rpc_defs::message_type type;
    arpc::rpc_defs::request_id_type id;
    {
      Decoder d(is);
      d(type);
      d(id);
    }
    std::string r = ",\"got\":1,\"type\":" + S(static_cast<int>(type)) + ",\"id\":" + S(id);
    if (type != arpc::rpc_defs::message_type::REQUEST)
      return r + ",\"more\":" + S(data.size() - is.pos());
    got_id = id;
    std::string name, method;
    arpc::traits::type_hash_t hash;
    arpc::context ctx;
    {
      Decoder d(is);
      d(name);
      d(method);
      d(hash);
      d(ctx);
    }
    std::tuple<int> args;
    {
      Decoder d(is);
      d(args);
    }
    {
      // Names are encoded by themselves.
      std::string encoded = std::move(name);
      arpc::string_input_stream ns(encoded);
      Decoder d(ns);
      d(name);
      if (ns.pos() != encoded.size() || name.size() > 5) name = "?";
    }
    using info = arpc::method_descriptor<&rpc::Api::work>;
    constexpr auto meant = arpc::traits::type_hash_v<typename info::method_type>;
    auto left = ctx.deadline_left();
    return r + ",\"name\":\"" + name + "\",\"m\":\"" + (hash == meant ? method : "?") +
           "\",\"left\":" + S(left ? left->count() : -1) + ",\"tag\":" + S(ctx.get<tag>().v) +
           ",\"n\":" + S(std::get<0>(args)) + ",\"more\":" + S(data.size() - is.pos());
  }
  std::string response(int id, int v, std::exception_ptr ex) override {
    std::string r;
    arpc::string_output_stream os(r);
    {
      Encoder e(os);
      e(arpc::rpc_defs::message_type::RESPONSE);
      e(static_cast<arpc::rpc_defs::request_id_type>(id));
    }
    arpc::result_holder<int> result;
    if (ex) result.set_exception(ex);
    else result.set_value(v);
    {
      Encoder e(os);
      e(result);
    }
    return r;
  }
  std::string receive() override {
    auto data = p.receive(c);
    arpc::string_input_stream is(data);
    arpc::rpc_defs::message_type type;
    arpc::rpc_defs::request_id_type id;
    {
      Decoder d(is);
      d(type);
      d(id);
    }
    arpc::result_holder<int> result;
    {
      Decoder d(is);
      d(result);
    }
    std::string r = ",\"got\":1,\"type\":" + S(static_cast<int>(type)) + ",\"id\":" + S(id);
    try {
      int v = result.value();
      return r + ",\"r\":\"ok\"" + value(v) + ",\"more\":" + S(data.size() - is.pos());
    } catch (...) {
      auto e = std::current_exception();
      return r + ",\"r\":\"" + error_name(e) + "\",\"msg\":\"" + message(e) + "\"";
    }
  }
};

void raw_client(int kind, int ops) {
  std::unique_ptr<any_raw> c;
  arpc::channel end;
  int k = 0;
  std::string rest;           // Of half a packet.
  std::string rest_fields;
  bool shut = false;
  auto send = [&](const std::string& what, const std::string& bytes) {
    return call(what, [&] {
      c->link().write(bytes.data(), bytes.size());
      c->link().flush();
      return "";
    });
  };
  while (ops-- > 0) {
    if (!c) {
      k = ++w->links;
      int f[2];
      make_link(f, 1);
      arpc::channel mine(f[0]), theirs(f[1]);
      end = mine.dup();
      call("\"op\":\"open\",\"k\":" + S(k), [&] {
        w->accepts.put(std::move(theirs));
        return "";
      });
      if (kind == 0) c = std::make_unique<raw_of<accepting, LE, LD>>(&mine);
      else c = std::make_unique<raw_of<accepting_serial, BE, BD>>(&mine);
      shut = false;
    }
    std::string K = ",\"k\":" + S(k);
    int what = next(16), id = next(3);
    if (!rest.empty() && what < 12) what = 12 + next(2);
    if (shut && what < 13) what = 15;
    if (what < 8) {
      int n = vs::fresh();
      std::string name = names[chance(93) ? next(2) : 2];
      std::string m = chance(90) ? "work" : methods[4 + next(2)];
      std::string data, ctx;
      with_context([&](const std::string& x) {
        ctx = x + ",\"at\":" + S(vs::now_ms());
        data = c->request(id, name, m, n);
        return std::exception_ptr();
      });
      {
        if (chance(6)) {
          // What comes after the id isn't there as a whole.
          std::size_t head = c->cancel(id).size();
          data.resize(head + next(data.size() - head));
          m = "broken";
        }
        std::string fields = K + ",\"id\":" + S(id) + ",\"n\":" + S(n) + ",\"name\":\"" + name +
                             "\",\"m\":\"" + m + "\"" + ctx;
        std::string bytes = c->packet(data);
        if (chance(85)) {
          send("\"op\":\"send\"" + fields, bytes);
          continue;
        }
        std::size_t part = 1 + next(bytes.size() - 1);
        rest = bytes.substr(part);
        rest_fields = fields;
        send("\"op\":\"half\"" + K, bytes.substr(0, part));
      }
    } else if (what == 8) {
      send("\"op\":\"kill\",\"id\":" + S(id) + K, c->packet(c->cancel(id)));
    } else if (what == 9 && chance(40)) {
      // Not a message to servers.
      std::string data = c->cancel(id);
      if (chance(50)) data[0] = chance(50) ? 1 : 3 + next(250);
      else data.resize(next(data.size()));
      send("\"op\":\"bad\"" + K, c->packet(data));
    } else if (what == 12) {
      if (rest.empty()) {
        sleep(1 + next(4));
      } else {
        std::string bytes = std::move(rest);
        rest.clear();
        send("\"op\":\"send\"" + rest_fields, bytes);
      }
    } else if (what == 13) {
      sleep(1 + next(4));
    } else if (what == 14 && chance(50)) {
      if (chance(50) && !shut) {
        shut = true;
        rest.clear();
        call("\"op\":\"shut\"" + K, [&] {
          end.shutdown(false, true);
          return "";
        });
      } else {
        rest.clear();
        call("\"op\":\"drop\"" + K, [&] {
          end.close();
          c.reset();
          return "";
        });
      }
    } else {
      int t = 3 + next(12);
      auto e = call_msg("\"op\":\"recv\",\"val\":" + S(t) + K, [&]() -> std::string {
        auto [data, late] = arpc::select(c->link().data_available(), arpc::timeout(ms(t)));
        if (data) return c->receive();
        return ",\"got\":0";
      });
    }
  }
  if (c)
    call("\"op\":\"drop\",\"k\":" + S(k), [&] {
      end.close();
      c.reset();
      return "";
    });
}

// Takes the place of a server.
void impostor(int kind, int ops) {
  std::unique_ptr<any_raw> c;
  arpc::channel end;
  int k = 0;
  std::vector<int> ids;
  std::string rest, rest_fields;
  bool shut = false;
  auto send = [&](const std::string& what, const std::string& bytes) {
    return call(what, [&] {
      c->link().write(bytes.data(), bytes.size());
      c->link().flush();
      return "";
    });
  };
  auto drop = [&] {
    if (!c) return;
    rest.clear();
    call("\"op\":\"drop\",\"k\":" + S(k), [&] {
      end.close();
      c.reset();
      return "";
    });
  };
  while (ops-- > 0) {
    if (!c) {
      int t = 3 + next(12);
      call("\"op\":\"take\",\"val\":" + S(t), [&]() -> std::string {
        auto [ch, late] = arpc::select(w->accepts.async_get(), arpc::timeout(ms(t)));
        if (!ch) return ",\"k\":0";
        arpc::channel mine(std::move(*ch));
        end = mine.dup();
        if (kind == 0) c = std::make_unique<raw_of<accepting, LE, LD>>(&mine);
        else c = std::make_unique<raw_of<accepting_serial, BE, BD>>(&mine);
        return ",\"k\":" + S(++k);
      });
      shut = false;
      continue;
    }
    std::string K = ",\"k\":" + S(k);
    int what = next(16);
    if (!rest.empty() && what < 11) what = 10;
    if (shut && what < 11) what = 15;
    if (what < 7 && ids.empty()) what = 15;
    if (what < 7) {
      int id = ids[chance(75) ? ids.size() - 1 : next(ids.size())];
      if (chance(8)) id += 100;
      int v = 1 + next(1000000);
      std::exception_ptr ex;
      std::string r = ",\"r\":\"ok\"" + value(v);
      if (chance(25)) {
        switch (next(5)) {
          case 0: ex = std::make_exception_ptr(arpc::errors::not_found("thing " + S(v))); break;
          case 1: ex = std::make_exception_ptr(arpc::errors::io_error("disk " + S(v))); break;
          case 2: ex = std::make_exception_ptr(arpc::errors::cancelled("not " + S(v))); break;
          case 3: ex = std::make_exception_ptr(arpc::errors::deadline_exceeded("late " + S(v))); break;
          default: ex = std::make_exception_ptr(arpc::errors::eof("end " + S(v))); break;
        }
        r = ",\"r\":\"" + error_name(ex) + "\",\"msg\":\"" + message(ex) + "\"";
      }
      std::string data = c->response(id, v, ex);
      if (chance(8)) {
        std::size_t head = c->cancel(id).size();
        data.resize(head + next(data.size() - head));
        r = ",\"r\":\"short\"";
      } else if (chance(8)) {
        data += "more";
      }
      std::string fields = K + ",\"id\":" + S(id) + r;
      std::string bytes = c->packet(data);
      if (chance(85)) {
        send("\"op\":\"answer\"" + fields, bytes);
        continue;
      }
      std::size_t part = 1 + next(bytes.size() - 1);
      rest = bytes.substr(part);
      rest_fields = fields;
      send("\"op\":\"half\"" + K, bytes.substr(0, part));
    } else if (what == 7) {
      sleep(1 + next(4));
    } else if (what == 8 && chance(30)) {
      // Not a message to clients.
      std::string data = c->response(0, 1, nullptr);
      if (chance(50)) data[0] = chance(50) ? 2 * next(2) : 3 + next(250);
      else data.resize(next(c->cancel(0).size()));
      send("\"op\":\"bad\"" + K, c->packet(data));
    } else if (what == 9 && chance(30)) {
      if (chance(40) && !shut) {
        shut = true;
        rest.clear();
        call("\"op\":\"shut\"" + K, [&] {
          end.shutdown(false, true);
          return "";
        });
      } else {
        drop();
      }
    } else if (what == 10 && !rest.empty()) {
      std::string bytes = std::move(rest);
      rest.clear();
      send("\"op\":\"answer\"" + rest_fields, bytes);
    } else {
      int t = 1 + next(10);
      int id = -1;
      auto e = call_msg("\"op\":\"recv\",\"val\":" + S(t) + K, [&]() -> std::string {
        auto [data, late] = arpc::select(c->link().data_available(), arpc::timeout(ms(t)));
        if (data) return c->receive_request(id);
        return ",\"got\":0";
      });
      if (id >= 0) ids.push_back(id);
      if (e) drop();
    }
  }
  drop();
}

// A client that's talked to without the server.
void impose() {
  w = new World;
  w->plain = true;
  vs::set_partial(chance(40) ? 40 : 0);
  int kind = next(4) == 0;
  w->small = chance(30);
  vs::log("\"e\":\"config\",\"small\":" + S(w->small));
  call("\"op\":\"client\",\"cl\":0", [&] {
    w->client[0] = make<client_of, any_client>(kind, 0);
    return "";
  });
  std::vector<std::unique_ptr<arpc::thread>> ts;
  int n = 1 + next(3);
  for (int t = 0; t < n; t++) {
    int ops = 1 + next(4);
    call("\"op\":\"spawn\",\"t\":" + S(t), [&] {
      ts.push_back(std::make_unique<arpc::thread>([t, ops] {
        vs::log("\"e\":\"begin\",\"t\":" + S(t));
        caller(ops, 0);
        vs::log("\"e\":\"end\"");
      }));
      return "";
    });
  }
  impostor(kind, 6 + next(20));
  // Nobody answers any more.
  call("\"op\":\"closed\"", [&] {
    std::scoped_lock lock(w->dialing);
    w->closed = true;
    try {
      while (true) w->accepts.maybe_get();
    } catch (const arpc::errors::try_again&) {
    }
    return "";
  });
  for (int t = 0; t < n; t++)
    call("\"op\":\"join\",\"t\":" + S(t), [&] {
      ts[t]->join();
      return "";
    });
  w->client[0].reset();
  ts.clear();
}

// A server that's talked to without the client.
void serve() {
  w = new World;
  vs::set_partial(chance(40) ? 40 : 0);
  int kind = next(4) == 0, workers = 1 + next(4), nf = 1 + next(2);
  int limit = next(5);
  if (limit > 2) limit = 0;
  if (limit) kind = limit - 1;
  arpc::server_options o;
  o.num_worker_threads = workers;
  int to = -1;
  o.request_timeout = std::nullopt;
  if (chance(20)) {
    to = 1 + next(10);
    o.request_timeout = ms(to);
  }
  for (int k = 0; k < nf; k++) w->flags.push_back(std::make_unique<arpc::flag>());
  for (int k = 0; k < 2; k++) w->object[k] = std::make_unique<Object>(k);
  int second = next(3);
  vs::log("\"e\":\"config\",\"workers\":" + S(workers) + ",\"to\":" + S(to) +
          ",\"limit\":" + S(limit) + ",\"names\":{\"a\":1,\"b\":" + S(second) +
          ",\"none\":0}");
  on_server("create", [&] { w->server = make_server(kind, o, limit); });
  w->server->add(names[0], 0);
  if (second) w->server->add(names[1], second - 1);
  on_server("run", [&] { w->server->start(); });
  std::vector<std::unique_ptr<arpc::thread>> ts;
  int n = 1 + next(3);
  for (int t = 0; t < n; t++) {
    int ops = 3 + next(8);
    call("\"op\":\"spawn\",\"t\":" + S(t), [&] {
      ts.push_back(std::make_unique<arpc::thread>([t, kind, ops] {
        vs::log("\"e\":\"begin\",\"t\":" + S(t));
        raw_client(kind, ops);
        vs::log("\"e\":\"end\"");
      }));
      return "";
    });
  }
  for (int k = next(4); k > 0; k--) {
    if (chance(50)) sleep(1 + next(8));
    else set_flag(next(nf));
  }
  if (chance(15)) on_server("stop", [&] { w->server->stop(); });
  if (chance(90))
    for (int k = 0; k < nf; k++) set_flag(k);
  for (int t = 0; t < n; t++)
    call("\"op\":\"join\",\"t\":" + S(t), [&] {
      ts[t]->join();
      return "";
    });
  on_server("delete", [&] { w->server.reset(); });
  ts.clear();
}

void program(const std::string& profile) {
  if (profile == "serve") return serve();
  if (profile == "impose") return impose();
  w = new World;
  bool life = profile == "life";
  w->faults = profile == "faults" || (life && chance(30));
  vs::set_partial(chance(40) ? 40 : 0);
  int kind = next(4) == 0, workers = 1 + next(4), nf = 1 + next(2);
  arpc::server_options o;
  o.num_worker_threads = workers;
  int to = 3600000;
  if (chance(20)) {
    to = 1 + next(10);
    o.request_timeout = ms(to);
  } else if (chance(30)) {
    to = -1;
    o.request_timeout = std::nullopt;
  }
  for (int k = 0; k < nf; k++) w->flags.push_back(std::make_unique<arpc::flag>());
  for (int k = 0; k < 3; k++) w->object[k] = std::make_unique<Object>(k);
  vs::log("\"e\":\"config\",\"workers\":" + S(workers) + ",\"to\":" + S(to) +
          ",\"flags\":" + S(nf));
  on_server("create", [&] { w->server = make_server(kind, o, 0); });
  registered r;
  if (chance(20)) on_server("run", [&] { w->server->start(); });
  add_object(r, 0, 0);
  if (chance(80)) add_object(r, 1, next(2));
  on_server("run", [&] { w->server->start(); });
  int clients = 1 + (next(4) == 0);
  for (int k = 0; k < clients; k++)
    call("\"op\":\"client\",\"cl\":" + S(k), [&] {
      w->client[k] = make<client_of, any_client>(kind, k);
      return "";
    });

  std::vector<std::unique_ptr<arpc::thread>> ts;
  int n = 1 + next(3);
  for (int t = 0; t < n; t++) {
    int cl = next(clients), ops = 1 + next(3);
    call("\"op\":\"spawn\",\"t\":" + S(t), [&] {
      ts.push_back(std::make_unique<arpc::thread>([t, cl, ops] {
        vs::log("\"e\":\"begin\",\"t\":" + S(t));
        caller(ops, cl);
        vs::log("\"e\":\"end\"");
      }));
      return "";
    });
    w->contexts[t] = &ts.back()->get_context();
  }
  controller(chance(70) ? next(life ? 8 : 5) : 0, life, r);
  if (chance(80)) {
    if (chance(50)) sleep(15);
    for (int k = 0; k < nf; k++) set_flag(k);
  }
  for (int t = 0; t < n; t++)
    call("\"op\":\"join\",\"t\":" + S(t), [&] {
      ts[t]->join();
      return "";
    });
  bool first = chance(50);
  if (first)
    for (int k = 0; k < clients; k++)
      call("\"op\":\"close\",\"cl\":" + S(k), [&] {
        w->client[k].reset();
        return "";
      });
  on_server("delete", [&] { w->server.reset(); });
  if (!first)
    for (int k = 0; k < clients; k++)
      call("\"op\":\"close\",\"cl\":" + S(k), [&] {
        w->client[k].reset();
        return "";
      });
  for (int k = 0; k < 3; k++)
    if (w->object[k])
      call("\"op\":\"destroy\",\"o\":" + S(k), [&] {
        w->object[k].reset();
        return "";
      });
  for (auto& c : w->contexts) c = nullptr;
  ts.clear();
}
}  // namespace

int main(int argc, char** argv) {
  if (argc < 5) return 2;
  std::string name = argv[3];
  vs::options o;
  o.spurious = 20;
  o.eintr = 10;
  o.drift = 300000;
  o.max_steps = 2000000;
  arpc::context::top();
  return vs::run(std::strtoull(argv[1], nullptr, 10) * 1000000,
                 std::strtoull(argv[2], nullptr, 10), argc > 5 ? std::atoi(argv[5]) : 8, argv[4],
                 o, [&](std::uint64_t) { program(name); });
}
