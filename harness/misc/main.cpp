// Errors, result holders and streams: main SEED N MODE OUTFILE, MODE among
// errors, streams.  Writes what happened, one session per line.
#include <cerrno>
#include <cstdint>
#include <exception>
#include <fstream>
#include <random>
#include <sstream>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <vector>
#include "arpc/binary_codecs.h"
#include "arpc/errors.h"
#include "arpc/iostream_adapters.h"
#include "arpc/result_holder.h"
#include "arpc/string_adapters.h"

ERROR_CLASS(custom_error);
ERROR_CLASS(Another);
// Not registered by name, but derived from one that is.
struct derived_error : custom_error {
  using custom_error::custom_error;
};

namespace {
std::mt19937_64 rng;
std::uint64_t next(std::uint64_t n) { return rng() % n; }
bool chance(int p) { return next(100) < static_cast<unsigned>(p); }

std::string B(const std::string& s) {
  std::string r = "[";
  for (std::size_t i = 0; i < s.size(); i++) {
    if (i) r += ',';
    r += std::to_string(static_cast<unsigned char>(s[i]));
  }
  return r + "]";
}

std::string random_bytes(std::size_t max) {
  std::string s(next(max + 1), '\0');
  bool text = chance(50);
  for (auto& c : s) c = text ? 'a' + next(26) : next(256);
  return s;
}
std::string random_text(std::size_t max) {
  if (chance(3)) max = 3000;
  std::string s(next(max + 1), '\0');
  for (auto& c : s) c = 1 + next(255);
  return s;
}

// ------------------------------------------------------------------- errors
#define ERRORS(X)                                                     \
  X(arpc::errors::unknown_error) X(arpc::errors::cancelled)           \
  X(arpc::errors::data_mismatch) X(arpc::errors::deadline_exceeded)   \
  X(arpc::errors::eof) X(arpc::errors::internal_error)                \
  X(arpc::errors::invalid_argument) X(arpc::errors::invalid_state)    \
  X(arpc::errors::io_error) X(arpc::errors::not_implemented)          \
  X(arpc::errors::not_found) X(arpc::errors::out_of_range)            \
  X(arpc::errors::shutting_down) X(arpc::errors::unavailable)         \
  X(arpc::errors::try_again) X(custom_error) X(Another)

// The class an exception really has, as text, and its message.
void caught(std::string& cls, std::string& what) {
  try {
    throw;
  }
  catch (const derived_error& e) { cls = "derived_error"; what = e.what(); }
#define X(T) catch (const T& e) { cls = #T; what = e.what(); }
  ERRORS(X)
#undef X
  catch (const arpc::errors::base_error& e) { cls = "base"; what = e.what(); }
  catch (const std::exception& e) { cls = "std"; what = e.what(); }
  catch (...) { cls = "other"; what = ""; }
  auto p = cls.rfind(':');
  if (p != std::string::npos) cls = cls.substr(p + 1);
}

struct Exc {
  std::string cls, what;
  std::exception_ptr p;
};

const std::vector<std::string>& names() {
  static std::vector<std::string> r;
  if (r.empty()) {
#define X(T) r.push_back(#T);
    ERRORS(X)
#undef X
    for (auto& n : r) {
      auto p = n.rfind(':');
      if (p != std::string::npos) n = n.substr(p + 1);
    }
    r.push_back("derived_error");
    r.push_back("std");
    r.push_back("other");
  }
  return r;
}

Exc random_exception() {
  Exc e;
  unsigned k = next(names().size());
  e.cls = names()[k];
  e.what = e.cls == "other" ? "" : random_text(12);
  unsigned i = 0;
#define X(T) if (k == i++) e.p = std::make_exception_ptr(T(e.what));
  ERRORS(X)
#undef X
  if (k == i++) e.p = std::make_exception_ptr(derived_error(e.what));
  if (k == i++) {
    switch (next(3)) {
      case 0: e.p = std::make_exception_ptr(std::runtime_error(e.what)); break;
      case 1: e.p = std::make_exception_ptr(std::logic_error(e.what)); break;
      case 2: e.p = std::make_exception_ptr(std::out_of_range(e.what)); break;
    }
  }
  if (k == i++) e.p = std::make_exception_ptr(42);
  return e;
}

std::string E(const std::string& cls, const std::string& what) {
  return "{\"cls\":\"" + cls + "\",\"what\":" + B(what) + "}";
}

template <typename F>
std::string outcome(F f) {
  std::string v = "[]", cls, what;
  try {
    v = f();
    return "\"v\":" + v + ",\"e\":{\"cls\":\"\",\"what\":[]}";
  } catch (...) {
    caught(cls, what);
  }
  return "\"v\":[],\"e\":" + E(cls, what);
}

// Values of result holders as bytes: strings, or nothing at all for void.
template <typename T> struct Val;
template <> struct Val<std::string> {
  static constexpr int is_void = 0;
  // Values are only taken from those that are given away.
  static arpc::result_holder<std::string> construct(const std::string& v) {
    std::string w = v;
    switch (next(3)) {
      case 0: return arpc::result_holder<std::string>(std::move(w));
      case 1: return arpc::result_holder<std::string>(v);
    }
    arpc::result_holder<std::string> r(w);
    if (w != v) throw arpc::errors::internal_error("value is gone");
    return r;
  }
  static std::string make() { return random_bytes(6); }
  static void set(arpc::result_holder<std::string>& h, const std::string& v) {
    h.set_value(v);
  }
  static std::string get(arpc::result_holder<std::string>& h) {
    auto& c = const_cast<const arpc::result_holder<std::string>&>(h);
    switch (next(5)) {
      case 0: return B(*h);
      case 1: return B(h.value());
      case 2: return B(std::string(h->data(), h->size()));
      case 3: return B(*c);
      default: return B(c.value());
    }
  }
  static std::string get_or(arpc::result_holder<std::string>& h,
                            const std::string& d) {
    return B(h.value_or(d));
  }
};
template <> struct Val<void> {
  static constexpr int is_void = 1;
  static arpc::result_holder<void> construct(const std::string&) {
    arpc::result_holder<void> r;
    r.set_value();
    return r;
  }
  static std::string make() { return ""; }
  static void set(arpc::result_holder<void>& h, const std::string&) {
    h.set_value();
  }
  static std::string get(arpc::result_holder<void>& h) {
    if (chance(50)) *h; else h.value();
    return "[]";
  }
  static std::string get_or(arpc::result_holder<void>& h, const std::string&) {
    h.value_or();
    return "[]";
  }
};

template <typename T>
void holder_session(std::ostream& out) {
  using H = arpc::result_holder<T>;
  std::vector<H> hs(2);
  out << "{\"op\":\"holder\",\"void\":" << Val<T>::is_void << ",\"ops\":[";
  int n = 3 + next(14);
  for (int i = 0; i < n; i++) {
    int a = next(2), b = 1 - a;
    out << (i ? "," : "") << "{\"h\":" << a + 1 << ',';
    std::ostringstream o;
    switch (next(10)) {
      case 0: {
        // A holder that has an exception keeps it.
        auto v = Val<T>::make();
        if (chance(50)) {
          hs[a].reset();
          Val<T>::set(hs[a], v);
        } else {
          try {
            hs[a] = Val<T>::construct(v);
          } catch (...) {
            v = "lost";
          }
        }
        o << "\"o\":\"value\",\"val\":" << B(v);
        break;
      }
      case 1: {
        auto e = random_exception();
        hs[a].set_exception(e.p);
        o << "\"o\":\"exception\",\"exc\":" << E(e.cls, e.what);
        break;
      }
      case 2:
        hs[a].reset();
        o << "\"o\":\"reset\"";
        break;
      case 3:
        if (chance(50)) hs[a].swap(hs[b]); else swap(hs[a], hs[b]);
        o << "\"o\":\"swap\"";
        break;
      case 4: {
        auto e = random_exception();
        hs[a] = H(e.p);
        o << "\"o\":\"exception_only\",\"exc\":" << E(e.cls, e.what);
        break;
      }
      case 5: {
        // Through a codec into the other one.
        std::string data;
        arpc::string_output_stream os(data);
        arpc::string_input_stream is(data);
        std::string r;
        if (chance(50)) {
          arpc::little_endian_binary_encoder enc(os);
          enc(hs[a]);
          arpc::little_endian_binary_decoder dec(is);
          r = outcome([&] { dec(hs[b]); return std::string("[]"); });
        } else {
          arpc::big_endian_binary_encoder enc(os);
          enc(hs[a]);
          arpc::big_endian_binary_decoder dec(is);
          r = outcome([&] { dec(hs[b]); return std::string("[]"); });
        }
        o << "\"o\":\"send\",\"bytes\":" << B(data) << ',' << r;
        break;
      }
      case 6: {
        auto d = Val<T>::make();
        auto r = outcome([&] { return Val<T>::get_or(hs[a], d); });
        o << "\"o\":\"get_or\",\"val\":" << B(d) << ',' << r;
        break;
      }
      default: {
        auto r = outcome([&] { return Val<T>::get(hs[a]); });
        o << "\"o\":\"get\"," << r << ",\"has\":" << hs[a].has_value()
          << ",\"bool\":" << static_cast<bool>(hs[a]);
        break;
      }
    }
    out << o.str() << '}';
  }
  out << "]}\n";
}

void errors(std::ostream& out, int n) {
  for (int i = 0; i < n; i++) {
    switch (next(5)) {
      case 0: {
        auto e = random_exception();
        auto [type, what] = arpc::error_factory::analyze_exception(
            chance(3) ? (e = Exc(), nullptr) : e.p);
        out << "{\"op\":\"analyze\",\"exc\":" << E(e.cls, e.what)
            << ",\"type\":\"" << type << "\",\"what\":" << B(what) << "}\n";
        break;
      }
      case 1: {
        std::string name = names()[next(names().size())];
        if (chance(20)) name = name.substr(0, next(name.size() + 1));
        if (chance(10)) name += "x";
        std::string w = random_text(20);
        auto r = outcome([&]() -> std::string {
          arpc::error_factory::get().throw_error(name, w.c_str());
          return "[0]";
        });
        out << "{\"op\":\"throw\",\"type\":\"" << name << "\",\"what\":" << B(w)
            << ',' << r << "}\n";
        break;
      }
      case 2: {
        static const int codes[] = {EINPROGRESS, EALREADY, EISCONN, EAGAIN,
                                    EWOULDBLOCK, EBADF, EINTR, EPIPE, EIO,
                                    ENOENT, ECONNRESET, ECONNREFUSED, 0};
        int code = codes[next(13)];
        std::string w = random_text(10);
        int how = next(4);
        auto r = outcome([&]() -> std::string {
          switch (how) {
            case 0: arpc::throw_io_error(w, code); break;
            case 1: errno = code; arpc::throw_io_error(w); break;
            case 2: arpc::throw_with_code<Another>(w, code); break;
            case 3: errno = code; arpc::throw_with_errno<Another>(w); break;
          }
          return "[]";
        });
        out << "{\"op\":\"" << (how < 2 ? "io" : "code") << "\",\"code\":" << code
            << ",\"what\":" << B(w) << ',' << r << "}\n";
        break;
      }
      case 3: holder_session<std::string>(out); break;
      case 4: holder_session<void>(out); break;
    }
  }
}

// ------------------------------------------------------------------ streams
struct Broken {};

// Reads and writes byte by byte; fails from some position on.
struct faulty_buf : std::streambuf {
  std::string data;
  std::size_t at = 0, fault;
  char c;
  faulty_buf(std::string d, std::size_t f) : data(d), fault(f) {}
  int_type underflow() override {
    if (at >= fault) throw Broken();
    if (at >= data.size()) return traits_type::eof();
    c = data[at++];
    setg(&c, &c, &c + 1);
    return traits_type::to_int_type(c);
  }
  int_type overflow(int_type ch) override {
    if (data.size() >= fault) return traits_type::eof();
    data.push_back(ch);
    return ch;
  }
};

// Keeps what was written until it's told to pass it on.
struct lazy_buf : std::streambuf {
  std::string data, held;
  int_type overflow(int_type ch) override {
    held.push_back(ch);
    return ch;
  }
  int sync() override {
    data += held;
    held.clear();
    return 0;
  }
};

struct getc_stream : arpc::input_stream {
  std::string data;
  std::size_t at = 0, fault;
  getc_stream(std::string d, std::size_t f) : data(d), fault(f) {}
  std::size_t read(char* p, std::size_t l) override {
    return arpc::input_stream::read(p, l);
  }
  char getc() override {
    if (at >= fault) throw arpc::errors::io_error("broken");
    if (at >= data.size()) throw arpc::errors::eof("EOF");
    return data[at++];
  }
};
struct read_stream : arpc::input_stream {
  std::string data;
  std::size_t at = 0, fault;
  read_stream(std::string d, std::size_t f) : data(d), fault(f) {}
  std::size_t read(char* p, std::size_t l) override {
    if (at + l > fault) throw arpc::errors::io_error("broken");
    l = std::min(l, data.size() - at);
    data.copy(p, l, at);
    at += l;
    return l;
  }
  char getc() override { return arpc::input_stream::getc(); }
};
struct putc_stream : arpc::output_stream {
  std::string data;
  std::size_t fault;
  explicit putc_stream(std::size_t f) : fault(f) {}
  void write(const char* p, std::size_t l) override {
    arpc::output_stream::write(p, l);
  }
  void putc(char c) override {
    if (data.size() >= fault) throw arpc::errors::io_error("broken");
    data.push_back(c);
  }
  void flush() override {}
};
struct write_stream : arpc::output_stream {
  std::string data;
  std::size_t fault;
  explicit write_stream(std::size_t f) : fault(f) {}
  void write(const char* p, std::size_t l) override {
    if (data.size() + l > fault) throw arpc::errors::io_error("broken");
    data.append(p, l);
  }
  void putc(char c) override { arpc::output_stream::putc(c); }
  void flush() override {}
};

std::size_t fault_position(std::size_t n) {
  return chance(60) ? 1000000 : next(n + 1);
}

void input_session(std::ostream& out) {
  bool large = chance(4);
  std::string data = random_bytes(large ? 9000 : 20);
  std::size_t fault = fault_position(data.size());
  static const char* kinds[] = {"string", "istream", "getc", "read"};
  int kind = next(4);
  std::size_t start = 0;
  if (kind == 0) fault = 1000000;
  std::string results;
  std::unique_ptr<arpc::input_stream> s;
  arpc::string_input_stream* ss = nullptr;
  std::unique_ptr<faulty_buf> buf;
  std::unique_ptr<std::istream> is;
  std::unique_ptr<std::istringstream> iss;
  if (kind == 0) {
    if (chance(50)) start = next(data.size() + 3);
    auto r = outcome([&] {
      s.reset(ss = new arpc::string_input_stream(data, start));
      return std::string("[]");
    });
    results += "{\"o\":\"open\",\"n\":" + std::to_string(start) + "," + r + "}";
  } else if (kind == 1) {
    if (fault == 1000000 && chance(50)) {
      iss.reset(new std::istringstream(data));
      s.reset(new arpc::istream_input_stream(*iss));
    } else {
      buf.reset(new faulty_buf(data, fault));
      is.reset(new std::istream(buf.get()));
      s.reset(new arpc::istream_input_stream(*is));
    }
  } else if (kind == 2) {
    s.reset(new getc_stream(data, fault));
  } else {
    s.reset(new read_stream(data, fault));
  }
  for (int n = next(12), i = 0; s && i < n; i++) {
    std::string o;
    std::size_t l = chance(15) ? 0 : next(large ? 5000 : 9);
    std::string b(l, '#');
    switch (next(ss ? 5 : 3)) {
      case 0: {
        std::size_t got = 0;
        auto r = outcome([&] {
          got = s->read(&b[0], l);
          if (got > l) return std::string("[\"too much\"]");
          return B(b.substr(0, got));
        });
        // What's behind must be left alone.
        bool intact = b.substr(std::min(got, l)) == std::string(l - std::min(got, l), '#');
        if (r.find("\"cls\":\"\"") == std::string::npos) intact = true;
        o = "{\"o\":\"read\",\"n\":" + std::to_string(l) +
            ",\"intact\":" + (intact ? "1" : "0") + "," + r + "}";
        break;
      }
      case 1: {
        auto r = outcome([&] { s->read_fully(&b[0], l); return B(b); });
        o = "{\"o\":\"full\",\"n\":" + std::to_string(l) + "," + r + "}";
        break;
      }
      case 2: {
        auto r = outcome([&] { return B(std::string(1, s->getc())); });
        o = "{\"o\":\"getc\"," + r + "}";
        break;
      }
      case 3: {
        o = "{\"o\":\"tell\",\"n\":" + std::to_string(ss->pos()) + "}";
        break;
      }
      case 4: {
        std::size_t p = next(data.size() + 3);
        auto r = outcome([&] { ss->pos(p); return std::string("[]"); });
        o = "{\"o\":\"seek\",\"n\":" + std::to_string(p) + "," + r + "}";
        break;
      }
    }
    results += (results.empty() ? "" : ",") + o;
    // Whether anything was read before an error is up to the stream.
    if (o.find("io_error") != std::string::npos && kind == 2) break;
  }
  out << "{\"op\":\"in\",\"kind\":\"" << kinds[kind] << "\",\"data\":" << B(data)
      << ",\"fault\":" << fault << ",\"ops\":[" << results << "]}\n";
}

void output_session(std::ostream& out) {
  static const char* kinds[] = {"string", "ostream", "putc", "write"};
  int kind = next(4);
  std::size_t fault = kind ? fault_position(20) : 1000000;
  std::string target = kind == 0 ? random_bytes(5) : "", initial = target;
  faulty_buf buf("", fault);
  std::ostream os(&buf);
  lazy_buf lazy;
  std::ostream ls(&lazy);
  bool is_lazy = false;
  std::string results;
  std::unique_ptr<arpc::output_stream> s;
  std::string* data = nullptr;
  if (kind == 0) {
    s.reset(new arpc::string_output_stream(target));
    data = &target;
  } else if (kind == 1 && fault == 1000000 && chance(50)) {
    is_lazy = true;
    s.reset(new arpc::ostream_output_stream(ls));
    data = &lazy.data;
  } else if (kind == 1) {
    s.reset(new arpc::ostream_output_stream(os));
    data = &buf.data;
  } else if (kind == 2) {
    auto p = new putc_stream(fault);
    data = &p->data;
    s.reset(p);
  } else {
    auto p = new write_stream(fault);
    data = &p->data;
    s.reset(p);
  }
  for (int n = next(12), i = 0; i < n; i++) {
    std::string o;
    switch (next(3)) {
      case 0: {
        std::string d = random_bytes(chance(2) ? 9000 : 8);
        auto r = outcome([&] { s->write(d.data(), d.size()); return std::string("[]"); });
        o = "{\"o\":\"write\",\"d\":" + B(d) + "," + r;
        break;
      }
      case 1: {
        std::string d(1, next(256));
        auto r = outcome([&] { s->putc(d[0]); return std::string("[]"); });
        o = "{\"o\":\"write\",\"d\":" + B(d) + "," + r;
        break;
      }
      case 2: {
        auto r = outcome([&] { s->flush(); return std::string("[]"); });
        o = "{\"o\":\"flush\"," + r;
        break;
      }
    }
    // Once flushed, all of it must be there.
    bool flushed = o.compare(0, 11, "{\"o\":\"flush") == 0;
    o += ",\"after\":" + B(flushed ? *data : *data + lazy.held) + "}";
    results += (results.empty() ? "" : ",") + o;
    if (o.find("io_error") != std::string::npos && kind != 1) break;
  }
  if (is_lazy) {
    // So must it when the stream is gone.
    s.reset();
    results += std::string(results.empty() ? "" : ",") +
               "{\"o\":\"flush\",\"v\":[],\"e\":{\"cls\":\"\",\"what\":[]},\"after\":" +
               B(*data) + "}";
  }
  out << "{\"op\":\"out\",\"kind\":\"" << kinds[kind] << "\",\"data\":" << B(initial)
      << ",\"fault\":" << fault << ",\"ops\":[" << results << "]}\n";
}
}  // namespace

int main(int argc, char** argv) {
  if (argc < 5) return 2;
  rng.seed(std::stoull(argv[1]));
  int n = std::stoi(argv[2]);
  std::string mode = argv[3];
  std::ofstream out(argv[4]);
  if (mode == "errors") errors(out, n);
  if (mode == "streams")
    for (int i = 0; i < n; i++)
      if (chance(60)) input_session(out); else output_session(out);
  out.close();
  return out ? 0 : 1;
}
