// What the random programs have in common.
#ifndef PROG_H_
#define PROG_H_

#include <chrono>
#include <cstdint>
#include <cstdlib>
#include <exception>
#include <string>
#include <thread>
#include <utility>
#include <vector>
#include "arpc/errors.h"
#include "vsched.h"

namespace prog {
using ms = std::chrono::milliseconds;

inline int next(int n) { return vs::random(n); }
inline bool chance(int p) { return next(100) < p; }
inline std::string S(std::int64_t n) { return std::to_string(n); }
inline std::string error_name(std::exception_ptr e) {
  return arpc::error_factory::analyze_exception(e).first;
}

// Does f while an exception is in flight.
template <typename F>
std::string unwinding(F& f) {
  std::string r;
  std::exception_ptr e;
  struct On {
    F& f;
    std::string& r;
    std::exception_ptr& e;
    ~On() {
      try {
        r = f();
      } catch (...) {
        e = std::current_exception();
      }
    }
  };
  struct Flight {};
  try {
    On on{f, r, e};
    throw Flight{};
  } catch (const Flight&) {
  }
  if (e) std::rethrow_exception(e);
  return r;
}

// A call: f returns the fields with its results. Returns what it threw, if it did.
template <typename F>
std::exception_ptr call(const std::string& what, F f) {
  int c = vs::log_index("\"e\":\"call\"," + what);
  std::string res;
  std::exception_ptr e;
  try {
    res = std::string("\"res\":\"ok\"") + (chance(8) ? unwinding(f) : f());
  } catch (...) {
    e = std::current_exception();
    res = "\"res\":\"" + error_name(e) + "\"";
  }
  vs::amend(c, res);
  vs::log("\"e\":\"ret\"");
  return e;
}
inline bool is(std::exception_ptr e, const char* name) { return e && error_name(e) == name; }

inline std::string hex(const std::string& s) {
  std::string r = "[";
  for (unsigned char c : s) r += (r.size() > 1 ? "," : "") + S(c);
  return r + "]";
}
}  // namespace prog

#endif  // PROG_H_
