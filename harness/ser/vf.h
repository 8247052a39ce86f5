// Support for the serialization harness: descriptions of C++ types, random
// values and JSON dumps of values, all independent of the code under test
// (which only encodes, decodes and hashes).
#ifndef VF_H_
#define VF_H_
#include <array>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <random>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include "arpc/binary_codecs.h"
#include "arpc/container/flat_map.h"
#include "arpc/container/flat_set.h"
#include "arpc/serializable.h"
#include "arpc/string_adapters.h"

namespace vf {

// ---------------------------------------------------------------- identities
inline int next_type_number = 1;
template <typename T>
int type_number() {
  static const int n = next_type_number++;
  return n;
}

// ------------------------------------------------------------------- classes
struct class_entry {
  std::string json;
};
inline std::map<std::string, std::string> classes;  // name -> JSON

// -------------------------------------------------------------------- random
struct gen_ctx {
  std::mt19937_64 rng;
  int share = 45;   // Percentage of pointers to objects that already exist.
  int budget = 60;  // Rough number of elements left to create.
  int depth = 0;
  std::size_t long_size = 0;  // Of the next sequence of scalars, if not zero.
  // Objects created so far, by static type number, for sharing.
  std::map<int, std::vector<std::shared_ptr<void>>> pools;
  std::uint64_t next(std::uint64_t n) { return rng() % n; }
  bool chance(int percent) { return next(100) < static_cast<unsigned>(percent); }
};

// ---------------------------------------------------------------------- dump
struct dump_ctx {
  std::string out;
  std::map<const void*, int> ids;
  std::vector<std::string> heap;
};

template <typename T, typename Enable = void>
struct X;  // desc(), gen(), dump()

template <typename T>
std::string D() {
  return X<std::remove_cv_t<std::remove_reference_t<T>>>::desc();
}
template <typename T>
void G(gen_ctx& g, T& v) {
  X<T>::gen(g, v);
}
template <typename T>
void W(dump_ctx& d, const T& v) {
  X<T>::dump(d, v);
}

inline std::string bytes_of(const std::string& s) {
  std::string r = "[";
  for (std::size_t i = 0; i < s.size(); i++) {
    if (i) r += ',';
    r += std::to_string(static_cast<unsigned char>(s[i]));
  }
  return r + "]";
}
inline std::string u_of(int n) { return ",\"u\":" + std::to_string(n) + "}"; }
template <typename T>
std::string u() {
  return u_of(type_number<T>());
}

// ------------------------------------------------------------------- scalars
template <typename T>
struct X<T, std::enable_if_t<std::is_arithmetic_v<T> || std::is_enum_v<T>>> {
  static std::string desc() {
    int family = std::is_same_v<T, bool>       ? 1
                 : std::is_same_v<T, char>     ? 2
                 : std::is_integral_v<T>       ? 3
                 : std::is_floating_point_v<T> ? 4
                                               : 5;
    bool s;
    if constexpr (std::is_enum_v<T>) {
      s = std::is_signed_v<std::underlying_type_t<T>>;
    } else {
      s = family > 2 && std::is_signed_v<T>;
    }
    return "{\"k\":\"sc\",\"n\":" + std::to_string(sizeof(T)) +
           ",\"f\":" + std::to_string(family) +
           ",\"s\":" + (s ? "1" : "0") + u<T>();
  }
  static void gen(gen_ctx& g, T& v) {
    if constexpr (std::is_same_v<T, bool>) {
      v = g.next(2);
    } else {
      std::uint64_t r = 0;
      switch (g.next(6)) {
        case 0:
          r = 0;
          break;
        case 1:
          r = ~std::uint64_t{0};
          break;
        case 2:
          r = g.next(4);
          break;
        case 3:
          r = 0x0102030405060708ULL;
          break;
        default:
          r = g.rng();
      }
      std::memcpy(&v, &r, sizeof(T));
    }
    g.budget--;
  }
  static void dump(dump_ctx& d, const T& v) {
    unsigned char b[sizeof(T)];
    std::memcpy(b, &v, sizeof(T));
    if constexpr (sizeof(T) == 1) {
      d.out += std::to_string(b[0]);
    } else {
      d.out += '[';
      for (std::size_t i = 0; i < sizeof(T); i++) {
        if (i) d.out += ',';
        d.out += std::to_string(b[i]);
      }
      d.out += ']';
    }
  }
};

inline std::size_t gen_size(gen_ctx& g) {
  if (g.budget <= 0) return 0;
  switch (g.next(8)) {
    case 0:
      return 0;
    case 1:
      return 1;
    default:
      return g.next(5);
  }
}
// Strings and sequences of bytes are sometimes long enough for several bytes
// of length.
inline std::size_t gen_byte_size(gen_ctx& g) {
  switch (g.next(24)) {
    case 0:
      return 126 + g.next(5);
    case 1:
      return 250 + g.next(10);
    case 2:
      return g.chance(10) ? 16380 + g.next(10) : 300;
    default:
      return gen_size(g);
  }
}

template <typename C>
void dump_range(dump_ctx& d, const C& c) {
  d.out += '[';
  bool first = true;
  for (const auto& e : c) {
    if (!first) d.out += ',';
    first = false;
    W<std::decay_t<decltype(e)>>(d, e);
  }
  d.out += ']';
}

// ----------------------------------------------------------------- sequences
template <typename C>
struct XSeq {
  using V = typename C::value_type;
  static std::string desc() {
    return "{\"k\":\"seq\",\"t\":" + D<V>() + u<C>();
  }
  static void gen(gen_ctx& g, C& v) {
    v.clear();
    std::size_t n;
    if constexpr (std::is_arithmetic_v<V> && sizeof(V) == 1) {
      n = gen_byte_size(g);
    } else {
      n = g.depth == 0 && g.next(50) == 0 ? 120 + g.next(20) : gen_size(g);
    }
    if constexpr (std::is_arithmetic_v<V>) {
      if (g.long_size) {
        n = g.long_size;
        g.long_size = 0;
      }
    }
    if (g.depth > 6) n = 0;
    g.depth++;
    for (std::size_t i = 0; i < n; i++) {
      V e{};
      G<V>(g, e);
      v.push_back(std::move(e));
    }
    g.depth--;
  }
  static void dump(dump_ctx& d, const C& v) { dump_range(d, v); }
};
template <typename V>
struct X<std::vector<V>> : XSeq<std::vector<V>> {};
template <typename V>
struct X<std::deque<V>> : XSeq<std::deque<V>> {};
template <typename V>
struct X<std::list<V>> : XSeq<std::list<V>> {};
template <typename V>
struct X<std::basic_string<V>> : XSeq<std::basic_string<V>> {};
template <>
struct X<std::vector<bool>> : XSeq<std::vector<bool>> {
  static void dump(dump_ctx& d, const std::vector<bool>& v) {
    d.out += '[';
    for (std::size_t i = 0; i < v.size(); i++) {
      if (i) d.out += ',';
      d.out += v[i] ? '1' : '0';
    }
    d.out += ']';
  }
};

// -------------------------------------------------------------------- arrays
template <typename V, std::size_t n>
struct X<std::array<V, n>> {
  static std::string desc() {
    return "{\"k\":\"arr\",\"n\":" + std::to_string(n) + ",\"t\":" + D<V>() +
           u<std::array<V, n>>();
  }
  static void gen(gen_ctx& g, std::array<V, n>& v) {
    for (auto& e : v) G<V>(g, e);
  }
  static void dump(dump_ctx& d, const std::array<V, n>& v) {
    dump_range(d, v);
  }
};

// --------------------------------------------------------------- associative
template <typename C, bool multi>
struct XSet {
  using V = typename C::value_type;
  static std::string desc() {
    return std::string("{\"k\":\"set\",\"m\":") + (multi ? "1" : "0") +
           ",\"t\":" + D<V>() + u<C>();
  }
  static void gen(gen_ctx& g, C& v) {
    v.clear();
    std::size_t n = gen_size(g);
    for (std::size_t i = 0; i < n; i++) {
      V e{};
      G<V>(g, e);
      v.insert(std::move(e));
    }
  }
  static void dump(dump_ctx& d, const C& v) { dump_range(d, v); }
};
template <typename C>
struct keeps_order : std::false_type {};
template <typename K, typename V>
struct keeps_order<std::multimap<K, V>> : std::true_type {};

template <typename C, bool multi>
struct XMap {
  using V = std::pair<typename C::key_type, typename C::mapped_type>;
  static std::string desc() {
    return std::string("{\"k\":\"map\",\"m\":") + (multi ? "1" : "0") +
           ",\"o\":" + (keeps_order<C>::value ? "1" : "0") +
           ",\"t\":" + D<V>() + u<C>();
  }
  static void gen(gen_ctx& g, C& v) {
    v.clear();
    std::size_t n = g.depth > 6 ? 0 : gen_size(g);
    g.depth++;
    for (std::size_t i = 0; i < n; i++) {
      V e{};
      X<V>::gen(g, e);
      if (multi && !v.empty() && g.chance(40)) {
        // The same key once more.
        e.first = v.begin()->first;
      }
      v.insert(std::move(e));
    }
    g.depth--;
  }
  static void dump(dump_ctx& d, const C& v) {
    d.out += '[';
    bool first = true;
    for (const auto& e : v) {
      if (!first) d.out += ',';
      first = false;
      d.out += '[';
      W<typename C::key_type>(d, e.first);
      d.out += ',';
      W<typename C::mapped_type>(d, e.second);
      d.out += ']';
    }
    d.out += ']';
  }
};
template <typename V>
struct X<std::set<V>> : XSet<std::set<V>, false> {};
template <typename V>
struct X<std::multiset<V>> : XSet<std::multiset<V>, true> {};
template <typename V>
struct X<std::unordered_set<V>> : XSet<std::unordered_set<V>, false> {};
template <typename V>
struct X<std::unordered_multiset<V>> : XSet<std::unordered_multiset<V>, true> {
};
template <typename V>
struct X<arpc::flat_set<V>> : XSet<arpc::flat_set<V>, false> {};
template <typename V>
struct X<arpc::flat_multiset<V>> : XSet<arpc::flat_multiset<V>, true> {};
template <typename K, typename V>
struct X<std::map<K, V>> : XMap<std::map<K, V>, false> {};
template <typename K, typename V>
struct X<std::multimap<K, V>> : XMap<std::multimap<K, V>, true> {};
template <typename K, typename V>
struct X<std::unordered_map<K, V>> : XMap<std::unordered_map<K, V>, false> {};
template <typename K, typename V>
struct X<std::unordered_multimap<K, V>>
    : XMap<std::unordered_multimap<K, V>, true> {};
template <typename K, typename V>
struct X<arpc::flat_map<K, V>> : XMap<arpc::flat_map<K, V>, false> {};
template <typename K, typename V>
struct X<arpc::flat_multimap<K, V>> : XMap<arpc::flat_multimap<K, V>, true> {};

// -------------------------------------------------------------------- tuples
template <typename... T>
std::string descs() {
  std::string r = "[";
  bool first = true;
  ((r += (first ? "" : ","), first = false, r += D<T>()), ...);
  return r + "]";
}
template <typename A, typename B>
struct X<std::pair<A, B>> {
  static std::string desc() {
    return "{\"k\":\"tup\",\"ts\":" + descs<A, B>() + u<std::pair<A, B>>();
  }
  static void gen(gen_ctx& g, std::pair<A, B>& v) {
    G<A>(g, v.first);
    G<B>(g, v.second);
  }
  static void dump(dump_ctx& d, const std::pair<A, B>& v) {
    d.out += '[';
    W<A>(d, v.first);
    d.out += ',';
    W<B>(d, v.second);
    d.out += ']';
  }
};
template <typename... T>
struct X<std::tuple<T...>> {
  static std::string desc() {
    return "{\"k\":\"tup\",\"ts\":" + descs<T...>() + u<std::tuple<T...>>();
  }
  static void gen(gen_ctx& g, std::tuple<T...>& v) {
    std::apply([&g](auto&... e) { (G<std::decay_t<decltype(e)>>(g, e), ...); },
               v);
  }
  static void dump(dump_ctx& d, const std::tuple<T...>& v) {
    d.out += '[';
    bool first = true;
    std::apply(
        [&](auto&... e) {
          ((d.out += (first ? "" : ","), first = false,
            W<std::decay_t<decltype(e)>>(d, e)),
           ...);
        },
        v);
    d.out += ']';
  }
};

// ------------------------------------------------------------------ optional
template <typename T>
struct X<std::optional<T>> {
  static std::string desc() {
    return "{\"k\":\"opt\",\"t\":" + D<T>() + u<std::optional<T>>();
  }
  static void gen(gen_ctx& g, std::optional<T>& v) {
    v.reset();
    if (g.depth < 7 && g.chance(60)) {
      g.depth++;
      v.emplace();
      G<T>(g, *v);
      g.depth--;
    }
  }
  static void dump(dump_ctx& d, const std::optional<T>& v) {
    d.out += '[';
    if (v) W<T>(d, *v);
    d.out += ']';
  }
};

// -------------------------------------------------------------------- chrono
template <typename R, typename P>
struct X<std::chrono::duration<R, P>> {
  using T = std::chrono::duration<R, P>;
  static std::string desc() {
    return "{\"k\":\"dur\",\"num\":" + std::to_string(P::num) +
           ",\"den\":" + std::to_string(P::den) + u<T>();
  }
  static void gen(gen_ctx& g, T& v) {
    std::int64_t r;
    G(g, r);
    v = T(static_cast<R>(r));
  }
  static void dump(dump_ctx& d, const T& v) {
    W<std::int64_t>(d, static_cast<std::int64_t>(v.count()));
  }
};
template <typename C, typename U>
struct X<std::chrono::time_point<C, U>> {
  using T = std::chrono::time_point<C, U>;
  static std::string desc() {
    return "{\"k\":\"tp\",\"num\":" + std::to_string(U::period::num) +
           ",\"den\":" + std::to_string(U::period::den) + u<T>();
  }
  static void gen(gen_ctx& g, T& v) {
    U r;
    G(g, r);
    v = T(r);
  }
  static void dump(dump_ctx& d, const T& v) {
    W<U>(d, v.time_since_epoch());
  }
};

// ------------------------------------------------------------------ pointers
// Something else polymorphic to derive from: what's derived from has another
// address then.
template <int n>
struct side {
  virtual ~side() {}
  int padding = n;
};
// Polymorphic classes derive from this one.
struct dyn_root {
  virtual ~dyn_root() {}
  virtual const char* vf_name() const = 0;
  virtual void vf_dump(dump_ctx& d) const = 0;
  virtual void vf_gen(gen_ctx& g) = 0;
  const void* vf_address() const { return this; }
};

template <typename T>
inline constexpr bool is_dyn = std::is_base_of_v<dyn_root, T>;

// Objects that may be shared, by static type.
template <typename T>
struct pool_of {
  static std::vector<std::shared_ptr<void>>& get(gen_ctx& g) {
    return g.pools[type_number<T>()];
  }
  // Register as each of the types that may share it.
  static void add(gen_ctx& g, const std::shared_ptr<T>& p) {
    get(g).push_back(p);
  }
};

// How to make a T (for polymorphic classes, one of its subclasses).
template <typename T>
struct maker {
  static T* make(gen_ctx&) { return new T(); }
  static std::shared_ptr<T> make_shared(gen_ctx& g) {
    auto p = std::make_shared<T>();
    pool_of<T>::add(g, p);
    return p;
  }
};

template <typename T>
void gen_object(gen_ctx& g, T& v) {
  if constexpr (is_dyn<T>) {
    v.vf_gen(g);
  } else {
    G<T>(g, v);
  }
}

template <typename T>
void dump_object(dump_ctx& d, const T& v) {
  if constexpr (is_dyn<T>) {
    d.out += "{\"c\":\"";
    d.out += v.vf_name();
    d.out += "\",\"v\":";
    v.vf_dump(d);
    d.out += '}';
  } else {
    W<T>(d, v);
  }
}

template <typename T>
const void* address(const T* p) {
  if constexpr (is_dyn<T>) {
    return p->vf_address();
  } else {
    return p;
  }
}

template <typename T>
void dump_shared(dump_ctx& d, const T* p) {
  if (!p) {
    d.out += '0';
    return;
  }
  auto it = d.ids.find(address(p));
  if (it == d.ids.end()) {
    int id = static_cast<int>(d.heap.size()) + 1;
    it = d.ids.emplace(address(p), id).first;
    d.heap.emplace_back();
    std::string saved;
    saved.swap(d.out);
    if constexpr (is_dyn<T>) {
      dump_object(d, *p);
    } else {
      d.out += "{\"c\":\"\",\"v\":";
      dump_object(d, *p);
      d.out += '}';
    }
    d.heap[id - 1].swap(d.out);
    d.out.swap(saved);
    d.out += std::to_string(id);
    return;
  }
  d.out += std::to_string(it->second);
}

template <typename T>
std::string pointee_desc() {
  if constexpr (is_dyn<T>) {
    // The class itself is described in the table.
    X<T>::desc();
    return std::string("\"d\":1,\"t\":") + X<T>::desc();
  } else {
    return std::string("\"d\":0,\"t\":") + D<T>();
  }
}

template <typename T>
struct X<std::unique_ptr<T>> {
  static std::string desc() {
    return "{\"k\":\"uptr\"," + pointee_desc<T>() + u<std::unique_ptr<T>>();
  }
  static void gen(gen_ctx& g, std::unique_ptr<T>& v) {
    v.reset();
    if (g.depth < 6 && g.budget > 0 && g.chance(65)) {
      g.depth++;
      v.reset(maker<T>::make(g));
      gen_object(g, *v);
      g.depth--;
    }
  }
  static void dump(dump_ctx& d, const std::unique_ptr<T>& v) {
    d.out += '[';
    if (v) dump_object(d, *v);
    d.out += ']';
  }
};

template <typename T>
std::shared_ptr<T> gen_shared(gen_ctx& g) {
  auto& pool = pool_of<T>::get(g);
  if (!pool.empty() && g.chance(g.share)) {
    return std::static_pointer_cast<T>(pool[g.next(pool.size())]);
  }
  if (g.depth > 5 || g.budget <= 0 || g.chance(20)) return nullptr;
  g.depth++;
  std::shared_ptr<T> p = maker<T>::make_shared(g);
  gen_object(g, *p);
  g.depth--;
  return p;
}

template <typename T>
struct X<std::shared_ptr<T>> {
  static std::string desc() {
    return "{\"k\":\"sptr\"," + pointee_desc<T>() +
           ",\"pu\":" + std::to_string(is_dyn<T> ? 0 : type_number<T>()) +
           u<std::shared_ptr<T>>();
  }
  static void gen(gen_ctx& g, std::shared_ptr<T>& v) { v = gen_shared<T>(g); }
  static void dump(dump_ctx& d, const std::shared_ptr<T>& v) {
    dump_shared(d, v.get());
  }
};
template <typename T>
struct X<std::weak_ptr<T>> {
  static std::string desc() {
    return "{\"k\":\"wptr\"," + pointee_desc<T>() +
           ",\"pu\":" + std::to_string(is_dyn<T> ? 0 : type_number<T>()) +
           u<std::weak_ptr<T>>();
  }
  static void gen(gen_ctx& g, std::weak_ptr<T>& v) {
    if (g.chance(8)) {
      // Expired.
      v = std::shared_ptr<T>(maker<T>::make(g));
      return;
    }
    v = gen_shared<T>(g);
  }
  static void dump(dump_ctx& d, const std::weak_ptr<T>& v) {
    dump_shared(d, v.lock().get());
  }
};

// ------------------------------------------------------------------- classes
// Types list their parts by specializing this:
//   static const char* name;
//   template <typename F> static void bases(F f)     f(wrap<Base>{})...
//   template <typename F> static void fields(F f)    f(&T::field)...
//   template <typename F> static void customs(F f)   likewise
//   version, supers (names), registered
template <typename T>
struct parts;
template <typename T>
struct wrap {
  using type = T;
};

template <typename M>
struct member_of;
template <typename C, typename F>
struct member_of<F C::*> {
  using type = F;
};

template <typename T, typename Enable = void>
struct is_class_described : std::false_type {};
template <typename T>
struct is_class_described<T, std::void_t<decltype(parts<T>::name)>>
    : std::true_type {};

template <typename T>
struct X<T, std::enable_if_t<is_class_described<T>::value>> {
  using P = parts<T>;
  static std::string desc() {
    if constexpr (P::kind == 'a') {  // Aggregate.
      std::string r;
      P::fields([&r](auto m) {
        if (!r.empty()) r += ',';
        r += D<typename member_of<decltype(m)>::type>();
      });
      return "{\"k\":\"tup\",\"agg\":1,\"ts\":[" + r + "]" + u<T>();
    } else {
      if (classes.find(P::name) == classes.end()) {
        classes[P::name] = "";  // Break cycles.
        std::string b, f, c;
        P::bases([&b](auto w) {
          if (!b.empty()) b += ',';
          b += D<typename decltype(w)::type>();
        });
        P::fields([&f](auto m) {
          if (!f.empty()) f += ',';
          f += D<typename member_of<decltype(m)>::type>();
        });
        P::customs([&c](auto m) {
          if (!c.empty()) c += ',';
          c += D<typename member_of<decltype(m)>::type>();
        });
        std::string all = b;
        for (auto* s : {&f, &c}) {
          if (!s->empty()) all += (all.empty() ? "" : ",") + *s;
        }
        classes[P::name] =
            std::string("{\"bases\":[") + b + "],\"fields\":[" + f +
            "],\"all\":[" + all + "],\"ver\":" + std::to_string(P::version) +
            ",\"dynbase\":" + (P::dynbase ? "1" : "0") + ",\"supers\":[" +
            P::supers() + "],\"name\":" + bytes_of(P::registered) +
            u_of(type_number<T>());
      }
      return std::string("{\"k\":\"cls\",\"c\":\"") + P::name + "\"" + u<T>();
    }
  }
  static void gen(gen_ctx& g, T& v) {
    g.depth++;
    P::bases([&](auto w) {
      using B = typename decltype(w)::type;
      X<B>::gen(g, static_cast<B&>(v));
    });
    P::fields([&](auto m) {
      G<typename member_of<decltype(m)>::type>(g, v.*m);
    });
    P::customs([&](auto m) {
      G<typename member_of<decltype(m)>::type>(g, v.*m);
    });
    g.depth--;
  }
  static void dump(dump_ctx& d, const T& v) {
    d.out += '[';
    bool first = true;
    auto sep = [&]() {
      if (!first) d.out += ',';
      first = false;
    };
    P::bases([&](auto w) {
      using B = typename decltype(w)::type;
      sep();
      X<B>::dump(d, static_cast<const B&>(v));
    });
    P::fields([&](auto m) {
      sep();
      W<typename member_of<decltype(m)>::type>(d, v.*m);
    });
    P::customs([&](auto m) {
      sep();
      W<typename member_of<decltype(m)>::type>(d, v.*m);
    });
    d.out += ']';
  }
};

// ----------------------------------------------- functions (only hashed)
template <>
struct X<void> {
  static std::string desc() {
    return "{\"k\":\"sc\",\"n\":0,\"f\":0,\"s\":0" + u<void>();
  }
};
template <typename R, typename... A>
struct X<R(A...)> {
  static std::string desc() {
    return "{\"k\":\"fn\",\"s\":0,\"ts\":" + descs<R, A...>() + u<R(A...)>();
  }
};
template <typename R, typename... A>
struct X<R(A...) const> {
  static std::string desc() {
    return "{\"k\":\"fn\",\"s\":1,\"ts\":" + descs<R, A...>() +
           u<R(A...) const>();
  }
};

// ------------------------------------------------------------ type directory
using LE = arpc::little_endian_binary_encoder;
using BE = arpc::big_endian_binary_encoder;
using LD = arpc::little_endian_binary_decoder;
using BD = arpc::big_endian_binary_decoder;

struct type_ops {
  std::string cpp;
  std::string desc;
  std::function<std::shared_ptr<void>()> fresh;
  std::function<void(gen_ctx&, void*)> gen;
  std::function<void(dump_ctx&, const void*)> dump;
  std::function<void(LE&, const void*, bool)> enc_le;
  std::function<void(BE&, const void*, bool)> enc_be;
  std::function<void(LD&, void*, bool)> dec_le;
  std::function<void(BD&, void*, bool)> dec_be;
  std::uint32_t hash;
};
inline std::vector<type_ops>& directory() {
  static std::vector<type_ops> d;
  return d;
}
// Types we only have a hash of.
template <typename T>
int add_hash(const char* cpp) {
  type_ops o;
  o.cpp = cpp;
  o.desc = X<T>::desc();
  o.hash = arpc::traits::type_hash_v<T>;
  directory().push_back(o);
  return 0;
}
template <typename T>
int add_type(const char* cpp) {
  type_ops o;
  o.cpp = cpp;
  o.desc = D<T>();
  o.fresh = []() { return std::make_shared<T>(); };
  o.gen = [](gen_ctx& g, void* p) { G<T>(g, *static_cast<T*>(p)); };
  o.dump = [](dump_ctx& d, const void* p) {
    W<T>(d, *static_cast<const T*>(p));
  };
  o.enc_le = [](LE& e, const void* p, bool vs) {
    const T& v = *static_cast<const T*>(p);
    if (vs) e(v, arpc::verify_structure{}); else e(v);
  };
  o.enc_be = [](BE& e, const void* p, bool vs) {
    const T& v = *static_cast<const T*>(p);
    if (vs) e(v, arpc::verify_structure{}); else e(v);
  };
  o.dec_le = [](LD& e, void* p, bool vs) {
    T& v = *static_cast<T*>(p);
    if (vs) e(v, arpc::verify_structure{}); else e(v);
  };
  o.dec_be = [](BD& e, void* p, bool vs) {
    T& v = *static_cast<T*>(p);
    if (vs) e(v, arpc::verify_structure{}); else e(v);
  };
  o.hash = arpc::traits::type_hash_v<T>;
  directory().push_back(o);
  return 0;
}
// Encoded from a view, decoded to a string.
inline int add_view() {
  using S = std::string;
  type_ops o;
  o.cpp = "std::string_view";
  o.desc = D<S>();
  o.fresh = []() { return std::make_shared<S>(); };
  o.gen = [](gen_ctx& g, void* p) {
    if (g.chance(5) && !g.long_size) g.long_size = 65530 + g.next(10);
    G<S>(g, *static_cast<S*>(p));
  };
  o.dump = [](dump_ctx& d, const void* p) {
    W<S>(d, *static_cast<const S*>(p));
  };
  auto enc = [](auto& e, const void* p, bool vs) {
    if (vs) e(arpc::traits::type_hash_v<S>);
    e(std::string_view(*static_cast<const S*>(p)));
  };
  auto dec = [](auto& e, void* p, bool vs) {
    S& v = *static_cast<S*>(p);
    if (vs) e(v, arpc::verify_structure{}); else e(v);
  };
  o.enc_le = enc;
  o.enc_be = enc;
  o.dec_le = dec;
  o.dec_be = dec;
  o.hash = arpc::traits::type_hash_v<S>;
  directory().push_back(o);
  return 0;
}
}  // namespace vf

#endif  // VF_H_
