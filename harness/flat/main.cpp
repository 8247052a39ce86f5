// Flat container harness: main SEED N OUTFILE.  One session per line: the
// operations on a few containers of the same type, with their results and
// what the container holds after each.
#include <cstdint>
#include <fstream>
#include <iterator>
#include <list>
#include <random>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include "arpc/container/flat_map.h"
#include "arpc/container/flat_set.h"

namespace {
std::mt19937_64 rng;
int next(int n) { return static_cast<int>(rng() % n); }
bool chance(int p) { return next(100) < p; }

// A key: compared by k only; t tells equivalent ones apart.  Moved from, it is
// nothing.
struct K {
  std::string s;
  K() : s("0:0") {}
  K(int k, int t) : s(std::to_string(k) + ":" + std::to_string(t)) {}
  int k() const { return s.empty() ? -1 : std::stoi(s); }
  int t() const { return s.empty() ? -1 : std::stoi(s.substr(s.find(':') + 1)); }
};
struct V {
  std::string s;
  V() : s("0") {}
  explicit V(int v) : s(std::to_string(v)) {}
};
struct cmp {
  int mode = 0;
  bool operator()(const K& a, const K& b) const {
    switch (mode) {
      case 0:
        return a.k() < b.k();
      case 1:
        return a.k() > b.k();
      default:
        return a.k() % mode < b.k() % mode;
    }
  }
};

std::string J(const K& k) {
  return "[" + std::to_string(k.k()) + "," + std::to_string(k.t()) + ",0]";
}
std::string J(const std::pair<K, V>& p) {
  return "[" + std::to_string(p.first.k()) + "," + std::to_string(p.first.t()) +
         "," + (p.second.s.empty() ? "-1" : p.second.s) + "]";
}

template <typename C>
std::string contents(const C& c) {
  std::string r = "[";
  for (auto it = c.begin(); it != c.end(); ++it) {
    if (it != c.begin()) r += ',';
    r += J(*it);
  }
  return r + "]";
}

int tag = 1;
template <typename C>
struct is_map {
  template <typename D>
  static std::true_type test(typename D::mapped_type*);
  template <typename D>
  static std::false_type test(...);
  static constexpr bool value = decltype(test<C>(nullptr))::value;
};
template <typename C>
typename C::value_type element(int keys) {
  int k = next(keys);
  if constexpr (is_map<C>::value) {
    return {K(k, tag++), V(next(100) + 1)};
  } else {
    return K(k, tag++);
  }
}
template <typename E>
std::string Js(const std::vector<E>& v) {
  std::string r = "[";
  for (std::size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + J(v[i]);
  return r + "]";
}

template <typename C, bool multi>
void session(std::ostream& out) {
  using E = typename C::value_type;
  constexpr bool map = is_map<C>::value;
  int keys = 2 + next(12);
  std::vector<C> c;
  std::string ops;
  bool first = true;
  auto emit = [&](int slot, const std::string& body) {
    ops += (first ? "" : ",") + std::string("{") + body +
           ",\"c\":" + std::to_string(slot + 1) + ",\"after\":" + contents(c[slot]) + "}";
    first = false;
  };
  auto name = [](const char* n) { return std::string("\"o\":\"") + n + "\""; };
  auto num = [](const char* n, long v) {
    return std::string(",\"") + n + "\":" + std::to_string(v);
  };
  auto elements = [&](int max) {
    std::vector<E> v;
    if (chance(8)) max = 60;
    for (int i = next(max + 1); i > 0; i--) v.push_back(element<C>(keys));
    return v;
  };
  c.reserve(20);
  auto make = [&]() {
    int m = next(3);
    if (m == 2) m = 2 + next(4);
    cmp f;
    f.mode = m;
    std::vector<E> v;
    switch (next(4)) {
      case 0:
        c.emplace_back(f);
        break;
      case 1:
        v = elements(8);
        c.emplace_back(v.begin(), v.end(), f);
        break;
      case 2: {
        v = elements(8);
        std::list<E> l(v.begin(), v.end());
        c.emplace_back(l.begin(), l.end(), f);
        break;
      }
      case 3: {
        while (v.size() != 3) v = elements(6);
        c.emplace_back(std::initializer_list<E>{v[0], v[1], v[2]}, f);
        break;
      }
    }
    emit(c.size() - 1, name("new") + num("cmp", m) + ",\"es\":" + Js(v));
  };
  make();
  if (chance(60)) make();
  int steps = 4 + next(26);
  for (int s = 0; s < steps; s++) {
    int i = next(c.size());
    C& x = c[i];
    const C& cx = x;
    auto pos = [&](auto it) { return static_cast<long>(it - cx.begin()) + 1; };
    switch (next(24)) {
      case 0: case 1: case 2: {
        E e = element<C>(keys);
        std::string je = J(e);
        const char* how = "insert";
        long p, ok = 1;
        auto res = [&](auto r) {
          if constexpr (multi) {
            p = pos(typename C::const_iterator(r));
          } else {
            p = pos(typename C::const_iterator(r.first));
            ok = r.second;
          }
        };
        switch (next(4)) {
          case 0: {
            const E& ce = e;
            res(x.insert(ce));
            break;
          }
          case 1:
            res(x.insert(std::move(e)));
            break;
          case 2:
            if constexpr (map) {
              res(x.emplace(e.first, e.second));
            } else {
              res(x.emplace(e.k(), e.t()));
            }
            break;
          case 3: {
            how = "insert_hint";
            auto hint = cx.begin() + next(cx.size() + 1);
            typename C::const_iterator r;
            if (chance(35)) {
              const E& ce = e;
              r = x.insert(hint, ce);
            } else if (chance(50)) {
              r = x.insert(hint, std::move(e));
            } else if constexpr (map) {
              r = x.emplace_hint(hint, e.first, e.second);
            } else {
              r = x.emplace_hint(hint, e.k(), e.t());
            }
            p = pos(r);
            break;
          }
        }
        emit(i, name(how) + ",\"e\":" + je + num("p", p) + num("ok", ok));
        break;
      }
      case 3: {
        auto v = elements(5);
        if (chance(50)) {
          x.insert(v.begin(), v.end());
        } else {
          while (v.size() < 2) v.push_back(element<C>(keys));
          v.resize(2, v[0]);
          x.insert({v[0], v[1]});
        }
        emit(i, name("insert_all") + ",\"es\":" + Js(v));
        break;
      }
      case 4: case 5: {
        int k = next(keys);
        long n = x.erase(K(k, 0));
        emit(i, name("erase_key") + num("k", k) + num("n", n));
        break;
      }
      case 6: {
        if (x.empty()) break;
        int p = next(x.size());
        long r = pos(typename C::const_iterator(x.erase(cx.begin() + p)));
        emit(i, name("erase") + num("from", p + 1) + num("to", p + 2) + num("p", r));
        break;
      }
      case 7: {
        int a = next(x.size() + 1), b = a + next(x.size() + 1 - a);
        long r = pos(typename C::const_iterator(x.erase(cx.begin() + a, cx.begin() + b)));
        emit(i, name("erase") + num("from", a + 1) + num("to", b + 1) + num("p", r));
        break;
      }
      case 8: case 9: case 10: {
        int k = next(keys + 1);
        K key(k, 0);
        bool k_const = chance(50);
        long f, l, u, e1, e2, n;
        if (k_const) {
          f = pos(cx.find(key)); l = pos(cx.lower_bound(key)); u = pos(cx.upper_bound(key));
          auto r = cx.equal_range(key);
          e1 = pos(r.first); e2 = pos(r.second);
        } else {
          using CI = typename C::const_iterator;
          f = pos(CI(x.find(key))); l = pos(CI(x.lower_bound(key))); u = pos(CI(x.upper_bound(key)));
          auto r = x.equal_range(key);
          e1 = pos(CI(r.first)); e2 = pos(CI(r.second));
        }
        n = cx.count(key);
        emit(i, name("look") + num("k", k) + num("f", f) + num("l", l) + num("u", u) +
                    num("e1", e1) + num("e2", e2) + num("n", n));
        break;
      }
      case 11: case 12: case 13: {
        if constexpr (map && !multi) {
          int k = next(keys + 1), t = tag++;
          if (chance(40)) {
            std::string r = "[]";
            try {
              r = chance(50) ? "[" + cx.at(K(k, t)).s + "]" : "[" + x.at(K(k, t)).s + "]";
            } catch (const std::out_of_range&) {
            }
            emit(i, name("at") + num("k", k) + ",\"v\":" + r);
          } else {
            K key(k, t);
            V& v = chance(50) ? x[key] : x[K(k, t)];
            std::string old = v.s;
            int nv = chance(50) ? std::stoi(old) : next(100) + 1;
            v = V(nv);
            emit(i, name("index") + num("k", k) + num("t", t) + ",\"v\":" + old + num("nv", nv));
          }
        }
        break;
      }
      case 14: {
        if (c.size() > 12) break;
        C copy(x);
        c.push_back(copy);
        emit(c.size() - 1, name("copy") + num("from", i + 1));
        break;
      }
      case 15: {
        if (c.size() > 12) break;
        C tmp(x);
        C moved(std::move(tmp));
        c.push_back(std::move(moved));
        emit(c.size() - 1, name("copy") + num("from", i + 1));
        break;
      }
      case 16: {
        int j = next(c.size());
        x = static_cast<const C&>(c[j]);
        emit(i, name("copy") + num("from", j + 1));
        break;
      }
      case 17: {
        int j = next(c.size());
        C tmp(c[j]);
        x = std::move(tmp);
        emit(i, name("copy") + num("from", j + 1));
        break;
      }
      case 18: {
        int j = next(c.size());
        if (i == j) break;
        x.swap(c[j]);
        emit(i, name("swap") + num("with", j + 1) + ",\"other\":" + contents(c[j]));
        break;
      }
      case 19: {
        std::vector<E> v;
        while (v.size() != 4) v = elements(7);
        x = {v[0], v[1], v[2], v[3]};
        emit(i, name("assign") + ",\"es\":" + Js(v));
        break;
      }
      case 20: {
        if (!chance(30)) break;
        x.clear();
        emit(i, name("clear"));
        break;
      }
      case 21: case 22: {
        // Everything that just looks at all of it.
        std::vector<E> back(cx.rbegin(), cx.rend());
        std::vector<E> cfor(cx.cbegin(), cx.cend());
        int a = next(keys), b = next(keys);
        bool kc = cx.key_comp()(K(a, 0), K(b, 0));
        bool vc;
        if constexpr (map) {
          vc = cx.value_comp()(E(K(a, 0), V()), E(K(b, 0), V()));
        } else {
          vc = cx.value_comp()(K(a, 0), K(b, 0));
        }
        emit(i, name("scan") + ",\"back\":" + Js(back) + ",\"fwd\":" + Js(cfor) +
                    num("n", cx.size()) + num("empty", cx.empty()) + num("a", a) +
                    num("b", b) + num("kc", kc) + num("vc", vc));
        break;
      }
      case 23: {
        x.reserve(x.size() + next(30));
        if (chance(50)) x.shrink_to_fit();
        emit(i, name("nothing"));
        break;
      }
    }
  }
  out << "{\"op\":\"flat\",\"multi\":" << multi << ",\"map\":" << map << ",\"ops\":[" << ops << "]}\n";
}
}  // namespace

int main(int argc, char** argv) {
  if (argc < 4) return 2;
  rng.seed(std::stoull(argv[1]));
  int n = std::stoi(argv[2]);
  std::ofstream out(argv[3]);
  for (int i = 0; i < n; i++) {
    switch (i % 4) {
      case 0:
        session<arpc::flat_set<K, cmp>, false>(out);
        break;
      case 1:
        session<arpc::flat_multiset<K, cmp>, true>(out);
        break;
      case 2:
        session<arpc::flat_map<K, V, cmp>, false>(out);
        break;
      case 3:
        session<arpc::flat_multimap<K, V, cmp>, true>(out);
        break;
    }
  }
  return 0;
}
