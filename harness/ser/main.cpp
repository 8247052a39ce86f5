// Serialization harness: exercises the encoders, decoders and type hashes with
// random values and writes what happened, one JSON object per line.
//   main SEED SESSIONS MUTATIONS MODE OUTFILE
// MODE selects what goes to the output:
//   hash     hashes of the types
//   enc      encodings of random values
//   rt       encodings, and what they are decoded to
//   obj      the same, mostly for objects with pointers among them
//   ver      decoding of verified data, often as some other type
//   mut      decoding of damaged encodings
// The first line always is the type directory.
#include <sys/resource.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include "all_roots.h"
#include "arpc/iostream_adapters.h"
#include "vf.h"

using namespace vf;

#ifdef __SANITIZE_ADDRESS__
extern "C" const char* __asan_default_options();
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:allocator_may_return_null=1";
}
#endif

namespace {

std::string hash_bytes(std::uint32_t h) {
  std::string s;
  for (int i = 0; i < 4; i++) {
    s.push_back(h & 0xff);
    h >>= 8;
  }
  return bytes_of(s);
}

struct item {
  int type;
  bool vs;
  std::shared_ptr<void> value;
};

std::string items_json(const std::vector<item>& items) {
  std::string r = "[";
  for (std::size_t i = 0; i < items.size(); i++) {
    if (i) r += ',';
    r += "{\"t\":" + std::to_string(items[i].type + 1) +
         ",\"vs\":" + (items[i].vs ? "1" : "0") + "}";
  }
  return r + "]";
}

std::string heap_json(const dump_ctx& d) {
  std::string r = "[";
  for (std::size_t i = 0; i < d.heap.size(); i++) {
    if (i) r += ',';
    r += d.heap[i];
  }
  return r + "]";
}

std::string dump_items(dump_ctx& d, const std::vector<item>& items) {
  std::string r = "[";
  for (std::size_t i = 0; i < items.size(); i++) {
    if (i) r += ',';
    d.out.clear();
    directory()[items[i].type].dump(d, items[i].value.get());
    r += d.out;
  }
  return r + "]";
}

std::string error_name() {
  try {
    throw;
  } catch (const arpc::errors::eof&) {
    return "eof";
  } catch (const arpc::errors::data_mismatch&) {
    return "data_mismatch";
  } catch (const arpc::errors::not_found&) {
    return "not_found";
  } catch (const arpc::errors::base_error& e) {
    return "error";
  } catch (const std::exception& e) {
    return "std";
  } catch (...) {
    return "unknown";
  }
}

// before, after: what to do with each item before and after its encoding.
template <typename B, typename A>
std::string encode(std::vector<item>& items, bool be, int stream, B before,
                   A after) {
  std::string out;
  std::ostringstream os;
  auto run = [&](arpc::output_stream& o) {
    if (be) {
      BE e(o);
      for (auto& i : items) {
        before(i);
        directory()[i.type].enc_be(e, i.value.get(), i.vs);
        after(i);
      }
    } else {
      LE e(o);
      for (auto& i : items) {
        before(i);
        directory()[i.type].enc_le(e, i.value.get(), i.vs);
        after(i);
      }
    }
  };
  if (stream == 0) {
    arpc::string_output_stream s(out);
    run(s);
  } else {
    {
      arpc::ostream_output_stream s(os);
      run(s);
    }
    out = os.str();
  }
  return out;
}

std::string varint(std::uint64_t n) {
  std::string r;
  for (; n > 127; n >>= 7) r.push_back(static_cast<char>(n | 0x80));
  r.push_back(static_cast<char>(n));
  return r;
}

// A decode line: what the decoder made of some input.
std::string decode(const std::vector<item>& spec, bool be, int stream,
                   const std::string& in, gen_ctx* dirty,
                   const std::string& extra) {
  std::vector<item> items = spec;
  for (auto& i : items) {
    i.value = directory()[i.type].fresh();
    if (dirty && dirty->chance(50)) {
      directory()[i.type].gen(*dirty, i.value.get());
    }
  }
  std::string res = "ok";
  std::size_t pos = 0, done = 0;
  dump_ctx d;
  std::string vals = "[]";
  std::istringstream is(in);
  arpc::string_input_stream ss(in);
  arpc::istream_input_stream si(is);
  arpc::input_stream& s =
      stream == 0 ? static_cast<arpc::input_stream&>(ss) : si;
  auto run = [&](auto& dec, auto f) {
    try {
      for (auto& i : items) {
        f(dec, i);
        done++;
      }
      // Before the decoder, which keeps objects alive, is gone.
      vals = dump_items(d, items);
    } catch (...) {
      res = error_name();
    }
  };
  if (be) {
    BD dec(s);
    run(dec, [](BD& x, item& i) {
      directory()[i.type].dec_be(x, i.value.get(), i.vs);
    });
  } else {
    LD dec(s);
    run(dec, [](LD& x, item& i) {
      directory()[i.type].dec_le(x, i.value.get(), i.vs);
    });
  }
  if (stream == 0) {
    pos = ss.pos();
  } else {
    // Count what's left.
    is.clear();
    std::string rest((std::istreambuf_iterator<char>(is)),
                     std::istreambuf_iterator<char>());
    pos = in.size() - rest.size();
  }
  return "{\"op\":\"dec\",\"be\":" + std::string(be ? "1" : "0") +
         ",\"items\":" + items_json(spec) + ",\"in\":" + bytes_of(in) +
         ",\"res\":\"" + res + "\",\"done\":" + std::to_string(done) +
         ",\"pos\":" + std::to_string(pos) + ",\"vals\":" + vals +
         ",\"heap\":" + heap_json(d) + extra + "}";
}

}  // namespace

int main(int argc, char** argv) {
  if (argc < 6) return 2;
  std::uint64_t seed = std::stoull(argv[1]);
  int sessions = std::stoi(argv[2]);
  int mutations = std::stoi(argv[3]);
  std::string mode = argv[4];
  std::ofstream out(argv[5]);
#ifndef __SANITIZE_ADDRESS__
  // Enough for everything but room made for data that never arrives.
  rlimit lim{512u << 20, 512u << 20};
  setrlimit(RLIMIT_AS, &lim);
#endif
  all_roots();
  auto& dir = directory();

  // First line: the types.
  out << "{\"op\":\"types\",\"types\":[";
  for (std::size_t i = 0; i < dir.size(); i++) {
    out << (i ? "," : "") << dir[i].desc;
  }
  out << "],\"classes\":{";
  bool first = true;
  for (auto& c : classes) {
    out << (first ? "" : ",") << "\"" << c.first << "\":" << c.second;
    first = false;
  }
  out << "}}\n";
  if (mode == "hash") {
    for (std::size_t i = 0; i < dir.size(); i++) {
      out << "{\"op\":\"hash\",\"t\":" << i + 1
          << ",\"h\":" << hash_bytes(dir[i].hash) << ",\"cpp\":\""
          << dir[i].cpp << "\"}\n";
    }
    return 0;
  }

  // Types there are values of, and those with pointers among them.
  std::vector<int> use, poly, flat;
  for (std::size_t i = 0; i < dir.size(); i++) {
    if (!dir[i].gen) continue;
    if (dir[i].desc.find("\"d\":1") != std::string::npos) poly.push_back(i);
    if (mode == "obj" && dir[i].desc.find("ptr\"") == std::string::npos &&
        dir[i].desc.find("cls\"") == std::string::npos) {
      continue;
    }
    use.push_back(i);
    if (dir[i].desc.find("{\"k\":\"seq\",\"t\":{\"k\":\"sc\"") == 0) {
      flat.push_back(i);
    }
  }

  for (int s = 0; s < sessions; s++) {
    gen_ctx g;
    if (mode == "obj") g.share = 60;
    g.rng.seed(seed * 1000003 + s);
    bool be = g.next(2);
    g.budget = g.chance(10) ? 150 : 40;
    std::vector<item> items;
    // Every type gets its turn.
    std::size_t n = g.chance(60) ? 1 : 1 + g.next(4);
    if (mode == "obj") n = 1 + g.next(5);
    // Objects that only live until they've been encoded.
    bool temporary = mode == "obj" && g.chance(20);
    if (temporary) n = 3 + g.next(4);
    for (std::size_t i = 0; i < n; i++) {
      item it;
      it.type = i == 0 ? use[s % use.size()] : use[g.next(use.size())];
      if (mode == "obj" && i > 0 && g.chance(40)) it.type = poly[g.next(poly.size())];
      if (i > 0 && g.chance(temporary ? 80 : 40)) it.type = items[0].type;
      if (s % 100 == 7 && i == 0 && !flat.empty() && mode != "mut") {
        // Long ones.
        it.type = flat[(seed + s / 100) % flat.size()];
        static const std::size_t around[] = {128, 16384, 32768, 65536, 131072};
        g.long_size = around[g.next(5)] - 3 + g.next(6);
      }
      it.vs = mode == "ver" || g.chance(25);
      it.value = dir[it.type].fresh();
      if (!temporary) dir[it.type].gen(g, it.value.get());
      items.push_back(it);
    }
    dump_ctx d;
    std::string vals = temporary ? "" : dump_items(d, items);
    int stream = g.next(2);
    std::string enc = encode(
        items, be, stream,
        [&](item& i) {
          if (!temporary) return;
          g.budget = 40;
          dir[i.type].gen(g, i.value.get());
          d.out.clear();
          dir[i.type].dump(d, i.value.get());
          vals += (vals.empty() ? "" : ",") + d.out;
        },
        [&](item& i) {
          if (!temporary) return;
          i.value.reset();
          g.pools.clear();
          d.ids.clear();
        });
    if (temporary) vals = "[" + vals + "]";
    std::string heap = heap_json(d);
    if (mode == "enc" || mode == "rt" || mode == "obj") {
      out << "{\"op\":\"enc\",\"be\":" << be << ",\"items\":"
          << items_json(items) << ",\"vals\":" << vals << ",\"heap\":" << heap
          << ",\"out\":" << bytes_of(enc) << "}\n";
    }
    if (mode == "rt" || mode == "obj") {
      // Followed by garbage that must not be touched.
      std::string in = enc;
      for (int k = g.next(4); k > 0; k--) in.push_back(g.next(256));
      out << decode(items, be, g.next(2), in, &g,
                    ",\"olen\":" + std::to_string(enc.size()) +
                        ",\"ovals\":" + vals + ",\"oheap\":" + heap)
          << "\n";
    }
    if (mode == "ver") {
      // What the hash is for: data is only taken for what it was written as.
      std::vector<item> as = items;
      item& i = as[g.next(as.size())];
      if (g.chance(70)) i.type = use[g.next(use.size())];
      out << decode(as, be, g.next(2), enc, &g, "") << "\n";
    }
    if (mode == "mut") {
      for (int k = 0; k < mutations; k++) {
        std::string in = enc;
        std::string extra;
        std::vector<item> as = items;
        switch (g.next(8)) {
          case 7: {  // Instead of a small number, one that's too large or long.
            if (in.empty()) continue;
            std::size_t p = g.next(in.size());
            unsigned char v = in[p];
            if (v > 0x7f) v &= 0x7f;
            static const int finals[] = {0, 1, 2, 0x7e};
            std::string w(1, static_cast<char>(v | 0x80));
            w.append(g.chance(50) ? 8 : g.next(10), static_cast<char>(0x80));
            w.push_back(finals[g.next(4)]);
            if (g.chance(15)) w = varint(g.rng() >> g.next(64));
            in.replace(p, 1, w);
            break;
          }
          case 6: {  // Read as something else.
            item& i = as[g.next(as.size())];
            i.type = use[g.next(use.size())];
            if (g.chance(30)) i.vs = !i.vs;
            break;
          }
          case 0:
          case 1:  // Truncation.
            if (in.empty()) continue;
            in.resize(g.next(in.size()));
            extra = ",\"trunc\":1";
            break;
          case 2:  // One byte.
            if (in.empty()) continue;
            in[g.next(in.size())] = g.next(256);
            break;
          case 3:  // Bit.
            if (in.empty()) continue;
            in[g.next(in.size())] ^= 1 << g.next(8);
            break;
          case 4: {  // Insertion or removal.
            std::size_t p = g.next(in.size() + 1);
            if (g.chance(50)) {
              in.insert(p, 1, static_cast<char>(g.next(3) ? g.next(4) : g.next(256)));
            } else {
              in.erase(p, 1 + g.next(3));
            }
            break;
          }
          case 5: {  // Mostly small garbage.
            in.clear();
            for (int j = g.next(24); j > 0; j--) {
              static const int interesting[] = {0, 1, 2, 3, 0x7f, 0x80, 0x81, 0xff};
              in.push_back(g.chance(70) ? interesting[g.next(8)] : g.next(256));
            }
            break;
          }
        }
        out << decode(as, be, g.next(2), in, g.chance(30) ? &g : nullptr, extra)
            << "\n";
      }
    }
  }
  return 0;
}
