// Codec and packet harness: main SEED N MODE OUTFILE, MODE among cobs, mac,
// hash, pkt.  Writes what happened, one JSON object per line.
#include <cstdint>
#include <fstream>
#include <random>
#include <sstream>
#include <string>
#include <vector>
#include "arpc/errors.h"
#include "arpc/highway_hash.h"
#include "arpc/iostream_adapters.h"
#include "arpc/packet_codecs.h"
#include "arpc/packet_protocols.h"
#include "arpc/string_adapters.h"

namespace {
std::mt19937_64 rng;
std::uint64_t next(std::uint64_t n) { return rng() % n; }
bool chance(int p) { return next(100) < static_cast<unsigned>(p); }

std::string B(const std::string& s) {
  std::string r = "[";
  for (std::size_t i = 0; i < s.size(); i++) {
    if (i) r += ',';
    r += std::to_string(static_cast<unsigned char>(s[i]));
  }
  return r + "]";
}
std::string W(const std::uint64_t* w, int n) {
  std::string r = "[";
  for (int i = 0; i < n; i++) {
    std::string b;
    for (int j = 0; j < 8; j++) b.push_back(w[i] >> (8 * j));
    r += (i ? "," : "") + B(b);
  }
  return r + "]";
}

std::string error_name() {
  try {
    throw;
  } catch (const arpc::errors::eof&) {
    return "eof";
  } catch (const arpc::errors::data_mismatch&) {
    return "data_mismatch";
  } catch (const arpc::errors::out_of_range&) {
    return "out_of_range";
  } catch (...) {
    return "other";
  }
}

// Data with runs of all interesting lengths.
std::string data(std::size_t max) {
  std::string r;
  int kind = next(6);
  std::size_t n = kind == 0 ? next(4) : next(max + 1);
  while (r.size() < n) {
    if (kind < 3) {
      r.push_back(chance(30) ? 0 : rng());
    } else if (kind == 3) {
      r.push_back(1 + next(255));
    } else {
      static const int runs[] = {0, 1, 2, 252, 253, 254, 255, 256, 507, 508, 509};
      int k = runs[next(11)];
      for (int i = 0; i < k; i++) r.push_back(1 + next(255));
      if (chance(70)) r.push_back(0);
      if (chance(30)) break;
    }
  }
  return r;
}

// Long, and mostly without zeros.
std::string long_data(std::size_t n) {
  std::string r;
  while (r.size() < n) r.push_back(chance(1) && chance(20) ? 0 : 1 + next(255));
  return r;
}

// Passes on what was written to it when it's flushed.
struct held_stream : arpc::output_stream {
  std::string& out;
  std::string held;
  explicit held_stream(std::string& o) : out(o) {}
  void write(const char* p, std::size_t l) override { held.append(p, l); }
  void putc(char c) override { held.push_back(c); }
  void flush() override {
    out += held;
    held.clear();
  }
};

std::string damage(std::string s) {
  switch (next(5)) {
    case 0:
      if (!s.empty()) s[next(s.size())] = rng();
      break;
    case 1:
      if (!s.empty()) s[next(s.size())] ^= 1 << next(8);
      break;
    case 2:
      if (!s.empty()) s.erase(next(s.size()), 1 + next(3));
      break;
    case 3:
      s.insert(next(s.size() + 1), 1, next(3) ? next(4) : rng());
      break;
    case 4:
      s.resize(next(s.size() + 1));
      break;
  }
  return s;
}

void cobs_dec(std::ostream& out, const std::string& in) {
  std::string s = in;
  std::string res = "ok";
  try {
    arpc::cobs_codec().decode(s);
  } catch (...) {
    res = error_name();
  }
  out << "{\"op\":\"cobs_dec\",\"in\":" << B(in) << ",\"res\":\"" << res
      << "\",\"out\":" << B(res == "ok" ? s : "") << "}\n";
}

std::string cobs_enc(std::ostream& out, const std::string& in) {
  std::string s = in;
  arpc::cobs_codec().encode(s);
  out << "{\"op\":\"cobs_enc\",\"in\":" << B(in) << ",\"out\":" << B(s) << "}\n";
  return s;
}

void all_strings(std::ostream& out, std::string& s, std::size_t max) {
  cobs_dec(out, s);
  cobs_enc(out, s);
  if (s.size() == max) return;
  for (int c : {0, 1, 2, 3, 5, 255}) {
    s.push_back(c);
    all_strings(out, s, max);
    s.pop_back();
  }
}

template <typename P>
void serial(std::ostream& out, P proto_s, P proto_r, std::size_t max) {
  std::string line, frames, sent;
  int n = 1 + next(4);
  bool io = chance(50);
  for (int i = 0; i < n; i++) {
    std::string d = data(max > 1000 ? 300 : max > 100 ? 200 : 20);
    std::string one;
    if (io) {
      std::ostringstream os;
      {
        arpc::ostream_output_stream s(os);
        proto_s.send(s, d);
      }
      one = os.str();
    } else if (chance(50)) {
      held_stream s(one);
      proto_s.send(s, d);
    } else {
      arpc::string_output_stream s(one);
      proto_s.send(s, d);
    }
    frames += (i ? "," : "") + B(one);
    sent += (i ? "," : "") + B(d);
    line += one;
  }
  bool clean = chance(35) && max > 1000;
  if (!clean) {
    if (chance(20)) line.insert(0, data(30));
    for (int k = next(4); k > 0; k--) line = damage(line);
  }
  std::string results;
  arpc::string_input_stream in(line);
  for (int i = 0; i < 4000; i++) {
    std::string res = "ok", got;
    try {
      got = proto_r.receive(in);
    } catch (...) {
      res = error_name();
    }
    results += (i ? "," : "") + std::string("{\"res\":\"") + res +
               "\",\"p\":" + std::to_string(in.pos()) + ",\"data\":" + B(got) + "}";
    if (res == "eof" || res == "other") break;
  }
  out << "{\"op\":\"serial\",\"max\":" << (max > 1000 ? 1000000 : max)
      << ",\"clean\":" << clean << ",\"sent\":[" << sent << "],\"frames\":["
      << frames << "],\"line\":" << B(line) << ",\"results\":[" << results
      << "]}\n";
}

template <typename P>
void stream(std::ostream& out, P proto_s, P proto_r) {
  std::string line, frames, sent;
  int n = 1 + next(4);
  for (int i = 0; i < n; i++) {
    std::string d = data(400);
    std::string one;
    if (chance(50)) {
      held_stream s(one);
      proto_s.send(s, d);
    } else {
      arpc::string_output_stream s(one);
      proto_s.send(s, d);
    }
    frames += (i ? "," : "") + B(one);
    sent += (i ? "," : "") + B(d);
    line += one;
  }
  bool clean = chance(50);
  if (!clean) {
    for (int k = next(3); k > 0; k--) line = damage(line);
  }
  std::string results;
  arpc::string_input_stream in(line);
  for (int i = 0;; i++) {
    std::string res = "ok", got;
    try {
      got = proto_r.receive(in);
    } catch (...) {
      res = error_name();
    }
    results += (i ? "," : "") + std::string("{\"res\":\"") + res +
               "\",\"p\":" + std::to_string(in.pos()) + ",\"data\":" + B(got) + "}";
    if (res != "ok" || i > 4000) break;
  }
  out << "{\"op\":\"stream\",\"clean\":" << clean << ",\"sent\":[" << sent
      << "],\"frames\":[" << frames << "],\"line\":" << B(line)
      << ",\"results\":[" << results << "]}\n";
}

void random_key(std::uint64_t key[4]) {
  for (int i = 0; i < 4; i++) key[i] = chance(10) ? 0 : rng();
}
const std::uint8_t* u8(const std::string& s) {
  return reinterpret_cast<const std::uint8_t*>(s.data());
}
}  // namespace

int main(int argc, char** argv) {
  if (argc < 5) return 2;
  rng.seed(std::stoull(argv[1]));
  int n = std::stoi(argv[2]);
  std::string mode = argv[3];
  std::ofstream out(argv[4]);
  if (mode == "cobs") {
    std::string s;
    all_strings(out, s, 4);
    for (int i = 0; i < n; i++) {
      std::string d = data(700);
      std::string e = cobs_enc(out, d);
      cobs_dec(out, e);
      cobs_dec(out, damage(e));
      cobs_dec(out, damage(damage(e)));
    }
    for (int i = 0; i < 8; i++) {
      static const int around[] = {4096, 32768, 254 * 255, 65536};
      std::string d = long_data(around[i % 4] - 5 + next(600));
      std::string e = cobs_enc(out, d);
      cobs_dec(out, e);
      cobs_dec(out, damage(e));
    }
  }
  if (mode == "mac") {
    for (int i = 0; i < n; i++) {
      std::uint64_t key[4];
      random_key(key);
      arpc::mac_codec c(key);
      std::string d = data(i % 10 ? 70 : 300), e = d;
      if (i % 100 == 99) e = d = long_data((i % 200 < 100 ? 1020 : 4090) + next(20));
      c.encode(e);
      out << "{\"op\":\"mac_enc\",\"key\":" << W(key, 4) << ",\"in\":" << B(d)
          << ",\"out\":" << B(e) << "}\n";
      for (int k = 0; k < 3; k++) {
        std::string in = k == 0 ? e : k == 1 && !e.empty() ? e : damage(e);
        if (k == 1) in[next(in.size())] ^= 1 << next(8);
        if (chance(5)) in = in.substr(0, next(9));
        std::uint64_t key2[4] = {key[0], key[1], key[2], key[3]};
        if (chance(10)) key2[next(4)] ^= std::uint64_t{1} << next(64);
        arpc::mac_codec c2(key2);
        std::string dec = in, res = "ok";
        try {
          c2.decode(dec);
        } catch (...) {
          res = error_name();
        }
        out << "{\"op\":\"mac_dec\",\"key\":" << W(key2, 4) << ",\"in\":" << B(in)
            << ",\"res\":\"" << res << "\",\"out\":" << B(res == "ok" ? dec : "")
            << "}\n";
      }
    }
  }
  if (mode == "hash") {
    for (int i = 0; i < n; i++) {
      std::uint64_t key[4], h[4];
      random_key(key);
      // All lengths around one, two and three packets, in one go.
      std::string d;
      for (int k = i < 110 ? i : next(200); k > 0; k--) d.push_back(rng());
      if (i % 30 == 29) d = long_data(1000 + next(100));
      int bits = 64 << next(3);
      if (bits == 64) {
        h[0] = arpc::highway_hash::hash64(u8(d), d.size(), key);
      } else if (bits == 128) {
        arpc::highway_hash::hash128(u8(d), d.size(), key, h);
      } else {
        arpc::highway_hash::hash256(u8(d), d.size(), key, h);
      }
      out << "{\"op\":\"hash1\",\"key\":" << W(key, 4) << ",\"data\":" << B(d)
          << ",\"bits\":" << bits << ",\"h\":" << W(h, bits / 64) << "}\n";
      // In pieces, with results in between.
      arpc::highway_hash hh(key);
      out << "{\"op\":\"hash\",\"key\":" << W(key, 4) << ",\"ops\":[";
      int steps = 1 + next(6);
      for (int s = 0; s < steps; s++) {
        std::string c;
        for (int k = chance(20) ? 32 * next(3) : next(chance(50) ? 12 : 70); k > 0; k--) c.push_back(rng());
        hh.append(u8(c), c.size());
        out << (s ? "," : "") << "{\"o\":\"append\",\"d\":" << B(c) << "}";
        if (chance(25) || s == steps - 1) {
          int b = 64 << next(3);
          if (b == 64) {
            h[0] = hh.finish64();
          } else if (b == 128) {
            hh.finish128(h);
          } else {
            hh.finish256(h);
          }
          out << ",{\"o\":\"finish\",\"bits\":" << b << ",\"d\":" << W(h, b / 64) << "}";
        }
        if (s < steps - 1 && chance(8)) {
          random_key(key);
          hh.reset(key);
          out << ",{\"o\":\"reset\",\"d\":" << W(key, 4) << "}";
        }
      }
      out << "]}\n";
    }
  }
  if (mode == "pkt") {
    for (int i = 0; i < n; i++) {
      switch (next(5)) {
        case 0:
        case 1:
          serial(out, arpc::serial_line_packet_protocol<>(),
                 arpc::serial_line_packet_protocol<>(), 1000000);
          break;
        case 2: {
          using P = arpc::serial_line_packet_protocol<25>;
          serial(out, P(), P(), 25);
          break;
        }
        case 3: {
          using P = arpc::serial_line_packet_protocol<200>;
          serial(out, P(), P(), 200);
          break;
        }
        case 4:
          if (chance(50)) {
            using P = arpc::protected_stream_packet_protocol<>;
            stream(out, P(), P());
          } else {
            using P = arpc::protected_stream_packet_protocol<
                arpc::big_endian_binary_encoder, arpc::big_endian_binary_decoder>;
            stream(out, P(), P());
          }
          break;
      }
    }
  }
  return 0;
}
