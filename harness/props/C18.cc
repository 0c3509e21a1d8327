// C18: PRG = AES-128 counter mode.
// vp: flavours=asan,opt arms_asan=histories,no_repeats,long_streams arms_opt=counter_range budget=40 case_timeout=200
#include <scl/prg.h>

#include "models.h"
using namespace vp;
const char* vp::kRule =
    "random seeds (or none) and histories of up to 14 operations: requests of 0..200 bytes (some of several KiB) through all four Next forms, Reset, "
    "copies and assignments of generators, over-long requests; bytes compared with a FIPS-197 AES-128 model over counter blocks nonce||counter; one stream per worker of up to 2^32 blocks (opt) with the first and last block of every request compared. "
    "Non-trivial: at least two non-empty requests, one of them not a multiple of the block size.";

struct Model {
  std::array<aes::Block, 11> rk;
  u64 ctr = PRG_INITIAL_COUNTER;
  std::vector<unsigned char> next(std::size_t n) {
    std::vector<unsigned char> o;
    std::size_t blocks = (n + 15) / 16;
    for (std::size_t i = 0; i < blocks; i++) {
      aes::Block b;
      for (int j = 0; j < 8; j++) {
        b[j] = (unsigned char)(ctr >> (8 * j));
        b[8 + j] = (unsigned char)((u64)PRG_NONCE >> (8 * j));
      }
      b = aes::encrypt(rk, b);
      o.insert(o.end(), b.begin(), b.end());
      ctr++;
    }
    o.resize(n);
    return o;
  }
};

VP_ARM(histories, 6000, 60000, 90, 3) {
  std::vector<scl::PRG> g;
  std::vector<Model> m;
  auto fresh = [&] {
    Model mm;
    aes::Block s{};
    if (c.chance(3, 4)) {
      auto b = c.bytes(16);
      if (c.chance(1, 6)) b.assign(16, 0xff);
      // exact-size heap block
      std::copy(b.begin(), b.end(), s.begin());
      g.emplace_back(b.data());
    } else
      g.emplace_back();
    mm.rk = aes::expand(s);
    m.push_back(mm);
    c.note("new ", hex(s.data(), 16));
    VP_CHECK(std::equal(s.begin(), s.end(), g.back().Seed()), "Seed()");
  };
  g.reserve(8);
  fresh();
  std::size_t n = c.range(1, 14), reqs = 0;
  bool odd = false;
  for (std::size_t k = 0; k < n; k++) {
    std::size_t i = c.range(0, g.size() - 1);
    switch (c.weighted({8, 2, 2, 1, 2, 1})) {
      case 0: {
        std::size_t len = c.weighted({3, 2, 1}) == 0 ? c.range(0, 40) : c.chance(1, 12) ? c.range(0, 6000) : c.range(0, 200);
        reqs += len > 0;
        odd |= len % 16 != 0;
        auto form = c.range(0, 3);
        c.note("gen ", i, " next ", len, " form ", form);
        auto e = m[i].next(len);
        std::vector<unsigned char> got;
        if (form == 0) got = g[i].Next(len);
        else if (form == 1) {
          got.assign(len, 0xAA);
          g[i].Next(got);
        } else {
          std::size_t pre = c.range(0, 17), post = c.range(0, 17);
          std::vector<unsigned char> buf(pre + len + post, 0x5C);
          if (form == 2) g[i].Next(buf.data() + pre, len);
          else {
            pre = 0;
            g[i].Next(buf, len);
          }
          for (std::size_t j = 0; j < buf.size(); j++)
            VP_CHECK((j >= pre && j < pre + len) || buf[j] == 0x5C, "byte ", j, " outside the request of ", len, " bytes was written");
          got.assign(buf.begin() + pre, buf.begin() + pre + len);
        }
        VP_CHECK(got == e, "request of ", len, " bytes gave ", hex(got).substr(0, 200), " expected ", hex(e).substr(0, 200));
        break;
      }
      case 1:
        c.note("reset ", i);
        g[i].Reset();
        m[i].ctr = PRG_INITIAL_COUNTER;
        break;
      case 2:
        if (g.size() < 7) {
          c.note("copy of ", i);
          g.push_back(g[i]);
          m.push_back(m[i]);
        }
        break;
      case 3:
        if (g.size() < 7) fresh();
        break;
      case 4: {
        std::size_t j = c.range(0, g.size() - 1);
        c.note("assign ", i, "=", j);
        g[i] = g[j];
        m[i] = m[j];
        break;
      }
      default: {
        std::vector<unsigned char> buf(c.range(0, 40), 0x11);
        std::size_t want = buf.size() + c.range(1, 40);
        if (c.flip()) buf.reserve(want + c.range(0, 40));  // room that is not part of the destination
        c.note("overlong ", want, " into ", buf.size());
        c.label("over-long request");
        VP_CHECK(throws([&] { g[i].Next(buf, want); }), "request of ", want, " bytes into ", buf.size(), " accepted");
        for (auto b : buf) VP_CHECK(b == 0x11, "rejected request wrote to the destination");
      }
    }
    VP_CHECK((u64)g[i].Counter() == m[i].ctr, "Counter() is ", g[i].Counter(), " expected ", m[i].ctr);
  }
  c.interesting(reqs >= 2 && odd);
}

// no output block occurs twice; equal seeds agree, different seeds differ
VP_ARM(no_repeats, 1500, 5000, 40, 1) {
  auto s = c.bytes(16);
  scl::PRG a(s.data()), b(s.data());
  auto s2 = s;
  s2[c.range(0, 15)] ^= (unsigned char)(1u << c.range(0, 7));
  scl::PRG d(s2.data());
  std::set<std::string> seen;
  c.note("seed ", hex(s));
  c.interesting();
  std::size_t n = c.range(2, 25);
  for (std::size_t i = 0; i < n; i++) {
    std::size_t len = c.range(1, 300);
    auto x = a.Next(len), y = b.Next(len), z = d.Next(len);
    VP_CHECK(x == y, "equal seeds differ");
    if (len >= 16) VP_CHECK(x != z, "different seeds agree");
    for (std::size_t o = 0; o + 16 <= len; o += 16)
      VP_CHECK(seen.insert(hex(x.data() + o, 16)).second, "output block repeated in request ", i);
  }
}

// long streams: blocks far from the start (past 2^16 counter values) are still AES of their own counter
VP_ARM(long_streams, 12, 150, 60, 1) {
  auto s = c.bytes(16);
  scl::PRG g(s.data());
  Model m;
  aes::Block k;
  std::copy(s.begin(), s.end(), k.begin());
  m.rk = aes::expand(k);
  std::size_t n = c.range(1, 3);
  for (std::size_t i = 0; i < n; i++) {
    std::size_t len = c.range(600000, 1300000);
    c.note("request ", len);
    auto v = g.Next(len);
    u64 start = m.ctr;
    for (int q = 0; q < 12; q++) {
      u64 b = c.range(0, (len - 1) / 16);
      if (q == 0) b = (len - 1) / 16;
      if (q < 4 && start < 65536 && start + (len - 1) / 16 > 65540) b = 65536 - start + q - 1;
      m.ctr = start + b;
      auto e = m.next(16);
      for (std::size_t j = 0; j < 16 && 16 * b + j < len; j++) VP_CHECK(v[16 * b + j] == e[j], "block ", start + b, " differs from AES of its counter");
    }
    m.ctr = start + (len + 15) / 16;
    VP_CHECK((u64)g.Counter() == m.ctr, "Counter()");
  }
  c.interesting();
}

// one stream over more than 2^32 blocks: the counter is as wide as the stream is long
VP_ARM(counter_range, 1, 1, 40, 1) {
  auto s = c.bytes(16);
  scl::PRG g(s.data());
  Model m;
  aes::Block k;
  std::copy(s.begin(), s.end(), k.begin());
  m.rk = aes::expand(k);
  u64 bits = 32 - c.range(0, 7);
  if (c.range(0, 3)) bits = 32;  // smaller when shrinking
  std::size_t chunk = (std::size_t)1 << c.range(16, 18);
  c.note("stream of 2^", bits, " blocks in requests of ", chunk, " bytes, then some");
  c.interesting();
  std::vector<unsigned char> v(chunk);
  auto at = [&](u64 i, std::size_t blk) {
    m.ctr = i + blk;
    auto e = m.next(16);
    VP_CHECK(std::equal(e.begin(), e.end(), v.begin() + 16 * blk), "block ", i + blk, " differs from AES of its counter");
  };
  for (u64 i = 0; i < ((u64)1 << bits) + 2 * chunk / 16; i += chunk / 16) {
    g.Next(v.data(), chunk);
    at(PRG_INITIAL_COUNTER + i, 0);
    at(PRG_INITIAL_COUNTER + i, chunk / 16 - 1);
  }
  // and with short requests from there on
  u64 ctr = (u64)g.Counter();
  for (int i = 0; i < 20; i++) {
    std::size_t len = c.range(1, 100);
    g.Next(v.data(), len);
    m.ctr = ctr;
    auto e = m.next(len);
    VP_CHECK(std::equal(e.begin(), e.end(), v.begin()), "short request after 2^", bits, " blocks");
    ctr += (len + 15) / 16;
  }
}
