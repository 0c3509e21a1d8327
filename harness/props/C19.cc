// C19: Hash<B> equals SHA3-B however the message is split.
// vp: fuzz=60
#include <scl/hash.h>

#include "models.h"
using namespace vp;
const char* vp::kRule =
    "messages of 0..600 bytes (in the long_pieces arm 65 to 200 thousand; random, constant, single-byte-set), cut into random pieces (empty, unaligned, block sized) and fed as raw "
    "pointers or vectors; digest compared with a FIPS-202 model. Non-trivial: message longer than 8 bytes and at least two pieces.";

template <std::size_t B>
static void run(Case& c) {
  std::size_t rate = 200 - B / 4;
  std::size_t n;
  switch (c.weighted({4, 3, 2})) {
    case 0: n = c.range(0, 40); break;
    case 1: n = rate * c.range(1, 3) + c.range(0, 18) - 9; break;
    default: n = c.range(0, c.chance(1, 8) ? 5000 : 600);
  }
  std::vector<unsigned char> m;
  auto kind = c.weighted({4, 1, 2});
  if (kind == 0) m = c.bytes(n);
  else if (kind == 1) m.assign(n, (unsigned char)c.range(0, 255));
  else {
    m.assign(n, 0);
    if (n) m[c.range(0, n - 1)] = (unsigned char)(1 + c.range(0, 254));
  }
  scl::details::Hash<B> h;
  std::size_t pos = 0, pieces = 0;
  auto style = c.weighted({1, 3, 2, 2});
  std::string cuts;
  while (pos < n || c.chance(1, 4)) {
    std::size_t left = n - pos, k;
    switch (style) {
      case 0: k = left; break;
      case 1: k = c.range(0, 17); break;
      case 2: k = 8 * c.range(0, 40); break;
      default: k = c.range(0, 300);
    }
    if (pieces > 400) k = left;
    k = std::min(k, left);
    // exact-size heap copy, so that reads outside the piece are caught
    std::vector<unsigned char> piece(m.begin() + pos, m.begin() + pos + k);
    if (c.flip()) h.Update(piece);
    else {
      std::size_t off = c.range(0, 7);
      std::vector<unsigned char> sh(off + k);
      std::copy(piece.begin(), piece.end(), sh.begin() + off);
      auto& r = h.Update(sh.data() + off, k);
      VP_CHECK(&r == &h, "Update returns another object");
    }
    pos += k;
    pieces++;
    if (cuts.size() < 300) cuts += std::to_string(k) + ",";
    if (pieces > 600) break;
  }
  c.note("SHA3-", B, " message ", n, " bytes ", hex(m).substr(0, 80), " pieces ", cuts);
  c.interesting(n > 8 && pieces > 1);
  c.label(n >= rate ? "multi-block" : "one block");
  auto d = h.Finalize();
  auto e = sha3::hash(B, m);
  VP_CHECK(std::vector<unsigned char>(d.begin(), d.end()) == e, "digest ", hex(d.data(), d.size()), " expected ", hex(e));
}
VP_ARM_FUZZ(sha3_256, 1500, 20000, 260, 1) { run<256>(c); }
VP_ARM_FUZZ(sha3_384, 1500, 20000, 260, 1) { run<384>(c); }
VP_ARM_FUZZ(sha3_512, 1500, 20000, 260, 1) { run<512>(c); }

// messages and pieces longer than two bytes count
template <unsigned B>
static void long_pieces(Case& c) {
  std::size_t n = c.flip() ? c.range(65500, 66000) : c.range(66001, 200000);
  Rng r = c.rng();
  std::vector<unsigned char> m(n);
  for (auto& b : m) b = (unsigned char)r.next();
  std::size_t lead = c.flip() ? 0 : c.range(1, 300), tail = c.flip() ? 0 : c.range(1, 300);
  c.note("SHA3-", B, " message of ", n, " bytes in pieces of ", lead, ", ", n - lead - tail, ", ", tail);
  c.interesting();
  scl::details::Hash<B> h;
  h.Update(m.data(), lead);
  if (c.flip()) h.Update(m.data() + lead, n - lead - tail);
  else h.Update(std::vector<unsigned char>(m.begin() + (long)lead, m.end() - (long)tail));
  h.Update(m.data() + n - tail, tail);
  auto d = h.Finalize();
  auto e = sha3::hash(B, m);
  VP_CHECK(std::vector<unsigned char>(d.begin(), d.end()) == e, "digest ", hex(d.data(), d.size()), " expected ", hex(e));
}
VP_ARM(long_pieces, 10, 300, 40, 0.5) {
  switch (c.range(0, 2)) {
    case 0: return long_pieces<256>(c);
    case 1: return long_pieces<384>(c);
    default: return long_pieces<512>(c);
  }
}

// two hash objects fed alternately, and copies of a partly fed object, do not influence each other
VP_ARM(interleaved_objects, 800, 8000, 120, 1) {
  auto m1 = c.bytes(c.range(0, 200)), m2 = c.bytes(c.range(0, 200));
  scl::Hash256 a;
  scl::Hash512 b;
  std::size_t i = 0, j = 0, cp = c.range(0, 200);
  scl::Hash256 copy;
  bool copied = false;
  while (i < m1.size() || j < m2.size()) {
    if (!copied && i >= cp) {
      copy = a;
      copied = true;
      copy.Update(m1.data() + i, m1.size() - i);
    }
    std::size_t k = std::min<std::size_t>(c.range(0, 20), m1.size() - i), l = std::min<std::size_t>(1 + c.range(0, 20), m2.size() - j);
    if (j >= m2.size()) k = std::min<std::size_t>(k + 1, m1.size() - i);
    a.Update(m1.data() + i, k);
    b.Update(m2.data() + j, l);
    i += k;
    j += l;
  }
  c.note(m1.size(), " and ", m2.size(), " bytes");
  c.interesting(m1.size() > 8 && m2.size() > 8);
  auto e1 = sha3::hash(256, m1), e2 = sha3::hash(512, m2);
  auto d1 = a.Finalize();
  VP_CHECK(std::equal(e1.begin(), e1.end(), d1.begin()), "first object");
  auto d2 = b.Finalize();
  VP_CHECK(std::equal(e2.begin(), e2.end(), d2.begin()), "second object");
  if (copied) {
    auto d3 = copy.Finalize();
    VP_CHECK(std::equal(e1.begin(), e1.end(), d3.begin()), "copy");
  }
}
