// C09: Z2k<K> for every K in 1..128 against integers modulo 2^K.
#include "scl_util.h"
using namespace vp;
const char* vp::kRule =
    "K drawn from 1..128 (all widths instantiated, storage boundaries favoured); register programs of up to 10 operations over 3 elements made "
    "from values (with arbitrary garbage above bit K), bytes, text or earlier results, operands may alias; every register is compared with "
    "integers modulo 2^K through printing, serialization, equality and Lsb after every step. Non-trivial: a product or inverse of elements other than 0 and 1.";

// The registers of one program, behind a K-independent interface (keeps 128 instantiations small).
static const std::size_t R = 3;
struct Regs {
  virtual ~Regs() {}
  virtual void set(std::size_t i, u128 x) = 0;              // value constructor, possibly unreduced
  virtual void read(std::size_t i, const unsigned char*) = 0;
  virtual void parse(std::size_t i, const std::string&) = 0;
  virtual bool apply(unsigned op, std::size_t a, std::size_t b, std::size_t d) = 0;  // false: assignment operator returned another object
  virtual void write(std::size_t i, unsigned char*) = 0;
  virtual std::string text(std::size_t i) = 0;
  virtual void stream(std::size_t i, std::ostream&) = 0;
  virtual unsigned lsb(std::size_t i) = 0;
  virtual unsigned eq(std::size_t i, u128 x) = 0;     // bits: ==, reversed ==, Equal, !=
  virtual unsigned eqr(std::size_t i, std::size_t j) = 0;
  virtual void sizes(std::size_t s[3]) = 0;
};
template <std::size_t K>
struct RegsK final : Regs {
  using T = scl::Z2k<K>;
  using V = typename T::ValueType;
  T r[R];
  void set(std::size_t i, u128 x) override { r[i] = T((V)x); }
  void read(std::size_t i, const unsigned char* p) override { r[i] = T::Read(p); }
  void parse(std::size_t i, const std::string& s) override { r[i] = T::FromString(s); }
  bool apply(unsigned op, std::size_t a, std::size_t b, std::size_t d) override {
    T* q = &r[a];
    switch (op) {
      case 0: r[d] = r[a] + r[b]; break;
      case 1: q = &(r[a] += r[b]); break;
      case 2: r[d] = r[a] - r[b]; break;
      case 3: q = &(r[a] -= r[b]); break;
      case 4: r[d] = r[a] * r[b]; break;
      case 5: q = &(r[a] *= r[b]); break;
      case 6: r[d] = r[a] / r[b]; break;
      case 7: q = &(r[a] /= r[b]); break;
      case 8: r[d] = -r[a]; break;
      case 9: q = &r[a].Negate(); break;
      case 10: r[d] = r[a].Negated(); break;
      case 12: q = &r[a].Invert(); break;
      case 13: r[d] = r[a].Inverse(); break;
      case 16: r[d] = r[a]; break;
    }
    return q == &r[a];
  }
  void write(std::size_t i, unsigned char* p) override { r[i].Write(p); }
  std::string text(std::size_t i) override { return r[i].ToString(); }
  void stream(std::size_t i, std::ostream& o) override { o << r[i]; }
  unsigned lsb(std::size_t i) override { return r[i].Lsb(); }
  unsigned eq(std::size_t i, u128 x) override {
    T f((V)x);
    return (r[i] == f) | (f == r[i]) << 1 | r[i].Equal(f) << 2 | (r[i] != f) << 3;
  }
  unsigned eqr(std::size_t i, std::size_t j) override { return (r[i] == r[j]) | (r[j] == r[i]) << 1 | r[i].Equal(r[j]) << 2 | (r[i] != r[j]) << 3; }
  void sizes(std::size_t s[3]) override {
    s[0] = T::ByteSize();
    s[1] = T::BitSize();
    s[2] = T::SpecifiedBitSize();
  }
};
template <std::size_t... I>
static std::unique_ptr<Regs> make(std::size_t k, std::index_sequence<I...>) {
  using Fn = std::unique_ptr<Regs> (*)();
  static const Fn t[] = {+[]() -> std::unique_ptr<Regs> { return std::make_unique<RegsK<I + 1>>(); }...};
  return t[k - 1]();
}

static void program(Case& c, std::size_t K) {
  auto regs = make(K, std::make_index_sequence<128>{});
  const u128 mask = K == 128 ? ~u128(0) : ((u128(1) << (K % 128)) - 1);
  std::size_t sz[3];
  regs->sizes(sz);
  const std::size_t nb = (K + 7) / 8;
  VP_CHECK(sz[0] == nb && sz[1] == K && sz[2] == K, "sizes for K=", K);
  auto value = [&](std::size_t i) {
    std::vector<unsigned char> b(nb);  // exact size
    regs->write(i, b.data());
    u128 v = 0;
    for (std::size_t j = 0; j < nb; j++) v |= u128(b[j]) << (8 * j);
    return v;
  };
  auto canon = [&](std::size_t i, u128 v, const char* what) {
    VP_CHECK(value(i) == v, what, " K=", K, " serialized ", str(value(i)), " expected ", str(v));
    VP_CHECK(regs->text(i) == str(v), what, " K=", K, " prints ", regs->text(i), " expected ", str(v));
    std::ostringstream o;
    regs->stream(i, o);
    VP_CHECK(o.str() == str(v), what, " K=", K, " stream output ", o.str());
    VP_CHECK(regs->lsb(i) == (unsigned)(v & 1), what, " K=", K, " Lsb of ", str(v), " is ", regs->lsb(i));
    VP_CHECK(regs->eq(i, v) == 7, what, " K=", K, " not equal to its residue ", str(v));
    u128 g = v ^ (u128(1) << c.range(0, K - 1));
    VP_CHECK(regs->eq(i, g) == 8, what, " K=", K, " ", str(v), " equals ", str(g));
  };
  std::vector<u128> v(R, 0);
  for (std::size_t i = 0; i < R; i++) {
    u128 x = c.u128e();
    if (K <= 64) x = (u64)x;
    switch (c.weighted({3, 2})) {
      case 0: regs->set(i, x); break;  // unreduced
      default: {
        std::vector<unsigned char> b(nb);  // bits above K in the last byte are left as they are
        for (std::size_t j = 0; j < nb; j++) b[j] = (unsigned char)(x >> (8 * j));
        regs->read(i, b.data());
      }
    }
    v[i] = x & mask;
    c.note("K", K, " r", i, "=", str(x));
    canon(i, v[i], "initial");
  }
  auto inv = [&](u128 a) {  // Newton, bit by bit doubling from 1
    u128 z = 1;
    for (int i = 0; i < 8; i++) z = z * (2 - a * z);
    return z & mask;
  };
  std::size_t n = c.range(1, 10);
  for (std::size_t k = 0; k < n; k++) {
    std::size_t a = c.range(0, R - 1), b = c.range(0, R - 1), d = c.range(0, R - 1);
    unsigned op = (unsigned)c.range(0, 16);
    if (op == 14) op = 13;
    u128 va = v[a], vb = v[b];
    if (op >= 4 && op <= 7 && va > 1 && vb > 1) c.interesting();
    if (op >= 12 && op <= 13 && va > 1 && (va & 1)) c.interesting(), c.label("inverse");
    c.note("op", op, "(", a, ",", b, ")->", d);
    if (((op == 6 || op == 7) && !(vb & 1)) || ((op == 12 || op == 13) && !(va & 1))) {
      c.label("even divisor");
      VP_CHECK(throws([&] { regs->apply(op, a, b, d); }), "inverting the even ", str(op < 8 ? vb : va), " accepted, K=", K);
    } else if (op == 11) {
      VP_CHECK(regs->eqr(a, b) == (va == vb ? 7u : 8u), "K=", K, " comparison");
    } else if (op == 15) {
      regs->parse(d, str(va));
      v[d] = va;
    } else {
      VP_CHECK(regs->apply(op, a, b, d), "operator ", op, " returned another object");
      switch (op) {
        case 0: v[d] = (va + vb) & mask; break;
        case 1: v[a] = (va + vb) & mask; break;
        case 2: v[d] = (va - vb) & mask; break;
        case 3: v[a] = (va - vb) & mask; break;
        case 4: v[d] = (va * vb) & mask; break;
        case 5: v[a] = (va * vb) & mask; break;
        case 6: v[d] = (va * inv(vb)) & mask; break;
        case 7: v[a] = (va * inv(vb)) & mask; break;
        case 8: v[d] = (0 - va) & mask; break;
        case 9: v[a] = (0 - va) & mask; break;
        case 10: v[d] = (0 - va) & mask; break;
        case 12: v[a] = inv(va); break;
        case 13: v[d] = inv(va); break;
        case 16: v[d] = va; break;
      }
    }
    for (std::size_t i = 0; i < R; i++) VP_CHECK(value(i) == v[i], "K=", K, " register ", i, " is ", str(value(i)), " expected ", str(v[i]), " after op ", op);
  }
  for (std::size_t i = 0; i < R; i++) canon(i, v[i], "final");
}

VP_ARM(programs, 22000, 400000, 60, 1) {
  std::size_t k;
  switch (c.weighted({3, 2})) {
    case 0: k = c.range(1, 128); break;
    default: k = c.pick(std::vector<std::size_t>{1, 2, 4, 5, 7, 8, 9, 31, 32, 33, 62, 63, 64, 65, 66, 127, 128});
  }
  c.label(k <= 5 ? "K<=5" : k < 64 ? "K<64" : k == 64 ? "K=64" : k < 128 ? "64<K<128" : "K=128");
  program(c, k);
}
