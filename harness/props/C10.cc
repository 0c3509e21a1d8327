// vp: flavours=align fuzz=60
// C10: byte serialization.
#include "scl_util.h"
using namespace vp;
const char* vp::kRule =
    "elements of both prime fields and Z2k (K around every byte boundary), vectors of 0..9 and matrices of up to 6x6 of them (in the long_* arms also around 256 and 65536 entries, or sides of hundreds), written to and read from "
    "exact-size heap blocks at every alignment 0..15 with canary bytes; bytes compared with the little-endian residues, byte strings read are arbitrary "
    "(unreduced). Built with ASan and UBSan including alignment. Non-trivial: more than one element, or an unaligned or unreduced source.";

template <typename T>
static u128 residue(const unsigned char* p) {
  u128 v = 0;
  for (std::size_t i = 0; i < T::ByteSize(); i++) v |= u128(p[i]) << (8 * i);
  u128 m = Mod<T>::m();
  return m ? v % m : v;
}
// a heap block whose end is the end of the n bytes at offset off
struct Buf {
  std::size_t off, n;
  std::unique_ptr<unsigned char[]> b;
  Buf(std::size_t o, std::size_t k, unsigned char fill) : off(o), n(k), b(new unsigned char[o + k]) { std::fill(b.get(), b.get() + o + k, fill); }
  unsigned char* p() { return b.get() + off; }
};
template <typename T>
static std::vector<unsigned char> arbitrary(Case& c, std::size_t count, bool big) {
  std::vector<unsigned char> v;
  if (big) {
    v.resize(count * T::ByteSize());
    Rng r = c.rng();
    for (auto& b : v) b = (unsigned char)r.next();
  } else
    v = c.bytes(count * T::ByteSize());
  // some elements all-ones, zero, or close to the modulus
  u64 sel = c.word();
  for (std::size_t i = 0; i < count; i++, sel >>= 2) {
    unsigned char* p = v.data() + i * T::ByteSize();
    if ((sel & 3) == 1) std::fill(p, p + T::ByteSize(), 0xff);
    if ((sel & 3) == 2) {
      u128 x = Mod<T>::m() + ((sel >> 5) % 5) - 2;
      for (std::size_t j = 0; j < T::ByteSize(); j++) p[j] = (unsigned char)(x >> (8 * j));
    }
  }
  return v;
}

template <typename T>
static void check_bytes(const std::vector<u128>& vals, const unsigned char* p, const char* what) {
  for (std::size_t i = 0; i < vals.size(); i++)
    for (std::size_t j = 0; j < T::ByteSize(); j++)
      VP_CHECK(p[i * T::ByteSize() + j] == (unsigned char)(vals[i] >> (8 * j)), what, ": element ", i, " byte ", j, " is ", (int)p[i * T::ByteSize() + j], " for value ", str(vals[i]));
}

template <typename T>
static void all(Case& c, bool big = false) {
  std::size_t off = c.range(0, 15), off2 = c.range(0, 15);
  auto shape = big ? c.range(1, 2) : c.weighted({2, 3, 3});
  std::size_t n = shape == 0 ? 1 : shape == 1 ? c.range(0, 9) : c.range(1, 6);
  std::size_t m = shape == 2 ? c.range(1, 6) : 1;
  if (big) {
    n = c.flip() ? c.range(250, 300) : c.chance(1, 3) ? c.range(65530, 65545) : c.range(301, 3000);
    if (shape == 2) {
      m = n > 3000 ? 1 : c.range(1, 4);
      if (c.chance(1, 3)) n = c.range(2, 40), m = c.range(2, 40);  // many entries, short sides
      if (c.flip()) std::swap(n, m);
    }
  }
  std::size_t cnt = n * m, bytes = cnt * T::ByteSize();
  VP_CHECK(T::ByteSize() == (T::BitSize() + 7) / 8, "declared size");
  auto src = arbitrary<T>(c, cnt, big);
  Buf in(off, bytes, 0x77);
  std::copy(src.begin(), src.end(), in.p());
  std::vector<u128> vals;
  bool unred = false;
  for (std::size_t i = 0; i < cnt; i++) {
    vals.push_back(residue<T>(src.data() + i * T::ByteSize()));
    for (std::size_t j = 0; j < T::ByteSize(); j++) unred |= src[i * T::ByteSize() + j] != (unsigned char)(vals.back() >> (8 * j));
  }
  c.note(T::Name(), T::BitSize(), " shape ", shape, " ", n, "x", m, " src off ", off, " dst off ", off2, " bytes ", hex(src).substr(0, 160));
  c.interesting(cnt > 1 || unred || off % T::ByteSize() != 0);
  if (unred) c.label("unreduced source");
  unsigned char fill = (unsigned char)c.range(0, 255);
  Buf out(off2, bytes, fill), out2(off2, bytes, (unsigned char)~fill);
  auto canary = [&](const char* what) {
    for (std::size_t i = 0; i < off2; i++) VP_CHECK(out.b[i] == fill && out2.b[i] == (unsigned char)~fill, what, " wrote before its destination");
    for (std::size_t i = 0; i < bytes; i++) VP_CHECK(out.p()[i] == out2.p()[i], what, " left byte ", i, " unwritten");
    for (std::size_t i = 0; i < bytes; i++) VP_CHECK(in.p()[i] == src[i], what, " changed its source");
  };
  if (shape == 0) {
    T e = T::Read(in.p());
    VP_CHECK(e.ToString() == str(vals[0]), "read ", e.ToString(), " expected ", str(vals[0]));
    e.Write(out.p());
    e.Write(out2.p());
    canary("element");
    check_bytes<T>(vals, out.p(), "element");
    VP_CHECK(T::Read(out.p()) == e, "element does not round-trip");
  } else if (shape == 1) {
    auto v = scl::Vec<T>::Read(n, in.p());
    VP_CHECK(v.Size() == n && v.ByteSize() == bytes, "size ", v.Size(), " byte size ", v.ByteSize());
    for (std::size_t i = 0; i < n; i++) VP_CHECK(v[i].ToString() == str(vals[i]), "entry ", i, " is ", v[i], " expected ", str(vals[i]));
    v.Write(out.p());
    v.Write(out2.p());
    canary("vector");
    check_bytes<T>(vals, out.p(), "vector");
    VP_CHECK(scl::Vec<T>::Read(n, out.p()).Equals(v), "vector does not round-trip");
  } else {
    auto a = scl::Mat<T>::Read(n, m, in.p());
    VP_CHECK(a.Rows() == n && a.Cols() == m && a.ByteSize() == bytes, "shape ", a.Rows(), "x", a.Cols());
    for (std::size_t i = 0; i < n; i++)
      for (std::size_t j = 0; j < m; j++) VP_CHECK(a(i, j).ToString() == str(vals[i * m + j]), "entry ", i, ",", j, " is ", a(i, j), " expected ", str(vals[i * m + j]));
    a.Write(out.p());
    a.Write(out2.p());
    canary("matrix");
    check_bytes<T>(vals, out.p(), "matrix");
    VP_CHECK(scl::Mat<T>::Read(n, m, out.p()).Equals(a), "matrix does not round-trip");
  }
}

// values computed rather than read: what is written is the canonical residue
template <typename T>
static void computed(Case& c) {
  auto A = ar<T>();
  u128 a = gen_val<T>(c), b = gen_val<T>(c);
  T x = mk<T>(a), y = mk<T>(b);
  std::vector<u128> e = {A.add(a, b), A.sub(a, b), A.mul(a, b), A.neg(a), A.sub(0, A.mul(b, b))};
  scl::Vec<T> v{x + y, x - y, x * y, -x, T() - y * y};
  c.note(T::Name(), T::BitSize(), " ", str(a), ",", str(b));
  c.interesting(a > 1 && b > 1);
  Buf out(c.range(0, 15), v.ByteSize(), 0);
  v.Write(out.p());
  check_bytes<T>(e, out.p(), "computed vector");
  VP_CHECK(scl::Vec<T>::Read(5, out.p()).Equals(v), "round trip of computed values");
}

VP_ARM(long_61, 60, 1500, 20, 0.7) { all<F61>(c, true); }
VP_ARM(long_127, 40, 1000, 20, 0.5) { all<F127>(c, true); }
VP_ARM(long_rings, 60, 1500, 20, 0.5) {
  if (c.flip()) all<scl::Z2k<62>>(c, true);
  else all<scl::Z2k<7>>(c, true);
}
VP_ARM_FUZZ(prime61, 12000, 150000, 20, 1) { all<F61>(c); }
VP_ARM_FUZZ(prime127, 12000, 150000, 20, 1) { all<F127>(c); }
VP_ARM_FUZZ(rings, 30000, 300000, 20, 2) {
  switch (c.range(0, 15)) {
    case 0: all<scl::Z2k<1>>(c); break;
    case 1: all<scl::Z2k<8>>(c); break;
    case 2: all<scl::Z2k<9>>(c); break;
    case 3: all<scl::Z2k<16>>(c); break;
    case 4: all<scl::Z2k<23>>(c); break;
    case 5: all<scl::Z2k<32>>(c); break;
    case 6: all<scl::Z2k<33>>(c); break;
    case 7: all<scl::Z2k<48>>(c); break;
    case 8: all<scl::Z2k<62>>(c); break;
    case 9: all<scl::Z2k<64>>(c); break;
    case 10: all<scl::Z2k<65>>(c); break;
    case 11: all<scl::Z2k<72>>(c); break;
    case 12: all<scl::Z2k<100>>(c); break;
    case 13: all<scl::Z2k<120>>(c); break;
    case 14: all<scl::Z2k<127>>(c); break;
    default: all<scl::Z2k<128>>(c); break;
  }
}
VP_ARM(computed_values, 20000, 200000, 20, 1) {
  switch (c.range(0, 6)) {
    case 0: computed<F61>(c); break;
    case 1: computed<F127>(c); break;
    case 2: computed<scl::Z2k<5>>(c); break;
    case 3: computed<scl::Z2k<17>>(c); break;
    case 4: computed<scl::Z2k<64>>(c); break;
    case 5: computed<scl::Z2k<66>>(c); break;
    default: computed<scl::Z2k<128>>(c); break;
  }
}
