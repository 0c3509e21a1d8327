// Helpers over scl's element types: conversions to and from model values, small test fields.
#ifndef VP_SCL_UTIL_H
#define VP_SCL_UTIL_H
#include <scl/math.h>

#include <memory>

#include "models.h"

namespace vp {

using F61 = scl::FF<61>;
using F127 = scl::FF<127>;

// A prime field of tiny order, so that coincidences (zero pivots, cancellations, repeated points) are common.
template <unsigned Q>
struct TinyField {
  using ValueType = unsigned char;
  constexpr static const char* kName = "Tiny";
  constexpr static const std::size_t kByteSize = 1;
  constexpr static const std::size_t kBitSize = 8;
  static ValueType FromInt(int v) { return (ValueType)(((v % (int)Q) + (int)Q) % (int)Q); }
  static void Add(ValueType& t, const ValueType& v) { t = (ValueType)((t + v) % Q); }
  static void Subtract(ValueType& t, const ValueType& v) { t = (ValueType)((t + Q - v) % Q); }
  static void Multiply(ValueType& t, const ValueType& v) { t = (ValueType)((t * v) % Q); }
  static void Negate(ValueType& t) { t = (ValueType)((Q - t) % Q); }
  static void Invert(ValueType& t) {
    if (!t) throw std::logic_error("0 not invertible");
    for (unsigned i = 1; i < Q; i++)
      if (i * t % Q == 1) {
        t = (ValueType)i;
        return;
      }
  }
  static bool Equal(const ValueType& a, const ValueType& b) { return a == b; }
  static void ToBytes(unsigned char* dest, const ValueType& src) { *dest = src; }
  static void FromBytes(ValueType& dest, const unsigned char* src) { dest = (ValueType)(*src % Q); }
  static void FromString(ValueType& dest, const std::string& s, scl::NumberBase) {
    unsigned v = 0;
    for (char ch : s) v = (v * 10 + (unsigned)(ch - '0')) % Q;
    dest = (ValueType)v;
  }
  static std::string ToString(const ValueType& v) { return std::to_string((unsigned)v); }
};
template <unsigned Q>
using Tiny = scl::details::FF<0, TinyField<Q>>;

// modulus of a type; 0 stands for 2^128
template <typename T>
struct Mod;
template <>
struct Mod<F61> {
  static u128 m() { return P61; }
  static constexpr bool field = true;
};
template <>
struct Mod<F127> {
  static u128 m() { return P127; }
  static constexpr bool field = true;
};
template <unsigned Q>
struct Mod<scl::details::FF<0, TinyField<Q>>> {
  static u128 m() { return Q; }
  static constexpr bool field = true;
};
template <std::size_t K>
struct Mod<scl::Z2k<K>> {
  static u128 m() { return K == 128 ? 0 : u128(1) << (K % 128); }
  static constexpr bool field = false;
};

// model arithmetic with modulus m (0 = 2^128)
struct Ar {
  u128 m;
  bool pow2() const { return (m & (m - 1)) == 0 && (m == 0 || m > 2); }
  u128 red(u128 a) const { return m ? a % m : a; }
  u128 add(u128 a, u128 b) const { return m ? addmod(a, b, m) : a + b; }
  u128 sub(u128 a, u128 b) const { return m ? submod(a, b, m) : a - b; }
  u128 neg(u128 a) const { return sub(0, a); }
  u128 mul(u128 a, u128 b) const {
    if (m == 0) return a * b;
    if ((m & (m - 1)) == 0) return (a * b) & (m - 1);
    return mulmod(a, b, m);
  }
  u128 pow(u128 a, u128 e) const {
    u128 r = red(1);
    while (e) {
      if (e & 1) r = mul(r, a);
      a = mul(a, a);
      e >>= 1;
    }
    return r;
  }
};
template <typename T>
Ar ar() {
  return Ar{Mod<T>::m()};
}

template <typename T>
T mk(u128 v) {
  v = ar<T>().red(v);
  // exact-size heap block: reads beyond it are caught
  std::unique_ptr<unsigned char[]> b(new unsigned char[T::ByteSize()]);
  for (std::size_t i = 0; i < T::ByteSize(); i++) b[i] = i < 16 ? (unsigned char)(v >> (8 * i)) : 0;
  return T::Read(b.get());
}
template <typename T>
u128 val(const T& e) {
  unsigned char b[32] = {0};
  e.Write(b);
  u128 v = 0;
  for (std::size_t i = 0; i < T::ByteSize(); i++) v |= u128(b[i]) << (8 * i);
  return v;
}
// random residue with boundary bias
template <typename T>
u128 gen_val(Case& c) {
  u128 m = Mod<T>::m();
  switch (c.weighted({2, 2, 1, 4})) {
    case 0: return ar<T>().red(c.range(0, 3));
    case 1: return ar<T>().sub(0, ar<T>().red(c.range(1, 3)));
    case 2: return ar<T>().red(u128(1) << c.range(0, 127));
    default: {
      u128 h = c.word();
      u128 v = (h << 64) | c.word();
      return m ? v % m : v;
    }
  }
}
// cheap residue from one tape word: small, or spread over the whole range
template <typename T>
u128 gen_elem(Case& c) {
  u64 w = c.word();
  if (w % 4 == 0) return ar<T>().red((w >> 2) % 4);
  if (w % 16 == 1) return ar<T>().sub(0, ar<T>().red(1 + (w >> 4) % 3));
  Rng r(w);
  return ar<T>().red(r.next128());
}

}  // namespace vp
#endif
