// C08: Mersenne prime fields against integer arithmetic.
#include "scl_util.h"
using namespace vp;
const char* vp::kRule =
    "register programs of up to 12 operations over 4 field elements (boundary-biased: 0,1,2,p-1.., powers of two, random), every operator form, "
    "operands may alias; every register is compared, canonically, with integers modulo p after every step. Elements are made from ints, bytes "
    "(reduced or not), text and previous results. Non-trivial: at least one product or quotient of operands other than 0 and 1.";

template <typename T>
static void canon(const T& e, u128 v, const char* what) {
  VP_CHECK(val(e) == v, what, " serialized value ", str(val(e)), " expected ", str(v));
  std::string s = e.ToString();
  VP_CHECK(s == str(v), what, " prints ", s, " expected ", str(v));
  std::ostringstream o;
  o << e;
  VP_CHECK(o.str() == s, what, " stream output ", o.str());
  T f = mk<T>(v);
  VP_CHECK(e == f && f == e && e.Equal(f) && !(e != f), what, " not equal to the element read from its bytes");
  T g = mk<T>(ar<T>().add(v, 1));
  VP_CHECK(e != g && !(e == g) && !e.Equal(g), what, " equal to its successor");
}

template <typename T>
static void program(Case& c) {
  auto A = ar<T>();
  const std::size_t R = 4;
  std::vector<T> r(R);
  std::vector<u128> v(R, 0);
  for (std::size_t i = 0; i < R; i++) {
    switch (c.weighted({4, 2, 1})) {
      case 0:
        v[i] = gen_val<T>(c);
        r[i] = mk<T>(v[i]);
        break;
      case 1: {
        int k = (int)c.u64e();
        if (c.chance(1, 8)) k = c.flip() ? INT32_MIN : INT32_MAX;
        r[i] = T(k);
        v[i] = k < 0 ? A.sub(0, A.red((u128)(-(i64)k))) : A.red((u128)k);
        break;
      }
      default: {
        // unreduced byte string
        u128 x = c.u128e();
        unsigned char b[16];
        for (int j = 0; j < 16; j++) b[j] = (unsigned char)(x >> (8 * j));
        r[i] = T::Read(b);
        if (T::ByteSize() == 8) x = (u64)x;
        v[i] = x % A.m;
      }
    }
    c.note("r", i, "=", str(v[i]));
    canon(r[i], v[i], "initial");
  }
  std::size_t n = c.range(1, 12);
  for (std::size_t k = 0; k < n; k++) {
    std::size_t a = c.range(0, R - 1), b = c.range(0, R - 1), d = c.range(0, R - 1);
    auto op = c.range(0, 17);
    if ((op == 4 || op == 5 || op == 6 || op == 7) && v[a] > 1 && v[b] > 1) c.interesting();
    if (op == 6 || op == 7 || op == 13 || op == 14 || op == 15) c.label(v[op >= 13 ? a : b] == 0 ? "inverse of zero" : "inverse");
    if (a == b) c.label("aliased");
    c.note("op", op, "(", a, ",", b, ")->", d);
    auto inv = [&](u128 x) { return A.pow(x, A.m - 2); };
    T ra = r[a], rb = r[b];
    u128 va = v[a], vb = v[b];
    switch (op) {
      case 0: r[d] = r[a] + r[b]; v[d] = A.add(va, vb); break;
      case 1: { auto& q = (r[a] += r[b]); VP_CHECK(&q == &r[a], "+= result"); v[a] = A.add(va, vb); break; }
      case 2: r[d] = r[a] - r[b]; v[d] = A.sub(va, vb); break;
      case 3: { auto& q = (r[a] -= r[b]); VP_CHECK(&q == &r[a], "-= result"); v[a] = A.sub(va, vb); break; }
      case 4: r[d] = r[a] * r[b]; v[d] = A.mul(va, vb); break;
      case 5: { auto& q = (r[a] *= r[b]); VP_CHECK(&q == &r[a], "*= result"); v[a] = A.mul(va, vb); break; }
      case 6:
        if (vb == 0) VP_CHECK(throws([&] { r[d] = r[a] / r[b]; }), "division by zero accepted");
        else { r[d] = r[a] / r[b]; v[d] = A.mul(va, inv(vb)); }
        break;
      case 7:
        if (vb == 0) VP_CHECK(throws([&] { r[a] /= r[b]; }), "division by zero accepted");
        else { r[a] /= r[b]; v[a] = A.mul(va, inv(vb)); }
        break;
      case 8: r[d] = -r[a]; v[d] = A.neg(va); break;
      case 9: r[a].Negate(); v[a] = A.neg(va); break;
      case 10: r[d] = r[a].Negated(); v[d] = A.neg(va); break;
      case 11: VP_CHECK((r[a] == r[b]) == (va == vb), "=="); VP_CHECK((r[a] != r[b]) == (va != vb), "!="); break;
      case 12: r[d] = r[a]; v[d] = va; break;
      case 13:
        if (va == 0) VP_CHECK(throws([&] { r[a].Invert(); }), "inverting zero accepted");
        else { r[a].Invert(); v[a] = inv(va); }
        break;
      case 14:
        if (va == 0) VP_CHECK(throws([&] { r[d] = r[a].Inverse(); }), "inverting zero accepted");
        else { r[d] = r[a].Inverse(); v[d] = inv(va); }
        break;
      case 15:
        if (va == 0) VP_CHECK(throws([&] { r[d] = T(1) / r[a]; }), "dividing by zero accepted");
        else { r[d] = T(1) / r[a]; v[d] = inv(va); }
        break;
      case 16: r[d] = T::FromString(str(va)); v[d] = va; break;
      default: r[d] = (r[a] - r[b]) * (r[a] + r[b]); v[d] = A.sub(A.mul(va, va), A.mul(vb, vb)); break;
    }
    (void)ra;
    (void)rb;
    for (std::size_t i = 0; i < R; i++) VP_CHECK(val(r[i]) == v[i], "register ", i, " is ", str(val(r[i])), " expected ", str(v[i]), " after op ", op);
  }
  for (std::size_t i = 0; i < R; i++) canon(r[i], v[i], "final");
}
VP_ARM(programs_61, 9000, 200000, 60, 2) { program<F61>(c); }
VP_ARM(programs_127, 5000, 100000, 60, 3) { program<F127>(c); }

// products whose high and low halves hit the reduction's boundaries: a*b close to multiples of p or of 2^bits
template <typename T>
static void boundary(Case& c) {
  auto A = ar<T>();
  unsigned bits = T::BitSize();
  u128 a, b;
  switch (c.weighted({2, 2, 2})) {
    case 0:  // b = t / a for a tiny target t, so a*b = t mod p
      a = gen_val<T>(c);
      if (!a) a = 1;
      b = A.mul(A.sub(c.range(0, 6), 3), A.pow(a, A.m - 2));
      break;
    case 1:
      a = A.sub(u128(1) << c.range(0, bits - 1), A.red(c.range(0, 2)));
      b = A.sub(u128(1) << c.range(0, bits - 1), A.red(c.range(0, 2)));
      break;
    default:
      a = A.m - 1 - c.range(0, 5);
      b = c.flip() ? A.m - 1 - c.range(0, 5) : gen_val<T>(c);
  }
  c.note(str(a), " and ", str(b));
  c.interesting(a > 1 && b > 1);
  T x = mk<T>(a), y = mk<T>(b);
  canon(x * y, A.mul(a, b), "product");
  canon(x + y, A.add(a, b), "sum");
  canon(x - y, A.sub(a, b), "difference");
  canon(y - x, A.sub(b, a), "difference");
  canon(-x, A.neg(a), "negation");
  if (b) {
    canon(x / y, A.mul(a, A.pow(b, A.m - 2)), "quotient");
    T z = y.Inverse();
    VP_CHECK(z * y == T(1), "inverse times element is not 1");
  }
}
VP_ARM(boundaries_61, 20000, 400000, 12, 1) { boundary<F61>(c); }
VP_ARM(boundaries_127, 8000, 150000, 12, 1) { boundary<F127>(c); }

// FF<Bits> picks a field with at least Bits bits, and random elements are canonical
VP_ARM(selection, 1500, 20000, 12, 0.3) {
  auto b = c.bytes(16);
  scl::PRG g(b.data()), g2(b.data());
  c.note("seed ", hex(b));
  c.interesting();
  VP_CHECK(scl::FF<1>::BitSize() == 61 && scl::FF<60>::BitSize() == 61 && scl::FF<62>::BitSize() == 127 && scl::FF<100>::BitSize() == 127, "field selection");
  VP_CHECK(F61::ByteSize() == 8 && F127::ByteSize() == 16 && F61::SpecifiedBitSize() == 61 && scl::FF<32>::SpecifiedBitSize() == 32, "sizes");
  for (int i = 0; i < 6; i++) {
    auto e = F61::Random(g);
    auto raw = g2.Next(8);
    u128 v = 0;
    for (int j = 0; j < 8; j++) v |= u128(raw[j]) << (8 * j);
    canon(e, v % P61, "random 61");
    auto f = F127::Random(g);
    raw = g2.Next(16);
    v = 0;
    for (int j = 0; j < 16; j++) v |= u128(raw[j]) << (8 * j);
    canon(f, v % P127, "random 127");
  }
}
