// C15: share / reconstruct round trips and linearity.
#include <scl/ss/additive.h>
#include <scl/ss/packed.h>
#include <scl/ss/shamir.h>

#include "poly_model.h"
using namespace vp;
namespace sd = scl::details;
const char* vp::kRule =
    "(the large_* arms go up to 800, 70 and 40 parties, the many_* arms beyond 256 parties, secrets and degrees) additive (1..9 parties, fields and rings), Shamir (n up to 12, any t < n, canonical or random points) and packed sharings (1..5 secrets, any degree, "
    "the default or random secret positions and points), random generator seeds; reconstruction from random sufficient subsets in random order; degree checked "
    "by a Lagrange model; sums, scalar multiples and share-wise products. Non-trivial: at least 3 shares and a non-zero degree.";

static scl::PRG seeded(Case& c) {
  auto s = c.bytes(16);
  return scl::PRG(s.data());
}
template <typename T>
static std::vector<u128> pickv(const std::vector<u128>& v, const std::vector<std::size_t>& idx, std::size_t n) {
  std::vector<u128> r;
  for (std::size_t i = 0; i < n; i++) r.push_back(v[idx[i]]);
  return r;
}

template <typename T>
static void additive(Case& c, std::size_t big = 0) {
  auto A = ar<T>();
  scl::PRG g = seeded(c);
  std::size_t n = big ? c.size(1, big) : c.range(1, 9);
  u128 s = gen_elem<T>(c), s2 = gen_elem<T>(c), k = gen_elem<T>(c);
  c.note(T::Name(), T::BitSize(), " n=", n, " secrets ", str(s), ",", str(s2));
  c.interesting(n >= 3);
  auto a = scl::CreateAdditiveShares(mk<T>(s), n, g), b = scl::CreateAdditiveShares(mk<T>(s2), n, g);
  VP_CHECK(a.Size() == n && b.Size() == n, a.Size(), " shares for ", n, " parties");
  VP_CHECK(val(scl::ReconstructAdditive(a)) == s, "reconstructs to ", str(val(scl::ReconstructAdditive(a))));
  auto idx = c.perm(n);
  VP_CHECK(val(scl::ReconstructAdditive(vec<T>(pickv<T>(vals(a), idx, n)))) == s, "another order of shares");
  u128 sum = 0;
  for (auto x : vals(a)) sum = A.add(sum, x);
  VP_CHECK(sum == s, "shares do not sum to the secret");
  VP_CHECK(val(scl::ReconstructAdditive(a.Add(b))) == A.add(s, s2), "sum of sharings");
  VP_CHECK(val(scl::ReconstructAdditive(a.Subtract(b))) == A.sub(s, s2), "difference of sharings");
  VP_CHECK(val(scl::ReconstructAdditive(a.ScalarMultiply(mk<T>(k)))) == A.mul(s, k), "multiple of a sharing");
  VP_CHECK(throws([&] { scl::CreateAdditiveShares(mk<T>(s), 0, g); }), "sharing among nobody accepted");
}

template <typename T>
static void shamir(Case& c, std::size_t big = 0, bool many = false) {
  auto A = ar<T>();
  scl::PRG g = seeded(c);
  std::size_t maxn = A.m < 14 ? (std::size_t)A.m - 1 : 12;
  std::size_t n = big ? c.size(2, big) : c.range(2, maxn), t = c.range(1, n - 1);
  if (c.chance(1, 3)) t = (n - 1) / 2 ? (n - 1) / 2 : 1;
  if (many) {  // more parties than fit one byte
    n = big - c.range(0, 50);
    t = c.range(1, 4);
  }
  u128 s = gen_elem<T>(c), s2 = gen_elem<T>(c), k = gen_elem<T>(c);
  c.note(T::Name(), T::BitSize(), " n=", n, " t=", t, " secrets ", str(s), ",", str(s2));
  c.interesting(n >= 3);
  bool own = c.chance(1, 3);
  std::vector<u128> al;
  scl::Vec<T> a, b;
  if (own) {
    al = distinct<T>(c, n, {0});
    a = scl::CreateShamirShares(sd::CreateShamirSharePolynomial(mk<T>(s), t, g), vec<T>(al));
    b = scl::CreateShamirShares(sd::CreateShamirSharePolynomial(mk<T>(s2), t, g), vec<T>(al));
    c.label("own points");
  } else {
    for (std::size_t i = 0; i < n; i++) al.push_back(i + 1);
    VP_CHECK(vals(scl::CanonicalAlphas<T>(n)) == al, "canonical points");
    a = scl::CreateShamirShares(mk<T>(s), n, t, g);
    b = scl::CreateShamirShares(mk<T>(s2), n, t, g);
  }
  VP_CHECK(a.Size() == n && b.Size() == n, a.Size(), " shares");
  auto with0 = [&](const scl::Vec<T>& sh, u128 sec, std::size_t d, const char* what) {
    auto xs = al;
    auto ys = vals(sh);
    xs.push_back(0);
    ys.push_back(sec);
    VP_CHECK(on_degree(xs, ys, d, A), what, ": shares and secret not on one polynomial of degree ", d, ": ", show(ys));
  };
  with0(a, s, t, "sharing");
  with0(b, s2, t, "sharing");
  auto rec = [&](const scl::Vec<T>& sh, u128 sec, std::size_t d, const char* what) {
    auto idx = c.perm(n);
    std::size_t m = c.range(d + 1, n);  // any sufficient set, in any order, possibly more than needed
    auto xs = vec<T>(pickv<T>(al, idx, m)), ys = vec<T>(pickv<T>(vals(sh), idx, m));
    u128 got = val(scl::ReconstructShamirPassive(ys, xs, T(0), d));
    VP_CHECK(got == sec, what, " from ", m, " shares gives ", str(got), " expected ", str(sec));
    // the value at another position is that of the same polynomial
    u128 pos = gen_elem<T>(c);
    std::vector<u128> sub(al.begin(), al.begin() + (long)d + 1), sy = vals(sh);
    sy.resize(d + 1);
    VP_CHECK(val(scl::ReconstructShamirPassive(ys, xs, mk<T>(pos), d)) == lagrange(sub, sy, pos, A), what, " at position ", str(pos));
    if (m >= 2 * d + 1) VP_CHECK(val(scl::ReconstructShamir(ys, xs, T(0), d)) == sec, what, " with detection");
  };
  rec(a, s, t, "reconstruction");
  rec(a.Add(b), A.add(s, s2), t, "sum");
  rec(a.Subtract(b), A.sub(s, s2), t, "difference");
  rec(a.ScalarMultiply(mk<T>(k)), A.mul(s, k), t, "multiple");
  if (2 * t < n) {
    c.label("product");
    auto p = a.MultiplyEntryWise(b);
    with0(p, A.mul(s, s2), 2 * t, "product");
    rec(p, A.mul(s, s2), 2 * t, "product");
  }
  if (!own) {
    VP_CHECK(val(scl::ReconstructShamirPassive(a, t)) == s, "default reconstruction");
    if (n >= 2 * t + 1) VP_CHECK(val(scl::ReconstructShamir(a, t)) == s, "default reconstruction with detection");
    if (n >= 3 * t + 1) VP_CHECK(val(scl::ReconstructShamirRobust(a, t)) == s, "default robust reconstruction");
  }
  // too few
  {
    std::size_t m = c.range(0, t);
    auto xs = vec<T>(std::vector<u128>(al.begin(), al.begin() + (long)m)), full = vec<T>(al);
    auto ya = vals(a);
    auto ys = vec<T>(std::vector<u128>(ya.begin(), ya.begin() + (long)m));
    VP_CHECK(throws([&] { scl::ReconstructShamirPassive(ys, t); }), m, " shares accepted for t=", t);
    VP_CHECK(throws([&] { scl::ReconstructShamirPassive(ys, full, T(0), t); }), m, " shares accepted for t=", t);
    VP_CHECK(throws([&] { scl::ReconstructShamirPassive(a, xs, T(0), t); }), m, " points accepted for t=", t);
    std::size_t m2 = c.range(0, std::min(n, 2 * t));
    auto y2 = vec<T>(std::vector<u128>(ya.begin(), ya.begin() + (long)m2));
    VP_CHECK(throws([&] { scl::ReconstructShamir(y2, t); }), m2, " shares accepted with detection for t=", t);
    std::size_t m3 = c.range(0, std::min(n, 3 * t));
    auto y3 = vec<T>(std::vector<u128>(ya.begin(), ya.begin() + (long)m3));
    VP_CHECK(throws([&] { scl::ReconstructShamirRobust(y3, t); }), m3, " shares accepted by robust reconstruction for t=", t);
  }
  VP_CHECK(throws([&] { scl::CreateShamirShares(mk<T>(s), n, 0, g); }), "threshold 0 accepted");
}

template <typename T>
static void packed(Case& c, std::size_t big = 0, bool many = false) {
  auto A = ar<T>();
  scl::PRG g = seeded(c);
  std::size_t k = c.range(1, 5), d = k - 1 + c.range(0, 5), n = d + 1 + c.range(0, 4);
  if (big) {
    k = c.size(1, big / 3);
    d = k - 1 + c.size(0, big / 3);
    n = d + 1 + c.size(0, big / 2);
  }
  if (many) {
    k = c.range(1, 3);
    d = k - 1 + c.range(0, 3);
    n = big - c.range(0, 40);
  }
  std::vector<u128> s, s2;
  for (std::size_t i = 0; i < k; i++) {
    s.push_back(gen_elem<T>(c));
    s2.push_back(gen_elem<T>(c));
  }
  auto style = c.weighted({4, 2, 2, 1});
  u128 kk = gen_elem<T>(c);
  std::vector<u128> pos, parties;
  for (std::size_t i = 0; i < n; i++) parties.push_back(i + 1);
  using EP = sd::EvPolynomial<T>;
  auto deal = [&](const std::vector<u128>& sec) {
    switch (style) {
      case 0: return sd::EvPolyFromSecretsAndDegree(vec<T>(sec), d, g);
      case 1: return sd::EvPolyFromSecretsAndPoints(vec<T>(sec), vec<T>(pos), g);
      case 2: return sd::EvPolyFromSecretAndPointAndDegree(mk<T>(sec[0]), mk<T>(pos[0]), d, g);
      default: return sd::EvPolyFromSecretAndDegree(mk<T>(sec[0]), d, g);
    }
  };
  std::vector<u128> where;
  if (style == 0) {
    for (std::size_t i = 0; i < k; i++) where.push_back(A.neg(i));
    c.label("default positions");
  } else if (style == 1) {
    pos = distinct<T>(c, d + 1);
    where.assign(pos.begin(), pos.begin() + (long)k);
    c.label("random points");
  } else {
    s.resize(1);
    s2.resize(1);
    where = {0};
    if (style == 2) {  // any position but 1..d; usually -slot
      u128 x = c.flip() ? A.neg(c.range(0, 5)) : gen_elem<T>(c);
      while (x >= 1 && x <= d) x = A.add(x, 1);
      where = {x};
      pos = where;
      c.label("single secret at a position");
    } else
      c.label("single secret");
    k = 1;
  }
  c.note(T::Name(), T::BitSize(), " style ", style, " degree ", d, " n=", n, " secrets ", show(s), " at ", show(where));
  c.interesting(d >= 1 && n >= 3);
  EP pa = deal(s), pb = deal(s2);
  VP_CHECK(pa.Degree() == d, "degree ", pa.Degree(), " expected ", d);
  auto a = sd::SharesFromEvPoly(pa, n), b = sd::SharesFromEvPoly(pb, n);
  VP_CHECK(a.Size() == n, a.Size(), " shares");
  auto check = [&](const scl::Vec<T>& sh, const std::vector<u128>& sec, std::size_t deg, const char* what) {
    auto xs = parties;
    auto ys = vals(sh);
    for (std::size_t i = 0; i < k; i++) {
      // a secret position may coincide with a party's point only if the values agree
      auto it = std::find(xs.begin(), xs.end(), where[i]);
      if (it != xs.end()) VP_CHECK(ys[(std::size_t)(it - xs.begin())] == sec[i], what, ": share at a secret position");
      else {
        xs.push_back(where[i]);
        ys.push_back(sec[i]);
      }
    }
    if (deg < n) VP_CHECK(on_degree(xs, ys, deg, A), what, ": shares and secrets not on one polynomial of degree ", deg);
    if (deg >= n) return;
    // the library's reconstruction interpolates through the shares it is given
    auto w = vec<T>(where);
    auto got = vals(sd::SecretsFromPointsAndShares(w, sh));
    VP_CHECK(got == sec, what, " reconstructs to ", show(got), " expected ", show(sec));
    if (style == 0) {
      auto len = vals(sd::SecretsFromSharesAndLength(sh, k));
      VP_CHECK(len == sec, what, " by length reconstructs to ", show(len));
    }
    VP_CHECK(val(sd::SecretFromPointAndShares(w[0], sh)) == sec[0], what, " single");
    if (where[0] == 0) VP_CHECK(val(sd::SecretFromShares(sh)) == sec[0], what, " at 0");
    // the first deg+1 .. n shares suffice
    std::size_t m = c.range(deg + 1, n);
    auto v = vals(sh);
    v.resize(m);
    VP_CHECK(vals(sd::SecretsFromPointsAndShares(w, vec<T>(v))) == sec, what, " from the first ", m, " shares");
    // any sufficient subset in any order
    auto idx = c.perm(n);
    EP q(vec<T>(pickv<T>(parties, idx, m)), vec<T>(pickv<T>(vals(sh), idx, m)));
    VP_CHECK(vals(q.Evaluate(w)) == sec, what, " from a subset of ", m, " shares");
  };
  check(a, s, d, "packed sharing");
  std::vector<u128> sum, prod, mul;
  for (std::size_t i = 0; i < k; i++) {
    sum.push_back(A.add(s[i], s2[i]));
    prod.push_back(A.mul(s[i], s2[i]));
    mul.push_back(A.mul(s[i], kk));
  }
  check(a.Add(b), sum, d, "sum");
  check(a.ScalarMultiply(mk<T>(kk)), mul, d, "multiple");
  if (2 * d < n) c.label("product");
  check(a.MultiplyEntryWise(b), prod, 2 * d, "product");
  // a polynomial through shares takes the shares
  auto f = sd::EvPolyFromShares(a);
  for (std::size_t i = many ? n - 2 : 0; i < n; i++) VP_CHECK(f.Evaluate(T((int)i + 1)) == a[i], "polynomial through the shares");
  // more secrets than fit
  if (style == 0) {
    std::vector<u128> many(d + 2 + c.range(0, 2), 1);
    VP_CHECK(throws([&] { sd::EvPolyFromSecretsAndDegree(vec<T>(many), d, g); }), many.size(), " secrets accepted at degree ", d);
  }
  if (style == 1) {
    std::vector<u128> many(d + 2 + c.range(0, 2), 1);
    VP_CHECK(throws([&] { sd::EvPolyFromSecretsAndPoints(vec<T>(many), vec<T>(pos), g); }), many.size(), " secrets accepted on ", d + 1, " points");
  }
  VP_CHECK(throws([&] { sd::SecretsFromSharesAndLength(scl::Vec<T>(), k); }), "reconstruction from nothing accepted");
}

// hundreds of secrets, or of degrees
template <typename T>
static void many_secrets(Case& c) {
  auto A = ar<T>();
  scl::PRG g = seeded(c);
  bool wide = c.flip();
  std::size_t k = wide ? c.range(257, 300) : c.range(1, 3), d = wide ? k - 1 + c.range(0, 3) : c.range(257, 300);
  u64 seed = c.word();
  std::vector<u128> s;
  for (std::size_t i = 0; i < k; i++) s.push_back(A.red(splitmix(seed)));
  c.note(T::Name(), " ", k, " secrets, degree ", d);
  c.interesting();
  using EP = sd::EvPolynomial<T>;
  auto holds = [&](const EP& p, std::size_t deg, u128 x, u128 want, const char* what) {
    VP_CHECK(p.Degree() == deg, what, " of degree ", p.Degree(), " instead of ", deg);
    u128 got = val(p.Evaluate(mk<T>(x)));
    VP_CHECK(got == want, what, " of degree ", deg, " takes ", str(got), " at ", str(x), " instead of the secret ", str(want));
  };
  EP p = sd::EvPolyFromSecretsAndDegree(vec<T>(s), d, g);
  for (std::size_t i : {std::size_t(0), k - 1, (std::size_t)c.range(0, k - 1)}) holds(p, d, A.neg(i), s[i], "a packed polynomial");
  if (!wide) {
    u128 x = A.neg(c.range(0, 300));
    holds(sd::EvPolyFromSecretAndPointAndDegree(mk<T>(s[0]), mk<T>(x), d, g), d, x, s[0], "a polynomial");
    holds(sd::EvPolyFromSecretAndDegree(mk<T>(s[0]), d, g), d, 0, s[0], "a polynomial");
  }
  // many secrets on a polynomial of low degree
  std::size_t n = c.range(1, 4), len = c.range(257, 400);
  std::vector<u128> xs, ys;
  for (std::size_t i = 0; i < n; i++) {
    xs.push_back(i + 1);
    ys.push_back(A.red(splitmix(seed)));
  }
  auto got = vals(sd::SecretsFromSharesAndLength(vec<T>(ys), len));
  VP_CHECK(got.size() == len, got.size(), " secrets instead of ", len);
  for (std::size_t i = 0; i < len; i++) {
    u128 want = lagrange(xs, ys, A.neg(i), A);
    VP_CHECK(got[i] == want, "secret ", i, " of ", len, " is ", str(got[i]), " instead of ", str(want));
  }
}
// thresholds beyond a byte
template <typename T>
static void high_shamir(Case& c) {
  auto A = ar<T>();
  scl::PRG g = seeded(c);
  std::size_t t = c.range(254, 262), n = t + 1 + c.range(0, 3);
  u128 s = gen_elem<T>(c);
  c.note("Shamir n=", n, " t=", t, " secret ", str(s));
  c.interesting();
  auto sh = scl::CreateShamirShares(mk<T>(s), n, t, g);
  VP_CHECK(sh.Size() == n, sh.Size(), " shares");
  VP_CHECK(val(scl::ReconstructShamirPassive(sh, t)) == s, "reconstruction from ", n, " shares with t=", t);
  auto pm = c.perm(n);  // any t+1 of them in any order
  std::vector<u128> xs, ys;
  for (std::size_t i = 0; i <= t; i++) {
    xs.push_back(pm[i] + 1);
    ys.push_back(val(sh[pm[i]]));
  }
  u128 x = gen_elem<T>(c);
  VP_CHECK(val(scl::ReconstructShamirPassive(vec<T>(ys), vec<T>(xs), mk<T>(x), t)) == lagrange(xs, ys, x, A), "value at ", str(x), " from ", t + 1, " shares");
  xs.pop_back();
  VP_CHECK(throws([&] { scl::ReconstructShamirPassive(vec<T>(ys), vec<T>(xs), T(0), t); }), t, " points accepted for t=", t);
  ys.pop_back();
  VP_CHECK(throws([&] { scl::ReconstructShamirPassive(vec<T>(ys), t); }), t, " shares accepted for t=", t);
}
VP_ARM(high_shamir_61, 1, 20, 700, 0.5) { high_shamir<F61>(c); }
VP_ARM(many_secrets_61, 3, 80, 40, 0.5) { many_secrets<F61>(c); }
VP_ARM(additive_fields, 6000, 80000, 30, 1) {
  if (c.flip()) additive<F61>(c);
  else additive<F127>(c);
}
VP_ARM(additive_rings, 6000, 80000, 30, 1) {
  switch (c.range(0, 3)) {
    case 0: additive<scl::Z2k<1>>(c); break;
    case 1: additive<scl::Z2k<32>>(c); break;
    case 2: additive<scl::Z2k<64>>(c); break;
    default: additive<scl::Z2k<128>>(c); break;
  }
}
VP_ARM(shamir_31, 1500, 20000, 90, 1) { shamir<Tiny<31>>(c); }
VP_ARM(shamir_61, 1200, 16000, 90, 2) { shamir<F61>(c); }
VP_ARM(shamir_127, 150, 2500, 90, 2) { shamir<F127>(c); }
VP_ARM(packed_101, 1500, 20000, 90, 1) { packed<Tiny<101>>(c); }
VP_ARM(packed_61, 1200, 16000, 90, 2) { packed<F61>(c); }
VP_ARM(packed_127, 150, 2500, 90, 2) { packed<F127>(c); }
VP_ARM(large_additive, 400, 6000, 900, 0.5) {
  if (c.flip()) additive<F61>(c, 800);
  else additive<scl::Z2k<32>>(c, 800);
}
VP_ARM(large_shamir_101, 60, 1500, 600, 1) { shamir<Tiny<101>>(c, 70); }
VP_ARM(large_shamir_61, 12, 400, 600, 1) { shamir<F61>(c, 50); }
VP_ARM(large_packed_61, 16, 400, 600, 1.5) { packed<F61>(c, 36); }
VP_ARM(many_shamir_61, 2, 60, 3000, 0.5) { shamir<F61>(c, 300, true); }
VP_ARM(many_packed_61, 1, 40, 3000, 0.5) { packed<F61>(c, 300, true); }
