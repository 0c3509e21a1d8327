// C17: sharings are masked by the full amount of fresh randomness.
// vp: flavours=asan,opt arms_asan=prime_61,prime_127,large_61,tiny_2,tiny_5,tiny_13,ring_1,ring_13,ring_64,ring_100,ring_128 arms_opt=many_61,prime_61,prime_127,tiny_13 budget=30 case_timeout=100
#include <scl/ss/additive.h>
#include <scl/ss/packed.h>
#include <scl/ss/shamir.h>

#include "poly_model.h"
using namespace vp;
namespace sd = scl::details;
const char* vp::kRule =
    "schemes (additive, Shamir with canonical or random points, packed at default, random or one-point positions, random vectors and matrices) with random sizes, "
    "degrees and secrets (often 0); one to three sharings drawn from one generator (many_61: one with 257 to 275 free positions). For random sets of as many share positions as there are free coefficients, the "
    "shares over many seeds must span the whole space (rank over the field; over GF(2) for Z2k), every bit must take both values, over tiny fields every tuple of shares must "
    "occur, at a frequency within 9 standard deviations; the difference of two sharings under one seed depends on the secrets only; equal seeds and equal generator "
    "states give equal sharings. Non-trivial: at least two free positions.";

template <typename T>
using Run = std::function<std::vector<u128>(scl::PRG&)>;  // all shares (of all sharings)

static scl::PRG seeded(u64 s) {
  unsigned char b[16];
  for (int i = 0; i < 2; i++) {
    u64 w = splitmix(s);
    std::memcpy(b + 8 * i, &w, 8);
  }
  return scl::PRG(b);
}

// one scheme: secret-dependent shares plus positions at which they are free
template <typename T>
struct Scheme {
  std::function<std::vector<u128>(scl::PRG&, const std::vector<u128>&)> share;
  std::size_t nshares = 0, dims = 0, nsecrets = 0;
  std::vector<u128> secrets, secrets2;
  std::vector<std::size_t> pos;
  std::string what;
};
template <typename T>
static scl::Vec<T> points(std::size_t n, std::size_t from = 1) {
  scl::Vec<T> v;
  for (std::size_t i = 0; i < n; i++) v.Emplace(mk<T>(i + from));
  return v;
}
template <typename T>
static u128 some_secret(Case& c) {
  return c.chance(2, 5) ? 0 : gen_elem<T>(c);
}

template <typename T>
static Scheme<T> pick_scheme(Case& c, std::size_t maxd) {
  constexpr bool field = Mod<T>::field;
  auto A = ar<T>();
  Scheme<T> s;
  std::size_t lim = A.m && A.m < 40 ? (std::size_t)A.m - 1 : 39;  // non-zero points available
  auto kind = field ? c.range(0, 6) : c.range(0, 2);
  switch (kind) {
    case 0: {
      s.nshares = c.range(2, maxd + 1);
      s.dims = s.nshares - 1;
      s.nsecrets = 1;
      auto n = s.nshares;
      s.share = [n](scl::PRG& g, const std::vector<u128>& x) { return vals(scl::CreateAdditiveShares(mk<T>(x[0]), n, g)); };
      s.what = "additive n=" + std::to_string(n);
      break;
    }
    case 1: {
      s.nshares = s.dims = c.range(1, maxd);
      auto n = s.nshares;
      s.share = [n](scl::PRG& g, const std::vector<u128>&) { return vals(scl::Vec<T>::Random(n, g)); };
      s.what = "random vector of " + std::to_string(n);
      break;
    }
    case 2: {
      std::size_t r = c.range(1, 3), k = c.range(1, maxd / 3 ? maxd / 3 : 1);
      s.nshares = s.dims = r * k;
      s.share = [r, k](scl::PRG& g, const std::vector<u128>&) {
        auto m = scl::Mat<T>::Random(r, k, g);
        std::vector<u128> v;
        for (std::size_t i = 0; i < r; i++)
          for (std::size_t j = 0; j < k; j++) v.push_back(val(m(i, j)));
        return v;
      };
      s.what = "random matrix " + std::to_string(r) + "x" + std::to_string(k);
      break;
    }
    default: break;
  }
  if constexpr (field) {
    if (kind == 3) {
      std::size_t t = c.range(1, std::min(maxd, lim - 1));
      std::size_t n = c.range(t + 1, std::min(lim, t + 4));
      bool own = c.chance(1, 3);
      scl::Vec<T> al = own ? vec<T>(distinct<T>(c, n, {0})) : points<T>(n);
      s.nshares = n;
      s.dims = t;
      s.nsecrets = 1;
      s.share = [=](scl::PRG& g, const std::vector<u128>& x) {
        if (!own) return vals(scl::CreateShamirShares(mk<T>(x[0]), n, t, g));
        return vals(scl::CreateShamirShares(sd::CreateShamirSharePolynomial(mk<T>(x[0]), t, g), al));
      };
      s.what = "Shamir n=" + std::to_string(n) + " t=" + std::to_string(t);
    } else if (kind == 4 || kind == 6) {
      std::size_t dims = c.range(1, std::min(maxd, lim / 2));
      std::size_t k = c.range(1, std::min<std::size_t>(5, lim - dims));
      // slots 0,-1,..,-(k-1) and shares 1..n must be distinct points
      std::size_t deg = dims + k - 1;
      std::size_t nmax = std::min<std::size_t>(A.m && A.m < 40 ? (std::size_t)A.m - k : 39, deg + 3);
      if (nmax < dims) c.discard();
      std::size_t n = c.range(dims, nmax);
      s.nshares = n;
      s.dims = dims;
      s.nsecrets = k;
      if (kind == 4) {
        if (deg + 1 - k + k > (A.m && A.m < 40 ? (std::size_t)A.m : 80)) c.discard();
        s.share = [=](scl::PRG& g, const std::vector<u128>& x) { return vals(sd::SharesFromEvPoly(sd::EvPolyFromSecretsAndDegree(vec<T>(x), deg, g), n)); };
        s.what = "packed k=" + std::to_string(k) + " degree=" + std::to_string(deg) + " n=" + std::to_string(n);
      } else {
        // random interpolation points; the secrets sit at the first k of them, outside 1..n
        std::vector<u128> avoid;
        for (std::size_t i = 1; i <= n; i++) avoid.push_back(i);
        if (A.m && A.m < 40 && A.m < avoid.size() + k) c.discard();
        auto xs = distinct<T>(c, k, avoid);
        if (A.m && A.m < 40 && (std::size_t)A.m < deg + 1) c.discard();
        auto more = distinct<T>(c, deg + 1 - k, xs);
        xs.insert(xs.end(), more.begin(), more.end());
        s.share = [=](scl::PRG& g, const std::vector<u128>& x) { return vals(sd::SharesFromEvPoly(sd::EvPolyFromSecretsAndPoints(vec<T>(x), vec<T>(xs), g), n)); };
        s.what = "packed at own points " + show(xs) + " k=" + std::to_string(k) + " n=" + std::to_string(n);
      }
    } else if (kind == 5) {
      std::size_t deg = c.range(1, std::min(maxd, lim / 2));
      bool zero = c.flip();
      std::size_t nmax = std::min<std::size_t>(lim - (zero ? 0 : 1), deg + 4);
      std::size_t n = c.range(deg, nmax < deg ? deg : nmax);
      std::vector<u128> avoid;
      for (std::size_t i = 1; i <= std::max(n, deg); i++) avoid.push_back(i);
      if (A.m && A.m < 40 && A.m <= avoid.size()) c.discard();
      u128 p = zero ? 0 : distinct<T>(c, 1, avoid)[0];
      s.nshares = n;
      s.dims = deg;
      s.nsecrets = 1;
      s.share = [=](scl::PRG& g, const std::vector<u128>& x) {
        auto q = zero ? sd::EvPolyFromSecretAndDegree(mk<T>(x[0]), deg, g) : sd::EvPolyFromSecretAndPointAndDegree(mk<T>(x[0]), mk<T>(p), deg, g);
        return vals(sd::SharesFromEvPoly(q, n));
      };
      s.what = "one secret at " + str(p) + " degree=" + std::to_string(deg) + " n=" + std::to_string(n);
    }
  }
  for (std::size_t i = 0; i < s.nsecrets; i++) {
    s.secrets.push_back(some_secret<T>(c));
    s.secrets2.push_back(some_secret<T>(c));
  }
  auto pm = c.perm(s.nshares);
  s.pos.assign(pm.begin(), pm.begin() + (long)s.dims);
  s.what += " secrets " + show(s.secrets);
  return s;
}

template <typename T>
struct Setup {
  std::vector<Scheme<T>> parts;
  std::size_t dims = 0;
  std::vector<u128> all(scl::PRG& g, bool second = false) const {
    std::vector<u128> v;
    for (auto& s : parts) {
      auto sh = s.share(g, second ? s.secrets2 : s.secrets);
      VP_CHECK(sh.size() == s.nshares, s.what, ": ", sh.size(), " shares");
      v.insert(v.end(), sh.begin(), sh.end());
    }
    return v;
  }
  std::vector<u128> free(scl::PRG& g) const {
    std::vector<u128> v;
    for (auto& s : parts) {
      auto sh = s.share(g, s.secrets);
      VP_CHECK(sh.size() == s.nshares, s.what, ": ", sh.size(), " shares");
      for (auto p : s.pos) v.push_back(sh[p]);
    }
    return v;
  }
};
template <typename T>
static Setup<T> setup(Case& c, std::size_t maxd, std::size_t maxparts) {
  Setup<T> r;
  std::size_t np = c.range(1, maxparts);
  bool repeat = c.flip();
  for (std::size_t i = 0; i < np; i++) {
    if (i && repeat) r.parts.push_back(r.parts[0]);
    else r.parts.push_back(pick_scheme<T>(c, maxd));
    r.dims += r.parts.back().dims;
    c.note(r.parts.back().what);
  }
  c.label(std::to_string(np) + (np > 1 ? " sharings from one generator" : " sharing"));
  c.interesting(r.dims >= 2);
  return r;
}

static std::size_t rank_of(std::vector<std::vector<u128>> m, const Ar& A) {
  std::size_t r = 0;
  if (m.empty()) return 0;
  for (std::size_t col = 0; col < m[0].size() && r < m.size(); col++) {
    std::size_t p = r;
    while (p < m.size() && m[p][col] == 0) p++;
    if (p == m.size()) continue;
    std::swap(m[p], m[r]);
    u128 inv = A.pow(m[r][col], A.m - 2);
    for (std::size_t i = r + 1; i < m.size(); i++) {
      u128 f = A.mul(m[i][col], inv);
      if (!f) continue;
      for (std::size_t j = col; j < m[0].size(); j++) m[i][j] = A.sub(m[i][j], A.mul(f, m[r][j]));
    }
    r++;
  }
  return r;
}

template <typename T>
static void determinism(Case& c, const Setup<T>& s, u64 seed0) {
  auto A = ar<T>();
  scl::PRG g1 = seeded(seed0), g2 = seeded(seed0), g3 = seeded(seed0);
  auto a = s.all(g1), b = s.all(g2);
  VP_CHECK(a == b, "equal seeds gave different sharings");
  VP_CHECK(g1.Next(16) == g2.Next(16), "equal seeds left the generators in different states");
  auto other = s.all(g3, true);
  // same randomness, other secrets: the difference may depend on the secrets only
  scl::PRG h1 = seeded(seed0 ^ 0x55aa), h2 = seeded(seed0 ^ 0x55aa);
  auto a2 = s.all(h1), o2 = s.all(h2, true);
  for (std::size_t i = 0; i < a.size(); i++)
    VP_CHECK(A.sub(other[i], a[i]) == A.sub(o2[i], a2[i]), "share ", i, ": the effect of changing the secret depends on the randomness");
  // state reached in two ways
  std::size_t k = c.range(0, 5);
  scl::PRG p = seeded(seed0), q = seeded(seed0);
  for (std::size_t i = 0; i < k; i++) p.Next(16);
  if (k) q.Next(16 * k);
  VP_CHECK(s.all(p) == s.all(q), "sharings differ although the generators had produced equal outputs");
  scl::PRG r = seeded(seed0);
  r.Next(40);
  r.Reset();
  VP_CHECK(s.all(r) == a, "sharing after Reset differs");
}

template <typename T>
static void prime(Case& c, std::size_t maxd = 12, std::size_t parts = 3) {
  auto A = ar<T>();
  auto s = setup<T>(c, maxd, parts);
  u64 seed0 = c.word(), st = seed0;
  determinism(c, s, seed0);
  if (!s.dims) return;
  std::size_t samples = std::max<std::size_t>(s.dims + 4, 80);
  std::vector<std::vector<u128>> rows;
  for (std::size_t i = 0; i < samples; i++) {
    scl::PRG g = seeded(splitmix(st));
    rows.push_back(s.free(g));
  }
  std::vector<std::vector<u128>> diff;
  for (std::size_t i = 1; i < s.dims + 4; i++) {
    diff.push_back(rows[i]);
    for (std::size_t j = 0; j < s.dims; j++) diff.back()[j] = A.sub(rows[i][j], rows[0][j]);
  }
  std::size_t rk = rank_of(diff, A);
  VP_CHECK(rk == s.dims, "shares at ", s.dims, " positions vary in ", rk, " dimensions only");
  std::size_t bits = T::BitSize();
  for (std::size_t j = 0; j < s.dims; j++) {
    u128 ones = 0, zeros = 0;
    for (auto& r : rows) {
      ones |= r[j];
      zeros |= ~r[j];
    }
    u128 mask = (u128(1) << bits) - 1;
    VP_CHECK((ones & mask) == mask && (zeros & mask) == mask, "share ", j, " has a bit that never changes over ", samples, " seeds");
  }
}

template <typename T>
static void tiny(Case& c) {
  auto A = ar<T>();
  std::size_t q = (std::size_t)A.m;
  std::size_t maxd = q <= 5 ? 2 : 1;
  auto s = setup<T>(c, maxd, 2);
  u64 seed0 = c.word(), st = seed0;
  determinism(c, s, seed0);
  if (!s.dims) return;
  std::size_t cells = 1;
  for (std::size_t i = 0; i < s.dims; i++) cells *= q;
  if (cells > 700) c.discard();
  std::size_t draws = cells * 120;
  std::vector<u64> cnt(cells, 0);
  bool one_generator = c.flip();
  c.label(one_generator ? "one generator throughout" : "a seed per sharing");
  scl::PRG g = seeded(splitmix(st));
  for (std::size_t i = 0; i < draws; i++) {
    if (!one_generator) g = seeded(splitmix(st));
    std::size_t ix = 0;
    for (auto v : s.free(g)) ix = ix * q + (std::size_t)v;
    cnt[ix]++;
  }
  double e = (double)draws / (double)cells;  // 120
  for (std::size_t i = 0; i < cells; i++) {
    VP_CHECK(cnt[i] > 0, "a tuple of shares (cell ", i, " of ", cells, ") never occurred in ", draws, " sharings");
    // elements are bytes modulo q: cells deviate from uniform by a few percent, and by 11 standard deviations of chance never
    VP_CHECK((double)cnt[i] < e + 9 * 10.96 + e * 0.12 * (double)s.dims && (double)cnt[i] > e - 9 * 10.96 - e * 0.12 * (double)s.dims, "tuple ", i, " of ", cells, " occurred ", cnt[i], " times instead of about ", e);
  }
}

template <typename T>
static void ring(Case& c) {
  std::size_t K = T::BitSize();
  auto s = setup<T>(c, K > 40 ? 3 : 5, 2);
  u64 seed0 = c.word(), st = seed0;
  determinism(c, s, seed0);
  if (!s.dims) return;
  std::size_t bits = K * s.dims;
  if (bits > 640) c.discard();
  // affine rank over GF(2): the constant is one more column
  std::vector<std::vector<u64>> basis(bits + 1);
  std::size_t rk = 0, W = bits / 64 + 1;
  for (std::size_t i = 0; i < bits + 70 && rk < bits + 1; i++) {
    scl::PRG g = seeded(splitmix(st));
    std::vector<u64> row(W, 0);
    auto v = s.free(g);
    std::size_t b = 0;
    for (auto x : v)
      for (std::size_t j = 0; j < K; j++, b++)
        if (x >> j & 1) row[b / 64] |= u64(1) << (b % 64);
    row[b / 64] |= u64(1) << (b % 64);
    for (std::size_t k = 0; k <= bits; k++) {
      if (!(row[k / 64] >> (k % 64) & 1)) continue;
      if (basis[k].empty()) {
        basis[k] = row;
        rk++;
        break;
      }
      for (std::size_t w = 0; w < W; w++) row[w] ^= basis[k][w];
    }
  }
  VP_CHECK(rk == bits + 1, "the bits of shares at ", s.dims, " positions span ", rk, " of ", bits + 1, " dimensions");
}
// more free coefficients than a byte counts: one sharing, still as many dimensions
template <typename T>
static void many(Case& c) {
  auto A = ar<T>();
  std::size_t d = c.range(257, 275), k = c.range(1, 4);
  auto kind = c.range(0, 3);
  u128 x = some_secret<T>(c);
  std::vector<u128> xs(k, x);
  u64 st = c.word();
  static const char* names[] = {"additive", "Shamir", "packed", "one secret"};
  c.note(names[kind], " with ", d, " free positions, secret ", str(x));
  c.interesting();
  auto values = [&](const sd::EvPolynomial<T>& p, std::size_t from) {  // the values it interpolates, without the secrets'
    auto v = vals(p.GetY());
    VP_CHECK(v.size() == d + from, "a polynomial of degree ", d + from - 1, " has ", v.size(), " values");
    v.erase(v.begin(), v.begin() + (long)from);
    return v;
  };
  auto draw = [&](scl::PRG& g) {
    if (kind == 0) {
      auto v = vals(scl::CreateAdditiveShares(mk<T>(x), d + 1, g));
      v.resize(d);
      return v;
    }
    if (kind == 1) return vals(scl::CreateShamirShares(mk<T>(x), d, d, g));
    if (kind == 2) return values(sd::EvPolyFromSecretsAndDegree(vec<T>(xs), d + k - 1, g), k);
    return values(sd::EvPolyFromSecretAndDegree(mk<T>(x), d, g), 1);
  };
  std::vector<std::vector<u128>> diff;
  std::vector<u128> first;
  for (std::size_t i = 0; i < d + 3; i++) {
    scl::PRG g = seeded(splitmix(st));
    auto r = draw(g);
    VP_CHECK(r.size() == d, r.size(), " shares");
    if (!i) {
      first = r;
      continue;
    }
    for (std::size_t j = 0; j < d; j++) r[j] = A.sub(r[j], first[j]);
    diff.push_back(r);
  }
  std::size_t rk = rank_of(diff, A);
  VP_CHECK(rk == d, "the ", d, " free values vary in ", rk, " dimensions only");
}
VP_ARM(many_61, 2, 40, 40, 1) { many<F61>(c); }
VP_ARM(prime_61, 2500, 40000, 60, 3) { prime<F61>(c); }
VP_ARM(prime_127, 300, 5000, 60, 2) { prime<F127>(c); }
VP_ARM(large_61, 12, 400, 200, 1.5) { prime<F61>(c, 33, 2); }
VP_ARM(tiny_2, 300, 3000, 40, 1) { tiny<Tiny<3>>(c); }
VP_ARM(tiny_5, 200, 2000, 40, 1) { tiny<Tiny<5>>(c); }
VP_ARM(tiny_13, 200, 2000, 40, 1) { tiny<Tiny<13>>(c); }
VP_ARM(ring_1, 300, 3000, 40, 0.5) { ring<scl::Z2k<1>>(c); }
VP_ARM(ring_13, 200, 3000, 40, 0.5) { ring<scl::Z2k<13>>(c); }
VP_ARM(ring_64, 100, 2000, 40, 0.5) { ring<scl::Z2k<64>>(c); }
VP_ARM(ring_100, 60, 1000, 40, 0.5) { ring<scl::Z2k<100>>(c); }
VP_ARM(ring_128, 60, 1000, 40, 0.5) { ring<scl::Z2k<128>>(c); }
