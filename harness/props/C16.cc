// C16: Shamir error detection and correction.
// vp: flavours=asan,opt arms_asan=detect_13,detect_61,detect_127,robust_17,robust_61,robust_127,beyond_11,beyond_61,large_detect_61,large_robust_101,large_robust_61,many_detect_61 arms_opt=many_robust_61,detect_61,robust_61,robust_127,beyond_61,many_detect_61 budget=28
#include <scl/ss/shamir.h>

#include <algorithm>

#include "poly_model.h"
using namespace vp;
namespace sd = scl::details;
const char* vp::kRule =
    "share vectors on random polynomials of degree <= t (t up to 4, in the large_* arms up to 20, 12 and 10, in many_robust_61 86 to 88, lower-degree and zero polynomials included), canonical or random points, extra shares beyond the "
    "required number, with 0..t errors (any positions, any offsets, also errors that form another polynomial), plus arbitrary share vectors. Detection must raise an "
    "error exactly when the shares are not on one degree-t polynomial; robust reconstruction must return a degree-t polynomial agreeing with 2t+1 of the first 3t+1 "
    "shares and a locator vanishing exactly at the others, or report an error when none exists (decided by the generator's knowledge or by trying all subsets). "
    "Non-trivial: at least one wrong share.";

template <typename T>
struct Shares {
  std::size_t t, n;
  Poly p;
  std::vector<u128> xs, ys;
  std::set<std::size_t> wrong;
};
template <typename T>
static Shares<T> gen(Case& c, std::size_t need_mult, std::size_t maxt, std::size_t many = 0) {
  auto A = ar<T>();
  Shares<T> s;
  s.t = c.range(0, maxt);
  s.n = need_mult * s.t + 1;
  std::size_t extra = c.chance(1, 2) ? c.range(0, 3) : 0;
  s.n += extra;
  if (many) s.n = many - c.range(0, 40);
  if (A.m <= s.n) s.n = (std::size_t)A.m - 1;
  if (s.n < need_mult * s.t + 1) c.discard();
  s.p.resize(s.t + 1);
  for (auto& x : s.p) x = gen_elem<T>(c);
  if (c.chance(1, 4)) s.p.resize(c.range(0, s.t + 1));
  if (c.chance(1, 2))
    for (std::size_t i = 0; i < s.n; i++) s.xs.push_back(i + 1);
  else
    s.xs = distinct<T>(c, s.n);
  for (auto x : s.xs) s.ys.push_back(eval(s.p, x, A));
  return s;
}
template <typename T>
static void corrupt(Case& c, Shares<T>& s, std::size_t e, std::size_t among) {
  auto A = ar<T>();
  auto idx = c.perm(among);
  auto style = c.range(0, 2);
  Poly other(s.t + 1);
  for (auto& x : other) x = gen_elem<T>(c);
  for (std::size_t i = 0; i < e && i < among; i++) {
    std::size_t j = idx[i];
    u128 nv;
    if (style == 0) nv = A.add(s.ys[j], A.red(1 + c.range(0, 2)));
    else if (style == 1) nv = gen_elem<T>(c);
    else nv = eval(other, s.xs[j], A);
    if (nv == s.ys[j]) nv = A.add(nv, 1);
    s.ys[j] = nv;
    s.wrong.insert(j);
  }
}
template <typename T>
static void describe(Case& c, const Shares<T>& s) {
  std::string w;
  for (auto j : s.wrong) w += std::to_string(j) + " ";
  c.note(T::Name(), T::BitSize(), " t=", s.t, " n=", s.n, " poly ", show(s.p), " points ", show(s.xs), " shares ", show(s.ys), " wrong at ", w);
  c.interesting(!s.wrong.empty());
}

template <typename T>
static void detect(Case& c, std::size_t maxt = 4, std::size_t many = 0) {
  auto A = ar<T>();
  auto s = gen<T>(c, 2, maxt, many);
  std::size_t e = c.chance(1, 5) ? 0 : c.range(1, s.t + 2);
  corrupt(c, s, e, s.n);
  if (c.chance(1, 4) && s.n > 2 * s.t + 1) {  // only the last share is wrong
    for (auto j : s.wrong) s.ys[j] = eval(s.p, s.xs[j], A);
    s.wrong = {s.n - 1};
    s.ys[s.n - 1] = A.add(eval(s.p, s.xs[s.n - 1], A), 1);
    c.label("only an extra share is wrong");
  }
  describe(c, s);
  bool valid = on_degree(s.xs, s.ys, s.t, A);
  u128 pos = c.flip() ? 0 : gen_elem<T>(c);
  auto xs = s.xs;
  if (c.chance(1, 6)) xs.push_back(distinct<T>(c, 1, s.xs)[0]);  // more points than shares
  bool canon = true;
  for (std::size_t i = 0; i < s.n; i++) canon &= s.xs[i] == i + 1;
  T got;
  bool threw = throws([&] { got = scl::ReconstructShamir(vec<T>(s.ys), vec<T>(xs), mk<T>(pos), s.t); });
  c.label(valid ? "consistent" : s.wrong.size() <= s.t ? "at most t wrong" : "more than t wrong");
  if (s.wrong.size() <= s.t && !threw) VP_CHECK(val(got) == eval(s.p, pos, A), "returned ", str(val(got)), " instead of the shared value ", str(eval(s.p, pos, A)));
  if (s.wrong.empty()) VP_CHECK(!threw, "error reported on honest shares");
  VP_CHECK(threw == !valid, valid ? "error reported although all shares are on one polynomial" : "shares that are on no polynomial of degree t were accepted");
  if (valid) VP_CHECK(val(got) == lagrange(std::vector<u128>(s.xs.begin(), s.xs.begin() + (long)s.t + 1), std::vector<u128>(s.ys.begin(), s.ys.begin() + (long)s.t + 1), pos, A), "value at the position");
  if (canon) {
    T g2;
    bool t2 = throws([&] { g2 = scl::ReconstructShamir(vec<T>(s.ys), s.t); });
    VP_CHECK(t2 == !valid, "default points: error reported: ", t2);
    if (!t2 && s.wrong.size() <= s.t) VP_CHECK(val(g2) == eval(s.p, 0, A), "default points: returned ", str(val(g2)));
  }
}

// does some polynomial of degree <= t agree with at least n-t of the points?
static bool decodable(const std::vector<u128>& xs, const std::vector<u128>& ys, std::size_t t, const Ar& A) {
  std::size_t n = xs.size();
  for (unsigned mask = 0; mask < (1u << n); mask++) {
    if ((std::size_t)__builtin_popcount(mask) != t + 1) continue;
    std::vector<u128> x0, y0;
    for (std::size_t i = 0; i < n; i++)
      if (mask >> i & 1) {
        x0.push_back(xs[i]);
        y0.push_back(ys[i]);
      }
    std::size_t agree = 0;
    for (std::size_t i = 0; i < n; i++) agree += (mask >> i & 1) || lagrange(x0, y0, xs[i], A) == ys[i];
    if (agree >= n - t) return true;
  }
  return false;
}
template <typename T>
static void robust_check(Case& c, Shares<T>& s, bool exists) {
  auto A = ar<T>();
  std::size_t n = 3 * s.t + 1;
  std::array<sd::Polynomial<T>, 2> r;
  bool threw = throws([&] { r = scl::ReconstructShamirRobust(vec<T>(s.ys), vec<T>(s.xs), s.t); });
  VP_CHECK(threw == !exists, exists ? "error reported although a polynomial within t errors exists" : "a result was returned although no polynomial is within t errors");
  if (threw) return;
  VP_CHECK(r[0].Degree() <= s.t, "result has degree ", r[0].Degree());
  std::size_t bad = 0;
  for (std::size_t i = 0; i < n; i++) {
    bool agrees = val(r[0].Evaluate(mk<T>(s.xs[i]))) == s.ys[i];
    bool root = val(r[1].Evaluate(mk<T>(s.xs[i]))) == 0;
    bad += !agrees;
    VP_CHECK(agrees == !root, "share ", i, agrees ? " is right but marked wrong" : " is wrong but not marked");
  }
  VP_CHECK(bad <= s.t, bad, " shares disagree with the result");
  VP_CHECK(r[1].Degree() == bad, "locator has degree ", r[1].Degree(), " for ", bad, " wrong shares");
  bool canon = true;
  for (std::size_t i = 0; i < s.n; i++) canon &= s.xs[i] == i + 1;
  if (canon) VP_CHECK(val(scl::ReconstructShamirRobust(vec<T>(s.ys), s.t)) == val(r[0].Evaluate(T(0))), "default points");
}
template <typename T>
static void robust(Case& c, std::size_t maxt) {
  auto A = ar<T>();
  auto s = gen<T>(c, 3, maxt);
  std::size_t n = 3 * s.t + 1;
  std::size_t e = c.chance(1, 6) ? 0 : c.range(s.t > 0, s.t);
  corrupt(c, s, e, n);
  // shares beyond the first 3t+1 are not part of the bound
  for (std::size_t i = n; i < s.n; i++)
    if (c.chance(1, 3)) s.ys[i] = gen_elem<T>(c);
  describe(c, s);
  c.label(e == s.t ? "t errors" : e ? "fewer than t errors" : "no error");
  robust_check(c, s, true);
  auto r = scl::ReconstructShamirRobust(vec<T>(s.ys), vec<T>(s.xs), s.t);
  Poly p = s.p;
  trim(p);
  Poly got;
  for (std::size_t i = 0; i <= r[0].Degree(); i++) got.push_back(val(r[0][i]));
  trim(got);
  VP_CHECK(got == p, "returned ", show(got), " instead of ", show(p));
  for (std::size_t i = 0; i < n; i++)
    VP_CHECK((val(r[1].Evaluate(mk<T>(s.xs[i]))) == 0) == (s.wrong.count(i) > 0), "position ", i, " identified wrongly");
  (void)A;
}
// arbitrary vectors: more than t errors, structured ones included
template <typename T>
static void beyond(Case& c) {
  auto A = ar<T>();
  auto s = gen<T>(c, 3, 2);
  std::size_t n = 3 * s.t + 1;
  if (c.flip()) corrupt(c, s, c.range(s.t + 1, n), n);
  else
    for (std::size_t i = 0; i < n; i++) {
      s.ys[i] = gen_elem<T>(c);
      s.wrong.insert(i);
    }
  describe(c, s);
  bool ex = decodable(std::vector<u128>(s.xs.begin(), s.xs.begin() + (long)n), std::vector<u128>(s.ys.begin(), s.ys.begin() + (long)n), s.t, A);
  c.label(ex ? "another polynomial in reach" : "nothing in reach");
  robust_check(c, s, ex);
}
VP_ARM(detect_13, 4000, 60000, 80, 1) { detect<Tiny<13>>(c); }
VP_ARM(detect_61, 3000, 40000, 80, 1) { detect<F61>(c); }
VP_ARM(detect_127, 400, 6000, 80, 1) { detect<F127>(c); }
VP_ARM(robust_17, 2500, 40000, 90, 1) { robust<Tiny<17>>(c, 4); }
VP_ARM(robust_61, 2000, 30000, 90, 2) { robust<F61>(c, 4); }
VP_ARM(robust_127, 300, 4000, 90, 2) { robust<F127>(c, 3); }
VP_ARM(beyond_11, 2500, 30000, 90, 1) { beyond<Tiny<11>>(c); }
VP_ARM(beyond_61, 500, 8000, 90, 1) { beyond<F61>(c); }
VP_ARM(large_detect_61, 60, 1500, 300, 0.7) { detect<F61>(c, 20); }
VP_ARM(large_robust_101, 250, 5000, 300, 1) { robust<Tiny<101>>(c, 12); }
VP_ARM(large_robust_61, 60, 1500, 300, 1.5) { robust<F61>(c, 10); }
VP_ARM(many_detect_61, 20, 400, 2500, 0.5) { detect<F61>(c, 3, 300); }
// more shares (and unknowns) than a byte counts, with exactly t errors, so that the first system that is tried has the answer
template <typename T>
static void many_robust(Case& c) {
  auto A = ar<T>();
  Shares<T> s;
  s.t = c.range(86, 88);
  s.n = 3 * s.t + 1;
  s.p.resize(s.t + 1);
  Rng r = c.rng();
  for (auto& x : s.p) x = A.red(r.next128());
  for (std::size_t i = 0; i < s.n; i++) s.xs.push_back(i + 1);
  for (auto x : s.xs) s.ys.push_back(eval(s.p, x, A));
  auto idx = c.perm(s.n);
  std::vector<std::size_t> at(idx.begin(), idx.end());
  if (c.flip()) std::swap(at[0], *std::find(at.begin(), at.end(), s.n - 1));  // the last one is wrong
  for (std::size_t i = 0; i < s.t; i++) {
    s.ys[at[i]] = A.add(s.ys[at[i]], A.red(1 + r.next() % 1000000));
    s.wrong.insert(at[i]);
  }
  describe(c, s);
  std::array<sd::Polynomial<T>, 2> q;
  VP_CHECK(!throws([&] { q = scl::ReconstructShamirRobust(vec<T>(s.ys), vec<T>(s.xs), s.t); }), "error reported although exactly t=", s.t, " shares are wrong");
  for (std::size_t i = 0; i <= s.t || i <= q[0].Degree(); i++) {
    u128 got = i <= q[0].Degree() ? val(q[0][i]) : 0, want = i <= s.t ? s.p[i] : 0;
    VP_CHECK(got == want, "coefficient ", i, " is ", str(got), " instead of ", str(want), " (t=", s.t, ")");
  }
  for (std::size_t i = 0; i < s.n; i++)
    VP_CHECK((val(q[1].Evaluate(mk<T>(s.xs[i]))) == 0) == (s.wrong.count(i) > 0), "position ", i, " identified wrongly");
}
VP_ARM(many_robust_61, 1, 20, 700, 1) { many_robust<F61>(c); }
