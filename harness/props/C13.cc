// C13: row reduction and linear systems.
// vp: flavours=asan,opt arms_asan=rref_f2,solve_f2,inverse_f2,rref_f3,solve_f3,inverse_f3,rref_f7,solve_f7,inverse_f7,rref_m61,solve_m61,inverse_m61,rref_m127,solve_m127,inverse_m127,large_rref_f7,large_rref_m61,large_solve_f7,large_solve_m61,thin_rref_m61,thin_solve_m61 arms_opt=square_m61,thin_solve_m61,solve_m127,solve_m61,rref_m61,rref_m127 budget=28
#include "scl/math/la.h"
#include "scl_util.h"
using namespace vp;
const char* vp::kRule =
    "matrices up to 6x7 (up to 40x40 in the large_* arms, 300 by 4 in the thin_* arms, some 257 x 257 in square_m61) over F_2, F_3, F_7 and both Mersenne fields, made with a prescribed rank (product of random factors, zero rows and columns, "
    "permuted and duplicated rows) or random; right-hand sides consistent by construction or random. Oracle: uniqueness of RREF (shape conditions + same row "
    "space) and ranks from an independent fraction-free elimination on integers mod p. Non-trivial: rank deficient or non-square with at least 2 rows and columns.";

using Mtx = std::vector<std::vector<u128>>;
// rank by elimination from the last row/column upwards (different pivot order from the code under test)
static std::size_t rank_of(Mtx a, const Ar& A) {
  std::size_t n = a.size(), m = n ? a[0].size() : 0, rk = 0;
  std::vector<bool> used(n, false);
  for (std::size_t cc = m; cc-- > 0;) {
    std::size_t p = n;
    for (std::size_t i = n; i-- > 0;)
      if (!used[i] && a[i][cc]) p = i;
    if (p == n) continue;
    used[p] = true;
    rk++;
    u128 inv = A.pow(a[p][cc], A.m - 2);
    for (std::size_t i = 0; i < n; i++)
      if (i != p && a[i][cc]) {
        u128 f = A.mul(a[i][cc], inv);
        for (std::size_t j = 0; j < m; j++) a[i][j] = A.sub(a[i][j], A.mul(f, a[p][j]));
      }
  }
  return rk;
}
template <typename T>
static Mtx gen_matrix(Case& c, std::size_t n, std::size_t m) {
  auto A = ar<T>();
  Mtx a(n, std::vector<u128>(m, 0));
  auto el = [&](Case& c) { return gen_elem<T>(c); };
  switch (c.weighted({3, 4, 1, 1})) {
    case 0:
      for (auto& r : a)
        for (auto& x : r) x = el(c);
      break;
    case 1: {  // rank <= k
      std::size_t k = n > 7 && c.flip() ? std::min(n, m) : c.range(0, std::min(n, m));
      Mtx l(n, std::vector<u128>(k)), r(k, std::vector<u128>(m));
      for (auto& q : l)
        for (auto& x : q) x = el(c);
      for (auto& q : r)
        for (auto& x : q) x = el(c);
      for (std::size_t i = 0; i < n; i++)
        for (std::size_t j = 0; j < m; j++)
          for (std::size_t t = 0; t < k; t++) a[i][j] = A.add(a[i][j], A.mul(l[i][t], r[t][j]));
      break;
    }
    case 2:  // permutation-like, needs row swaps
      for (std::size_t i = 0; i < n; i++) a[i][(m - 1 - i % m)] = A.red(1 + c.range(0, 3));
      break;
    default: {  // sparse
      for (auto& r : a)
        for (auto& x : r)
          if (c.chance(1, 3)) x = el(c);
    }
  }
  return a;
}
template <typename T>
static scl::Mat<T> to_mat(const Mtx& a) {
  scl::Mat<T> m(a.size(), a[0].size());
  for (std::size_t i = 0; i < a.size(); i++)
    for (std::size_t j = 0; j < a[0].size(); j++) m(i, j) = mk<T>(a[i][j]);
  return m;
}
template <typename T>
static Mtx from_mat(const scl::Mat<T>& m) {
  Mtx a(m.Rows(), std::vector<u128>(m.Cols()));
  for (std::size_t i = 0; i < m.Rows(); i++)
    for (std::size_t j = 0; j < m.Cols(); j++) a[i][j] = val(m(i, j));
  return a;
}
static std::string show(const Mtx& a) {
  std::string s = "[";
  for (auto& r : a) {
    for (auto x : r) s += str(x) + " ";
    s += "; ";
  }
  return s.substr(0, 900) + "]";
}
// zero rows / columns, applied in place
static void blank(Case& c, Mtx& a) {
  if (c.chance(1, 5)) {
    auto i = c.range(0, a.size() - 1);
    for (auto& x : a[i]) x = 0;
  }
  if (c.chance(1, 5)) {
    auto j = c.range(0, a[0].size() - 1);
    for (auto& r : a) r[j] = 0;
  }
  if (c.chance(1, 5) && a.size() > 1) a[a.size() - 1] = a[0];
}

template <typename T>
static void rref(Case& c, std::size_t big = 0) {
  auto A = ar<T>();
  std::size_t n = big ? c.size(1, big) : c.range(1, 6), m = big ? c.size(1, big) : c.range(1, 7);
  if (big >= 256) {  // long and thin
    n = big - c.range(0, 40), m = c.range(1, 4);
    if (c.flip()) std::swap(n, m);
  }
  Mtx a = gen_matrix<T>(c, n, m);
  blank(c, a);
  c.note(T::Name(), " ", show(a));
  std::size_t rk = rank_of(a, A);
  c.interesting(n > 1 && m > 1 && (n != m || rk < n));
  c.label(rk < std::min(n, m) ? "deficient" : "full rank");
  auto M = to_mat<T>(a);
  scl::details::RowReduceInPlace(M);
  VP_CHECK(M.Rows() == n && M.Cols() == m, "shape changed");
  Mtx r = from_mat(M);
  // reduced row echelon form: leading ones strictly to the right, their columns otherwise zero, zero rows last
  std::size_t last = 0, nz = 0;
  bool zero_seen = false;
  for (std::size_t i = 0; i < n; i++) {
    std::size_t l = 0;
    while (l < m && !r[i][l]) l++;
    if (l == m) {
      zero_seen = true;
      continue;
    }
    VP_CHECK(!zero_seen, "non-zero row ", i, " after a zero row: ", show(r));
    VP_CHECK(nz == 0 || l > last, "leading entries do not move right in row ", i, ": ", show(r));
    VP_CHECK(r[i][l] == A.red(1), "leading entry of row ", i, " is not 1: ", show(r));
    for (std::size_t k = 0; k < n; k++) VP_CHECK(k == i || !r[k][l], "pivot column ", l, " not cleared: ", show(r));
    last = l;
    nz++;
  }
  VP_CHECK(nz == rk, "rank ", nz, " expected ", rk, ": ", show(r));
  Mtx both = a;
  both.insert(both.end(), r.begin(), r.end());
  VP_CHECK(rank_of(both, A) == rk, "row space changed: ", show(r));
}

template <typename T>
static void solve(Case& c, std::size_t big = 0) {
  auto A = ar<T>();
  std::size_t n = big ? c.size(1, big) : c.range(1, 6), m = big ? (c.flip() ? n : c.size(1, big)) : c.range(1, 6);
  if (big >= 256) {
    n = big - c.range(0, 40), m = c.range(1, 4);
    if (c.chance(1, 4)) std::swap(n, m);
  }
  Mtx a;
  if (big == 257) {  // more unknowns than a byte counts; full rank, or a row that follows from two others
    n = c.range(257, 260), m = n + c.weighted({4, 1});
    Rng r = c.rng();
    a.assign(n, std::vector<u128>(m));
    for (auto& q : a)
      for (auto& x : q) x = A.red(r.next128());
    if (c.flip()) {
      std::size_t i = c.flip() ? n - 1 : c.range(2, n - 1);
      for (std::size_t j = 0; j < m; j++) a[i][j] = A.add(a[0][j], A.mul(2, a[1][j]));
    }
  } else {
    a = gen_matrix<T>(c, n, m);
    blank(c, a);
  }
  std::vector<u128> b(n, 0);
  bool cons = c.chance(2, 3);
  if (cons) {
    std::vector<u128> x(m);
    for (auto& y : x) y = gen_elem<T>(c);
    for (std::size_t i = 0; i < n; i++)
      for (std::size_t j = 0; j < m; j++) b[i] = A.add(b[i], A.mul(a[i][j], x[j]));
    if (c.chance(1, 4)) b[c.range(0, n - 1)] = gen_elem<T>(c);
  } else
    for (auto& y : b) y = gen_elem<T>(c);
  Mtx aug = a;
  for (std::size_t i = 0; i < n; i++) aug[i].push_back(b[i]);
  c.note(T::Name(), " [A|b] ", show(aug));
  std::size_t ra = rank_of(a, A), rb = rank_of(aug, A);
  bool consistent = ra == rb, unique = consistent && ra == m;
  c.label(std::string(n == m ? "square " : n > m ? "tall " : "wide ") + (unique ? "unique" : consistent ? "many" : "none"));
  c.interesting(n > 1 && m > 1 && (n != m || ra < n));
  auto M = to_mat<T>(a);
  scl::Vec<T> bv;
  for (auto y : b) bv.Emplace(mk<T>(y));
  std::size_t pre = c.range(0, 7);
  scl::Vec<T> x(pre);
  bool ok = scl::details::SolveLinearSystem(x, M, bv);
  VP_CHECK(ok == unique, "solver says ", ok, " but rank(A)=", ra, " rank(A|b)=", rb, " unknowns=", m);
  VP_CHECK(from_mat(M) == a, "coefficient matrix changed");
  for (std::size_t i = 0; i < n; i++) VP_CHECK(val(bv[i]) == b[i], "right-hand side changed");
  if (ok) {
    VP_CHECK(x.Size() == m, "solution has size ", x.Size());
    for (std::size_t i = 0; i < n; i++) {
      u128 s = 0;
      for (std::size_t j = 0; j < m; j++) s = A.add(s, A.mul(a[i][j], val(x[j])));
      VP_CHECK(s == b[i], "equation ", i, " not satisfied");
    }
    if (n == m) {  // read off the reduced matrix
      auto R = scl::details::CreateAugmentedMatrix(M, bv);
      scl::details::RowReduceInPlace(R);
      auto y = scl::details::ExtractSolution(R);
      VP_CHECK(y.Size() == m, "extracted solution has size ", y.Size());
      for (std::size_t j = 0; j < m; j++) VP_CHECK(y[j] == x[j], "unknown ", j, " extracted as ", y[j], " instead of ", x[j]);
    }
  }
  auto G = scl::details::CreateAugmentedMatrix(M, bv);
  VP_CHECK(from_mat(G) == aug, "augmented matrix");
  scl::details::RowReduceInPlace(G);
  VP_CHECK(scl::details::HasSolution(G, false) == consistent, "consistency test says ", !consistent, " rank(A)=", ra, " rank(A|b)=", rb);
  VP_CHECK(scl::details::HasSolution(G, true) == unique, "uniqueness test says ", !unique, " rank(A)=", ra, " rank(A|b)=", rb, " unknowns=", m);
  // a right-hand side of another size is refused
  scl::Vec<T> wrong(n + 1 + c.range(0, 2));
  if (n > 1 && c.flip()) wrong = scl::Vec<T>(n - 1);
  VP_CHECK(throws([&] { scl::details::SolveLinearSystem(x, M, wrong); }), "right-hand side of size ", wrong.Size(), " accepted for ", n, " equations");
}

// [A | B] with several right-hand sides: inverse of a regular matrix
template <typename T>
static void inverse(Case& c) {
  auto A = ar<T>();
  std::size_t n = c.range(1, 6);
  Mtx a = gen_matrix<T>(c, n, n);
  std::size_t rk = rank_of(a, A);
  c.note(T::Name(), " ", show(a));
  c.interesting(n > 1);
  auto M = to_mat<T>(a);
  auto aug = scl::details::CreateAugmentedMatrix(M, scl::Mat<T>::Identity(n));
  scl::details::RowReduceInPlace(aug);
  scl::Mat<T> L(n), R(n);
  for (std::size_t i = 0; i < n; i++)
    for (std::size_t j = 0; j < n; j++) {
      L(i, j) = aug(i, j);
      R(i, j) = aug(i, n + j);
    }
  VP_CHECK(L.IsIdentity() == (rk == n), "left half ", L, " for rank ", rk);
  if (rk == n) VP_CHECK(M.Multiply(R).IsIdentity() && R.Multiply(M).IsIdentity(), "not the inverse");
}
#define ARMS(T, s, q)                                          \
  VP_ARM(rref_##s, q, q * 15, 130, 1) { rref<T>(c); }    \
  VP_ARM(solve_##s, q * 2, q * 30, 150, 2) { solve<T>(c); }  \
  VP_ARM(inverse_##s, q / 2, q * 5, 110, 0.5) { inverse<T>(c); }
ARMS(Tiny<2>, f2, 4000)
ARMS(Tiny<3>, f3, 4000)
ARMS(Tiny<7>, f7, 4000)
ARMS(F61, m61, 3000)
ARMS(F127, m127, 1500)
VP_ARM(large_rref_f7, 150, 2500, 9000, 0.5) { rref<Tiny<7>>(c, 40); }
VP_ARM(large_rref_m61, 100, 2500, 9000, 0.7) { rref<F61>(c, 40); }
VP_ARM(large_solve_f7, 150, 2500, 9000, 0.5) { solve<Tiny<7>>(c, 40); }
VP_ARM(large_solve_m61, 120, 2500, 9000, 1) { solve<F61>(c, 40); }
VP_ARM(thin_rref_m61, 20, 400, 3000, 0.4) { rref<F61>(c, 300); }
VP_ARM(thin_solve_m61, 20, 400, 3000, 0.6) { solve<F61>(c, 300); }
VP_ARM(square_m61, 3, 40, 60, 1) { solve<F61>(c, 257); }
