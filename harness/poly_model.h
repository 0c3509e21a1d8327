// Polynomials over integers mod p, as coefficient vectors (low first, no trailing zeros; empty = 0).
#ifndef VP_POLY_MODEL_H
#define VP_POLY_MODEL_H
#include <map>
#include "models.h"
#include "scl_util.h"
namespace vp {
using Poly = std::vector<u128>;
inline void trim(Poly& p) {
  while (!p.empty() && p.back() == 0) p.pop_back();
}
inline u128 eval(const Poly& p, u128 x, const Ar& A) {
  u128 y = 0, xp = A.red(1);
  for (auto cf : p) {
    y = A.add(y, A.mul(cf, xp));
    xp = A.mul(xp, x);
  }
  return y;
}
inline Poly padd(const Poly& a, const Poly& b, const Ar& A) {
  Poly r(std::max(a.size(), b.size()), 0);
  for (std::size_t i = 0; i < r.size(); i++) r[i] = A.add(i < a.size() ? a[i] : 0, i < b.size() ? b[i] : 0);
  trim(r);
  return r;
}
inline Poly psub(const Poly& a, const Poly& b, const Ar& A) {
  Poly r(std::max(a.size(), b.size()), 0);
  for (std::size_t i = 0; i < r.size(); i++) r[i] = A.sub(i < a.size() ? a[i] : 0, i < b.size() ? b[i] : 0);
  trim(r);
  return r;
}
inline Poly pmul(const Poly& a, const Poly& b, const Ar& A) {
  if (a.empty() || b.empty()) return {};
  Poly r(a.size() + b.size() - 1, 0);
  for (std::size_t i = 0; i < a.size(); i++)
    for (std::size_t j = 0; j < b.size(); j++) r[i + j] = A.add(r[i + j], A.mul(a[i], b[j]));
  trim(r);
  return r;
}
// value at x of the unique polynomial of degree < n through (xs, ys)
// coefficients of the values in the interpolated value at x, computed once per set of points
inline const std::vector<u128>& lagrange_coefficients(const std::vector<u128>& xs, u128 x, const Ar& A) {
  struct Key {
    u128 m, x;
    std::vector<u128> xs;
    bool operator<(const Key& o) const { return m != o.m ? m < o.m : x != o.x ? x < o.x : xs < o.xs; }
  };
  static thread_local std::map<Key, std::vector<u128>> memo;
  if (memo.size() > 4000) memo.clear();
  auto& co = memo[{A.m, x, xs}];
  if (co.size() == xs.size()) return co;
  co.clear();
  for (std::size_t i = 0; i < xs.size(); i++) {
    u128 num = A.red(1), den = A.red(1);
    for (std::size_t j = 0; j < xs.size(); j++)
      if (j != i) {
        num = A.mul(num, A.sub(x, xs[j]));
        den = A.mul(den, A.sub(xs[i], xs[j]));
      }
    co.push_back(A.mul(num, A.pow(den, A.m - 2)));
  }
  return co;
}
inline u128 lagrange(const std::vector<u128>& xs, const std::vector<u128>& ys, u128 x, const Ar& A) {
  auto& co = lagrange_coefficients(xs, x, A);
  u128 z = 0;
  for (std::size_t i = 0; i < xs.size(); i++) z = A.add(z, A.mul(ys[i], co[i]));
  return z;
}
// do all points lie on one polynomial of degree <= d?
inline bool on_degree(const std::vector<u128>& xs, const std::vector<u128>& ys, std::size_t d, const Ar& A) {
  if (xs.size() <= d + 1) return true;
  std::vector<u128> x0(xs.begin(), xs.begin() + d + 1), y0(ys.begin(), ys.begin() + d + 1);
  for (std::size_t i = d + 1; i < xs.size(); i++)
    if (lagrange(x0, y0, xs[i], A) != ys[i]) return false;
  return true;
}
// n distinct residues avoiding `not_in`
template <typename T>
std::vector<u128> distinct(Case& c, std::size_t n, std::vector<u128> not_in = {}) {
  auto A = ar<T>();
  std::set<u128> seen(not_in.begin(), not_in.end());
  std::vector<u128> r;
  while (r.size() < n) {
    u128 x = gen_elem<T>(c);
    while (seen.count(x)) x = A.add(x, A.red(1));
    seen.insert(x);
    r.push_back(x);
  }
  return r;
}
template <typename T>
scl::Vec<T> vec(const std::vector<u128>& v) {
  scl::Vec<T> r;
  for (auto x : v) r.Emplace(mk<T>(x));
  return r;
}
template <typename T>
std::vector<u128> vals(const scl::Vec<T>& v) {
  std::vector<u128> r;
  for (std::size_t i = 0; i < v.Size(); i++) r.push_back(val(v[i]));
  return r;
}
inline std::string show(const std::vector<u128>& v) {
  std::string s = "[";
  for (std::size_t i = 0; i < v.size() && s.size() < 700; i++) s += (i ? " " : "") + str(v[i]);
  return s + "]";
}
}  // namespace vp
#endif
