// C14: polynomials in coefficient and in point-value form.
#include <scl/ss/evpoly.h>
#include <scl/ss/poly.h>

#include "poly_model.h"
using namespace vp;
const char* vp::kRule =
    "polynomials of degree up to 8 (up to 150, and 40 points, in the large_* arms, degree 600 and 257 or more points in the long_* arms; with leading and inner zeros, shared leading terms so that sums cancel) over F_2, F_7, F_31 and both Mersenne "
    "fields; sums, differences, products and division compared coefficient-wise with a model and by evaluation; point-value polynomials on 1..8 distinct random "
    "points compared everywhere with the coefficient polynomial. Non-trivial: two operands of degree at least 1, or at least 2 points.";

template <typename T>
using P = scl::details::Polynomial<T>;
template <typename T>
using EP = scl::details::EvPolynomial<T>;

template <typename T>
static Poly gen_poly(Case& c, std::size_t maxdeg) {
  Poly p(maxdeg > 20 ? c.size(0, maxdeg + 1) : c.range(0, maxdeg + 1));
  for (auto& x : p) x = c.chance(1, 4) ? 0 : gen_elem<T>(c);
  return p;  // untrimmed
}
template <typename T>
static void same(const P<T>& p, Poly m, const char* what) {
  trim(m);
  std::size_t deg = m.empty() ? 0 : m.size() - 1;
  VP_CHECK(p.Degree() == deg, what, " has degree ", p.Degree(), " expected ", deg);
  for (std::size_t i = 0; i <= deg; i++) {
    u128 e = i < m.size() ? m[i] : 0;
    VP_CHECK(val(p[i]) == e, what, " coefficient ", i, " is ", str(val(p[i])), " expected ", str(e));
  }
  VP_CHECK(p.IsZero() == m.empty(), what, " IsZero");
  VP_CHECK(val(p.ConstantTerm()) == (m.empty() ? 0 : m[0]), what, " constant term");
  VP_CHECK(val(p.LeadingTerm()) == (m.empty() ? 0 : m.back()), what, " leading term");
}

// coefficients by exponent from "name(var) = c0 + c1var + c2var^2"
template <typename T>
static void printed(const P<T>& p, const Poly& m, const std::string& text, const std::string& name, const std::string& var) {
  std::string head = name + "(" + var + ") = ";
  VP_CHECK(text.rfind(head, 0) == 0, "printed as '", text.substr(0, 60), "' instead of '", head, "...'");
  std::map<std::size_t, std::string> got;
  std::size_t at = head.size(), last = 0;
  while (at <= text.size()) {
    auto end = text.find(" + ", at);
    if (end == std::string::npos) end = text.size();
    std::string term = text.substr(at, end - at);
    auto d = term.find_first_not_of("0123456789");
    std::string num = term.substr(0, d), rest = d == std::string::npos ? "" : term.substr(d);
    std::size_t e = 0;
    if (!rest.empty()) {
      VP_CHECK(rest.rfind(var, 0) == 0, "term '", term, "'");
      rest = rest.substr(var.size());
      e = 1;
      if (!rest.empty()) {
        VP_CHECK(rest[0] == '^' && rest.size() > 1 && rest.size() < 7 && rest.find_first_not_of("0123456789", 1) == std::string::npos, "term '", term, "'");
        e = std::stoul(rest.substr(1));
      }
    }
    VP_CHECK(got.empty() || e > last, "exponents out of order in '", text.substr(0, 200), "'");
    last = e;
    got[e] = num;
    at = end + 3;
  }
  for (std::size_t i = 0; i <= p.Degree(); i++) {
    u128 want = i < m.size() ? m[i] : 0;
    std::string g = got.count(i) ? got[i] : "0";
    VP_CHECK(g == str(want), "coefficient ", i, " prints as '", g, "' instead of ", str(want));
  }
  VP_CHECK(last <= p.Degree(), "exponent ", last, " printed for a polynomial of degree ", p.Degree());
}

template <typename T>
static void coeff(Case& c, std::size_t D = 8) {
  auto A = ar<T>();
  Poly a = gen_poly<T>(c, D), b = gen_poly<T>(c, D);
  if (c.chance(1, 3)) {  // b shares the upper part of a (or its negation), so sums and differences cancel
    b = a;
    bool neg = c.flip();
    std::size_t keep = c.range(0, a.size());
    for (std::size_t i = 0; i < b.size(); i++) b[i] = i < keep ? gen_elem<T>(c) : neg ? A.neg(a[i]) : a[i];
  }
  if (c.chance(1, 6)) {
    Poly q = gen_poly<T>(c, 3);
    trim(q);
    Poly bb = b;
    trim(bb);
    a = pmul(bb, q, A);  // exactly divisible
  }
  c.note(T::Name(), " a=", show(a), " b=", show(b));
  P<T> p = P<T>::Create(vec<T>(a)), q = P<T>::Create(vec<T>(b));
  trim(a);
  trim(b);
  c.interesting(a.size() > 1 && b.size() > 1);
  same(p, a, "a");
  same(q, b, "b");
  Poly s = padd(a, b, A), d = psub(a, b, A), m = pmul(a, b, A);
  if (s.size() < std::max(a.size(), b.size()) || d.size() < std::max(a.size(), b.size())) c.label("cancellation");
  auto ps = p.Add(q), pd = p.Subtract(q), pm = p.Multiply(q);
  same(ps, s, "sum");
  same(pd, d, "difference");
  same(pm, m, "product");
  same(p.Add(p), padd(a, a, A), "a+a");
  same(p.Subtract(p), {}, "a-a");
  same(p.Multiply(p), pmul(a, a, A), "a*a");
  if (c.chance(1, 4)) {
    std::ostringstream os;
    os << p;
    VP_CHECK(os.str() == p.ToString(), "streamed text differs from ToString");
    printed(p, a, p.ToString(), "f", "x");
    std::string nm = c.flip() ? "poly" : "g", var = c.flip() ? "alpha" : "Y";
    printed(pm, m, pm.ToString(nm.c_str(), var.c_str()), nm, var);
  }
  for (int i = 0; i < 4; i++) {
    u128 x = gen_elem<T>(c);
    T X = mk<T>(x);
    T pa = p.Evaluate(X), qa = q.Evaluate(X);
    VP_CHECK(val(pa) == eval(a, x, A), "a(", str(x), ") is ", str(val(pa)), " expected ", str(eval(a, x, A)));
    VP_CHECK(ps.Evaluate(X) == pa + qa && pd.Evaluate(X) == pa - qa && pm.Evaluate(X) == pa * qa, "evaluation is not a homomorphism at ", str(x));
  }
  if (b.empty()) {
    c.label("division by zero");
    VP_CHECK(throws([&] { p.Divide(q); }), "division by the zero polynomial accepted");
  } else {
    auto qr = p.Divide(q);
    Poly Q, R;
    for (std::size_t i = 0; i <= qr[0].Degree(); i++) Q.push_back(val(qr[0][i]));
    for (std::size_t i = 0; i <= qr[1].Degree(); i++) R.push_back(val(qr[1][i]));
    same(qr[0], Q, "quotient");
    same(qr[1], R, "remainder");
    trim(Q);
    trim(R);
    c.label(R.empty() ? "exact division" : "with remainder");
    VP_CHECK(R.size() < b.size() || (R.empty()), "deg r = ", (int)R.size() - 1, " deg d = ", b.size() - 1);
    VP_CHECK(padd(pmul(Q, b, A), R, A) == a, "q*d + r differs from f: q=", show(Q), " r=", show(R));
  }
  same(p, a, "a afterwards");
  same(q, b, "b afterwards");
  same(P<T>(), {}, "default polynomial");
  u128 k = gen_elem<T>(c);
  same(P<T>(mk<T>(k)), {k}, "constant polynomial");
}

template <typename T>
static void points(Case& c, std::size_t N = 8) {
  auto A = ar<T>();
  std::size_t maxn = A.m <= N ? (std::size_t)A.m : N;
  std::size_t n = N > 8 ? c.size(1, maxn) : c.range(1, maxn);
  auto xs = distinct<T>(c, n);
  Poly a = gen_poly<T>(c, n - 1), b = gen_poly<T>(c, n - 1);
  if (a.size() > n) a.resize(n);
  if (b.size() > n) b.resize(n);
  if (c.chance(1, 4)) std::fill(a.begin() + (long)(a.size() + 1) / 2, a.end(), 0);  // lower degree than the points allow
  std::vector<u128> ya, yb;
  for (auto x : xs) {
    ya.push_back(eval(a, x, A));
    yb.push_back(eval(b, x, A));
  }
  c.note(T::Name(), " x=", show(xs), " a=", show(a), " b=", show(b));
  c.interesting(n > 1);
  EP<T> p(vec<T>(xs), vec<T>(ya)), q(vec<T>(xs), vec<T>(yb));
  auto coef = [](Poly k) { return P<T>::Create(vec<T>(k)); };
  auto everywhere = [&](const EP<T>& e, const Poly& k, const char* what) {
    P<T> kp = coef(k);
    std::vector<u128> at = xs;
    for (int i = 0; i < 4; i++) at.push_back(gen_elem<T>(c));
    for (auto x : at) {
      VP_CHECK(val(e.Evaluate(mk<T>(x))) == eval(k, x, A), what, " at ", str(x), " is ", str(val(e.Evaluate(mk<T>(x)))), " expected ", str(eval(k, x, A)));
      VP_CHECK(e.Evaluate(mk<T>(x)) == kp.Evaluate(mk<T>(x)), what, " differs from the coefficient form at ", str(x));
    }
    auto v = e.Evaluate(vec<T>(at));
    VP_CHECK(v.Size() == at.size(), what, " batch evaluation size");
    for (std::size_t i = 0; i < at.size(); i++) VP_CHECK(val(v[i]) == eval(k, at[i], A), what, " batch evaluation at ", str(at[i]));
  };
  everywhere(p, a, "a");
  VP_CHECK(p.Degree() == n - 1 && vals(p.GetX()) == xs && vals(p.GetY()) == ya && val(p.GetFirstPoint()) == xs[0], "accessors");
  for (std::size_t i = 0; i < n; i++) VP_CHECK(val(p[i]) == ya[i], "operator[]");
  everywhere(p.Add(q), padd(a, b, A), "a+b");
  everywhere(p.Subtract(q), psub(a, b, A), "a-b");
  everywhere(p.Subtract(p), {}, "a-a");
  everywhere(q, b, "b");
  // consecutive points from a start, and the defaults
  if (A.m >= n) {
    u128 st = gen_elem<T>(c);
    std::vector<u128> xc, x0;
    for (std::size_t i = 0; i < n; i++) {
      xc.push_back(A.add(st, i));
      x0.push_back(i);
    }
    EP<T> r(mk<T>(st), vec<T>(ya)), z(vec<T>(ya));
    VP_CHECK(vals(r.GetX()) == xc && vals(z.GetX()) == x0, "consecutive points");
    u128 x = gen_elem<T>(c);
    VP_CHECK(val(r.Evaluate(mk<T>(x))) == lagrange(xc, ya, x, A), "polynomial on consecutive points at ", str(x));
    VP_CHECK(val(z.Evaluate(mk<T>(x))) == lagrange(x0, ya, x, A), "polynomial on 0.. at ", str(x));
  }
  u128 k = gen_elem<T>(c), x = gen_elem<T>(c);
  VP_CHECK(val(EP<T>(mk<T>(k)).Evaluate(mk<T>(x))) == k, "constant polynomial");
  VP_CHECK(val(EP<T>().Evaluate(mk<T>(x))) == 0, "default polynomial");
  {  // constants are values at 0 and go together
    EP<T> cst(mk<T>(k)), one(vec<T>({x}));
    VP_CHECK(val(cst.Add(one).Evaluate(mk<T>(k))) == A.add(k, x) && val(cst.Subtract(EP<T>()).Evaluate(mk<T>(x))) == k, "sums of constant polynomials");
    VP_CHECK(cst.Degree() == 0 && val(cst[0]) == k && cst.IsZero() == (k == 0) && EP<T>().IsZero(), "constant polynomial");
  }
  // mismatching point sets
  {
    auto ox = xs;
    auto kind = c.range(0, 2);
    if (kind == 0 && A.m > n) {  // one other point
      auto j = c.range(0, n - 1);
      ox[j] = distinct<T>(c, 1, xs)[0];
      c.label("other point");
      EP<T> o(vec<T>(ox), vec<T>(yb));
      VP_CHECK(throws([&] { p.Add(o); }) && throws([&] { p.Subtract(o); }), "different points accepted: ", show(ox));
    } else if (kind == 1 && n > 1) {  // fewer points
      ox.pop_back();
      auto oy = yb;
      oy.pop_back();
      c.label("fewer points");
      EP<T> o(vec<T>(ox), vec<T>(oy));
      VP_CHECK(throws([&] { p.Add(o); }) && throws([&] { o.Add(p); }) && throws([&] { p.Subtract(o); }) && throws([&] { o.Subtract(p); }), "fewer points accepted");
    } else {  // counts differ
      auto oy = yb;
      if (c.flip()) oy.push_back(0);
      else oy.pop_back();
      VP_CHECK(throws([&] { EP<T> o(vec<T>(xs), vec<T>(oy)); }), "mismatching numbers of points and values accepted");
      VP_CHECK(throws([&] { EP<T> o{scl::Vec<T>(), scl::Vec<T>()}; }), "empty point set accepted");
      VP_CHECK(throws([&] { EP<T> o(mk<T>(k), scl::Vec<T>()); }), "empty point set accepted");
    }
  }
  everywhere(p, a, "a afterwards");
}
// hundreds of points
template <typename T>
static void long_points(Case& c) {
  auto A = ar<T>();
  std::size_t n = c.range(257, 330);
  u64 seed = c.word();
  auto next = [&] { return A.red(splitmix(seed)); };
  std::vector<u128> xs, ya, yb;
  u128 st = c.flip() ? A.neg(c.range(0, 400)) : next();
  bool consecutive = c.flip();
  for (std::size_t i = 0; i < n; i++) {
    xs.push_back(consecutive ? A.add(st, i) : A.add(st, A.mul(i, 7 + i)));
    ya.push_back(next());
    yb.push_back(next());
  }
  c.note(T::Name(), " ", n, " points from ", str(st), consecutive ? ", consecutive" : "");
  c.interesting();
  EP<T> p = consecutive && c.flip() ? EP<T>(mk<T>(st), vec<T>(ya)) : EP<T>(vec<T>(xs), vec<T>(ya)), q(vec<T>(xs), vec<T>(yb));
  VP_CHECK(p.Degree() == n - 1 && vals(p.GetX()) == xs && vals(p.GetY()) == ya, "accessors of ", n, " points");
  auto at = [&](const EP<T>& e, const std::vector<u128>& ys, u128 x, const char* what) {
    u128 want = lagrange(xs, ys, x, A), got = val(e.Evaluate(mk<T>(x)));
    VP_CHECK(got == want, what, " through ", n, " points is ", str(got), " at ", str(x), " instead of ", str(want));
  };
  at(p, ya, next(), "a polynomial");
  at(p, ya, xs[c.range(250, n - 1)], "a polynomial");
  std::vector<u128> ys;
  bool sum = c.flip();
  for (std::size_t i = 0; i < n; i++) ys.push_back(sum ? A.add(ya[i], yb[i]) : A.sub(ya[i], yb[i]));
  at(sum ? p.Add(q) : p.Subtract(q), ys, next(), sum ? "a sum" : "a difference");
  auto ox = xs;
  ox[c.range(256, n - 1)] = A.add(xs[n - 1], 1 + c.range(0, 5) + 7 * n + n * n);
  EP<T> o(vec<T>(ox), vec<T>(yb));
  VP_CHECK(throws([&] { p.Add(o); }) && throws([&] { o.Subtract(p); }), "different points accepted");
}
VP_ARM(long_points_m61, 3, 80, 40, 0.5) { long_points<F61>(c); }
#define ARMS(T, s, q)                                    \
  VP_ARM(coeff_##s, q, q * 15, 60, 1) { coeff<T>(c); } \
  VP_ARM(points_##s, q, q * 15, 60, 1) { points<T>(c); }
ARMS(Tiny<2>, f2, 2500)
ARMS(Tiny<7>, f7, 4000)
ARMS(Tiny<31>, f31, 4000)
ARMS(F61, m61, 2500)
ARMS(F127, m127, 600)
VP_ARM(large_coeff_f31, 150, 3000, 1500, 0.5) { coeff<Tiny<31>>(c, 150); }
VP_ARM(large_coeff_m61, 100, 2000, 1500, 0.7) { coeff<F61>(c, 150); }
VP_ARM(long_coeff_m61, 8, 200, 6000, 0.5) { coeff<F61>(c, 600); }
VP_ARM(large_points_m61, 60, 1200, 1500, 1) { points<F61>(c, 40); }
