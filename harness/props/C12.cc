// C12: vectors and matrices against entry-wise definitions.
#include "scl_util.h"
using namespace vp;
const char* vp::kRule =
    "histories of up to 10 operations over a pool of 3 vectors (0..7 entries) and 3 matrices (up to 5x5), shapes often but not always compatible, "
    "and in the large_* arms up to 4 operations (a third of them products) on vectors of up to 700 entries and matrices of up to 70x70 with sizes often next to a power of two, and in the long_* arms with one side of 257 to 700 entries; "
    "operands may be the same object, over F_2, F_7, both Mersenne fields, Z2k with K=1,13,64,100,128; all objects are compared with the model after each "
    "operation; printed text parsed back entry by entry. In the random_* arms random elements, vectors and matrices (up to 40x40) drawn in a row: equal seeds agree, entries of wide rings are pairwise distinct and differ under another seed, every bit varies. Non-trivial: at least one product, in-place or rejected operation on objects with two or more entries.";

template <typename T>
struct MV {
  scl::Vec<T> x;
  std::vector<u128> v;
};
template <typename T>
struct MM {
  scl::Mat<T> x;
  std::size_t r = 0, k = 0;
  std::vector<u128> v;
};
template <typename T>
static void same(const MV<T>& a, const char* what, std::size_t i) {
  VP_CHECK(a.x.Size() == a.v.size(), what, ": vector ", i, " has size ", a.x.Size(), " expected ", a.v.size());
  for (std::size_t j = 0; j < a.v.size(); j++) VP_CHECK(val(a.x[j]) == a.v[j], what, ": vector ", i, " entry ", j, " is ", str(val(a.x[j])), " expected ", str(a.v[j]));
}
template <typename T>
static void same(const MM<T>& a, const char* what, std::size_t i) {
  VP_CHECK(a.x.Rows() == a.r && a.x.Cols() == a.k, what, ": matrix ", i, " is ", a.x.Rows(), "x", a.x.Cols(), " expected ", a.r, "x", a.k);
  for (std::size_t j = 0; j < a.v.size(); j++)
    VP_CHECK(val(a.x(j / a.k, j % a.k)) == a.v[j], what, ": matrix ", i, " entry ", j, " is ", str(val(a.x(j / a.k, j % a.k))), " expected ", str(a.v[j]));
}

// the entries between each pair of brackets, separated by sep and spaces
static std::vector<std::vector<std::string>> numbers(const std::string& t, char sep) {
  std::vector<std::vector<std::string>> r;
  std::size_t at = 0;
  while ((at = t.find('[', at)) != std::string::npos) {
    auto end = t.find(']', at);
    VP_CHECK(end != std::string::npos, "unbalanced brackets in ", t);
    r.emplace_back();
    std::string cur;
    for (std::size_t i = at + 1; i < end; i++) {
      if (t[i] == ' ' || t[i] == sep) {
        if (sep == ',' && t[i] == sep) VP_CHECK(!cur.empty(), "an empty entry in ", t);
        if (!cur.empty() && (sep == ' ' || t[i] == sep)) {
          r.back().push_back(cur);
          cur.clear();
        }
      } else cur += t[i];
    }
    if (!cur.empty()) r.back().push_back(cur);
    at = end;
  }
  return r;
}

template <typename T>
static void history(Case& c, int large = 0) {
  auto A = ar<T>();
  std::vector<MV<T>> V(3);
  std::vector<MM<T>> M(3);
  std::size_t L = large == 2 ? c.range(257, c.chance(1, 6) ? 700 : 300) : 0;  // the one long side
  auto dim = [&](std::size_t small, bool vec = false) { return large == 2 ? (vec || c.chance(1, 5) ? L : (std::size_t)c.range(1, 3)) : large ? c.size(1, vec ? 700 : 70) : (std::size_t)c.range(vec ? 0 : 1, small); };
  std::size_t n0 = dim(7, true), r0 = large == 2 ? L : dim(5), k0 = large == 2 ? (std::size_t)c.range(1, 3) : dim(5);
  c.note(T::Name(), T::BitSize());
  auto genv = [&](std::size_t n) {
    MV<T> a;
    std::vector<T> e;
    for (std::size_t j = 0; j < n; j++) {
      a.v.push_back(gen_elem<T>(c));
      e.push_back(mk<T>(a.v.back()));
    }
    switch (c.range(0, 3)) {
      case 0: a.x = scl::Vec<T>(e); break;
      case 1: a.x = scl::Vec<T>(e.begin(), e.end()); break;
      case 2:
        a.x.Reserve(n);
        for (auto& y : e) a.x.Emplace(y);
        break;
      default:
        a.x = scl::Vec<T>(n);
        for (std::size_t j = 0; j < n; j++) {
          VP_CHECK(a.x[j] == T(), "fresh vector not zero");
          a.x[j] = e[j];
        }
    }
    return a;
  };
  auto genm = [&](std::size_t r, std::size_t k) {
    MM<T> a;
    a.r = r;
    a.k = k;
    std::vector<T> e;
    for (std::size_t j = 0; j < r * k; j++) {
      a.v.push_back(gen_elem<T>(c));
      e.push_back(mk<T>(a.v.back()));
    }
    if (c.flip()) a.x = scl::Mat<T>::FromVector(r, k, e);
    else {
      a.x = (r == k && c.flip()) ? scl::Mat<T>(r) : scl::Mat<T>(r, k);
      for (std::size_t j = 0; j < r * k; j++) {
        VP_CHECK(a.x(j / k, j % k) == T(), "fresh matrix not zero");
        a.x(j / k, j % k) = e[j];
      }
    }
    return a;
  };
  for (std::size_t i = 0; i < 3; i++) {
    V[i] = genv(c.chance(3, 4) ? n0 : dim(7, true));
    if (c.chance(3, 4)) M[i] = c.flip() ? genm(r0, k0) : c.flip() ? genm(k0, r0) : large == 2 ? genm(k0, k0) : genm(r0, r0);
    else {
      std::size_t r = dim(5), k = large == 2 && r > 3 ? (std::size_t)c.range(1, 3) : dim(5);
      M[i] = genm(r, k);
    }
    c.note("v", i, ":", V[i].v.size(), " m", i, ":", M[i].r, "x", M[i].k);
  }
  auto all = [&](const char* what) {
    for (std::size_t i = 0; i < 3; i++) {
      same(V[i], what, i);
      same(M[i], what, i);
    }
  };
  all("initial");
  std::size_t steps = c.range(1, large ? 4 : 10);
  for (std::size_t s = 0; s < steps; s++) {
    std::size_t a = c.range(0, 2), b = c.range(0, 2), d = c.range(0, 2);
    auto op = large && c.chance(1, 3) ? 18 : c.range(0, 27);
    if (large == 2 && op == 18 && M[a].r * M[a].k * M[b].k > 600000) op = 21;
    c.note("op", op, "(", a, ",", b, ")->", d);
    static const char* names[] = {"Vec Add", "Vec AddInPlace", "Vec Subtract", "Vec SubtractInPlace", "Vec MultiplyEntryWise", "Vec MultiplyEntryWiseInPlace", "Dot", "Sum", "Vec ScalarMultiply", "Vec ScalarMultiplyInPlace", "Vec Equals", "ToRow/ColumnMatrix", "Mat Add", "Mat AddInPlace", "Mat Subtract", "Mat SubtractInPlace", "Mat MultiplyEntryWise", "Mat MultiplyEntryWiseInPlace", "Mat Multiply", "Mat ScalarMultiply", "Mat ScalarMultiplyInPlace", "Transpose", "Resize", "IsIdentity", "Mat Equals", "Identity", "entries", "printing"};
    const char* nm = names[op];
    bool big = op < 12 ? V[a].v.size() > 1 : M[a].v.size() > 1;
    c.interesting(big && (op == 1 || op == 3 || op == 4 || op == 5 || op == 6 || op == 9 || op == 13 || op == 15 || op >= 16));
    if (a == b) c.label("aliased");
    auto f2 = [&](int k, u128 x, u128 y) { return k == 0 ? A.add(x, y) : k == 1 ? A.sub(x, y) : A.mul(x, y); };
    if (op <= 5) {
      int k = (int)op / 2;
      bool ip = op % 2;
      if (V[a].v.size() != V[b].v.size()) {
        c.label("rejected");
        c.interesting(big);
        VP_CHECK(throws([&] {
                   if (op == 0) V[a].x.Add(V[b].x);
                   if (op == 1) V[a].x.AddInPlace(V[b].x);
                   if (op == 2) V[a].x.Subtract(V[b].x);
                   if (op == 3) V[a].x.SubtractInPlace(V[b].x);
                   if (op == 4) V[a].x.MultiplyEntryWise(V[b].x);
                   if (op == 5) V[a].x.MultiplyEntryWiseInPlace(V[b].x);
                 }),
                 nm, " of sizes ", V[a].v.size(), " and ", V[b].v.size(), " accepted");
      } else {
        std::vector<u128> e;
        for (std::size_t j = 0; j < V[a].v.size(); j++) e.push_back(f2(k, V[a].v[j], V[b].v[j]));
        if (ip) {
          auto& q = k == 0 ? V[a].x.AddInPlace(V[b].x) : k == 1 ? V[a].x.SubtractInPlace(V[b].x) : V[a].x.MultiplyEntryWiseInPlace(V[b].x);
          VP_CHECK(&q == &V[a].x, nm, " returned another object");
          V[a].v = e;
        } else {
          V[d].x = k == 0 ? V[a].x.Add(V[b].x) : k == 1 ? V[a].x.Subtract(V[b].x) : V[a].x.MultiplyEntryWise(V[b].x);
          V[d].v = e;
        }
      }
    } else if (op == 6) {
      if (V[a].v.size() != V[b].v.size()) {
        c.label("rejected");
        VP_CHECK(throws([&] { V[a].x.Dot(V[b].x); }), "dot product of sizes ", V[a].v.size(), " and ", V[b].v.size(), " accepted");
      } else {
        u128 e = 0;
        for (std::size_t j = 0; j < V[a].v.size(); j++) e = A.add(e, A.mul(V[a].v[j], V[b].v[j]));
        VP_CHECK(val(V[a].x.Dot(V[b].x)) == e, "dot product is ", str(val(V[a].x.Dot(V[b].x))), " expected ", str(e));
      }
    } else if (op == 7) {
      u128 e = 0;
      for (auto x : V[a].v) e = A.add(e, x);
      VP_CHECK(val(V[a].x.Sum()) == e, "sum");
    } else if (op == 8 || op == 9) {
      bool own = V[a].v.size() && c.chance(1, 3);
      std::size_t oi = own ? c.range(0, V[a].v.size() - 1) : 0;
      u128 s0 = own ? V[a].v[oi] : gen_elem<T>(c);
      T sc = mk<T>(s0);
      std::vector<u128> e;
      for (auto x : V[a].v) e.push_back(A.mul(s0, x));
      if (own) c.label("scaled by own entry");
      if (op == 8) {
        V[d].x = V[a].x.ScalarMultiply(own ? V[a].x[oi] : sc);
        V[d].v = e;
      } else {
        V[a].x.ScalarMultiplyInPlace(own ? V[a].x[oi] : sc);
        V[a].v = e;
      }
    } else if (op == 10) {
      VP_CHECK(V[a].x.Equals(V[b].x) == (V[a].v == V[b].v), "Equals");
      auto t = V[a].x;
      VP_CHECK(t.Equals(V[a].x), "a copy is not equal");
      if (V[a].v.size()) {  // one entry off
        std::size_t j = c.range(0, V[a].v.size() - 1);
        t[j] = mk<T>(A.add(V[a].v[j], 1));
        VP_CHECK(!t.Equals(V[a].x) && !V[a].x.Equals(t), "vectors that differ in entry ", j, " are equal");
      }
    } else if (op == 11) {
      if (V[a].v.size()) {
        bool row = c.flip();
        M[d].x = row ? V[a].x.ToRowMatrix() : V[a].x.ToColumnMatrix();
        M[d].v = V[a].v;
        M[d].r = row ? 1 : V[a].v.size();
        M[d].k = row ? V[a].v.size() : 1;
      }
    } else if (op <= 17) {
      int k = (int)(op - 12) / 2;
      bool ip = op % 2;
      if (M[a].r != M[b].r || M[a].k != M[b].k) {
        c.label("rejected");
        VP_CHECK(throws([&] {
                   if (op == 12) M[a].x.Add(M[b].x);
                   if (op == 13) M[a].x.AddInPlace(M[b].x);
                   if (op == 14) M[a].x.Subtract(M[b].x);
                   if (op == 15) M[a].x.SubtractInPlace(M[b].x);
                   if (op == 16) M[a].x.MultiplyEntryWise(M[b].x);
                   if (op == 17) M[a].x.MultiplyEntryWiseInPlace(M[b].x);
                 }),
                 nm, " of ", M[a].r, "x", M[a].k, " and ", M[b].r, "x", M[b].k, " accepted");
      } else {
        std::vector<u128> e;
        for (std::size_t j = 0; j < M[a].v.size(); j++) e.push_back(f2(k, M[a].v[j], M[b].v[j]));
        if (ip) {
          auto& q = k == 0 ? M[a].x.AddInPlace(M[b].x) : k == 1 ? M[a].x.SubtractInPlace(M[b].x) : M[a].x.MultiplyEntryWiseInPlace(M[b].x);
          VP_CHECK(&q == &M[a].x, nm, " returned another object");
          M[a].v = e;
        } else {
          auto t = k == 0 ? M[a].x.Add(M[b].x) : k == 1 ? M[a].x.Subtract(M[b].x) : M[a].x.MultiplyEntryWise(M[b].x);
          M[d].r = M[a].r;
          M[d].k = M[a].k;
          M[d].x = t;
          M[d].v = e;
        }
      }
    } else if (op == 18) {
      if (M[a].k != M[b].r) {
        c.label("rejected");
        VP_CHECK(throws([&] { M[a].x.Multiply(M[b].x); }), "product of ", M[a].r, "x", M[a].k, " and ", M[b].r, "x", M[b].k, " accepted");
      } else {
        c.label(M[a].r == M[a].k && M[b].r == M[b].k ? "square product" : "rectangular product");
        MM<T> e;
        e.r = M[a].r;
        e.k = M[b].k;
        for (std::size_t i = 0; i < e.r; i++)
          for (std::size_t j = 0; j < e.k; j++) {
            u128 t = 0;
            for (std::size_t l = 0; l < M[a].k; l++) t = A.add(t, A.mul(M[a].v[i * M[a].k + l], M[b].v[l * M[b].k + j]));
            e.v.push_back(t);
          }
        e.x = M[a].x.Multiply(M[b].x);
        M[d] = e;
      }
    } else if (op == 19 || op == 20) {
      bool own = c.chance(1, 3);
      std::size_t oi = own ? c.range(0, M[a].v.size() - 1) : 0;
      u128 s0 = own ? M[a].v[oi] : gen_elem<T>(c);
      T sc = mk<T>(s0);
      std::vector<u128> e;
      for (auto x : M[a].v) e.push_back(A.mul(s0, x));
      T& ref = own ? M[a].x(oi / M[a].k, oi % M[a].k) : sc;
      if (op == 19) {
        auto t = M[a].x.ScalarMultiply(ref);
        M[d].r = M[a].r;
        M[d].k = M[a].k;
        M[d].x = t;
        M[d].v = e;
      } else {
        M[a].x.ScalarMultiplyInPlace(ref);
        M[a].v = e;
      }
    } else if (op == 21) {
      MM<T> e;
      e.r = M[a].k;
      e.k = M[a].r;
      for (std::size_t i = 0; i < e.r; i++)
        for (std::size_t j = 0; j < e.k; j++) e.v.push_back(M[a].v[j * M[a].k + i]);
      e.x = M[a].x.Transpose();
      M[d] = e;
    } else if (op == 22) {
      std::size_t tot = M[a].v.size();
      std::size_t r = dim(8), k;
      if (c.chance(2, 3)) {
        while (tot % r) r--;
        k = tot / r;
      } else k = dim(8);
      if (r * k == tot) {
        M[a].x.Resize(r, k);
        M[a].r = r;
        M[a].k = k;
      } else
        VP_CHECK(throws([&] { M[a].x.Resize(r, k); }), "resize of ", M[a].r, "x", M[a].k, " to ", r, "x", k, " accepted");
    } else if (op == 23) {
      bool id = M[a].r == M[a].k;
      for (std::size_t j = 0; id && j < M[a].v.size(); j++) id = M[a].v[j] == A.red(j / M[a].k == j % M[a].k);
      VP_CHECK(M[a].x.IsIdentity() == id, "IsIdentity is ", M[a].x.IsIdentity());
      VP_CHECK(M[a].x.IsSquare() == (M[a].r == M[a].k), "IsSquare");
    } else if (op == 24) {
      VP_CHECK(M[a].x.Equals(M[b].x) == (M[a].r == M[b].r && M[a].k == M[b].k && M[a].v == M[b].v), "Mat Equals");
      auto t = M[a].x;
      VP_CHECK(t.Equals(M[a].x), "a copy is not equal");
      std::size_t j = c.range(0, M[a].v.size() - 1);
      t(j / M[a].k, j % M[a].k) = mk<T>(A.add(M[a].v[j], 1));
      VP_CHECK(!t.Equals(M[a].x) && !M[a].x.Equals(t), "matrices that differ in entry ", j, " are equal");
    } else if (op == 25) {
      std::size_t n = dim(5);
      M[d].x = scl::Mat<T>::Identity(n);
      M[d].r = M[d].k = n;
      M[d].v.assign(n * n, 0);
      for (std::size_t j = 0; j < n; j++) M[d].v[j * n + j] = A.red(1);
      VP_CHECK(M[d].x.IsIdentity(), "identity is not the identity");
      if (c.flip()) {  // one entry off
        std::size_t j = c.range(0, n * n - 1);
        u128 nv = A.add(M[d].v[j], 1);
        M[d].v[j] = nv;
        M[d].x(j / n, j % n) = mk<T>(nv);
        VP_CHECK(!M[d].x.IsIdentity(), "not the identity but reported as such");
      }
    } else if (op == 27) {
      // entries in their places, whatever the spacing
      std::string tv = V[a].x.ToString(), tm = M[a].x.ToString();
      std::ostringstream ov, om;
      ov << V[a].x;
      om << M[a].x;
      VP_CHECK(ov.str() == tv && om.str() == tm, "streamed text differs from ToString");
      if (V[a].v.size()) {
        auto g = numbers(tv, ',');
        VP_CHECK(g.size() == 1, "a vector prints as ", g.size(), " rows");
        VP_CHECK(g[0].size() == V[a].v.size(), "a vector of ", V[a].v.size(), " entries prints ", g[0].size(), " of them");
        for (std::size_t j = 0; j < g[0].size(); j++) VP_CHECK(g[0][j] == str(V[a].v[j]), "entry ", j, " of a vector prints as ", g[0][j], " instead of ", str(V[a].v[j]));
      }
      auto g = numbers(tm, ' ');
      VP_CHECK(g.size() == M[a].r, "a matrix of ", M[a].r, " rows prints as ", g.size(), " rows");
      for (std::size_t i = 0; i < M[a].r; i++) {
        VP_CHECK(g[i].size() == M[a].k, "row ", i, " of ", M[a].k, " entries prints ", g[i].size());
        for (std::size_t j = 0; j < M[a].k; j++) VP_CHECK(g[i][j] == str(M[a].v[i * M[a].k + j]), "entry (", i, ",", j, ") prints as ", g[i][j], " instead of ", str(M[a].v[i * M[a].k + j]));
      }
    } else {
      // iterators and element access
      std::size_t j = 0;
      for (auto it = V[a].x.begin(); it != V[a].x.end(); ++it, ++j) VP_CHECK(val(*it) == V[a].v[j], "iterator");
      VP_CHECK(j == V[a].v.size(), "iterator range");
      for (auto it = V[a].x.rbegin(); it != V[a].x.rend(); ++it) VP_CHECK(val(*it) == V[a].v[--j], "reverse iterator");
      std::size_t r = c.range(1, 6), k = c.range(1, 6);
      auto sv = V[b].x.ToStlVector();
      if (sv.size() != r * k) VP_CHECK(throws([&] { scl::Mat<T>::FromVector(r, k, sv); }), "FromVector of ", sv.size(), " entries as ", r, "x", k, " accepted");
    }
    all(nm);
  }
}
#define H(name, T, q) VP_ARM(name, q, q * 12, 230, 1) { history<T>(c); }
H(f2, Tiny<2>, 3000)
H(f7, Tiny<7>, 3000)
H(mersenne61, F61, 3000)
H(mersenne127, F127, 3000)
VP_ARM(z2k, 5000, 60000, 230, 1.5) {
  switch (c.range(0, 4)) {
    case 0: history<scl::Z2k<1>>(c); break;
    case 1: history<scl::Z2k<13>>(c); break;
    case 2: history<scl::Z2k<64>>(c); break;
    case 3: history<scl::Z2k<100>>(c); break;
    default: history<scl::Z2k<128>>(c); break;
  }
}
VP_ARM(large_61, 150, 2500, 26000, 1.5) { history<F61>(c, 1); }
VP_ARM(large_127, 60, 1000, 26000, 1) { history<F127>(c, 1); }
VP_ARM(large_z2k, 150, 2500, 26000, 1.5) {
  if (c.flip()) history<scl::Z2k<13>>(c, 1);
  else history<scl::Z2k<128>>(c, 1);
}
VP_ARM(long_61, 24, 800, 12000, 1) { history<F61>(c, 2); }
VP_ARM(long_z2k, 24, 800, 12000, 1) {
  if (c.flip()) history<scl::Z2k<13>>(c, 2);
  else history<scl::Z2k<128>>(c, 2);
}
// identities (and transposes) with more rows and columns than a byte counts
template <typename T>
static void long_identity(Case& c) {
  std::size_t n = c.range(257, 300);
  auto I = scl::Mat<T>::Identity(n);
  c.note(T::Name(), " identity of ", n);
  c.interesting(true);
  VP_CHECK(I.Rows() == n && I.Cols() == n && I.IsSquare(), "shape of the identity");
  for (std::size_t i = 0; i < n; i++)
    for (std::size_t j = 0; j < n; j++) VP_CHECK(val(I(i, j)) == u128(i == j), "entry ", i, ",", j, " of the identity of ", n, " is ", I(i, j));
  VP_CHECK(I.IsIdentity(), "the identity of ", n, " is not the identity");
  for (std::size_t s = 0; s < 12; s++) {
    std::size_t i = c.flip() ? c.range(256, n - 1) : c.range(0, n - 1), j = c.chance(1, 3) ? i : c.flip() ? c.range(256, n - 1) : c.range(0, n - 1);
    T old = I(i, j);
    I(i, j) = old + T(1);
    VP_CHECK(!I.IsIdentity(), "a matrix with ", I(i, j), " at ", i, ",", j, " is the identity of ", n);
    auto t = I.Transpose();
    VP_CHECK(t(j, i) == I(i, j), "entry ", i, ",", j, " is not at ", j, ",", i, " of the transpose");
    if (i != j) VP_CHECK(!t.Equals(I) && !I.Equals(t), "a matrix that is not symmetric at ", i, ",", j, " equals its transpose");
    I(i, j) = old;
  }
  VP_CHECK(I.IsIdentity(), "the identity of ", n, " is not the identity any more");
}
VP_ARM(long_identity, 6, 200, 80, 0.3) {
  if (c.flip()) long_identity<F61>(c);
  else long_identity<scl::Z2k<13>>(c);
}
// random vectors: the predicate decides which entries are random, the rest are zero
VP_ARM(partial_random, 1500, 10000, 30, 0.3) {
  auto s = c.bytes(16);
  scl::PRG g(s.data());
  std::size_t n = c.range(0, 20);
  u64 m = c.word();
  auto v = scl::Vec<F127>::PartialRandom(n, [&](std::size_t i) { return (m >> i) & 1; }, g);
  VP_CHECK(v.Size() == n, "size");
  c.note("n ", n, " mask ", m);
  c.interesting(n > 1);
  for (std::size_t i = 0; i < n; i++) VP_CHECK((v[i] == F127()) == !((m >> i) & 1), "entry ", i, " is ", v[i]);
  auto w = scl::Mat<F127>::Random(1 + n, 3, g);
  VP_CHECK(w.Rows() == n + 1 && w.Cols() == 3, "random matrix shape");
}
// every entry of a random object is drawn from the whole ring with fresh output of the generator
template <typename T>
static void random_objects(Case& c) {
  auto seed = c.bytes(16), other = seed;
  other[c.range(0, 15)] ^= (unsigned char)(1 + c.range(0, 254));
  struct Shape {
    int kind;
    std::size_t r, k;
  };
  std::vector<Shape> plan;
  for (std::size_t i = 0, n = c.range(1, 4); i < n; i++) {
    bool large = c.chance(1, 4);
    plan.push_back({(int)c.range(0, 2), c.size(1, large ? 40 : 9), c.size(1, large ? 40 : 9)});
    c.note(plan.back().kind == 0 ? "element" : plan.back().kind == 1 ? "vector" : "matrix", plan.back().r, "x", plan.back().k);
  }
  auto draw = [&](const std::vector<unsigned char>& sd) {
    scl::PRG g(sd.data());
    std::vector<u128> v;
    for (auto& p : plan) {
      if (p.kind == 0) v.push_back(val(T::Random(g)));
      if (p.kind == 1) {
        auto x = scl::Vec<T>::Random(p.r * p.k, g);
        VP_CHECK(x.Size() == p.r * p.k, "random vector of ", x.Size(), " entries instead of ", p.r * p.k);
        for (std::size_t j = 0; j < x.Size(); j++) v.push_back(val(x[j]));
      }
      if (p.kind == 2) {
        auto x = scl::Mat<T>::Random(p.r, p.k, g);
        VP_CHECK(x.Rows() == p.r && x.Cols() == p.k, "random matrix of shape ", x.Rows(), "x", x.Cols(), " instead of ", p.r, "x", p.k);
        for (std::size_t j = 0; j < p.r * p.k; j++) v.push_back(val(x(j / p.k, j % p.k)));
      }
    }
    return v;
  };
  auto a = draw(seed), b = draw(seed), d = draw(other);
  c.interesting(a.size() > 1);
  VP_CHECK(a == b, "the same seed gave other entries");
  if (T::BitSize() >= 60) {
    std::map<u128, std::size_t> at;
    for (std::size_t i = 0; i < a.size(); i++) {
      VP_CHECK(at.emplace(a[i], i).second, "entries ", at[a[i]], " and ", i, " of ", a.size(), " are both ", str(a[i]));
      VP_CHECK(a[i] != d[i], "entry ", i, " of ", a.size(), " is ", str(a[i]), " under two seeds");
    }
  }
  if (a.size() >= 90)
    for (std::size_t bit = 0; bit < T::BitSize(); bit++) {
      std::size_t ones = 0;
      for (auto x : a) ones += (std::size_t)(x >> bit & 1);
      VP_CHECK(ones && ones < a.size(), "bit ", bit, " is the same in all of ", a.size(), " random entries");
    }
}
VP_ARM(random_61, 1000, 8000, 40, 0.4) { random_objects<F61>(c); }
VP_ARM(random_127, 600, 6000, 40, 0.3) { random_objects<F127>(c); }
VP_ARM(random_z13, 600, 6000, 40, 0.2) { random_objects<scl::Z2k<13>>(c); }
VP_ARM(random_z64, 600, 6000, 40, 0.2) { random_objects<scl::Z2k<64>>(c); }
VP_ARM(random_z100, 600, 6000, 40, 0.2) { random_objects<scl::Z2k<100>>(c); }
