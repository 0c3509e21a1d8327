// C29: the view of t parties says nothing about the inputs of the others beyond their outputs.
// vp: flavours=opt budget=60 tbudget=420
#include "tp_util.h"
using namespace vp;
const char* vp::kRule =
    "small circuits for n parties, every admissible (n, t, k) up to n=8 for TurboPack and n=8 for DN07, t >= 1; a set T of t parties (with and without P1; first, last, random). The circuit is run many times with the shipped "
    "preprocessing, fresh random inputs of the parties outside T and fixed inputs of T. Oracle: V = every element sent or received by T over the whole run, W = the clear values of all wires, O = the outputs of T; over the "
    "runs the span of V and W together must have dimension dim V + dim W - dim O, i.e. no linear combination of what T sees is a function of wire values other than T's outputs. "
    "In the arms *_any rows are tangent vectors (derivatives of view and wire values when all dealings and the inputs outside T move along a random line), which decides the same for algebraic relations of any degree. Non-trivial: a multiplication and an input outside T.";

static std::size_t rank_of_differences(const std::vector<std::vector<u128>>& rows, std::size_t lo, std::size_t hi) {
  std::vector<std::vector<u128>> m;
  for (std::size_t i = 1; i < rows.size(); i++) {
    m.emplace_back();
    for (std::size_t j = lo; j < hi; j++) m.back().push_back(fa().sub(rows[i][j], rows[0][j]));
  }
  return rank_of(m);
}
struct Who {
  std::vector<std::size_t> T;
  std::vector<bool> in;
  std::string name;
};
static Who coalition(Case& c, std::size_t n, std::size_t t) {
  Who w;
  w.T = c.perm(n);
  auto how = c.range(0, 3);
  if (how == 1) std::sort(w.T.begin(), w.T.end());
  if (how == 2) std::sort(w.T.rbegin(), w.T.rend());
  if (how == 3) {  // with P1
    auto it = std::find(w.T.begin(), w.T.end(), 0u);
    std::iter_swap(w.T.begin(), it);
  }
  w.T.resize(t);
  std::sort(w.T.begin(), w.T.end());
  w.in.assign(n, false);
  for (auto x : w.T) {
    w.in[x] = true;
    w.name += " " + std::to_string(x);
  }
  return w;
}
// which of the columns of V let a wire value through
static void blame(const std::vector<std::vector<u128>>& rows, std::size_t v, std::size_t w, const std::vector<std::string>& from, std::string& out) {
  // smallest prefix of V that already shows the dependence
  auto excess = [&](std::size_t p) {
    std::vector<std::vector<u128>> m;
    for (std::size_t i = 1; i < rows.size(); i++) {
      m.emplace_back();
      for (std::size_t j = 0; j < p; j++) m.back().push_back(fa().sub(rows[i][j], rows[0][j]));
      for (std::size_t j = v; j < v + w; j++) m.back().push_back(fa().sub(rows[i][j], rows[0][j]));
    }
    return (long)rank_of_differences(rows, 0, p) + (long)rank_of_differences(rows, v, v + w) - (long)rank_of(m);
  };
  long all = excess(v);
  std::size_t lo = 0, hi = v;
  while (lo < hi) {
    std::size_t mid = (lo + hi) / 2;
    if (excess(mid) == all) hi = mid;
    else lo = mid + 1;
  }
  if (lo) out = from[lo - 1];
}
template <typename RunOnce>
static void leak(Case& c, const Spec& s, std::size_t n, const Who& who, RunOnce once) {
  std::vector<std::vector<u128>> rows;
  std::vector<std::string> from;
  std::size_t nv = 0, nw = s.nodes.size(), stop = 24;
  Rng rng = c.rng();
  std::vector<std::vector<u128>> in(n);
  for (std::size_t p = 0; p < n; p++)
    for (std::size_t i = 0; i < s.in[p].size(); i++) in[p].push_back(rng.next128() % P61);
  for (std::size_t run = 0; run < stop; run++) {
    for (std::size_t p = 0; p < n; p++)
      if (!who.in[p])
        for (auto& x : in[p]) x = rng.next128() % P61;
    std::map<std::pair<unsigned, unsigned>, Bytes> log;
    once(in, log);
    std::vector<u128> row;
    for (auto& kv : log) {
      if (!who.in[kv.first.first] && !who.in[kv.first.second]) continue;
      for (std::size_t i = 0; i + 8 <= kv.second.size(); i += 8) {
        row.push_back(val(FF::Read(kv.second.data() + i)));
        if (!run) from.push_back("element " + std::to_string(i / 8) + " from party " + std::to_string(kv.first.first) + " to party " + std::to_string(kv.first.second));
      }
    }
    if (run && row.size() != nv) {
      c.label("amount of traffic varies");
      return;
    }
    nv = row.size();
    auto v = s.eval(in);
    row.insert(row.end(), v.begin(), v.end());
    rows.push_back(row);
    if (run + 1 == stop) {  // enough once further runs add nothing
      std::size_t r = rank_of_differences(rows, 0, nv + nw);
      if (r + 4 > rows.size() - 1) stop += std::max<std::size_t>(stop / 2, 8);
    }
    if (stop > 700) c.discard();
  }
  std::size_t rv = rank_of_differences(rows, 0, nv), rw = rank_of_differences(rows, nv, nv + nw), rvw = rank_of_differences(rows, 0, nv + nw);
  std::vector<std::vector<u128>> o;
  for (std::size_t i = 1; i < rows.size(); i++) {
    o.emplace_back();
    for (auto p : who.T)
      for (auto x : s.out[p]) o.back().push_back(fa().sub(rows[i][nv + x], rows[0][nv + x]));
  }
  std::size_t ro = rank_of(o);
  if (rvw + ro == rv + rw) return;
  std::string b;
  blame(rows, nv, nw, from, b);
  fail("parties", who.name, " saw ", nv, " elements (", rv, " dimensions over ", rows.size(), " runs); with the ", rw, " dimensions of the wire values they span ", rvw, " instead of ", rv + rw - ro, " (their outputs: ", ro,
       "): they learn a relation among the others' wires; it is complete with ", b);
}
// The same for relations that are not linear: all the dealings of a run are moved along a random direction (dealing X + s * dealing Y is a dealing)
// together with the inputs of the others; everything seen is a polynomial in s, whose derivative at 0 is a tangent vector of the view at a random point.
using Log = std::map<std::pair<unsigned, unsigned>, Bytes>;
using Deal = std::vector<std::vector<std::vector<u128>>>;
static Deal dealings(SimNet& net) {
  Deal d(net.n(), std::vector<std::vector<u128>>(net.n()));
  for (std::size_t i = 0; i < net.n(); i++)
    for (std::size_t j = 0; j < net.n(); j++)
      for (auto& m : net.queue(i, j)) {
        VP_CHECK(m.size() % 8 == 0, "a dealing of ", m.size(), " bytes");
        for (std::size_t b = 0; b < m.size(); b += 8) d[i][j].push_back(val(FF::Read(m.data() + b)));
      }
  return d;
}
static void deal(SimNet& net, const Deal& x, const Deal& y, u128 s) {
  auto A = fa();
  for (std::size_t i = 0; i < net.n(); i++)
    for (std::size_t j = 0; j < net.n(); j++) {
      std::size_t e = 0;
      for (auto& m : net.queue(i, j))
        for (std::size_t b = 0; b < m.size(); b += 8, e++) {
          u64 w = (u64)A.add(x[i][j][e], A.mul(s, y[i][j][e]));
          std::memcpy(m.data() + b, &w, 8);
        }
    }
}
// once(inputs, dealt, log): a run; dealt is called with all dealings in the queues; returns whether the outputs are right
template <typename Once>
static void algebraic(Case& c, const Spec& s, std::size_t n, const Who& who, Once once) {
  auto A = fa();
  Rng rng = c.rng();
  auto inputs = [&](bool all) {
    std::vector<std::vector<u128>> in(n);
    for (std::size_t p = 0; p < n; p++)
      for (std::size_t i = 0; i < s.in[p].size(); i++) in[p].push_back(all || !who.in[p] ? rng.next128() % P61 : 0);
    return in;
  };
  auto x0 = inputs(true);
  Deal base, dir;
  Log log;
  once(x0, [&](SimNet& net) { base = dealings(net); }, log);
  std::size_t nv = 0, nw = s.nodes.size();
  bool odd = false;
  auto at = [&](const std::vector<std::vector<u128>>& y, u128 st) {
    auto in = x0;
    for (std::size_t p = 0; p < n; p++)
      for (std::size_t i = 0; i < in[p].size(); i++) in[p][i] = A.add(in[p][i], A.mul(st, y[p][i]));
    std::vector<u128> row;
    Log l;
    bool ok = once(in, [&](SimNet& net) {
      deal(net, base, dir, st);
      auto d = dealings(net);
      for (std::size_t i = 0; i < n; i++)
        for (std::size_t j = 0; j < n; j++)
          if (who.in[i] || who.in[j]) row.insert(row.end(), d[i][j].begin(), d[i][j].end());
      l.clear();
    }, l);
    if (!ok) odd = true;
    for (auto& kv : l) {
      if (!who.in[kv.first.first] && !who.in[kv.first.second]) continue;
      for (std::size_t i = 0; i + 8 <= kv.second.size(); i += 8) row.push_back(val(FF::Read(kv.second.data() + i)));
    }
    if (nv && row.size() != nv) odd = true;
    nv = row.size();
    auto v = s.eval(in);
    row.insert(row.end(), v.begin(), v.end());
    return row;
  };
  auto tangent = [&](const std::vector<std::vector<u128>>& y, std::size_t h) {
    std::vector<u128> r;
    for (std::size_t m = 1; m <= h && !odd; m++) {
      // weight of f(m) - f(-m) in f'(0)
      u128 w = A.pow(A.mul(2, m), P61 - 2);
      for (std::size_t q = 1; q <= h; q++)
        if (q != m) w = A.mul(w, A.mul(A.mul(q, q), A.pow(A.sub(A.mul(q, q), A.mul(m, m)), P61 - 2)));
      auto f = at(y, m), g = at(y, A.neg(m));
      if (odd) break;
      if (r.empty()) r.assign(f.size(), 0);
      for (std::size_t i = 0; i < f.size(); i++) r[i] = A.add(r[i], A.mul(w, A.sub(f[i], g[i])));
    }
    return r;
  };
  auto fresh = [&] {
    Log l;
    once(x0, [&](SimNet& net) { dir = dealings(net); }, l);
    for (std::size_t i = 0; i < n; i++)
      for (std::size_t j = 0; j < n; j++)
        if (dir[i][j].size() != base[i][j].size()) odd = true;
  };
  fresh();
  auto y = inputs(false);
  std::size_t h = 1;
  for (std::vector<u128> a = tangent(y, 1), b; !odd; h++, a = b) {
    b = tangent(y, h + 1);
    if (a == b) break;
    if (h == 6) c.discard();
  }
  std::vector<std::vector<u128>> rows;
  for (std::size_t stop = 24; rows.size() < stop && !odd;) {
    fresh();
    y = inputs(false);
    if (odd) break;
    rows.push_back(tangent(y, h));
    if (rows.size() == stop && rank_of(rows) + 4 > stop) stop += std::max<std::size_t>(stop / 2, 8);
    if (stop > 500) c.discard();
  }
  if (odd) {  // other randomness than the dealings
    c.label("run not determined by its dealings");
    return;
  }
  c.label("degree up to " + std::to_string(2 * h));
  auto part = [&](std::size_t lo, std::size_t hi) {
    std::vector<std::vector<u128>> m;
    for (auto& r : rows) m.emplace_back(r.begin() + lo, r.begin() + hi);
    return rank_of(m);
  };
  std::vector<std::vector<u128>> o;
  for (auto& r : rows) {
    o.emplace_back();
    for (auto p : who.T)
      for (auto x : s.out[p]) o.back().push_back(r[nv + x]);
  }
  std::size_t rv = part(0, nv), rw = part(nv, nv + nw), rvw = part(0, nv + nw), ro = rank_of(o);
  VP_CHECK(rvw + ro == rv + rw, "parties", who.name, " saw ", nv, " elements (", rv, " dimensions of freedom over ", rows.size(), " directions); with the ", rw, " of the wire values they have ", rvw, " instead of ", rv + rw - ro,
           " (their outputs: ", ro, "): what they saw and the others' wires satisfy a relation");
}
VP_ARM(turbopack, 60, 1500, 140, 3) {
  Params q = gen_params(c, 3, 2);
  if (!q.t) q = {q.n + 1, 1, q.k};
  Who who = coalition(c, q.n, q.t);
  Spec s = gen_spec(c, q.n, q.k, 2, c.chance(1, 4) ? 5 : 3);
  std::size_t honest = 0;
  for (std::size_t p = 0; p < q.n; p++) honest += who.in[p] ? 0 : s.in[p].size();
  if (s.nodes.size() > 30) c.discard();
  c.note("n=", q.n, " t=", q.t, " k=", q.k, " parties", who.name, " circuit ", s.show());
  c.label(who.in[0] ? "with P1" : "without P1");
  c.interesting(honest && s.size());
  auto order = c.chance(1, 3) ? c.perm(q.n) : std::vector<std::size_t>();
  leak(c, s, q.n, who, [&](const std::vector<std::vector<u128>>& in, std::map<std::pair<unsigned, unsigned>, Bytes>& log) {
    TurboRun r(s, q);
    r.order = order;
    r.net.keep = true;
    r.connect();
    r.prepare(Prep::Real, 0, 0);
    r.online(in);
    log.swap(r.net.log);
  });
}
VP_ARM(dn07, 90, 2500, 140, 2) {
  std::size_t t = c.range(1, 3), n = 2 * t + 1 + (c.chance(1, 3) ? c.range(1, 8 - 2 * t - 1) : 0);
  Who who = coalition(c, n, t);
  Spec s = gen_spec(c, n, 1, 3, c.chance(1, 4) ? 8 : 4);
  std::size_t honest = 0;
  for (std::size_t p = 0; p < n; p++) honest += who.in[p] ? 0 : s.in[p].size();
  c.note("n=", n, " t=", t, " parties", who.name, " circuit ", s.show());
  c.label(who.in[0] ? "with P1" : "without P1");
  c.interesting(honest && s.size());
  auto order = c.chance(1, 3) ? c.perm(n) : std::vector<std::size_t>();
  leak(c, s, n, who, [&](const std::vector<std::vector<u128>>& in, std::map<std::pair<unsigned, unsigned>, Bytes>& log) {
    DnRun r(s, n, t);
    r.order = order;
    r.net.keep = true;
    r.prepare(true, 0, nullptr);
    r.online(in);
    log.swap(r.net.log);
  });
}

VP_ARM(turbopack_any, 40, 1000, 140, 3) {
  Params q = gen_params(c, c.chance(1, 8) ? 3 : 2, 2);
  if (!q.t) q = {q.n + 1, 1, q.k};
  Who who = coalition(c, q.n, q.t);
  Spec s = gen_spec(c, q.n, q.k, 2, c.chance(1, 4) ? 4 : 2);
  std::size_t honest = 0;
  for (std::size_t p = 0; p < q.n; p++) honest += who.in[p] ? 0 : s.in[p].size();
  if (s.nodes.size() > 24) c.discard();
  c.note("n=", q.n, " t=", q.t, " k=", q.k, " parties", who.name, " circuit ", s.show());
  c.label(who.in[0] ? "with P1" : "without P1");
  c.interesting(honest && s.size());
  algebraic(c, s, q.n, who, [&](const std::vector<std::vector<u128>>& in, const std::function<void(SimNet&)>& dealt, Log& log) {
    TurboRun r(s, q);
    r.net.keep = true;
    r.dealt = [&](SimNet& net) {
      dealt(net);
      net.log.clear();
    };
    r.connect();
    r.prepare(Prep::Real, 0, 0);
    r.online(in);
    log.swap(r.net.log);
    return r.outputs() == s.outputs(s.eval(in));
  });
}
VP_ARM(dn07_any, 60, 1500, 140, 2) {
  std::size_t t = c.chance(1, 6) ? 3 : c.range(1, 2), n = 2 * t + 1 + (t < 3 && c.chance(1, 3) ? c.range(1, 3) : 0);
  Who who = coalition(c, n, t);
  Spec s = gen_spec(c, n, 1, 2, c.chance(1, 4) ? 6 : 3);
  std::size_t honest = 0;
  for (std::size_t p = 0; p < n; p++) honest += who.in[p] ? 0 : s.in[p].size();
  c.note("n=", n, " t=", t, " parties", who.name, " circuit ", s.show());
  c.label(who.in[0] ? "with P1" : "without P1");
  c.interesting(honest && s.size());
  algebraic(c, s, n, who, [&](const std::vector<std::vector<u128>>& in, const std::function<void(SimNet&)>& dealt, Log& log) {
    DnRun r(s, n, t);
    r.net.keep = true;
    r.dealt = [&](SimNet& net) {
      dealt(net);
      net.log.clear();
    };
    r.prepare(true, 0, nullptr);
    r.online(in);
    log.swap(r.net.log);
    return r.outputs() == s.outputs(s.eval(in));
  });
}
