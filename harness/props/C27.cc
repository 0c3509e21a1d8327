// C27: DN07 keeps every wire shared at degree t and opens nothing but freshly masked values.
// vp: flavours=asan,opt arms_asan=shares_real,shares_dummy arms_opt=shares_real,shares_mixed,fresh_masks,fresh_dealer,hidden,coalition,distinct_wide,shares_large,distinct_large,distinct_huge,coalition_many budget=56 tbudget=420 case_timeout=150
#include "tp_util.h"
using namespace vp;
const char* vp::kRule =
    "circuits and configurations as in C02, n up to 2t+4, every t < n/2 (also up to 29 parties, and circuits of hundreds of multiplications); shipped preprocessing, dealings replaced by random ones, constant preprocessing. Oracle: the clear value of every wire; a Lagrange model "
    "interpolates all parties' shares of every wire, what owners deal, what P1 receives and what P1 deals. Freshness: over many runs with the same inputs the masked inputs and opened products, and what one party deals, "
    "must be jointly of full rank, also with the dealings of t parties fixed (any t of up to 29) and the shares dealt to them given; no two masks of a run (up to 96 multiplications, in the distinct_huge arm beyond 65536) coincide; with masks and inputs fixed, the shares P1 receives must span all 2t dimensions per multiplication that the opened value leaves. Non-trivial: t >= 1 and a multiplication.";

static std::vector<u128> points(std::size_t n) {
  std::vector<u128> x;
  for (std::size_t i = 1; i <= n; i++) x.push_back(i);
  return x;
}
static std::size_t rank_of_differences(const std::vector<std::vector<u128>>& rows, std::size_t lo, std::size_t hi) {
  std::vector<std::vector<u128>> m;
  for (std::size_t i = 1; i < rows.size(); i++) {
    m.emplace_back();
    for (std::size_t j = lo; j < hi; j++) m.back().push_back(fa().sub(rows[i][j], rows[0][j]));
  }
  return rank_of(m);
}
using PairLog = std::map<std::pair<unsigned, unsigned>, Bytes>;
struct Odd {};  // traffic that is not one element per gate: judged by C06
static std::vector<u128> elems(PairLog& l, std::size_t a, std::size_t b, std::size_t want) {
  auto& x = l[{(unsigned)a, (unsigned)b}];
  if (x.size() != want * 8) throw Odd{};
  std::vector<u128> r;
  for (std::size_t i = 0; i < x.size(); i += 8) r.push_back(val(FF::Read(x.data() + i)));
  return r;
}
static std::vector<std::size_t> mults(const Spec& s, std::size_t l) {
  std::vector<std::size_t> g;
  for (std::size_t i = 0; i < s.nodes.size(); i++)
    if (s.nodes[i].kind == Spec::Mul && s.nodes[i].layer == l) g.push_back(i);
  return g;
}
// everything observable about one run
struct View {
  std::vector<u128> mask, dealt_in;                                // per input node: the mask its owner learned, the value it dealt
  std::map<std::size_t, std::vector<u128>> up, down;              // per multiplication: shares received by P1, dealt by P1 (first n-t parties)
  std::map<std::size_t, std::vector<u128>> in_shares, mask_shares;  // per input
};
static View run(DnRun& r, const std::vector<std::vector<u128>>& in, const std::function<void()>& prep) {
  View v;
  auto& s = r.spec;
  std::size_t n = r.n, t = r.t;
  auto take = [&] {
    PairLog l;
    l.swap(r.net.log);
    return l;
  };
  prep();
  r.net.keep = true;
  r.net.log.clear();
  r.each([](tp::DN07& d) { d.FDMapPrepToGates(); });
  r.each([](tp::DN07& d) { d.FDMultPartiesSendP1(); });
  auto fd = take();
  r.each([](tp::DN07& d) { d.FDMultP1Receives(); });
  for (std::size_t i = 0; i < n; i++) r.dn[i]->SetInputs(ffs(in[i]));
  r.each([](tp::DN07& d) { d.InputPartiesSendOwners(); });
  auto masks = take();
  r.each([](tp::DN07& d) { d.InputOwnersReceiveAndSendParties(); });
  auto dealt = take();
  r.each([](tp::DN07& d) { d.InputPartiesReceive(); });
  for (std::size_t o = 0; o < n; o++) {
    std::vector<std::vector<u128>> m(t + 1), d(n - t);
    for (std::size_t p = 0; p < t + 1; p++) m[p] = elems(masks, p, o, s.in[o].size());
    for (std::size_t p = 0; p < n - t; p++) d[p] = elems(dealt, o, p, s.in[o].size());
    for (std::size_t i = 0; i < s.in[o].size(); i++) {
      for (auto& x : m) v.mask_shares[s.in[o][i]].push_back(x[i]);
      for (auto& x : d) v.in_shares[s.in[o][i]].push_back(x[i]);
    }
  }
  std::vector<std::size_t> all;
  for (std::size_t l = 0; l < s.depth(); l++)
    for (auto g : mults(s, l)) all.push_back(g);
  std::map<std::size_t, std::vector<u128>> last;
  for (std::size_t p = n - t; p < n; p++) {
    auto e = elems(fd, p, 0, all.size());
    for (std::size_t i = 0; i < all.size(); i++) last[all[i]].push_back(e[i]);
  }
  for (std::size_t l = 0; l < s.depth(); l++) {
    auto g = mults(s, l);
    r.each([l](tp::DN07& d) { d.MultPartiesSendP1(l); });
    auto up = take();
    r.each([l](tp::DN07& d) { d.MultP1Receives(l); });
    r.each([l](tp::DN07& d) { d.MultP1SendsParties(l); });
    auto down = take();
    r.each([l](tp::DN07& d) { d.MultPartiesReceive(l); });
    for (std::size_t p = 0; p < n - t; p++) {
      auto u = elems(up, p, 0, g.size()), d = elems(down, 0, p, g.size());
      for (std::size_t i = 0; i < g.size(); i++) {
        v.up[g[i]].push_back(u[i]);
        v.down[g[i]].push_back(d[i]);
      }
    }
    for (auto i : g)
      for (auto x : last[i]) v.up[i].push_back(x);
  }
  r.each([](tp::DN07& d) { d.OutputPartiesSendOwners(); });
  r.each([](tp::DN07& d) { d.OutputOwnersReceive(); });
  r.net.keep = false;
  return v;
}
static u128 at0(const std::vector<u128>& sh) { return lagrange(points(sh.size()), sh, 0, fa()); }
static std::vector<u128> padded(std::vector<u128> d, std::size_t n) {
  d.resize(n, 0);
  return d;
}
static void check_shares(DnRun& r, const std::vector<u128>& v) {
  for (std::size_t i = 0; i < r.spec.nodes.size(); i++) {
    if (!r.p[0].gates[i]) continue;
    std::vector<u128> sh;
    for (auto& p : r.p) sh.push_back(val(p.gates[i]->GetDn07Share()));
    VP_CHECK(on_degree(points(r.n), sh, r.t, fa()), "the parties' shares of w", i, " are not of degree ", r.t, ": ", show(sh));
    VP_CHECK(at0(sh) == v[i], "the parties' shares of w", i, " are shares of ", str(at0(sh)), " instead of ", str(v[i]));
  }
}
static void pick(Case& c, std::size_t& n, std::size_t& t, std::size_t max_t) {
  t = c.range(0, max_t);
  n = 2 * t + 1 + (c.chance(1, 3) ? c.range(1, 3) : 0);
}
static void shares(Case& c, int how, bool large = false) {
  auto A = fa();
  std::size_t n, t;
  pick(c, n, t, large ? 3 : 4);
  bool config = !large && c.chance(1, 4);
  Config cfg;
  Spec s;
  std::size_t k = c.range(1, 3);
  if (config) {
    cfg = gen_config(c, n, k);
    s = cfg.spec();
  } else
    s = large ? gen_big(c, n, k, 600) : gen_spec(c, n, k, 4, 5);
  auto in = large ? gen_many_inputs(c, s) : gen_inputs(c, s);
  u128 l = gen_elem<FF>(c);
  u64 mix = c.word() | 1;
  static const char* nm[] = {"real", "dealings replaced", "constant preprocessing"};
  c.note("n=", n, " t=", t, " ", nm[how], " circuit ", s.show(), " inputs ", show_inputs(in));
  c.label(nm[how]);
  c.interesting(t && s.size());
  auto v = s.eval(in);
  DnRun r(s, n, t, config ? &cfg : nullptr);
  if (c.chance(1, 3)) r.order = c.perm(n);
  View w;
  try {
    w = run(r, in, [&] {
      if (how == 2) {
        r.each([&](tp::DN07& d) { d.DummyPrep(ff(l)); });
        return;
      }
      Mixer mx(r.net, mix);
      auto m = mx.mark();
      r.each([](tp::DN07& d) { d.PrepPartiesSend(); });
      std::size_t bi = (s.n_inputs() + t) / (t + 1), bm = (s.size() + t) / (t + 1);
      if (how == 1 && mx.count(m) == bi + 2 * bm)
        for (std::size_t d = 0; d < n; d++) {
          for (std::size_t b = 0; b < bi; b++) {
            auto sh = mx.sharing({0}, mx.elem(), t);
            for (std::size_t p = 0; p < n; p++) mx.put(d, p, m[d][p] + b, sh[p]);
          }
          for (std::size_t b = 0; b < bm; b++) {
            u128 sec = mx.elem();
            auto x = mx.sharing({0}, sec, t), y = mx.sharing({0}, sec, 2 * t);
            for (std::size_t p = 0; p < n; p++) {
              mx.put(d, p, m[d][p] + bi + 2 * b, x[p]);
              mx.put(d, p, m[d][p] + bi + 2 * b + 1, y[p]);
            }
          }
        }
      r.each([](tp::DN07& d) { d.PrepPartiesReceive(); });
    });
  } catch (const Odd&) {
    c.label("layout not recognised");
    c.discard();
  }
  check_shares(r, v);
  for (auto& kv : w.in_shares) {
    auto d = padded(kv.second, n);
    u128 m = at0(w.mask_shares[kv.first]);
    VP_CHECK(on_degree(points(n), d, t, A), "what the owner of w", kv.first, " dealt is not of degree ", t, " with zeros for the last ", t, " parties: ", show(kv.second));
    VP_CHECK(at0(d) == A.sub(v[kv.first], m), "the owner of w", kv.first, " dealt ", str(at0(d)), ", input minus mask is ", str(A.sub(v[kv.first], m)));
    if (how == 2) VP_CHECK(m == l, "the owner of w", kv.first, " learned mask ", str(m), " instead of the constant");
  }
  for (auto& kv : w.up) {
    u128 o = at0(kv.second);
    if (how == 2) VP_CHECK(o == A.sub(v[kv.first], l), "P1 opened ", str(o), " for w", kv.first, " instead of value minus constant mask");
    VP_CHECK(on_degree(points(n), kv.second, 2 * t, A), "shares of w", kv.first, " sent to P1 are not of degree 2t");
    auto d = padded(w.down[kv.first], n);
    VP_CHECK(on_degree(points(n), d, t, A), "what P1 dealt for w", kv.first, " is not of degree ", t, " with zeros for the last ", t, " parties: ", show(w.down[kv.first]));
    VP_CHECK(at0(d) == o, "P1 opened ", str(o), " for w", kv.first, " and dealt ", str(at0(d)));
  }
  std::vector<std::vector<u128>> want = s.outputs(v);
  compare_outputs(s, r.outputs(), want);
}
VP_ARM(shares_real, 600, 9000, 220, 2) { shares(c, 0); }
VP_ARM(shares_mixed, 600, 9000, 220, 2) { shares(c, 1); }
VP_ARM(shares_large, 20, 400, 60, 1) { shares(c, 0, true); }
VP_ARM(shares_dummy, 400, 5000, 220, 1) { shares(c, 2); }

VP_ARM(fresh_masks, 40, 900, 140, 2) {
  std::size_t n, t;
  pick(c, n, t, 3);
  Spec s = gen_spec(c, n, c.range(1, 3), 3, c.chance(1, 3) ? 8 : 4);
  auto in = gen_inputs(c, s);
  c.note("n=", n, " t=", t, " circuit ", s.show(), " inputs ", show_inputs(in));
  c.interesting(t && s.size());
  std::size_t dims = s.n_inputs() + s.size();
  if (dims > 60) c.discard();
  std::vector<std::vector<u128>> rows;
  std::vector<std::string> names;
  try {
    for (std::size_t i = 0; i < dims + 4; i++) {
      DnRun r(s, n, t);
      auto w = run(r, in, [&] {
        r.each([](tp::DN07& d) { d.PrepPartiesSend(); });
        r.each([](tp::DN07& d) { d.PrepPartiesReceive(); });
      });
      rows.emplace_back();
      names.clear();
      for (auto& kv : w.mask_shares) {
        rows.back().push_back(at0(kv.second));
        names.push_back("mask of w" + std::to_string(kv.first));
      }
      for (auto& kv : w.up) {
        rows.back().push_back(at0(kv.second));
        names.push_back("opened product w" + std::to_string(kv.first));
      }
      // pairwise, one run: masks of inputs differ
      std::size_t k = w.mask_shares.size();
      for (std::size_t a = 0; a < k; a++)
        for (std::size_t b = 0; b < a; b++) VP_CHECK(rows.back()[a] != rows.back()[b], names[a], " equals ", names[b]);
    }
  } catch (const Odd&) {
    c.label("layout not recognised");
    return;
  }
  if (rank_of_differences(rows, 0, dims) == dims) return;
  for (std::size_t i = 1; i <= dims; i++)
    if (rank_of_differences(rows, 0, i) != i) fail("over ", rows.size(), " runs with the same inputs, the ", names[i - 1], " is determined by the masks and opened products before it");
}
VP_ARM(fresh_dealer, 120, 2500, 120, 2) {
  std::size_t n, t;
  pick(c, n, t, 4);
  Spec s = gen_spec(c, n, 1, 3, c.chance(1, 3) ? 9 : 4);
  std::size_t id = c.range(0, n - 1);
  c.note("n=", n, " t=", t, " dealer ", id, " circuit ", s.show());
  c.interesting(t && s.size());
  std::size_t bi = (s.n_inputs() + t) / (t + 1), bm = (s.size() + t) / (t + 1), msgs = bi + 2 * bm;
  if (msgs * n > 200) c.discard();
  std::vector<std::vector<u128>> rows;
  for (std::size_t i = 0; i < msgs * n + 4; i++) {
    SimNet net(n);
    Built b;
    build(b, s);
    b.circuit.SetNetwork(net.of(id), id);
    tp::DN07 d(n, t);
    d.SetCircuit(b.circuit);
    d.PrepPartiesSend();
    rows.emplace_back();
    for (std::size_t p = 0; p < n; p++)
      if (net.queue(id, p).size() != msgs) {
        c.label("layout not recognised");
        return;
      }
    for (std::size_t m = 0; m < msgs; m++)
      for (std::size_t p = 0; p < n; p++) {
        auto& x = net.queue(id, p)[m];
        if (x.size() != 8) {
          c.label("layout not recognised");
          return;
        }
        rows.back().push_back(val(FF::Read(x.data())));
      }
    for (std::size_t m = 0; m < bm && i == 0; m++) {
      auto sh = [&](std::size_t q) { return std::vector<u128>(rows[0].begin() + q * n, rows[0].begin() + (q + 1) * n); };
      auto a = sh(bi + 2 * m), e = sh(bi + 2 * m + 1);
      VP_CHECK(on_degree(points(n), a, t, fa()) && on_degree(points(n), e, 2 * t, fa()), "double sharing ", m, " is not of degrees t and 2t");
      VP_CHECK(at0(a) == at0(e), "double sharing ", m, " shares ", str(at0(a)), " and ", str(at0(e)));
    }
  }
  std::size_t want = bi * (t + 1) + bm * (3 * t + 1), got = rank_of_differences(rows, 0, msgs * n);
  VP_CHECK(got == want, "the ", bi, " sharings and ", bm, " double sharings dealt by party ", id, " span ", got, " dimensions instead of ", want);
}
// masks, degree-t sharings and inputs fixed: what P1 receives varies freely around the opened values
VP_ARM(hidden, 30, 700, 140, 2) {
  std::size_t n, t;
  pick(c, n, t, 3);
  Spec s = gen_spec(c, n, 1, 3, 4);
  auto in = gen_inputs(c, s);
  u64 seed = c.word() | 1;
  c.note("n=", n, " t=", t, " circuit ", s.show(), " inputs ", show_inputs(in));
  c.interesting(t && s.size());
  std::size_t dims = s.size() * 2 * t;
  if (dims > 50) c.discard();
  std::size_t bi = (s.n_inputs() + t) / (t + 1), bm = (s.size() + t) / (t + 1);
  std::vector<std::vector<u128>> rows;
  bool known = true;
  try {
    for (std::size_t i = 0; i < dims + 4 && known; i++) {
      DnRun r(s, n, t);
      auto w = run(r, in, [&] {
        Mixer mx(r.net, seed);
        auto m = mx.mark();
        r.each([](tp::DN07& d) { d.PrepPartiesSend(); });
        known = mx.count(m) == bi + 2 * bm;
        if (!known) return;
        for (std::size_t d = 0; d < n; d++) {
          for (std::size_t b = 0; b < bi; b++) {
            auto sh = mx.sharing({0}, mx.elem(), t);
            for (std::size_t p = 0; p < n; p++) mx.put(d, p, m[d][p] + b, sh[p]);
          }
          for (std::size_t b = 0; b < bm; b++) {
            u128 sec = mx.elem();
            auto x = mx.sharing({0}, sec, t);
            std::vector<u128> y;
            for (std::size_t p = 0; p < n; p++) y.push_back(val(FF::Read(r.net.queue(d, p)[m[d][p] + bi + 2 * b + 1].data())));
            u128 delta = fa().sub(sec, at0(y));
            for (std::size_t p = 0; p < n; p++) {
              mx.put(d, p, m[d][p] + bi + 2 * b, x[p]);
              mx.put(d, p, m[d][p] + bi + 2 * b + 1, fa().add(y[p], delta));
            }
          }
        }
        r.each([](tp::DN07& d) { d.PrepPartiesReceive(); });
      });
      rows.emplace_back();
      for (auto& kv : w.up)
        for (auto x : kv.second) rows.back().push_back(x);
    }
  } catch (const Odd&) {
    known = false;
  } catch (const EmptyRecv&) {
    if (known) throw;
  }
  if (!known) {
    c.label("layout not recognised");
    return;
  }
  std::size_t got = rank_of_differences(rows, 0, rows[0].size());
  VP_CHECK(got == dims, "the shares P1 receives for ", s.size(), " multiplications span ", got, " dimensions beyond the opened values instead of ", dims);
}
// t dealers whose dealings are fixed, and who see their own shares of everybody else's: no mask is determined for them
VP_ARM(coalition, 60, 1400, 140, 3) {
  auto A = fa();
  std::size_t t = c.range(1, 3), n = 2 * t + 1 + (c.chance(1, 3) ? c.range(1, 3) : 0);
  Spec s = gen_spec(c, n, c.range(1, 3), 3, c.chance(1, 3) ? 8 : 4);
  auto in = gen_inputs(c, s);
  auto T = c.perm(n);
  int how = (int)c.range(0, 2);
  std::sort(T.begin(), T.end(), [&](std::size_t a, std::size_t b) { return how == 1 ? a < b : how == 2 ? a > b : false; });
  T.resize(t);
  u64 seed = c.word() | 1;
  std::string who;
  for (auto x : T) who += " " + std::to_string(x);
  c.note("n=", n, " t=", t, " fixed dealers", who, ", circuit ", s.show(), " inputs ", show_inputs(in));
  c.interesting(s.size());
  std::size_t bi = (s.n_inputs() + t) / (t + 1), bm = (s.size() + t) / (t + 1), view = (n - t) * t * (bi + 2 * bm), dims = s.n_inputs() + s.size();
  if (view + dims > 200) c.discard();
  std::vector<std::vector<u128>> rows;
  std::map<std::pair<std::size_t, std::size_t>, std::vector<std::vector<u128>>> dealt;
  bool known = true;
  try {
    for (std::size_t i = 0; i < view + dims + 4 && known; i++) {
      DnRun r(s, n, t);
      rows.emplace_back();
      auto w = run(r, in, [&] {
        Mixer mx(r.net, seed);
        auto m = mx.mark();
        r.each([](tp::DN07& d) { d.PrepPartiesSend(); });
        known = mx.count(m) == bi + 2 * bm;
        if (!known) return;
        for (std::size_t d = 0; d < n; d++) {
          bool fixed = std::find(T.begin(), T.end(), d) != T.end();
          for (std::size_t b = 0; fixed && b < bi + bm; b++) {
            auto& xy = dealt[{d, b}];
            if (xy.empty()) {
              u128 sec = mx.elem();
              xy = {mx.sharing({0}, sec, t), mx.sharing({0}, sec, 2 * t)};
            }
            auto &x = xy[0], &y = xy[1];
            std::size_t at = b < bi ? b : bi + 2 * (b - bi);
            for (std::size_t p = 0; p < n; p++) {
              mx.put(d, p, m[d][p] + at, x[p]);
              if (b >= bi) mx.put(d, p, m[d][p] + at + 1, y[p]);
            }
          }
          if (!fixed)
            for (auto p : T)
              for (std::size_t b = 0; b < bi + 2 * bm; b++) rows.back().push_back(val(FF::Read(r.net.queue(d, p)[m[d][p] + b].data())));
        }
        r.each([](tp::DN07& d) { d.PrepPartiesReceive(); });
      });
      for (auto& kv : w.mask_shares) rows.back().push_back(at0(kv.second));
      for (auto& kv : w.up) rows.back().push_back(at0(kv.second));
    }
  } catch (const Odd&) {
    known = false;
  } catch (const EmptyRecv&) {
    if (known) throw;
  }
  if (!known) {
    c.label("layout not recognised");
    return;
  }
  std::size_t rv = rank_of_differences(rows, 0, view), rk = rank_of_differences(rows, 0, rows[0].size());
  VP_CHECK(rk == rv + dims, "with the dealings of parties", who, " fixed and given the ", view, " shares dealt to them, the ", dims, " masks of inputs and multiplications span ", rk - rv,
           " dimensions: parties", who, " together determine some of them or a relation between them");
}
// larger circuits, one run: no mask occurs twice
static void distinct(Case& c, int large) {
  std::size_t n, t;
  pick(c, n, t, large == 2 ? 1 : large ? 3 : 4);
  Spec s = large == 2 ? gen_huge(c, n, c.range(1, 3)) : large ? gen_big(c, n, c.range(1, 3), 600) : gen_spec(c, n, c.range(1, 3), 4, c.range(4, 24));
  auto in = large ? gen_many_inputs(c, s) : gen_inputs(c, s);
  c.note("n=", n, " t=", t, " circuit ", s.show(), " inputs ", show_inputs(in));
  c.interesting(t && s.size() > 8);
  auto v = s.eval(in);
  DnRun r(s, n, t);
  View w;
  try {
    w = run(r, in, [&] {
      r.each([](tp::DN07& d) { d.PrepPartiesSend(); });
      r.each([](tp::DN07& d) { d.PrepPartiesReceive(); });
    });
  } catch (const Odd&) {
    c.label("layout not recognised");
    return;
  }
  check_shares(r, v);
  std::map<u128, std::string> seen;
  auto put = [&](u128 x, const std::string& nm) {
    auto it = seen.emplace(x, nm);
    VP_CHECK(it.second, "the mask of ", nm, " equals that of ", it.first->second, ": ", str(x));
  };
  for (auto& kv : w.mask_shares) put(at0(kv.second), "input w" + std::to_string(kv.first));
  for (auto& kv : w.up) put(fa().sub(v[kv.first], at0(kv.second)), "multiplication w" + std::to_string(kv.first));
}
VP_ARM(distinct_wide, 120, 2500, 400, 1) { distinct(c, 0); }
VP_ARM(distinct_large, 20, 400, 60, 1) { distinct(c, 1); }
VP_ARM(distinct_huge, 2, 40, 60, 1) { distinct(c, 2); }
// coalition for many parties: everything t dealers dealt and the shares dealt to them stay as they are
VP_ARM(coalition_many, 12, 250, 120, 2) {
  std::size_t t = c.range(2, 14), n = 2 * t + 1 + (c.chance(1, 3) ? c.range(1, 4) : 0);
  Spec s = c.flip() ? gen_row(c, n, 1, t + c.range(0, 3)) : gen_spec(c, n, 1, 2, 1 + c.range(0, std::min<std::size_t>(t, 10)));
  auto in = gen_inputs(c, s);
  auto T = c.perm(n);
  int how = (int)c.range(0, 2);
  std::sort(T.begin(), T.end(), [&](std::size_t a, std::size_t b) { return how == 1 ? a < b : how == 2 ? a > b : false; });
  T.resize(t);
  u64 seed = c.word() | 1;
  std::string who;
  for (auto x : T) who += " " + std::to_string(x);
  c.note("n=", n, " t=", t, " dealers", who, ", circuit ", s.show(), " inputs ", show_inputs(in));
  c.interesting(n > 9 && s.size());
  std::size_t bi = (s.n_inputs() + t) / (t + 1), bm = (s.size() + t) / (t + 1), dims = s.n_inputs() + s.size();
  std::vector<std::vector<u128>> rows;
  std::map<std::pair<std::size_t, std::size_t>, std::vector<std::vector<u128>>> dealt;
  bool known = true;
  try {
    for (std::size_t i = 0; i < dims + 3 && known; i++) {
      DnRun r(s, n, t);
      rows.emplace_back();
      auto w = run(r, in, [&] {
        Mixer fixed(r.net, seed), mx(r.net, splitmix(seed));
        auto m = mx.mark();
        r.each([](tp::DN07& d) { d.PrepPartiesSend(); });
        known = mx.count(m) == bi + 2 * bm;
        if (!known) return;
        for (std::size_t d = 0; d < n; d++) {
          bool mine = std::find(T.begin(), T.end(), d) != T.end();
          for (std::size_t b = 0; b < bi + bm; b++) {
            auto& xy = dealt[{d, b}];
            if (xy.empty()) {
              u128 sec = fixed.elem();
              xy = {fixed.sharing({0}, sec, t), fixed.sharing({0}, sec, 2 * t)};
            }
            auto x = xy[0], y = xy[1];
            if (!mine) {
              std::vector<u128> tx, ty;
              for (auto p : T) {
                tx.push_back(x[p]);
                ty.push_back(y[p]);
              }
              u128 sec = mx.elem();
              x = mx.sharing({0}, sec, t, T, tx);
              y = mx.sharing({0}, sec, 2 * t, T, ty);
            }
            std::size_t at = b < bi ? b : bi + 2 * (b - bi);
            for (std::size_t p = 0; p < n; p++) {
              mx.put(d, p, m[d][p] + at, x[p]);
              if (b >= bi) mx.put(d, p, m[d][p] + at + 1, y[p]);
            }
          }
        }
        r.each([](tp::DN07& d) { d.PrepPartiesReceive(); });
      });
      for (auto& kv : w.mask_shares) rows.back().push_back(at0(kv.second));
      for (auto& kv : w.up) rows.back().push_back(at0(kv.second));
    }
  } catch (const Odd&) {
    known = false;
  } catch (const EmptyRecv&) {
    if (known) throw;
  }
  if (!known) {
    c.label("layout not recognised");
    return;
  }
  std::size_t rk = rank_of_differences(rows, 0, dims);
  VP_CHECK(rk == dims, "with the dealings of parties", who, " and the shares dealt to them fixed, the ", dims, " masks of inputs and multiplications span ", rk, " dimensions: they together determine some or a relation between them");
}
