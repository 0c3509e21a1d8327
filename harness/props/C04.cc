// C04: preprocessing yields valid, consistent, fresh correlations.
// vp: flavours=asan,opt arms_asan=valid_real,valid_mixed,valid_dummy,gate_masks,fresh_product arms_opt=valid_large,valid_many,valid_real,valid_mixed,fresh,fresh_dealer,distinct_wide,distinct_large,distinct_huge,coalition_many,coalition,used_once budget=50 tbudget=420 case_timeout=150
#include "tp_util.h"
using namespace vp;
const char* vp::kRule =
    "small circuits (as C01), k=1..5, every admissible t (also circuits of up to 1080 multiplications, and up to 29 parties); real preprocessing (shipped generators, or dealt sharings replaced by random ones) and dummy correlations. After input-independent "
    "and circuit-dependent preprocessing the shares of all parties are interpolated by a Lagrange model: degree and slots of every wire mask, triple and zero sharing; sums and copies for additions and outputs; the "
    "final batch material (observed by feeding chosen shares to each batch); masks learned by owners. Freshness: over many runs of one circuit the masks, triples, product masks and zero sharings must be jointly of full "
    "rank, also with the dealings of t parties fixed and the shares dealt to them given, and within a run (up to 1080 multiplications, in the distinct_huge arm beyond 65536) no two coincide; with all but the zero sharings fixed, everything they hide must vary freely. Non-trivial: k >= 2 and a multiplication.";

static std::vector<u128> col(TurboRun& r, const std::function<u128(std::size_t)>& f) {
  std::vector<u128> s;
  for (std::size_t p = 0; p < r.par.n; p++) s.push_back(f(p));
  return s;
}
static std::vector<u128> party_points(std::size_t n) {
  std::vector<u128> x;
  for (std::size_t i = 1; i <= n; i++) x.push_back(i);
  return x;
}
struct Corr {
  std::vector<tp::Correlator> c;
  // batches per party, keyed by the node of their first real gate (batches of padding only are not told apart)
  std::vector<std::map<std::size_t, std::shared_ptr<tp::MultBatch>>> mult;
  std::vector<std::map<std::size_t, std::shared_ptr<tp::InputBatch>>> in;
  std::vector<std::map<std::size_t, std::shared_ptr<tp::OutputBatch>>> out;
};
static Corr correlations(TurboRun& r) {
  Corr k;
  auto n = r.par.n;
  k.mult.resize(n);
  k.in.resize(n);
  k.out.resize(n);
  for (std::size_t p = 0; p < n; p++) {
    k.c.push_back(r.p[p].circuit.GetCorrelator());
    std::map<tp::Gate*, std::size_t> node;
    for (std::size_t i = 0; i < r.p[p].gates.size(); i++)
      if (r.p[p].gates[i]) node[r.p[p].gates[i].get()] = i;
    for (auto& kv : k.c[p].mMapMultBatch) {
      auto it = node.find(kv.first->GetMultGate(0).get());
      if (it != node.end()) k.mult[p][it->second] = kv.first;
    }
    for (auto& kv : k.c[p].mMapInputBatch) {
      auto it = node.find(kv.first->GetInputGate(0).get());
      if (it != node.end()) k.in[p][it->second] = kv.first;
    }
    for (auto& kv : k.c[p].mMapOutputBatch) {
      auto it = node.find(kv.first->GetOutputGate(0).get());
      if (it != node.end()) k.out[p][it->second] = kv.first;
    }
  }
  return k;
}
static u128 at(const std::vector<u128>& sh, u128 x) { return lagrange(party_points(sh.size()), sh, x, fa()); }
// the mask shared among the parties for a wire, or fails
static u128 mask_of(TurboRun& r, Corr& k, std::size_t i) {
  auto sh = col(r, [&](std::size_t p) { return val(k.c[p].mMapIndShrs[r.p[p].gates[i]]); });
  VP_CHECK(on_degree(party_points(r.par.n), sh, r.par.n - r.par.k, fa()), "mask of w", i, " is not shared at degree n-k: ", show(sh));
  u128 m = at(sh, 0);
  for (std::size_t s = 1; s < r.par.k; s++) VP_CHECK(at(sh, fa().neg(s)) == m, "mask of w", i, " differs between slots 0 and ", s);
  return m;
}
static std::vector<std::size_t> first_nodes(const Spec& s) {
  std::vector<std::size_t> r, cnt(s.depth(), 0);
  for (std::size_t i = 0; i < s.nodes.size(); i++)
    if (s.nodes[i].kind == Spec::Mul && cnt[s.nodes[i].layer]++ % s.batch == 0) r.push_back(i);
  return r;
}

static std::vector<u128> check_fi(TurboRun& r, Corr& k, bool dummy) {
  auto A = fa();
  auto& s = r.spec;
  auto n = r.par.n, kk = r.par.k;
  std::vector<u128> masks(s.nodes.size());
  for (std::size_t i = 0; i < s.nodes.size(); i++) {
    masks[i] = mask_of(r, k, i);
    auto& d = s.nodes[i];
    if (d.kind == Spec::Add) VP_CHECK(masks[i] == A.add(masks[d.a], masks[d.b]), "mask of the addition w", i);
    if (d.kind == Spec::Out) VP_CHECK(masks[i] == masks[d.a], "mask of the output w", i);
  }
  for (std::size_t p = 0; p < n; p++) {
    VP_CHECK(k.c[p].mMapMultBatch.size() == s.mult_batches(), "party ", p, " has material for ", k.c[p].mMapMultBatch.size(), " multiplication batches");
    VP_CHECK(k.c[p].mMapInputBatch.size() == s.in_batches() && k.c[p].mMapOutputBatch.size() == s.out_batches(), "party ", p, " lacks material for input or output batches");
  }
  auto zero = [&](const std::vector<u128>& sh, const std::string& what) {
    for (std::size_t j = 0; j < kk; j++) VP_CHECK(at(sh, A.neg(j)) == 0, what, ": slot ", j, " of a zero sharing holds ", str(at(sh, A.neg(j))));
  };
  for (auto i : first_nodes(s)) {
    std::vector<std::vector<u128>> v(6);
    for (std::size_t p = 0; p < n; p++) {
      VP_CHECK(k.mult[p].count(i), "party ", p, " has no batch starting with w", i);
      auto f = k.c[p].mMapMultBatch[k.mult[p][i]];
      FF e[6] = {f.mShrA, f.mShrB, f.mShrC, f.mShrO1, f.mShrO2, f.mShrO3};
      for (int q = 0; q < 6; q++) v[q].push_back(val(e[q]));
    }
    std::string w = "batch of w" + std::to_string(i);
    for (int q = 0; q < 3; q++) VP_CHECK(on_degree(party_points(n), v[q], n - kk, A), w, ": ", "abc"[q], " is not shared at degree n-k");
    for (std::size_t j = 0; j < kk; j++) VP_CHECK(at(v[2], A.neg(j)) == A.mul(at(v[0], A.neg(j)), at(v[1], A.neg(j))), w, ": c differs from a*b in slot ", j);
    for (int q = 3; q < 6; q++) zero(v[q], w);
  }
  for (auto& kv : k.in[0])
    zero(col(r, [&](std::size_t p) { return val(k.c[p].mMapInputBatch[k.in[p][kv.first]].mShrO); }), "input batch of w" + std::to_string(kv.first));
  for (auto& kv : k.out[0])
    zero(col(r, [&](std::size_t p) { return val(k.c[p].mMapOutputBatch[k.out[p][kv.first]].mShrO); }), "output batch of w" + std::to_string(kv.first));
  (void)dummy;
  return masks;
}
// the shares each batch of layer l would send P1 if P1 had sent x and y to everybody, in order
static std::vector<std::vector<u128>> probe(TurboRun& r, std::size_t l, u128 x, u128 y) {
  auto nb = r.spec.batches(r.spec.widths[l]);
  auto bytes = [](u128 v) {
    Bytes b(8);
    u64 w = (u64)v;
    std::memcpy(b.data(), &w, 8);
    return b;
  };
  std::vector<std::vector<u128>> res(nb);
  for (std::size_t p = 0; p < r.par.n; p++) {
    for (std::size_t i = 0; i < nb; i++) {
      r.net.queue(0, p).push_back(bytes(x));
      r.net.queue(0, p).push_back(bytes(y));
    }
    r.p[p].circuit.MultPartiesReceive(l);
    r.p[p].circuit.MultPartiesSend(l);
    for (std::size_t i = 0; i < nb; i++) {
      unsigned char b[8];
      r.net.recv(p, 0, b, 8);
      res[i].push_back(val(FF::Read(b)));
    }
  }
  return res;
}
static void check_fd(TurboRun& r, const std::vector<u128>& masks) {
  auto A = fa();
  auto& s = r.spec;
  auto n = r.par.n, kk = r.par.k;
  for (std::size_t l = 0; l < s.depth(); l++) {
    std::vector<std::size_t> gates;
    for (std::size_t i = 0; i < s.nodes.size(); i++)
      if (s.nodes[i].kind == Spec::Mul && s.nodes[i].layer == l) gates.push_back(i);
    auto d = probe(r, l, 0, 0), b1 = probe(r, l, 0, 1), a1 = probe(r, l, 1, 0);
    for (std::size_t b = 0; b < d.size(); b++) {
      std::vector<u128> la(n), lb(n);
      for (std::size_t p = 0; p < n; p++) {
        la[p] = A.sub(b1[b][p], d[b][p]);  // 1 * share of the left mask
        lb[p] = A.sub(a1[b][p], d[b][p]);
      }
      std::string w = "layer " + std::to_string(l) + " batch " + std::to_string(b);
      VP_CHECK(on_degree(party_points(n), la, n - kk, A) && on_degree(party_points(n), lb, n - kk, A), w, ": operand masks are not packed at degree n-k");
      for (std::size_t j = 0; j < kk; j++) {
        std::size_t g = b * kk + j;
        u128 ma = g < gates.size() ? masks[s.nodes[gates[g]].a] : 0, mb = g < gates.size() ? masks[s.nodes[gates[g]].b] : 0, mc = g < gates.size() ? masks[gates[g]] : 0;
        VP_CHECK(at(la, A.neg(j)) == ma, w, " slot ", j, ": packed left mask is ", str(at(la, A.neg(j))), " instead of ", str(ma));
        VP_CHECK(at(lb, A.neg(j)) == mb, w, " slot ", j, ": packed right mask is ", str(at(lb, A.neg(j))), " instead of ", str(mb));
        VP_CHECK(at(d[b], A.neg(j)) == A.sub(A.mul(ma, mb), mc), w, " slot ", j, ": packed product of masks minus output mask is wrong");
      }
    }
  }
  for (std::size_t i = 0; i < s.nodes.size(); i++) {
    auto& d = s.nodes[i];
    if (d.kind != Spec::In && d.kind != Spec::Out) continue;
    for (std::size_t p = 0; p < n; p++) {
      auto g = r.p[p].gates[i];
      if (p == d.owner) VP_CHECK(val(g->GetDummyLambda()) == masks[i], "owner of w", i, " learned mask ", str(val(g->GetDummyLambda())), " instead of ", str(masks[i]));
      else if (d.kind == Spec::In) VP_CHECK(throws([&] { g->GetDummyLambda(); }), "party ", p, " knows the mask of w", i, " of party ", d.owner);
    }
  }
}
enum Scale { Small, Large, Many };
static void valid(Case& c, Prep how, std::size_t max_k, Scale scale = Small) {
  Params q = gen_params(c, max_k, scale == Many ? max_k - 2 : 1);
  Spec s = scale == Large ? gen_big(c, q.n, q.k, 360 * q.k) : gen_spec(c, q.n, q.k, 3, c.chance(1, 4) ? 9 : 4);
  if (scale == Many) c.label("many parties");
  u128 lambda = gen_elem<FF>(c);
  u64 mix = c.word() | 1;
  c.note("n=", q.n, " t=", q.t, " k=", q.k, " ", name(how), " circuit ", s.show());
  c.label(name(how));
  c.interesting(q.k >= 2 && s.size());
  TurboRun r(s, q);
  if (c.chance(1, 3)) r.order = c.perm(q.n);
  r.connect();
  r.correlator();
  if (how == Prep::Real) r.fi(0);
  if (how == Prep::RealMixed && r.fi(mix)) c.label("dealings replaced");
  if (how == Prep::DummyCorr) r.each([&](tp::Circuit& C) { C.PopulateDummyCorrelator(ff(lambda)); });
  r.each([](tp::Circuit& C) { C.MapCorrToCircuit(); });
  auto k = correlations(r);
  auto masks = check_fi(r, k, how == Prep::DummyCorr);
  if (how == Prep::DummyCorr)
    for (std::size_t i = 0; i < s.nodes.size(); i++)
      if (s.nodes[i].kind == Spec::In || s.nodes[i].kind == Spec::Mul) VP_CHECK(masks[i] == lambda, "dummy mask of w", i, " is ", str(masks[i]));
  // the opened product masks, the zero sharings of a party etc. do not matter here
  r.net.take();
  r.each([](tp::Circuit& C) { C.PrepMultPartiesSendP1(); });
  r.each([](tp::Circuit& C) { C.PrepMultP1ReceivesAndSends(); });
  r.each([](tp::Circuit& C) { C.PrepMultPartiesReceive(); });
  r.each([](tp::Circuit& C) { C.PrepIOPartiesSendOwner(); });
  r.each([](tp::Circuit& C) { C.PrepIOOwnerReceives(); });
  VP_CHECK(r.net.leftovers().empty(), "unread messages ", r.net.leftovers());
  check_fd(r, masks);
}
VP_ARM(valid_real, 250, 5000, 200, 3) { valid(c, Prep::Real, 5); }
VP_ARM(valid_mixed, 200, 4000, 200, 3) { valid(c, Prep::RealMixed, 4); }
VP_ARM(valid_dummy, 150, 2000, 200, 1) { valid(c, Prep::DummyCorr, 4); }
VP_ARM(valid_large, 14, 300, 60, 1) { valid(c, Prep::Real, 3, Large); }
VP_ARM(valid_many, 6, 100, 200, 1) { valid(c, Prep::Real, 8, Many); }

// ------------------------------------------------------------------ freshness
static Spec tiny_spec(Case& c, std::size_t n, std::size_t k) {
  Spec s;
  do {
    s = gen_spec(c, n, k, 2, 3);
  } while (0);
  return s;
}
VP_ARM(fresh, 20, 400, 120, 4) {
  auto A = fa();
  Params q = gen_params(c, 3);
  Spec s = tiny_spec(c, q.n, q.k);
  std::size_t n = q.n, k = q.k, M = s.mult_batches(), free = n - k;
  if (s.nodes.size() > 40) c.discard();
  auto pos = c.perm(n);
  u64 pick = c.word();
  c.note("n=", n, " t=", q.t, " k=", k, " circuit ", s.show());
  c.interesting(k >= 2 && s.size());
  std::vector<std::vector<u128>> rows;
  std::vector<std::string> names;
  std::size_t need = 4;
  for (std::size_t run = 0; run < need; run++) {
    TurboRun r(s, q);
    r.connect();
    r.correlator();
    r.each([](tp::Circuit& C) { C.FIPrepSend(); });
    r.each([](tp::Circuit& C) { C.FIPrepRecv(); });
    r.each([](tp::Circuit& C) { C.GenProdPartiesSendP1(); });
    // what P1 opens: a*b + mask for each slot and batch
    std::vector<u128> opened;
    bool readable = true;
    for (std::size_t p = 0; p < n; p++) {
      readable &= r.net.queue(p, 0).size() == k * M;
      for (auto& m : r.net.queue(p, 0)) readable &= m.size() == 8;
    }
    if (readable)
      for (std::size_t i = 0; i < k * M; i++) {
        std::vector<u128> sh;
        for (std::size_t p = 0; p < n; p++) sh.push_back(val(FF::Read(r.net.queue(p, 0)[i].data())));
        opened.push_back(at(sh, A.neg(i / M)));
      }
    r.each([](tp::Circuit& C) { C.GenProdP1ReceivesAndSends(); });
    r.each([](tp::Circuit& C) { C.GenProdPartiesReceive(); });
    r.each([](tp::Circuit& C) { C.MapCorrToCircuit(); });
    auto kc = correlations(r);
    std::vector<u128> v;
    names.clear();
    auto put = [&](u128 x, const std::string& nm) {
      v.push_back(x);
      names.push_back(nm);
    };
    for (std::size_t i = 0; i < s.nodes.size(); i++)
      if (s.nodes[i].kind == Spec::In || s.nodes[i].kind == Spec::Mul) put(at(col(r, [&](std::size_t p) { return val(kc.c[p].mMapIndShrs[r.p[p].gates[i]]); }), 0), "mask of w" + std::to_string(i));
    std::vector<std::vector<u128>> zeros;
    std::vector<std::string> zn;
    // real batches in layer order, and their index among all batches
    std::vector<std::size_t> first, index;
    std::size_t base = 0;
    for (std::size_t l = 0; l < s.depth(); l++) {
      std::size_t cnt = 0;
      for (std::size_t i = 0; i < s.nodes.size(); i++)
        if (s.nodes[i].kind == Spec::Mul && s.nodes[i].layer == l && cnt++ % k == 0) {
          first.push_back(i);
          index.push_back(base + (cnt - 1) / k);
        }
      base += s.batches(s.widths[l]);
    }
    for (std::size_t b = 0; b < first.size(); b++) {
      std::vector<std::vector<u128>> f(6);
      for (std::size_t p = 0; p < n; p++) {
        auto e = kc.c[p].mMapMultBatch[kc.mult[p][first[b]]];
        FF x[6] = {e.mShrA, e.mShrB, e.mShrC, e.mShrO1, e.mShrO2, e.mShrO3};
        for (int z = 0; z < 6; z++) f[z].push_back(val(x[z]));
      }
      std::string w = " of batch w" + std::to_string(first[b]);
      for (std::size_t j = 0; j < k; j++) {
        u128 a = at(f[0], A.neg(j)), bb = at(f[1], A.neg(j));
        put(a, "a[" + std::to_string(j) + "]" + w);
        put(bb, "b[" + std::to_string(j) + "]" + w);
        if (readable) put(A.sub(opened[j * M + index[b]], A.mul(a, bb)), "product mask[" + std::to_string(j) + "]" + w);
      }
      for (int z = 3; z < 6; z++) {
        zeros.push_back(f[z]);
        zn.push_back("zero sharing " + std::to_string(z - 2) + w);
      }
    }
    for (auto& kv : kc.in[0]) {
      zeros.push_back(col(r, [&](std::size_t p) { return val(kc.c[p].mMapInputBatch[kc.in[p][kv.first]].mShrO); }));
      zn.push_back("zero sharing of the input batch of w" + std::to_string(kv.first));
    }
    for (auto& kv : kc.out[0]) {
      zeros.push_back(col(r, [&](std::size_t p) { return val(kc.c[p].mMapOutputBatch[kc.out[p][kv.first]].mShrO); }));
      zn.push_back("zero sharing of the output batch of w" + std::to_string(kv.first));
    }
    if (free)
      for (std::size_t z = 0; z < zeros.size(); z++) {
        bool full = z == pick % zeros.size();
        for (std::size_t j = 0; j < (full ? free : 1); j++) put(zeros[z][pos[j]], zn[z] + " at party " + std::to_string(pos[j]));
        for (std::size_t y = 0; y < z; y++) VP_CHECK(zeros[z] != zeros[y], zn[z], " is ", zn[y]);
      }
    for (std::size_t i = 0; i < v.size(); i++)
      for (std::size_t j = 0; j < i; j++) VP_CHECK(v[i] != v[j], names[i], " equals ", names[j], " in one run: ", str(v[i]));
    rows.push_back(v);
    need = v.size() + 4;
    if (need > 120) c.discard();
  }
  std::vector<std::vector<u128>> diff;
  for (std::size_t i = 1; i < rows.size(); i++) {
    diff.push_back(rows[i]);
    for (std::size_t j = 0; j < rows[0].size(); j++) diff.back()[j] = A.sub(rows[i][j], rows[0][j]);
  }
  std::size_t rk = rank_of(diff);
  if (rk != rows[0].size()) {  // name the dependent pieces
    std::string dep;
    std::vector<std::size_t> keep;
    auto sub = [&](const std::vector<std::size_t>& cols) {
      std::vector<std::vector<u128>> m;
      for (auto& d : diff) {
        m.emplace_back();
        for (auto x : cols) m.back().push_back(d[x]);
      }
      return rank_of(m);
    };
    for (std::size_t j = 0; j < rows[0].size(); j++) {
      keep.push_back(j);
      if (sub(keep) != keep.size()) {
        dep += names[j] + "; ";
        keep.pop_back();
      }
    }
    fail("over ", rows.size(), " runs the ", rows[0].size(), " masks, triples and zero sharings span ", rk, " dimensions; determined by the others: ", dep);
  }
}
// what one party deals in the input-independent phase: no sharing may depend on the others
VP_ARM(fresh_dealer, 60, 1200, 120, 2) {
  auto A = fa();
  Params q = gen_params(c, 4, 2);
  Spec s = tiny_spec(c, q.n, q.k);
  std::size_t n = q.n, id = c.range(0, n - 1);
  auto order = c.perm(4);
  if (c.chance(2, 3)) order = {0, 1, 2, 3};
  c.note("n=", n, " t=", q.t, " k=", q.k, " dealer ", id, " circuit ", s.show());
  c.interesting(s.size());
  std::vector<std::vector<u128>> rows;
  std::size_t msgs = 0, need = 4;
  for (std::size_t run = 0; run < need; run++) {
    SimNet net(n);
    Built b;
    build(b, s);
    b.circuit.SetNetwork(net.of(id), id);
    b.circuit.GenCorrelator();
    b.circuit.SetThreshold(q.t);
    for (auto o : order) switch (o) {
        case 0: b.circuit.GenIndShrsPartiesSend(); break;
        case 1: b.circuit.GenUnpackedShrPartiesSend(); break;
        case 2: b.circuit.GenZeroPartiesSend(); break;
        case 3: b.circuit.GenZeroForProdPartiesSend(); break;
      }
    msgs = net.queue(id, 0).size();
    std::vector<u128> v;
    for (std::size_t m = 0; m < msgs; m++)
      for (std::size_t p = 0; p < n; p++) {
        auto& d = net.queue(id, p);
        if (d.size() != msgs || d[m].size() != 8) {
          c.label("layout not recognised");
          return;
        }
        v.push_back(val(FF::Read(d[m].data())));
      }
    need = v.size() + 4;
    if (need > 260) c.discard();
    rows.push_back(v);
  }
  auto part = [&](std::size_t lo, std::size_t hi) {
    std::vector<std::vector<u128>> m;
    for (std::size_t i = 1; i < rows.size(); i++) {
      m.emplace_back();
      for (std::size_t j = lo * n; j < hi * n; j++) m.back().push_back(A.sub(rows[i][j], rows[0][j]));
    }
    return rank_of(m);
  };
  std::size_t sum = 0;
  for (std::size_t m = 0; m < msgs; m++) sum += part(m, m + 1);
  std::size_t joint = part(0, msgs);
  if (joint != sum) {
    std::size_t acc = 0, m = 0;
    for (; m < msgs; m++) {
      acc += part(m, m + 1);
      if (part(0, m + 1) != acc) break;
    }
    fail("the ", msgs, " sharings dealt by party ", id, " span ", joint, " dimensions, ", sum, " taken one by one: sharing ", m, " repeats randomness of earlier ones");
  }
}
// the sharings that hide the factors from P1 in the product phase
VP_ARM(fresh_product, 15, 300, 120, 2) {
  auto A = fa();
  Params q = gen_params(c, 3, 2);
  Spec s = tiny_spec(c, q.n, q.k);
  std::size_t n = q.n, k = q.k, M = s.mult_batches();
  auto pos = c.perm(n);
  u64 pick = c.word(), seed = c.word() | 1;
  c.note("n=", n, " t=", q.t, " k=", k, " circuit ", s.show());
  c.interesting(s.size());
  if (k * M > 40) c.discard();
  std::vector<std::vector<u128>> rows;
  std::size_t dims = 0;
  for (std::size_t run = 0; run < dims + 4; run++) {
    TurboRun r(s, q);
    r.connect();
    r.correlator();
    Mixer mx(r.net, seed);
    r.each([](tp::Circuit& C) { C.GenIndShrsPartiesSend(); });
    auto m = mx.mark();
    r.each([](tp::Circuit& C) { C.GenUnpackedShrPartiesSend(); });
    std::size_t cnt = mx.count(m);
    if (!cnt || cnt % k) {
      c.label("layout not recognised");
      return;
    }
    // the factors and masks are the same in every run
    mx.mix(m, cnt, [&](std::size_t i) { return std::vector<u128>{A.neg(i / (cnt / k))}; }, q.t, true);
    r.each([](tp::Circuit& C) { C.GenZeroPartiesSend(); });
    r.each([](tp::Circuit& C) { C.GenZeroForProdPartiesSend(); });
    r.each([](tp::Circuit& C) { C.FIPrepRecv(); });
    r.each([](tp::Circuit& C) { C.GenProdPartiesSendP1(); });
    std::vector<u128> v;
    for (std::size_t p = 0; p < n; p++)
      if (r.net.queue(p, 0).size() != k * M) {
        c.label("layout not recognised");
        return;
      }
    for (std::size_t i = 0; i < k * M; i++) {
      std::size_t w = i == pick % (k * M) ? n - 1 : 1;
      for (std::size_t j = 0; j < w; j++) {
        auto& b = r.net.queue(pos[j], 0)[i];
        if (b.size() != 8) return;
        v.push_back(val(FF::Read(b.data())));
      }
    }
    rows.push_back(v);
    dims = v.size();
  }
  std::vector<std::vector<u128>> diff;
  for (std::size_t i = 1; i < rows.size(); i++) {
    diff.push_back(rows[i]);
    for (std::size_t j = 0; j < dims; j++) diff.back()[j] = A.sub(rows[i][j], rows[0][j]);
  }
  std::size_t rk = rank_of(diff);
  VP_CHECK(rk == dims, "the zero sharings added to ", k * M, " products span ", rk, " of ", dims, " dimensions over ", rows.size(), " runs");
}
// sizes beyond what the rank checks can afford: within one run nothing occurs twice
static void distinct(Case& c, int large) {
  auto A = fa();
  Params q = gen_params(c, large == 2 ? 2 : large ? 3 : 4);
  Spec s = large == 2 ? gen_huge(c, q.n, q.k) : large ? gen_big(c, q.n, q.k, 360 * q.k) : gen_spec(c, q.n, q.k, 4, c.range(4, 16));
  std::size_t n = q.n, k = q.k;
  c.note("n=", n, " t=", q.t, " k=", k, " circuit ", s.show());
  c.interesting(s.size() > 6);
  TurboRun r(s, q);
  r.connect();
  r.correlator();
  r.fi(0);
  r.each([](tp::Circuit& C) { C.MapCorrToCircuit(); });
  auto kc = correlations(r);
  std::map<u128, std::string> seen;
  auto put = [&](u128 x, const std::string& nm) {
    auto it = seen.emplace(x, nm);
    VP_CHECK(it.second, nm, " equals ", it.first->second, ": ", str(x));
  };
  std::map<std::vector<u128>, std::string> zeros;
  auto zero = [&](const std::vector<u128>& z, const std::string& nm) {
    if (n == k) return;
    auto it = zeros.emplace(z, nm);
    VP_CHECK(it.second, nm, " is ", it.first->second);
  };
  for (std::size_t i = 0; i < s.nodes.size(); i++)
    if (s.nodes[i].kind == Spec::In || s.nodes[i].kind == Spec::Mul) put(at(col(r, [&](std::size_t p) { return val(kc.c[p].mMapIndShrs[r.p[p].gates[i]]); }), 0), "the mask of w" + std::to_string(i));
  for (auto b : first_nodes(s)) {
    std::string w = " of batch w" + std::to_string(b);
    std::vector<std::vector<u128>> f(5);
    for (std::size_t p = 0; p < n; p++) {
      auto e = kc.c[p].mMapMultBatch[kc.mult[p][b]];
      FF x[5] = {e.mShrA, e.mShrB, e.mShrO1, e.mShrO2, e.mShrO3};
      for (int z = 0; z < 5; z++) f[z].push_back(val(x[z]));
    }
    for (std::size_t j = 0; j < k; j++) {
      put(at(f[0], A.neg(j)), "a[" + std::to_string(j) + "]" + w);
      put(at(f[1], A.neg(j)), "b[" + std::to_string(j) + "]" + w);
    }
    for (int z = 2; z < 5; z++) zero(f[z], "zero sharing " + std::to_string(z - 1) + w);
  }
  for (auto& kv : kc.in[0]) zero(col(r, [&](std::size_t p) { return val(kc.c[p].mMapInputBatch[kc.in[p][kv.first]].mShrO); }), "the zero sharing of the input batch of w" + std::to_string(kv.first));
  for (auto& kv : kc.out[0]) zero(col(r, [&](std::size_t p) { return val(kc.c[p].mMapOutputBatch[kc.out[p][kv.first]].mShrO); }), "the zero sharing of the output batch of w" + std::to_string(kv.first));
}
VP_ARM(distinct_wide, 60, 1200, 400, 2) { distinct(c, 0); }
VP_ARM(distinct_large, 14, 300, 60, 1) { distinct(c, 1); }
VP_ARM(distinct_huge, 2, 40, 60, 1) { distinct(c, 2); }
static std::size_t rank_of_columns(const std::vector<std::vector<u128>>& rows, std::size_t lo, std::size_t hi) {
  std::vector<std::vector<u128>> m;
  for (std::size_t i = 1; i < rows.size(); i++) {
    m.emplace_back();
    for (std::size_t j = lo; j < hi; j++) m.back().push_back(fa().sub(rows[i][j], rows[0][j]));
  }
  return rank_of(m);
}
// t dealers whose dealings are fixed, and who see their own shares of everybody else's: nothing is determined for them
VP_ARM(coalition, 60, 1200, 140, 3) {
  auto A = fa();
  Params q = gen_params(c, 3, 2);
  if (!q.t) q = {q.n + 1, 1, q.k};
  Spec s = tiny_spec(c, q.n, q.k);
  std::size_t n = q.n, k = q.k, t = q.t, M = s.mult_batches();
  int phase = (int)c.weighted({3, 3, 2, 2});
  auto T = c.perm(n);
  int how = (int)c.range(0, 2);
  std::sort(T.begin(), T.end(), [&](std::size_t a, std::size_t b) { return how == 1 ? a < b : how == 2 ? a > b : false; });
  std::vector<std::size_t> honest(T.begin() + t, T.end());
  T.resize(t);
  u64 seed = c.word() | 1, pick = c.word();
  static const char* nm[] = {"masks", "triples", "zero sharings", "zero sharings of products"};
  std::string who;
  for (auto x : T) who += " " + std::to_string(x);
  c.note("n=", n, " t=", t, " k=", k, " fixed dealers", who, ", ", nm[phase], ", circuit ", s.show());
  c.label(nm[phase]);
  c.interesting(s.size());
  auto one = [&](std::size_t slot) { return std::vector<u128>{A.neg(slot)}; };
  std::vector<std::vector<u128>> rows;
  std::map<std::vector<std::size_t>, std::vector<u128>> dealt;
  std::size_t view = 0, need = 4;
  for (std::size_t run = 0; run < need; run++) {
    TurboRun r(s, q);
    r.connect();
    r.correlator();
    Mixer mx(r.net, seed);
    std::vector<u128> row;
    for (int ph = 0; ph < 4; ph++) {
      auto m = mx.mark();
      r.each([ph](tp::Circuit& C) {
        if (ph == 0) C.GenIndShrsPartiesSend();
        if (ph == 1) C.GenUnpackedShrPartiesSend();
        if (ph == 2) C.GenZeroPartiesSend();
        if (ph == 3) C.GenZeroForProdPartiesSend();
      });
      std::size_t cnt = mx.count(m);
      if (!cnt || (ph % 2 && cnt % k)) {
        c.label("layout not recognised");
        return;
      }
      std::size_t deg = ph == 0 ? n - k : ph == 1 ? t : n - 1;
      for (std::size_t d = 0; d < n; d++) {
        bool fixed = std::find(T.begin(), T.end(), d) != T.end() || (phase == 3 && ph < 2);
        for (std::size_t i = 0; i < cnt; i++) {
          if (fixed) {
            auto& sh = dealt[{(std::size_t)ph, d, i}];
            if (sh.empty()) sh = mx.sharing(ph % 2 ? one(i / (cnt / k)) : r.slots_all(), ph < 2 ? mx.elem() : 0, deg);
            for (std::size_t p = 0; p < n; p++) mx.put(d, p, m[d][p] + i, sh[p]);
          } else if (ph == phase)
            for (auto p : T) row.push_back(val(FF::Read(r.net.queue(d, p)[m[d][p] + i].data())));
        }
      }
    }
    view = row.size();
    r.each([](tp::Circuit& C) { C.FIPrepRecv(); });
    r.each([](tp::Circuit& C) { C.GenProdPartiesSendP1(); });
    std::vector<std::vector<u128>> prod(k * M);
    for (std::size_t p = 0; p < n; p++) {
      auto& qu = r.net.queue(p, 0);
      if (qu.size() != k * M) {
        c.label("layout not recognised");
        return;
      }
      for (std::size_t i = 0; i < k * M; i++) {
        if (qu[i].size() != 8) return;
        prod[i].push_back(val(FF::Read(qu[i].data())));
      }
    }
    r.each([](tp::Circuit& C) { C.GenProdP1ReceivesAndSends(); });
    r.each([](tp::Circuit& C) { C.GenProdPartiesReceive(); });
    r.each([](tp::Circuit& C) { C.MapCorrToCircuit(); });
    auto kc = correlations(r);
    auto zero = [&](const std::vector<u128>& z, std::size_t free) {
      for (std::size_t j = 0; j < free; j++) row.push_back(z[honest[j]]);
    };
    if (phase == 0)
      for (std::size_t i = 0; i < s.nodes.size(); i++)
        if (s.nodes[i].kind == Spec::In || s.nodes[i].kind == Spec::Mul) row.push_back(at(col(r, [&](std::size_t p) { return val(kc.c[p].mMapIndShrs[r.p[p].gates[i]]); }), 0));
    if (phase == 3)
      for (std::size_t i = 0; i < k * M; i++) zero(prod[i], i == pick % (k * M) ? n - t - 1 : 1);
    std::size_t z = 0;
    if (phase == 1 || phase == 2) {
      std::size_t base = 0;
      for (std::size_t l = 0; l < s.depth(); l++) {
        std::size_t cnt = 0;
        for (std::size_t i = 0; i < s.nodes.size(); i++)
          if (s.nodes[i].kind == Spec::Mul && s.nodes[i].layer == l && cnt++ % k == 0) {
            std::vector<std::vector<u128>> f(5);
            for (std::size_t p = 0; p < n; p++) {
              auto e = kc.c[p].mMapMultBatch[kc.mult[p][i]];
              FF x[5] = {e.mShrA, e.mShrB, e.mShrO1, e.mShrO2, e.mShrO3};
              for (int y = 0; y < 5; y++) f[y].push_back(val(x[y]));
            }
            if (phase == 1)
              for (std::size_t j = 0; j < k; j++) {
                u128 a = at(f[0], A.neg(j)), b = at(f[1], A.neg(j));
                row.push_back(a);
                row.push_back(b);
                row.push_back(A.sub(at(prod[j * M + base + (cnt - 1) / k], A.neg(j)), A.mul(a, b)));
              }
            else
              for (int y = 2; y < 5; y++) zero(f[y], z++ == pick % 5 ? k - 1 : 1);
          }
        base += s.batches(s.widths[l]);
      }
    }
    if (phase == 2) {
      for (auto& kv : kc.in[0]) zero(col(r, [&](std::size_t p) { return val(kc.c[p].mMapInputBatch[kc.in[p][kv.first]].mShrO); }), z++ == pick % 5 ? k - 1 : 1);
      for (auto& kv : kc.out[0]) zero(col(r, [&](std::size_t p) { return val(kc.c[p].mMapOutputBatch[kc.out[p][kv.first]].mShrO); }), z++ == pick % 5 ? k - 1 : 1);
    }
    rows.push_back(row);
    need = row.size() + 4;
    if (need > 240) c.discard();
  }
  std::size_t w = rows[0].size(), rk = rank_of_columns(rows, 0, w), rv = rank_of_columns(rows, 0, view);
  VP_CHECK(rk == rv + (w - view), "with the dealings of parties", who, " fixed and given the ", view, " shares dealt to them, the ", w - view, " ", nm[phase], " span ", rk - rv, " dimensions: parties", who,
           " together determine some of them or a relation between them");
}
// each zero sharing hides one value only: everything else fixed, what is sent for reconstruction and kept varies freely
VP_ARM(used_once, 25, 500, 120, 2) {
  auto A = fa();
  Params q = gen_params(c, 3, 2);
  Spec s = tiny_spec(c, q.n, q.k);
  std::size_t n = q.n, k = q.k;
  auto pos = c.perm(n);
  u64 pick = c.word(), seed = c.word() | 1;
  c.note("n=", n, " t=", q.t, " k=", k, " circuit ", s.show());
  c.interesting(s.size());
  std::vector<std::vector<u128>> rows;
  std::size_t need = 4;
  for (std::size_t run = 0; run < need; run++) {
    TurboRun r(s, q);
    r.connect();
    r.correlator();
    Mixer mx(r.net, seed);
    auto m = mx.mark();
    r.each([](tp::Circuit& C) { C.GenIndShrsPartiesSend(); });
    std::size_t b = mx.count(m), b2;
    if (b) mx.mix(m, b, [&](std::size_t) { return r.slots_all(); }, n - k, true);
    m = mx.mark();
    r.each([](tp::Circuit& C) { C.GenUnpackedShrPartiesSend(); });
    b2 = mx.count(m);
    if (!b || !b2 || b2 % k) {
      c.label("layout not recognised");
      return;
    }
    mx.mix(m, b2, [&](std::size_t i) { return std::vector<u128>{A.neg(i / (b2 / k))}; }, q.t, true);
    r.each([](tp::Circuit& C) { C.GenZeroPartiesSend(); });
    r.each([](tp::Circuit& C) { C.GenZeroForProdPartiesSend(); });
    r.each([](tp::Circuit& C) { C.FIPrepRecv(); });
    r.each([](tp::Circuit& C) { C.GenProdPartiesSendP1(); });
    r.each([](tp::Circuit& C) { C.GenProdP1ReceivesAndSends(); });
    r.each([](tp::Circuit& C) { C.GenProdPartiesReceive(); });
    r.each([](tp::Circuit& C) { C.MapCorrToCircuit(); });
    std::vector<std::vector<u128>> sh;
    auto collect = [&](std::size_t to) {
      auto& first = r.net.log[{0u, (unsigned)to}];
      for (std::size_t x = 0; x + 8 <= first.size(); x += 8) {
        sh.emplace_back();
        for (std::size_t p = 0; p < n; p++) {
          auto& g = r.net.log[{(unsigned)p, (unsigned)to}];
          VP_CHECK(g.size() == first.size(), "parties 0 and ", p, " sent ", first.size(), " and ", g.size(), " bytes to party ", to);
          sh.back().push_back(val(FF::Read(g.data() + x)));
        }
      }
    };
    r.net.keep = true;
    r.net.log.clear();
    r.each([](tp::Circuit& C) { C.PrepMultPartiesSendP1(); });
    collect(0);
    r.each([](tp::Circuit& C) { C.PrepMultP1ReceivesAndSends(); });
    r.each([](tp::Circuit& C) { C.PrepMultPartiesReceive(); });
    r.net.log.clear();
    r.each([](tp::Circuit& C) { C.PrepIOPartiesSendOwner(); });
    for (std::size_t p = 0; p < n; p++) collect(p);
    r.each([](tp::Circuit& C) { C.PrepIOOwnerReceives(); });
    r.net.keep = false;
    // and the material kept for the online phase (real batches and padding)
    for (std::size_t l = 0; l < s.depth(); l++)
      for (auto& d : probe(r, l, 0, 0)) sh.push_back(d);
    std::vector<u128> row;
    for (std::size_t x = 0; x < sh.size(); x++)
      for (std::size_t j = 0; j < (x == pick % sh.size() ? n - k : 1); j++) row.push_back(sh[x][pos[j]]);
    rows.push_back(row);
    need = row.size() + 4;
    if (need > 120) c.discard();
  }
  std::size_t w = rows[0].size(), rk = rank_of_columns(rows, 0, w);
  VP_CHECK(rk == w, "only zero sharings vary over ", rows.size(), " runs; the ", w, " shares sent for reconstruction or kept as product material span ", rk, " dimensions: a zero sharing hides two values or is missing");
}
// masks of additions and outputs computed by the gates themselves
VP_ARM(gate_masks, 3000, 40000, 160, 1) {
  auto A = fa();
  Spec s = gen_spec(c, c.range(1, 4), c.range(1, 4), 4, 5);
  Built b;
  build(b, s);
  std::vector<u128> m(s.nodes.size()), d(s.nodes.size());
  Rng r = c.rng();
  c.note(s.show());
  c.interesting(!s.outs.empty());
  for (std::size_t i = 0; i < s.nodes.size(); i++) {
    auto& nd = s.nodes[i];
    m[i] = r.next128() % P61;
    d[i] = r.next128() % P61;
    if (nd.kind == Spec::In) {
      auto g = std::dynamic_pointer_cast<tp::InputGate>(b.gates[i]);
      g->SetIndvShrLambda(ff(m[i]));
      g->SetLambda(ff(d[i]));
    } else if (nd.kind == Spec::Mul) {
      auto g = std::dynamic_pointer_cast<tp::MultGate>(b.gates[i]);
      g->SetIndvShrLambda(ff(m[i]));
      g->SetDummyLambda(ff(d[i]));
    } else {
      m[i] = nd.kind == Spec::Add ? A.add(m[nd.a], m[nd.b]) : m[nd.a];
      d[i] = nd.kind == Spec::Add ? A.add(d[nd.a], d[nd.b]) : d[nd.a];
    }
  }
  auto order = c.flip();
  for (std::size_t x = 0; x < s.nodes.size(); x++) {
    std::size_t i = order ? s.nodes.size() - 1 - x : x;
    VP_CHECK(val(b.gates[i]->GetIndvShrLambda()) == m[i], "share of the mask of w", i, " is ", str(val(b.gates[i]->GetIndvShrLambda())), " instead of ", str(m[i]));
    VP_CHECK(val(b.gates[i]->GetDummyLambda()) == d[i], "mask of w", i, " is ", str(val(b.gates[i]->GetDummyLambda())), " instead of ", str(d[i]));
  }
}
// The same for many parties and wire masks: everything t dealers dealt and the shares dealt to them stay as they are
VP_ARM(coalition_many, 12, 250, 120, 2) {
  Params q = gen_params(c, 9, 3);
  if (!q.t) q = {q.n + 1, 1, q.k};
  std::size_t n = q.n, k = q.k, t = q.t;
  Spec s = c.flip() ? gen_row(c, n, k, t + c.range(0, 3)) : gen_spec(c, n, k, 1, 1 + c.range(0, std::min<std::size_t>(2 * t, 12)));
  std::size_t dims = s.n_inputs() + s.size();
  auto T = c.perm(n);
  int how = (int)c.range(0, 2);
  std::sort(T.begin(), T.end(), [&](std::size_t a, std::size_t b) { return how == 1 ? a < b : how == 2 ? a > b : false; });
  T.resize(t);
  std::string who;
  for (auto x : T) who += " " + std::to_string(x);
  u64 seed = c.word() | 1;
  c.note("n=", n, " t=", t, " k=", k, " dealers", who, ", circuit ", s.show());
  c.interesting(n > 9);
  std::map<std::pair<std::size_t, std::size_t>, std::vector<u128>> dealt;
  std::vector<std::vector<u128>> rows;
  for (std::size_t run = 0; run < dims + 3; run++) {
    TurboRun r(s, q);
    r.connect();
    r.correlator();
    Mixer fixed(r.net, seed), mx(r.net, splitmix(seed));
    auto m = mx.mark();
    r.each([](tp::Circuit& C) { C.GenIndShrsPartiesSend(); });
    std::size_t cnt = mx.count(m);
    if (!cnt) {
      c.label("layout not recognised");
      return;
    }
    for (std::size_t d = 0; d < n; d++)
      for (std::size_t i = 0; i < cnt; i++) {
        auto& f = dealt[{d, i}];
        bool mine = std::find(T.begin(), T.end(), d) != T.end();
        if (f.empty()) f = fixed.sharing(r.slots_all(), fixed.elem(), n - k);
        std::vector<u128> theirs;
        for (auto p : T) theirs.push_back(f[p]);
        auto sh = mine ? f : mx.sharing(r.slots_all(), mx.elem(), n - k, T, theirs);
        for (std::size_t p = 0; p < n; p++) mx.put(d, p, m[d][p] + i, sh[p]);
      }
    r.each([](tp::Circuit& C) { C.GenIndShrsPartiesReceive(); });
    r.each([](tp::Circuit& C) { C.GenMultBatchDummy(); });
    r.each([](tp::Circuit& C) { C.GenIOBatchDummy(); });
    r.each([](tp::Circuit& C) { C.MapCorrToCircuit(); });
    auto kc = correlations(r);
    std::vector<u128> row;
    for (std::size_t i = 0; i < s.nodes.size(); i++)
      if (s.nodes[i].kind == Spec::In || s.nodes[i].kind == Spec::Mul) row.push_back(at(col(r, [&](std::size_t p) { return val(kc.c[p].mMapIndShrs[r.p[p].gates[i]]); }), 0));
    rows.push_back(row);
  }
  std::size_t rk = rank_of_columns(rows, 0, dims);
  VP_CHECK(rk == dims, "with the dealings of parties", who, " and the shares dealt to them fixed, the ", dims, " wire masks span ", rk, " dimensions: they together determine some or a relation between them");
}
