// C03: building, metrics and evaluation in the clear.
// vp: case_timeout=100 budget=26
#include "tp_util.h"
using namespace vp;
const char* vp::kRule =
    "layered circuits of 1..8 layers with 0..40 multiplications, additions anywhere, empty layers, parties without wires, batch sizes 1..9, long chains of additions and layers; "
    "circuits with more than 65536 wires or batches of one kind or 256 layers; synthetic configurations (even input counts dividing the width, depth 1..6, any outputs). Values set per client, flat or per gate, read per client, flat or per gate in random "
    "order, sometimes set twice before reading, sometimes set again after reading; compared with evaluation over the integers. Depth, width, size, wire and batch counts compared with the specification; gates fetched by owner and index, by index, "
    "and by layer compared with the ones the builder returned. Non-trivial: at least two multiplications and an output.";

static void metrics(Built& b, const Spec& s) {
  auto& C = b.circuit;
  std::size_t width = 0;
  for (auto w : s.widths) width = std::max(width, w);
  VP_CHECK(C.GetDepth() == s.depth(), "depth ", C.GetDepth(), " instead of ", s.depth());
  VP_CHECK(C.GetWidth() == width, "width ", C.GetWidth(), " instead of ", width);
  VP_CHECK(C.GetSize() == s.size(), "size ", C.GetSize(), " instead of ", s.size());
  VP_CHECK(C.GetNInputs() == s.n_inputs(), "inputs ", C.GetNInputs(), " instead of ", s.n_inputs());
  VP_CHECK(C.GetNOutputs() == s.outs.size(), "outputs ", C.GetNOutputs(), " instead of ", s.outs.size());
  VP_CHECK(C.GetNMultBatches() == s.mult_batches(), "multiplication batches ", C.GetNMultBatches(), " instead of ", s.mult_batches());
  VP_CHECK(C.GetNInputBatches() == s.in_batches(), "input batches ", C.GetNInputBatches(), " instead of ", s.in_batches());
  VP_CHECK(C.GetNOutputBatches() == s.out_batches(), "output batches ", C.GetNOutputBatches(), " instead of ", s.out_batches());
}
static void lookup(Built& b, const Spec& s) {
  auto& C = b.circuit;
  std::size_t gi = 0, go = 0;
  std::vector<std::size_t> pi(s.clients, 0), po(s.clients, 0), pm(s.depth(), 0);
  for (std::size_t i = 0; i < s.nodes.size(); i++) {
    auto& d = s.nodes[i];
    if (d.kind == Spec::In) {
      VP_CHECK(C.GetInputGate(d.owner, pi[d.owner]++) == b.gates[i], "input w", i, " by owner");
      VP_CHECK(C.GetInputGate(gi++) == b.gates[i], "input w", i, " by index");
      VP_CHECK(C.GetInputGate(gi - 1)->GetOwner() == d.owner, "owner of input w", i);
    }
    if (d.kind == Spec::Mul) VP_CHECK(C.GetMultGate(d.layer, pm[d.layer]++) == b.gates[i], "multiplication w", i, " in layer ", d.layer);
    if (d.kind == Spec::Out) {
      VP_CHECK(C.GetOutputGate(d.owner, po[d.owner]++) == b.gates[i], "output w", i, " by owner");
      VP_CHECK(C.GetOutputGate(go++) == b.gates[i], "output w", i, " by index");
      VP_CHECK(C.GetOutputGate(go - 1)->GetOwner() == d.owner, "owner of output w", i);
    }
    if (d.kind != Spec::In) {
      VP_CHECK(b.gates[i]->GetLeft() == b.gates[d.a], "left operand of w", i);
      if (d.kind != Spec::Out) VP_CHECK(b.gates[i]->GetRight() == b.gates[d.b], "right operand of w", i);
    }
    VP_CHECK(!b.gates[i]->IsPadding(), "w", i, " is marked as padding");
  }
}
static void set_inputs(Case& c, Built& b, const Spec& s, const std::vector<std::vector<u128>>& in, bool through_circuit = false) {
  auto& C = b.circuit;
  switch (c.range(0, through_circuit ? 1 : 2)) {
    case 0: {
      std::vector<std::vector<FF>> v;
      for (auto& x : in) v.push_back(ffs(x));
      C.SetClearInputs(v);
      break;
    }
    case 1: {
      std::vector<FF> v;
      for (auto& x : in)
        for (auto y : x) v.push_back(ff(y));
      C.SetClearInputsFlat(v);
      break;
    }
    default:
      for (std::size_t p = 0; p < s.clients; p++)
        for (std::size_t j = 0; j < in[p].size(); j++) C.GetInputGate(p, j)->ClearInput(ff(in[p][j]));
  }
}
static void values(Case& c, Built& b, const Spec& s, const std::vector<std::vector<u128>>& in, bool again = false) {
  auto& C = b.circuit;
  auto v = s.eval(in);
  if (!again && c.chance(1, 4)) {  // replaced before anything was read
    auto other = gen_inputs(c, s);
    set_inputs(c, b, s, other);
    c.label("inputs set twice");
  }
  set_inputs(c, b, s, in, again);
  if (c.flip()) {
    Rng r = c.rng();
    for (std::size_t k = 0; k < 6 && !s.nodes.empty(); k++) {
      std::size_t i = r.below(s.nodes.size());
      VP_CHECK(val(b.gates[i]->GetClear()) == v[i], "w", i, " is ", str(val(b.gates[i]->GetClear())), " instead of ", str(v[i]));
    }
  }
  auto flat = [&] {
    auto o = vals(C.GetClearOutputsFlat());
    VP_CHECK(o.size() == s.outs.size(), o.size(), " outputs");
    for (std::size_t i = 0; i < o.size(); i++) VP_CHECK(o[i] == v[s.outs[i]], "output ", i, " is ", str(o[i]), " instead of ", str(v[s.outs[i]]));
  };
  auto per = [&] {
    auto o = C.GetClearOutputs();
    VP_CHECK(o.size() == s.clients, "outputs for ", o.size(), " parties");
    std::vector<std::vector<u128>> g;
    for (auto& x : o) g.push_back(vals(x));
    compare_outputs(s, g, s.outputs(v));
  };
  if (c.flip()) {
    flat();
    per();
  } else {
    per();
    flat();
  }
  for (std::size_t i = 0; i < s.nodes.size(); i++) VP_CHECK(val(b.gates[i]->GetClear()) == v[i], "w", i, " is ", str(val(b.gates[i]->GetClear())), " instead of ", str(v[i]));
  if (!again && c.chance(1, 4)) {  // the same circuit on other inputs
    auto other = gen_inputs(c, s);
    c.label("evaluated again");
    c.note("again on ", show_inputs(other));
    values(c, b, s, other, true);
  }
}
static void free_form(Case& c, std::size_t layers, std::size_t width) {
  std::size_t clients = c.chance(1, 4) ? c.range(7, 16) : c.range(1, 6), batch = c.range(1, 9);
  Spec s = gen_spec(c, clients, batch, layers, width);
  auto in = gen_inputs(c, s);
  c.note(s.show(), " inputs ", show_inputs(in));
  c.interesting(s.size() >= 2 && !s.outs.empty());
  c.label("batch " + std::to_string(batch));
  c.label("depth " + std::to_string(s.depth()));
  Built b;
  build(b, s);
  metrics(b, s);
  lookup(b, s);
  values(c, b, s, in);
  // another batch size changes nothing but the batches
  Spec s2 = s;
  s2.batch = c.range(1, 9);
  Built b2;
  build(b2, s2);
  metrics(b2, s2);
  values(c, b2, s2, in);
}
static void huge(Case& c) {
  std::size_t clients = c.range(1, 5), batch = c.chance(1, 2) ? 1 : c.range(2, 300);
  Spec s = gen_huge(c, clients, batch);
  auto in = gen_many_inputs(c, s);
  c.note(s.show());
  c.interesting();
  Built b;
  build(b, s);
  metrics(b, s);
  lookup(b, s);
  values(c, b, s, in);
}
VP_ARM(huge, 2, 40, 60, 1) { huge(c); }
VP_ARM(small, 9000, 120000, 160, 3) { free_form(c, 5, 6); }
VP_ARM(wide, 1500, 20000, 420, 2) { free_form(c, 8, 40); }
VP_ARM(config, 6000, 80000, 60, 3) {
  std::size_t clients = c.chance(1, 4) ? c.range(7, 16) : c.range(1, 6), batch = c.range(1, 9);
  Config k = gen_config(c, clients, batch);
  if (c.chance(1, 3)) k.depth = c.range(1, 12);
  if (c.chance(1, 6)) k.width *= c.range(1, 6);
  Spec s = k.spec();
  auto in = gen_inputs(c, s);
  c.note("parties ", clients, " batch ", batch, " width ", k.width, " depth ", k.depth, " inputs ", s.n_inputs(), " outputs ", s.outs.size(), " values ", show_inputs(in));
  c.interesting(!s.outs.empty());
  auto cfg = k.cfg();
  VP_CHECK(cfg.ComputeNumberOfInputs() == s.n_inputs() && cfg.ComputeNumberOfOutputs() == s.outs.size(), "wire counts of the configuration");
  Built b;
  build(b, k, s);
  for (std::size_t p = 0; p < clients; p++) {
    // exactly the requested number of wires per party
    std::vector<std::vector<FF>> v(clients);
    for (std::size_t q = 0; q < clients; q++) v[q].resize(k.in[q]);
    b.circuit.SetClearInputs(v);
  }
  metrics(b, s);
  values(c, b, s, in);
  std::size_t gi = 0;
  for (std::size_t p = 0; p < clients; p++)
    for (std::size_t j = 0; j < k.in[p]; j++, gi++) {
      VP_CHECK(b.circuit.GetInputGate(gi) == b.circuit.GetInputGate(p, j), "input ", gi);
      VP_CHECK(b.circuit.GetInputGate(gi)->GetOwner() == p, "owner of input ", gi);
    }
  std::size_t go = 0;
  for (std::size_t p = 0; p < clients; p++)
    for (std::size_t j = 0; j < k.out[p]; j++, go++) {
      VP_CHECK(b.circuit.GetOutputGate(go) == b.circuit.GetOutputGate(p, j), "output ", go);
      VP_CHECK(b.circuit.GetOutputGate(go)->GetOwner() == p, "owner of output ", go);
    }
}
VP_ARM(deep, 200, 3000, 40, 1) {
  Spec s;
  s.clients = c.range(1, 3);
  s.batch = c.range(1, 4);
  s.in.resize(s.clients);
  s.out.resize(s.clients);
  std::size_t ni = c.range(1, 3);
  for (std::size_t i = 0; i < ni; i++) {
    std::size_t o = c.range(0, s.clients - 1);
    s.in[o].push_back(i);
    s.nodes.push_back({Spec::In, 0, 0, o, 0});
  }
  std::size_t layers = c.range(1, 60), adds = c.range(0, 30);
  Rng r = c.rng();
  std::vector<std::size_t> avail(ni);
  std::iota(avail.begin(), avail.end(), 0);
  for (std::size_t l = 0; l < layers; l++) {
    if (l) s.layer_end.push_back(s.nodes.size());
    for (std::size_t i = 0, n = r.below(adds + 1); i < n; i++) {
      avail.push_back(s.nodes.size());
      s.nodes.push_back({Spec::Add, avail[avail.size() - 2], avail[r.below(avail.size() - 1)], 0, l});
    }
    std::size_t w = r.below(3);
    std::vector<std::size_t> fresh;
    for (std::size_t i = 0; i < w; i++) {
      fresh.push_back(s.nodes.size());
      s.nodes.push_back({Spec::Mul, avail.back(), avail[r.below(avail.size())], 0, l});
    }
    s.widths.push_back(w);
    avail.insert(avail.end(), fresh.begin(), fresh.end());
  }
  s.out[0].push_back(s.nodes.size());
  s.outs.push_back(s.nodes.size());
  s.nodes.push_back({Spec::Out, avail.back(), 0, 0, 0});
  auto in = gen_inputs(c, s);
  c.note(layers, " layers, ", s.nodes.size(), " gates, inputs ", show_inputs(in));
  c.interesting(s.size() >= 2);
  Built b;
  build(b, s);
  metrics(b, s);
  lookup(b, s);
  values(c, b, s, in);
}
