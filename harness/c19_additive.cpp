// C19: additive STDP. params: 0 mode (0 pairs given as histories, 1 reversed pairs, 2 histories recorded from messages), 1 steps
#include "backend_common.h"
#include <cmath>
using S = st::AdditiveSTDPDeltaSynapse;
using SP = st::synapse_parameters<S>;
using Proj = knp::core::Projection<S>;
using Type = Proj::SharedSynapseParameters::ProcessingType;
static Proj read(const ST &b, const UID &u) {
  auto data = b.get_network_data();
  for (auto &i = *data.projection_range.first; !(i == *data.projection_range.second); ++i) {
    auto v = *i;
    if (auto *p = std::get_if<Proj>(&v)) if (ueq(p->get_uid(), u)) return *p;
  }
  knpsym_fail("a loaded projection is missing");
  __builtin_unreachable();
}
static const SP &syn(const Proj &p, size_t i) { return std::get<0>(p[i]); }
static const UID pre = mkuid(1), post = mkuid(2), uid = mkuid(3);
static void load(ST &b, Proj p) {
  p.unlock_weights();
  b.load_projections({p});
  b._init();
}
static float potentiation(uint64_t from, uint64_t to, float tau) { return std::exp(-static_cast<float>(to - from) / tau); }
static void pairs() {
  static const float taus[][2] = {{1, 1}, {2, 1}, {1, 2}};
  const float *tau = taus[ks::choose(3, "tau")];
  const size_t period = size_t(tau[0] + tau[1]);
  const unsigned second = ks::choose(4, "second");  // what the other synapse has recorded
  const uint64_t base = ks::range(0, 1023, "base");
  SP s[2];
  for (int i = 0; i < 2; i++) {
    s[i].weight_ = ks::finite("weight");
    s[i].rule_.tau_plus_ = tau[0];
    s[i].rule_.tau_minus_ = tau[1];
    const size_t npre = i == 0 || (second & 1) ? period : period - 1, npost = i == 0 || (second & 2) ? period : period - 1;
    for (size_t k = 0; k < npre; k++) s[i].rule_.presynaptic_spike_times_.push_back(base + ks::range(0, 7, "pre"));
    for (size_t k = 0; k < npost; k++) s[i].rule_.postsynaptic_spike_times_.push_back(base + 8 + ks::range(0, 7, "post"));
  }
  ST b;
  load(b, Proj(uid, pre, post, [&](size_t i) { return std::make_tuple(s[i], i, i); }, 2));
  b._step();
  const Proj after = read(b, uid);
  float w[2];
  for (int i = 0; i < 2; i++) {
    const auto &r = s[i].rule_;
    const auto &now = syn(after, i);
    w[i] = s[i].weight_;
    if (r.presynaptic_spike_times_.size() == period && r.postsynaptic_spike_times_.size() == period) {
      float sum = 0;
      for (auto f : r.presynaptic_spike_times_) for (auto n : r.postsynaptic_spike_times_) sum += potentiation(f, n, tau[0]);
      w[i] += sum;
      ks::check(ks::same(now.weight_, w[i]), "the weight grows by the exponential of every pair of spikes");
      ks::check(now.rule_.presynaptic_spike_times_.empty() && now.rule_.postsynaptic_spike_times_.empty(), "pairs that were applied are forgotten");
      ks::reach("applied");
    } else {
      ks::check(ks::same(now.weight_, w[i]), "a synapse without a full history keeps its weight");
      ks::check(now.rule_.presynaptic_spike_times_ == r.presynaptic_spike_times_ && now.rule_.postsynaptic_spike_times_ == r.postsynaptic_spike_times_, "a synapse without a full history keeps its history");
      ks::reach("waiting");
    }
    ks::check(now.rule_.tau_plus_ == tau[0] && now.rule_.tau_minus_ == tau[1], "the time constants are unchanged");
  }
  b._step();
  const Proj later = read(b, uid);
  for (int i = 0; i < 2; i++) ks::check(ks::same(syn(later, i).weight_, w[i]), "a pair contributes once");
  ks::reach("done");
}
static void reversed() {
  SP s;
  s.weight_ = 0;
  s.rule_.tau_plus_ = s.rule_.tau_minus_ = 1;
  for (int k = 0; k < 2; k++) s.rule_.presynaptic_spike_times_.push_back(9 + ks::choose(3, "pre"));
  for (int k = 0; k < 2; k++) s.rule_.postsynaptic_spike_times_.push_back(6 + ks::choose(3, "post"));
  ST b;
  load(b, Proj(uid, pre, post, [&](size_t i) { return std::make_tuple(s, i, i); }, 1));
  b._step();
  const float w = syn(read(b, uid), 0).weight_;
  ks::check(!(w > 0), "postsynaptic spikes before presynaptic ones never raise the weight");
  ks::check(w < 0, "postsynaptic spikes before presynaptic ones lower the weight");
  ks::reach("done");
}
static void messages() {
  const size_t steps = knpsym_param(1), n = 3;
  // 0 no marks, 1 the postsynaptic population is STDP-only, 2 a loop marked STDP-only, 3 a loop marked STDP and spikes
  const unsigned kind = ks::choose(4, "kind");
  const bool loop = kind >= 2, full = steps <= 2 && ks::choose(2, "full");
  const UID to = loop ? pre : post;
  SP s[3];
  const struct { size_t from, to; } ends[3] = {{0, 0}, {0, 1}, {1, 0}};
  std::vector<uint64_t> hpre[3], hpost[3];
  for (size_t i = 0; i < n; i++) {
    s[i].weight_ = ks::finite("weight");
    s[i].delay_ = 1;
    s[i].output_type_ = OT::EXCITATORY;
    s[i].rule_.tau_plus_ = full ? 1 : 100;
    s[i].rule_.tau_minus_ = full ? 1 : 100;
    if (!loop && i != 1) for (int k = 0; k < 2; k++) s[i].rule_.presynaptic_spike_times_.push_back(ks::range(0, 7, "earlier"));
    hpre[i] = s[i].rule_.presynaptic_spike_times_;
  }
  Proj p(uid, pre, to, [&](size_t i) { return std::make_tuple(s[i], ends[i].from, ends[i].to); }, n);
  auto &marks = p.get_shared_parameters().stdp_populations_;
  if (kind) marks[to] = kind == 3 ? Type::STDPAndSpike : Type::STDPOnly;
  ST b;
  load(b, p);
  Spy spy(b);
  spy.watch<SynapticImpactMessage>(uid);
  const size_t period = full ? 2 : 200;
  for (size_t t = 0; t < steps; t++) {
    const unsigned a = ks::choose(4, "pre_spikes"), c = loop ? 0 : ks::choose(4, "post_spikes");
    const uint64_t ta = 16 + t * 8 + ks::range(0, 7, "pre_time"), tc = 16 + t * 8 + ks::range(0, 7, "post_time");
    auto send = [&](const UID &who, unsigned mask, uint64_t when) {
      SpikeMessage m{{who, when}, {}};
      for (unsigned i = 0; i < 2; i++) if (mask >> i & 1) m.neuron_indexes_.push_back(i);
      if (mask) spy.ep.send_message(m);
    };
    send(pre, a, ta);
    send(post, c, tc);
    unsigned want[3] = {0, 0, 0};
    for (size_t i = 0; i < n; i++) {
      if (kind != 2 && a >> ends[i].from & 1) want[i]++;
      if (kind == 1 && c >> ends[i].to & 1) hpost[i].push_back(tc);
      if (loop && a >> ends[i].to & 1) hpost[i].push_back(ta);
      if (kind == 3 && a >> ends[i].from & 1) hpre[i].push_back(ta);
    }
    b._step();
    unsigned got[3] = {0, 0, 0};
    for (const auto &m : spy.take<SynapticImpactMessage>())
      for (const auto &x : m.impacts_) {
        if (x.connection_index_ >= n) { knpsym_fail("an impact of a synapse that is not there"); continue; }
        got[x.connection_index_]++;
        ks::check(ks::same(x.impact_value_, s[x.connection_index_].weight_), "the impact carries the weight of its synapse");
      }
    const Proj now = read(b, uid);
    for (size_t i = 0; i < n; i++) {
      const auto &r = syn(now, i).rule_;
      ks::check(got[i] == want[i], "spikes of the presynaptic population are transmitted, STDP-only ones are not");
      if (hpre[i].size() >= period && hpost[i].size() >= period) {
        float sum = 0;
        for (auto f : hpre[i]) for (auto l : hpost[i]) sum += potentiation(f, l, s[i].rule_.tau_plus_);
        s[i].weight_ += sum;
        // pairs that are not presynaptic-before-postsynaptic are left to the other case
        if (loop) s[i].weight_ = syn(now, i).weight_;
        ks::check(ks::same(syn(now, i).weight_, s[i].weight_), "the weight grows by the pairs of its own spikes");
        ks::reach("applied");
        hpre[i].clear();
        hpost[i].clear();
      } else ks::check(ks::same(syn(now, i).weight_, s[i].weight_), "without a full history the weight is unchanged");
      ks::check(r.presynaptic_spike_times_ == hpre[i], "presynaptic spike times are those of spikes of the neuron the synapse starts from");
      ks::check(r.postsynaptic_spike_times_ == hpost[i], "postsynaptic spike times are those of spikes of the neuron the synapse ends on");
      if (!hpre[i].empty()) ks::reach("pre");
      if (!hpost[i].empty()) ks::reach("post");
    }
  }
  ks::reach("done");
}
extern "C" void knp_harness() {
  ks::expect("done");
  switch (knpsym_param(0)) {
    case 0: ks::expect("applied"); ks::expect("waiting"); pairs(); break;
    case 1: reversed(); break;
    default: ks::expect("pre"); ks::expect("post"); if (knpsym_param(1) == 2) ks::expect("applied"); messages();
  }
}
