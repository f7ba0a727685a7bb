// C27: rescaling of weights and neuron parameters.
// params: 0 mode (0 values, 1 order, 2 synapses, 3 neurons), 1 type (0 float, 1 double) of values, 2 bits of the numerator of values / synapses / neurons, 3 intervals
#include "knpsym.h"
#include <knp/framework/network.h>
#include <knp/framework/normalization/neuron_accessors.h>
#include <knp/framework/normalization/neuron_normalizer.h>
#include <knp/framework/normalization/synapse_accessors.h>
#include <knp/framework/normalization/synapse_normalizer.h>
#include <cstring>
namespace nt = knp::neuron_traits;
namespace st = knp::synapse_traits;
namespace fw = knp::framework;
namespace nm = knp::framework::normalization;
using knp::core::UID;
static const double intervals[][4] = {{10, 30, 0, 1}, {0, 48, 0, 1}, {-1, 1, 0.25, 0.75}, {0, 3, 5, -2}, {-0.5, 0.25, -1, 3}, {1, 1025, -7, -6.5},
                                      {1.0 / (1 << 24), 3.0 / (1 << 24), 0, 1}, {-2097152, 6291456, 0, 1}, {0, 1.0 / (1 << 30), -1000, 1000}, {0, 1, 0, 1.0 / (1 << 27)}};
template <class T> static T numerator(const char *name) {
  const unsigned bits = knpsym_param(2);
  return T(ks::range(0, 1 << bits, name)) / T(1 << bits);  // exact
}
template <class T> static void values() {
  const double *d = intervals[ks::choose(knpsym_param(3), "interval")];
  nm::Rescaler<T> r{T(d[0]), T(d[1]), T(d[2]), T(d[3])};
  const T lo = T(std::min(d[2], d[3])), hi = T(std::max(d[2], d[3]));
  const T eps = std::numeric_limits<T>::epsilon() * T(8) * T(std::max(std::abs(d[2]), std::abs(d[3])) + std::abs(d[3] - d[2]));
  auto near = [&](T a, T b) { return (a <= b + eps) & (a >= b - eps); };
  if (knpsym_param(0) == 0) {
    ks::check(near(r(T(d[0])), T(d[2])), "the start of the source interval is mapped to the start of the target interval");
    ks::check(near(r(T(d[1])), T(d[3])), "the end of the source interval is mapped to the end of the target interval");
    const T x = numerator<T>("x");
    const T v = T(d[0]) + x * T(d[1] - d[0]), got = r(v);
    ks::check((got <= hi + eps) & (got >= lo - eps), "a value of the source interval is mapped into the target interval");
    ks::check(near(got, T(d[2]) + (v - T(d[0])) * (T(d[3] - d[2]) / T(d[1] - d[0]))), "a value is mapped to its place in the target interval");
  } else {
    const T x = numerator<T>("x"), y = numerator<T>("y");
    const T a = r(T(d[0]) + x * T(d[1] - d[0])), b = r(T(d[0]) + y * T(d[1] - d[0]));
    if (x <= y) ks::check(d[2] < d[3] ? a <= b : a >= b, "the order of values is kept");
  }
  ks::reach("end");
}
template <class S> struct DelayAccessor {
  using P = typename knp::core::Projection<S>::SynapseParameters;
  uint32_t operator()(const P &p) const { return p.delay_; }
  void operator()(P &p, uint32_t v) const { p.delay_ = v; }
};
static UID byte_uid(uint8_t b) {
  UID u(false);
  u.tag.data[15] = b;
  return u;
}
struct Syn { float weight; uint32_t delay; uint32_t output; size_t from, to; };
// a corrector any term of which is known: value * 2 + 1
template <class T> static T correct(T v) { return v * T(2) + T(1); }
template <class S> static Syn put(knp::core::Projection<S> &p, size_t k) {
  typename knp::core::Projection<S>::SynapseParameters s;
  s.weight_ = ks::finite("weight");
  s.delay_ = ks::sym<uint32_t>("delay");
  s.output_type_ = st::OutputType(ks::range(0, 3, "type"));
  Syn r{s.weight_, s.delay_, uint32_t(s.output_type_), k, k + 1};
  p.add_synapses([&](size_t) { return std::make_tuple(s, k, k + 1); }, 1);
  return r;
}
static void synapses() {
  const unsigned n = knpsym_param(2);
  knp::core::Projection<st::DeltaSynapse> a(byte_uid(1), byte_uid(11), byte_uid(12)), c(byte_uid(3), byte_uid(11), byte_uid(12));
  knp::core::Projection<st::AdditiveSTDPDeltaSynapse> b(byte_uid(2), byte_uid(12), byte_uid(11));
  std::vector<Syn> want[3];
  for (unsigned i = ks::choose(n + 1, "first"); i--;) want[0].push_back(put(a, want[0].size()));
  for (unsigned i = ks::choose(n + 1, "second"); i--;) want[1].push_back(put(b, want[1].size()));
  for (unsigned i = ks::choose(n + 1, "third"); i--;) want[2].push_back(put(c, want[2].size()));
  auto verify = [&](const auto &p, const std::vector<Syn> &w, int how) {
    ks::check(p.size() == w.size(), "normalization adds and removes no synapses");
    size_t i = 0;
    for (const auto &s : p) {
      if (i == w.size()) break;
      const auto &x = w[i++];
      const auto &d = std::get<knp::core::synapse_data>(s);
      const float weight = how == 1 ? correct(x.weight) : x.weight;
      const uint32_t delay = how == 2 ? correct(x.delay) : x.delay;
      ks::check(memcmp(&d.weight_, &weight, 4) == 0, how == 1 ? "a selected weight is replaced by its corrected value" : "a weight that is not selected is kept");
      ks::check(d.delay_ == delay, how == 2 ? "a selected delay is replaced by its corrected value" : "a delay that is not selected is kept");
      ks::check(uint32_t(d.output_type_) == x.output && std::get<knp::core::source_neuron_id>(s) == x.from && std::get<knp::core::target_neuron_id>(s) == x.to, "the rest of a synapse is kept");
    }
  };
  const auto weight = [](float v) { return correct(v); };
  const auto delay = [](uint32_t v) { return correct(v); };
  switch (ks::choose(5, "call")) {
    case 0:
      nm::normalize_synapses<st::DeltaSynapse>(a, nm::WeightAccessor<st::DeltaSynapse>(), nm::WeightAccessor<st::DeltaSynapse>(), weight);
      verify(a, want[0], 1);
      break;
    case 1:
      nm::normalize_synapses<st::AdditiveSTDPDeltaSynapse>(b, DelayAccessor<st::AdditiveSTDPDeltaSynapse>(), DelayAccessor<st::AdditiveSTDPDeltaSynapse>(), delay);
      verify(b, want[1], 2);
      break;
    default: {
      const int call = ks::choose(3, "network_call");
      fw::Network net;
      net.add_projection(a);
      net.add_projection(b);
      net.add_projection(c);
      const fw::Network &cnet = net;
      auto all = [&](const fw::Network &w, int how) {
        ks::check(w.projections_count() == 3, "normalization keeps the projections");
        verify(w.get_projection<st::DeltaSynapse>(byte_uid(1)), want[0], how);
        verify(w.get_projection<st::AdditiveSTDPDeltaSynapse>(byte_uid(2)), want[1], how);
        verify(w.get_projection<st::DeltaSynapse>(byte_uid(3)), want[2], how);
      };
      if (call == 0) { nm::normalize_synapses<nm::WeightAccessor, nm::WeightAccessor>(net, weight); all(net, 1); }
      if (call == 1) { nm::normalize_synapses<DelayAccessor, DelayAccessor>(net, delay); all(net, 2); }
      if (call == 2) {
        const fw::Network copy = nm::normalize_synapses<nm::WeightAccessor, nm::WeightAccessor>(cnet, weight);
        all(copy, 1);
        all(net, 0);
        ks::reach("copy");
      }
    }
  }
  ks::reach("end");
}
static void neurons() {
  const unsigned n = knpsym_param(2);
  struct One { double potential, threshold; };
  std::vector<One> want[2];
  for (auto &w : want)
    for (unsigned i = ks::choose(n + 1, "neurons"); i--;) w.push_back({ks::dfinite("potential"), ks::dfinite("threshold")});
  for (auto &x : want[1]) { x.potential = ks::finite("lif_potential"); x.threshold = ks::finite("lif_threshold"); }
  knp::core::Population<nt::BLIFATNeuron> a(byte_uid(1), [&](size_t i) { nt::neuron_parameters<nt::BLIFATNeuron> p; p.potential_ = want[0][i].potential; p.activation_threshold_ = want[0][i].threshold; return p; }, want[0].size());
  knp::core::Population<nt::LIFNeuron> b(byte_uid(2), [&](size_t i) { nt::neuron_parameters<nt::LIFNeuron> p; p.potential_ = float(want[1][i].potential); p.activation_threshold_ = float(want[1][i].threshold); return p; }, want[1].size());
  auto verify = [&](const auto &p, const std::vector<One> &w, bool done) {
    ks::check(p.size() == w.size(), "normalization adds and removes no neurons");
    for (size_t i = 0; i < w.size() && i < p.size(); i++) {
      using V = std::decay_t<decltype(p[i].potential_)>;
      const V v = done ? correct(V(w[i].potential)) : V(w[i].potential), t = V(w[i].threshold);
      ks::check(memcmp(&p[i].potential_, &v, sizeof v) == 0, done ? "a selected parameter is replaced by its corrected value" : "a parameter of another network is kept");
      ks::check(memcmp(&p[i].activation_threshold_, &t, sizeof t) == 0, "other parameters are kept");
    }
  };
  const auto corrector = [](auto v) { return correct(v); };
  switch (ks::choose(4, "call")) {
    case 0:
      nm::normalize_neurons<nt::BLIFATNeuron>(a, nm::PotentialAccessor<nt::BLIFATNeuron>(), nm::PotentialAccessor<nt::BLIFATNeuron>(), corrector);
      verify(a, want[0], true);
      break;
    case 1:
      nm::normalize_neurons<nt::LIFNeuron>(b, nm::PotentialAccessor<nt::LIFNeuron>(), nm::PotentialAccessor<nt::LIFNeuron>(), corrector);
      verify(b, want[1], true);
      break;
    default: {
      const bool copied = ks::choose(2, "copied");
      fw::Network net;
      net.add_population(a);
      net.add_population(b);
      const fw::Network &cnet = net;
      auto all = [&](const fw::Network &w, bool done) {
        ks::check(w.populations_count() == 2, "normalization keeps the populations");
        verify(w.get_population<nt::BLIFATNeuron>(byte_uid(1)), want[0], done);
        verify(w.get_population<nt::LIFNeuron>(byte_uid(2)), want[1], done);
      };
      if (copied) {
        const fw::Network copy = nm::normalize_neurons<nm::PotentialAccessor, nm::PotentialAccessor>(cnet, corrector);
        all(copy, true);
        all(net, false);
        ks::reach("copy");
      } else {
        nm::normalize_neurons<nm::PotentialAccessor, nm::PotentialAccessor>(net, corrector);
        all(net, true);
      }
    }
  }
  ks::reach("end");
}
extern "C" void knp_harness() {
  ks::expect("end");
  const int mode = knpsym_param(0);
  if (mode >= 2) { ks::expect("copy"); return mode == 2 ? synapses() : neurons(); }
  if (knpsym_param(1)) values<double>(); else values<float>();
}
