// C30: the connectivity validator and the executor of validators.
// params: 0 mode (0 connectivity, 1 executor), 1 populations, 2 projections, 3 validators of each kind (executor)
#include "backend_common.h"
#include <knp/framework/network.h>
#include <knp/framework/network_validation/executor.h>
#include <knp/framework/network_validation/validators/connectivity.h>
#include <knp/framework/population/neuron_parameters_generators.h>
namespace fw = knp::framework;
namespace nv = knp::framework::network_validation;
static UID byte_uid(uint8_t b) {
  UID u(false);
  u.tag.data[15] = b;
  return u;
}
static void populations(fw::Network &net, unsigned np) {
  for (unsigned i = 0; i < np; i++) {
    if (i % 2) net.add_population(knp::core::Population<nt::LIFNeuron>(byte_uid(1 + i), [](size_t) { return nt::neuron_parameters<nt::LIFNeuron>(); }, 1));
    else net.add_population(knp::core::Population<nt::BLIFATNeuron>(byte_uid(1 + i), [](size_t) { return nt::neuron_parameters<nt::BLIFATNeuron>(); }, 1));
  }
}
static void connectivity() {
  const unsigned np = ks::choose(knpsym_param(1) + 1, "populations"), nj = ks::choose(knpsym_param(2) + 1, "projections");
  fw::Network net;
  populations(net, np);
  // ends: 0 is no population, 1.. the populations of the network, np + 1 one that is not in it
  std::vector<uint8_t> pre(nj), post(nj);
  for (unsigned j = 0; j < nj; j++) {
    pre[j] = uint8_t(ks::range(0, np + 1, "pre"));
    post[j] = uint8_t(ks::range(0, np + 1, "post"));
    if (j % 2) net.add_projection(knp::core::Projection<st::AdditiveSTDPDeltaSynapse>(byte_uid(100 + j), byte_uid(pre[j]), byte_uid(post[j])));
    else net.add_projection(knp::core::Projection<st::DeltaSynapse>(byte_uid(100 + j), byte_uid(pre[j]), byte_uid(post[j])));
  }
  nv::Connectivity validator;
  const auto report = validator(net);
  size_t explained = 0;
  auto count = [&](uint8_t id, nv::Connectivity::ErrorCode code) {
    const std::string name = std::string(byte_uid(id));
    size_t r = 0;
    for (const auto &i : report)
      if (i.message_.find(name) != std::string::npos && i.code_ == nv::Connectivity::make_error_code(code)) {
        r++;
        ks::check(i.severity_ == nv::IssueSeverity::error, "a disconnected element is an error");
      }
    explained += r;
    return r;
  };
  for (unsigned i = 0; i < np; i++) {
    bool connected = false;
    for (unsigned j = 0; j < nj; j++) connected = connected | (pre[j] == 1 + i) | (post[j] == 1 + i);
    const size_t n = count(uint8_t(1 + i), nv::Connectivity::population_not_connected);
    if (connected) ks::check(n == 0, "a population with a projection is not reported");
    else {
      ks::check(n == 1, "a population without projections is reported once");
      ks::reach("population");
    }
  }
  for (unsigned j = 0; j < nj; j++) {
    const size_t n = count(uint8_t(100 + j), nv::Connectivity::projection_not_connected);
    const bool a = pre[j] != 0, b = post[j] != 0, inside = (a & (pre[j] <= np)) | (b & (post[j] <= np));
    if (!(a | b)) {
      ks::check(n == 1, "a projection without populations is reported once");
      ks::reach("projection");
    } else if (inside) ks::check(n == 0, "a projection with a population is not reported");
    else ks::check(n <= 1, "a projection is reported at most once");
  }
  ks::check(explained == report.size(), "nothing but disconnected populations and projections is reported");
  // the network is judged as it is now
  const auto again = validator(net);
  ks::check(again.size() == report.size(), "validating again reports the same");
  ks::reach("end");
}
struct Category : std::error_category {
  const char *name() const noexcept override { return "harness"; }
  std::string message(int) const override { return ""; }
};
static const Category category;
static void executor() {
  const unsigned np = ks::choose(knpsym_param(1) + 1, "populations"), nj = ks::choose(knpsym_param(2) + 1, "projections"), most = knpsym_param(3);
  fw::Network net;
  populations(net, np);
  for (unsigned j = 0; j < nj; j++) net.add_projection(knp::core::Projection<st::DeltaSynapse>(byte_uid(100 + j), byte_uid(1), byte_uid(1)));
  nv::Executor ex;
  struct Added { UID uid; int kind; std::string name; };
  std::vector<Added> added;
  struct Call { size_t validator; UID element; nv::Report report; };
  std::vector<Call> calls;
  auto make = [&](size_t v, const UID &element) {
    nv::Report r;
    for (unsigned n = ks::choose(3, "issues"); n--;) r.push_back({nv::IssueSeverity(ks::range(0, 2, "severity")), "text", {ks::sym<int>("code"), category}});
    calls.push_back({v, element, r});
    return r;
  };
  for (int kind = 0; kind < 3; kind++)
    for (unsigned n = ks::choose(most + 1, "validators"), i = 0; i < n; i++) {
      const size_t v = added.size();
      const bool named = i == 0;
      UID uid(false);
      nv::PopulationValidator p = [&, v](const fw::Network::AllPopulationVariants &x) { return make(v, std::visit([](auto &a) { return a.get_uid(); }, x)); };
      nv::ProjectionValidator q = [&, v](const fw::Network::AllProjectionVariants &x) { return make(v, std::visit([](auto &a) { return a.get_uid(); }, x)); };
      nv::NetworkValidator w = [&, v](const fw::Network &x) { ks::check(&x == &net, "a network validator gets the network"); return make(v, UID(false)); };
      if (kind == 0) uid = named ? ex.add_validator("name", p) : ex.add_validator(p);
      if (kind == 1) uid = named ? ex.add_validator("name", q) : ex.add_validator(q);
      if (kind == 2) uid = named ? ex.add_validator("name", w) : ex.add_validator(w);
      added.push_back({uid, kind, named ? "name" : ""});
    }
  const auto results = ex.run_validators(net);
  // every validator ran once on every element it applies to
  for (size_t v = 0; v < added.size(); v++) {
    std::vector<UID> elements;
    if (added[v].kind == 0) for (unsigned i = 0; i < np; i++) elements.push_back(byte_uid(1 + i));
    if (added[v].kind == 1) for (unsigned j = 0; j < nj; j++) elements.push_back(byte_uid(100 + j));
    if (added[v].kind == 2) elements.push_back(UID(false));
    size_t n = 0;
    for (const auto &c : calls) n += c.validator == v;
    ks::check(n == elements.size(), "a validator runs once per element");
    for (const auto &e : elements) {
      size_t k = 0;
      for (const auto &c : calls) k += c.validator == v && ueq(c.element, e);
      ks::check(k == 1, "a validator runs on every element it applies to");
    }
    // its results, in the order of the calls, are its reports
    size_t at = 0;
    for (const auto &r : results) {
      if (!(r.uid_ == added[v].uid)) continue;
      while (at < calls.size() && calls[at].validator != v) at++;
      ks::check(at < calls.size(), "no more results than runs");
      if (at == calls.size()) break;
      if (!added[v].name.empty()) ks::check(r.validator_name_ == added[v].name, "a result carries the name of its validator");
      const auto &want = calls[at++].report;
      ks::check(r.report_.size() == want.size(), "a report is returned whole");
      for (size_t i = 0; i < want.size() && i < r.report_.size(); i++) {
        ks::check(r.report_[i].severity_ == want[i].severity_ && r.report_[i].message_ == want[i].message_ && r.report_[i].code_.value() == want[i].code_.value() && &r.report_[i].code_.category() == &category,
                  "an issue is returned as it was reported");
        ks::reach("issue");
      }
    }
  }
  ks::check(results.size() == calls.size(), "every report is returned once");
  ks::reach("end");
}
extern "C" void knp_harness() {
  ks::expect("end");
  if (knpsym_param(0)) { ks::expect("issue"); executor(); }
  else { ks::expect("population"); ks::expect("projection"); connectivity(); }
}
