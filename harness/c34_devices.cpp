// C34: device selection.
// params: 0 devices, 1 UIDs requested at most, 2 requests
#include <knp/core/backend.h>
#include "knpsym.h"
#include <stdexcept>
static knp::core::UID did(uint8_t last) {
  std::array<uint8_t, 16> d{};
  for (int i = 0; i < 15; i++) d[i] = i * 7 + 1;
  d[15] = last;
  return knp::core::UID(d);
}
struct D : knp::core::Device {
  uint8_t k;
  explicit D(uint8_t n) : k(n) { base_.uid_ = did(n); }
  knp::core::DeviceType get_type() const override { return knp::core::DeviceType::CPU; }
  const std::string get_name() const override { return "device"; }
  float get_power() const override { return 1; }
};
struct B : knp::core::Backend {
  std::vector<uint8_t> ids;
  bool plasticity_supported() const override { return false; }
  std::vector<std::string> get_supported_neurons() const override { return {}; }
  std::vector<std::string> get_supported_synapses() const override { return {}; }
  std::vector<size_t> get_supported_population_indexes() const override { return {}; }
  std::vector<size_t> get_supported_projection_indexes() const override { return {}; }
  void load_all_projections(const std::vector<knp::core::AllProjectionsVariant> &) override {}
  void load_all_populations(const std::vector<knp::core::AllPopulationsVariant> &) override {}
  void remove_projections(const std::vector<knp::core::UID> &) override {}
  void remove_populations(const std::vector<knp::core::UID> &) override {}
  std::vector<std::unique_ptr<knp::core::Device>> get_devices() const override {
    std::vector<std::unique_ptr<knp::core::Device>> r;
    for (auto i : ids) r.push_back(std::make_unique<D>(i));
    return r;
  }
  void stop_learning() override {}
  void start_learning() override {}
  DataRanges get_network_data() const override { return {}; }
  void _init() override {}
  void _step() override {}
};
extern "C" void knp_harness() {
  B b;
  const size_t n = knpsym_param(0), ask = knpsym_param(1), rounds = knpsym_param(2);
  for (size_t i = 0; i < n; i++) {
    uint8_t v = ks::sym<uint8_t>("device");
    for (auto o : b.ids) knpsym_assume(o != v);
    b.ids.push_back(v);
  }
  for (size_t r = 0; r < rounds; r++) {
    if (ks::choose(2, "single")) {
      uint8_t k = ks::sym<uint8_t>("which");
      b.select_device(std::make_unique<D>(k));
      auto &d = b.get_current_devices();
      ks::check(d.size() == 1 && d[0] && static_cast<D &>(*d[0]).k == k, "selecting one device leaves exactly that device");
      continue;
    }
    const size_t m = ks::choose(ask + 1, "count");
    std::vector<uint8_t> want;
    std::set<knp::core::UID> request;
    for (size_t i = 0; i < m; i++) {
      want.push_back(ks::sym<uint8_t>("requested"));
      request.insert(did(want.back()));
    }
    bool missing = false;
    for (auto w : want) {
      bool found = false;
      for (auto d : b.ids) found |= d == w;
      missing |= !found;
    }
    bool refused = false;
    try { b.select_devices(request); } catch (const std::logic_error &) { refused = true; }
    ks::check(refused == missing, "a request is refused exactly when a requested device does not exist");
    if (refused) { ks::reach("refused"); return; }
    auto &have = b.get_current_devices();
    for (auto w : want) {
      unsigned times = 0;
      for (auto &d : have) times += static_cast<D &>(*d).k == w;
      ks::check(times == 1, "every requested device is selected once");
    }
    for (auto &d : have) {
      bool asked = false;
      for (auto w : want) asked |= static_cast<D &>(*d).k == w;
      ks::check(asked, "no other device is selected");
    }
    ks::reach("selected");
  }
  ks::expect("refused");
  ks::expect("selected");
}
