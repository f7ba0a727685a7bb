// C39: processors as devices keep their identity.
// params: 0 mode (0 moves of devices, 1 a backend), 1 operations, 2 most sockets (-DKNP_X86: over a model of Intel PCM)
#include "backend_common.h"
#include <knp/devices/cpu.h>
#ifdef KNP_X86
#include <cpucounters.h>
#endif
#include <list>
using knp::devices::cpu::CPU;
using knp::devices::cpu::list_processors;
struct Id { UID uid; std::string name; uint32_t socket; int tag; };
static void same(CPU &d, const Id &i) {
  ks::check(ueq(d.get_uid(), i.uid), "a moved device keeps its UID");
  ks::check(d.get_name() == i.name, "a moved device keeps its name");
  ks::check(d.get_socket_number() == i.socket, "a moved device keeps its socket number");
  ks::check(d.get_type() == knp::core::DeviceType::CPU, "a processor is a CPU");
  ks::check(d.get_tags().get_tag<int>("k") == i.tag, "a moved device keeps its tags");
#ifdef KNP_X86
  d.get_power();  // the device has a power meter
#endif
}
static void moves() {
  std::vector<CPU> a = list_processors(), b = list_processors();
  ks::check(a.size() == b.size(), "every enumeration lists the same number of processors");
#ifdef KNP_X86
  unsigned on = 0;
  for (unsigned i = 0; i < pcm::pcm_sockets; i++)
    if (pcm::pcm_online >> i & 1) {
      ks::check(on < a.size() && a[on].get_socket_number() == i, "the sockets on line are listed in order");
      if (on >= a.size()) return;
      on++;
    }
  ks::check(on == a.size(), "only the sockets on line are listed");
#else
  ks::check(a.size() == 1 && a[0].get_socket_number() == 0, "one processor is listed");
#endif
  for (size_t i = 0; i < a.size(); i++) {
    ks::check(bool(a[i].get_uid()), "a processor has a UID");
    ks::check(ueq(a[i].get_uid(), b[i].get_uid()), "every enumeration gives a processor the same UID");
    ks::check(a[i].get_name() == b[i].get_name() && !a[i].get_name().empty(), "every enumeration gives a processor the same name");
    for (size_t k = 0; k < i; k++) {
      ks::check(!ueq(a[i].get_uid(), a[k].get_uid()), "different processors have different UIDs");
      ks::check(a[i].get_name() != a[k].get_name(), "different processors have different names");
    }
  }
  if (a.empty()) return;
  ks::reach("listed");
  // two slots that are moved about
  std::vector<Id> ids;
  for (auto *v : {&a, &b})
    for (auto &d : *v) {
      int tag = ks::sym<int>("tag");
      d.get_tags().get_tag("k") = tag;
      ids.push_back({d.get_uid(), d.get_name(), d.get_socket_number(), tag});
    }
  const size_t n = a.size();
  for (size_t o = 0; o < knpsym_param(1); o++) {
    const size_t i = ks::choose(n, "device"), j = ks::choose(n, "other");
    switch (ks::choose(4, "move")) {
      case 0: { CPU t(std::move(a[i])); same(t, ids[i]); a[i] = std::move(t); break; }
      case 1: { CPU t(std::move(b[j])); b[j] = std::move(a[i]); same(b[j], ids[i]); a[i] = std::move(t); std::swap(ids[i], ids[n + j]); break; }
      case 2: { std::vector<CPU> v; for (auto &d : a) v.push_back(std::move(d)); a = std::move(v); break; }
      case 3: if (i != j) { std::swap(a[i], a[j]); std::swap(ids[i], ids[j]); } break;
    }
    for (size_t k = 0; k < n; k++) { same(a[k], ids[k]); same(b[k], ids[n + k]); }
    ks::reach("moved");
  }
}
static void backend() {
  BK b;
  auto first = b.get_devices();
  auto again = b.get_devices();
  ks::check(first.size() == again.size(), "a backend lists the same devices every time");
  for (size_t i = 0; i < first.size() && i < again.size(); i++) {
    ks::check(first[i] && again[i] && ueq(first[i]->get_uid(), again[i]->get_uid()), "a backend gives a device the same UID every time");
    ks::check(first[i]->get_name() == again[i]->get_name(), "a backend gives a device the same name every time");
  }
  std::set<UID> want;
  for (auto &d : first) if (ks::choose(2, "wanted")) want.insert(d->get_uid());
  const bool missing = ks::choose(2, "missing") != 0;
  if (missing) want.insert(mkuid(200));
  bool refused = false;
  try { b.select_devices(want); } catch (const std::logic_error &) { refused = true; }
  ks::check(refused == missing, "a device a backend has listed can be selected by its UID, another one is refused");
  if (refused) { ks::reach("refused"); return; }
  size_t found = 0;
  for (auto &d : b.get_current_devices()) found += want.count(d->get_uid());
  ks::check(found == want.size() && b.get_current_devices().size() == want.size(), "exactly the requested devices are selected");
  if (!want.empty()) ks::reach("selected");
}
extern "C" void knp_harness() {
#ifdef KNP_X86
  pcm::pcm_sockets = ks::choose(knpsym_param(2) + 1, "sockets");
  pcm::pcm_online = ks::choose(1u << pcm::pcm_sockets, "online");
#endif
  if (knpsym_param(0)) { ks::expect("refused"); ks::expect("selected"); return backend(); }
  ks::expect("listed");
  ks::expect("moved");
  moves();
}
