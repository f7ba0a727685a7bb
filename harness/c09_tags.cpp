// C09: tag maps. params: 0 operations
#include <knp/core/tag.h>
#include <knp/core/population.h>
#include "knpsym.h"
using knp::core::TagMap;
struct Ref { int kind = 0; int i = 0; double d = 0; int s = 0; };  // kind 0 none, 1 int, 2 double, 3 string, 4 enum
static const char *names[] = {"io_type", "a", ""};
static const char *texts[] = {"", "some longer text that does not fit in place"};
extern "C" void knp_harness() {
  using knp::core::tags::IOType;
  ks::expect("end");
  ks::expect("bad type");
  TagMap m;
  Ref ref[3];
  bool made[3] = {};
  ks::check(m.empty(), "a new map is empty");
  auto verify = [&]() {
    bool any = false;
    for (int n = 0; n < 3; n++) {
      const TagMap &c = m;
      any |= made[n];
      ks::check(m.exists(names[n]) == made[n], "exists tells exactly the names written");
      if (!made[n]) continue;
      const Ref &r = ref[n];
      bool has = c.get_tag(names[n]).has_value();
      ks::check(has == (r.kind != 0), "a tag has a value exactly when one was written");
      if (r.kind == 1) ks::check(c.get_tag<int>(names[n]) == r.i && std::any_cast<int>(m[names[n]]) == r.i, "an integer tag reads back");
      if (r.kind == 2) ks::check(ks::same(c.get_tag<double>(names[n]), r.d) && ks::same(m.get_tag<double>(names[n]), r.d), "a floating point tag reads back");
      if (r.kind == 3) ks::check(c.get_tag<std::string>(names[n]) == texts[r.s], "a text tag reads back");
      if (r.kind == 4) ks::check(c.get_tag<IOType>(names[n]) == (r.i & 1 ? IOType::output : IOType::input), "an enumeration tag reads back");
    }
    ks::check(m.empty() == !any, "empty tells whether a name was written");
  };
  for (unsigned o = 0; o < knpsym_param(0); o++) {
    unsigned n = ks::choose(3, "name");
    Ref &r = ref[n];
    switch (ks::choose(7, "op")) {
      case 0: r = {1, ks::sym<int>("int"), 0, 0}; m[names[n]] = r.i; made[n] = true; break;
      case 1: r = {2, 0, ks::sym<double>("double"), 0}; m.get_tag(names[n]) = r.d; made[n] = true; break;
      case 2: r = {3, 0, 0, (int)ks::choose(2, "text")}; m[names[n]] = std::string(texts[r.s]); made[n] = true; break;
      case 3: r = {4, ks::sym<int>("enum"), 0, 0}; m[names[n]] = r.i & 1 ? IOType::output : IOType::input; made[n] = true; break;
      case 4: {  // wrong type
        if (r.kind == 0) break;
        bool thrown = false;
        try { if (r.kind == 1) (void)m.get_tag<double>(names[n]); else (void)m.get_tag<int>(names[n]); } catch (const std::bad_any_cast &) { thrown = true; }
        ks::check(thrown, "reading under a wrong type raises bad_any_cast");
        thrown = false;
        const TagMap &c = m;
        try { if (r.kind == 1) (void)c.get_tag<double>(names[n]); else (void)c.get_tag<int>(names[n]); } catch (const std::bad_any_cast &) { thrown = true; }
        ks::check(thrown, "reading a constant map under a wrong type raises bad_any_cast");
        ks::reach("bad type");
        break;
      }
      case 5: {  // missing name on a constant map
        if (made[n]) break;
        const TagMap &c = m;
        bool thrown = false;
        try { (void)c.get_tag(names[n]); } catch (const std::out_of_range &) { thrown = true; }
        ks::check(thrown, "reading a missing name raises out_of_range");
        thrown = false;
        try { (void)c.get_tag<int>(names[n]); } catch (const std::out_of_range &) { thrown = true; }
        ks::check(thrown, "reading a missing name with a type raises out_of_range");
        break;
      }
      case 6: {  // writing through the typed reference
        if (r.kind != 1) break;
        r.i = ks::sym<int>("int");
        m.get_tag<int>(names[n]) = r.i;
        break;
      }
    }
    verify();
  }
  // a copy is independent
  TagMap copy = m;
  copy["a"] = 5;
  verify();
  ks::check(copy.get_tag<int>("a") == 5, "a copy holds its own values");
  ks::reach("end");
}
