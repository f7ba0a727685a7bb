// C28: datasets of images: loading, splitting, frame and label generators, the incrementing converter.
// params: 0 mode (0 load, 1 split, 2 generators, 3 converter), 1 images, 2 image size, 3 steps per image
#include "knpsym.h"
#include <knp/framework/data_processing/classification/image.h>
#include <sstream>
using DS = knp::framework::data_processing::classification::images::Dataset;
using Frame = DS::Frame;
struct Loaded {
  DS set;
  std::vector<std::vector<uint8_t>> images;
  std::vector<unsigned> labels;
  std::vector<std::vector<uint8_t>> frames;  // what the converter gave, 0 or 1 each
};
static Frame frame(const std::vector<uint8_t> &bits) {
  Frame f;
  f.spikes_.resize(bits.size());
  for (size_t i = 0; i < bits.size(); i++) f.spikes_[i] = bits[i];
  return f;
}
static void load() {
  const unsigned most = knpsym_param(1), size = knpsym_param(2), steps = knpsym_param(3);
  const unsigned bytes = ks::choose(most * size + 1, "bytes"), lines = ks::choose(most + 1, "labels"), limit = ks::choose(most + 2, "limit");
  const bool newline = ks::choose(2, "newline");
  std::string image_text, label_text;
  std::vector<uint8_t> data, digits;
  for (unsigned i = 0; i < bytes; i++) { data.push_back(ks::sym<uint8_t>("byte")); image_text.push_back(char(data.back())); }
  for (unsigned i = 0; i < lines; i++) {
    digits.push_back(uint8_t(ks::range(0, 9, "label")));
    if (i) label_text.push_back('\n');
    label_text.push_back(char('0' + digits.back()));
  }
  if (lines && newline) label_text.push_back('\n');
  std::istringstream images(image_text), labels(label_text);
  DS set;
  std::vector<std::vector<uint8_t>> seen;
  set.process_labels_and_images(images, labels, limit, 10, size, steps, [&](const std::vector<uint8_t> &image) {
    seen.push_back(image);
    Frame f;
    f.spikes_.assign(size * steps, false);
    if (seen.size() & 1) f.spikes_[0] = true;
    return f;
  });
  size_t n = bytes / size;
  if (lines < n) n = lines;
  if (limit < n) n = limit;
  ks::check(set.get_image_size() == size && set.get_amount_of_classes() == 10 && set.get_steps_per_frame() == steps, "a dataset keeps its characteristics");
  bool whole = true;
  try { set.split(n, 0); } catch (const std::runtime_error &) { whole = false; }
  ks::check(whole, "every image with a label is a record");
  bool more = true;
  try { set.split(n + 1, 0); } catch (const std::runtime_error &) { more = false; }
  ks::check(!more, "nothing but images with labels, up to the limit, are records");
  if (!whole || more) return;
  const auto [b, e] = set.get_data_for_training();
  ks::check(size_t(e - b) == n, "the training part has the requested size");
  for (size_t i = 0; i < n; i++) {
    ks::check(b[i].first == digits[i], "a record has the label of its image");
    ks::check(seen.size() > i && seen[i].size() == size && b[i].second.spikes_.size() == size * steps && b[i].second.spikes_[0] == !(i & 1), "a record has the frame of its image");
    if (seen.size() <= i || seen[i].size() != size) return;
    for (unsigned j = 0; j < size; j++) ks::check(seen[i][j] == data[i * size + j], "the converter gets the bytes of the image");
    ks::reach("record");
  }
  ks::reach("end");
}
static Loaded loaded(unsigned n, unsigned size, unsigned steps) {
  Loaded l;
  std::string images(n * size, 'x'), labels;
  for (unsigned i = 0; i < n; i++) {
    labels += char('0' + i);
    labels += '\n';
    l.labels.push_back(i);
    std::vector<uint8_t> f;
    for (unsigned k = 0; k < size * steps; k++) f.push_back(uint8_t(ks::range(0, 1, "spike")));
    l.frames.push_back(f);
  }
  std::istringstream is(images), ls(labels);
  unsigned at = 0;
  l.set.process_labels_and_images(is, ls, n, n ? n : 1, size, steps, [&](const std::vector<uint8_t> &) { return frame(l.frames[at++]); });
  return l;
}
static void split() {
  const unsigned n = knpsym_param(1);
  Loaded l = loaded(n, 1, 1);
  for (int turn = 0; turn < 2; turn++) {
    const size_t a = ks::sym<size_t>("training"), b = ks::sym<size_t>("inference");
    const bool fits = a <= n && b <= n - a;
    bool ok = true;
    try { l.set.split(a, b); } catch (const std::runtime_error &) { ok = false; }
    ks::check(ok == fits, "a split is refused exactly when the dataset is too small");
    if (!ok) { ks::reach("refused"); continue; }
    if (!fits) return;
    const auto t = l.set.get_data_for_training();
    const auto i = l.set.get_data_for_inference();
    ks::check(size_t(t.second - t.first) == a && size_t(i.second - i.first) == b, "the parts have the requested sizes");
    ks::check(t.second == i.first, "inference records follow the training records");
    size_t k = 0;
    for (auto r = t.first; r != t.second; ++r, k++) ks::check(r->first == k, "training gets the first records in order");
    for (auto r = i.first; r != i.second; ++r, k++) ks::check(r->first == k, "inference gets the next records in order");
    ks::check(l.set.get_steps_amount_for_training() == a && l.set.get_steps_amount_for_inference() == b, "the steps cover the frames");
    ks::reach("split");
  }
  ks::reach("end");
}
static void generators() {
  const unsigned most = knpsym_param(1), size = knpsym_param(2), steps = knpsym_param(3);
  Loaded l = loaded(most, size, steps);
  const unsigned a = ks::choose(most + 1, "training"), b = ks::choose(most - a + 1, "inference");
  l.set.split(a, b);
  ks::check(l.set.get_steps_amount_for_training() == a * steps && l.set.get_steps_amount_for_inference() == b * steps, "the steps of a part cover its frames");
  const auto images = l.set.make_training_images_spikes_generator(), labels = l.set.make_training_labels_generator(), inference = l.set.make_inference_images_spikes_generator();
  // any step of the first three rounds; generators do not depend on what they were asked before
  auto same = [&](const knp::core::messaging::SpikeData &d, unsigned record, unsigned local, const char *what) {
    std::vector<uint32_t> want;
    for (unsigned k = 0; k < size; k++)
      if (l.frames[record][local * size + k]) want.push_back(k);
    bool equal = d.size() == want.size();
    for (size_t k = 0; equal && k < want.size(); k++) equal = d[k] == want[k];
    ks::check(equal, what);
  };
  for (int turn = 0; turn < 2; turn++) {
    const unsigned which = ks::choose(3, "generator"), n = which == 2 ? b : a;
    if (!n) continue;
    const unsigned local = ks::choose(n * steps, "step");
    const uint64_t round = ks::choose(3, "round"), s = local + (round == 2 ? uint64_t(n * steps) << 33 : round * n * steps);
    if (which == 0) {
      same(images(s), local / steps, local % steps, "the training images are replayed frame by frame, in a loop");
      ks::reach("training");
    } else if (which == 1) {
      const auto d = labels(s);
      ks::check(d.size() == 1 && d[0] == local / steps, "the label of a step is that of its frame");
    } else {
      same(inference(s), a + local / steps, local % steps, "the inference images are replayed frame by frame, in a loop");
      ks::reach("inference");
    }
  }
  ks::reach("end");
}
static void converter() {
  const unsigned size = knpsym_param(2), steps = knpsym_param(3);
  DS set;
  std::istringstream none(""), none2("");
  set.process_labels_and_images(none, none2, 1, 2, size, steps, [&](const std::vector<uint8_t> &) { return Frame{}; });
  const unsigned active = ks::choose(steps + 1, "active");
  const float factor = 1.F / float(1 << ks::choose(10, "factor"));
  const auto c = set.make_incrementing_image_to_spikes_converter(active, factor);
  std::vector<uint8_t> image;
  for (unsigned k = 0; k < size; k++) image.push_back(ks::sym<uint8_t>("pixel"));
  const auto f = c(image);
  ks::check(f.spikes_.size() == size * steps, "a frame has a bit per pixel and step");
  if (f.spikes_.size() != size * steps) return;
  for (unsigned k = 0; k < size; k++) {
    float state = 0;
    for (unsigned s = 0; s < steps; s++) {
      bool want = false;
      if (s < active) {
        state += factor * float(image[k]);
        want = state >= 1.F;
        if (want) state -= 1.F;
      }
      ks::check(f.spikes_[s * size + k] == want, s < active ? "a pixel spikes when its state reaches 1" : "no spikes after the active steps");
    }
  }
  ks::reach("end");
}
extern "C" void knp_harness() {
  ks::expect("end");
  switch (knpsym_param(0)) {
    case 0: ks::expect("record"); return load();
    case 1: ks::expect("refused"); ks::expect("split"); return split();
    case 2: ks::expect("training"); ks::expect("inference"); return generators();
    default: return converter();
  }
}
