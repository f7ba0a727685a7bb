// C29: evaluation of the inference of a classifier.
// params: 0 mode (0 counts, 1 csv, 2 metrics), 1 frames for inference / bits of counts, 2 steps per frame, 3 classes, 4 messages, 5 spikes per message
#include "knpsym.h"
#include <knp/core/messaging/messaging.h>
#include <knp/framework/data_processing/classification/image.h>
#include <knp/framework/inference_evaluation/classification/processor.h>
#include <knp/framework/inference_evaluation/perfomance_metrics.h>
#include <sstream>
namespace ev = knp::framework::inference_evaluation;
using knp::core::UID;
using knp::core::messaging::SpikeMessage;
using DS = knp::framework::data_processing::classification::images::Dataset;
struct Given {
  DS set;
  std::vector<unsigned> labels;  // of the frames of inference
  std::vector<SpikeMessage> spikes;
};
static Given given(unsigned frames, unsigned steps, unsigned classes, unsigned messages, unsigned most, bool concrete) {
  Given g;
  const unsigned training = ks::choose(2, "training");
  std::string images(training + frames, 'x'), labels;
  for (unsigned i = 0; i < training; i++) labels += "0\n";
  for (unsigned i = 0; i < frames; i++) {
    g.labels.push_back(ks::choose(classes, "label"));
    labels += char('0' + g.labels.back());
    labels += '\n';
  }
  std::istringstream is(images), ls(labels);
  g.set.process_labels_and_images(is, ls, training + frames, classes, 1, steps, [&](const std::vector<uint8_t> &) { DS::Frame f; f.spikes_.assign(steps, false); return f; });
  g.set.split(training, frames);
  unsigned at = 0;
  for (unsigned m = ks::choose(messages + 1, "messages"); m--;) {
    at += ks::choose(frames * steps + 1 - at, "at");  // the last ones may come after the end
    SpikeMessage s;
    s.header_.send_time_ = at;
    for (unsigned k = ks::choose(most + 1, "spikes"); k--;) s.neuron_indexes_.push_back(concrete ? ks::choose(classes, "index") : uint32_t(ks::range(0, 2 * classes - 1, "index")));
    g.spikes.push_back(s);
  }
  return g;
}
static void counts() {
  const unsigned frames = knpsym_param(1), steps = knpsym_param(2), classes = knpsym_param(3);
  Given g = given(frames, steps, classes, knpsym_param(4), knpsym_param(5), false);
  ev::classification::InferenceResultsProcessor p;
  if (ks::choose(2, "before")) {  // results are those of the last evaluation
    std::vector<SpikeMessage> other(1);
    other[0].neuron_indexes_ = {0};
    p.process_inference_results(other, g.set);
  }
  p.process_inference_results(g.spikes, g.set);
  const auto &r = p.get_inference_results();
  ks::check(r.size() == classes, "there is a result per class");
  if (r.size() != classes) return;
  // a frame is judged by the spikes of its steps; a frame with two best classes counts as either
  std::vector<unsigned> right(classes), wrong(classes), silent(classes), tied(classes), taken(classes);
  for (unsigned f = 0; f < frames; f++) {
    std::vector<unsigned> votes(classes);
    for (const auto &m : g.spikes)
      if (m.header_.send_time_ / steps == f)
        for (auto i : m.neuron_indexes_) for (unsigned c = 0; c < classes; c++) votes[c] += i % classes == c;
    unsigned best = 0, mine = votes[g.labels[f]], others = 0;
    for (unsigned c = 0; c < classes; c++) {
      if (votes[c] > best) best = votes[c];
      if (c != g.labels[f] && votes[c] > others) others = votes[c];
    }
    const unsigned l = g.labels[f];
    if (best == 0) { silent[l]++; ks::reach("silent"); }
    else if (mine > others) { right[l]++; ks::reach("right"); }
    else if (mine < others) {
      wrong[l]++;
      ks::reach("wrong");
      unsigned first = 0, number = 0;
      for (unsigned c = 0; c < classes; c++) if (votes[c] == best && number++ == 0) first = c;
      taken[first] += number == 1;
    }
    else tied[l]++;
  }
  for (unsigned c = 0; c < classes; c++) {
    if (knpsym_param(6)) {  // as the header says
      ks::check(r[c].false_positives_ >= taken[c], "a frame predicted as a class it does not have is a false positive of that class");
      continue;
    }
    ks::check(r[c].false_negatives_ == silent[c], "frames of the class without votes are false negatives");
    ks::check(r[c].true_positives_ >= right[c] && r[c].true_positives_ <= right[c] + tied[c], "frames of the class with most votes for it are true positives");
    ks::check(r[c].true_positives_ + r[c].false_positives_ == right[c] + wrong[c] + tied[c], "frames of the class with votes are true or false positives");
    ks::check(r[c].true_positives_ + r[c].false_positives_ + r[c].false_negatives_ + r[c].true_negatives_ == frames, "the outcomes of a class add up to the frames");
    ks::check(r[c].get_total_votes() == r[c].true_positives_ + r[c].false_positives_ + r[c].false_negatives_, "the total of a class is the sum of its outcomes");
  }
  ks::reach("end");
}
static void csv() {
  const unsigned frames = knpsym_param(1), steps = knpsym_param(2), classes = knpsym_param(3);
  Given g = given(frames, steps, classes, knpsym_param(4), knpsym_param(5), true);
  ev::classification::InferenceResultsProcessor p;
  p.process_inference_results(g.spikes, g.set);
  std::ostringstream out;
  p.write_inference_results_to_stream_as_csv(out);
  std::vector<std::vector<std::string>> table(1, std::vector<std::string>(1));
  for (char c : out.str()) {
    if (c == '\n') table.emplace_back(1);
    else if (c == ',') table.back().emplace_back();
    else table.back().back() += c;
  }
  ks::check(table.size() == classes + 2 && table.back().size() == 1 && table.back()[0].empty(), "there is a line per class after the header");
  if (table.size() < classes + 1) return;
  auto text = [](auto v) { std::ostringstream o; o << v; return o.str(); };
  auto column = [&](const char *name) {
    for (size_t i = 0; i < table[0].size(); i++) if (table[0][i] == name) return i;
    ks::check(false, "the header names every column");
    return size_t(0);
  };
  for (unsigned c = 0; c < classes; c++) {
    const auto &r = p.get_inference_results()[c];
    const auto &row = table[1 + c];
    ks::check(row.size() == table[0].size(), "a line has a field per column");
    if (row.size() != table[0].size()) return;
    const size_t tp = r.true_positives_, fp = r.false_positives_, fn = r.false_negatives_, tn = r.true_negatives_;
    auto ratio = [](size_t a, size_t b) { return b ? float(a) / float(b) : 0.F; };
    ks::check(row[column("CLASS")] == text(c) && row[column("TOTAL_VOTES")] == text(tp + fp + fn) && row[column("TRUE_POSITIVES")] == text(tp) && row[column("FALSE_NEGATIVES")] == text(fn) &&
                  row[column("FALSE_POSITIVES")] == text(fp) && row[column("TRUE_NEGATIVES")] == text(tn), "a line has the counts of its class");
    const float precision = ratio(tp, tp + fp), recall = ratio(tp, tp + fn);
    ks::check(row[column("PRECISION")] == text(precision), "precision is TP / (TP + FP)");
    if (knpsym_param(6)) ks::check(row[column("RECALL")] == text(recall), "recall is TP / (TP + FN)");
    ks::check(row[column("PREVALENCE")] == text(ratio(tp + fn, frames)), "prevalence is (TP + FN) / all");
    ks::check(row[column("ACCURACY")] == text(ratio(tp + tn, frames)), "accuracy is (TP + TN) / all");
    if (fp == fn) ks::check(row[column("F_SCORE")] == text(ev::get_f_score(precision, recall)), "F-score is the harmonic mean of precision and recall");
    if (fp && fn == 0) ks::reach("wrong");
  }
  ks::reach("end");
}
static void metrics() {
  const size_t most = (size_t(1) << knpsym_param(1)) - 1;
  const bool small = knpsym_param(1) <= 3;
  const size_t tp = ks::range(0, most, "tp"), fn = ks::range(0, most, "fn"), fp = ks::range(0, most, "fp"), tn = ks::range(0, most, "tn");
  auto verify = [small](float got, size_t a, size_t b, const char *what, const char *in) {
    if (small) ks::check((got >= 0.F) & (got <= 1.F), in);
    if (b == 0) { ks::check(got == 0.F, what); ks::reach("empty"); return; }
    const float want = float(a) / float(b);
    ks::check(ks::same(got, want) | ((got >= want - 1e-6F) & (got <= want + 1e-6F)), what);
  };
  switch (ks::choose(5, "metric")) {
    case 0: verify(ev::get_precision(tp, fp), tp, tp + fp, "precision is TP / (TP + FP)", "precision is within 0 and 1"); break;
    case 1: verify(ev::get_recall(tp, fn), tp, tp + fn, "recall is TP / (TP + FN)", "recall is within 0 and 1"); break;
    case 2: verify(ev::get_prevalence(tp, fn, fp, tn), tp + fn, tp + fn + fp + tn, "prevalence is (TP + FN) / all", "prevalence is within 0 and 1"); break;
    case 3: verify(ev::get_accuracy(tp, fn, fp, tn), tp + tn, tp + fn + fp + tn, "accuracy is (TP + TN) / all", "accuracy is within 0 and 1"); break;
    case 4: {
      const float p = float(ks::choose(9, "precision")) / 8.F, r = float(ks::range(0, 64, "recall")) / 64.F;
      const float f = ev::get_f_score(p, r);
      ks::check((f >= 0.F) & (f <= 1.F), "F-score is within 0 and 1");
      if (p * r == 0.F) ks::check(f == 0.F, "F-score is 0 without precision or recall");
      else {
        const float want = 2.F * p * r / (p + r);
        ks::check((f >= want - 1e-6F) & (f <= want + 1e-6F), "F-score is the harmonic mean of precision and recall");
      }
    }
  }
  ks::reach("end");
}
extern "C" void knp_harness() {
  ks::expect("end");
  switch (knpsym_param(0)) {
    case 0: ks::expect("silent"); ks::expect("right"); ks::expect("wrong"); return counts();
    case 1: ks::expect("wrong"); return csv();
    default: ks::expect("empty"); return metrics();
  }
}
