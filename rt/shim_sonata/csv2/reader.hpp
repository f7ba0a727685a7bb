// A model of the part of csv2 that the code uses: tables of cells without delimiters and quotes in them.
#pragma once
#include <string>
#include <vector>
#include "../model_fs.h"
namespace csv2 {
template <char C> struct delimiter { constexpr static char value = C; };
template <char C> struct quote_character { constexpr static char value = C; };
template <bool B> struct first_row_is_header { constexpr static bool value = B; };
namespace trim_policy { template <char... C> struct trim_characters {}; struct no_trimming {}; using trim_whitespace = trim_characters<' ', '\t'>; }
template <class D = delimiter<','>, class Q = quote_character<'"'>, class H = first_row_is_header<true>, class T = trim_policy::trim_whitespace>
class Reader {
public:
  struct Cell {
    std::string s;
    template <class C> void read_value(C &r) const { r += s; }
    template <class C> void read_raw_value(C &r) const { r += s; }
  };
  using Row = std::vector<Cell>;
  bool mmap(const std::string &name) {
    auto i = model_fs::files().find(name);
    return i != model_fs::files().end() && parse(i->second.text);
  }
  bool parse(const std::string &text) {
    rows_.clear();
    std::string line;
    for (size_t i = 0; i <= text.size(); i++) {
      if (i < text.size() && text[i] != '\n') { line += text[i]; continue; }
      if (i < text.size() || !line.empty()) {
        Row r;
        size_t from = 0;
        for (size_t j = 0; j <= line.size(); j++)
          if (j == line.size() || line[j] == D::value) { r.push_back({line.substr(from, j - from)}); from = j + 1; }
        rows_.push_back(r);
      }
      line.clear();
    }
    return true;
  }
  Row header() const { return rows_.empty() ? Row() : rows_[0]; }
  auto begin() const { return rows_.begin() + (H::value && !rows_.empty()); }
  auto end() const { return rows_.end(); }
  size_t rows() const { return rows_.size() - (H::value && !rows_.empty()); }
  size_t cols() const { return header().size(); }
private:
  std::vector<Row> rows_;
};
}  // namespace csv2
