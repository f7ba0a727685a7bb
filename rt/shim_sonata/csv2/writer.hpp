// A model of csv2::Writer: see reader.hpp.
#pragma once
#include <functional>
#include "reader.hpp"
namespace csv2 {
template <class D = delimiter<','>, class S = void>
class Writer {
public:
  template <class O> explicit Writer(O &o) : put_([&o](const std::string &s) { o << s; }) {}
  template <class C> void write_row(const C &row) {
    std::string r;
    bool first = true;
    for (auto &c : row) { if (!first) r += D::value; first = false; r += c; }
    put_(r + "\n");
  }
  template <class C> void write_rows(const C &rows) { for (auto &r : rows) write_row(r); }
private:
  std::function<void(const std::string &)> put_;
};
}  // namespace csv2
