// A model of the part of HighFive that the code uses: a tree of groups, data sets and attributes. Values keep their type; reading converts
// them as HDF5 does (an integer that does not fit is clipped). Objects of a group are listed in the order of their names.
#pragma once
#include <cstring>
#include <limits>
#include <stdexcept>
#include <type_traits>
#include "../model_fs.h"
namespace HighFive {
class Exception : public std::exception {
public:
  explicit Exception(const std::string &s) : s_(s) {}
  const char *what() const noexcept override { return s_.c_str(); }
private:
  std::string s_;
};
class FileException : public Exception { using Exception::Exception; };
class GroupException : public Exception { using Exception::Exception; };
class DataSetException : public Exception { using Exception::Exception; };
class AttributeException : public Exception { using Exception::Exception; };
}  // namespace HighFive
namespace model_fs {
struct Values {
  enum Kind { i8, u8, i16, u16, i32, u32, i64, u64, f32, f64, boolean, text } kind = i8;
  std::vector<unsigned char> bytes;
  std::string string;
  size_t count = 0;
  template <class T> static constexpr Kind kind_of() {
    if (std::is_same_v<T, bool>) return boolean;
    if (std::is_floating_point_v<T>) return sizeof(T) == 4 ? f32 : f64;
    constexpr int s = sizeof(T) == 1 ? 0 : sizeof(T) == 2 ? 2 : sizeof(T) == 4 ? 4 : 6;
    return Kind(s + (std::is_unsigned_v<T> ? 1 : 0));
  }
  template <class T> void add(const T &v) {
    static_assert(std::is_arithmetic_v<T>);
    kind = kind_of<T>();
    bytes.resize((count + 1) * sizeof(T));
    std::memcpy(bytes.data() + count * sizeof(T), &v, sizeof(T));
    count++;
  }
  template <class S, class T> T as(size_t i) const {
    S v;
    std::memcpy(&v, bytes.data() + i * sizeof(S), sizeof(S));
    if constexpr (std::is_same_v<S, T>) return v;
    else if constexpr (std::is_integral_v<S> && std::is_integral_v<T> && !std::is_same_v<T, bool>) {
      if constexpr (std::is_signed_v<S>) {
        if (v < 0) {
          if constexpr (!std::is_signed_v<T>) return 0;
          else if ((long long)v < (long long)std::numeric_limits<T>::min()) return std::numeric_limits<T>::min();
          return T(v);
        }
      }
      if ((unsigned long long)v > (unsigned long long)std::numeric_limits<T>::max()) return std::numeric_limits<T>::max();
      return T(v);
    } else return T(v);
  }
  template <class T> T get(size_t i) const {
    switch (kind) {
      case i8: return as<signed char, T>(i);
      case u8: return as<unsigned char, T>(i);
      case i16: return as<short, T>(i);
      case u16: return as<unsigned short, T>(i);
      case i32: return as<int, T>(i);
      case u32: return as<unsigned, T>(i);
      case i64: return as<long, T>(i);
      case u64: return as<unsigned long, T>(i);
      case f32: return as<float, T>(i);
      case f64: return as<double, T>(i);
      case boolean: return as<bool, T>(i);
      default: throw HighFive::DataSetException("not a number");
    }
  }
};
struct Tree {
  std::map<std::string, std::shared_ptr<Tree>> groups;
  std::map<std::string, std::shared_ptr<Tree>> sets;  // a data set: a tree with values
  std::map<std::string, Values> attributes;
  Values values;
};
}  // namespace model_fs
namespace HighFive {
using model_fs::Tree;
using model_fs::Values;
class Attribute {
public:
  explicit Attribute(Values v) : v_(std::move(v)) {}
  template <class T> T read() const { T r; read(r); return r; }
  template <class T> void read(T &r) const {
    if constexpr (std::is_same_v<T, std::string>) {
      if (v_.kind != Values::text) throw AttributeException("not a text");
      r = v_.string;
    } else r = v_.get<T>(0);
  }
private:
  Values v_;
};
class Object {
public:
  explicit Object(std::shared_ptr<Tree> t) : t_(std::move(t)) {}
  bool hasAttribute(const std::string &n) const { return t_->attributes.count(n) != 0; }
  Attribute getAttribute(const std::string &n) const {
    auto i = t_->attributes.find(n);
    if (i == t_->attributes.end()) throw AttributeException("no attribute " + n);
    return Attribute(i->second);
  }
  template <class T> Attribute createAttribute(const std::string &n, const T &v) {
    if (hasAttribute(n)) throw AttributeException("attribute exists " + n);
    Values a;
    if constexpr (std::is_convertible_v<T, std::string>) { a.kind = Values::text; a.string = v; a.count = 1; }
    else a.add(v);
    t_->attributes[n] = a;
    return Attribute(a);
  }
  size_t getNumberAttributes() const { return t_->attributes.size(); }
protected:
  std::shared_ptr<Tree> t_;
};
class DataSet : public Object {
public:
  using Object::Object;
  std::vector<size_t> getDimensions() const { return {t_->values.count}; }
  size_t getElementCount() const { return t_->values.count; }
  template <class T> T read() const { T r; read(r); return r; }
  template <class T> void read(std::vector<T> &r) const {
    r.resize(t_->values.count);
    for (size_t i = 0; i < r.size(); i++) r[i] = t_->values.template get<T>(i);
  }
};
class Group : public Object {
public:
  using Object::Object;
  bool exist(const std::string &path) const { auto n = split(path); auto *p = parent(n.first); return p && (p->groups.count(n.second) || p->sets.count(n.second)); }
  Group getGroup(const std::string &path) const {
    auto n = split(path);
    auto *p = parent(n.first);
    if (!p || !p->groups.count(n.second)) throw GroupException("no group " + path);
    return Group(p->groups.at(n.second));
  }
  Group createGroup(const std::string &path, bool parents = true) {
    if (exist(path)) throw GroupException("group exists " + path);
    std::shared_ptr<Tree> at = t_;
    std::string rest = path;
    for (;;) {
      auto s = rest.find('/');
      auto &next = at->groups[rest.substr(0, s)];
      if (!next) next = std::make_shared<Tree>();
      at = next;
      if (s == std::string::npos) return Group(at);
      rest = rest.substr(s + 1);
    }
  }
  template <class T> DataSet createDataSet(const std::string &path, const std::vector<T> &v) {
    auto n = split(path);
    auto *p = parent(n.first);
    if (!p || p->groups.count(n.second) || p->sets.count(n.second)) throw DataSetException("cannot create " + path);
    auto d = std::make_shared<Tree>();
    d->values.kind = Values::kind_of<T>();
    for (size_t i = 0; i < v.size(); i++) d->values.add(T(v[i]));
    p->sets[n.second] = d;
    return DataSet(d);
  }
  DataSet getDataSet(const std::string &path) const {
    auto n = split(path);
    auto *p = parent(n.first);
    if (!p || !p->sets.count(n.second)) throw DataSetException("no data set " + path);
    return DataSet(p->sets.at(n.second));
  }
  size_t getNumberObjects() const { return t_->groups.size() + t_->sets.size(); }
  std::vector<std::string> listObjectNames() const {
    std::map<std::string, int> names;
    for (auto &g : t_->groups) names[g.first];
    for (auto &s : t_->sets) names[s.first];
    std::vector<std::string> r;
    for (auto &n : names) r.push_back(n.first);
    return r;
  }
  std::string getObjectName(size_t i) const {
    auto n = listObjectNames();
    if (i >= n.size()) throw GroupException("no such object");
    return n[i];
  }
private:
  static std::pair<std::string, std::string> split(const std::string &p) {
    auto s = p.rfind('/');
    return s == std::string::npos ? std::make_pair(std::string(), p) : std::make_pair(p.substr(0, s), p.substr(s + 1));
  }
  Tree *parent(const std::string &path) const {
    Tree *at = t_.get();
    std::string rest = path;
    while (!rest.empty()) {
      auto s = rest.find('/');
      auto i = at->groups.find(rest.substr(0, s));
      if (i == at->groups.end()) return nullptr;
      at = i->second.get();
      rest = s == std::string::npos ? std::string() : rest.substr(s + 1);
    }
    return at;
  }
};
class File : public Group {
public:
  enum : unsigned { ReadOnly = 0, ReadWrite = 1, Truncate = 2, Excl = 4, Debug = 8, Create = 16, Overwrite = Truncate, OpenOrCreate = ReadWrite | Create };
  explicit File(const std::string &name, unsigned flags = ReadOnly) : Group(open(name, flags)) {}
private:
  static std::shared_ptr<Tree> open(const std::string &name, unsigned flags) {
    auto &m = model_fs::files();
    auto i = m.find(name);
    if (i != m.end() && i->second.dir) throw FileException("a directory " + name);
    if (i == m.end() || !i->second.tree || (flags & Truncate)) {
      auto slash = name.rfind('/');
      const bool place = slash == std::string::npos || (m.count(name.substr(0, slash)) && m[name.substr(0, slash)].dir);
      if ((i == m.end() && !(flags & (Create | Truncate))) || (i != m.end() && !(flags & Truncate)) || !place) throw FileException("cannot open " + name);
      auto &n = m[name];
      n = model_fs::Node();
      n.tree = std::make_shared<Tree>();
      return n.tree;
    }
    return i->second.tree;
  }
};
}  // namespace HighFive
