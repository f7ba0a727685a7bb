// A model of a file system for the code that saves and loads networks: a map from path to content, in memory.
#pragma once
#include <map>
#include <memory>
#include <string>
#include <vector>
namespace model_fs {
struct Tree;  // what a HDF5 file holds
struct Node { bool dir = false; std::string text; std::shared_ptr<Tree> tree; };
inline std::map<std::string, Node> &files() {
  static auto *m = new std::map<std::string, Node>{{".", {true, "", nullptr}}};
  return *m;
}
}  // namespace model_fs
