// Stand-in for the TensorFlow wrapper header that this sandbox lacks.  It is only used so that clang can
// parse /repo/src/*.cpp files that include SemanticRolesPrediction.h; nothing of it is verified or run.
#pragma once
#include <cstdint>
#include <string>
#include <tuple>
#include <vector>
namespace cppflow {
struct tensor {
  tensor() {}
  template <typename T> tensor(const std::vector<T>&, const std::vector<int64_t>&) {}
  tensor shape() const { return tensor(); }
  template <typename T> std::vector<T> get_data() const { return std::vector<T>(); }
};
struct model {
  explicit model(const std::string&) {}
  std::vector<tensor> operator()(std::vector<std::tuple<std::string, tensor>>, std::vector<std::string>) { return std::vector<tensor>(1); }
};
}  // namespace cppflow
