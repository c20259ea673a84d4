// Stand-in for the picture half of the MiniCPM-o tokenizer: never called by text.
#pragma once
#include <string>
#include <tuple>
#include <utility>
#include <vector>
#include "mllm/core/Tensor.hpp"
#include "mllm/preprocessor/tokenizers/BPE.hpp"
namespace mllm::models::minicpmo {
struct MiniCPMOImageProcessor {
  explicit MiniCPMOImageProcessor(int32_t = 14) {}
  using Sizes = std::vector<std::pair<int, int>>;
  std::tuple<std::vector<Tensor>, Sizes, Sizes, std::vector<int>> process(const std::string&) { return {}; }
  template<class... A> std::string get_slice_image_placeholder(A&&...) { return {}; }
  template<class... A> std::pair<std::vector<int>, std::vector<std::pair<int, int>>> calc_bounds(A&&...) { return {}; }
};
}  // namespace mllm::models::minicpmo
