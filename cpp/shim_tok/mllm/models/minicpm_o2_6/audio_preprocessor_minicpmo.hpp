// Stand-in for the sound half of the MiniCPM-o tokenizer: never called by text.
#pragma once
#include <string>
#include <utility>
#include <vector>
#include "mllm/core/Tensor.hpp"
namespace mllm::models::minicpmo {
struct MiniCPMOAudioProcessor {
  template<class... A> explicit MiniCPMOAudioProcessor(A&&...) {}
  template<class... A> Tensor processAudioData(A&&...) { return Tensor(); }
  template<class... A> std::string getAudioPlaceholder(A&&...) { return {}; }
  template<class... A> std::vector<std::pair<int, int>> calcAudioBounds(A&&...) { return {}; }
};
}  // namespace mllm::models::minicpmo
