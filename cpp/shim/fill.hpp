// The Fill operator for harnesses whose code under test calls Tensor::zeros/ones (the CPU one needs SIMD headers).
#pragma once
#include "mllm/core/aops/FillOp.hpp"
#include "mllm/engine/Context.hpp"
namespace vf {
class ZeroFill final : public mllm::aops::FillOp {
 public:
  explicit ZeroFill(const mllm::aops::FillOpOptions& o) : FillOp(o) {}
  void forward(const std::vector<mllm::Tensor>&, std::vector<mllm::Tensor>& out) override {
    if (options_.type != mllm::aops::FillOpTypes::kZeros) std::abort();
    memset(out[0].ptr<char>(), 0, out[0].bytes());
  }
};
class ZeroFillFactory : public mllm::TypedOpFactory<mllm::OpTypes::kFill, mllm::aops::FillOpOptions> {
 public:
  std::shared_ptr<mllm::BaseOp> createOpImpl(const mllm::aops::FillOpOptions& o) override { return std::make_shared<ZeroFill>(o); }
};
}  // namespace vf
