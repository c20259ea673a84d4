// Stand-in for the kernel collection (the original needs Highway, which is not installed): the architecture predicates
// and the kernels that move data.
#pragma once
#include "mllm/utils/CPUArchHelper.hpp"
#include "mllm/backends/cpu/kernels/common/permute-inl.hpp"
#include "mllm/backends/cpu/kernels/x86/transpose.hpp"
