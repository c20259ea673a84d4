"""C12: CPU operators that rearrange data, against their definitions (mllm/core/aops, mllm/backends/cpu/ops)."""
from vf.core import Check
from vf import cc
from vf.cc import CORE

F32, F16, I8, I64, I32, I16 = 0, 1, 16, 132, 18, 17
OPS = ("ConcatOp", "StackOp", "SplitOp", "GatherOp", "PadOp", "RepeatOp", "CloneOp", "CopyOp", "ContiguousOp", "TopKOp", "ArgsortOp", "MaskedScatterOp",
       "Scatter2ShardsOp", "IndexOp", "SliceOp", "EmbeddingOp")


def main():
    c = Check("C12", "for every operator: every shape to the bound x every axis (in and out of range) x every parameter x how each input lies in memory (alone, "
              "every other element, a range of the first or last dimension of a larger tensor) x element type, against the definition; inputs and the memory "
              "around them compared afterwards; calls without a meaning have to be refused",
              ["for the sorting operators every content of a line over a small grid of values, without NaN", "element types an operator does not list are out of scope"])
    prog = cc.build("C12", "C12.cpp", [*CORE, *[f"mllm/core/aops/{o}.cpp" for o in OPS], *[f"mllm/backends/cpu/ops/{o}.cpp" for o in OPS],
                                       "mllm/backends/cpu/kernels/common/ggml/quantize/quantize_q4.cpp", *cc.XXH],
                    flags=["-mavx2", "-mfma", "-mf16c", f"-I{cc.VERIF}/cpp/shim_kern"], wrap=("abort", "exit"))
    e = 4 if c.thorough else 3
    J = []
    for t, dt in (("f32", F32), ("f16", F16)):
        J += [("concat-" + t, dict(kind=0, dt=dt, ext=e if dt == F32 else 2)), ("stack-" + t, dict(kind=1, dt=dt, ext=e if dt == F32 else 2)), ("repeat-copy-" + t, dict(kind=5, dt=dt, ext=e)),
              ("masked-" + t, dict(kind=7, dt=dt, ext=e if dt == F32 or c.thorough else 2)), ("embedding-" + t, dict(kind=10, dt=dt))]
    for t, dt in (("f32", F32), ("i8", I8), ("i64", I64)):
        J += [("split-" + t, dict(kind=2, dt=dt, ext=e if dt == F32 else 2)), ("shards-" + t, dict(kind=8, dt=dt, ext=e))]
        for r in (1, 2, 3):
            J.append((f"index-{r}-{t}", dict(kind=9, dt=dt, rank=r, ext=(4, 3, 2 if c.thorough and dt == F32 else 1)[r - 1])))
    for t, dt in (("f32", F32), ("f16", F16), ("i32", I32)):
        for r in (1, 2, 3):
            J.append((f"gather-{r}-{t}", dict(kind=3, dt=dt, rank=r, ext=(4, 3, 2)[r - 1] + (c.thorough and dt == F32))))
    for m in range(4):
        for r in (1, 2, 3):
            J.append((f"pad-{m}-{r}", dict(kind=4, mode=m, rank=r, ext=(6, 3, 2)[r - 1] + (c.thorough and r < 3), most=9 if r == 1 else 4)))
    for t, dt in (("f32", F32), ("f16", F16), ("i32", I32), ("i16", I16), ("i8", I8)):
        n = 4 if dt in (F32, F16) and c.thorough else 1
        for p in range(n):
            J.append((f"sorts-{t}-{p}", dict(kind=6, dt=dt, ext=e, part=p, parts=n)))
    c.run([(n, cc.run_job, dict(prog=prog, job=n, **k)) for n, k in J])
    c.finish()

main()
