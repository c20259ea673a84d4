"""C11: tensor views, slices and their materialisation (mllm/core/TensorViewImpl, SlicePrimitives, the view-producing operators)."""
from vf.core import Check
from vf import cc
from vf.cc import CORE

F32, F16, I8, I64, I32, I16 = 0, 1, 16, 132, 18, 17
OPS = ("SliceOp", "ViewOp", "TransposeOp", "PermuteOp", "ContiguousOp", "CloneOp", "RepeatOp", "CopyOp")


def main():
    c = Check("C11", "every chain of slices, views, squeezes, flattenings, transpositions, permutations, repetitions, copies and writes to the depth bound over "
              "small base tensors, states merged on the geometry of the derived tensor; every element of every tensor of the chain read back; every combination "
              "of slices in one expression; every transposition and permutation of shapes around the vector widths",
              ["element values only matter by identity", "CPU memory with one lane per element"])
    prog = cc.build("C11", "C11.cpp", [*CORE, *[f"mllm/core/aops/{o}.cpp" for o in OPS], *[f"mllm/backends/cpu/ops/{o}.cpp" for o in OPS],
                                       "mllm/backends/cpu/kernels/x86/transpose.cpp", *cc.XXH],
                    flags=["-mavx2", "-mfma", "-mf16c", f"-I{cc.VERIF}/cpp/shim_kern"], wrap=("abort", "exit"))
    d = 1 if c.thorough else 0
    J = []
    for n, k in {"6-f32": dict(shape=6, depth=3), "23-f32": dict(shape=23, depth=3, numel=12), "32-f16": dict(shape=32, dt=F16, depth=2), "42-i8": dict(shape=42, dt=I8, depth=2),
                 "212-f32": dict(shape=212, depth=3, numel=8), "232-i64": dict(shape=232, dt=I64, depth=2), "133-f32": dict(shape=133, depth=2), "1212-f32": dict(shape=1212, depth=2),
                 "9-f32": dict(shape=9, depth=2), "19-i32": dict(shape=19, dt=I32, depth=2)}.items():
        J.append(("chain-" + n, dict(kind=0, **{**k, "depth": k["depth"] + (d if k["depth"] < 3 else 0)})))
    for n, k in {"4": dict(shape=4), "34": dict(shape=34), "243": dict(shape=243, dt=F16), "2222": dict(shape=2222 if c.thorough else 1222, dt=I8)}.items():
        J.append(("slices-" + n, dict(kind=1, **k)))
    for r in range(1, 6):
        for t, dt in (("f32", F32), ("i64", I64), ("f16", F16)):
            J.append((f"turns-{r}-{t}", dict(kind=2, rank=r, dt=dt)))
    c.run([(n, cc.run_job, dict(prog=prog, job=n, **k)) for n, k in J])
    c.finish()

main()
