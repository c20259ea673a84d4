"""C13: CPU operators that mask, rotate, resample, transform and fill, against their definitions."""
from vf.core import Check
from vf import cc
from vf.cc import CORE

F32, F16 = 0, 1
OPS = ("CausalMaskOp", "RoPEOp", "InterpolateOp", "STFTOp")
BASE = ("CloneOp", "CopyOp", "ContiguousOp")


def main():
    c = Check("C13", "for every operator: every shape to the bound x every parameter x how each input lies in memory, on values without structure, against the definition "
              "evaluated in double precision; inputs and the memory around outputs compared afterwards; calls without a meaning have to be refused",
              ["values: one assignment without structure per shape (the operators are linear in their data), within a tolerance of the element type",
               "windows shorter than the transform, normalized inverse transforms and antialiased resampling are out of scope; so are operators not implemented for this CPU"])
    prog = cc.build("C13", "C13.cpp", [*CORE, *[f"mllm/core/aops/{o}.cpp" for o in OPS + BASE + ("ISTFTOp",)], *[f"mllm/backends/cpu/ops/{o}.cpp" for o in OPS + BASE],
                                       "mllm/backends/cpu/kernels/x86/fill.cpp", *cc.XXH],
                    flags=["-mavx2", "-mfma", "-mf16c", f"-I{cc.VERIF}/cpp/shim_kern"], wrap=("abort", "exit"))
    t = c.thorough
    J = [("mask-" + n, dict(kind=0, dt=dt, smax=12 if t else 7, dmax=34 if t else 20)) for n, dt in (("f32", F32), ("f16", F16))]
    J += [("rope", dict(kind=1, ext=3 if t else 2, dmax=9 if t else 7)), ("fill", dict(kind=5, n=130 if t else 40))]
    for m, r in ((0, 3), (0, 4), (0, 5), (1, 3), (2, 4), (3, 4), (4, 5)):
        J.append((f"resample-{m}-{r}", dict(kind=2, mode=m, rank=r, ext={3: 9, 4: 4, 5: 2}[r] + (t and r < 5), big=3)))
    for lo, hi in ((1, 4), (5, 6), (7, 8), (9, 10), (12, 12), (16, 16)):
        J.append((f"stft-{lo}", dict(kind=3, lo=lo, hi=hi, len=(24 if t else 11) + (lo > 9) * 8)))
        J.append((f"istft-{lo}", dict(kind=4, lo=lo, hi=hi, frames=5 if t else 3)))
    c.run([(n, cc.run_job, dict(prog=prog, job=n, **k)) for n, k in J])
    c.finish()

main()
