"""C16: image and audio preprocessing (mllm/preprocessor/visual, mllm/preprocessor/audio), against their definitions."""

from vf.core import Check
from vf import cc
from vf.cc import CORE

OPS = ("PermuteOp", "CloneOp", "ContiguousOp")

def main():
    c = Check("C16", "every image size to the bound x every crop box (also outside the image), centre crop, padding target, resize target and pipeline of transforms; every "
              "file format, number of channels and place where a file can be cut; every sound of few samples as unit impulses x channels x chunk layouts x pairs of "
              "sampling rates against the windowed-sinc definition in double precision; lengths around the clip length against features recomputed in double "
              "precision; every sequence of files to the depth bound",
              ["the interpolation inside a resized image is checked for size, constants, symmetry and identity, not against one filter", "16-bit samples",
               "the division of a tensor by one number is a stand-in (its vector kernels need a library that is not installed)"])
    prog = cc.build("C16", "C16.cpp", [*CORE, *[f"mllm/core/aops/{o}.cpp" for o in OPS], *[f"mllm/backends/cpu/ops/{o}.cpp" for o in OPS],
                                       "mllm/preprocessor/visual/Image.cpp", "mllm/preprocessor/visual/ImageTransform.cpp", "mllm/preprocessor/audio/Audio.cpp",
                                       "mllm/backends/cpu/kernels/x86/transpose.cpp", "third_party/wenet_audio/fft.cc", "third_party/wenet_audio/feature_pipeline.cc", *cc.XXH],
                    flags=["-mavx2", "-mfma", "-mf16c", f"-I{cc.VERIF}/cpp/shim_kern"], wrap=("abort", "exit"))
    t = c.thorough
    J = [("crop", dict(kind=0, mx=7 if t else 5)), ("pad", dict(kind=1, mx=12 if t else 8)), ("resize", dict(kind=2, mx=11 if t else 7)), ("tensor", dict(kind=3, mx=5 if t else 4)),
         ("files", dict(kind=4, mx=6 if t else 4)), ("read", dict(kind=5)), ("many", dict(kind=8))]
    for a, b in ((8000, 16000), (16000, 8000), (24000, 16000), (48000, 16000), (16000, 24000), (44100, 16000), (22050, 16000), (11025, 8000)):
        J.append((f"rate-{a}-{b}", dict(kind=6, **{"from": a, "to": b}, mx=(60 if t else 30) if a % 1000 == 0 else 14 if t else 5)))
    J += [(f"process-{p}", dict(kind=7, part=p, deep=int(t))) for p in range(4)]

    c.run([(n, cc.run_job, dict(prog=prog, job=n, **k)) for n, k in J])
    c.finish()

main()
