"""C15: quantised blocks, dot products and matrix products (mllm/backends/cpu/kernels/common: ggml, llamafile)."""
from vf.core import Check
from vf import cc
from vf.cc import CORE

T = {"f32": 0, "f16": 1, "q4_0": 2, "q8_0": 8, "q4_K": 12, "q6_K": 14, "q8_K": 15, "q3_K": 23, "q2_K": 24, "iq2_xxs": 26}


def main():
    c = Check("C15", "for every block format: every value of every byte of a block, decoded, added to a row and multiplied with a row, one element at a time and all of them; "
              "every number of blocks and every length around the vector widths; every tile shape x thread split x row padding x bias of the matrix kernel, each thread's part "
              "recorded on its own; linear layers and batched products over every weight format, against the formats' definitions in double precision",
              ["8-bit codes with one scale are symmetric (no -128)", "scales are finite powers of two", "weights and inputs of the matrix product lie contiguously",
               "sums may round: results within 4e-6 of the sum of magnitudes"])
    K = "mllm/backends/cpu/kernels/common"
    prog = cc.build("C15", "C15.cpp", [*CORE, f"{K}/ggml/matmul.cpp", f"{K}/ggml/vec_dot.cpp", f"{K}/ggml/vec_dot_type.cpp", *[f"{K}/ggml/quantize/quantize_q{i}.cpp" for i in (2, 3, 4, 6, 8)],
                                       f"{K}/llamafile/llamafile_sgemm.cpp", *cc.XXH],
                    flags=["-mavx2", "-mfma", "-mf16c", f"-I{cc.VERIF}/cpp/shim_kern"], wrap=("abort", "exit"))
    t = c.thorough
    J = []
    for n, dt in T.items():
        J += [("decode-" + n, dict(kind=0, dt=dt)), ("dot-" + n, dict(kind=1, dt=dt)), ("encode-" + n, dict(kind=2, dt=dt)), ]
        if n != "q8_K":
            J.append(("linear-" + n, dict(kind=6, dt=dt, thorough=int(t))))
    for a, b in (("f32", "f32"), ("f16", "f32"), ("q8_0", "q8_0"), ("q4_0", "q8_0")):
        J.append((f"tiles-{a}-{b}", dict(kind=4, dt=T[a], bt=T[b], m=14 if t else 9, nn=14 if t else 9, k=3 if t else 2)))
    J += [("bytes", dict(kind=3, n=8)), ("support", dict(kind=5)), ("batched", dict(kind=7))]
    c.run([(n, cc.run_job, dict(prog=prog, job=n, **k)) for n, k in J])
    c.finish()


main()
