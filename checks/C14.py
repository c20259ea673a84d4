"""C14: the on-device tokenizers (mllm/models/*/tokenization_*.hpp)."""
from vf.core import Check, VERIF
from vf import cc
from vf.cc import CORE

TK = ["qwen3", "qwen3_moe", "qwen_ascend", "qwen_npu", "qwen2vl", "minicpmo", "smollm3", "deepseek_ocr", "minicpm4", "tiny_llama"]

def main():
    c = Check("C14", "every text to a length over letters, digits, every kind of white space, quotes, punctuation, multi-byte letters and special tokens; each tokenizer against its split "
              "pattern run by a backtracking matcher, its vocabulary and its decoder",
              ["letters and digits are those the C library and Unicode agree on", "texts are valid UTF-8", "the vocabulary has every character"])
    T = "mllm/preprocessor/tokenizers"
    prog = cc.build("C14", "C14.cpp", [*CORE, *(f"{T}/{f}.cpp" for f in ("AutoTokenizer", "BPE", "BPEUTF8", "Unicode", "llama_cpp_unicode/unicode", "llama_cpp_unicode/unicode-data")), *cc.XXH],
                    flags=["-mavx2", f"-I{VERIF}/cpp/shim_tok"])
    d = 1 if c.thorough else 0
    J = []
    for t in TK:
        slow = t in ("smollm3", "deepseek_ocr")
        J += [(f"{t}/all", 4 if c.thorough else 1, dict(len=3 + d)), (f"{t}/few", 4 if c.thorough else 1, dict(few=1, len=5 + d - slow, merges=2)), (f"{t}/contractions", 1, dict(contr=1, len=4 - slow + d)), (f"{t}/wide", 1, dict(wide=1, len=4 + d - slow)), (f"{t}/bytes", 1, dict(merges=0, len=3)),
              (f"{t}/chat", 1, dict(chat=1, len=2))]
    c.run([(f"{n}/{i}" if N > 1 else n, cc.run_job, dict(prog=prog, job=n, part=i, parts=N, **k)) for n, N, k in J for i in range(N)])
    c.finish()

main()
