"""C09: byte-pair merging (mllm/preprocessor/tokenizers/BPE, BPEUTF8)."""
from vf.core import Check
from vf import cc

def main():
    c = Check("C09", "every ordered merge table to a size over all pairs of words of a small alphabet, times every word to a length, both tokenizers; the vocabulary both ways; "
              "every truncation of a vocabulary file",
              ["letters only matter by identity", "a merge appears once in a table"])
    prog = cc.build("C09", "C09.cpp", [*(f"mllm/preprocessor/tokenizers/{f}.cpp" for f in ("BPE", "BPEUTF8", "Unicode")), *cc.XXH])
    d = 1 if c.thorough else 0
    J = [("two", 2, dict(half=3, merged=4, merges=2, len=6 + d)), ("three", 8, dict(half=2, merged=3, merges=3, len=5 + d)), ("short", 8, dict(half=1, merged=2, merges=4, len=7 + 2 * d)),
         ("ternary", 6, dict(alpha=3, half=2, merged=3, merges=2, len=4 + d)), ("ternary-short", 6, dict(alpha=3, half=1, merged=2, merges=4, len=4 + d)),
         ("wide", 3, dict(letters=1, half=2, merged=3, merges=2, len=6)), ("mixed", 3, dict(alpha=3, letters=2, half=1, merged=2, merges=3, len=5)), ("files", 1, {})]
    if c.thorough:
        J.append(("four", 32, dict(half=2, merged=3, merges=4, len=5)))
    c.run([(f"{n}/{i}" if N > 1 else n, cc.run_job, dict(prog=prog, job=n, part=i, parts=N, **k)) for n, N, k in J for i in range(N)])
    c.finish()

main()
