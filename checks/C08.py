"""C08: special-token splitting and text encodings (mllm/preprocessor/tokenizers)."""
from vf.core import Check
from vf import cc

def main():
    c = Check("C08", "every set of special tokens to a size over all words of a small alphabet, times every text to a length, both tries; every code point and every string of "
              "code points at the encoding boundaries; every byte string to a length over one byte of each class; the byte map",
              ["letters only matter by identity", "the UTF-8 trie gets valid UTF-8"])
    prog = cc.build("C08", "C08.cpp", [*(f"mllm/preprocessor/tokenizers/{f}.cpp" for f in ("AutoTokenizer", "Unicode")), *cc.XXH])
    d = 1 if c.thorough else 0
    J = [("split-pairs", 4, dict(alpha=2, toklen=4, sets=2, textlen=5 + d)), ("split-triples", 4, dict(alpha=2, toklen=3, sets=3, textlen=5 + d)), ("split-many", 4, dict(alpha=2, toklen=2, sets=6, textlen=6 + d)),
         ("split-long", 4, dict(alpha=2, toklen=4, sets=2, other=0, textlen=8 + d)), ("split-abc", 4, dict(alpha=3, toklen=3, sets=2, other=0, textlen=5)), ("split-multi", 2, dict(alpha=4, multi=1, toklen=2, sets=2, other=0, textlen=4 + d, update=1)),
         ("codepoints", 1, {}), ("mixed", 1, dict(len=4)), ("truncated", 1, dict(len=4 + d)), ("bytemap", 1, {})]
    c.run([(f"{n}/{i}" if N > 1 else n, cc.run_job, dict(prog=prog, job=n, part=i, parts=N, **k)) for n, N, k in J for i in range(N)])
    c.finish()

main()
