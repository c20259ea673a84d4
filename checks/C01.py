"""C01: on-device prefix tree (mllm/engine/prefix_cache/RadixTree)."""
from vf.core import Check
from vf import cc

def main():
    c = Check("C01", "every sequence of insertions and clears to the depth bound over all words of the alphabet x namespaces; "
              "after every step every word (one token longer than the stored ones) is looked up and compared with a prefix map",
              ["addresses and token values only matter by identity"])
    prog = cc.build("C01", "C01.cpp", ["mllm/engine/prefix_cache/RadixTree.cpp", "mllm/engine/prefix_cache/TLB.cpp", *cc.XXH])
    d = 1 if c.thorough else 0
    jobs = [("few", cc.run_job, dict(prog=prog, job="few", alpha=2, len=1, minlen=1, ns=1, blocks=2, clear=1, few=1, depth=5 + d)),
            ("binary4", cc.run_job, dict(prog=prog, job="binary4", alpha=2, len=4, minlen=1, ns=1, blocks=1, clear=0, depth=3 + d)),
            ("binary3-ns2", cc.run_job, dict(prog=prog, job="binary3-ns2", alpha=2, len=3, minlen=1, ns=2, blocks=2, clear=1, depth=3 + d)),
            ("ternary3", cc.run_job, dict(prog=prog, job="ternary3", alpha=3, len=3, minlen=2, ns=1, blocks=1, clear=0, depth=3)),
            ("deep", cc.run_job, dict(prog=prog, job="deep", alpha=2, len=3, minlen=3, ns=1, blocks=1, clear=0, depth=6 + d)),
            ("namespaces", cc.run_job, dict(prog=prog, job="namespaces", alpha=1, len=2, minlen=1, ns=16, blocks=1, clear=0, depth=3)),
            ("binary6", cc.run_job, dict(prog=prog, job="binary6", alpha=2, len=6, minlen=5, ns=1, blocks=1, clear=0, depth=2 + d))]
    c.run(jobs)
    c.finish()

main()
