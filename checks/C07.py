"""C07: symbolic shape expressions (mllm/compile/symbolic_expr)."""
from vf.core import Check
from vf import cc

def main():
    c = Check("C07", "every text over a character alphabet to a length, every token string over token alphabets to a length, every operator chain to a length and "
              "every expression tree to a size, each for every binding of a set (complete, partial, none)",
              ["values stay within the range of float and int32 arithmetic", "no division by zero (IEEE infinities are not turned into integers)"])
    prog = cc.build("C07", "C07.cpp", [f"mllm/compile/symbolic_expr/{f}.cpp" for f in ("Parser", "Eval")], wrap=("abort", "exit"))
    d = 1 if c.thorough else 0
    N = 8
    J = [("chars", dict(len=5 + d)), ("tokens-narrow", dict(len=6 + d)), ("tokens-wide", dict(len=4 + d, wide=1)), ("flat1", dict(ops=6 + d)), ("trees", dict(size=3))]
    c.run([(f"{n}/{i}", cc.run_job, dict(prog=prog, job=n, part=i, parts=N, **k)) for n, k in J for i in range(N)])
    c.finish()

main()
