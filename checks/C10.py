"""C10: shared ownership (mllm/utils/IntrusivePtr, WeakOwner; tensors over shared storage)."""
from vf.core import Check
from vf import cc
from vf.cc import CORE


def main():
    c = Check("C10", "every sequence of creating, copying, moving, converting, assigning, swapping, resetting handles to the depth bound (all aliasings); the same for "
              "tensors, views, slices and attached views over shared storage; every interleaving of two or three threads dropping handles to one object",
              ["objects are told apart by identity only", "storage comes from the heap"])
    prog = cc.build("C10", "C10.cpp", [*CORE, *[f"mllm/core/aops/{o}.cpp" for o in ("ViewOp", "SliceOp")], *[f"mllm/backends/cpu/ops/{o}.cpp" for o in ("ViewOp", "SliceOp")], *cc.XXH], flags=["-mavx2"])
    pt = cc.build("C10t", "C10t.cpp", [], threads=True)
    d = 1 if c.thorough else 0
    J = [("weak", prog, dict()), ("handles", prog, dict(nb=2, nd=1, objs=2, depth=20)), ("handles-bb", prog, dict(nb=3, nd=0, objs=3, depth=20)), ("handles-bdd", prog, dict(nb=2, nd=2, objs=3, depth=20)),
         ("tensors2", prog, dict(n=2, limit=3, depth=7 + d)), ("tensors3", prog, dict(n=3, limit=3, depth=5 + d))]
    J += [(f"threads{n}-{m}", pt, dict(threads=n, mode=m, bound=4 - (n > 2) * 2 + d)) for n in (2, 3) for m in (0, 1, 2)]
    c.run([(n, cc.run_job, dict(prog=p, job=n, **k)) for n, p, k in J])
    c.finish()

main()
