"""C03: device memory manager (mllm/engine/BuddyMemPool, MemoryManager, mllm/backends/cpu/CPUAllocator)."""
from vf.core import Check, VERIF
from vf import cc

SRCS = ["mllm/engine/BuddyMemPool.cpp", "mllm/engine/MemoryManager.cpp", "mllm/backends/cpu/CPUAllocator.cpp", "mllm/core/DeviceTypes.cpp"]

def main():
    c = Check("C03", "every sequence of allocations, frees, cache-list updates and a shutdown to the depth bound, per pool geometry; live blocks are "
              "written in full and read back after every step; a new segment is only accepted when no aligned free range exists",
              ["block contents only matter by identity", "clients free live blocks once", "the system allocator refuses requests above a limit where the job says so"])
    prog = cc.build("C03", "C03.cpp", SRCS, flags=[f"-I{VERIF}/cpp/shim_kern", "-mavx2"], wrap=("abort", "malloc"))
    d = 1 if c.thorough else 0
    J = [("basic", dict(sizes=0, depth=6 + d)), ("grow", dict(sizes=1, depth=6 + d)), ("two-sizes", dict(sizes=2, maxo=8, depth=8 + d, live=5)),
         ("small-or-all", dict(sizes=7, maxo=8, depth=9 + d, live=5)), ("tiny", dict(sizes=2, mino=4, maxo=7, depth=8 + d, live=5)), ("uneven", dict(sizes=3, mino=5, maxo=11, depth=5 + d)),
         ("cached", dict(sizes=5, caches=1, depth=6 + d)), ("cache-updates", dict(sizes=5, caches=2, depth=6 + d, live=4)),
         ("cache-all", dict(sizes=8, caches=2, depth=6 + d, live=3)), ("huge", dict(sizes=4, depth=4, live=3)), ("huge-limited", dict(sizes=4, depth=4, live=3, budget=1 << 26)),
         ("out-of-memory", dict(sizes=1, depth=5 + d, budget=1200)), ("no-first-segment", dict(sizes=1, depth=2, budget=100)),
         ("odd-cap", dict(sizes=0, cap=400, depth=5)), ("odd-cap2", dict(sizes=2, cap=100, mino=5, maxo=7, depth=5)),
         ("manager", dict(sizes=1, via=1, depth=5 + d)), ("manager-large", dict(sizes=3, via=1, thresh=1000, maxo=12, depth=5 + d)),
         ("manager-edge", dict(sizes=6, via=1, thresh=1024, maxo=12, depth=6 + d)),
         ("manager-large-oom", dict(sizes=3, via=1, thresh=1000, maxo=12, depth=4 + d, budget=4500))]
    pt = cc.build("C03t", "C03t.cpp", SRCS, flags=[f"-I{VERIF}/cpp/shim_kern", "-mavx2"], threads=True)
    TJ = [("threads2", dict(threads=2, rounds=2, size=64, caches=0, cross=0, bound=2 + d, detours=2)),
          ("threads2-grow", dict(threads=2, rounds=2, size=300, caches=0, cross=0, bound=2 + d, detours=2)),
          ("threads2-cache", dict(threads=2, rounds=2, size=64, caches=1, cross=0, bound=2 + d, detours=2)),
          ("threads3", dict(threads=3, rounds=1, size=100, caches=0, cross=0, bound=2, detours=1 + d)),
          ("threads3-cross", dict(threads=3, rounds=1, size=64, caches=1, cross=1, bound=1 + d, detours=1)),
          ("threads2-large", dict(threads=2, rounds=2, size=5000, caches=0, cross=0, bound=2, detours=1)),
          ("threads2-cross", dict(threads=2, rounds=2, size=128, caches=0, cross=1, bound=2 + d, detours=2))]
    c.run([(n, cc.run_job, dict(prog=prog, job=n, **k)) for n, k in J] + [(n, cc.run_job, dict(prog=pt, job=n, **k)) for n, k in TJ])
    c.finish()

main()
