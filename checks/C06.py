"""C06: key/value caches (mllm/nn/lmcache: StaticCache, SubStaticCache, DynamicCache, CpuPrefixCache)."""
from vf.core import Check
from vf import cc
from vf.cc import CORE

F32, F16, I8 = 0, 1, 16
OPS = ("SliceOp", "ConcatOp", "RepeatOp")


def main():
    c = Check("C06", "every sequence of appends, seeks, clears, windows and window appends (beyond the capacity too) over the preallocated cache; of appends to the "
              "growing cache; of requests and window evictions on the paged prefix cache; to the depth bound, all layers and heads read back after every step",
              ["cache contents only matter by identity", "keys and values come as [B, H, S, D] (or are written through the returned place) with one batch"])
    prog = cc.build("C06", "C06.cpp", [*CORE, "mllm/core/aops/FillOp.cpp", *[f"mllm/core/aops/{o}.cpp" for o in OPS], *[f"mllm/backends/cpu/ops/{o}.cpp" for o in OPS],
                                       "mllm/nn/Functional.cpp", "mllm/nn/lmcache/StaticCache.cpp", "mllm/nn/lmcache/DynamicCache.cpp", "mllm/nn/lmcache/PrefixCache.cpp",
                                       *[f"mllm/engine/prefix_cache/{s}.cpp" for s in ("RadixTree", "TLB", "Allocator", "ZenFS")], *cc.XXH], flags=["-mavx2"])
    d = 1 if c.thorough else 0
    J = []
    for n, k in {"one-layer": dict(cap=4, depth=6), "two-layers": dict(cap=3, layers=2, q=4, kv=2, depth=5), "mixed": dict(cap=3, q=3, kv=3, d=3, kt=F16, vt=I8, depth=5),
                 "window": dict(cap=4, subs=1, q=2, kv=2, depth=5), "windows": dict(cap=3, subs=2, q=2, kv=1, kt=I8, vt=F16, maxs=2, depth=5),
                 "window-2l": dict(cap=3, subs=1, layers=2, q=1, kv=1, maxs=2, depth=5),
                 "fa2": dict(cap=4, fa2=1, q=4, kv=2, depth=6), "fa2-2l": dict(cap=3, fa2=1, layers=2, q=2, kv=1, kt=F16, depth=5)}.items():
        J.append(("static-" + n, dict(kind=0, **{**k, "depth": k["depth"] + d})))
    for n, k in {"repeat": dict(q=4, kv=2, layers=2), "single": dict(q=2, kv=2, layers=3, maxlen=4), "fa2": dict(q=4, kv=2, fa2=1, kt=F16, vt=F16), "f16": dict(q=3, kv=1, d=3, kt=F16, vt=F16)}.items():
        J.append(("growing-" + n, dict(kind=1, **{"depth": 12, **k})))
    for n, k in {"full": dict(window=0, len=3, minlen=2, both=1, depth=3), "window2": dict(window=2, sliding=1, len=4, minlen=3, depth=4), "window1": dict(window=1, sliding=2, len=3, minlen=2, depth=5),
                 "window3": dict(window=3, sliding=3, len=5, minlen=4, depth=3), "sizes": dict(window=2, sliding=1, len=3, minlen=3, kt=F16, vt=F16, ke=2, ve=5, depth=4)}.items():
        J.append(("paged-" + n, dict(kind=2, **{**k, "depth": k["depth"] + d})))
    c.run([(n, cc.run_job, dict(prog=prog, job=n, **k)) for n, k in J])
    c.finish()

main()
