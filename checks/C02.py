"""C02: on-device KV page allocator (mllm/engine/prefix_cache/ZenFS, Allocator, TLB)."""
from vf.core import Check
from vf import cc

SRCS = ["mllm/engine/prefix_cache/ZenFS.cpp", "mllm/engine/prefix_cache/Allocator.cpp", "mllm/engine/prefix_cache/TLB.cpp",
        "mllm/core/Tensor.cpp", "mllm/core/TensorStorage.cpp", "mllm/core/TensorViewImpl.cpp", "mllm/core/DataTypes.cpp",
        "mllm/core/BaseOp.cpp", "mllm/core/aops/FillOp.cpp", "mllm/core/ParameterFile.cpp", *cc.XXH]
F32, F16, I8 = 0, 1, 16

def main():
    c = Check("C02", "every sequence of allocations (single, a whole blob), frees, rewrites, prefetch and purge hints and close-and-reopen to the "
              "depth bound, for each page/lane/blob kind; after every step every live lane is read back in full",
              ["lane contents only matter by identity", "clients free only live addresses and each once"])
    prog = cc.build("C02", "C02.cpp", SRCS)
    d = 1 if c.thorough else 0
    jobs = []
    for page, lane, depth in ((0, 1, 6), (1, 1, 5), (1, 0, 5), (2, 2, 4), (3, 3, 4), (4, 3, 4), (0, 6, 4)):
        for mm in (0, 1):
            for record in (0, 1):
                n = f"p{page}l{lane}-{'file' if mm else 'anon'}-{'rec' if record else 'norec'}"
                jobs.append((n, cc.run_job, dict(prog=prog, job=n, page=page, lane=lane, ele=3, dt=F16, mm=mm, record=record, via=0,
                                                 live=2 << (page + lane) if page + lane > 2 else 7, depth=depth + d - (record and page + lane <= 2))))
    for dt, ele in ((F32, 1), (I8, 5), (F16, 700)):
        for mm in (0, 1):
            n = f"dt{dt}x{ele}-{mm}"
            jobs.append((n, cc.run_job, dict(prog=prog, job=n, page=1, lane=1, ele=ele, dt=dt, mm=mm, record=1, via=0, live=10, depth=4 + d)))
    for mm in (0, 1):
        n = f"allocator-{mm}"
        jobs.append((n, cc.run_job, dict(prog=prog, job=n, page=1, lane=1, ele=4, dt=F16, mm=mm, record=0, via=1, live=10, depth=5 + d)))
    c.run(jobs)
    c.finish()

main()
