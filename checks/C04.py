"""C04: thread pool (mllm/engine/HpcThreadPool): every schedule within the bounds."""
from vf.core import Check, VERIF
from vf import cc

def main():
    c = Check("C04", "per scenario (loops, concurrent callers, activation, idling, shutdown) every thread schedule with at most P preemptions and Q "
              "out-of-turn switches; all ranges 0-3..+9, steps 1-4, worker counts 0-4 in the default schedule; data races and deadlocks included",
              ["sequentially consistent atomics (weaker orders only through the race detector)", "condition variables wake up without spurious wake-ups"])
    prog = cc.build("C04", "C04.cpp", ["mllm/engine/HpcThreadPool.cpp"], threads=True)
    inc = f"-I{VERIF}/cpp/shim_par"
    pm = cc.build("C04m", "C04m.cpp", ["mllm/engine/HpcThreadPool.cpp"], flags=[inc, "-DMLLM_KERNEL_USE_THREADS=1", "-DMLLM_KERNEL_USE_THREADS_VENDOR_MLLM=1"], threads=True)
    ps = cc.build("C04s", "C04m.cpp", ["mllm/engine/HpcThreadPool.cpp"], flags=[inc], threads=True)
    t = c.thorough
    J = []
    def j(name, threads=2, bound=2, detours=1, **k):
        n = f"{name}-{threads}" + "".join(f"-{a}{b}" for a, b in k.items())
        J.append((n, cc.run_job, dict(prog=prog, job=name, threads=threads, bound=bound + (1 if t and threads == 2 else 0), detours=detours, **k)))
    for s in ("loop", "never-activated", "restart", "nested-activate", "destroy-active", "idle", "idle-concurrent", "deactivate-concurrent", "destroy-idle",
              "idle-twice", "stop-concurrent", "two-loops", "two-callers"):
        j(s, detours=2)
    j("loop", 3)
    j("three-callers", 2, 2 if t else 1, 1)
    for s in ("restart", "destroy-active", "idle-concurrent", "two-callers", "destroy-idle"):
        j(s, 3, 2 if t else 1, 1)
    j("loop", 2, 3, 2, n=5); j("loop", 4, 1, 1, n=7)
    j("ranges")
    J += [("macros", cc.run_job, dict(prog=pm, job="macros")), ("macros-serial", cc.run_job, dict(prog=ps, job="macros-serial", threads=0))]
    c.run(J)
    c.finish()

main()
