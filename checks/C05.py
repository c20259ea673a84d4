"""C05: on-device service (mllm/engine/service): every schedule within the bounds, every sequence of request faults."""
from vf.core import Check
from vf import cc

def main():
    c = Check("C05", "per scenario (users, waiters, stop, restart, registration) every thread schedule with at most P preemptions and Q out-of-turn switches; "
              "every sequence of two kinds of good, malformed, failing requests",
              ["sessions are stand-ins that emit numbered tokens, throw, or return", "sequentially consistent atomics", "live requests have distinct ids"])
    prog = cc.build("C05", "C05.cpp", ["mllm/engine/service/Service.cpp", "mllm/engine/service/Session.cpp"], threads=True)
    t = c.thorough
    J = []
    def j(name, workers=1, bound=2, detours=1, **k):
        n = f"{name}-{workers}" + "".join(f"-{a}{b}" for a, b in k.items())
        J.append((n, cc.run_job, dict(prog=prog, job=name, workers=workers, bound=bound + (1 if t else 0), detours=detours, **k)))
    for s in ("one", "waiter-first", "send-before-start", "stop-then-read", "stop-concurrent", "stop-waiter", "restart", "restart-left", "stop-twice", "stop-unstarted", "two-users"):
        j(s)
    for s in ("two-waiters", "register", "register-again", "failing-neighbour", "two-empty-waiters", "three-users", "stop-two-users", "start-twice"):
        j(s, 1, 1)
    for s in ("one", "stop-concurrent", "stop-waiter", "two-users", "two-waiters", "register", "failing-neighbour", "restart", "stop-then-read", "send-before-start"):
        j(s, 2, 1)
    for w in (2, 3):
        for s in ("meet", "meet-users"):
            j(s, w, 1)
    for i in range(8):
        J.append((f"faults-{i}", cc.run_job, dict(prog=prog, job="faults", len=3 if t else 2, parts=8, part=i)))
    c.run(J)
    c.finish()

main()
