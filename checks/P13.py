"""P13: the front end routes each result to its own request exactly once.

The real RequestResponseProcess and Engine.generate_async/generate run on a real asyncio loop with a virtual
clock; the two ZeroMQ sockets are stand-ins.  The explorer enumerates the order of client actions (start, read
next, disconnect, abort by id), detokenizer messages and the passing of time, including several events arriving
within one loop iteration, by re-executing each history on a fresh system.
"""
import asyncio, gc, itertools
from types import SimpleNamespace
from vf.core import Check, Violation, guarded
import pymllm.engine.launch as L
import pymllm.orchestrator.request_response_process as R
from pymllm.orchestrator.request_response_process import RequestResponseProcess


class SendSock:
    def __init__(self, h):
        self.h = h

    async def send_pyobj(self, o, *a, **k):
        if self.h.slow:
            f = asyncio.get_running_loop().create_future()
            self.h.blocked.append((f, o))
            await f
        else:
            self.h.sent.append(o)


class RecvSock:
    def __init__(self, h):
        self.h = h
        self.q = []
        self.waiter = None

    async def recv_pyobj(self, *a, **k):
        while not self.q:
            self.waiter = asyncio.get_running_loop().create_future()
            try:
                await self.waiter
            finally:
                self.waiter = None
        return self.q.pop(0)

    def put(self, o):
        self.q.append(o)
        if self.waiter is not None and not self.waiter.done():
            self.waiter.set_result(None)


class Client:
    def __init__(self, spec):
        self.kind, self.rids = spec["kind"], spec["rids"]
        self.stream = spec["stream"]
        self.gen = None
        self.task = None
        self.got = []
        self.ended = False
        self.error = None
        self.closed = False
        self.closing = None
        self.started = False


class Sys:
    def __init__(self, cfg):
        self.cfg = cfg
        self.slow = cfg.get("slow", False)
        self.sent, self.blocked = [], []
        self.now = 1000.0
        self.loop = asyncio.SelectorEventLoop()
        self.loop.time = lambda: self.now
        self.loop.set_exception_handler(lambda l, c: self.errs.append(str(c.get("exception") or c.get("message"))))
        self.errs = []
        R.time = SimpleNamespace(time=lambda: self.now)
        L.get_global_config = lambda: SimpleNamespace(server=SimpleNamespace(max_queued_requests=None))
        self.eng = object.__new__(L.Engine)
        self.rr = RequestResponseProcess("a", "b")
        self.rr._send_to_tokenizer = SendSock(self)
        self.rr._recv_from_detokenizer = RecvSock(self)
        self.eng._rr_process = self.rr
        self.cl = [Client(s) for s in cfg["clients"]]
        self.given = {}      # rid -> messages handed to the front end
        self.aborts = {}     # rid -> number of messages handed over when the abort by id came
        self.late = set()
        self.nabort = 0
        self.times = 0
        self.over = set()    # ids whose first request ended before they were used again
        self.holds = 0
        self.htotal = 0

    def close(self):
        try:
            for t in asyncio.all_tasks(self.loop):
                t.cancel()
            self.run()
        finally:
            self.loop.close()

    def run(self):
        for _ in range(400):
            self.loop.call_soon(self.loop.stop)
            self.loop.run_forever()
            if not self.loop._ready and not any(h._when <= self.now and not h._cancelled for h in self.loop._scheduled):
                return
        raise Violation("livelock", "event loop does not come to rest")

    # ---- environment
    def seen(self, rid):
        return [m for m in self.sent if m.get("rid") == rid]

    def rids(self):
        return [r for c in self.cl for r in c.rids]

    def actions(self):
        out = []
        for i, c in enumerate(self.cl):
            if not c.started:
                dep = self.cfg["clients"][i].get("after")
                if dep is None:
                    out.append(("start", i))
                elif self.cl[dep].started and not self.cl[dep].closed:
                    # the same id again: while the first request lives, and after it ended
                    g = self.given.get(self.cl[dep].rids[0], [])
                    if self.cl[dep].ended or not (g and g[-1]["finished"]):
                        out.append(("start", i))
                continue
            if c.closed or c.ended:
                continue
            if c.task is None:
                out.append(("next", i))
            if self.cfg.get("close", True):
                out.append(("close", i))
        for rid in self.rids():
            s = self.seen(rid)
            g = self.given.get(rid, [])
            if any(not m.get("abort") for m in s) and not (g and g[-1]["finished"]):
                c = self.client(rid)
                if len(g) < self.cfg["chunks"] and c.stream and not (c.closed or c.ended or rid in self.aborts):
                    out.append(("msg", rid, 0))
                out.append(("msg", rid, 1))
            if self.nabort < self.cfg.get("aborts", 0) and self.client(rid).started:
                out.append(("abort", rid))
        if self.blocked:
            out.append(("drain",))
        if self.times < self.cfg.get("times", 0):
            out.append(("time", 61))
            out.append(("time", 2000))
        if self.holds < self.cfg.get("holds", 1) and self.htotal < self.cfg.get("hmax", 1):
            out += [("+",) + a for a in out if a[0] in ("msg", "abort", "close", "start", "next") and not (a[0] == "start" and self.cfg["clients"][a[1]].get("dup"))]
        return out

    def client(self, rid):
        for c in self.cl:
            if rid in c.rids and c.started and not (c.error):
                return c
        for c in self.cl:
            if rid in c.rids:
                return c

    def apply(self, a):
        run = True
        if a[0] == "+":
            run = False
            self.holds += 1
            self.htotal += 1
            a = a[1:]
        k = a[0]
        if k == "start":
            c = self.cl[a[1]]
            c.started = True
            dep = self.cfg["clients"][a[1]].get("after")
            if dep is not None and self.cl[dep].ended:
                for r in c.rids:
                    self.given.pop(r, None)
                    self.sent = [m for m in self.sent if m.get("rid") != r]
                    self.over.add(r)
            n = len(c.rids)
            kw = dict(stream=c.stream, rid=c.rids[0] if c.kind == "one" else list(c.rids))
            if c.kind == "one":
                kw["prompt"] = "p" + c.rids[0]
            else:
                kw["prompt"] = ["p" + r for r in c.rids]
            c.gen = self.eng.generate_async(sampling_params={"temperature": 0}, **kw)
            self._next(c)
        elif k == "next":
            self._next(self.cl[a[1]])
        elif k == "close":
            c = self.cl[a[1]]
            c.closed = True
            t = c.task

            async def closing():
                if t is not None:
                    t.cancel()
                    try:
                        await t
                    except BaseException:  # noqa
                        pass
                await c.gen.aclose()
            c.closing = self.loop.create_task(closing())
        elif k == "msg":
            g = self.given.setdefault(a[1], [])
            m = dict(rid=a[1], delta=f"{a[1]}.{len(g)}", finished=bool(a[2]), finished_reason="stop" if a[2] else None)
            g.append(m)
            self.rr._recv_from_detokenizer.put(m)
        elif k == "abort":
            self.nabort += 1
            self.aborts.setdefault(a[1], len(self.given.get(a[1], [])))
            self.loop.create_task(self.rr.abort_request(a[1]))
        elif k == "drain":
            f, o = self.blocked.pop(0)
            self.sent.append(o)
            if not f.done():
                f.set_result(None)
        elif k == "time":
            self.times += 1
            self.now += a[1]
        if run:
            self.holds = 0
            self.run()
            self.check()

    def _next(self, c):
        async def nxt():
            try:
                c.got.append(await c.gen.__anext__())
            except StopAsyncIteration:
                c.ended = True
            except asyncio.CancelledError:
                raise
            except Exception as e:  # noqa
                c.error = e
                c.ended = True
            c.task = None
        c.task = self.loop.create_task(nxt())

    def check(self):
        if self.errs:
            raise Violation("background-error", f"error in the event loop: {self.errs[0]}")
        t = self.rr._loop_task
        if t is not None and t.done():
            raise Violation("loop-died", f"the front end's background loop ended: {t}")
        live = {}
        for c in self.cl:
            if not c.started:
                continue
            if c.error is not None:
                dup = [r for r in c.rids if any(r in d.rids and d is not c and d.started for d in self.cl)]
                if isinstance(c.error, ValueError) and dup:
                    continue   # a second request under a live id is refused
                raise Violation("client-error", f"caller of {c.rids} got {type(c.error).__name__}: {c.error}")
            if c.ended and any(r in self.over for r in c.rids) and c is self.cl[0]:
                continue   # judged before its id was used again
            per = {r: [x for x in c.got if x.get("rid") == r] for r in c.rids}
            foreign = [x for x in c.got if x.get("rid") not in c.rids]
            if foreign:
                raise Violation("foreign-result", f"caller of {c.rids} received {foreign}")
            for r in c.rids:
                g = self.given.get(r, [])
                got = per[r]
                cut = [x for x in got if "error" in x]
                if cut and r not in self.aborts and self.times == 0:
                    raise Violation("spurious-abort", f"{r} was ended with {cut} although nobody aborted it")
                if [x for x in got[:-1] if x.get("finished")]:
                    raise Violation("after-final", f"{r} received {got}: something after the final result")
                plain = [x for x in got if "error" not in x]
                if c.stream:
                    if plain != g[:len(plain)]:
                        raise Violation("increments", f"{r} received {[x['delta'] for x in plain]}, sent {[x['delta'] for x in g]}")
                elif plain and (len(plain) > 1 or plain != g[-1:] or not plain[0]["finished"]):
                    raise Violation("final-result", f"{r} received {plain}, sent {g}")
                if c.ended and not (got and got[-1].get("finished")):
                    raise Violation("no-final", f"the caller of {r} was told the output ended, received {got}")
            # a caller that waits has nothing deliverable outstanding
            if c.task is not None and not c.closed:
                for r in c.rids:
                    g = self.given.get(r, [])
                    due = len(g) if c.stream else int(bool(g and g[-1]["finished"]))
                    if r in self.aborts:
                        due = max(1, self.aborts[r] if c.stream else 0)   # at least the abort notice
                    if len(per[r]) < due and not (per[r] and per[r][-1].get("finished")):
                        raise Violation("waiter-stuck", f"the caller of {r} still waits; received {per[r]}, sent {g}, aborted {r in self.aborts}")
                if all(per[r] and per[r][-1].get("finished") for r in c.rids):
                    raise Violation("waiter-stuck", f"the caller of {c.rids} still waits after all final results")
            if not c.closed and not c.ended:
                for r in c.rids:
                    live[r] = c
            if c.closed and c.closing.done() and c.closing.exception() is not None:
                raise Violation("close-error", f"closing the stream of {c.rids}: {c.closing.exception()!r}")
        # state table
        left = [r for r in self.rr._rid_to_state if r not in live]
        if left and not self.slow:
            raise Violation("state-left", f"state of {left} is kept although nobody waits for it any more")
        # what went to the tokenizer
        for rid in set(self.rids()):
            s = self.seen(rid)
            kinds = ["abort" if m.get("abort") else "req" for m in s]
            starts = sum(1 for c in self.cl if c.started and rid in c.rids and c.error is None)
            if kinds.count("req") > starts:
                raise Violation("sent-twice", f"{rid} went to the tokenizer {kinds.count('req')} times")
            if "abort" in kinds and "req" in kinds and starts == 1 and kinds.index("abort") < kinds.index("req"):
                raise Violation("abort-overtakes", f"the abort of {rid} reached the tokenizer before the request itself")
            if not self.slow and rid in live and "req" not in kinds:
                raise Violation("not-forwarded", f"{rid} was never forwarded")
            if not self.slow and "req" in kinds and starts == 1 and "abort" not in kinds:
                gone = [c for c in self.cl if rid in c.rids and c.closed]
                g = self.given.get(rid, [])
                if gone and not (g and g[-1]["finished"]) and not self.times:
                    raise Violation("not-aborted", f"the caller of {rid} disconnected but the request was not aborted")
            for m in s:
                if not m.get("abort") and (m.get("rid") != rid or m.get("text") != "p" + rid or m.get("sampling_params") != {"temperature": 0}):
                    raise Violation("forwarded-wrong", f"{rid} was forwarded as {m}")

    def fingerprint(self):
        def coro(t):
            out = []
            if t is None or t.done():
                return None
            co = t.get_coro()
            while co is not None:
                fr = getattr(co, "cr_frame", None) or getattr(co, "ag_frame", None) or getattr(co, "gi_frame", None)
                if fr is None:
                    break
                out.append((fr.f_code.co_name, fr.f_lasti))
                co = getattr(co, "cr_await", None) or getattr(co, "ag_await", None) or getattr(co, "gi_yieldfrom", None)
            return tuple(out)
        return repr((
            sorted((r, s.finished, s.event.is_set(), [m.get("delta", "E") for m in s.out_list], self.now - s.created_at) for r, s in self.rr._rid_to_state.items()),
            [(c.started, c.closed, c.ended, type(c.error).__name__, () if c.closed or c.ended else [x.get("delta", "E") for x in c.got], coro(c.task), coro(c.closing)) for c in self.cl],
            sorted((r, g[-1]["finished"] or len(g)) for r, g in self.given.items()), sorted(self.aborts.items()), self.nabort, self.times, self.holds, self.htotal,
            sorted((r, [bool(m.get("abort")) for m in self.seen(r)]) for r in set(self.rids())), [(o.get("rid"), bool(o.get("abort"))) for _, o in self.blocked],
            self.rr._request_queue.qsize(), [(m["rid"], m["delta"]) for m in self.rr._recv_from_detokenizer.q], len(self.loop._ready)))


def execute(cfg, hist):
    s = Sys(cfg)
    try:
        for a in hist:
            s.apply(a)
        return s.fingerprint(), s.actions()
    finally:
        s.close()


def job(cfg, depth, max_states=10**9):
    gc.enable()
    st = dict(states=1, transitions=0, validated=0, exhaustive=True, samples=[], depth_done=0)
    viols = {}
    fp, acts = execute(cfg, ())
    seen = {fp}
    frontier = [((), acts)]
    for d in range(depth):
        nxt = []
        for hist, acts in frontier:
            for a in acts:
                h2 = hist + (tuple(a),)
                st["transitions"] += 1
                try:
                    fp, acts2 = guarded(lambda: execute(cfg, h2), limit=5)
                except Violation as v:
                    if v.sig not in viols and len(viols) < 8:
                        try:
                            guarded(lambda: execute(cfg, h2), limit=5)
                            st.setdefault("unreproduced", []).append([v.sig, h2])
                        except Violation as v2:
                            viols[v.sig] = dict(sig=v2.sig, msg=v2.msg, cfg=cfg, hist=[list(x) for x in h2])
                        if "hang" in viols:
                            st["exhaustive"] = False
                            return st, list(viols.values())
                    continue
                # every state is reached by executing its whole history on a fresh system
                if fp in seen:
                    continue
                seen.add(fp)
                st["states"] += 1
                if st["states"] % 50 == 0:
                    st["validated"] += 1 if execute(cfg, h2)[0] == fp else 0
                    if len(st["samples"]) < 2:
                        st["samples"].append([list(x) for x in h2])
                if st["states"] >= max_states:
                    st["exhaustive"] = False
                    return st, list(viols.values())
                nxt.append((h2, acts2))
        st["depth_done"] = d + 1
        frontier = nxt
        if not frontier:
            break
    return st, list(viols.values())


# ---- the synchronous entry point: call sequences on one engine

class EchoSend:
    def __init__(self, h):
        self.h = h

    async def send_pyobj(self, o, *a, **k):
        h = self.h
        h.sent.append(o)
        if not o.get("abort"):
            if h.order == "lifo":
                h.pend.insert(0, o)
            else:
                h.pend.append(o)


class EchoRecv:
    def __init__(self, h):
        self.h = h

    async def recv_pyobj(self, *a, **k):
        h = self.h
        n = 0
        while True:
            await asyncio.sleep(0)
            n += 1
            if h.pend and n > 6:
                o = h.pend.pop(0)
                rid = o["rid"]
                return dict(rid=rid, text=f"{o.get('text')}|{o.get('input_ids')}", finished=True, finished_reason="stop")


def sync_job(_):
    st = dict(states=0, transitions=0, validated=0, exhaustive=True, samples=[])
    viols = {}
    calls = {"one": dict(prompt="a"), "ids": dict(input_ids=[1, 2]), "list1": dict(prompt=["b"]), "list2": dict(prompt=["c", "d"]),
             "idlist": dict(input_ids=[[1], [2, 3]]), "rid": dict(prompt="e", rid="R"), "rid1": dict(prompt="e", rid=["R"]), "rids": dict(prompt=["f", "g"], rid=["R", "Q"])}
    L.get_global_config = lambda: SimpleNamespace(server=SimpleNamespace(max_queued_requests=None))
    for n in (1, 2, 3):
        for order in ("fifo", "lifo"):
            for seq in itertools.product(calls, repeat=n):
                if n == 3 and not (set(seq) <= {"one", "list1", "list2", "rid"}):
                    continue
                h = SimpleNamespace(sent=[], pend=[], order=order)
                eng = object.__new__(L.Engine)
                eng.__dict__.update({k: v for k, v in {"_sync_loop": None}.items()})
                rr = RequestResponseProcess("a", "b")
                rr._send_to_tokenizer, rr._recv_from_detokenizer = EchoSend(h), EchoRecv(h)
                eng._rr_process = rr
                st["states"] += 1
                try:
                    for k in seq:
                        st["transitions"] += 1
                        kw = calls[k]
                        out = guarded(lambda: eng.generate(sampling_params={}, **kw), limit=3.0)
                        want = [f"{t}|{None}" for t in kw["prompt"]] if isinstance(kw.get("prompt"), list) else \
                            f"{kw['prompt']}|None" if "prompt" in kw else \
                            [f"None|{i}" for i in kw["input_ids"]] if isinstance(kw["input_ids"][0], list) else f"None|{kw['input_ids']}"
                        got = [o["text"] for o in out] if isinstance(out, list) else out["text"]
                        if got != want:
                            raise Violation("sync-result", f"generate({kw}) returned {got}, expected {want}")
                        if rr._rid_to_state:
                            raise Violation("sync-state-left", f"after generate({kw}) returned the front end still keeps state of {len(rr._rid_to_state)} request(s)")
                except Violation as v:
                    if v.sig not in viols:
                        viols[v.sig] = dict(sig=v.sig, msg=v.msg, cfg=order, hist=[list(seq)])
                finally:
                    lp = getattr(eng, "_sync_loop", None)
                    if lp is not None and not lp.is_closed():
                        for t in asyncio.all_tasks(lp):
                            t.cancel()
                        lp.call_soon(lp.stop)
                        lp.run_forever()
                        lp.close()
                if len(viols) > 4 or "hang" in viols:
                    return st, list(viols.values())
    st["samples"] = [["one", "list2"]]
    return st, list(viols.values())


def one(rid, stream, **k):
    return dict(kind="one", rids=[rid], stream=stream, **k)


def main():
    c = Check("P13", rule="every order of client actions (start, read next, disconnect, abort), detokenizer messages, socket progress and "
              "time to the depth bound, up to two events within one loop iteration; a state is the front end's tables, queues, every "
              "caller's progress and its suspended coroutine",
              assumptions=["callbacks that are ready run first-in first-out, as asyncio guarantees",
                           "the detokenizer sends results only for requests that reached the tokenizer and one final result each (P03, P10)"])
    t = c.thorough
    def J(name, clients, d, chunks=1, **k):
        jobs.append((name, job, dict(cfg=dict(clients=clients, chunks=chunks, **k), depth=d + (2 if t else 0), max_states=400000 if t else 60000)))

    jobs = []
    A, AF, B, BF, CF = one("A", True), one("A", False), one("B", True), one("B", False), one("C", False)
    batch = lambda rids, stream, **k: dict(kind="batch", rids=list(rids), stream=stream, **k)
    J("two-streams", [A, B], 8, aborts=1, hmax=0)
    J("two-streams-held", [A, B], 6, aborts=1)
    J("stream+final", [A, BF], 8, chunks=1, aborts=1, hmax=0)
    J("stream+final-held", [A, BF], 6, chunks=2, aborts=1)
    J("one-stream", [A], 8, chunks=3, aborts=2, hmax=2, times=1)
    J("one-final", [AF], 8, chunks=0, aborts=2, hmax=2, times=2)
    J("slow-socket", [A, BF], 7, aborts=1, slow=True, hmax=0)
    J("slow-three", [AF, BF, CF], 7, chunks=0, aborts=1, slow=True, hmax=0)
    J("batch-stream", [batch("AB", True)], 8, aborts=1)
    J("batch-final", [batch("AB", False)], 9, chunks=0, aborts=2)
    J("batch-one", [batch("A", True), BF], 7, aborts=1, hmax=0)
    J("batch-three", [batch("ABC", True)], 9, aborts=0, hmax=0)
    J("duplicate-id", [A, one("A", False, dup=True, after=0)], 8)
    J("duplicate-batch", [AF, batch("BA", True, dup=True, after=0)], 8)
    J("timeouts", [A, BF], 7, aborts=0, times=2, hmax=0)
    jobs.append(("sync-generate", sync_job, dict(_=0)))
    c.run(jobs)
    c.finish()


if __name__ == "__main__":
    main()
