"""P16: sampling honours each request's own parameters.

 rows     every logit vector over a value grid x every parameter combination, as rows of one batch, through the real
          ModelRunner.sample: the distribution handed to the random draw is compared with a per-row reference
 mixed    every pair (triple) of rows with different parameters in one small batch, every outcome of the draw
 api      the filter functions with scalar / per-row parameters and row indices
 spec     speculative chain sampling: every outcome of every draw, exact output distribution
 serve    every submit/step order of requests with distinct parameters through the real scheduler and model-runner
          process: the parameters and token history that reach the sampler for a row are those of that row's request
"""
import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
import itertools, math, types
import torch
from vf.core import Check, Violation, guarded, explore
import pymllm.executor.model_runner as MR
import pymllm.layers.sampling as SA

SA._HAS_FLASHINFER = False   # FlashInfer needs a GPU; the PyTorch kernels are what runs without one
EPS = 2e-6
NEG = float("-inf")


class Draw:
    """Replaces torch.multinomial: records the distribution, returns the scripted category."""

    def __init__(self, pick=None):
        self.seen, self.pick = [], pick

    def __call__(self, p, num_samples=1, replacement=False, generator=None, **k):
        rows = p if p.dim() == 2 else p.unsqueeze(0)
        self.seen.append(rows.detach().clone())
        if torch.isnan(rows).any() or (rows < 0).any() or (rows.sum(-1) <= 0).any() or torch.isinf(rows).any():
            raise Violation("bad-distribution", f"the draw is given {rows.tolist()}")
        out = []
        for i, r in enumerate(rows.tolist()):
            sup = [j for j, x in enumerate(r) if x > 0]
            out.append([sup[self.pick(i, len(sup)) % len(sup)] if self.pick else sup[0]])
        t = torch.tensor(out)
        return t if p.dim() == 2 else t[0]


class patched:
    def __init__(self, draw):
        self.draw = draw

    def __enter__(self):
        self.old = torch.multinomial
        torch.multinomial = self.draw
        return self.draw

    def __exit__(self, *a):
        torch.multinomial = self.old


def runner():
    r = object.__new__(MR.ModelRunner)
    r.device = "cpu"
    return r


def f32(x):
    return torch.tensor(x, dtype=torch.float32).item()


def ref(logits, temp, k, p, pen=(1.0, 0.0, 0.0), hist=()):
    """(kind, probabilities after temperature, must-be-in support, may-be-in support)"""
    l = list(logits)
    rep, fr, pr = pen
    for t in set(x for x in hist if 0 <= x < len(l)):
        if rep != 1.0:
            l[t] = l[t] / rep if l[t] > 0 else l[t] * rep
        l[t] -= fr * list(hist).count(t) + pr
    if temp < 1e-6:
        tol = 0.0 if tuple(pen) == (1.0, 0.0, 0.0) else 1e-5
        m = max(l)
        return "greedy", l, {i for i, x in enumerate(l) if x == m}, {i for i, x in enumerate(l) if x >= m - tol}
    m = max(l)
    e = [math.exp((x - m) / temp) for x in l]
    s = sum(e)
    q = [x / s for x in e]
    return ("sample", q) + support(q, k, p)


def support(q, k, p):
    V = len(q)
    kk = V if k <= 0 or k >= V else k
    kth = sorted(q, reverse=True)[kk - 1]
    ks = {i for i in range(V) if q[i] >= kth * (1 - 1e-5) and q[i] > 0}
    ks_must = {i for i in ks if q[i] > kth * (1 + 1e-5)} | ({i for i in ks} if sum(1 for i in range(V) if q[i] >= kth * (1 - 1e-5)) <= kk else set())
    s = sum(q[i] for i in ks)
    must, may = set(), set()
    for i in ks:
        before = sum(q[j] for j in ks if q[j] > q[i] * (1 + 1e-5)) / s
        worst = sum(q[j] for j in ks if j != i and q[j] >= q[i] * (1 - 1e-5)) / s
        if before <= p + EPS:
            may.add(i)
        if worst < p - EPS and i in ks_must:
            must.add(i)
    must = {i for i in must if q[i] > 1e-30}
    return must, may


def judge(what, q, must, may, dist):
    got = {i for i, x in enumerate(dist) if x > 0}
    if not got <= may:
        raise Violation("outside-support", f"{what}: tokens {sorted(got - may)} can be drawn; allowed {sorted(may)} (distribution {dist})")
    if not must <= got:
        raise Violation("support-lost", f"{what}: tokens {sorted(must - got)} can never be drawn although the filters keep them (distribution {dist})")
    s = sum(q[i] for i in got)
    for i in got:
        if abs(dist[i] / sum(dist) - q[i] / s) > 1e-4:
            raise Violation("wrong-probability", f"{what}: token {i} has probability {dist[i]}, expected {q[i] / s}")


def call(rows, pens=None, greedy=None, pick=None, dtype=torch.float32):
    lg = torch.tensor([r[0] for r in rows], dtype=dtype)
    pp = None
    if pens is not None:
        pp = dict(token_histories=[list(x[1]) for x in pens], **{n: torch.tensor([x[0][i] for x in pens], dtype=torch.float32)
                  for i, n in enumerate(("repetition_penalties", "frequency_penalties", "presence_penalties"))})
    keep = lg.clone()
    with patched(Draw(pick)) as d:
        out = runner().sample(types.SimpleNamespace(next_token_logits=lg), None, temperatures=torch.tensor([r[1] for r in rows], dtype=torch.float32),
                              top_ks=torch.tensor([r[2] for r in rows], dtype=torch.int32), top_ps=torch.tensor([r[3] for r in rows], dtype=torch.float32),
                              penalty_params=pp, is_all_greedy=greedy)
    del keep
    return out.tolist(), d.seen


def check_rows(rows, pens, out, seen, st):
    final = seen[-1].tolist() if seen and seen[-1].shape[0] == len(rows) else None
    if len(out) != len(rows):
        raise Violation("wrong-count", f"{len(out)} tokens for {len(rows)} requests")
    for i, r in enumerate(rows):
        pen, hist = pens[i] if pens else ((1.0, 0.0, 0.0), ())
        kind, q, must, may = ref([f32(x) if x != NEG else x for x in r[0]], r[1], r[2], r[3], pen, hist)
        what = f"row {i} of {len(rows)}: logits {r[0]} temperature {r[1]} top_k {r[2]} top_p {r[3]} penalties {pen} history {hist}"
        if out[i] not in may:
            raise Violation("greedy-not-argmax" if kind == "greedy" else "outside-support", f"{what}: token {out[i]}, allowed {sorted(may)}")
        if kind == "sample" and final is not None:
            judge(what, q, must, may, final[i])
        st["states"] += 1


TEMPS, KS, PS = [0.0, 0.5, 1.0, 2.0], [-1, 0, 1, 2, 3, 4, 5, 1 << 30], [0.0, 0.3, 0.5, 0.9, 1.0]


def stats():
    return dict(states=0, transitions=0, validated=0, exhaustive=True, samples=[])


def finish(st, viols, name):
    st["validated"] = st["transitions"]
    st["samples"].append([[name, st["states"]]])
    return st, list(viols.values())


def attempt(viols, f, ctx):
    try:
        guarded(f, 120)
    except Violation as v:
        if v.sig not in viols:
            viols[v.sig] = dict(sig=v.sig, msg=v.msg, cfg=ctx, hist=[])


def job_rows(vals, temp, n):
    """one temperature; all logit vectors over vals^n x top_k x top_p in one batch (non-greedy), and all penalties"""
    st, viols = stats(), {}
    vecs = [v for v in itertools.product(vals, repeat=n) if any(x != NEG for x in v)]
    rows = [(v, temp, k, p) for v in vecs for k in KS for p in PS]
    for pick in (None, lambda i, m: m - 1, lambda i, m: i):
        def go():
            out, seen = call(rows, pick=pick)
            st["transitions"] += 1
            check_rows(rows, None, out, seen, st)
        attempt(viols, go, dict(vals=[str(x) for x in vals], temp=temp))
    PEN = [(2.0, 0.0, 0.0), (0.5, 0.0, 0.0), (1.0, 0.75, 0.0), (1.0, 0.0, 1.25), (1.5, -0.5, 0.25), (1.0, 0.0, 0.0)]
    HI = [(), (0,), (n - 1, n - 1), (0, 1, 0), tuple(range(n)), (n, -1, 1), (99,)]
    rows = [(v, temp, -1, 1.0) for v in vecs for _ in range(len(PEN) * len(HI))]
    pens = [x for _ in vecs for x in itertools.product(PEN, HI)]

    def go2():
        # every row on its own and all rows together
        out, seen = call(rows, pens)
        st["transitions"] += 1
        check_rows(rows, pens, out, seen, st)
    attempt(viols, go2, dict(vals=[str(x) for x in vals], temp=temp, penalties=True))
    return finish(st, viols, "rows")


def job_mixed(size, thorough):
    st, viols = stats(), {}
    near = [1.0, math.nextafter(1.0, 2.0) + 1e-7, 0.5]
    logits = [near, [3.0, 1.0, 1.0], [0.0, 0.0, NEG], [-1.0, 2.0, 60000.0], [5.0, 5.0, 5.0]]
    params = [(0.0, -1, 1.0), (0.0, 1, 0.5), (1.0, -1, 1.0), (1.0, 1, 1.0), (0.7, 2, 0.9), (1.0, 0, 0.0), (2.0, 3, 0.4), (1e-7, 2, 0.1)]
    pens = [((1.0, 0.0, 0.0), ()), ((2.0, 0.0, 0.0), (0,)), ((1.0, 1.0, 0.5), (1, 1, 2))]
    rowset = [(lg,) + pr for lg in logits for pr in params]
    if size == 3:
        rowset = rowset[::3] if not thorough else rowset[::2]
    for rows in itertools.product(rowset, repeat=size):
        for pv in ([None] if size == 3 or not thorough else [None, 0, 1, 2]):
            pn = None if pv is None else [pens[(pv + i) % 3] for i in range(size)]
            for pick in range(2):
                def go():
                    out, seen = call(list(rows), pn, pick=lambda i, m: pick + i)
                    st["transitions"] += 1
                    check_rows(rows, pn, out, seen, st)
                attempt(viols, go, dict(rows=repr(rows)))
        if len(viols) > 4:
            break
    # pairs with penalties on one row only
    if size == 2:
        for lg, (a, b) in itertools.product(logits, itertools.product(pens, repeat=2)):
            for pr in params:
                rows = [(lg,) + pr, (lg,) + pr]

                def go():
                    out, seen = call(rows, [a, b])
                    st["transitions"] += 1
                    check_rows(rows, [a, b], out, seen, st)
                attempt(viols, go, dict(rows=repr(rows), pens=repr((a, b))))
    for dt in (torch.float16, torch.bfloat16):
        for lg in ([0.0, 1.0, 2.0], [-4.0, 4.0, 4.0], [1024.0, 512.0, 0.0]):
            for a, b in itertools.product(params, repeat=2):
                rows = [(lg,) + a, (lg,) + b]

                def go():
                    out, seen = call(rows, None, dtype=dt)
                    st["transitions"] += 1
                    check_rows(rows, None, out, seen, st)
                attempt(viols, go, dict(rows=repr(rows), dtype=str(dt)))
    return finish(st, viols, "mixed")


def job_api():
    st, viols = stats(), {}
    vecs = []
    for v in itertools.product([0, 1, 2, 5], repeat=4):
        if sum(v):
            vecs.append([x / sum(v) for x in v])
    P = torch.tensor(vecs)
    Kl, Pl = [1, 2, 3, 4, 6], [0.0, 0.25, 0.5, 0.75, 1.0]

    def each(out, ps, cond):
        for i, q in enumerate(ps):
            must, may = cond(i)
            d = out[i].tolist()
            if abs(sum(d) - 1) > 1e-4:
                raise Violation("not-normalised", f"{q} filtered to {d}")
            judge(f"api row {q}", q, must, may, d)
            st["states"] += 1
    B = len(vecs)
    for k in Kl:
        attempt(viols, lambda: each(SA.top_k_renorm_probs(P.clone(), k), vecs, lambda i: support(vecs[i], k, 2.0)), dict(api="top_k", k=k))
    for p in Pl:
        attempt(viols, lambda: each(SA.top_p_renorm_probs(P.clone(), p), vecs, lambda i: support(vecs[i], 0, p)), dict(api="top_p", p=p))
    ks = torch.tensor([Kl[i % 5] for i in range(B)], dtype=torch.int32)
    ps = torch.tensor([Pl[i % 5] for i in range(B)])
    attempt(viols, lambda: each(SA.top_k_renorm_probs(P.clone(), ks), vecs, lambda i: support(vecs[i], Kl[i % 5], 2.0)), dict(api="top_k rows"))
    attempt(viols, lambda: each(SA.top_p_renorm_probs(P.clone(), ps), vecs, lambda i: support(vecs[i], 0, Pl[i % 5])), dict(api="top_p rows"))

    def masklog(k):
        L = torch.tensor(vecs) * 3 - 1
        out = SA.top_k_mask_logits(L.clone(), k)
        for i, v in enumerate(vecs):
            kk = k if isinstance(k, int) else int(k[i])
            kk = min(kk, 4)
            l = L[i].tolist(); kth = sorted(l, reverse=True)[kk - 1]
            for j in range(4):
                o = out[i, j].item()
                if (l[j] > kth and o != l[j]) or (l[j] < kth and o != NEG) or o not in (l[j], NEG):
                    raise Violation("mask", f"logits {l} top_k {kk} masked to {out[i].tolist()}")
            st["states"] += 1
    for k in Kl + [ks]:
        attempt(viols, lambda: masklog(k), dict(api="mask", k=str(k)[:20]))
    perm = torch.tensor([(7 * i + 3) % B for i in range(B)])
    few = torch.tensor([5, 5, 0, B - 1])
    for idx in (None, perm, few):
        sel = vecs if idx is None else [vecs[i] for i in idx.tolist()]
        n = len(sel)
        for name, f, cond in (
                ("top_k", lambda: SA.top_k_sampling_from_probs(P.clone(), ks[:n], indices=idx), lambda i: support(sel[i], Kl[i % 5], 2.0)),
                ("top_p", lambda: SA.top_p_sampling_from_probs(P.clone(), ps[:n], indices=idx), lambda i: support(sel[i], 0, Pl[i % 5])),
                ("both", lambda: SA.top_k_top_p_sampling_from_probs(P.clone(), ks[:n], ps[:n], indices=idx), lambda i: support(sel[i], Kl[i % 5], Pl[i % 5])),
                ("plain", lambda: SA.sampling_from_probs(P.clone(), indices=idx), lambda i: support(sel[i], 0, 2.0)),
                ("min_p", lambda: SA.min_p_sampling_from_probs(P.clone(), ps[:n], indices=idx), lambda i: minp(sel[i], Pl[i % 5])),
                ("min_p1", lambda: SA.min_p_sampling_from_probs(P.clone(), 0.4, indices=idx), lambda i: minp(sel[i], 0.4))):
            for pick in (0, 1, 2):
                def go():
                    with patched(Draw(lambda i, m: pick + i)) as d:
                        out = f().tolist()
                    st["transitions"] += 1
                    if len(out) != n:
                        raise Violation("wrong-count", f"{name}: {len(out)} samples for {n} rows")
                    for i, t in enumerate(out):
                        if t not in cond(i)[1]:
                            raise Violation("outside-support", f"{name}: row {sel[i]} gave {t}")
                    if d.seen and d.seen[-1].shape[0] == n:
                        each(d.seen[-1], sel, cond)
                attempt(viols, go, dict(api=name, indices=idx is not None))
    return finish(st, viols, "api")


def minp(q, mp):
    m = max(q)
    return {i for i, x in enumerate(q) if x > 0 and x > mp * m + 1e-6}, {i for i, x in enumerate(q) if x > 0 and x >= mp * m - 1e-6}


def job_spec(part):
    """exact distribution of speculative chain sampling: every outcome of every draw"""
    st, viols = stats(), {}
    D = [[0.5, 0.25, 0.25], [0.0, 0.5, 0.5], [1.0, 0.0, 0.0], [0.2, 0.2, 0.6]]

    class Tree:
        def __init__(self):
            self.script, self.pos, self.w = [], 0, 1.0
            self.todo = [[]]

        def choose(self, weights):
            """weights: list of branch probabilities; returns branch index"""
            live = [i for i, w in enumerate(weights) if w > 1e-9]
            if self.pos < len(self.script):
                c = self.script[self.pos]
            else:
                c = live[0]
                for o in live[1:]:
                    self.todo.append(self.script[:self.pos] + [o])
                self.script = self.script + [c]
            self.pos += 1
            self.w *= weights[c]
            return c

    def runs(f):
        t = Tree()
        while t.todo:
            t.script, t.pos, t.w = t.todo.pop(), 0, 1.0
            yield f(t), t.w
    GRID = 20   # a uniform draw is one of 20 midpoints; every probability used is a multiple of 1/20

    def one(tgt, dr, toks):
        n = len(toks)

        def f(t):
            def rand(*a, **k):
                return torch.tensor([(t.choose([1 / GRID] * GRID) + 0.5) / GRID])

            def multi(p, num_samples=1, generator=None, **k):
                r = p[0].tolist() if p.dim() == 2 else p.tolist()
                s = sum(r)
                if s <= 0 or math.isnan(s):
                    raise Violation("bad-distribution", f"the draw is given {r}")
                x = torch.tensor([[t.choose([v / s for v in r])]])
                return x if p.dim() == 2 else x[0]
            om, orr = torch.multinomial, torch.rand
            torch.multinomial, torch.rand = multi, rand
            try:
                o = SA.chain_speculative_sampling(torch.tensor([dr]), torch.tensor([toks]), torch.tensor([tgt]))
            finally:
                torch.multinomial, torch.rand = om, orr
            st["transitions"] += 1
            return [x.tolist() for x in o]
        dist = {}
        for (ids, acc, em), w in runs(f):
            ids, acc, em = ids[0], acc[0], em[0]
            k = next((i for i, x in enumerate(ids) if x < 0), len(ids))
            if any(x >= 0 for x in ids[k:]) or k == 0:
                raise Violation("spec-shape", f"output {ids}")
            if em + 1 != k or acc < em:
                raise Violation("spec-counts", f"output {ids} reports {em} emitted draft tokens, {acc} acceptable ones")
            if ids[:k - 1] != toks[:k - 1]:
                raise Violation("spec-prefix", f"output {ids} for drafts {toks}")
            dist[tuple(ids[:k])] = dist.get(tuple(ids[:k]), 0) + w
            st["states"] += 1
        return dist

    def first():
        # averaged over the drafts, the first token must follow the target distribution exactly
        for tgt, dr in itertools.product(D, D):
            for n in (1, 2) if part else (1, 2, 3):
                tot = [0.0] * 3
                for d0 in range(3):
                    if dr[d0] == 0:
                        continue
                    drafts, toks = ([dr, D[2], D[0]])[:n], [d0, 0, 1][:n]
                    for ids, w in one([tgt, D[2], D[0], D[3]][:n + 1], drafts, toks).items():
                        tot[ids[0]] += dr[d0] * w
                if any(abs(a - b) > 0.026 for a, b in zip(tot, tgt)):
                    raise Violation("spec-distribution", f"target {tgt}, draft {dr}: first token follows {tot}")
    attempt(viols, first, {})
    return finish(st, viols, "spec")


def job_serve(wl, kw, depth, states):
    import serve_h

    class SampleH(serve_h.ServeH):
        def __init__(self, cfg):
            super().__init__(cfg)
            self.rows = None
            self.runner.sample = self.on_sample
            inner = self.inner_forward
            self.outer = inner

            def wrapped(batch):
                self.rows = [m["rid"] for m in batch["requests"]]
                self.returned = None
                res = inner(batch)
                if self.returned is not None:
                    got = {o["rid"]: o["output_token_ids"][-1] if "output_token_ids" in o and o["output_token_ids"] else o.get("output_token_id") for o in res["outputs"]}
                    for i, r in enumerate(self.rows):
                        q = self.req.get(r)
                        if r in got and got[r] is not None and got[r] != self.returned[i]:
                            raise Violation("token-row", f"sampler chose {self.returned[i]} for {r}, the result says {got[r]}")
                        if q is not None:
                            q.setdefault("toks", []).append(self.returned[i])
                return res
            self.inner_forward = wrapped

        def __deepcopy__(self, memo):
            raise NotImplementedError

        def on_sample(self, lo, fb, temperatures=None, top_ps=None, top_ks=None, penalty_params=None, is_all_greedy=None, **k):
            sps = []
            for i, r in enumerate(self.rows):
                sp = self.req[r]["t"]["sp"]
                sps.append(sp)
                want = (sp.get("temperature", 1.0), sp.get("top_p", 1.0), sp.get("top_k", -1))
                have = (temperatures[i].item(), top_ps[i].item(), top_ks[i].item())
                if abs(want[0] - have[0]) > 1e-6 or abs(want[1] - have[1]) > 1e-6 or want[2] != have[2]:
                    raise Violation("param-row", f"{r}: asked for (temperature, top_p, top_k) {want}, sampled with {have}")
                pen = (sp.get("repetition_penalty", 1.0), sp.get("frequency_penalty", 0.0), sp.get("presence_penalty", 0.0))
                if penalty_params is None:
                    if pen != (1.0, 0.0, 0.0):
                        raise Violation("penalty-row", f"{r}: penalties {pen} not applied")
                else:
                    hp = tuple(penalty_params[n][i].item() for n in ("repetition_penalties", "frequency_penalties", "presence_penalties"))
                    if hp != pen:
                        raise Violation("penalty-row", f"{r}: asked for penalties {pen}, sampled with {hp}")
                    hist = list(self.req[r]["t"]["prompt"]) + self.req[r].get("toks", [])
                    if pen != (1.0, 0.0, 0.0) and sorted(penalty_params["token_histories"][i]) != sorted(hist):
                        raise Violation("history-row", f"{r}: history is {hist}, penalties use {penalty_params['token_histories'][i]}")
            if is_all_greedy and any(sp.get("temperature", 1.0) >= 1e-6 for sp in sps):
                raise Violation("param-row", "a sampled request is treated as greedy")
            # the stand-in logits name one token; the draw itself is covered elsewhere
            out = lo.next_token_logits.argmax(-1).to(torch.int32)
            self.returned = out.tolist()
            return out

    serve_h.FOCUS["P16"] = set()
    reqs = serve_h.workloads()[wl]
    SP = [dict(temperature=0.5, top_k=3, repetition_penalty=1.5), dict(temperature=0.0, frequency_penalty=0.5), dict(top_p=0.25, presence_penalty=1.0), dict(temperature=2.0, top_k=7, top_p=0.5)]
    reqs = [dict(t, sp={**{k: v for k, v in t["sp"].items() if k != "temperature"}, **SP[i]}) for i, t in enumerate(reqs)][:3]
    cfg = dict(focus="P16", pool=24, rows=4, reqs=reqs)
    cfg.update(kw)
    from vf.core import explore_replay
    return explore_replay(SampleH, cfg, depth)


def main():
    c = Check("P16", rule="all logit vectors x parameters (one row each), all small mixed batches x outcomes, all speculative draws, all submit/step orders, to the stated bounds",
              assumptions=["FlashInfer needs a GPU: the PyTorch kernels are what is explored"])
    T = c.thorough
    jobs = [("mixed3", job_mixed, dict(size=3, thorough=T)), ("mixed2", job_mixed, dict(size=2, thorough=T)), ("spec", job_spec, dict(part=0 if T else 1))]
    for wl in ("share", "turns", "abort", "short") + (("stream", "deep", "split") if T else ()):
        for name, kw in (("", {}), ("nocache", dict(cache=False)), ("page2", dict(page=2)), ("hybrid", dict(hybrid=True)), ("run2", dict(max_running=2))):
            jobs.append((f"serve-{wl}-{name}", job_serve, dict(wl=wl, kw=kw, depth=9 if T else 7, states=0)))
    for t in TEMPS:
        jobs.append((f"rows-{t}", job_rows, dict(vals=[-1.5, 0.0, 1.0, 2.0], temp=t, n=4)))
        jobs.append((f"rows-inf-{t}", job_rows, dict(vals=[NEG, -30.0, 0.0, 0.5, 40.0], temp=t, n=4 if T else 3)))
    if T:
        for t in TEMPS:
            jobs.append((f"rows5-{t}", job_rows, dict(vals=[-1.0, 0.0, 0.25, 3.0], temp=t, n=5)))
    jobs.append(("api", job_api, {}))
    c.run(jobs)
    c.finish()


if __name__ == "__main__":
    main()
