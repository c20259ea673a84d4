"""P19: what the served text models compute is the reference decoder's answer, for every way of batching it.

The real ModelRunner, pools, FlashInfer / hybrid / GDN attention backends, CUDA-graph runner and models run on tiny
configurations; FlashInfer's kernels and CUDA graphs, which need a GPU, are replaced by stand-ins with their documented
meaning (modelref_h).  Every sequence of batches up to a depth is explored: prefills of several requests in every order,
chunks, requests that start from another's cached prefix, decode batches in every order (eager or through graphs, padded),
requests that end and whose rows and slots are used again.  After every step each request's logits are those of a dense,
double-precision decoder written from the published definition, applied to that request's tokens alone.
"""
import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
import itertools
import torch
import modelref_h as M
from vf.core import Check, Violation, explore

TOK = [[1, 2, 3, 4, 5, 6, 7, 8], [1, 2, 3, 7, 2, 8, 5, 1], [6, 5, 8, 1, 3, 3, 2, 4], [7, 2, 4, 4, 6, 1, 5, 3]]     # 0 and 1 begin alike
SHARED = 3


# ---------------------------------------------------------------- snapshots of the runner
def reach(roots):
    seen, out, todo = set(), [], list(roots)
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, torch.Tensor):
            out.append(o)
        elif isinstance(o, (list, tuple)):
            out.append(o)
            todo.extend(o)
        elif isinstance(o, dict):
            out.append(o)
            todo.extend(o.values())
        elif isinstance(o, M.Wrapper) or type(o).__module__.startswith("pymllm") and not isinstance(o, (torch.nn.Module, type)) and type(o).__name__ not in ("ModelRunner", "CudaGraphRunner") and hasattr(o, "__dict__"):
            out.append(o)
            todo.extend(vars(o).values())
    return out


def save(roots):
    s = []
    for o in reach(roots):
        if isinstance(o, torch.Tensor):
            s.append((o, o.clone()))
        elif isinstance(o, list):
            s.append((o, list(o)))
        elif isinstance(o, dict):
            s.append((o, dict(o)))
        elif not isinstance(o, tuple):
            s.append((o, dict(vars(o))))
    return s


def restore(s):
    for o, v in s:
        if isinstance(o, torch.Tensor):
            o.copy_(v)
        elif isinstance(o, list):
            o[:] = v
        elif isinstance(o, dict):
            o.clear()
            o.update(v)
        else:
            vars(o).clear()
            vars(o).update(v)


class Shared:
    """One runner per process and configuration; the explored states are snapshots of it."""
    cache = {}

    def __init__(self, cfg):
        mk, wf, rf = dict(q3=(M.qwen3_cfg, M.qwen3_weights, M.qwen3_ref), q35=(M.qwen35_cfg, M.qwen35_weights, M.qwen35_ref))[cfg["model"]]
        hf = mk(**cfg["kw"])
        w = wf(hf, cfg.get("seed", 1), **cfg.get("wkw", {}))
        self.hybrid = cfg["model"] == "q35"
        self.r = M.make_runner(hf, w, cfg["slots"], cfg["rows"], 12, cfg["graphs"])
        r = self.r
        self.roots = [r.req_to_token_pool, r.token_to_kv_pool, r.token_to_kv_pool_allocator, r.gdn_pool, r.attn_backend]
        if r.graph_runner:
            self.roots.append(r.graph_runner.buffers)
        self.ref = [rf(hf, w, t) for t in TOK]
        self.capacity = r.token_to_kv_pool_allocator.available_size()
        self.first = save(self.roots)
        self.classes = {}
        self.owner = None

    @classmethod
    def get(cls, cfg):
        k = repr(cfg)
        if k not in cls.cache:
            cls.cache[k] = cls(cfg)
        return cls.cache[k]

    def klass(self, key, v):        # contents equal up to rounding are the same for the fingerprint
        l = self.classes.setdefault(key, [])
        for i, x in enumerate(l):
            if torch.allclose(x, v, rtol=1e-3, atol=1e-3, equal_nan=True):
                return i
        l.append(v.clone())
        return len(l) - 1


I = lambda x, d=torch.int32: torch.tensor(x, dtype=d)


class H:
    def __init__(self, cfg):
        self.cfg, self.S = cfg, Shared.get(cfg)
        self.n = cfg["reqs"]
        self.row, self.len, self.slots, self.used = [None] * self.n, [0] * self.n, [[] for _ in range(self.n)], {}
        self.track = None
        self.snap = self.S.first
        self.last = None

    def __deepcopy__(self, memo):
        h = object.__new__(type(self))
        h.__dict__.update(self.__dict__)
        h.row, h.len, h.slots, h.used = list(self.row), list(self.len), [list(s) for s in self.slots], dict(self.used)
        return h

    def actions(self):
        c, top, out = self.cfg, self.cfg["maxlen"], []
        live = [i for i in range(self.n) if self.row[i] is not None]
        ext = lambda i, n: self.len[i] + n <= top
        one = [(i, n) for i in range(self.n) for n in c["lens"] if ext(i, n)]
        out += [("ext", (x,)) for x in one]
        if 1 not in live and self.cfg["share"] and self.len[0] >= SHARED and (not self.S.hybrid or self.track is not None):
            out += [("share", n, o) for n in c["lens"] for o in (None, 2) if o is None or self.n > 2 and ext(2, 1)]
        out += [("dec", d) for k in range(1, len(live) + 1) for d in itertools.permutations([i for i in live if ext(i, 1)], k)]
        out += [("ext", (x, y)) for x in one for y in one if x[0] != y[0] and (c["wide"] or x[1] != y[1])]
        if self.n > 2:
            out += [("ext", tuple(zip(p, c["triple"]))) for p in (itertools.permutations(range(3)) if c["wide"] else ((0, 1, 2), (1, 2, 0), (2, 1, 0))) if all(ext(i, n) for i, n in zip(p, c["triple"]))]
        out += [("fin", i) for i in live]
        return out

    def apply(self, a):
        S = self.S
        if S.owner is not self.snap:
            restore(self.snap)
        S.owner = None
        with torch.no_grad():
            getattr(self, a[0])(*a[1:])
        self.snap = S.owner = save(S.roots)
        self.last = a[0]

    # -- what the model runner process does around the runner
    def new(self, i):
        r = self.S.r
        self.row[i] = r.req_to_token_pool.alloc(1)[0]
        if r.gdn_pool is not None:
            r.gdn_pool.reset_states(I([self.row[i]], torch.int64))

    def take(self, i, n):
        r = self.S.r
        s = r.token_to_kv_pool_allocator.alloc(n)
        r.req_to_token_pool.write((self.row[i], slice(self.len[i], self.len[i] + n)), s.to(torch.int32))
        for x in s.tolist():
            if x in self.used:
                raise Violation("slot:twice", f"slot {x} is given out while in use")
            self.used[x] = 1
        self.slots[i] += s.tolist()
        return s.to(torch.int64)

    def ext(self, parts):
        r = self.S.r
        rows, pre, ids, loc = [], [], [], []
        for i, n in parts:
            if self.row[i] is None:
                self.new(i)
            rows.append(self.row[i])
            pre.append(self.len[i])
            loc.append(self.take(i, n))
            ids += TOK[i][self.len[i]:self.len[i] + n]
            self.len[i] += n
        fb = r.prepare_forward_batch_extend(input_ids=I(ids), req_pool_indices=I(rows, torch.int64), seq_lens=I([self.len[i] for i, _ in parts]),
                                            extend_seq_lens=I([n for _, n in parts]), extend_prefix_lens=I(pre), out_cache_loc=torch.cat(loc))
        self.judge([i for i, _ in parts], r.forward(fb))
        for i, _ in parts:
            if i == 0 and self.len[0] == SHARED and self.S.hybrid and self.track is None and self.cfg["share"]:
                self.track = r.gdn_pool.alloc_track_slot()
                r.gdn_pool.copy_states(self.row[0], self.track)

    def share(self, n, other):
        r = self.S.r
        self.new(1)
        s = self.slots[0][:SHARED]
        r.req_to_token_pool.write((self.row[1], slice(0, SHARED)), I(s))
        for x in s:
            self.used[x] += 1
        self.slots[1] = list(s)
        self.len[1] = SHARED
        if self.S.hybrid:
            r.gdn_pool.copy_states(self.track, self.row[1])
        self.ext(((1, n),) + (((other, 1),) if other is not None else ()))

    def dec(self, who):
        r = self.S.r
        loc = torch.cat([self.take(i, 1) for i in who])
        ids = [TOK[i][self.len[i]] for i in who]
        for i in who:
            self.len[i] += 1
        lens = [self.len[i] for i in who]
        fb = r.prepare_forward_batch_decode(input_ids=I(ids), req_pool_indices=I([self.row[i] for i in who], torch.int64), seq_lens=I(lens), out_cache_loc=loc,
                                            mrope_position_deltas=I([0] * len(who), torch.int64), seq_lens_cpu_list=list(lens) if self.cfg["graphs"] else None)
        self.judge(who, r.forward(fb))

    def fin(self, i):
        r = self.S.r
        free = []
        for x in self.slots[i]:
            self.used[x] -= 1
            if not self.used[x]:
                del self.used[x]
                free.append(x)
        if free:
            r.token_to_kv_pool_allocator.free(I(free))
        r.req_to_token_pool.free(self.row[i])
        if i == 0 and self.track is not None:
            r.gdn_pool.free_track_slot(self.track)
            self.track = None
        self.row[i], self.len[i], self.slots[i] = None, 0, []

    def judge(self, who, out):
        lg = out.next_token_logits
        if tuple(lg.shape) != (len(who), self.S.ref[0].shape[1]):
            raise Violation("logits:shape", f"{tuple(lg.shape)} logits for {len(who)} requests")
        for j, i in enumerate(who):
            want = self.S.ref[i][self.len[i] - 1]
            d = (lg[j].double() - want).abs().max().item()
            if not d <= 1e-4 * (1 + want.abs().max().item()):
                raise Violation("logits:value", f"request {i} (place {j} of the batch) after {self.len[i]} tokens: logits {[round(x, 4) for x in lg[j].tolist()]}, "
                                f"the reference decoder gives {[round(x, 4) for x in want.tolist()]}")

    def check(self):
        pass

    def outcome(self):
        return (tuple(self.len), self.last)

    def fingerprint(self):
        S, r = self.S, self.S.r
        if S.owner is not self.snap:
            restore(self.snap)
            S.owner = self.snap
        kv = []
        for l in range(r.token_to_kv_pool.layer_num):
            k, v = r.token_to_kv_pool.get_kv_buffer(l)
            for i in range(self.n):
                if self.slots[i]:
                    s = torch.tensor(self.slots[i])
                    kv.append(S.klass(("kv", l, i, self.len[i]), torch.cat([k[s].flatten(), v[s].flatten()])))
        if r.gdn_pool is not None:
            g = r.gdn_pool
            for i in [x for x in range(self.n) if self.row[x] is not None]:
                kv.append(S.klass(("gdn", i, self.len[i]), torch.cat([g.recurrent_state[:, self.row[i]].flatten(), g.conv_state[:, self.row[i]].flatten().float()])))
        bufs = []
        if r.graph_runner:
            b = r.graph_runner.buffers
            bufs = [b.req_pool_indices.tolist(), b.seq_lens.tolist(), (b.out_cache_loc != 0).tolist()]
        # which slots of the pool are whose does not matter, only who shares them: the allocator has its own check (P03)
        return repr((self.row, self.len, [[self.used[x] for x in l] for l in self.slots], self.track, kv, list(r.req_to_token_pool._free_slots), bufs))


class H4(H):
    """Four requests: batches that fill a graph, followed by batches padded to it."""
    def actions(self):
        c, out = self.cfg, []
        live = [i for i in range(4) if self.row[i] is not None]
        left = self.S.capacity - len(self.used)          # few slots: what one request frees another gets at once
        if not live:
            return [("ext", tuple(zip(p, (1, 3, 2, 1)))) for p in ((0, 1, 2, 3), (3, 1, 0, 2))]
        out += [("dec", d) for k in (4, 3) if k <= left for x in itertools.combinations(live, k) for d in (x, x[::-1])]
        if len(live) == 4:
            out += [("fin", i) for i in live]
        return out + [("ext", ((i, n),)) for i in range(4) if self.row[i] is None for n in (1, 3) if n <= left]


def job(cfg, depth, max_states=10**9):
    return explore(H4 if cfg["reqs"] == 4 else H, cfg, depth, max_states=max_states)


# ---------------------------------------------------------------- the two ways of computing the gated delta rule over a prompt
def scans(lens, chunks, thorough):
    from pymllm.layers.attention import gdn_chunkwise as G
    sig = {}
    n = 0
    cases = 0
    fns = [f for f in ("gdn_extend_chunkwise_torch",) if hasattr(G, f)]
    for f in fns:
        for decay, HK, batch, C in itertools.product((-2.0, 0.0, 2.0, 4.0), ((1, 1), (1, 2), (2, 4)) if thorough else ((1, 2),),
                                                     [(a,) for a in lens] + [(a, b) for a in lens[:4] for b in lens[:6]] + [(1, lens[-1], 2), (lens[-1], 1, 3)], chunks):
            kh, vh = HK
            K, V, T = 4, 3, sum(batch)
            rg = M.Rng(n + 7)
            q, k, v, a, b = rg.t(T, kh, K), rg.t(T, kh, K), rg.t(T, vh, V), rg.t(T, vh, lo=-2, hi=2), rg.t(T, vh, lo=-2, hi=2)
            A, dt = rg.t(vh) + decay, rg.t(vh)
            rows = list(range(1, len(batch) + 1))[::-1]
            pool = rg.t(len(batch) + 3, vh, V, K).float()
            before = pool.clone()
            g, beta = -A.exp() * torch.nn.functional.softplus(a + dt), b.sigmoid()
            cu = torch.tensor([0] + list(itertools.accumulate(batch)), dtype=torch.int64)
            out = getattr(G, f)(q.float(), k.float(), v.float(), a.float(), b.float(), A.float(), dt.float(), pool, torch.tensor(rows, dtype=torch.int64), cu, chunk_size=C)
            n += 1
            cases += T
            what = f"{f}: requests of {batch} tokens, chunks of {C}, heads {HK}, log decays about {-2.718 ** decay:.1f}"
            for j, m in enumerate(batch):
                s = slice(int(cu[j]), int(cu[j]) + m)
                rep = lambda x: x[s].repeat_interleave(vh // kh, 1)
                want, S = M.delta_rule(rep(q), rep(k), v[s], g[s], beta[s], before[rows[j]].double())
                for nm, x, y in (("output", out[s].double().reshape(want.shape), want), ("state", pool[rows[j]].double(), S)):
                    d = (x - y).abs().max().item()
                    if not d <= 1e-4 * (1 + y.abs().max().item()):
                        sig.setdefault(f"scan:{nm}", f"{what}: request {j}'s {nm} is off by {d:.3g} (largest value {y.abs().max().item():.3g})")
                        break
            rest = [x for x in range(len(pool)) if x not in rows]
            if not torch.equal(pool[rest], before[rest]):
                sig.setdefault("scan:other", f"{what}: state of a request outside the batch changed")
    st = dict(states=n, transitions=cases, validated=n, samples=[f"{n} scans"])
    return st, [dict(sig=k, msg=v, cfg=None, hist=[]) for k, v in sig.items()]


def main():
    c = Check("P19", "the logits of every request in every batch, in every history of batches, are the reference decoder's on that request's tokens alone",
              ["FlashInfer's kernels and CUDA graphs are replaced by stand-ins with their documented meaning", "one tensor-parallel rank, float32, page size 1"])
    T = c.thorough
    base = dict(model="q3", reqs=3, slots=24, rows=4, maxlen=6, lens=[1, 3], triple=(1, 3, 1), share=True, graphs=False, wide=T)
    hy = dict(base, model="q35")
    q3 = [("gqa", dict(kw=dict(heads=2, kv=1))), ("mha-tied", dict(kw=dict(heads=2, kv=2, tie=True))), ("bias-graphs", dict(kw=dict(heads=4, kv=2, bias=True), graphs=True)),
          ("nested-graphs", dict(kw=dict(heads=2, kv=1, nested=True), graphs=True, rows=3))]
    q35 = [("plain", dict(kw=dict(tie=True))), ("untied-graphs", dict(kw=dict(), graphs=True)), ("types", dict(kw=dict(types_=["linear_attention", "attention", "attention"], layers=3, kh=2, vh=4, heads=4, kv=2, gate=False, tie=True))),
           ("decay-graphs", dict(kw=dict(tie=True, conv=3, rotary=1.0), wkw=dict(decay=3.0), graphs=True, rows=3))]
    jobs = []
    d = 4 if T else 3
    for n, k in q3:
        jobs.append((f"qwen3-{n}", job, dict(cfg=dict(base, **k), depth=d)))
    for n, k in q35:
        jobs.append((f"qwen3_5-{n}", job, dict(cfg=dict(hy, **k), depth=d)))
    two = dict(reqs=2, rows=3)
    for n, k, b in (("qwen3-two", dict(kw=dict(heads=2, kv=1), graphs=True), base), ("qwen3_5-two", dict(kw=dict(tie=True), graphs=True), hy)):
        jobs.append((n, job, dict(cfg=dict(b, **k, **two), depth=d + 2)))
    four = dict(reqs=4, rows=4, slots=11, graphs=True, share=False)
    for n, k, b in (("qwen3-four", dict(kw=dict(heads=2, kv=1, layers=1)), base), ("qwen3_5-four", dict(kw=dict(tie=True)), hy)):
        jobs.append((n, job, dict(cfg=dict(b, **k, **four), depth=5 if T else 4)))
    jobs.append(("scan", scans, dict(lens=list(range(1, 18 if T else 11)), chunks=[1, 2, 3, 4, 8, 16] if T else [1, 2, 4, 8], thorough=T)))
    c.run(jobs)
    c.finish()


if __name__ == "__main__":
    main()
