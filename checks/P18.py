"""P18: tensor-parallel layers compute what the layer without parallelism computes.

The real modules are imported once per simulated rank (their state lives in module globals); torch.distributed is replaced
by a lock-step stand-in that runs the ranks as threads, one at a time, and refuses what the real one refuses or hangs on
(groups that not every rank asks for in the same order, mismatched collectives, differing shapes, non-contiguous buffers).
Numbers are small integers, so that every sum is exact in any order.

 groups   every tp x dp x pp whose product is the world size: coordinates, groups, ranks in them, collectives over them
 linear   every tp x input size x output size x bias x gather/reduce x batch shape, and the column-row pair and the MLP
 embed    every tp x vocabulary x padding index x token id
 merged   every partition of the fused layer x every order of loading its shards x shards of the wrong size
 real     the same layers over torch.distributed's own gloo processes: the stand-in's answers are what it gives
"""
import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
import importlib, itertools, json, os, subprocess, tempfile, threading
import torch
import torch.nn.functional as F
import torch.distributed as real_dist
from vf.core import Check, Violation, VERIF

MODS = ("pymllm.orchestrator", "pymllm.layers")


class Stop(BaseException):
    pass


class World:
    """Runs one function per rank; a rank runs until it reaches a collective, which happens when all its members are there."""

    def __init__(self, n):
        self.n, self.cv = n, threading.Condition()
        self.wait, self.done, self.turn, self.res, self.err = {}, set(), 0, {}, None
        self.groups, self.made, self.calls = {}, {}, 0

    def run(self, f):
        ts = [threading.Thread(target=self._rank, args=(f, r), daemon=True) for r in range(self.n)]
        self.out = [None] * self.n
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if self.err:
            raise self.err
        return self.out

    def _rank(self, f, r):
        try:
            with self.cv:
                while self.turn != r and not self.err:
                    self.cv.wait()
                if self.err:
                    return
            self.out[r] = f(r)
        except Stop:
            pass
        except BaseException as e:
            with self.cv:
                self.err = self.err or e
                self.cv.notify_all()
        finally:
            with self.cv:
                self.done.add(r)
                self._next()

    def _next(self):          # the next rank that can run; complete what has all its members
        if self.err:
            self.cv.notify_all()
            return
        for r, (members, kind, arg, fn) in sorted(self.wait.items()):
            if any(m in self.done for m in members):
                self.err = Violation("collective:member-gone", f"rank {r} waits in {kind} for a rank that has finished: {sorted(members)}")
                break
            if not all(m in self.wait and self.wait[m][0] == members for m in members):
                continue
            ks = {self.wait[m][1] for m in members}
            if len(ks) > 1:
                self.err = Violation("collective:mismatch", f"the ranks {sorted(members)} are in {sorted(map(str, ks))} at the same time")
                break
            try:
                rs = fn([self.wait[m][2] for m in members])
            except Violation as e:
                self.err = e
                break
            for m, x in zip(members, rs):
                self.res[m] = x
            for m in members:
                del self.wait[m]
            self.calls += 1
            break
        free = [r for r in range(self.n) if r not in self.done and r not in self.wait]
        if not self.err and not free and len(self.done) < self.n:
            self.err = Violation("collective:deadlock", f"every rank waits: { {r: (sorted(w[0]), w[1]) for r, w in sorted(self.wait.items())} }")
        self.turn = free[0] if free else -1
        self.cv.notify_all()

    def meet(self, r, members, kind, arg, fn):
        with self.cv:
            self.wait[r] = (tuple(members), kind, arg, fn)
            self._next()
            while (self.turn != r or r in self.wait) and not self.err:
                self.cv.wait()
            if self.err:
                raise Stop()
            return self.res.pop(r)


def solid(ts, what, same=True):
    if any(not t.is_contiguous() for t in ts):
        raise Violation(f"{what}:contiguous", f"{what} is given a tensor that is not contiguous")
    if same and len({(tuple(t.shape), t.dtype) for t in ts}) > 1:
        raise Violation(f"{what}:shapes", f"{what} is given {[tuple(t.shape) for t in ts]}")


class Group:
    def __init__(self, w, ranks):
        self.w, self.ranks = w, tuple(ranks)


class Dist:
    """torch.distributed as one rank sees it."""

    def __init__(self, w, r):
        self.w, self.r, self.asked = w, r, 0

    def is_initialized(self):
        return True

    def get_rank(self, group=None):
        return self.r if group is None else group.ranks.index(self.r)

    def get_world_size(self, group=None):
        return self.w.n if group is None else len(group.ranks)

    def new_group(self, ranks=None, timeout=None, backend=None, pg_options=None, use_local_synchronization=False, **k):
        rs = tuple(sorted(ranks if ranks is not None else range(self.w.n)))
        if use_local_synchronization:
            if self.r not in rs:
                return None
            self.w.meet(self.r, rs, ("new_group", rs), None, lambda a: a)
        else:      # "requires that all processes in the main group enter this function, even if they are not going to be members"
            self.w.meet(self.r, range(self.w.n), ("new_group", rs), None, lambda a: a)
        return Group(self.w, rs) if self.r in rs else None

    def _grp(self, group):
        g = group or Group(self.w, range(self.w.n))
        if self.r not in g.ranks:
            raise Violation("collective:not-member", f"rank {self.r} uses the group {g.ranks}")
        return g

    def all_reduce(self, t, op=None, group=None, async_op=False):
        g = self._grp(group)

        def f(ts):
            solid(ts, "all_reduce")
            s = torch.stack([x.detach() for x in ts]).sum(0).to(ts[0].dtype)
            for x in ts:
                x.detach().copy_(s)
            return ts
        self.w.meet(self.r, g.ranks, "all_reduce", t, f)

    def all_gather_into_tensor(self, out, t, group=None, async_op=False):
        g = self._grp(group)

        def f(ts):
            solid([x[1] for x in ts], "all_gather")
            solid([x[0] for x in ts], "all_gather")
            c = torch.cat([x[1].detach().reshape(-1) for x in ts])
            for o, _ in ts:
                if o.numel() != c.numel():
                    raise Violation("all_gather:size", f"{tuple(o.shape)} for {len(ts)} times {tuple(ts[0][1].shape)}")
                o.detach().copy_(c.reshape(o.shape))
            return ts
        self.w.meet(self.r, g.ranks, "all_gather_into_tensor", (out, t), f)

    def all_gather(self, outs, t, group=None, async_op=False):
        g = self._grp(group)

        def f(ts):
            solid([x[1] for x in ts], "all_gather")
            for o, _ in ts:
                if len(o) != len(ts):
                    raise Violation("all_gather:size", "number of outputs")
                for a, (_, b) in zip(o, ts):
                    a.detach().copy_(b.detach())
            return ts
        self.w.meet(self.r, g.ranks, "all_gather", (outs, t), f)

    def broadcast(self, t, src=None, group=None, async_op=False, group_src=None):
        g = self._grp(group)
        s = src if src is not None else g.ranks[group_src]
        if s not in g.ranks:
            raise Violation("broadcast:source", f"broadcast from rank {s} in the group {g.ranks}")

        def f(ts):
            solid(ts, "broadcast")
            v = ts[list(g.ranks).index(s)].detach().clone()
            for x in ts:
                x.detach().copy_(v)
            return ts
        self.w.meet(self.r, g.ranks, ("broadcast", s), t, f)


class Rank:
    """The modules of one rank."""

    def __init__(self):
        keep = {k: v for k, v in sys.modules.items() if k.startswith("pymllm")}
        for k in keep:
            del sys.modules[k]
        try:
            self.gc = importlib.import_module("pymllm.orchestrator.group_coordinator")
            self.ps = importlib.import_module("pymllm.orchestrator.parallel_state")
            self.lin = importlib.import_module("pymllm.layers.linear")
            self.emb = importlib.import_module("pymllm.layers.embedding")
            self.mlp = importlib.import_module("pymllm.layers.mlp")
        finally:
            for k in [k for k in sys.modules if k.startswith("pymllm")]:
                del sys.modules[k]
            sys.modules.update(keep)
        act = lambda f: lambda x, enable_pdl=None: f(x[..., :x.shape[-1] // 2]) * x[..., x.shape[-1] // 2:]
        self.mlp._ACTIVATION_MAP = {"silu": act(lambda v: v * v), "gelu": act(lambda v: v + 1), "gelu_tanh": act(torch.neg)}   # exact in integers
        self.fresh = {k: v for k, v in vars(self.ps).items() if k.startswith("_") and k[1:].isupper() or k.startswith(("_TP", "_DP", "_PP"))}

    def join(self, w, r, tp, dp=1, pp=1):
        vars(self.ps).update(self.fresh)
        d = Dist(w, r)
        self.gc.dist = self.ps.dist = d
        self.ps.initialize_model_parallel(tp, dp, pp, backend="gloo")


POOL = []


def rank(r):
    while len(POOL) <= r:
        POOL.append(Rank())
    return POOL[r]


class Sweep:
    def __init__(self):
        self.st = dict(states=0, transitions=0, validated=0, depth_done=1, exhaustive=True, actions_seen={}, samples=[])
        self.v = {}

    def one(self, group, what, f):
        if len(self.v) >= 4:
            self.st["exhaustive"] = False
            return
        self.st["states"] += 1
        self.st["actions_seen"][group] = self.st["actions_seen"].get(group, 0) + 1
        if len(self.st["samples"]) < 3 and self.st["states"] % 97 == 1:
            self.st["samples"].append([what])
        try:
            n = f()
            self.st["transitions"] += n if isinstance(n, int) else 1
            self.st["validated"] += 1
        except Violation as e:
            self.v.setdefault(f"{group}:{e.sig}", dict(sig=f"{group}:{e.sig}", msg=f"{what}: {e.msg}", cfg=group, hist=[what]))
        except Exception as e:
            s = f"{group}:exception:{type(e).__name__}"
            self.v.setdefault(s, dict(sig=s, msg=f"{what}: {type(e).__name__}: {e}", cfg=group, hist=[what]))

    def result(self):
        self.st["transitions"] = max(1, self.st["transitions"])
        return self.st, list(self.v.values())


def ints(shape, seed, dtype=torch.float32):
    n = 1
    for s in shape:
        n *= s
    return ((torch.arange(n) * 7919 + seed * 31) % 11 - 5).reshape(shape).to(dtype)


def same(got, want, what):
    if tuple(got.shape) != tuple(want.shape):
        raise Violation(f"{what}:shape", f"{what}: shape {tuple(got.shape)} instead of {tuple(want.shape)}")
    if not torch.equal(got.detach(), want):
        raise Violation(f"{what}:value", f"{what}: {got.tolist()} instead of {want.tolist()}")


def refuse(f, what, kinds=(ValueError, AssertionError, RuntimeError, IndexError)):
    try:
        f()
    except kinds:
        return
    raise Violation(f"{what}:accepted", f"{what} was accepted")


# ------------------------------------------------------------------------------------------------ groups
def groups(limit):
    S = Sweep()
    for n in range(1, limit + 1):
        for tp, dp, pp in itertools.product(range(1, n + 1), repeat=3):
            if tp * dp * pp == n:
                S.one("groups", f"tp {tp} dp {dp} pp {pp}", lambda: check_groups(n, tp, dp, pp))
            elif n <= 4 and max(tp, dp, pp) <= 4:
                def bad():
                    def f(r):
                        refuse(lambda: rank(r).join(w, r, tp, dp, pp), f"tp {tp} dp {dp} pp {pp} in a world of {n}")
                    w = World(n)
                    w.run(f)
                S.one("groups-refused", f"tp {tp} dp {dp} pp {pp} in a world of {n}", bad)
    return S.result()


def check_groups(n, tp, dp, pp):
    w = World(n)

    def f(r):
        R = rank(r)
        R.join(w, r, tp, dp, pp)
        ps = R.ps
        co = (ps.get_tensor_model_parallel_rank(), ps.get_data_parallel_rank(), ps.get_pipeline_model_parallel_rank())
        sz = (ps.get_tensor_model_parallel_world_size(), ps.get_data_parallel_world_size(), ps.get_pipeline_model_parallel_world_size())
        gs = [g() for g in (ps.get_tp_group, ps.get_dp_group, ps.get_pp_group)]
        seen = []
        for g in gs:
            if g is None:
                seen.append(None)
                continue
            t = torch.tensor([float(1 << r)])
            g.all_reduce(t)
            rows = torch.tensor([[r, r + 100], [r + 200, r + 300]])
            one = [g.all_gather(rows.clone(), dim=d) for d in (0, 1, -1, -2)]
            bc = [int(g.broadcast(torch.tensor([r]), src=k)[0]) for k in range(g.world_size)]
            seen.append((t.item(), [x.tolist() for x in one], bc, g.rank_in_group))
        x = torch.tensor([float(1 << r)])
        hs = (ps.tensor_model_parallel_all_reduce(x.clone()).item(), ps.data_parallel_all_reduce(x.clone()).item(),
              ps.tensor_model_parallel_all_gather(torch.tensor([r])).tolist(), ps.tensor_model_parallel_all_gather(torch.tensor([[r]]), dim=-1).tolist())
        return co, sz, seen, hs
    out = w.run(f)
    if len({o[0] for o in out}) != n:
        raise Violation("coordinates", f"two ranks have the same coordinates: {[o[0] for o in out]}")
    for r, (co, sz, seen, hs) in enumerate(out):
        if sz != (tp, dp, pp):
            raise Violation("sizes", f"rank {r} sees the sizes {sz}")
        for k, size in enumerate((tp, dp, pp)):
            mates = sorted((o[0][k], q) for q, o in enumerate(out) if all(o[0][j] == co[j] for j in range(3) if j != k))
            ids = [q for _, q in mates]
            if len(ids) != size or [c for c, _ in mates] != list(range(size)):
                raise Violation("partition", f"rank {r}: kind {k} has the members {ids}")
            if size == 1:
                if seen[k] is not None and seen[k][0] != float(1 << r):
                    raise Violation("alone", f"rank {r}: a group of one communicates")
                continue
            if seen[k] is None:
                raise Violation("no-group", f"rank {r} has no group of kind {k}")
            s, gathered, bc, me = seen[k]
            if s != sum(float(1 << q) for q in ids):
                raise Violation("all-reduce", f"rank {r}: the sum over kind {k} covers {s} instead of the ranks {ids}")
            rows = [torch.tensor([[q, q + 100], [q + 200, q + 300]]) for q in ids]
            for d, g in zip((0, 1, -1, -2), gathered):
                if g != torch.cat(rows, dim=d).tolist():
                    raise Violation("all-gather", f"rank {r}: gathering kind {k} along {d} gives {g}")
            if bc != ids or me != co[k]:
                raise Violation("broadcast", f"rank {r}: broadcasts of kind {k} come from {bc} instead of {ids}")
        ids = [q for q, o in enumerate(out) if o[0][1:] == co[1:]]
        ids.sort(key=lambda q: out[q][0][0])
        if hs[0] != sum(float(1 << q) for q in ids) or hs[2] != ids or hs[3] != [ids]:
            raise Violation("helpers", f"rank {r}: the helpers of the tensor-parallel group give {hs}")
        if hs[1] != sum(float(1 << q) for q, o in enumerate(out) if (o[0][0], o[0][2]) == (co[0], co[2])):
            raise Violation("helpers", f"rank {r}: the helper of the data-parallel group gives {hs}")
    return w.calls


def splits(limit):
    S = Sweep()
    R = rank(0)
    for a in range(0, 13):
        for b in range(1, 7):
            def f():
                if a % b:
                    refuse(lambda: R.gc.divide(a, b), "a division with a remainder")
                elif R.gc.divide(a, b) != a // b:
                    raise Violation("divide", f"{a}/{b}")
            S.one("divide", f"{a}/{b}", f)
    for shape in [(4,), (6, 2), (2, 6), (2, 4, 3), (1, 2, 2, 4)]:
        for dim in range(-len(shape), len(shape)):
            for n in range(1, 7):
                def f():
                    t = ints(shape, 1)
                    if shape[dim] % n:
                        return refuse(lambda: R.gc.split_tensor_along_dim(t, dim, n, 0), "a split with a remainder")
                    ps = [R.gc.split_tensor_along_dim(t, dim, n, r) for r in range(n)]
                    same(torch.cat(ps, dim=dim), t, "parts")
                    if len({tuple(p.shape) for p in ps}) > 1:
                        raise Violation("parts", "parts of different sizes")
                S.one("split", f"{shape} along {dim} in {n}", f)
    return S.result()


# ------------------------------------------------------------------------------------------------ layers
BATCH = [(2,), (1, 2), (0,), ()]


def world(tp, f, dp=1):
    w = World(tp * dp)

    def g(r):
        R = rank(r)
        R.join(w, r, tp, dp, 1)
        return f(R, r)
    out = w.run(g)
    return out, w.calls


def fill(layer, full):
    """Loads every parameter from the tensor of the whole model, as a checkpoint would."""
    for n, p in layer.named_parameters():
        p.data.fill_(float("nan"))
        p.weight_loader(p, full[n])
    for n, p in layer.named_parameters():
        if torch.isnan(p.data).any():
            raise Violation("not-loaded", f"{n} has elements that were never loaded")


def linear(tps, sizes, kinds):
    S = Sweep()
    for tp, i, o, bias in itertools.product(tps, sizes, sizes, (True, False)):
        W, B = ints((o, i), 1), ints((o,), 2)
        full = dict(weight=W, bias=B)
        ref = lambda x: F.linear(x, W, B if bias else None)
        for bs in BATCH:
            x = ints((*bs, i), 5)
            if "column" in kinds:
                for gather in (True, False):
                    def f():
                        if o % tp:
                            return refuse(lambda: world(tp, lambda R, r: R.lin.ColumnParallelLinear(i, o, bias=bias, gather_output=gather)), "an output that cannot be divided")

                        def g(R, r):
                            l = R.lin.ColumnParallelLinear(i, o, bias=bias, gather_output=gather)
                            fill(l, full)
                            y = x.clone()
                            return l(y), y
                        out, n = world(tp, g)
                        for r, (y, xx) in enumerate(out):
                            same(y, ref(x) if gather else ref(x)[..., r * o // tp:(r + 1) * o // tp], f"rank {r}")
                            same(xx, x, "input")
                        return n
                    S.one("column", f"tp {tp} {i}->{o} bias {bias} gather {gather} batch {bs}", f)
            if "row" in kinds:
                for reduce in (True, False):
                    def f():
                        if i % tp:
                            return refuse(lambda: world(tp, lambda R, r: R.lin.RowParallelLinear(i, o, bias=bias, reduce_output=reduce)), "an input that cannot be divided")

                        def g(R, r):
                            l = R.lin.RowParallelLinear(i, o, bias=bias, reduce_output=reduce)
                            fill(l, full)
                            y = x[..., r * i // tp:(r + 1) * i // tp].clone()
                            return l(y), y
                        out, n = world(tp, g)
                        for r, (y, xx) in enumerate(out):
                            part = x[..., r * i // tp:(r + 1) * i // tp]
                            if reduce:
                                same(y, ref(x), f"rank {r}")
                            else:
                                same(y, F.linear(part, W[:, r * i // tp:(r + 1) * i // tp]) + (B if bias else 0), f"rank {r}")
                            same(xx, part, "input")
                        return n
                    S.one("row", f"tp {tp} {i}->{o} bias {bias} reduce {reduce} batch {bs}", f)
        if "wrong" in kinds:
            for dw in ((1, 0), (0, 1), (-1, 0), (0, -1)):
                def f():
                    bad = ints((max(0, o + dw[0]), max(0, i + dw[1])), 3)

                    def g(R, r):
                        for l in ([R.lin.ColumnParallelLinear(i, o, bias=bias)] if o % tp == 0 else []) + ([R.lin.RowParallelLinear(i, o, bias=bias)] if i % tp == 0 else []):
                            name = type(l).__name__
                            d = 0 if name.startswith("Col") else 1
                            if dw[d] > 0 and tp > 1:
                                continue      # a longer tensor than the sharded dimension needs: padding, not checked here
                            if bad.shape == (o, i):
                                continue
                            if tp > 1 and dw[d] < 0 and r < tp - 1:
                                continue      # the shards before the last are there
                            refuse(lambda: l.weight_loader(l.weight, bad), f"a weight of shape {tuple(bad.shape)} for {name} {i}->{o}")
                    return world(tp, g)[1]
                S.one("wrong-shape", f"tp {tp} {i}->{o} off by {dw}", f)
    return S.result()


def mlps(tps):
    S = Sweep()
    for tp, h, m, bg, bd, act in itertools.product(tps, (1, 3), (1, 2, 4, 6, 8), (False, True), (False, True), ("silu", "gelu", "gelu_tanh")):
        full = dict(zip(("gate_proj.weight", "up_proj.weight", "down_proj.weight", "gate_proj.bias", "up_proj.bias", "down_proj.bias"),
                        (ints((m, h), 1), ints((m, h), 2), ints((h, m), 3), ints((m,), 4), ints((m,), 5), ints((h,), 6))))
        fused = {"gate_up_proj.weight": torch.cat([full["gate_proj.weight"], full["up_proj.weight"]]), "gate_up_proj.bias": torch.cat([full["gate_proj.bias"], full["up_proj.bias"]]), **full}

        def ref(x):
            g, u = F.linear(x, full["gate_proj.weight"], full["gate_proj.bias"] if bg else None), F.linear(x, full["up_proj.weight"], full["up_proj.bias"] if bg else None)
            a = g * g if act == "silu" else g + 1 if act == "gelu" else -g
            return F.linear(a * u, full["down_proj.weight"], full["down_proj.bias"] if bd else None)
        for bs in ((2,), (1, 2)):
            x = ints((*bs, h), 7)

            def f():
                if m % tp:
                    return refuse(lambda: world(tp, lambda R, r: R.mlp.ParallelMLP(h, m, act, bg, bd)), "a size that cannot be divided")

                def g(R, r):
                    l = R.mlp.ParallelMLP(h, m, act, bg, bd)
                    fill(l, full)
                    return l(x.clone())
                out, n = world(tp, g)
                for r, y in enumerate(out):
                    same(y, ref(x), f"rank {r}")
                return n
            S.one("parallel-mlp", f"tp {tp} {h}-{m} biases {bg} {bd} {act} batch {bs}", f)
            if tp == 1:
                for fu in (True, False):
                    def f():
                        l = rank(0).mlp.MLP(h, m, act, use_fused_gate_up_proj=fu, use_bias_gate_up=bg, use_bias_down=bd)
                        fill(l, fused if fu else full)
                        same(l(x.clone()), ref(x), "output")
                        refuse(lambda: l(ints((*bs, h + 1), 1)), "an input of the wrong size")
                    S.one("mlp", f"fused {fu} {h}-{m} biases {bg} {bd} {act} batch {bs}", f)
    return S.result()


def pairs(tps):
    S = Sweep()
    for tp, i, m, o, b1, b2 in itertools.product(tps, (1, 3), (2, 4, 6), (1, 2), (True, False), (True, False)):
        if m % tp:
            continue
        W1, B1, W2, B2 = ints((m, i), 1), ints((m,), 2), ints((o, m), 3), ints((o,), 4)
        for dp in (1, 2):
            def f():
                def g(R, r):
                    a, b = R.lin.ColumnParallelLinear(i, m, bias=b1, gather_output=False), R.lin.RowParallelLinear(m, o, bias=b2)
                    fill(a, dict(weight=W1, bias=B1)); fill(b, dict(weight=W2, bias=B2))
                    xs = [ints((2, i), 10 + k + 100 * R.ps.get_data_parallel_rank()) for k in range(2)]
                    return [(x, b(a(x.clone()))) for x in xs]
                out, n = world(tp, g, dp)
                for r, o_ in enumerate(out):
                    for x, y in o_:
                        same(y, F.linear(F.linear(x, W1, B1 if b1 else None), W2, B2 if b2 else None), f"rank {r}")
                return n
            S.one("column-row", f"tp {tp} dp {dp} {i}-{m}-{o} biases {b1} {b2}", f)
    return S.result()


def embed(tps, vmax):
    S = Sweep()
    for tp, v, d in itertools.product(tps, range(1, vmax + 1), (1, 2)):
        W = ints((v, d), 3) + torch.arange(v).float()[:, None] * 100 + 7
        for pad in (None, *range(v)):
            def f():
                if v % tp:
                    return refuse(lambda: world(tp, lambda R, r: R.emb.VocabParallelEmbedding(v, d, pad)), "a vocabulary that cannot be divided")

                def g(R, r):
                    l = R.emb.VocabParallelEmbedding(v, d, pad)
                    fill(l, dict(weight=W))
                    if tp > 1:
                        refuse(lambda: l.weight_loader(l.weight, W[:-1]), "a table with a row missing")
                    refuse(lambda: l.weight_loader(l.weight, torch.cat([W, W], 1)), "a table with too many columns")
                    ys = []
                    for x in (torch.arange(v), torch.arange(v).flip(0).reshape(1, v), torch.tensor(v - 1), torch.zeros(0, dtype=torch.long), torch.arange(v).int()):
                        k = x.clone()
                        ys.append((x, l(k)))
                        same(k, x, "input")
                    return ys
                out, n = world(tp, g)
                for r, ys in enumerate(out):
                    for x, y in ys:
                        same(y, W[x.long()], f"rank {r}")
                return n
            S.one("embed", f"tp {tp} vocabulary {v} x {d} padding {pad}", f)
    return S.result()


def merged(mx, k):
    S = Sweep()
    L = rank(0).lin
    rank(0).join(World(1), 0, 1)
    for n in range(1, k + 1):
        for parts in itertools.product(range(1, mx + 1), repeat=n):
            for i, bias in ((1, True), (3, False)):
                ws = [ints((p, i), 10 + j) for j, p in enumerate(parts)]
                bs = [ints((p,), 20 + j) for j, p in enumerate(parts)]
                ids = [list(range(n))] + ([["q", "k", "v"]] if n == 3 and parts[1] == parts[2] else [])
                off = [sum(parts[:j]) for j in range(n)]
                for names in ids:
                    for order in itertools.permutations(range(n)):
                        def f():
                            l = L.MergedLinear(i, list(parts), bias=bias)
                            for p in l.parameters():
                                p.data.fill_(float("nan"))
                            for step, j in enumerate(order):
                                for nm, src in (("weight", ws), ("bias", bs)):
                                    p = getattr(l, nm)
                                    if p is None:
                                        continue
                                    p.weight_loader(p, src[j].clone(), names[j])
                                    for q in range(n):
                                        got = p.data[off[q]:off[q] + parts[q]]
                                        if q in order[:step + 1]:
                                            same(got, src[q], f"shard {names[q]} of {nm}")
                                        elif not torch.isnan(got).all():
                                            raise Violation("other-shard", f"loading {names[j]} wrote into {names[q]}")
                            x = ints((2, i), 9)
                            same(l(x), F.linear(x, torch.cat(ws), torch.cat(bs) if bias else None), "output")
                            g = L.MergedLinear(i, list(parts), bias=bias)
                            fill(g, dict(weight=torch.cat(ws), bias=torch.cat(bs)))
                            same(g(x), l(x), "loaded whole")
                        S.one("merged", f"parts {parts} inputs {i} bias {bias} ids {names} order {order}", f)
                    for j in range(n):
                        for d in (-1, 1):
                            if names[0] == "q" or parts[j] + d < 1:
                                continue

                            def f():
                                l = L.MergedLinear(i, list(parts), bias=bias)
                                refuse(lambda: l.weight.weight_loader(l.weight, ints((parts[j] + d, i), 1), names[j]), f"a shard of {parts[j] + d} rows for one of {parts[j]}")
                            S.one("merged-wrong", f"parts {parts} shard {names[j]} off by {d}", f)
                        def f():
                            l = L.MergedLinear(i, list(parts), bias=bias)
                            refuse(lambda: l.weight.weight_loader(l.weight, ints((parts[j], i + 1), 1), names[j]), "a shard with too many columns")
                            refuse(lambda: l.weight.weight_loader(l.weight, ws[j], n), "a shard that does not exist")
                            refuse(lambda: l.weight.weight_loader(l.weight, ws[j], -1), "a shard that does not exist")
                            refuse(lambda: l.weight.weight_loader(l.weight, ws[j], "o"), "a shard that does not exist")
                        S.one("merged-wrong", f"parts {parts} shard {names[j]}", f)
    for parts in ([], [0], [2, 0], [-1, 3]):
        S.one("merged-refused", str(parts), lambda: refuse(lambda: L.MergedLinear(2, parts), f"partitions {parts}"))
    return S.result()


# ------------------------------------------------------------------------------------------------ conformance of the stand-in
REAL = r"""
import sys, json, os
sys.path.insert(0, sys.argv[5]); sys.path.insert(0, sys.argv[6])
import torch, torch.distributed as dist
torch.set_num_threads(1)
r, n, store, tp = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], int(sys.argv[4])
import datetime
dist.init_process_group("gloo", init_method="file://" + store, rank=r, world_size=n, timeout=datetime.timedelta(seconds=60))
import P18
R = P18.Rank.__new__(P18.Rank)
import pymllm.orchestrator.parallel_state as ps, pymllm.layers.linear as lin, pymllm.layers.embedding as emb
ps.initialize_model_parallel(tp, n // tp, 1, backend="gloo")
out = []
for i, o in ((4, 4), (4, 8)):
    W, B, x = P18.ints((o, i), 1), P18.ints((o,), 2), P18.ints((2, i), 5)
    a, b = lin.ColumnParallelLinear(i, o), lin.RowParallelLinear(i, o)
    P18.fill(a, dict(weight=W, bias=B)); P18.fill(b, dict(weight=W, bias=B))
    k = ps.get_tensor_model_parallel_rank()
    out += [a(x).tolist(), b(x[:, k * i // tp:(k + 1) * i // tp]).tolist()]
e = emb.VocabParallelEmbedding(8, 2); P18.fill(e, dict(weight=P18.ints((8, 2), 3)))
out.append(e(torch.arange(8)).tolist())
out.append(ps.data_parallel_all_reduce(torch.tensor([float(1 << r)])).tolist())
print("OUT " + json.dumps(out))
"""


def conform(n, tp):
    """The same layers over real processes and over the stand-in."""
    from vf.core import REPO
    S = Sweep()

    def f():
        with tempfile.TemporaryDirectory(prefix="vf-p18-") as t:
            ps = [subprocess.Popen([sys.executable, "-c", REAL, str(r), str(n), f"{t}/store", str(tp), os.path.dirname(os.path.abspath(__file__)), str(VERIF)],
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(os.environ, PYTHONPATH=f"{REPO}:{REPO}/mllm-kernel:" + os.environ.get("PYTHONPATH", ""))) for r in range(n)]
            try:
                outs = [p.communicate(timeout=240) for p in ps]
            except subprocess.TimeoutExpired:
                raise Violation("hang", f"the real processes (world {n}, tp {tp}) do not finish")
            finally:
                for p in ps:
                    p.kill()
        real = []
        for o, e in outs:
            ls = [l for l in o.splitlines() if l.startswith("OUT ")]
            if not ls:
                raise Violation("real-failed", f"a real process (world {n}, tp {tp}) failed: {e[-800:]}")
            real.append(json.loads(ls[0][4:]))

        def g(R, r):
            out = []
            for i, o in ((4, 4), (4, 8)):
                W, B, x = ints((o, i), 1), ints((o,), 2), ints((2, i), 5)
                a, b = R.lin.ColumnParallelLinear(i, o), R.lin.RowParallelLinear(i, o)
                fill(a, dict(weight=W, bias=B)); fill(b, dict(weight=W, bias=B))
                k = R.ps.get_tensor_model_parallel_rank()
                out += [a(x).tolist(), b(x[:, k * i // tp:(k + 1) * i // tp]).tolist()]
            e = R.emb.VocabParallelEmbedding(8, 2); fill(e, dict(weight=ints((8, 2), 3)))
            out.append(e(torch.arange(8)).tolist())
            out.append(R.ps.data_parallel_all_reduce(torch.tensor([float(1 << r)])).tolist())
            return out
        mine, _ = world(tp, g, n // tp)
        if mine != real:
            raise Violation("stand-in", f"world {n} tp {tp}: the real processes give {real}, the stand-in {mine}")
    S.one("real", f"world {n} tp {tp}", f)
    return S.result()


def main():
    c = Check("P18", "every factorisation of the world size into tensor, data and pipeline parallelism; every layer size, bias, gathering, batch shape, vocabulary, padding "
              "index and token to the bound, on every rank, in lock step; every partition of a fused layer x every order of loading x wrong shards",
              ["collectives deliver as torch.distributed documents (compared with real gloo processes on a few worlds)", "layers without quantisation",
               "the gated activation kernels (GPU) are replaced by exact integer functions"])
    t = c.thorough
    J = [("groups", groups, dict(limit=12 if t else 8)), ("splits", splits, dict(limit=0)), ("merged", merged, dict(mx=3, k=4 if t else 3)),
         ("embed", embed, dict(tps=(1, 2, 3, 4), vmax=12 if t else 8)), ("mlp", mlps, dict(tps=(1, 2, 4) if not t else (1, 2, 3, 4, 8))), ("pairs", pairs, dict(tps=(1, 2, 3)))]
    for tp in (1, 2, 3, 4) if not t else (1, 2, 3, 4, 6, 8):
        J.append((f"linear-{tp}", linear, dict(tps=(tp,), sizes=(1, 2, 3, 4, 6, 8) if not t else (1, 2, 3, 4, 6, 8, 12), kinds=("column", "row", "wrong"))))
    for n, tp in ((1, 1), (2, 2), (4, 2)):
        J.append((f"real-{n}-{tp}", conform, dict(n=n, tp=tp)))
    c.run(J)
    c.finish()


if __name__ == "__main__":
    main()
