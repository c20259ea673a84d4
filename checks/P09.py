"""P09: slot allocators never hand out a slot that is in use."""
import itertools
import torch
from vf.core import Check, Violation, canon, explore, guarded
from pymllm.mem_cache.memory_pool import (TokenToKVPoolAllocator, ReqToTokenPool, GDNPool, KVPool,
                                          make_full_attention_net_mem_pool, make_req_to_token_pool)


class AllocH:
    """Token-slot allocator; reference = set of free pages."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.ps = cfg["page"]
        self.pool, self.a = make_full_attention_net_mem_pool(
            size=cfg["size"], layer_num=1, k_head_num=1, k_head_dim=1, v_head_num=1, v_head_dim=1, device="cpu",
            dtype=torch.float32, page_size=self.ps, need_sort=cfg["sort"], pin_memory=False)
        self.npages = cfg["size"] // self.ps
        self.chunks = []          # live allocations: lists of token slots
        self.pending = []         # slots freed inside an open group
        self.group = False
        self.last = None

    def live(self):
        return [s for c in self.chunks for s in c]

    def free_pages(self):
        used = {s // self.ps for s in self.live()} | {s // self.ps for s in self.pending}
        return self.npages - len(used)

    def actions(self):
        acts = [("alloc", n) for n in self.cfg["ns"]]
        for i, c in enumerate(self.chunks):
            acts.append(("free", i, 0, len(c)))
            if len(c) > 2:
                acts.append(("free_shuffled", i))
            cut = self.ps * ((len(c) // self.ps + 1) // 2)
            if 0 < cut < len(c):
                acts.append(("free", i, 0, cut))
                acts.append(("free", i, cut, len(c)))
        if not self.group:
            acts.append(("begin",))
        acts.append(("end",))
        acts.append(("free_empty",))
        acts.append(("clear",))
        return acts

    def apply(self, a):
        op = a[0]
        if op == "alloc":
            n = a[1]
            need = -(-n // self.ps)
            avail = self.free_pages()
            before = self.a.available_size()
            r = self.a.alloc(n)
            if r is None:
                if need <= avail:
                    raise Violation("alloc-refused", f"alloc({n}) refused with {avail} pages free")
                if self.a.available_size() != before:
                    raise Violation("failed-alloc-changed-state", "a failed alloc changed available_size")
            else:
                r = [int(x) for x in r.tolist()]
                if need > avail:
                    raise Violation("alloc-overcommit", f"alloc({n}) gave {r} with only {avail} pages free")
                if len(r) != n:
                    raise Violation("alloc-wrong-count", f"alloc({n}) returned {len(r)} slots")
                taken = set(self.live()) | set(self.pending)
                tp = {s // self.ps for s in taken}
                if len(set(r)) != len(r):
                    raise Violation("alloc-duplicate", f"alloc returned duplicates {r}")
                for s in r:
                    if s in taken or s // self.ps in tp:
                        raise Violation("alloc-in-use", f"alloc({n}) returned {s} which is in use; live={sorted(taken)}")
                    if s < 1:
                        raise Violation("alloc-padding", "padding slot 0 handed out")
                    if s >= self.pool.k_buffer[0].shape[0] or (self.ps == 1 and s > self.cfg["size"]):
                        raise Violation("alloc-out-of-pool", f"slot {s} outside the pool")
                if n:
                    for i in range(0, n, self.ps):   # contiguous within a page
                        g = r[i:i + self.ps]
                        if g != list(range(g[0], g[0] + len(g))) or g[0] % self.ps:
                            raise Violation("page-split", f"page not contiguous {r}")
                    self.chunks.append(r)
            self.last = (op, r is None)
        elif op == "free":
            _, i, lo, hi = a
            c = self.chunks[i]
            part = c[lo:hi]
            self.a.free(torch.tensor(part, dtype=torch.int64 if self.cfg.get("i64") else torch.int32))
            rest = c[:lo] + c[hi:]
            if rest:
                self.chunks[i] = rest
            else:
                self.chunks.pop(i)
            if self.group:
                self.pending.extend(part)
        elif op == "free_shuffled":
            # every other slot first; inside a group as two calls (no page is reused before the group ends)
            c = self.chunks.pop(a[1])
            parts = [c[0::2], c[1::2]] if self.group else [c[0::2] + c[1::2]]
            for part in parts:
                self.a.free(torch.tensor(part, dtype=torch.int64 if self.cfg.get("i64") else torch.int32))
            if self.group:
                self.pending.extend(c)
        elif op == "free_empty":
            self.a.free(torch.empty(0, dtype=torch.int32))
        elif op == "begin":
            self.a.free_group_begin()
            self.group = True
        elif op == "end":
            self.a.free_group_end()
            self.group = False
            self.pending = []
        elif op == "clear":
            self.a.clear()
            self.chunks, self.pending, self.group = [], [], False

    def check(self):
        want = self.free_pages() * self.ps
        got = self.a.available_size()
        if got != want:
            raise Violation("available-size", f"available_size()={got}, actually free {want}")

    def outcome(self):
        return (len(self.chunks), self.free_pages(), self.last)

    def fingerprint(self):
        return canon([self.a, sorted(map(tuple, self.chunks)), self.pending, self.group])


class ReqPoolH:
    def __init__(self, cfg):
        self.cfg = cfg
        self.p = make_req_to_token_pool(cfg["reqs"], cfg["ctx"], "cpu")
        self.rows = {}     # slot -> expected row content (reference)
        self.stamp = 0

    def actions(self):
        acts = [("alloc", n) for n in (1, 2, 3, 0)]
        for s in sorted(self.rows):
            acts.append(("free", s))
            acts.append(("write", s, 0, self.cfg["ctx"]))
            acts.append(("write", s, 1, 2))
        acts.append(("clear",))
        return acts

    def apply(self, a):
        if a[0] == "alloc":
            n = a[1]
            avail = self.cfg["reqs"] - len(self.rows)
            r = self.p.alloc(n)
            if r is None:
                if n <= avail:
                    raise Violation("req-alloc-refused", f"alloc({n}) refused with {avail} rows free")
                return
            if n > avail or len(r) != n or len(set(r)) != n:
                raise Violation("req-alloc-count", f"alloc({n}) -> {r}, {avail} free")
            for s in r:
                if s in self.rows or not 0 <= s < self.p.req_to_token.shape[0]:
                    raise Violation("req-alloc-in-use", f"row {s} handed out while in use or out of range")
                self.rows[s] = {}
        elif a[0] == "free":
            self.p.free(a[1])
            del self.rows[a[1]]
        elif a[0] == "write":
            _, s, lo, hi = a
            v = torch.arange(lo, hi, dtype=torch.int32) + 100 * (s + 1)
            self.p.write((s, slice(lo, hi)), v)
            for i in range(lo, hi):
                self.rows[s][i] = i + 100 * (s + 1)
        else:
            self.p.clear()
            self.rows = {}

    def check(self):
        if self.p.available_size() != self.cfg["reqs"] - len(self.rows):
            raise Violation("req-available", "available_size wrong")
        for s, row in self.rows.items():
            for i, v in row.items():
                if int(self.p.req_to_token[s, i]) != v:
                    raise Violation("req-row-clobbered", f"row {s}[{i}] = {int(self.p.req_to_token[s, i])}, wrote {v}")

    def fingerprint(self):
        return canon([self.p, self.rows])


class GdnH:
    """Recurrent-state pool: working rows 1..max_reqs plus track slots."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.p = GDNPool(cfg["reqs"], 2, 1, 1, 1, 2, 2, device="cpu", dtype=torch.float32,
                         max_track_slots=cfg["track"])
        self.live = []
        self.val = {}     # index -> reference value

    def actions(self):
        acts = [("talloc",)]
        idx = list(range(1, self.cfg["reqs"] + 1)) + self.live
        for s in self.live:
            acts.append(("tfree", s))
        for s in idx:
            acts.append(("set", s))
            acts.append(("reset", s))
            for d in idx:
                if s != d:
                    acts.append(("copy", s, d))
        return acts

    def apply(self, a):
        p = self.p
        if a[0] == "talloc":
            s = p.alloc_track_slot()
            if s is None:
                if len(self.live) < self.cfg["track"]:
                    raise Violation("track-refused", "track slot refused while one is free")
                return
            if s in self.live or s <= self.cfg["reqs"] or s >= p.recurrent_state.shape[1]:
                raise Violation("track-in-use", f"track slot {s} in use / not a track slot, live={self.live}")
            self.live.append(s)
            self.val.pop(s, None)
        elif a[0] == "tfree":
            p.free_track_slot(a[1])
            self.live.remove(a[1])
            self.val.pop(a[1], None)
        elif a[0] == "set":
            for layer in range(2):
                r, c = p.get_layer_state(layer)
                r[a[1]] = float(a[1] + 10 * layer)
                c[a[1]] = float(a[1] + 10 * layer)
            self.val[a[1]] = a[1]
        elif a[0] == "reset":
            p.reset_states(torch.tensor([a[1]], dtype=torch.int64))
            self.val[a[1]] = None
        else:
            if a[1] in self.val:
                self.val[a[2]] = self.val[a[1]]
            else:
                self.val.pop(a[2], None)
            p.copy_states(a[1], a[2])

    def check(self):
        for i, v in self.val.items():
            for layer in range(2):
                r, c = self.p.get_layer_state(layer)
                want = 0.0 if v is None else float(v + 10 * layer)
                if not (torch.all(r[i] == want) and torch.all(c[i] == want)):
                    raise Violation("state-clobbered", f"state row {i} layer {layer} is {r[i].flatten().tolist()}, want {want}")

    def fingerprint(self):
        return canon([self.p, self.live, self.val])


def job(h, cfg, depth, max_states):
    return explore(globals()[h], cfg, depth, max_states=max_states)


def kv_roundtrip(_):
    """set_kv_buffer stores exactly the given rows at the given slots, and only there."""
    n = 0
    viol = []
    for kh, vh, hd in [(1, 1, 2), (2, 1, 2), (2, 2, 1)]:
        for size in (4, 7):
            for idx in itertools.chain.from_iterable(itertools.permutations(range(1, size + 1), k) for k in (1, 2, 3)):
                pool = KVPool(size, 2, kh, hd, device="cpu", dtype=torch.float32, v_head_num=vh, pin_memory=False)
                for layer in range(2):
                    k = torch.arange(len(idx) * kh * hd, dtype=torch.float32).reshape(len(idx), kh, hd) + 1 + 100 * layer
                    v = -torch.arange(len(idx) * vh * hd, dtype=torch.float32).reshape(len(idx), vh, hd) - 1 - 100 * layer
                    pool.set_kv_buffer(layer, torch.tensor(idx), k, v)
                    K, V = pool.get_kv_buffer(layer)
                    wk, wv = torch.zeros_like(K), torch.zeros_like(V)
                    for j, s in enumerate(idx):
                        wk[s] = k[j]; wv[s] = v[j]
                    n += 1
                    if not (torch.equal(K, wk) and torch.equal(V, wv)):
                        viol.append(dict(sig="kv-store", msg=f"layer {layer} idx {idx}", cfg=dict(kh=kh, vh=vh, hd=hd, size=size), hist=[]))
                        return dict(states=n, transitions=n, validated=0, exhaustive=True, samples=[]), viol
    return dict(states=n // 2, transitions=n, validated=0, exhaustive=True, samples=[]), viol


def main():
    c = Check("P09", rule="every sequence of alloc/free/partial free/group/clear on each pool configuration, merging "
              "states with equal allocator content; a state is one allocator content + live set",
              assumptions=["clients free only what they hold, whole pages at a time (page_size > 1)"])
    t = c.thorough
    jobs = []
    for page in (1, 2, 3):
        for size in ((3, 4, 5) if page == 1 else (4, 6, 7, 9)):
            for sort in (True, False):
                jobs.append((f"alloc-p{page}-s{size}-{sort}", job,
                             dict(h="AllocH", cfg=dict(size=size, page=page, sort=sort, ns=[1, 2, 3, 0] + ([4] if page > 1 else []), i64=sort),
                                  depth=(9 if t else 7), max_states=(400000 if t else 40000))))
    for size, page in ((16, 16), (32, 16), (64, 16), (12, 4), (28, 7)):
        jobs.append((f"alloc-big-p{page}-s{size}", job,
                     dict(h="AllocH", cfg=dict(size=size, page=page, sort=True, ns=[page, 2 * page, page + 1]), depth=4, max_states=20000)))
    for reqs in (1, 2, 3):
        jobs.append((f"req-{reqs}", job, dict(h="ReqPoolH", cfg=dict(reqs=reqs, ctx=3), depth=6 if t else 5, max_states=200000)))
    for reqs, track in ((1, 1), (1, 2), (2, 2)):
        jobs.append((f"gdn-{reqs}-{track}", job, dict(h="GdnH", cfg=dict(reqs=reqs, track=track), depth=5 if t else 4, max_states=200000)))
    jobs.append(("kv-store", kv_roundtrip, dict(_=0)))
    c.run(jobs)
    c.finish()


if __name__ == "__main__":
    main()
