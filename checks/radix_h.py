"""Harness shared by P05 / P06: RadixCache (full-attention mode) against a trie of stored prefixes."""
import vf.clock as clock
import torch
from vf.core import Violation, canon, explore, guarded
from pymllm.mem_cache.radix_cache import RadixCache
from pymllm.mem_cache.base_prefix_cache import RadixKey

P05 = {"match-len", "match-slots", "insert-prefix", "total-size", "match-stale", "insert-freed"}


class Pool:
    """Records every release; owns the slot numbers."""

    def __init__(self):
        self.device = torch.device("cpu")
        self.released = []

    def free(self, idx):
        self.released.extend(int(x) for x in idx.tolist())


class RadixH:
    def __init__(self, cfg):
        self.cfg = cfg
        self.focus = cfg["focus"]
        self.page = cfg["page"]
        self.pool = Pool()
        self.evicted_ids = []
        self.c = RadixCache(page_size=self.page, token_to_kv_pool_allocator=self.pool, on_node_evict=Cb(self.evicted_ids))
        self.slot = {}      # (ns, prefix tuple) -> slot
        self.lo = {}        # -> last access that certainly touched it
        self.hi = {}        # -> last access that may have touched it
        self.lock = {}      # -> lock count
        self.locks = []     # outstanding (node, token, ns, prefix)
        self.ids = {}       # node id -> (ns, end prefix)
        self.now = 0
        self.last = None

    # --- reference helpers
    def bad(self, sig, msg):
        want = "P05" if sig in P05 else "P06"
        if want == self.focus:
            raise Violation(sig, msg)

    def fresh(self, n):
        used = {x for v in self.slot.values() for x in v}
        out, i = [], 1
        while len(out) < n:
            if i not in used:
                out.append(i)
            i += 1
        return out

    def aligned(self, key):
        """key as a tuple of whole pages (the reference works in pages)"""
        p = self.page
        return tuple(key[i:i + p] for i in range(0, len(key) // p * p, p))

    def ref_match(self, ns, ak):
        m = 0
        while m < len(ak) and (ns, ak[:m + 1]) in self.slot:
            m += 1
        return m

    def touch(self, ns, key, n):
        """A visit of the first n tokens of key.  Tokens that may share an edge with the last visited one
        (the unbranched continuation) may have been refreshed as well.  Call before adding new tokens."""
        self.now += 1
        for e in range(1, n + 1):
            self.lo[(ns, key[:e])] = self.hi[(ns, key[:e])] = self.now
        cur = key[:n]
        first = True
        while True:
            ch = [p for (n2, p) in self.slot if n2 == ns and len(p) == len(cur) + 1 and p[:-1] == cur]
            if n == 0 and first:
                ch = [p for p in ch if p[0] == key[0]]
            if len(ch) != 1:
                break
            cur, first = ch[0], False
            self.hi[(ns, cur)] = self.now

    # --- actions
    def actions(self):
        acts = []
        for k in self.cfg["keys"]:
            acts.append(("insert",) + k)
        for k in self.cfg["mkeys"]:
            acts.append(("match",) + k)
        if len(self.locks) < self.cfg["maxlocks"]:
            for k in self.cfg["lkeys"]:
                acts.append(("matchlock",) + k)
            for k in self.cfg["ikeys"]:
                acts.append(("insertlock",) + k)
        for i in range(len(self.locks)):
            acts.append(("unlock", i))
        for n in self.cfg["evicts"]:
            acts.append(("evict", n))
        if self.cfg.get("reset"):
            acts.append(("reset",))
        return acts

    def apply(self, a):
        op = a[0]
        self.pool.released.clear()
        self.evicted_ids.clear()
        clock.active = True
        if op in ("insert", "insertlock"):
            ns, key = a[1], tuple(a[2])
            vals = self.fresh(len(key))
            ak = self.aligned(key)
            have = self.ref_match(ns, ak)
            buf = torch.tensor(vals, dtype=torch.int64)
            r = self.c.insert(RadixKey(list(key), ns), buf)
            buf.fill_(-7)      # the caller's row is reused for other requests
            if r.prefix_len != have * self.page:
                self.bad("insert-prefix", f"insert({ns},{key}) reports {r.prefix_len} present, {have * self.page} are")
            if self.pool.released:
                self.bad("insert-freed", f"insert released {self.pool.released}")
            if ak:
                self.touch(ns, ak, have)
            for e in range(have + 1, len(ak) + 1):
                self.slot[(ns, ak[:e])] = tuple(vals[(e - 1) * self.page:e * self.page])
                self.lock[(ns, ak[:e])] = 0
                self.lo[(ns, ak[:e])] = self.hi[(ns, ak[:e])] = self.now
            if op == "insertlock" and r.last_node is not None and len(ak):
                self.do_lock(r.last_node, ns, ak)
            elif r.last_node is not None and len(ak):
                self.note_id(r.last_node, ns, ak)
        elif op in ("match", "matchlock"):
            ns, key = a[1], tuple(a[2])
            r = self.c.match_prefix(RadixKey(list(key), ns))
            ak = self.aligned(key)
            want = self.ref_match(ns, ak)
            got = [int(x) for x in r.indices.tolist()]
            if r.prefix_len != want * self.page or len(got) != want * self.page:
                self.bad("match-len", f"match({ns},{key}): prefix_len={r.prefix_len} indices={got}, stored prefix has {want * self.page} tokens")
            ref = [x for e in range(1, want + 1) for x in self.slot[(ns, ak[:e])]]
            if got[:want * self.page] != ref:
                self.bad("match-slots", f"match({ns},{key}) -> {got}, stored slots {ref}")
            if ak:
                self.touch(ns, ak, want)
            if want:
                if op == "matchlock":
                    self.do_lock(r.last_node, ns, ak[:want])
                else:
                    self.note_id(r.last_node, ns, ak[:want])
            elif op == "matchlock":
                # locking the root must be harmless
                t = self.c.inc_lock_ref(r.last_node)
                self.c.dec_lock_ref(r.last_node, t)
        elif op == "unlock":
            node, tok, ns, pref = self.locks.pop(a[1])
            self.c.dec_lock_ref(node, tok)
            for e in range(1, len(pref) + 1):
                self.lock[(ns, pref[:e])] -= 1
        elif op == "evict":
            self.do_evict(a[1])
        elif op == "reset":
            if self.locks:
                return
            self.c.reset()
            self.slot, self.lo, self.hi, self.lock, self.ids = {}, {}, {}, {}, {}
        self.last = op

    def note_id(self, node, ns, pref):
        i = getattr(node, "id", None)
        if i is None:
            return
        old = self.ids.get(i)
        if old is not None and old != (ns, pref):
            self.bad("node-identity", f"node id {i} stood for {old}, now for {(ns, pref)}")
        self.ids[i] = (ns, pref)

    def do_lock(self, node, ns, pref):
        self.note_id(node, ns, pref)
        tok = self.c.inc_lock_ref(node)
        for e in range(1, len(pref) + 1):
            self.lock[(ns, pref[:e])] += 1
        self.locks.append((node, tok, ns, pref))

    def do_evict(self, n):
        free_tok = {k for k in self.slot if self.lock[k] == 0}
        r = self.c.evict(n)
        rel = self.pool.released
        inv = {}
        for k, ss in self.slot.items():
            for s in ss:
                inv[s] = k
        if len(set(rel)) != len(rel):
            self.bad("evict-double-free", f"evict({n}) released {rel}")
        gone = []
        for s in rel:
            k = inv.get(s)
            if k is None:
                self.bad("evict-foreign", f"evict({n}) released slot {s} which the cache does not hold")
                continue
            if self.lock[k] > 0:
                self.bad("evict-locked", f"evict({n}) released locked slot {s} of {k}")
            gone.append(k)
        goneset = set(gone)
        if len(gone) != len(goneset) * self.page:
            self.bad("evict-part-page", f"evict({n}) released part of a page: {rel}")
        if r.full_evicted != len(rel):
            self.bad("evict-count", f"evict({n}) reports {r.full_evicted}, released {len(rel)}")
        if len(rel) < min(n, len(free_tok) * self.page):
            self.bad("evict-short", f"evict({n}) released {len(rel)} though {len(free_tok) * self.page} were evictable")
        if n <= 0 and rel:
            self.bad("evict-excess", f"evict({n}) released {rel}")
        if rel and len(rel) >= n + self.page * max(len(k[1]) for k in self.slot):
            self.bad("evict-excess", f"evict({n}) released {rel}")
        # least recently used first
        left = [k for k in self.slot if k not in goneset]
        leftset = set(left)
        def is_leaf(k, pool):
            return not any(o[0] == k[0] and len(o[1]) == len(k[1]) + 1 and o[1][:-1] == k[1] for o in pool)
        leaves0 = [k for k in self.slot if self.lock[k] == 0 and is_leaf(k, self.slot)]
        for y in leaves0:
            if y in leftset:
                for x in goneset:
                    if self.lo.get(x, 0) > self.hi.get(y, 0):
                        self.bad("evict-lru", f"evict({n}) released {x} (used at {self.lo[x]}) but kept older {y} (used at most at {self.hi[y]})")
        for k in left:
            if len(k[1]) > 1 and (k[0], k[1][:-1]) in goneset:
                self.bad("evict-inner", f"evict({n}) released {k[1][:-1]} but kept its extension {k}")
        for k in goneset:
            for d in (self.slot, self.lo, self.hi, self.lock):
                d.pop(k, None)
        for i, k in list(self.ids.items()):
            if (k in goneset) != (i in self.evicted_ids):
                self.bad("evict-callback", f"node id {i} of {k}: evicted={k in goneset}, callback={i in self.evicted_ids}")
            if k in goneset:
                del self.ids[i]

    def check(self):
        locked = sum(self.page for k in self.slot if self.lock[k] > 0)
        stored = len(self.slot) * self.page
        if self.c.total_size() != stored:
            self.bad("total-size", f"total_size()={self.c.total_size()}, stored {stored}")
        if self.c.protected_size() != locked:
            self.bad("protected-size", f"protected_size()={self.c.protected_size()}, locked tokens {locked}")
        if self.c.evictable_size() != stored - locked:
            self.bad("evictable-size", f"evictable_size()={self.c.evictable_size()}, unlocked tokens {stored - locked}")

    def outcome(self):
        return (len(self.slot), sum(1 for v in self.lock.values() if v), self.last)

    def fingerprint(self):
        ts = sorted(set(self.lo.values()) | set(self.hi.values()))
        rk = {t: i for i, t in enumerate(ts)}
        return canon([self.c, self.locks, sorted((repr(k), v, rk.get(self.lo.get(k), -1), rk.get(self.hi.get(k), -1), self.lock[k]) for k, v in self.slot.items()),
                      sorted((repr(v), ) for v in self.ids.values())],
                     skip=("id", "hit_count", "hash_values", "released", "on_node_evict"))


class Cb:
    def __init__(self, lst):
        self.lst = lst

    def __call__(self, i):
        self.lst.append(i)


def job(cfg, depth, max_states):
    return explore(RadixH, cfg, depth, max_states=max_states)


N = None
def K(*t, ns=None):
    return (ns, tuple(t))


def jobs(focus, thorough):
    out = []
    d = 1 if thorough else 0
    big = 2_000_000 if thorough else 60_000
    base = [K(1), K(1, 2), K(1, 2, 3), K(1, 2, 4), K(2, 1), K(1, 2, 3, 4)]
    if focus == "P05":
        cfgs = [
            ("plain", 1, base + [K(1, 3, 5)], base + [K(1, 2, 4, 3), K(3), K(1, 3), K()], [K(1, 2)], [], 1, [1, 3], 4),
            ("ns", 1, [K(1, 2), K(1, 2, ns="a"), K(1, 3, ns=""), K(1, 2, 3), K(1, 2, 3, ns="b")],
             [K(1, 2, 3), K(1, 2, 3, ns="a"), K(1, 2, 3, ns="b"), K(1, ns="b"), K(1, 3, ns="")], [K(1, 2)], [], 1, [1, 2], 5),
            ("page2", 2, [K(1, 2), K(1, 2, 3), K(1, 2, 3, 4), K(1, 3, 1, 2), K(1, 2, 3, 5, 6, 7), K(1, 2, 3, 4, 5)],
             [K(1), K(1, 2, 3), K(1, 2, 3, 4, 9), K(1, 3, 1, 2), K(1, 2, 3, 5, 6, 7), K(1, 3)], [K(1, 2, 9, 9)], [], 1, [1, 3], 4),
            ("page3", 3, [K(1, 2, 3), K(1, 2, 3, 4, 5), K(1, 2, 3, 4, 5, 6), K(1, 2, 3, 4, 5, 7), K(1, 2, 4, 4, 5, 6)],
             [K(1, 2, 3, 4, 5, 6, 7), K(1, 2, 3, 4, 5, 7), K(1, 2, 4), K(1, 2)], [], [], 0, [1, 4], 5),
        ]
    else:
        cfgs = [
            ("plain", 1, [K(1), K(1, 2, 3), K(1, 2, 4), K(2, 1), K(1, 2, 3, 4)], [K(1, 2), K(2, 1), K(1, 2, 3, 9)],
             [K(1, 2, 3), K(1, 2, 9)], [K(1, 2, 3, 4)], 2, [1, 2, 5], 5),
            ("ns", 1, [K(1, 2), K(1, 2, ns="a"), K(1, 2, 3, ns="a")], [K(1, ns="a")], [K(1, ns="a"), K(1, 2)], [K(1, 3, ns="a")], 2, [1, 3], 5),
            ("page2", 2, [K(1, 2, 3), K(1, 2, 3, 4), K(1, 2, 3, 5, 6, 7)], [K(1, 2)], [K(1, 2, 3, 4), K(1, 2)], [K(1, 2, 3, 5)], 2, [1, 3, 6], 5),
            ("lru", 1, [K(1), K(2), K(3), K(1, 2), K(1, 3)], [K(1), K(2), K(3), K(1, 2)], [K(1)], [], 1, [1, 2, 0], 5),
        ]
    for name, page, keys, mk, lk, ik, ml, ev, depth in cfgs:
        cfg = dict(focus=focus, page=page, keys=keys, mkeys=mk, lkeys=lk, ikeys=ik, maxlocks=ml, evicts=ev, reset=(name == "ns"))
        out.append((name, job, dict(cfg=cfg, depth=depth + d, max_states=big)))
    return out
