"""P07: RadixCache in sliding-window mode against a per-token reference."""
import vf.clock as clock
import torch
from vf.core import Check, Violation, canon, explore
from pymllm.mem_cache.radix_cache import RadixCache
from pymllm.mem_cache.base_prefix_cache import RadixKey


class Pool:
    """Full and window parts of one slot space, as in a hybrid SWA allocator."""

    def __init__(self):
        self.device = torch.device("cpu")
        self.released, self.swa_released = [], []

    def free(self, idx):
        self.released.extend(int(x) for x in idx.tolist())

    def free_swa(self, idx):
        self.swa_released.extend(int(x) for x in idx.tolist())


class PlainPool:
    """One KV pool without a separate window part (what the model runner uses)."""

    def __init__(self):
        self.device = torch.device("cpu")
        self.released, self.swa_released = [], []

    def free(self, idx):
        self.released.extend(int(x) for x in idx.tolist())


class Held:
    def __init__(self, node, token, key, pref, slots):
        self.node, self.swa_boundary_id, self.key, self.pref, self.slots = node, token, key, pref, slots


class SwaH:
    def __init__(self, cfg):
        self.cfg = cfg
        self.page, self.win = cfg["page"], cfg["window"]
        self.pool = PlainPool() if cfg.get("plain") else Pool()
        self.c = RadixCache(page_size=self.page, sliding_window_size=self.win, token_to_kv_pool_allocator=self.pool)
        self.slot, self.tomb = {}, {}      # prefix (tuple of tokens) -> slot / window KV gone
        self.lo, self.hi = {}, {}
        self.held = []
        self.now = 0
        self.last = None

    def bad(self, sig, msg):
        raise Violation(sig, msg)

    def al(self, key):
        """whole pages only; with larger pages every position is named by its page, as pages match as a whole"""
        p = self.page
        if p == 1:
            return key
        return tuple((key[i - i % p:i - i % p + p], i % p) for i in range(len(key) // p * p))

    def have(self, key):
        n = 0
        while n < len(key) and key[:n + 1] in self.slot:
            n += 1
        return n

    def want_match(self, key):
        key = self.al(key)
        n = self.have(key)
        best, run, clean = 0, 0, True
        for i in range(1, n + 1):
            if self.tomb[key[:i]]:
                run, clean = 0, False
            else:
                run += 1
            if (clean or run >= self.win) and i % self.page == 0:
                best = i
        return best

    def locked(self):
        s = set()
        for h in self.held:
            s |= {self.al(h.key)[:i] for i in range(1, h.pref + 1)}
        return s

    def win_locked(self):
        s = set()
        for h in self.held:
            s |= {self.al(h.key)[:i] for i in range(max(1, h.pref - self.win + 1), h.pref + 1)}
        return s

    def fresh(self, n):
        used = set(self.slot.values()) | {x for h in self.held for x in h.slots}
        out, i = [], 1
        while len(out) < n:
            if i not in used:
                out.append(i)
            i += 1
        return out

    def touch(self, key, sure, maybe):
        self.now += 1
        for i in range(1, sure + 1):
            self.lo[key[:i]] = self.now
        for i in range(1, maybe + 1):
            self.hi[key[:i]] = self.now
        cur, first = key[:maybe], True
        while True:
            ch = [p for p in self.slot if len(p) == len(cur) + 1 and p[:-1] == cur]
            if not cur and first:
                ch = [p for p in ch if key and p[0] == key[0]]
            if len(ch) != 1:
                break
            cur, first = ch[0], False
            self.hi[cur] = self.now

    def actions(self):
        c = self.cfg
        a = []
        for k in c["keys"]:
            for e in c["evs"]:
                if e < len(k):
                    a.append(("insert", k, e))
        for k in c["mkeys"]:
            a.append(("match", k))
        if len(self.held) < c["maxheld"]:
            for k in c["skeys"]:
                a.append(("start", k))
        for i in range(len(self.held)):
            for e in c["evs"]:
                if e < len(self.held[i].key):
                    a.append(("finish", i, e))
            a.append(("drop", i))
        for n, s in c["evicts"]:
            a.append(("evict", n, s))
        return a

    def do_match(self, key):
        r = self.c.match_prefix(RadixKey(list(key)))
        want = self.want_match(key)
        got = [int(x) for x in r.indices.tolist()]
        if r.prefix_len != len(got) or len(got) != want:
            self.bad("match-len", f"match{key}: {got}, usable prefix has {want} tokens (window {self.win}, tombstones {self.tombs(key)})")
        k = self.al(key)
        if got != [self.slot[k[:i]] for i in range(1, want + 1)]:
            self.bad("match-slots", f"match{key} -> {got}, stored {[self.slot[k[:i]] for i in range(1, want + 1)]}")
        if k:
            self.touch(k, want, self.have(k))
        return r, want

    def tombs(self, key):
        key = self.al(key)
        return "".join("t" if self.tomb[key[:i]] else "." for i in range(1, self.have(key) + 1))

    def do_insert(self, key, vals, prev, e):
        """vals[:prev] are the tree's own slots"""
        k = self.al(key)
        n = self.have(k)
        buf = torch.tensor(vals, dtype=torch.int64)
        r = self.c.insert(RadixKey(list(key)), buf, prev_prefix_len=prev, swa_evicted_seqlen=e)
        buf.fill_(-7)      # the caller's row is reused for other requests
        if r.prefix_len != n:
            self.bad("insert-prefix", f"insert({key}) reports {r.prefix_len} present, {n} are")
        rel = list(self.pool.released)
        if len(set(rel)) != len(rel):
            self.bad("double-release", f"insert({key},prev={prev},evicted={e}) released {rel}")
        if self.pool.swa_released:
            self.bad("insert-swa-release", f"insert released window part of {self.pool.swa_released}")
        lk = self.locked()
        self.touch(k, n, n)
        for i in range(1, len(k) + 1):
            p, v = k[:i], vals[i - 1]
            if i <= n:
                o = self.slot[p]
                if o in rel and o != v:
                    if p in lk:
                        self.bad("release-locked", f"insert({key}) released slot {o} of {p} which a running request reads")
                    if not self.tomb[p] or i - 1 < e:
                        self.bad("replace", f"insert({key},evicted={e}) replaced the slot of {p} (tombstone={self.tomb[p]})")
                    self.slot[p], self.tomb[p] = v, False
                    rel.remove(o)
                elif i > prev:
                    if v not in rel:
                        self.bad("leak", f"insert({key},prev={prev},evicted={e}): duplicate slot {v} of {p} neither stored nor released")
                    rel.remove(v)
                elif v in rel:
                    self.bad("release-protected", f"insert({key},prev={prev}) released protected slot {v}")
            else:
                self.slot[p] = v
                self.tomb[p] = (i - 1) // self.page * self.page < e
                self.lo[p] = self.hi[p] = self.now
        if rel:
            self.bad("release-foreign", f"insert({key},prev={prev},evicted={e}) also released {rel}")
        if r.last_node is None and k:
            self.bad("no-node", f"insert({key}) returns no node")

    def apply(self, a):
        self.pool.released.clear()
        self.pool.swa_released.clear()
        clock.active = True
        op = self.last = a[0]
        if op == "insert":
            key = tuple(a[1])
            self.do_insert(key, self.fresh(len(key)), 0, a[2])
        elif op == "match":
            self.do_match(tuple(a[1]))
        elif op == "start":
            key = tuple(a[1])
            r, n = self.do_match(key)
            tok = self.c.inc_lock_ref(r.last_node)
            self.held.append(Held(r.last_node, tok, key, n, []))
            self.held[-1].slots = self.fresh(len(key) - n)
        elif op in ("finish", "drop"):
            h = self.held[a[1]]
            if op == "finish":
                vals = [self.slot[self.al(h.key)[:i]] for i in range(1, h.pref + 1)] + h.slots
                self.do_insert(h.key, vals, h.pref, a[2])
            self.held.pop(a[1])
            self.c.dec_lock_ref(h.node, h.swa_boundary_id)
        elif op == "evict":
            self.do_evict(a[1], a[2])

    def do_evict(self, n, s):
        lk, wl = self.locked(), self.win_locked()
        ev = [k for k in self.slot if k not in lk]
        sev = self.c.swa_evictable_size()
        r = self.c.evict(n, s)
        rel, srel = self.pool.released, self.pool.swa_released
        inv = {v: k for k, v in self.slot.items()}
        if len(set(rel)) != len(rel) or len(set(srel)) != len(srel) or set(rel) & set(srel) and len(srel) and False:
            self.bad("double-release", f"evict({n},{s}) released {rel} / window {srel}")
        for x in rel + srel:
            if x not in inv:
                self.bad("release-foreign", f"evict({n},{s}) released {x} which the cache does not hold")
        for x in srel:
            if self.tomb[inv[x]]:
                self.bad("double-release", f"evict({n},{s}) released window part of {x} twice")
            if inv[x] in wl:
                self.bad("release-window", f"evict({n},{s}) released the window KV of {inv[x]} inside a locked window")
        for x in rel:
            if inv[x] in lk:
                self.bad("release-locked", f"evict({n},{s}) released locked slot {x} of {inv[x]}")
        gone = {inv[x] for x in rel}
        if r.full_evicted != len(rel):
            self.bad("evict-count", f"evict({n},{s}) reports {r.full_evicted} released {rel}")
        live_gone = sum(1 for k in gone if not self.tomb[k])
        if isinstance(self.pool, Pool) and r.swa_evicted != live_gone + len([x for x in srel if inv[x] not in gone]):
            self.bad("evict-swa-count", f"evict({n},{s}) reports {r.swa_evicted} window tokens, released {live_gone}+{srel}")
        if len(rel) < min(n, len(ev)):
            self.bad("evict-short", f"evict({n},{s}) released {len(rel)} of {len(ev)} evictable tokens")
        if isinstance(self.pool, Pool) and r.swa_evicted < min(s, sev):
            self.bad("evict-short", f"evict({n},{s}) released {r.swa_evicted} window tokens of {sev} evictable")
        left = [k for k in self.slot if k not in gone]
        for k in left:
            if len(k) > 1 and k[:-1] in gone:
                self.bad("evict-inner", f"evict released {k[:-1]} but kept {k}")
        if s == 0:
            for y in left:
                if y in lk or any(len(o) == len(y) + 1 and o[:-1] == y for o in self.slot):
                    continue
                for x in gone:
                    if not self.tomb[x] and self.lo.get(x, 0) > self.hi.get(y, 0):
                        self.bad("evict-lru", f"evict({n}) released {x} (used at {self.lo[x]}) but kept older {y} ({self.hi[y]})")
        for x in srel:
            self.tomb[inv[x]] = True
        if not isinstance(self.pool, Pool):
            # no window part to release: learn the tombstones from the tree's own account below
            pass
        for k in gone:
            for d in (self.slot, self.tomb, self.lo, self.hi):
                d.pop(k, None)

    def check(self):
        lk = self.locked()
        n = len(self.slot)
        live = sum(1 for k in self.slot if not self.tomb[k])
        c = self.c
        if c.total_size() != n:
            self.bad("total-size", f"total_size {c.total_size()}, stored {n}")
        if c.protected_size() != len(lk) or c.evictable_size() != n - len(lk):
            self.bad("sizes", f"evictable {c.evictable_size()} protected {c.protected_size()}, {n - len(lk)} unlocked and {len(lk)} locked")
        if c.swa_evictable_size() + c.swa_protected_size() != live:
            self.bad("swa-sizes", f"window evictable {c.swa_evictable_size()} + protected {c.swa_protected_size()}, {live} tokens have window KV")
        if c.swa_protected_size() < len(self.win_locked()) or (not self.held and c.swa_protected_size()):
            self.bad("swa-sizes", f"window protected {c.swa_protected_size()}, locked windows cover {len(self.win_locked())}")

    def outcome(self):
        return (len(self.slot), sum(self.tomb.values()), len(self.held), self.last)

    def fingerprint(self):
        ts = sorted(set(self.lo.values()) | set(self.hi.values()))
        rk = {t: i for i, t in enumerate(ts)}
        return canon([self.c, self.held, sorted((repr(k), v, self.tomb[k], rk.get(self.lo.get(k), -1), rk.get(self.hi.get(k), -1)) for k, v in self.slot.items())],
                     skip=("id", "hit_count", "hash_values", "released", "swa_released", "_swa_boundary_counter"),
                     rename_int={"swa_boundary_id": "swa"})


def job(cfg, depth, max_states):
    return explore(SwaH, cfg, depth, max_states=max_states)


c = Check("P07", rule="every sequence of insert/lookup/start/finish/drop/evict actions up to the stated depth over the listed keys, window sizes, "
          "page sizes and already-evicted lengths; equal cache and reference states merged",
          assumptions=["a node handle is locked right after the lookup that returned it",
                       "the slots before prev_prefix_len of an insert are the ones the lookup returned"])
d = 1 if c.thorough else 0
mx = 2_000_000 if c.thorough else 40_000
J = []
def cfg(name, depth, **kw):
    J.append((name, job, dict(cfg=kw, depth=depth + d, max_states=mx)))
cfg("chain", 5, page=1, window=2, keys=[(1, 2, 3, 4), (1, 2), (1, 2, 5)], mkeys=[(1, 2, 3, 4, 5), (1, 2, 3)], skeys=[(1, 2, 3, 4, 6)], evs=[0, 2], maxheld=1,
    evicts=[(0, 1), (1, 0), (9, 0)])
cfg("wide", 4, page=1, window=3, keys=[(1, 2, 3, 4, 5), (1, 2, 3, 9), (1, 7), (2, 3)], mkeys=[(1, 2, 3, 4, 5, 6), (1, 2, 3, 9), (1, 7, 7)],
    skeys=[(1, 2, 3, 4, 5, 6), (1, 2, 3, 9, 9)], evs=[0, 2, 4], maxheld=2, evicts=[(0, 2), (2, 0), (1, 3), (0, 9)])
cfg("locks", 5, page=1, window=2, keys=[(1, 2, 3), (1, 2, 4)], mkeys=[(1, 2, 3)], skeys=[(1, 2, 3), (1, 2, 4, 5), (1,)], evs=[0], maxheld=2,
    evicts=[(0, 2), (2, 0), (0, 9), (9, 9)])
cfg("win1", 5, page=1, window=1, keys=[(1, 2, 3), (1, 2), (2,)], mkeys=[(1, 2, 3)], skeys=[(1, 2, 4)], evs=[0, 1], maxheld=1, evicts=[(0, 1), (1, 0)])
cfg("page2", 4, page=2, window=2, keys=[(1, 2, 3, 4), (1, 2, 3, 5, 6), (1, 2)], mkeys=[(1, 2, 3, 4, 5), (1, 3)], skeys=[(1, 2, 3, 4, 5, 6), (1, 2, 3, 5)],
    evs=[0, 1, 2], maxheld=2, evicts=[(0, 2), (2, 0), (1, 0)])
cfg("page2win3", 4, page=2, window=3, keys=[(1, 2, 3, 4, 5, 6), (1, 2, 3, 5)], mkeys=[(1, 2, 3, 4, 5, 6, 7)], skeys=[(1, 2, 3, 4, 5, 6, 7, 8)],
    evs=[0, 3], maxheld=1, evicts=[(0, 2), (2, 0)])
cfg("plain-pool", 5, plain=True, page=1, window=2, keys=[(1, 2, 3), (1, 2, 4, 5), (1,)], mkeys=[(1, 2, 3, 4)], skeys=[(1, 2, 3, 4), (1, 2, 4)], evs=[0], maxheld=2,
    evicts=[(1, 0), (3, 0), (9, 0)])
c.run(J)
c.finish()
