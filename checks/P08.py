"""P08: MambaRadixCache against a reference of stored prefixes, their KV slots and their recurrent states."""
import vf.clock as clock
import torch
from vf.core import Check, Violation, canon, explore
from pymllm.mem_cache.mamba_radix_cache import MambaRadixCache
from pymllm.mem_cache.base_prefix_cache import RadixKey


class KvPool:
    def __init__(self):
        self.device = torch.device("cpu")
        self.released = []

    def free(self, idx):
        self.released.extend(int(x) for x in idx.tolist())


class StatePool:
    def __init__(self):
        self.released = []

    def free_track_slot(self, s):
        self.released.append(int(s))


class Cb:
    def __init__(self):
        self.got = []

    def __call__(self, i):
        self.got.append(i)


class MambaH:
    def __init__(self, cfg):
        self.cfg = cfg
        self.page = cfg["page"]
        self.kv, self.st, self.cb = KvPool(), StatePool(), Cb()
        self.c = MambaRadixCache(page_size=self.page, token_to_kv_pool_allocator=self.kv, mamba_pool=self.st, on_node_evict=self.cb)
        self.slot = {}     # (ns, prefix) -> slot
        self.state = {}    # (ns, prefix) -> state slot
        self.held = []     # [node, token, ns, prefix, state slot locked or None]
        self.last = None

    def bad(self, sig, msg):
        raise Violation(sig, msg)

    def al(self, key):
        p = self.page
        if p == 1:
            return key
        return tuple((key[i - i % p:i - i % p + p], i % p) for i in range(len(key) // p * p))

    def have(self, ns, k):
        n = 0
        while n < len(k) and (ns, k[:n + 1]) in self.slot:
            n += 1
        return n

    def fresh(self, n, used):
        out, i = [], 1
        while len(out) < n:
            if i not in used:
                out.append(i)
            i += 1
        return out

    def locked(self):
        return {(h[2], h[3][:i]) for h in self.held for i in range(1, len(h[3]) + 1)}

    def locked_states(self):
        return {h[4] for h in self.held if h[4] is not None}

    def actions(self):
        c, a = self.cfg, []
        for k in c["keys"]:
            a.append(("insert", k[0], k[1], False))
            a.append(("insert", k[0], k[1], True))
        for k in c["mkeys"]:
            a.append(("match",) + k)
        if len(self.held) < c["maxheld"]:
            for k in c["lkeys"]:
                a.append(("lock",) + k)
        for i in range(len(self.held)):
            a.append(("unlock", i))
        for n, s in c["evicts"]:
            a.append(("evict", n, s))
        return a

    def node_state(self, node, where):
        v = node.mamba_value
        if v is None:
            return None
        v = [int(x) for x in v.tolist()]
        if len(v) != 1:
            self.bad("state-shape", f"{where}: state value {v} where one state slot was stored")
        return v[0]

    def do_match(self, ns, key):
        r = self.c.match_prefix(RadixKey(list(key), ns))
        k = self.al(key)
        want = self.have(ns, k)
        got = [int(x) for x in r.indices.tolist()]
        if r.prefix_len != want or got != [self.slot[(ns, k[:i])] for i in range(1, want + 1)]:
            self.bad("match", f"match({ns},{key}): len {r.prefix_len} {got}, stored {[self.slot[(ns, k[:i])] for i in range(1, want + 1)]}")
        if want:
            s = self.node_state(r.last_node, f"match({ns},{key})")
            exp = self.state.get((ns, k[:want]))
            if s != exp:
                self.bad("state-mismatch", f"match({ns},{key}): node of the matched prefix carries state {s}, stored for that prefix: {exp}")
        return r, k[:want]

    def apply(self, a):
        for x in (self.kv.released, self.st.released, self.cb.got):
            x.clear()
        clock.active = True
        op = self.last = a[0]
        if op == "insert":
            _, ns, key, with_state = a
            key = tuple(key)
            k = self.al(key)
            vals = self.fresh(len(key), set(self.slot.values()))
            n = self.have(ns, k)
            mv = None
            if with_state:
                mv = self.fresh(1, set(self.state.values()))[0]
            buf, mbuf = torch.tensor(vals, dtype=torch.int64), None if mv is None else torch.tensor([mv], dtype=torch.int64)
            r = self.c.insert(RadixKey(list(key), ns), buf, mamba_value=mbuf)
            buf.fill_(-7)      # the caller's tensors are reused
            if mbuf is not None:
                mbuf.fill_(-7)
            if r.prefix_len != n:
                self.bad("insert-prefix", f"insert({ns},{key}) reports {r.prefix_len} present, {n} are")
            if len(k) != len(key):
                mv = None      # the tree holds whole pages: the state of a later position stays with the caller
            if self.kv.released or self.st.released:
                self.bad("insert-release", f"insert released {self.kv.released} / states {self.st.released}")
            for i in range(n + 1, len(k) + 1):
                self.slot[(ns, k[:i])] = vals[i - 1]
            if k:
                had = (ns, k) in self.state
                if mv is not None:
                    if r.mamba_exist != had:
                        self.bad("exist-flag", f"insert({ns},{key},state): mamba_exist={r.mamba_exist}, a state for that prefix was stored: {had}")
                    if not had:
                        self.state[(ns, k)] = mv
                elif n == len(k) and r.mamba_exist != had:
                    self.bad("exist-flag", f"insert({ns},{key}): mamba_exist={r.mamba_exist}, a state for that prefix was stored: {had}")
                s = self.node_state(r.last_node, f"insert({ns},{key})")
                if s != self.state.get((ns, k)):
                    self.bad("state-mismatch", f"insert({ns},{key},state={mv}): node carries {s}, expected {self.state.get((ns, k))}")
        elif op == "match":
            self.do_match(a[1], tuple(a[2]))
        elif op == "lock":
            r, k = self.do_match(a[1], tuple(a[2]))
            tok = self.c.inc_lock_ref(r.last_node)
            self.held.append([r.last_node, tok, a[1], k, self.state.get((a[1], k))])
        elif op == "unlock":
            h = self.held.pop(a[1])
            self.c.dec_lock_ref(h[0], h[1])
        elif op == "evict":
            self.do_evict(a[1], a[2])

    def do_evict(self, n, s):
        lk, ls = self.locked(), self.locked_states()
        ev = [k for k in self.slot if k not in lk]
        evs = [v for v in self.state.values() if v not in ls]
        r = self.c.evict(n, s)
        rel, srel = self.kv.released, self.st.released
        inv = {v: k for k, v in self.slot.items()}
        sinv = {v: k for k, v in self.state.items()}
        if len(set(rel)) != len(rel) or len(set(srel)) != len(srel):
            self.bad("double-release", f"evict({n},{s}) released {rel} / states {srel}")
        for x in rel:
            if x not in inv:
                self.bad("release-foreign", f"evict({n},{s}) released slot {x} the cache does not hold")
            if inv[x] in lk:
                self.bad("release-locked", f"evict({n},{s}) released locked slot {x} of {inv[x]}")
        for x in srel:
            if x not in sinv:
                self.bad("release-foreign", f"evict({n},{s}) released state {x} the cache does not hold")
            if x in ls:
                self.bad("release-locked", f"evict({n},{s}) released locked state {x} of {sinv[x]}")
        gone = {inv[x] for x in rel}
        for k in [k for k in self.slot if k not in gone]:
            if len(k[1]) > 1 and (k[0], k[1][:-1]) in gone:
                self.bad("evict-inner", f"evict({n},{s}) released {k[0], k[1][:-1]} but kept {k}")
        for k, v in self.state.items():
            if k in gone and v not in srel:
                self.bad("state-leak", f"evict({n},{s}) dropped {k} without releasing its state {v}")
        if r.full_evicted != len(rel) or r.mamba_evicted != len(srel):
            self.bad("evict-count", f"evict({n},{s}) reports {r.full_evicted}/{r.mamba_evicted}, released {rel}/{srel}")
        if len(rel) < min(n, len(ev)) or len(srel) < min(s, len(evs)):
            self.bad("evict-short", f"evict({n},{s}) released {len(rel)} slots {len(srel)} states, {len(ev)}/{len(evs)} were evictable")
        for x in srel:
            del self.state[sinv[x]]
        for k in gone:
            del self.slot[k]

    def check(self):
        lk, ls = self.locked(), self.locked_states()
        c, n = self.c, len(self.slot)
        if c.total_size() != n:
            self.bad("total-size", f"total_size {c.total_size()}, stored {n}")
        if (c.evictable_size(), c.protected_size()) != (n - len(lk), len(lk)):
            self.bad("sizes", f"evictable {c.evictable_size()} protected {c.protected_size()}; unlocked {n - len(lk)} locked {len(lk)}")
        want = (len(self.state) - len(ls), len(ls))
        if (c.mamba_evictable_size(), c.mamba_protected_size()) != want:
            self.bad("state-sizes", f"state evictable {c.mamba_evictable_size()} protected {c.mamba_protected_size()}; unlocked/locked states {want}")

    def outcome(self):
        return (len(self.slot), len(self.state), len(self.held), self.last)

    def fingerprint(self):
        return canon([self.c, self.held, sorted((repr(k), v) for k, v in self.slot.items()), sorted((repr(k), v) for k, v in self.state.items())],
                     skip=("id", "hit_count", "last_access_time", "released", "got", "_cache"))


def job(cfg, depth, max_states):
    return explore(MambaH, cfg, depth, max_states=max_states)


c = Check("P08", rule="every sequence of insert (with/without state)/lookup/lock/unlock/evict actions up to the stated depth over the listed keys; "
          "states equal in cache content, both recency lists, locks and reference merged",
          assumptions=["a node handle is locked right after the lookup that returned it", "a state is stored for page-aligned prefixes only"])
d = 1 if c.thorough else 0
mx = 2_000_000 if c.thorough else 40_000
N = None
J = []
def cfg(name, depth, **kw):
    J.append((name, job, dict(cfg=kw, depth=depth + d, max_states=mx)))
def K(*t, ns=None):
    return (ns, tuple(t))
cfg("chain", 5, page=1, keys=[K(1, 2, 3), K(1, 2), K(1, 2, 4)], mkeys=[K(1, 2, 3, 4), K(1, 2)], lkeys=[K(1, 2, 3), K(1, 2)], maxheld=2,
    evicts=[(0, 1), (1, 0), (9, 0)])
cfg("wide", 4, page=1, keys=[K(1), K(2, 1), K(1, 2, 3), K(1, 3)], mkeys=[K(1, 2), K(1, 3, 3)], lkeys=[K(1, 2, 3), K(1, 3), K(3)], maxheld=2,
    evicts=[(0, 2), (2, 0), (1, 1), (9, 9)])
cfg("ns", 5, page=1, keys=[K(1, 2), K(1, 2, ns="a"), K(1, ns="")], mkeys=[K(1, ns="a"), K(1), K(1, 2, ns="")], lkeys=[K(1, 2, ns="a")], maxheld=1, evicts=[(0, 1), (1, 0)])
cfg("page2", 4, page=2, keys=[K(1, 2, 3, 4), K(1, 2), K(1, 2, 3, 5, 6), K(1, 2, 3)], mkeys=[K(1, 2, 3, 4, 5), K(1, 3)], lkeys=[K(1, 2, 3, 4)], maxheld=1,
    evicts=[(0, 1), (1, 0), (3, 0)])
c.run(J)
c.finish()
