"""Harness shared by P01-P04: the real scheduler + model-runner process + prefix cache + KV pools, run one
event-loop iteration at a time, with a stand-in model whose keys/values name the exact context they
were computed from.

The stand-in stores in every KV slot the tuple of tokens (with positions) it was computed for; when the
attention of a later token reads slots that do not hold exactly the KV of its own context, the model
emits the token GARBAGE, so any stale, foreign or mispositioned slot changes the request's output.
"""
import types
import vf.clock as clock
import time as _time
import torch
import zmq
import queue
import pymllm.executor.model_runner as mrmod
import pymllm.orchestrator.scheduler_process as spmod
from pymllm.executor.model_runner import ModelRunner
from pymllm.mem_cache.memory_pool import (TokenToKVPoolAllocator, GDNPool, make_full_attention_net_mem_pool,
                                          make_req_to_token_pool)
from pymllm.orchestrator.scheduler_process import SchedulerProcess
from pymllm.engine.io_struct import TokenizedGenerateReqInput
from vf.core import Violation, canon, explore

VOCAB = 512
GARBAGE = 9


def nxt(ctx):
    h = 7
    for t in ctx:
        h = (h * 31 + t + 1) % 100003
    return 16 + h % (VOCAB - 16)


def gen(prompt, n):
    s = list(prompt)
    for _ in range(n):
        s.append(nxt(s))
    return s[len(prompt):]


class LoopStop(BaseException):
    pass


class Inbox:
    """Stands for both the poller and the socket the scheduler receives from."""

    def __init__(self):
        self.msgs = []
        self.drained = False

    def poll(self, timeout=None):
        if self.msgs:
            return [(self, zmq.POLLIN)]
        if self.drained:
            raise LoopStop()
        self.drained = True
        return []

    def recv_pyobj(self, flags=0):
        return self.msgs.pop(0)

    def sleep(self):
        pass

    def register(self, *a):
        pass


class SharedBox:
    """Stands for the shared-memory request queue (fast path)."""

    def __init__(self):
        self.msgs = []

    def get(self, block=True, timeout=None):
        if not self.msgs:
            raise queue.Empty()
        m = self.msgs.pop(0)
        return m.rid, m, None


class Outbox:
    def __init__(self):
        self.msgs = []

    def send_pyobj(self, m, *a):
        self.msgs.append(m)


class TrackedAllocator(TokenToKVPoolAllocator):
    """The real allocator; additionally records which slots are out and illegal releases."""

    def clear(self):
        super().clear()
        self.out = set()
        self.errors = []

    def alloc(self, n):
        r = super().alloc(n)
        if r is not None:
            for s in r.tolist():
                if s in self.out:
                    self.errors.append(("slot-twice", f"slot {s} handed out while in use"))
                if s == 0:
                    self.errors.append(("slot-padding", "padding slot handed out"))
                self.out.add(int(s))
        return r

    def free(self, idx):
        for s in idx.tolist():
            if s not in self.out:
                self.errors.append(("double-free", f"slot {s} released while not allocated"))
            self.out.discard(int(s))
        super().free(idx)


class AttnStub:
    def init_forward_metadata(self, fb):
        pass


class FakeModel:
    """Reads and writes KV exactly where the batch tells the attention backend to."""

    def __init__(self, runner):
        self.r = runner
        self.kv = {}        # slot -> tuple of (token, position) it was computed from (its whole context)
        self.gdn = {}       # state row -> tuple of tokens consumed   (kept in GDNPool as an id)
        self.errors = []
        self.prefill_tokens = 0
        self.steps = []

    def forward(self, input_ids, positions, fb):
        r2t = fb.req_to_token_pool.req_to_token
        out = self.r.token_to_kv_pool_allocator.out
        ids, pos, loc = input_ids.tolist(), positions.tolist(), fb.out_cache_loc.tolist()
        rows, seqs = fb.req_pool_indices.tolist(), fb.seq_lens.tolist()
        ext = fb.forward_mode.is_extend()
        logits = torch.zeros((len(ids), VOCAB))
        if ext:
            lens, pref = fb.extend_seq_lens.tolist(), fb.extend_prefix_lens.tolist()
        else:
            lens, pref = [1] * len(rows), [s - 1 for s in seqs]
        if len(set(rows)) != len(rows):
            self.errors.append(("row-shared", f"two requests of one batch share request row {rows}"))
        self.steps.append((ext, len(rows), sum(seqs) if ext else 0))
        off = 0
        gp = self.r.gdn_pool
        for i, row in enumerate(rows):
            # 1. new keys/values of this request
            table = r2t[row, :seqs[i]].tolist()
            if pref[i] + lens[i] != seqs[i]:
                self.errors.append(("batch-shape", f"prefix {pref[i]} + new {lens[i]} != length {seqs[i]}"))
            for s in table:
                if s not in out:
                    self.errors.append(("read-free", f"request row {row} reads slot {s} which is not allocated (table {table})"))
            ctx = []
            ok = True
            for q in range(min(pref[i], len(table))):
                c = self.kv.get(table[q])
                if c is None or len(c) != q + 1 or c[:-1] != tuple(ctx):
                    ok = False
                    break
                ctx.append(c[-1])
            for j in range(lens[i]):
                t, p, s = ids[off + j], pos[off + j], loc[off + j]
                ctx.append((t, p))
                self.kv[s] = tuple(ctx) if ok else ("bad",)
                if not ok or any(q != x[1] for q, x in enumerate(ctx)):
                    ok = False
                elif table[len(ctx) - 1] != s:
                    ok = False   # the table does not lead back to what was just written
            # 2. recurrent state (hybrid models)
            if gp is not None:
                old = self.gdn.get(int(gp.recurrent_state[0, row, 0, 0, 0]), None) if float(gp.recurrent_state[0, row, 0, 0, 0]) else ()
                new = (old or ()) + tuple(ids[off:off + lens[i]])
                if ok and new != tuple(x[0] for x in ctx):
                    ok = False
                    self.errors.append(("state-mismatch", f"recurrent state of {old} continued with {ids[off:off+lens[i]]}, context {ctx}"))
                key = None
                for k, v in self.gdn.items():
                    if v == new:
                        key = k
                if key is None:
                    key = len(self.gdn) + 1
                    self.gdn[key] = new
                gp.recurrent_state[0, row, 0, 0, 0] = float(key)
            for j in range(lens[i]):
                last = j == lens[i] - 1
                if last:
                    tok = nxt([x[0] for x in ctx]) if ok else GARBAGE
                else:
                    tok = GARBAGE + 1      # logits of a non-final position must never be sampled
                logits[off + j, tok] = 1.0
            off += lens[i]
        return logits


class FakeRunner(ModelRunner):
    def __init__(self, server_config=None, model_config=None, gpu_id=0):
        self.server_config, self.model_config, self.gpu_id = server_config, model_config, gpu_id
        self.device = "cpu"
        self.dtype = torch.float32
        self.graph_runner = None
        self.forward_pass_id = 0
        self.vocab_size = VOCAB

    def initialize(self):
        c = self.server_config.harness
        self.req_to_token_pool = make_req_to_token_pool(c["rows"], c.get("ctx", 24), "cpu")
        # stale rows hold another slot number, as they do in a long-running server
        self.token_to_kv_pool, _ = make_full_attention_net_mem_pool(
            size=c["pool"], layer_num=1, k_head_num=1, k_head_dim=1, v_head_num=1, v_head_dim=1, device="cpu",
            dtype=torch.float32, pin_memory=False)
        self.token_to_kv_pool_allocator = TrackedAllocator(size=c["pool"], device="cpu", page_size=1)
        self.num_gdn_layers = 1 if c.get("hybrid") else 0
        self.gdn_pool = None
        if c.get("hybrid"):
            self.gdn_pool = GDNPool(max_reqs=c["rows"], num_gdn_layers=1, num_v_heads=1, head_k_dim=1, head_v_dim=1,
                                    conv_dim=1, conv_kernel_size=2, device="cpu", dtype=torch.float32,
                                    max_track_slots=c.get("track", c["rows"]))
        self.attn_backend = AttnStub()
        self.max_total_num_tokens = c["pool"]
        self.max_running_requests = c["rows"]
        self.model = FakeModel(self)


FOCUS = {
    "P01": {"slot-twice", "slot-padding", "double-free", "read-free", "leak", "leak-after-evict", "row-leak", "row-shared",
            "track-leak", "cache-exceeds"},
    "P02": {"wrong-output", "state-mismatch", "batch-shape"},
    "P03": {"lost-increment", "dup-final", "wrong-final", "wrong-reason", "after-final", "increment-order", "foreign-output",
            "never-served", "aborted-final", "wrong-counts", "ignored-abort"},
    "P04": {"too-many-running", "prefill-limit", "token-limit", "budget-drift", "kv-overcommit", "limit-stuck", "overtaken", "refused"},
}


def rid_of(i):
    """request ids of which each is a prefix of the next"""
    return "r" + "0" * i


class ServeH:
    def __init__(self, cfg):
        self.cfg = cfg
        self.focus = cfg["focus"]
        clock.active = True
        _time.time = lambda: 0.0
        _time.perf_counter = lambda: 0.0
        mrmod.ModelRunner = FakeRunner
        spmod.SharedMemoryManager = types.SimpleNamespace(read_metadata=lambda m, unlink=True: m, cleanup=lambda m: None)
        sc = types.SimpleNamespace(disable_radix_cache=not cfg.get("cache", True), enable_mamba_cache=cfg.get("mamba", False),
                                   radix_cache_page_size=cfg.get("page", 1), decode_log_interval=2, harness=cfg)
        mc = types.SimpleNamespace(hf_config=types.SimpleNamespace(sliding_window=cfg.get("window")))
        self.shm = SharedBox() if cfg.get("shared_queue") else None
        self.p = SchedulerProcess("in", "out", server_config=sc, model_config=mc,
                                  shared_queue=self.shm, enable_shared_queue=self.shm is not None,
                                  max_running_requests=cfg.get("max_running", 8), max_prefill_tokens=cfg.get("max_prefill", 64),
                                  max_total_tokens=cfg.get("max_total", cfg["pool"]), eos_token_ids=cfg.get("eos", []),
                                  default_max_new_tokens=cfg.get("default_new", 2))
        self.inbox, self.outbox = Inbox(), Outbox()
        self.p._poller = self.p._recv_from_tokenizer = self.p._idle_sleeper = self.inbox
        self.p._send_to_detokenizer = self.outbox
        self.p.init_model()
        self.runner = self.p._model_runner._runner
        self.cache = self.p._model_runner._radix_cache
        self.batches = []      # (mode, rids, prompt lengths) of every batch handed to the model runner
        inner = self.p._model_runner._forward_batch
        self.inner_forward = inner
        self.p._model_runner._forward_batch = self.on_batch
        self.req = {}      # rid -> dict(template, got tokens, done, aborted)
        self.nsub = 0
        self.idle = True
        self.dead = False
        self.drained = False

    # --- helpers
    def bad(self, sig, msg):
        if sig in FOCUS[self.focus]:
            raise Violation(sig, msg)

    def expected(self, t):
        """tokens and finish reason the request must produce on its own"""
        sp = {k: v for k, v in t["sp"].items() if v is not None}
        if t.get("bad"):
            return [], "abort"
        n = sp.get("max_new_tokens", self.cfg.get("default_new", 2))
        stops = set(sp.get("stop_token_ids", [])) | set(self.cfg.get("eos", []))
        out = []
        for tok in gen(t["prompt"], n):
            out.append(tok)
            if tok in stops:
                return out, "eos"
        return out, "length"

    def fits(self, t):
        need = len(t["prompt"])
        lim = self.cfg.get("max_total", self.cfg["pool"])
        exp, _ = self.expected(t)
        if t.get("bad") or None in t["sp"].values():
            return False       # may be refused
        return (0 < need <= self.cfg.get("max_prefill", 64) and need + len(exp) <= lim and need + len(exp) <= self.cfg["pool"])

    def live(self):
        return [r for r, q in self.req.items() if not q["done"]]

    def pend(self):
        return bool(self.inbox.msgs or (self.shm and self.shm.msgs))

    # --- actions
    def actions(self):
        if self.dead or self.drained:
            return []
        a = []
        if self.pend() or not self.idle:
            a.append(("step",))
        for i, t in enumerate(self.cfg["reqs"]):
            r = rid_of(i)
            if r not in self.req:
                if all(rid_of(j) in self.req for j in t.get("after", [])):
                    a.append(("submit", i))
            elif t.get("abort") and not self.req[r]["aborted"] and not self.req[r]["done"]:
                a.append(("abort", i))
        if not self.idle or self.pend() or self.req:
            a.append(("drain",))
        return a

    def apply(self, a):
        if a[0] == "submit":
            t = self.cfg["reqs"][a[1]]
            rid = rid_of(a[1])
            self.req[rid] = dict(t=t, got=[], done=False, aborted=False, prompt=len(t["prompt"]), run=False, pref=0, len=0)
            (self.inbox if self.shm is None else self.shm).msgs.append(TokenizedGenerateReqInput(
                rid=rid, input_ids=list(t["prompt"]), sampling_params=dict(t["sp"]), stream=t.get("stream", False)))
        elif a[0] == "abort":
            rid = rid_of(a[1])
            self.req[rid]["aborted"] = True
            self.inbox.msgs.append({"rid": rid, "abort": True})
        elif a[0] == "step":
            self.step()
        else:
            self.drain()

    def on_batch(self, batch):
        """Called at the scheduler / model-runner boundary."""
        mode, rids = batch["forward_mode"], [m["rid"] for m in batch["requests"]]
        running = [r for r, q in self.req.items() if q["run"] and not q["done"] and not q["aborted"]]
        own = sum(self.req[r]["len"] - self.req[r]["pref"] for r in running)
        new = rids if mode == "extend" else []
        n = sum(len(self.req[r]["t"]["prompt"]) for r in new)
        for i, (r, q) in enumerate(self.req.items()):
            if r in new or q["run"] or q["done"] or q["aborted"] or not self.fits(q["t"]):
                continue
            need = len(q["t"]["prompt"])
            over = [x for x in list(self.req)[i + 1:] if x in new and len(self.req[x]["t"]["prompt"]) >= need]
            if over:
                self.bad("overtaken", f"{over} admitted before {r}, which came first and needs no more")
            if (len(running) + len(new) < self.cfg.get("max_running", 8) and n + need <= self.cfg.get("max_prefill", 64)
                    and own + n + need <= self.cfg.get("max_total", self.cfg["pool"])):
                self.bad("refused", f"{r} ({need} tokens) is kept waiting although {len(running)} running requests hold {own} tokens, {new} bring {n}, "
                                    f"limits {self.cfg.get('max_running', 8)}/{self.cfg.get('max_prefill', 64)}/{self.cfg.get('max_total', self.cfg['pool'])}")
        if mode == "extend":
            if len(running) + len(rids) > self.cfg.get("max_running", 8):
                self.bad("too-many-running", f"{rids} admitted while {running} are running, limit {self.cfg.get('max_running', 8)}")
            if n > self.cfg.get("max_prefill", 64):
                self.bad("prefill-limit", f"{n} prompt tokens admitted in one step, limit {self.cfg.get('max_prefill', 64)}")
            if own + n > self.cfg.get("max_total", self.cfg["pool"]):
                self.bad("token-limit", f"{rids} ({n} tokens) admitted while running requests hold {own} tokens of their own, "
                                        f"limit {self.cfg.get('max_total', self.cfg['pool'])}")
        try:
            res = self.inner_forward(batch)
        except RuntimeError as e:
            if self.overcommitted(mode, rids):
                # admission reserves prompts only: decoding may outgrow the pool
                self.dead = True
                if "kv-overcommit" in FOCUS[self.focus]:
                    raise Violation("kv-overcommit", f"server loop died: {e}")
                raise LoopStop()
            raise
        for o in res["outputs"]:
            q = self.req[o["rid"]]
            if mode == "extend":
                q["run"] = True
                q["pref"] = o["prefix_len"]
                q["len"] = len(q["t"]["prompt"])
            q["len"] += 1
        return res

    def overcommitted(self, mode, rids):
        """True if the running requests really need more slots than the pool has (counting no sharing)."""
        need = 0
        for r, q in self.req.items():
            if q["done"] or (q["aborted"] and r not in rids):
                continue
            if r in rids and mode == "extend":
                need += len(q["t"]["prompt"])
            elif q["run"]:
                need += q["len"]
        return need > self.cfg["pool"]

    def step(self):
        self.inbox.drained = False
        for q in self.req.values():
            if q["aborted"] is not False:
                q["aborted"] = min(int(q["aborted"]) + 1, 3)      # True (1): abort sent; then counts iterations
        m = self.runner.model
        m.steps.clear()
        try:
            self.p.event_loop()
        except LoopStop:
            pass
        if self.dead:
            return
        ran = bool(m.steps)
        self.idle = not ran and not self.pend()
        self.after_step()

    def after_step(self):
        al, m = self.runner.token_to_kv_pool_allocator, self.runner.model
        for sig, msg in al.errors + m.errors:
            self.bad(sig, msg)
        al.errors.clear()
        m.errors.clear()
        for msg in self.outbox.msgs:
            self.deliver(msg)
        self.outbox.msgs.clear()

    def deliver(self, msg):
        n = len(msg["rids"])
        if n != 1:
            # batched messages carry per-request lists for the scalar fields
            raise Violation("wrong-counts", f"message for {n} requests")
        rid = msg["rids"][0]
        fin = msg["finished_reasons"][0]
        ids = list(msg["decode_ids"])
        off = msg["read_offsets"][0]
        q = self.req.get(rid)
        if q is None:
            self.bad("foreign-output", f"output for unknown request {rid}")
            return
        if q["done"]:
            self.bad("dup-final" if fin else "after-final", f"{rid}: output {msg} after its final result")
        if off != len(q["got"]):
            self.bad("increment-order", f"{rid}: increment at offset {off}, {len(q['got'])} delivered so far")
        if not fin and not q["t"].get("stream"):
            self.bad("foreign-output", f"{rid}: increment for a non-streaming request")
        if fin != "abort" and q["aborted"] is not False and q["aborted"] >= 3:
            self.bad("ignored-abort", f"{rid}: output {msg['decode_ids']} (finished: {fin}) an iteration after the server took its abort")
        q["got"].extend(ids)
        exp, why = self.expected(q["t"])
        if list(msg["output_ids"]) != q["got"]:
            self.bad("lost-increment", f"{rid}: increments add up to {q['got']}, server holds {msg['output_ids']}")
        if q["got"] != exp[:len(q["got"])]:
            self.bad("wrong-output", f"{rid}: got {q['got']}, alone it gives {exp} (garbage token = {GARBAGE})")
        if msg["completion_tokens"][0] != len(q["got"]) or msg["prompt_tokens"][0] != q["prompt"]:
            self.bad("wrong-counts", f"{rid}: counts {msg['prompt_tokens']}/{msg['completion_tokens']} for {q['prompt']}/{len(q['got'])}")
        if fin:
            q["done"] = True
            if fin == "abort":
                if not q["aborted"] and self.fits(q["t"]):
                    self.bad("wrong-reason", f"{rid} reported aborted but was not")
            else:
                if len(q["got"]) != len(exp):
                    self.bad("wrong-final", f"{rid}: finished with {q['got']}, expected {exp}")
                if fin != why:
                    self.bad("wrong-reason", f"{rid}: finish reason {fin}, expected {why}")

    def drain(self):
        """run to quiescence, then check that everything was answered and given back"""
        n = 0
        while True:
            self.step()
            n += 1
            if self.dead:
                return
            if self.idle:
                break
            if n > 200:
                self.bad("never-served", f"still busy after {n} iterations; waiting: {self.live()}")
                break
        for rid, q in self.req.items():
            if not q["done"] and not q["aborted"]:
                self.bad("never-served", f"{rid} never got its final result (prompt {len(q['t']['prompt'])} tokens)")
        al = self.runner.token_to_kv_pool_allocator
        if getattr(self.p, "_used_tokens", 0) != 0:
            self.bad("budget-drift", f"server idle, {self.p._used_tokens} tokens still charged")
        if self.focus == "P04":
            # an idle server must still admit a prompt as long as its limits allow
            n = min(self.cfg.get("max_total", self.cfg["pool"]), self.cfg["pool"], self.cfg.get("max_prefill", 64), self.cfg.get("ctx", 24) - 2)
            t = R([300 + i for i in range(n)], 1)
            rid = "probe"
            self.req[rid] = dict(t=t, got=[], done=False, aborted=False, prompt=n, run=False, pref=0, len=0)
            (self.inbox if self.shm is None else self.shm).msgs.append(TokenizedGenerateReqInput(
                rid=rid, input_ids=list(t["prompt"]), sampling_params=dict(t["sp"]), stream=False))
            for _ in range(4):
                self.step()
                if self.dead:
                    return
            if not self.req[rid]["done"]:
                self.bad("limit-stuck", f"idle server does not admit a prompt of {n} tokens although its limits allow it")
        rows = self.runner.req_to_token_pool
        if rows.available_size() != self.cfg["rows"]:
            self.bad("row-leak", f"server idle, {rows.available_size()} of {self.cfg['rows']} request rows free")
        if al.available_size() + len(al.out) != self.cfg["pool"]:
            self.bad("leak", f"available {al.available_size()} + in use {len(al.out)} != pool {self.cfg['pool']}")
        held = self.cache.total_size() if hasattr(self.cache, "total_size") else 0
        if len(al.out) != held:
            self.bad("leak" if len(al.out) > held else "cache-exceeds",
                     f"server idle: {len(al.out)} slots in use, prefix cache holds {held} tokens")
        if hasattr(self.cache, "total_size"):
            self.cache.evict(10 ** 6)
            for sig, msg in al.errors:
                self.bad(sig, msg)
            if al.out:
                self.bad("leak-after-evict", f"server idle and cache emptied, slots {sorted(al.out)} still in use")
        gp = self.runner.gdn_pool
        if gp is not None:
            got = []
            while True:
                s = gp.alloc_track_slot()
                if s is None:
                    break
                got.append(s)
            if len(got) != self.cfg.get("track", self.cfg["rows"]) or len(set(got)) != len(got):
                self.bad("track-leak", f"server idle and cache emptied: state slots available {got}, pool has {self.cfg.get('track', self.cfg['rows'])}")
        self.drained = True

    def check(self):
        pass

    def outcome(self):
        return tuple((r, q["done"], len(q["got"]), q["aborted"]) for r, q in sorted(self.req.items()))

    def fingerprint(self):
        live = self.runner.token_to_kv_pool_allocator.out
        kv = sorted((s, repr(c)) for s, c in self.runner.model.kv.items() if s in live)
        return canon([self.p, [(r, q["got"], q["done"], q["aborted"]) for r, q in sorted(self.req.items())], self.inbox, self.idle,
                      self.drained, kv],
                     skip=("hit_count", "_cache", "_swa_boundary_counter", "hash_values", "forward_pass_id", "kv", "harness", "server_config", "model_config",
                           "token_to_kv_pool", "errors", "steps", "_forward_ct_decode", "_num_decode_tokens", "_num_prefill_tokens",
                           "_num_prefill_cache_tokens", "_num_prefill_reqs"),
                     rename_int={"id": "node", "swa_boundary_id": "swa"}, rename_keys={"_node_id_to_gdn_track_slot": "node"})


def job(cfg, depth, max_states):
    return explore(ServeH, cfg, depth, max_states=max_states, validate_every=23)


# ------------------------------------------------------------------ workloads
A = [1, 2, 3]
gA = gen(A, 4)
def R(prompt, n=2, stream=False, abort=False, stop=None, after=()):
    sp = dict(temperature=0.0, max_new_tokens=n)
    if stop is not None:
        sp["stop_token_ids"] = stop
    return dict(prompt=list(prompt), sp=sp, stream=stream, abort=abort, after=list(after))


NAN = float("nan")
BADP = [dict(sp=sp, bad=True) for sp in (
    dict(temperature="hot", max_new_tokens=2), dict(temperature=NAN, max_new_tokens=2), dict(temperature=0.0, max_new_tokens="two"),
    dict(temperature=0.0, top_k="all", max_new_tokens=2), dict(temperature=0.0, stop_token_ids=7, max_new_tokens=2),
    dict(temperature=0.5, top_p=[1], max_new_tokens=2), dict(temperature=1.0, repetition_penalty=0.0, max_new_tokens=2),
    dict(temperature=1.0, frequency_penalty=float("inf"), max_new_tokens=2), dict(temperature=-1.0, max_new_tokens=2),
    dict(temperature=0.0, presence_penalty="x", max_new_tokens=2), dict(temperature=0.0, max_new_tokens=NAN),
)] + [dict(sp=dict(temperature=0.0, max_new_tokens=2, top_k=None, stop_token_ids=None, repetition_penalty=None)),
      dict(sp=dict(temperature=0.0, max_new_tokens=None, top_p=None))]


def workloads():
    """name -> requests"""
    return {
        # identical prompts, extension of a prompt, prompt diverging inside it
        "share": [R(A, 2), R(A, 2), R(A + [4], 1), R([1, 2, 5], 1)],
        # multi-turn: second prompt = first prompt + its answer + new text
        "turns": [R(A, 2), R(A + gA[:2] + [6], 2, after=[0]), R(A + gA[:1] + [8], 1), R(A + gA[:3], 1)],
        # short prompts, streaming and stop tokens
        "short": [R([1], 2, stream=True), R([1], 3, stop=[gen([1], 2)[1]]), R([1, 2], 1, stream=True), R([1, gen([1], 1)[0]], 2)],
        "abort": [R(A, 3, stream=True, abort=True), R(A, 2), R([1, 2], 2, abort=True)],
        "stream": [R(A, 3, stream=True), R(A[:2], 2, stream=True, stop=[gen(A[:2], 1)[0]]), R([4, 4], 1, stream=True, abort=True, stop=[gen([4, 4], 1)[0]])],
        "pages": [R([1, 2, 3, 4], 2), R([1, 2, 3, 4, 5], 3), R([1, 2, 3, 5], 2), R([1, 2, 3, 4] + gen([1, 2, 3, 4], 1), 2)],
        # requests beyond the limits among ordinary ones
        "long": [R(A, 2), R(list(range(1, 11)), 2), R([], 2), R([5, 6], 2, stream=True)],
        # malformed sampling parameters end their own request only
        **{f"params{i}": [R(A, 2, stream=True), dict(R([4, 5], 2), **bad), R(A + [6], 2)] for i, bad in enumerate(BADP)},
        "split": [R([1, 2, 3, 4, 5], 1), R([1, 2, 6, 7], 1), R([1, 2, 3, 8], 1), R([1, 2], 2)],
        "deep": [R([1, 2, 3, 4, 5, 6], 3), R([1, 2, 3, 4, 5, 6, 7], 2), R([1, 2, 3, 4], 4, abort=True), R([1, 2, 3, 4, 5, 9, 9], 1)],
        # a fully cached prompt decodes while a stranger needs its slots evicted; two hits in one batch that needs eviction
        "pressure": [R(A, 2), R(A, 4), R([7, 8, 9, 10, 11], 1)],
        "twohits": [R([1, 2, 3, 4], 1), R([7, 8, 9], 1), R([1, 2, 5, 6], 2, after=[0, 1]), R([7, 8, 9, 1, 2], 2, after=[0, 1])],
        "eos": [R(A, 4), R(A + gA[:1], 4, stream=True), R([1, 2], 3, stop=[gA[1]])],
    }


def jobs(focus, thorough):
    w = workloads()
    d = 10 if thorough else 7
    out = []

    def add(name, wl, n=3, **kw):
        cfg = dict(focus=focus, pool=24, rows=4, reqs=w[wl][:n if not thorough else 4])
        cfg.update(kw)
        out.append((f"{wl}/{name}", job, dict(cfg=cfg, depth=d, max_states=60000 if thorough else 6000)))
    for wl in w:
        if wl in ("long", "pressure", "twohits"):
            continue
        if wl.startswith("params"):
            if focus == "P03":
                add("cache", wl)
            continue
        add("cache", wl, eos=[gA[2]] if wl == "eos" else [])
        add("nocache", wl, cache=False, eos=[gA[2]] if wl == "eos" else [])
    for wl in ("share", "turns", "pages", "split", "deep", "abort"):
        add("page2", wl, page=2)
        add("page3", wl, page=3)
        add("window2", wl, window=2)
        add("window3", wl, window=3)
        add("hybrid", wl, hybrid=True)
        add("hybrid-track1", wl, hybrid=True, track=1)
        add("mamba", wl, hybrid=True, mamba=True)
        add("mamba-nostate", wl, mamba=True)
        add("hybrid-page2", wl, hybrid=True, page=2)
        add("hybrid-window2", wl, hybrid=True, window=2)
        add("hybrid-nocache", wl, hybrid=True, cache=False)
        add("mamba-page2", wl, hybrid=True, mamba=True, page=2)
    for wl, pool in (("share", 8), ("turns", 8), ("split", 8), ("deep", 10), ("abort", 8), ("pages", 8)):
        add(f"pool{pool}", wl, pool=pool)
        add(f"pool{pool}-nocache", wl, pool=pool, cache=False)
        add(f"pool{pool + 3}", wl, pool=pool + 3)
        add(f"pool{pool + 3}-one", wl, pool=pool + 3, max_running=1)
        add(f"pool{pool + 3}-hybrid", wl, pool=pool + 3, max_running=2, hybrid=True, track=2)
        add(f"pool{pool + 3}-page2", wl, pool=pool + 3, max_running=1, page=2)
        add(f"pool{pool + 3}-window2", wl, pool=pool + 3, max_running=1, window=2)
    for wl, pools in (("pressure", (8, 9, 10)), ("twohits", (9, 10, 12))):
        for pool in pools:
            add(f"pool{pool}", wl, n=4, pool=pool)
            add(f"pool{pool}-window2", wl, n=4, pool=pool, window=2)
            add(f"pool{pool}-hybrid", wl, n=4, pool=pool, hybrid=True, track=3)
            add(f"pool{pool}-page2", wl, n=4, pool=pool, page=2)
            add(f"pool{pool}-mamba", wl, n=4, pool=pool, hybrid=True, mamba=True, track=3)
    for wl in ("share", "short", "abort", "stream"):
        add("run1", wl, max_running=1)
        add("run2", wl, max_running=2)
        add("prefill4", wl, max_prefill=4)
        add("total7", wl, max_total=7)
        add("shm", wl, shared_queue=True)
    add("limits", "long", n=4, max_prefill=6, max_total=20)
    add("limits2", "long", n=4, max_prefill=20, max_total=8)
    add("limits-shm", "long", n=4, max_prefill=6, max_total=20, shared_queue=True)
    return out
