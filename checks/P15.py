"""P15: what one process hands to the next arrives once, in order, with the same values.

 payload   every nested payload over a leaf/container alphabet through the real TensorQueue (real
           multiprocessing queue, real shared memory), in each transport mode
 segment   every sequence of write / read / cleanup on the real shared-memory metadata segments
 pool      the real staging pool + IPC proxies on a simulated device: every send / receive / recycle order,
           also with the recycler running in the middle of a send or a receive, and every interleaving
           (line granularity, bounded preemptions) of an allocation with the recycler
 tokenizer every sequence of good and bad requests through the real TokenizerProcess loop, the real transport and
           the real scheduler's receive path
"""
import collections, itertools, os, pickle, queue as stdq, types
import numpy as np
import torch
from vf.core import Check, Violation, guarded, explore_replay
from vf import pysched
from pymllm.orchestrator import cuda_ipc_transport as C
from pymllm.orchestrator import shared_memory_queue as Q
from pymllm.orchestrator import scheduler_process as S
from pymllm.orchestrator import tokenizer_process as TP
from pymllm.engine.io_struct import TokenizedGenerateReqInput

Pair = collections.namedtuple("Pair", "left right")


# ---------------------------------------------------------------------------------------------------------------
# simulated CUDA device: tensors of a subclass that says is_cuda, exported by handle, opened by handle
# ---------------------------------------------------------------------------------------------------------------
class Dev(torch.Tensor):
    is_cuda = True
    device = torch.device("cuda:0")

    def untyped_storage(self):
        return Export(self.as_subclass(torch.Tensor).untyped_storage())

    def cpu(self):
        return self.as_subclass(torch.Tensor).clone()

    def __reduce_ex__(self, proto):
        t = self.as_subclass(torch.Tensor)
        return (_dev, (t.detach().clone(memory_format=torch.preserve_format),))


def _dev(t):
    return t.as_subclass(Dev)


HANDLES = {}
EXPORT_OK = True


class Export:
    def __init__(self, st):
        self.st = st

    def _share_cuda_(self):
        if not EXPORT_OK:
            raise RuntimeError("simulated: cannot export")
        HANDLES[self.st.data_ptr()] = self.st
        return (self.st.data_ptr(),)


class _Ctx:
    def __enter__(self): return self
    def __exit__(self, *a): return False


class FakeTorch:
    def __getattr__(self, n):
        return getattr(torch, n)

    def _mk(self, f, a, device, kw):
        t = f(*a, **kw)
        return t if device is None or "cuda" not in str(device) else t.as_subclass(Dev)

    def empty(self, *a, device=None, **kw):
        return self._mk(torch.empty, a, device, kw)

    def zeros(self, *a, device=None, **kw):
        return self._mk(torch.zeros, a, device, kw)

    class cuda:
        @staticmethod
        def device(_):
            return _Ctx()

        @staticmethod
        def is_available():
            return True

        @staticmethod
        def current_device():
            return 0

    class UntypedStorage:
        @staticmethod
        def _new_shared_cuda(*h):
            return HANDLES[h[0]]


class FakeShm:
    """In-process stand-in for multiprocessing.shared_memory.SharedMemory."""
    segs = {}
    n = 0

    def __init__(self, name=None, create=False, size=0):
        if create:
            if size <= 0:
                raise ValueError("'size' must be a positive number different from zero")
            if name is None:
                FakeShm.n += 1
                name = f"anon{FakeShm.n}"
            if name in self.segs:
                raise FileExistsError(name)
            self.segs[name] = bytearray(size)
        elif name not in self.segs:
            raise FileNotFoundError(name)
        self.name = name
        self.buf = memoryview(self.segs[name])
        self.size = len(self.segs[name])

    def close(self):
        pass

    def unlink(self):
        if self.name not in self.segs:
            raise FileNotFoundError(self.name)
        del self.segs[self.name]


class _NoThread:
    def __init__(self, *a, **k): self.target = k.get("target")
    def start(self): pass
    def is_alive(self): return False
    def join(self, timeout=None): pass


def install(lock=None):
    FakeShm.segs, FakeShm.n = {}, 0
    HANDLES.clear()
    C.torch = FakeTorch()
    C.shared_memory = types.SimpleNamespace(SharedMemory=FakeShm)
    C.threading = types.SimpleNamespace(Lock=lock or pysched.CoopLock, RLock=lock or pysched.CoopLock, Thread=_NoThread,
                                        Event=__import__("threading").Event, Condition=None)


# ---------------------------------------------------------------------------------------------------------------
def same(a, b, path="payload"):
    """None if b carries the value of a, else a description."""
    if isinstance(a, torch.Tensor):
        if not isinstance(b, torch.Tensor):
            return f"{path}: tensor became {type(b).__name__}"
        x, y = a.detach().as_subclass(torch.Tensor), b.detach().as_subclass(torch.Tensor)
        if x.dtype != y.dtype or x.shape != y.shape:
            return f"{path}: {x.dtype}{tuple(x.shape)} became {y.dtype}{tuple(y.shape)}"
        if not torch.equal(x, y):
            return f"{path}: values {x.reshape(-1).tolist()} became {y.reshape(-1).tolist()}"
        return None
    if isinstance(a, np.ndarray):
        return None if isinstance(b, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b) else f"{path}: array changed"
    if isinstance(a, collections.UserDict):
        if not isinstance(b, (dict, collections.UserDict)):
            return f"{path}: mapping became {type(b).__name__}"
        return same(dict(a), dict(b), path)
    if isinstance(a, dict):
        if not isinstance(b, (dict, collections.UserDict)) or list(a) != list(b):
            return f"{path}: keys {list(a)} became {list(b) if hasattr(b, '__iter__') else b!r}"
        for k in a:
            e = same(a[k], b[k], f"{path}[{k!r}]")
            if e:
                return e
        return None
    if isinstance(a, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            return f"{path}: {type(a).__name__} of {len(a)} became {type(b).__name__}" + (f" of {len(b)}" if hasattr(b, "__len__") else "")
        for i, (x, y) in enumerate(zip(a, b)):
            e = same(x, y, f"{path}[{i}]")
            if e:
                return e
        return None
    return None if type(a) is type(b) and a == b else f"{path}: {a!r} became {b!r}"


def leaf(name, dev=False):
    f = {
        "f32": lambda: torch.tensor([[1.5, -2.0], [0.0, 3.25]]),
        "bf16": lambda: torch.tensor([1.5, -2.0, 8.0]).to(torch.bfloat16),
        "i64": lambda: torch.tensor([2**40, -1, 3]),
        "bool": lambda: torch.tensor([True, False, True]),
        "u8": lambda: torch.tensor([0, 255, 7], dtype=torch.uint8),
        "empty": lambda: torch.zeros(0, 3),
        "scalar": lambda: torch.tensor(2.5),
        "transposed": lambda: torch.arange(6.0).view(2, 3).t(),
        "strided": lambda: torch.arange(12, dtype=torch.int32).view(3, 4)[:, 1::2],
        "tail": lambda: torch.arange(9, dtype=torch.int16)[4:7],
        "expanded": lambda: torch.tensor([[4.0], [5.0]]).expand(2, 3),
        "shared": lambda: torch.arange(3.0).share_memory_(),
    }.get(name)
    if f:
        t = f()
        return t.as_subclass(Dev) if dev else t
    return {"none": None, "int": 7, "str": "päyload", "bytes": b"\x00\xff", "np": np.arange(4.0).reshape(2, 2)}[name]


TENSORS = ["f32", "bf16", "i64", "bool", "u8", "empty", "scalar", "transposed", "strided", "tail", "expanded", "shared"]
OTHER = ["none", "int", "str", "bytes", "np"]
BOX = ["dict", "list", "tuple", "namedtuple", "userdict"]


def build(tree, dev=False):
    if isinstance(tree, str):
        if tree.startswith("@"):
            return leaf(tree[1:], True)
        return leaf(tree)
    box, kids = tree[0], [build(k) for k in tree[1:]]
    if box == "dict":
        return {f"k{i}": k for i, k in enumerate(kids)}
    if box == "userdict":
        return collections.UserDict({f"k{i}": k for i, k in enumerate(kids)})
    if box == "list":
        return kids
    if box == "tuple":
        return tuple(kids)
    return Pair(kids[0], kids[1] if len(kids) > 1 else None)


def trees(thorough):
    lv = TENSORS + OTHER
    for a in lv:
        yield ("dict", a)
    small = ["f32", "strided", "scalar", "none", "str"] + (["empty", "i64", "np"] if thorough else [])
    for b in BOX:
        yield ("dict", (b,))if b != "namedtuple" else ("dict", (b, "none"))
        for a in lv:
            yield ("dict", (b, a))
        for x, y in itertools.product(small, small):
            yield ("dict", (b, x, y))
    for b, c in itertools.product(BOX, BOX):
        for x in small:
            yield ("dict", (b, (c, x), "f32"))
            yield ("dict", "str", (b, "i64", (c, x, "tail")))
    for a in TENSORS:
        yield ("dict", "@" + a)
        yield ("dict", ("list", a, "@" + a), ("namedtuple", "@" + a, "str"))
    for b in BOX:
        for x, y in itertools.product(["@f32", "@strided", "@scalar", "f32", "none"], repeat=2):
            yield ("dict", (b, x, y))


def job_payload(mode, pool_bytes, export_ok, thorough, part, parts):
    global EXPORT_OK
    st = dict(states=0, transitions=0, validated=0, exhaustive=True, samples=[])
    viols = {}
    install()
    EXPORT_OK = export_ok
    pool = guarded(lambda: C.MmItemMemoryPool(pool_bytes)) if pool_bytes else None
    q = Q.TensorQueue(transport_mode=mode, pool=pool)

    def one(i, tree):
        src = build(tree)
        ref = build(tree)
        q.put(f"r{i}", f"s{i}", src)
        rid, shm, got = q.get(timeout=10)
        if mode != "default":
            got = C.unwrap_mm_inputs_from_ipc(got)
        if (rid, shm) != (f"r{i}", f"s{i}"):
            raise Violation("order", f"asked for message {i}, got {rid}/{shm}")
        e = same(ref, got)
        if e:
            raise Violation("value-" + mode, f"{e} (payload {tree}, transport {mode})")
        if pool is not None:
            with pool._lock:
                pool._recycle_chunks(); pool._merge_chunks()
            areas = [c.area for c in pool.available_chunks if c.mem_size]
            if pool.occupied_chunks or areas != [(0, pool_bytes)]:
                raise Violation("pool-leak", f"after {tree} was consumed the pool is not whole again: free {areas}, "
                                f"occupied {[c.area for c in pool.occupied_chunks]}")

    for i, tree in enumerate(trees(thorough)):
        if i % parts != part:
            continue
        st["states"] += 1; st["transitions"] += 2; st["validated"] += 1
        try:
            guarded(lambda: one(i, tree))
        except Violation as v:
            if v.sig not in viols:
                viols[v.sig] = dict(sig=v.sig, msg=v.msg + f"\npayload {tree}", cfg=dict(mode=mode, pool=pool_bytes), hist=[["put", repr(tree)], ["get"]])
            q = Q.TensorQueue(transport_mode=mode, pool=pool)
            if pool is not None:
                pool = C.MmItemMemoryPool(pool_bytes); q = Q.TensorQueue(transport_mode=mode, pool=pool)
            if len(viols) > 6:
                break
        if len(st["samples"]) < 1:
            st["samples"].append([["put", repr(tree)], ["get"]])
    q._queue.cancel_join_thread(); q.close()
    return st, list(viols.values())


class OrderH:
    """put / get on one queue: first in, first out, nothing lost."""

    def __init__(self, cfg):
        self.q = Q.TensorQueue()
        self.sent = self.got = 0

    def actions(self):
        return [("put", k) for k in ("t", "none")] + ([("get",)] if self.got < self.sent else [])

    def apply(self, a):
        if a[0] == "put":
            self.q.put(f"r{self.sent}", f"s{self.sent}", None if a[1] == "none" else {"n": torch.tensor([self.sent])})
            self.sent += 1
        else:
            rid, shm, mm = self.q.get(timeout=10)
            if (rid, shm) != (f"r{self.got}", f"s{self.got}") or (mm is not None and mm["n"].item() != self.got):
                raise Violation("order", f"message {self.got} expected, got {rid}/{shm}/{mm}")
            self.got += 1

    def check(self): pass

    def fingerprint(self):
        return (self.sent, self.got)

    def close(self):
        self.q._queue.cancel_join_thread(); self.q.close()


# ---------------------------------------------------------------------------------------------------------------
RIDS = ["a", "b", "a/b", "x" * 300, "é", "..", "", "a b%"]


class SegH:
    """metadata segments (in-process stand-in for POSIX shared memory with its naming rules)"""

    class Shm(FakeShm):
        def __init__(self, name=None, create=False, size=0):
            if name is not None and ("/" in name or len(name.encode()) > 254 or "\0" in name):
                raise OSError(22 if "/" in name else 36, "bad segment name", name)
            super().__init__(name, create, size)

    def __init__(self, cfg):
        FakeShm.segs, FakeShm.n = {}, 0
        Q.SharedMemory = SegH.Shm
        self.live, self.dead, self.n = [], [], 0

    def actions(self):
        return ([("write", r) for r in range(len(RIDS))] + [(o, i) for i in range(len(self.live)) for o in ("read", "peek", "cleanup")]
                + [("reread", i) for i in range(len(self.dead))])

    def apply(self, a):
        M = Q.SharedMemoryManager
        if a[0] == "write":
            meta = {"rid": RIDS[a[1]], "n": self.n, "ids": list(range(self.n * 50))}
            name = M.write_metadata(RIDS[a[1]], meta)
            if any(name == n for n, _ in self.live):
                raise Violation("segment-name", f"two live segments share the name {name}")
            self.live.append((name, meta)); self.n += 1
            return
        if a[0] == "reread":
            try:
                M.read_metadata(self.dead[a[1]])
            except FileNotFoundError:
                return
            raise Violation("segment-twice", "a consumed segment could be read again")
        name, meta = self.live[a[1]]
        if a[0] == "cleanup":
            M.cleanup(name)
        else:
            got = M.read_metadata(name, unlink=a[0] == "read")
            if got != meta:
                raise Violation("segment-value", f"wrote {meta}, read {got}")
        if a[0] != "peek":
            self.live.pop(a[1]); self.dead.append(name)

    def check(self):
        if len(FakeShm.segs) != len(self.live):
            raise Violation("segment-leak", f"{len(FakeShm.segs)} segments exist, {len(self.live)} are live")

    def fingerprint(self):
        return (tuple((m["rid"], m["n"]) for _, m in self.live), len(self.dead), self.n)


# ---------------------------------------------------------------------------------------------------------------
def nbytes(t):
    return t.numel() * t.element_size()


KINDS = {"b1": lambda: torch.tensor([1], dtype=torch.int8), "f1": lambda: torch.tensor([1.5]),
         "f2": lambda: torch.tensor([[2.5, -1.0]]), "h3": lambda: torch.tensor([1.0, 2.0, 3.0]).to(torch.float16),
         "zero": lambda: torch.zeros(0), "sc": lambda: torch.tensor(3.5),
         "tr": lambda: torch.arange(4, dtype=torch.int16).view(2, 2).t(), "big": lambda: torch.arange(3.0)}


class PoolH:
    def __init__(self, cfg):
        global EXPORT_OK
        install()
        self.cfg = cfg
        EXPORT_OK = cfg.get("export", True)
        self.nc = cfg.get("consumers", 1)
        self.size = cfg["size"]
        self.pool = C.MmItemMemoryPool(self.size, num_consumers=self.nc)
        self.flight = []      # dict(ref, copies[bytes], area)
        self.n = 0
        self.mid = False
        inner_get = self.pool.get_slice_with_flag

        def get_slice(src):
            r = inner_get(src)
            if self.mid:
                self.recycle()
            return r
        self.pool.get_slice_with_flag = get_slice
        inner_inc = C.__dict__.setdefault("_real_inc", C._increment_sync_flag)

        def inc(meta):
            if self.mid:
                self.recycle()
            inner_inc(meta)
        C._increment_sync_flag = inc

    def recycle(self):
        with self.pool._lock:
            self.pool._recycle_chunks()
            self.pool._merge_chunks()

    def actions(self):
        a = []
        if len(self.flight) < self.cfg.get("inflight", 3):
            a += [("send", k) for k in self.cfg["kinds"]] + [("send-mid", k) for k in self.cfg["kinds"][:2]]
        a += [(o, i) for i in range(len(self.flight)) for o in ("recv", "recv-mid")]
        return a + [("recycle",)]

    def apply(self, a):
        self.mid = a[0].endswith("-mid")
        if a[0] == "recycle":
            self.recycle()
        elif a[0].startswith("send"):
            t = KINDS[a[1]]()
            if t.numel() and t.dtype.is_floating_point:
                t = t + self.n
            occ = [c.area for c in self.pool.occupied_chunks]
            w = C.wrap_mm_inputs_for_ipc({"t": t.as_subclass(Dev)}, "cuda_ipc_pool", self.pool)
            new = [c.area for c in self.pool.occupied_chunks if c.area not in occ]
            self.flight.append(dict(ref=t.clone(), kind=a[1], area=new[0] if new else None,
                                    copies=[pickle.dumps(w) for _ in range(self.nc)], n=self.n))
            self.n += 1
        else:
            m = self.flight[a[1]]
            got = C.unwrap_mm_inputs_from_ipc(pickle.loads(m["copies"].pop()))
            e = same({"t": m["ref"]}, got)
            if e:
                raise Violation("value-pool", f"message {m['n']} ({m['kind']}): {e}")
            if not m["copies"]:
                self.flight.pop(a[1])
        self.mid = False

    def check(self):
        av = sorted(c.area for c in self.pool.available_chunks if c.mem_size)
        oc = sorted(c.area for c in self.pool.occupied_chunks if c.mem_size)
        pos = 0
        for s, e in sorted(av + oc):
            if s != pos or e > self.size:
                raise Violation("pool-partition", f"free {av} and occupied {oc} do not tile the pool of {self.size}")
            pos = e
        if pos != self.size:
            raise Violation("pool-partition", f"free {av} and occupied {oc} do not tile the pool of {self.size}")
        flags = [id(c.sync_flag) for c in self.pool.available_chunks + self.pool.occupied_chunks]
        if len(set(flags)) != len(flags):
            raise Violation("pool-flag", "two chunks share one completion flag")
        # every unconsumed message still arrives intact (on copies: consuming must not change the state)
        if self.cfg.get("export", True):
            for m in self.flight:
                p = pickle.loads(m["copies"][0])["t"]
                if not isinstance(p, C.CudaIpcTensorTransportProxy):
                    continue
                p.sync_data_meta = dict(p.sync_data_meta)
                keep = C._increment_sync_flag
                C._increment_sync_flag = lambda meta: None
                try:
                    e = same(m["ref"], p.reconstruct_on_device())
                finally:
                    C._increment_sync_flag = keep
                if e:
                    raise Violation("value-pool", f"message {m['n']} ({m['kind']}) was overwritten before it was received: {e}")
        if not self.flight:
            # all consumed: two recycler rounds must return everything
            snap = pickle.dumps([(c.area) for c in self.pool.available_chunks])
            del snap
            occ = [(c.area, float(c.sync_flag._arr.item())) for c in self.pool.occupied_chunks]
            if any(f < self.nc for _, f in occ):
                raise Violation("pool-leak", f"every message was received but these chunks can never be recycled: {occ}")
        self.whole()

    def whole(self):
        if self.flight or self.pool.occupied_chunks:
            return
        av = [c.area for c in self.pool.available_chunks if c.mem_size]
        if self.hist_last_recycle() and av != [(0, self.size)]:
            raise Violation("pool-fragmented", f"nothing in use, yet the free list is {av}")

    def hist_last_recycle(self):
        return len(self.pool.available_chunks) == 1

    def fingerprint(self):
        return (tuple((c.area, float(c.sync_flag._arr.item())) for c in self.pool.available_chunks),
                tuple((c.area, float(c.sync_flag._arr.item())) for c in self.pool.occupied_chunks), len(self.pool._sync_pool) if hasattr(self.pool, "_sync_pool") else 0,
                tuple((m["kind"], m["area"], len(m["copies"])) for m in self.flight))


def job_race(bound, scen):
    """An allocation against one round of the recycler thread, every interleaving of their lines."""
    st = dict(states=0, transitions=0, validated=0, exhaustive=True, samples=[])
    viols = {}
    hold = {}

    class Stop(Exception):
        pass

    def make():
        install(pysched.CoopLock)
        pool = C.MmItemMemoryPool(16)
        live = []
        for k in scen["before"]:
            meta, sl = pool.get_slice_with_flag(KINDS[k]())
            live.append((meta, sl))
        for i in scen["consumed"]:
            C.__dict__.get("_real_inc", C._increment_sync_flag)(live[i][0])
        still = [live[i] for i in range(len(live)) if i not in scen["consumed"]]
        got = []

        def a():
            for k in scen["send"]:
                got.append(pool.get_slice_with_flag(KINDS[k]()))

        def sleep(_):
            raise Stop()
        C.time = types.SimpleNamespace(sleep=sleep, time=lambda: 0.0, monotonic=lambda: 0.0)

        def b():
            try:
                pool._recycle_loop()
            except Stop:
                pass

        def check(excs, trace):
            for e in excs:
                if e is not None:
                    raise Violation("race-exception", f"{type(e).__name__}: {e} under schedule {trace}")
            av = [c.area for c in pool.available_chunks if c.mem_size]
            oc = [c.area for c in pool.occupied_chunks if c.mem_size]
            pos = 0
            for s, e in sorted(av + oc):
                if s != pos:
                    raise Violation("race-partition", f"free {av} and occupied {oc} do not tile the pool (schedule {trace})")
                pos = e
            if pos != 16:
                raise Violation("race-partition", f"free {av} and occupied {oc} do not tile the pool (schedule {trace})")
            flags = [c.sync_flag.meta_data["handle"] for c in pool.available_chunks + pool.occupied_chunks]
            if len(set(flags)) != len(flags):
                raise Violation("race-flag", f"two chunks share one completion flag (schedule {trace})")
            want = sum(1 for m, sl in still + got if sl is not None and sl.numel())
            if len(oc) != want:
                raise Violation("race-occupied", f"{want} slices are in use, {len(oc)} chunks are occupied (schedule {trace})")
        return [a, b], check

    def go():
        return pysched.run_all(make, bound, ("cuda_ipc_transport.py",))
    try:
        n, steps, ex = guarded(go, 600)
        st.update(states=n, transitions=steps, validated=n, exhaustive=ex)
    except Violation as v:
        viols[v.sig] = dict(sig=v.sig, msg=v.msg, cfg=scen, hist=[])
    st["samples"].append([["schedules", st["states"]]])
    return st, list(viols.values())


# ---------------------------------------------------------------------------------------------------------------
class ShmQ(Q.TensorQueue):
    """The real TensorQueue over a plain list instead of a pipe (payloads are pickled)."""

    def __init__(self, mode, pool=None):
        super().__init__(transport_mode=mode, pool=pool)
        self._queue.close()
        box = []

        class B:
            def put(self, m): box.append(pickle.dumps(m))
            def get(self, block=True, timeout=None):
                if not box:
                    raise stdq.Empty()
                return pickle.loads(box.pop(0))
            def empty(self): return not box
            def qsize(self): return len(box)
            def close(self): pass
        self._queue = B()


class Box:
    def __init__(self): self.msgs = []
    def send_pyobj(self, m, *a): self.msgs.append(pickle.dumps(m))
    def recv_pyobj(self, *a):
        return pickle.loads(self.msgs.pop(0))
    def poll(self, timeout=None): return {self: 1} if self.msgs else {}
    def sleep(self): pass
    def register(self, *a): pass
    def close(self): pass


class Eot(BaseException):
    pass


class Proc:
    """stand-in multimodal processor"""

    def __call__(self, images=None, text=None, return_tensors=None):
        if any(isinstance(i, dict) for i in images):
            raise ValueError("cannot process")
        return {"pixel_values": torch.full((1, 2), 7.0), "input_ids": torch.tensor([[5, 6, 7]])}


REQS = {
    "text": dict(text="ab"),
    "ids": dict(input_ids=[4, 5], text="zz"),
    "slash": dict(text="c", rid="a/b"),
    "long": dict(text="d", rid="y" * 300),
    "image": dict(text="e", image_data=[torch.ones(2)]),
    "img-proc-fails": dict(text="f", image_data=[{"not": "an image"}]),
    "img-missing": dict(text="g", image_data="/nonexistent/picture.png"),
    "img-tensor": dict(input_ids=[1], audio_data=torch.arange(3.0), video_data={"v": torch.tensor([[1, 2]])}),
    "nothing": dict(),
    "bad-text": dict(text=[]),
    "bad-number": dict(text="h", top_logprobs_num="many"),
    "abort-first": dict(abort=0),
}
BAD = {"img-missing", "nothing", "bad-text", "bad-number"}


class FailTok:
    padding_side = "left"

    def __call__(self, text, **k):
        return {"input_ids": [ord(c) for c in text]}


class PathH:
    """TokenizerProcess loop -> transport -> scheduler receive path."""

    def __init__(self, cfg):
        install()
        Q.SharedMemory = SegH.Shm
        self.cfg = cfg
        mode = cfg["mode"]
        shared = mode != "zmq"
        tmode = mode if shared else "default"
        TP.AutoTokenizer = types.SimpleNamespace(from_pretrained=lambda *a, **k: FailTok())
        TP.AutoProcessor = types.SimpleNamespace(from_pretrained=lambda *a, **k: Proc() if cfg["proc"] else (_ for _ in ()).throw(OSError()))
        self.q = ShmQ(tmode) if shared else None
        self.t = TP.TokenizerProcess("in", "out", dict(tokenizer_path="x", enable_shared_queue=shared, tensor_transport_mode=tmode,
                                                         cuda_ipc_pool_size_mb=1), self.q)
        mc = types.SimpleNamespace(hf_config=None)
        self.s = S.SchedulerProcess("in", "out", server_config=types.SimpleNamespace(disable_radix_cache=True, enable_mamba_cache=False,
                                    radix_cache_page_size=1, decode_log_interval=9), model_config=mc, shared_queue=self.q,
                                    enable_shared_queue=shared, tensor_transport_mode=tmode, max_prefill_tokens=64, max_total_tokens=64,
                                    eos_token_ids=[0], default_max_new_tokens=2)
        self.inbox, self.wire, self.out = Box(), Box(), Box()
        self.t._recv_from_rr = self
        self.t._send_to_scheduler = self.wire
        self.s._poller = self.s._recv_from_tokenizer = self.s._idle_sleeper = self.wire
        self.s._send_to_detokenizer = self.out
        self.todo, self.sent = [], []

    def recv_pyobj(self, *a):
        if not self.todo:
            raise Eot()
        return self.todo.pop(0)

    def close(self): pass

    def actions(self):
        return [("req", k) for k in REQS if k != "abort-first" or self.sent]

    def apply(self, a):
        spec = dict(REQS[a[1]])
        if "abort" in spec:
            self.todo.append({"rid": self.sent[0][0], "abort": True})
        else:
            spec.setdefault("rid", f"q{len(self.sent)}")
            spec["rid"] += str(len(self.sent))
            n = len(self.sent)
            spec["sampling_params"] = {"max_new_tokens": n + 1}
            spec["stream"] = bool(n % 2)
            spec["return_logprob"] = not n % 2
            spec.setdefault("top_logprobs_num", n)
            self.todo.append(pickle.loads(pickle.dumps(spec)))
            self.sent.append((spec["rid"], a[1], spec))
        self.aborts = getattr(self, "aborts", set())
        if a[1] == "abort-first":
            self.aborts.add(self.sent[0][0])
        try:
            self.t.event_loop()
        except Eot:
            pass
        self.drain()

    def drain(self):
        p = self.s
        p.recv_requests()
        while self.q is not None and not self.q.empty():
            p.recv_requests()
        p.process_input_requests()
        p.stream_output()

    def check(self):
        pend = list(self.s._pending_queue)
        ended = {}
        for m in self.out.msgs:
            m = pickle.loads(m)
            for x in (m if isinstance(m, list) else [m]):
                rids = x["rids"] if "rids" in x else [x["rid"]]
                fr = x.get("finished_reasons") or [x.get("finished_reason")]
                for r, f in zip(rids, fr):
                    if f is not None:
                        ended[r] = f
        got = [r.rid for r in pend]
        if len(set(got)) != len(got):
            raise Violation("path-twice", f"a request arrived twice: {got}")
        bad = BAD if self.cfg["proc"] else BAD - {"img-missing"}
        good = [r for r, k, _ in self.sent if k not in bad and r not in self.aborts]
        want = [r for r in good if r in got]
        if [r for r in got if r in good] != want:
            raise Violation("path-order", f"sent {good}, arrived {got}")
        for rid, kind, spec in self.sent:
            if rid in self.aborts:
                continue
            if kind in BAD and (kind != "img-missing" or self.cfg["proc"]):
                if rid not in ended and rid not in got:
                    raise Violation("path-bad-lost", f"request {rid} ({kind}) cannot be prepared, and its sender is never told")
                continue
            if rid not in got:
                raise Violation("path-lost", f"request {rid} ({kind}) never reached the scheduler")
            r = pend[got.index(rid)]
            ids = spec.get("input_ids") or [ord(c) for c in spec["text"]]
            if kind == "image" and self.cfg["proc"]:
                ids = [5, 6, 7]
            exp = (ids, spec["sampling_params"]["max_new_tokens"], spec["stream"], spec["return_logprob"], spec["top_logprobs_num"])
            act = (list(r.input_ids), r.max_new_tokens, r.stream, r.return_logprob, r.top_logprobs_num)
            if exp != act:
                raise Violation("path-value", f"request {rid} ({kind}): sent {exp}, arrived {act}")
            mm = None
            if kind == "image":
                mm = {"image_inputs": Proc()(images=[])} if self.cfg["proc"] else {"image_data": spec["image_data"]}
            elif kind in ("img-proc-fails", "img-missing"):
                mm = {"image_data": spec["image_data"]}
            elif kind == "img-tensor":
                mm = {"audio_data": spec["audio_data"], "video_data": spec["video_data"]}
            e = same(mm, r.mm_inputs)
            if e:
                raise Violation("path-payload", f"request {rid} ({kind}): {e}")

    def fingerprint(self):
        return (tuple(k for _, k, _ in self.sent), tuple(sorted(getattr(self, "aborts", ()))), tuple(r.rid for r in self.s._pending_queue), len(self.out.msgs))


def job(hname, cfg, depth):
    return explore_replay(globals()[hname], cfg, depth)


def main():
    c = Check("P15", rule="payload trees, segment sequences, pool histories, thread schedules and request sequences: all, to the stated bounds",
              assumptions=["CUDA is simulated: device memory is ordinary memory, handles name it, copies complete at once"])
    T = c.thorough
    jobs = []
    for mode, pool, ex in (("default", 0, True), ("cuda_ipc", 0, True), ("cuda_ipc_pool", 0, True), ("cuda_ipc_pool", 64, True),
                           ("cuda_ipc_pool", 8, True), ("cuda_ipc_pool", 64, False)):
        for part in range(2):
            jobs.append((f"payload-{mode}-{pool}-{int(ex)}-{part}", job_payload, dict(mode=mode, pool_bytes=pool, export_ok=ex, thorough=T, part=part, parts=2)))
    d = 7 if T else 5
    for name, cfg in (("pool16", dict(size=16, kinds=["f1", "h3", "f2", "b1", "zero"])), ("pool8", dict(size=8, kinds=["f1", "big", "tr", "sc"])),
                      ("pool12-2", dict(size=12, kinds=["f1", "h3", "big"], consumers=2)), ("pool16-noexport", dict(size=16, kinds=["f1", "tr", "sc"], export=False))):
        jobs.append((name, job, dict(hname="PoolH", cfg=cfg, depth=d)))
    jobs.append(("order", job, dict(hname="OrderH", cfg={}, depth=6)))
    jobs.append(("segment", job, dict(hname="SegH", cfg={}, depth=5 if T else 4)))
    for mode in ("zmq", "default", "cuda_ipc", "cuda_ipc_pool"):
        for proc in (True, False):
            jobs.append((f"path-{mode}-{proc}", job, dict(hname="PathH", cfg=dict(mode=mode, proc=proc), depth=4 if T else 3)))
    for i, scen in enumerate([dict(before=["f1", "f2"], consumed=[0], send=["f1"]), dict(before=["f1", "f1", "f1"], consumed=[0, 1], send=["f2"]),
                              dict(before=["f2", "f1"], consumed=[0, 1], send=["big"]), dict(before=["f1"], consumed=[], send=["f2", "f1"])]):
        jobs.append((f"race{i}", job_race, dict(bound=3 if T else 2, scen=scen)))
    c.run(jobs)
    c.finish()


if __name__ == "__main__":
    main()
