"""Exporter half of P17, run with the fault injector (cpp/crashio.c) preloaded: lets the real exporter write every scenario of
a job, undisturbed, dying before and in the middle of every file operation, and with every size of the disk, and leaves the
files with what was written to them in VF_DIR/corpus."""
import ctypes, gc, io, itertools, json, os, pathlib, struct, sys, types, warnings

warnings.simplefilter("ignore")
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
DIR = os.environ["VF_DIR"]
OUT = f"{DIR}/w"
os.mkdir(OUT)
LIB = ctypes.CDLL(None)
for f in (LIB.vf_io_ops, LIB.vf_io_bytes):
    f.restype = ctypes.c_long


def arm(stop=-1, part=-1, room=-1, on=True):
    LIB.vf_io_arm(ctypes.c_char_p(OUT.encode() if on else None), ctypes.c_long(stop), ctypes.c_long(part), ctypes.c_long(room))


# ---- the package needs the runtime's library: stand-ins for what the exporter uses of it
class PodType:
    def __init__(self, n): self.n = n
    def to_pod(self): return self.n


class RtTensor:                       # a tensor of the runtime (pymllm.ffi.Tensor)
    def __init__(self, shape=(), dtype=134, data=b"", name=""):
        self.shape, self.dtype, self.data, self.name = list(shape), PodType(dtype), data, name
    def tobytes(self): return self.data
    def set_name(self, n): self.name = n


def from_torch(t):
    assert t.dtype == torch.float32
    return RtTensor(list(t.shape), 0, t.contiguous().numpy().tobytes())


def kai(tile, weight, bias):
    b = bias.data if isinstance(bias, RtTensor) else b""
    return RtTensor([len(weight.data) + len(b) + 1], 134, b"K" + weight.data + b, weight.name)


def stubs():
    m = types.ModuleType("pymllm"); m.__path__ = [str(REPO / "pymllm")]; sys.modules["pymllm"] = m
    m = types.ModuleType("pymllm.mobile"); m.__path__ = [str(REPO / "pymllm/mobile")]; sys.modules["pymllm.mobile"] = m
    f = types.ModuleType("pymllm.mobile.ffi")
    f.Tensor, f.MLLM_FIND_NUMPY_AVAILABLE, f.MLLM_FIND_TORCH_AVAILABLE = RtTensor, True, True
    f.from_torch, f.from_numpy = from_torch, None
    sys.modules["pymllm.mobile.ffi"] = f
    t = types.ModuleType("tvm_ffi"); t.get_global_func = lambda n: kai; t.Object = object; t.register_object = lambda n: (lambda c: c)
    sys.modules["tvm_ffi"] = t


stubs()
import torch
import numpy as np
from pymllm.mobile.convertor.model_file_v2 import ModelFileV2

# ---- the specification: numbers of the element types, bytes of the elements
NUM = {"f32": (0, "f"), "f16": (1, "e"), "bf16": (128, None), "i8": (16, "b"), "i16": (17, "h"), "i32": (18, "i"), "i64": (132, "q"), "u8": (129, "B"),
       "bool": (129, "B"), "u16": (130, "H"), "c64": (201, "f"), "c128": (202, "d")}
TORCH = dict(f32=torch.float32, f16=torch.float16, bf16=torch.bfloat16, i8=torch.int8, i16=torch.int16, i32=torch.int32, i64=torch.int64, u8=torch.uint8,
             bool=torch.bool, u16=torch.uint16)
NUMPY = dict(f32="f4", f16="f2", i8="i1", i16="i2", i32="i4", i64="i8", u8="u1", bool="?", c64="c8", c128="c16")


def flat(x):
    if isinstance(x, list):
        for y in x:
            yield from flat(y)
    else:
        yield x


def content(kind, values):
    if kind == "bf16":
        return b"".join(struct.pack("<f", v)[2:] for v in values)
    f = NUM[kind][1]
    if kind in ("c64", "c128"):
        return b"".join(struct.pack("<2" + f, v.real, v.imag) for v in values)
    return b"".join(struct.pack("<" + f, v) for v in values)


def numbers(n, kind, seed):
    if kind == "bool":
        return [(i + seed) % 3 == 0 for i in range(n)]
    return [(i * 5 + seed * 11 + 1) % 120 for i in range(n)]


def tensor(lib, kind, shape, layout, seed):
    """layout: 0 plain, 1 every other of the last dimension, 2 turned round, 3 a part of the first dimension, 4 broadcast / big endian, 5 a Parameter / read-only"""
    shape, n = list(shape), len(shape)
    lay = layout if n else 0 if layout < 4 else layout
    big = list(shape)
    if lay == 1: big[-1] = big[-1] * 2 + 1
    if lay == 2: big.reverse()
    if lay == 3: big[0] += 2
    if lay == 4 and lib == "torch" and n: big[0] = 1
    cnt = int(np.prod(big)) if big else 1
    vals = numbers(cnt, kind, seed)
    if lib == "rt":
        cnt = int(np.prod(shape)) if shape else 1
        data = bytes((i * 3 + seed) % 256 for i in range(cnt))
        return RtTensor(shape, 134, data), (134, shape, data)
    if lib == "torch":
        t = torch.tensor(vals, dtype=torch.float32 if kind in ("u16", "bf16", "f16") else TORCH[kind]).to(TORCH[kind]).reshape(big)
        if lay == 1: t = t[..., 1::2]
        if lay == 2: t = t.permute(*range(n - 1, -1, -1))
        if lay == 3: t = t[1:-1]
        if lay == 4 and n: t = t.expand(shape)
        if lay == 5 and kind in ("f32", "f16", "bf16"): t = torch.nn.Parameter(t)
        l = t.detach().to(torch.float32).tolist() if kind in ("bf16", "f16") else t.tolist()
    else:
        t = np.array(vals, dtype=NUMPY[kind]).reshape(big)
        if kind in ("c64", "c128") and cnt: t = np.asarray(t * (1 + 2j))
        t = np.asarray(t).astype(NUMPY[kind])
        if lay == 1: t = t[..., 1::2]
        if lay == 2: t = t.T
        if lay == 3: t = t[1:-1]
        if lay == 4: t = t.astype(t.dtype.newbyteorder(">"))
        if lay == 5: t.setflags(write=False)
        l = t.tolist()
    assert list(t.shape) == shape
    return t, (NUM[kind][0], shape, content(kind, list(flat(l))))


# ---- scenarios
bad, entries = [], []


def complain(sig, msg, what):
    bad.append(dict(sig=sig, msg=msg, what=what))


def entry(what, flags, data, want):
    entries.append((what, flags, data, want))


def slurp(p):
    try:
        return open(p, "rb").read()
    except FileNotFoundError:
        return None


def valid(name, desc):
    b = name.encode()
    return len(b) < 256 and b"\0" not in b and len(desc[1]) <= 16 and all(d < 2 ** 31 for d in desc[1])


def write(mode, cap, items, extra=None):
    """Returns what was accepted, or raises OSError/whatever the static writer raised."""
    got = {}
    if mode == "static":
        w = ModelFileV2(f"{OUT}/m.mllm", "model", "Static")
        w.static_write({n: t for n, t, _ in items})
        got = {n: d for n, _, d in items}
        w.finalize()
    else:
        w = ModelFileV2(f"{OUT}/m.mllm", "model", "Streaming", max_params_descriptor_buffer_num=cap)
        for k, (n, t, d) in enumerate(items):
            try:
                w.streaming_write(n, t)
            except OSError:
                raise
            except Exception as e:
                if k < cap and valid(n, d):
                    raise
                continue
            if n in got:
                got[n] = None     # twice the same name: no file can say which is meant
            got[n] = d if n not in got else None
        w.finalize()
    return got


def scenario(what, run, want, must=True, faults=0):
    """run() writes OUT/m.mllm and returns {name: (type, shape, bytes)} of what it took; want: what it has to take."""
    p = f"{OUT}/m.mllm"
    if os.path.exists(p): os.unlink(p)
    arm()
    try:
        got = run()
    except Exception as e:
        got = None
        if must:
            complain("export-refused", f"{what}: {type(e).__name__}: {e}"[:400], what)
    gc.collect()
    ops, size = LIB.vf_io_ops(), LIB.vf_io_bytes()
    arm(on=False)
    data = slurp(p)
    if got is None:
        if data is not None:
            entry(what + " (refused by the exporter)", 0, data, want)
        return
    # the writer may only have finished successfully with what it was given
    if must and got != want:
        complain("export-dropped", f"{what}: {sorted(got)} taken instead of {sorted(want)}", what)
        return
    if data is None:
        complain("export-nothing", f"{what}: no file", what)
        return
    entry(what, 1 | (2 if faults else 0), data, got)
    if not faults:
        return
    seen = {data}

    def left(why):
        d = slurp(p)
        if d is not None and d not in seen:
            seen.add(d)
            entry(f"{what} {why}", 0, d, got)

    for k in range(ops + 1):
        for part in (-1, 0, 1, 2):
            if os.path.exists(p): os.unlink(p)
            pid = os.fork()
            if not pid:
                try:
                    arm(k, part)
                    run()
                    gc.collect()
                finally:
                    os._exit(78)
            os.waitpid(pid, 0)
            left(f"dying at file operation {k} of {ops}" + (f" after {part + 1} pages" if part >= 0 else ""))
    rooms = range(0, len(data) + 1) if len(data) < 1500 else sorted({*range(520, 540), *range(len(data) - 60, len(data) + 1), *range(0, len(data), 113)})
    for room in rooms:
        if os.path.exists(p): os.unlink(p)
        arm(room=room)
        try:
            r = run()
        except Exception:
            r = None
        gc.collect()
        arm(on=False)
        if r is not None:
            d = slurp(p)
            if d != data:
                entry(f"{what} with room for {room} of {len(data)} bytes, reported as written", 1, d or b"", got)
        left(f"with room for {room} of {len(data)} bytes")


SHAPES = [(), (1,), (3,), (2, 3), (1, 4, 2), (0,), (2, 0, 3), (3, 1), (1, 1, 2, 1, 3), (1,) * 16]
KINDS = [("torch", "f32", (3,), 0), ("numpy", "i32", (2, 2), 2), ("torch", "bf16", (0, 2), 0), ("rt", "byte", (5,), 0), ("torch", "f16", (2, 3), 1), ("torch", "i64", (1200,), 0)]


def items_of(ks, names=None):
    r = []
    for i, k in enumerate(ks):
        t, d = tensor(*k, seed=i + 1)
        r.append(((names or [f"layer.{j}.weight" for j in range(len(ks))])[i], t, d))
    return r


def plain(what, mode, cap, items, faults=0):
    fits = [x for i, x in enumerate(items) if valid(x[0], x[2])]
    if mode == "static":
        must = len(fits) == len(items)
        want = {n: d for n, _, d in fits}
        scenario(what, lambda: write(mode, cap, items), want, must, faults)
    else:
        want, k = {}, 0
        for n, t, d in items:
            if valid(n, d) and k < cap:
                want[n] = d
                k += 1
        scenario(what, lambda: write(mode, cap, items), want, True, faults)


def job_types(part, parts, thorough):
    k = 0
    for lib, kinds in (("torch", TORCH), ("numpy", NUMPY), ("rt", ["byte"])):
        for kind in kinds:
            for shape in SHAPES:
                for layout in range(6):
                    for mode in ("static", "streaming"):
                        k += 1
                        if k % parts == part:
                            t, d = tensor(lib, kind, shape, layout, seed=k % 7)
                            plain(f"{mode}: {lib} {kind} {shape} layout {layout}", mode, 1, [("w", t, d)])


def job_names(part, parts, thorough):
    names = ["", "a", "model.layers.0.weight", "n" * 254, "n" * 255, "n" * 256, "n" * 257, "n" * 600, "a\0b", "层" * 84, "层" * 85, "层" * 85 + "x", "n" * 253 + "层"]
    for n in names:
        for mode in ("static", "streaming"):
            for pos in (-1, 0, 1):
                ks = [("torch", "f32", (2, 2), 0)]
                ns = [n]
                if pos >= 0:
                    ks.insert(pos, ("torch", "i8", (5,), 0))
                    ns.insert(pos, (n[:-1] + "m") if len(n) > 200 else n + "x")
                plain(f"{mode}: {len(n)} characters {n[:12]!r} with {pos}", mode, 2, items_of(ks, ns))
    for shape in ((1,) * 17, (0,) * 20, (0, 2 ** 31), (2 ** 31 - 1, 0), (2 ** 33, 0)):
        for mode in ("static", "streaming"):
            for pos in (0, 1):
                t = torch.empty(shape)
                its = [("big", t, (0, list(shape), content("f32", t.flatten().tolist())))] + items_of([("torch", "i8", (5,), 0)], ["x"])
                plain(f"{mode}: shape {shape[:3]} of {len(shape)}", mode, 2, its if pos else its[::-1])


def job_counts(part, parts, thorough):
    k = 0
    for cap in range(0, 4):
        for n in range(0, cap + 3):
            for base in range(len(KINDS)):
                k += 1
                if k % parts == part:
                    plain(f"streaming: {n} tensors, room for {cap}, from kind {base}", "streaming", cap, items_of([KINDS[(base + i) % len(KINDS)] for i in range(n)]), 1 if base in (0, 2) or thorough else 0)
    for n in (0, 1, 7, 40):
        k += 1
        if k % parts == part:
            plain(f"static: {n} tensors", "static", 0, items_of([KINDS[i % 5] for i in range(n)]), n < 10)
            plain(f"streaming: {n} tensors of 1024", "streaming", 1024, items_of([KINDS[i % 5] for i in range(n)]), n == 1)


def job_sets(part, parts, thorough):
    k = 0
    for n in (1, 2, 3):
        for ks in itertools.product(range(len(KINDS)), repeat=n):
            for mode in ("static", "streaming"):
                k += 1
                if k % parts == part:
                    plain(f"{mode}: kinds {ks}", mode, n, items_of([KINDS[i] for i in ks]), n < 3 or thorough)


def quiet(f):
    o = sys.stdout
    sys.stdout = io.StringIO()
    try:
        return f()
    finally:
        sys.stdout = o


def as32(t, d):
    return (0, d[1], content("f32", list(flat(t.detach().to(torch.float32).tolist()))))


def job_solver(part, parts, thorough):
    """The quantisation pipelines of the converter, streamed into a file of the size they announce."""
    from pymllm.mobile.quantize.solver import QuantizeSolver
    from pymllm.mobile.quantize.kai.w4a32 import W4A32KAIQuantizePass
    hints = dict(quant_method="kai", kai_matmul_triplet="f32_qai8dxp_qsi4c32p", kai_matmul_layout="mxk_nxk", kai_matmul_tile_cfg="t")
    params = {}
    for i in range(2):
        params[f"l{i}.weight"] = ("torch", "f32", (2, 3), 0)
        params[f"l{i}.bias"] = ("torch", "f16", (3,), 0)
    params["norm.weight"] = ("torch", "bf16", (3,), 0)
    ns = list(params)
    H = {"none": None, "match": hints, "other": {**hints, "quant_method": "x"}, "layout": {**hints, "kai_matmul_layout": "y"}}
    for mask in range(1, 1 << len(ns)):
        sel = [n for i, n in enumerate(ns) if mask >> i & 1]
        for h in H:
            for pat in (r"l0\.(weight|bias)", r"l\d\.(weight|bias)", r"l1\.weight", r"none\..*"):
                for replace in (True, False):
                    if h == "none" and (pat, replace) != (r"none\..*", True): continue
                    for cast in (False, True):
                        for kai_pass in (True, False):
                            its = items_of([params[n] for n in sel], sel)
                            import re
                            cfg = None if h == "none" else {pat: dict(hints={**H[h], "replace": replace, **({} if replace else {"rename": "extra.packed"})})}
                            groups, want = {}, {n: (as32(t, d) if cast else d) for n, t, d in its}
                            if h == "match" and kai_pass:
                                for n, t, d in its:
                                    if re.fullmatch(pat, n): groups.setdefault(n.rsplit(".", 1)[0], []).append((n, t, d))
                                ok = True
                                for g, members in groups.items():
                                    w = [x for x in members if x[0].endswith(".weight")]
                                    if not w: ok = False; break
                                    b = [x for x in members if x[0].endswith(".bias")]
                                    data = b"K" + as32(*w[0][1:])[2] + (as32(*b[0][1:])[2] if b else b"")
                                    if replace:
                                        for n, _, _ in members: del want[n]
                                        want[w[0][0]] = (134, [len(data)], data)
                                    else:
                                        if "extra.packed" in want: ok = False; break
                                        want["extra.packed"] = (134, [len(data)], data)
                                if not ok: continue    # packing biases alone, or two layers under one name: no meaning

                            def run():
                                d = {n: t for n, t, _ in its}
                                s = QuantizeSolver()
                                if kai_pass: s.register_pass(W4A32KAIQuantizePass())
                                n = s.stream_quantize_params_size(cfg, d)
                                s.stream_quantize(cfg, d, ModelFileV2(f"{OUT}/m.mllm", "m", "Streaming", max_params_descriptor_buffer_num=n), cast_left_2_fp32=cast)
                                return want
                            scenario(f"pipeline: {sel} hints {h} on {pat} replace {replace} cast {cast} pass {kai_pass}", lambda: quiet(run), want, True, 1 if mask == 31 and cast and kai_pass else 0)


def job_convert(part, parts, thorough):
    """The converter's command line: input files of every kind, split over shards in every way."""
    import safetensors.torch as st
    from pymllm.mobile.utils import mllm_convertor
    src = f"{DIR}/src"
    os.mkdir(src)
    ns, k = ["a.weight", "b.weight", "b.bias"], 0
    for ks in itertools.product((0, 4, 2), repeat=3):
        its = [(n, t.contiguous(), d) for n, t, d in items_of([KINDS[i] for i in ks], ns)]
        d = {n: t for n, t, _ in its}
        for form in ("pt", "bin", "safetensors", *[f"shards{x}" for x in range(8)]):
            for pipe in (None, "cast2fp32_pipeline", "_raw"):
                k += 1
                if k % parts != part: continue
                for f in os.listdir(src): os.unlink(f"{src}/{f}")
                if form in ("pt", "bin"):
                    inp = f"{src}/m.{form}"; torch.save(d, inp)
                elif form == "safetensors":
                    inp = f"{src}/m.safetensors"; st.save_file(d, inp)
                else:
                    where = {n: f"s{int(form[6:]) >> i & 1}.safetensors" for i, n in enumerate(ns)}
                    for s in set(where.values()): st.save_file({n: t for n, t in d.items() if where[n] == s}, f"{src}/{s}")
                    inp = f"{src}/model.safetensors.index.json"; json.dump(dict(weight_map=where), open(inp, "w"))
                want = {n: (as32(t, x) if pipe else x) for n, t, x in its}

                def run():
                    sys.argv = ["convert", "--input_path", inp, "--output_path", f"{OUT}/m.mllm", "--model_name", "m"] + (["--pipeline", pipe] if pipe else [])
                    mllm_convertor.main()
                    gc.collect()
                    return want
                scenario(f"converter: {form} kinds {ks} pipeline {pipe}", lambda: quiet(run), want, True, 1 if form == "pt" and pipe is None and ks[0] == 0 else 0)


def main():
    job, part, parts, thorough = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), bool(int(sys.argv[4]))
    torch.set_num_threads(1)
    gc.collect()
    gc.freeze()
    globals()["job_" + job](part, parts, thorough)

    def s(b):
        b = b.encode("utf-8", "surrogateescape") if isinstance(b, str) else b
        return struct.pack("<I", len(b)) + b
    with open(f"{DIR}/corpus", "wb") as f:
        f.write(struct.pack("<I", len(entries)))
        for what, flags, data, want in entries:
            want = {n: d for n, d in want.items()}
            f.write(s(what) + struct.pack("<I", flags) + s(data) + struct.pack("<I", len(want)))
            for n, (ty, shape, b) in want.items():
                f.write(s(n) + struct.pack("<II", ty, len(shape)) + struct.pack(f"<{len(shape)}I", *shape) + s(b))
    uniq = {}
    for b in bad: uniq.setdefault(b["sig"], b)
    json.dump(list(uniq.values()), open(f"{DIR}/bad.json", "w"))
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
