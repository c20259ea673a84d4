"""P21: the model a checkpoint describes is the model that is served.

The real ModelRunner.load_model reads real checkpoint directories written here: every order of a group of tensors, every way of
splitting them over files, every name form and additional tensor at every place, plain and quantized (AWQ, compressed-tensors 4
and 8 bit), with every set of modules that are left unquantized.  The oracle is the dense decoder of modelref_h on the
(dequantized) weights.  The GPU kernels (Marlin repack and product, int8 product) are stand-ins with their documented layouts.
"""
import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
import itertools, json, os, shutil, tempfile
import torch
import modelref_h as M
from vf.core import Check

NS = M.NS
TOKENS = [1, 2, 3, 4, 5]
ORDER = [0, 2, 4, 6, 1, 3, 5, 7]                                    # AWQ's and Marlin's order of the 4-bit values in a word
PERM = [i + 8 * j for i in range(8) for j in range(8)]              # Marlin's order of scales, several groups
PERM1 = [2 * i + j for i in range(4) for j in (0, 1, 8, 9, 16, 17, 24, 25)]   # one group
U4, U4B8 = 1 << 50 | 4 << 8, 1 << 50 | 4 << 8 | 8 << 17         # host::ScalarType of kU4, kU4B8


def pack(q, order=range(8)):          # [.., 8n] values -> [.., n] words
    q = q.reshape(*q.shape[:-1], -1, 8)[..., list(order)].to(torch.int64)
    w = (q << (4 * torch.arange(8))).sum(-1)
    return torch.where(w >= 2**31, w - 2**32, w).to(torch.int32)


def unpack(w, order=range(8)):
    q = (w.to(torch.int64).unsqueeze(-1) >> (4 * torch.arange(8))) & 15
    out = torch.empty_like(q)
    out[..., list(order)] = q
    return out.reshape(*w.shape[:-1], -1)


def unperm(s, perm):
    n = len(perm)
    out = torch.empty_like(s).reshape(-1, n)
    out[:, perm] = s.reshape(-1, n)
    return out.reshape(s.shape)


# ---------------------------------------------------------------- the kernels
def awq_repack(b_q_weight, size_k, size_n, num_bits):
    assert num_bits == 4 and tuple(b_q_weight.shape) == (size_k, size_n // 8) and b_q_weight.is_contiguous()
    return unpack(b_q_weight, ORDER).to(torch.int32)


def gptq_repack(b_q_weight, perm, size_k, size_n, num_bits):
    assert num_bits == 4 and tuple(b_q_weight.shape) == (size_k // 8, size_n) and perm.numel() == 0 and b_q_weight.is_contiguous()
    return unpack(b_q_weight.t()).t().contiguous().to(torch.int32)


def gemm(a, c, b_q_weight, b_scales, global_scale, b_zeros, g_idx, perm, workspace, b_q_type_id, size_m, size_n, size_k, is_k_full=True, use_fp32_reduce=True, is_zp_float=False, **k):
    assert tuple(a.shape) == (size_m, size_k) and tuple(b_q_weight.shape) == (size_k, size_n) and b_scales.shape[1] == size_n and perm.numel() == 0
    g = b_scales.shape[0]
    s = unperm(b_scales.contiguous(), PERM if g > 1 else PERM1)
    if b_q_type_id == U4B8:
        z = torch.full((g, size_n), 8)
    else:
        assert b_q_type_id == U4 and tuple(b_zeros.shape) == (g, size_n // 8) and not is_zp_float
        z = unperm(unpack(b_zeros, ORDER), PERM)
    rep = lambda x: x.repeat_interleave(size_k // g, 0).double()
    return (a.double() @ ((b_q_weight.double() - rep(z)) * rep(s))).to(a.dtype)


def int8_mm(x_q, w, x_scale, w_scale, out_dtype, bias=None, **k):
    assert w.dtype == torch.int8 and w.stride(0) == 1 and w_scale.dtype == torch.float32
    out = x_q.double() @ w.double() * w_scale.reshape(1, -1).double() * x_scale.reshape(-1, 1).double()
    return (out if bias is None else out + bias.double()).to(out_dtype)


def install():
    M.install()
    import importlib
    mods = []
    for n in ("mllm_kernel.cuda.jit", "mllm_kernel.cuda.jit.awq_marlin_repack", "mllm_kernel.cuda.jit.gptq_marlin", "mllm_kernel.cuda.jit.gptq_marlin_repack", "mllm_kernel.cuda.jit.int8_scaled_mm_cutlass",
              "pymllm.quantization.methods.awq_marlin", "pymllm.quantization.methods.compressed_tensors", "pymllm.quantization.kernels.int8_activation_triton"):
        try:
            mods.append(importlib.import_module(n))
        except ImportError:
            import types as _t
            m = sys.modules[n] = _t.ModuleType(n)        # needs a GPU toolchain merely to be imported
            m.per_token_quant_int8 = m.int8_scaled_mm = None
            mods.append(m)
    import types
    for m in mods:
        for n, f in dict(awq_marlin_repack=awq_repack, gptq_marlin_repack=gptq_repack, gptq_marlin_gemm=gemm, int8_scaled_mm=int8_mm,
                         per_token_quant_int8=lambda x: (x, torch.ones(x.shape[0], 1)), marlin_make_workspace=lambda device: torch.zeros(1, dtype=torch.int32)).items():
            if hasattr(m, n) and not isinstance(getattr(m, n), types.ModuleType):
                setattr(m, n, f)
    torch.cuda.get_device_capability = lambda *a, **k: (8, 0)


# ---------------------------------------------------------------- checkpoints
FUSED = {"q_proj": "a", "k_proj": "a", "v_proj": "a", "gate_proj": "m", "up_proj": "m"}


def model(kind):
    if kind == "q3":
        hf = M.qwen3_cfg(heads=2, kv=1, hd=64, hidden=128, inter=128)
        return hf, M.qwen3_weights(hf), M.qwen3_ref
    if kind == "q3small":
        hf = M.qwen3_cfg(heads=4, kv=2, bias=True, inter=5)
        return hf, M.qwen3_weights(hf), M.qwen3_ref
    if kind == "q3tied":
        hf = M.qwen3_cfg(heads=2, kv=1, tie=True)
        return hf, M.qwen3_weights(hf), M.qwen3_ref
    if kind == "q35":
        hf = M.qwen35_cfg(heads=2, kv=1, hd=64, hidden=128, inter=128, layers=2, kh=1, vh=2, kd=64, vd=64)
        return hf, M.qwen35_weights(hf), M.qwen35_ref
    if kind in ("q35small", "q35tied"):
        hf = M.qwen35_cfg(tie=kind == "q35tied", layers=2)
        return hf, M.qwen35_weights(hf), M.qwen35_ref
    if kind in ("vl", "vlbig"):
        hf = M.vl_cfg(layers=2) if kind == "vl" else M.vl_cfg(layers=2, hidden=128, hd=64, inter=128, section=(12, 10, 10))
        m = M.vl_model(hf)

        def ref(c, w, ids):
            m.load_state_dict({k: v.double() for k, v in w.items()}, strict=False)
            return torch.stack([M.vl_ref(m, ids, [])])
        return hf, {k: v.clone() for k, v in M.vl_weights(m).items()}, ref


def module(name):         # the linear module a weight belongs to, None if it is not one
    p = name.split(".")
    return ".".join(p[:-1]) if len(p) > 3 and p[-1] == "weight" and (p[-2].endswith("_proj") or p[-2] in ("in_proj_qkv", "in_proj_z", "in_proj_a", "in_proj_b")) else None


def quantize(w, q, ignored):
    """-> tensors of the checkpoint, weights they stand for"""
    if not q:
        return dict(w), w
    out, val, r = {}, {}, M.Rng(11)
    for n, x in w.items():
        m = module(n)
        if not m or m in ignored or x.shape[0] < 64 or "visual" in n:
            out[n], val[n] = x, x
            continue
        o, i = x.shape
        if q["m"] == "w8":
            v = (x * 127).round().clamp(-127, 127)
            s = (r.t(o, 1, lo=.5, hi=1.5) / 127 / i ** .5).float()
            out[m + ".weight"], out[m + ".weight_scale"], val[n] = v.to(torch.int8), s, v.double() * s.double()
            continue
        g = q["g"] if q["g"] > 0 else i
        v = ((x + 1) * 7.5).round().clamp(0, 15)
        s = (r.t(o, i // g, lo=.5, hi=1.5) / 8 / i ** .5).float()
        rs = s.double().repeat_interleave(g, 1)
        if q["m"] == "w4":
            out[m + ".weight_packed"], out[m + ".weight_scale"], out[m + ".weight_shape"] = pack(v), s, torch.tensor([o, i])
            val[n] = (v - 8) * rs
        else:
            z = r.t(o, i // g, lo=0, hi=15.99).floor()
            out[m + ".qweight"], out[m + ".qzeros"], out[m + ".scales"] = pack(v.t(), ORDER), pack(z.t(), ORDER), s.t()
            val[n] = (v - z.repeat_interleave(g, 1)) * rs
    return out, val


def config_of(q, ignored=()):
    if not q:
        return {}
    if q["m"] == "awq":
        return dict(quantization_config=dict(quant_method=q.get("name", "awq"), bits=4, group_size=q["g"], zero_point=True, version="gemm"))
    g = dict(weights=dict(num_bits=4, group_size=q["g"], symmetric=True, strategy="group", type="int", dynamic=False)) if q["m"] == "w4" else \
        dict(weights=dict(num_bits=8, group_size=None, symmetric=True, strategy="channel", type="int", dynamic=False),
             input_activations=dict(num_bits=8, strategy="token", type="int", dynamic=True, symmetric=True))
    return dict(quantization_config=dict(quant_method="compressed-tensors", format="pack-quantized" if q["m"] == "w4" else "int-quantized", ignore=list(ignored), config_groups=dict(group_0=g)))


def write(d, files, conf, fmt="safetensors", decoys=()):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(d + "/config.json", "w") as f:
        json.dump(conf, f)
    from safetensors.torch import save_file
    for i, ts in enumerate(files):
        ts = {k: (v.float() if v.dtype == torch.float64 else v).contiguous() for k, v in ts.items()}
        if fmt == "safetensors":
            save_file(ts, f"{d}/model-{i + 1:05}-of-{len(files):05}.safetensors")
        else:
            torch.save(ts, f"{d}/pytorch_model-{i + 1:05}-of-{len(files):05}.bin")
    for n, ts in decoys:
        torch.save(ts, d + "/" + n)


def loaded(hf, path, **k):
    return M.make_runner(hf, None, 16, 2, 12, False, path=path, **k)


def logits(r):
    I = lambda x, d=torch.int32: torch.tensor(x, dtype=d)
    row, n = r.req_to_token_pool.alloc(1)[0], len(TOKENS)
    if r.gdn_pool is not None:
        r.gdn_pool.reset_states(I([row], torch.int64))
    s = r.token_to_kv_pool_allocator.alloc(n)
    r.req_to_token_pool.write((row, slice(0, n)), s.to(torch.int32))
    fb = r.prepare_forward_batch_extend(input_ids=I(TOKENS), req_pool_indices=I([row], torch.int64), seq_lens=I([n]), extend_seq_lens=I([n]), extend_prefix_lens=I([0]), out_cache_loc=s.to(torch.int64))
    with torch.no_grad():
        return r.forward(fb).next_token_logits[0].double()


class Job:
    def __init__(self, kind, q=None, ignored=()):
        install()
        self.hf, self.w, self.reff = model(kind)
        self.kind, self.q = kind, q
        self.d = tempfile.mkdtemp(prefix="p21-") + "/model"
        self.n = self.t = 0
        self.bad, self.samples = {}, []

    def use(self, ignored=()):
        self.ck, val = quantize(self.w, self.q, set(ignored))
        self.conf = config_of(self.q, ignored)
        self.want = self.reff(self.hf, val, TOKENS)[-1].double()

    def judge(self, what, sig):
        self.n += 1
        if len(self.samples) < 3:
            self.samples.append(what)
        try:
            got = logits(loaded(self.hf, self.d))
        except Exception as e:
            import traceback
            self.bad.setdefault("exception:" + sig, f"{what}: {type(e).__name__}: {e} {traceback.format_exc()[-500:]}")
            return
        e = (got - self.want).abs().max().item()
        if not e <= 2e-4 * (1 + self.want.abs().max().item()):
            self.bad.setdefault("model:" + sig, f"{what}: the loaded model's logits {[round(x, 4) for x in got.tolist()][:6]} are not those of the checkpoint's weights {[round(x, 4) for x in self.want.tolist()][:6]}")

    def done(self):
        shutil.rmtree(os.path.dirname(self.d), ignore_errors=True)
        return dict(states=self.n, transitions=self.t or self.n, validated=self.n, samples=self.samples), [dict(sig=k, msg=v, cfg=None, hist=[]) for k, v in self.bad.items()]


def group(ck, n):
    """Tensors whose place may matter: those that share a parameter first."""
    L = [k for k in ck if ".layers.0." in k or ".layers.1." in k]
    pick = lambda *s: [k for k in L for x in s if f".{x}." in k and not k.endswith("weight_shape")]
    att, mlp = pick("q_proj", "k_proj", "v_proj"), pick("gate_proj", "up_proj")
    out = []
    first = lambda l: [k for k in l if k.split("layers.")[1][0] == l[0].split("layers.")[1][0]] if l else []
    a, m = first(att), first(mlp)
    for i in range(max(len(a), len(m))):
        out += a[i:i + 1] + m[i:i + 1]
    out += [k for k in ck if k.endswith("embed_tokens.weight") or k.endswith("lm_head.weight")]
    return out[:n]


def orders(kind, q, n):
    """Every order of n tensors, the others before or after them; the tensors arrive as the reader yields them."""
    j = Job(kind, q)
    j.use()
    write(j.d, [j.ck], j.conf)
    j.judge(f"{kind} {q}: all tensors in one file", "one")

    def build(seq):
        write(j.d, [{k: j.ck[k] for k in seq}], j.conf, "bin")          # whose tensors come in the order of the file
        return loaded(j.hf, j.d, only_load=True).model
    G = group(j.ck, n)
    R = [k for k in j.ck if k not in G]
    same = {k: v.clone() for k, v in build(list(j.ck)).state_dict().items()}
    for perm in itertools.permutations(G):
        for seq in (list(perm) + R, R + list(perm)):
            j.n += 1
            j.t += len(seq)
            got = build(seq).state_dict()
            for k, v in same.items():
                if not (torch.equal(got[k], v) or v.is_floating_point() and torch.allclose(got[k], v, rtol=0, atol=0, equal_nan=True)):
                    j.bad.setdefault("order", f"{kind} {q}: tensors in the order {seq} give another {k} than in the order of the file")
            if j.bad:
                return j.done()
    return j.done()


def files(kind, q, n, k):
    """Every split of a group of tensors over k files (the others in the first); safetensors, .bin, both."""
    j = Job(kind, q)
    j.use()
    G = group(j.ck, n)
    R = {x: v for x, v in j.ck.items() if x not in G}
    wrong = {x: (v + 1 if v.is_floating_point() else v) for x, v in j.ck.items()}
    for c in itertools.product(range(k), repeat=len(G)):
        for fmt, decoys in (("safetensors", ()), ("bin", ())) if q is None else (("safetensors", ()),):
            fs = [dict(R) if i == 0 else {} for i in range(k)]
            for x, i in zip(G, c):
                fs[i][x] = j.ck[x]
            fs = [f for f in fs if f]
            write(j.d, fs, j.conf, fmt)
            j.judge(f"{kind} {q}: {[sorted(f) for f in fs[1:]]} in files of their own ({fmt})", "split")
        if j.bad:
            break
    write(j.d, [j.ck], j.conf, decoys=[("pytorch_model.bin", wrong)])
    j.judge(f"{kind}: an old .bin file beside the safetensors", "decoy")
    return j.done()


def names(kind):
    """Every name form, checkpoint number type, and additional tensor at every place."""
    j = Job(kind)
    j.use()
    pre = "model.language_model." if kind.startswith("q35") or kind == "vl" else "model."
    forms = {"q3": ("model.", "", "model.language_model."), "q35": ("model.language_model.", "model."), "vl": ("model.language_model.",)}[kind[:2] if kind == "vl" else kind[:3] if kind.startswith("q35") else "q3"]
    V, H = j.ck[pre + "embed_tokens.weight"].shape
    junk = M.Rng(77)
    for f in forms:
        ck = {(f + k[len(pre):] if k.startswith(pre) else k): v for k, v in j.ck.items()}
        base = list(ck.items())
        extra = [(f + "layers.0.self_attn.rotary_emb.inv_freq", junk.t(2))]
        if kind.startswith("q35"):
            extra += [("mtp.layers.0.mlp.gate_proj.weight", junk.t(5, H)), ("mtp.norm.weight", junk.t(H)), ("model.visual.blocks.0.mlp.linear_fc1.weight", junk.t(5, H))]
        if kind.startswith("q3") and not kind.startswith("q35"):
            extra += [("visual.blocks.0.norm1.weight", junk.t(H))]
        if kind.endswith("tied"):
            extra.append(("lm_head.weight", ck[f + "embed_tokens.weight"].clone()))
        for e in [None] + extra:
            for at in range(len(base) + 1) if e else [0]:
                j.judge_seq(base[:at] + ([e] if e else []) + base[at:], f"{kind}: names {f!r}, {e and e[0]} at place {at}")
    return j.done()


def judge_seq(self, seq, what):
    write(self.d, [dict(seq)], self.conf, "bin")
    self.judge(what, "names")


Job.judge_seq = judge_seq


def ignores(kind, q, thorough):
    """Every set of up to two (thorough: three) modules - or all - that are left as they are."""
    j = Job(kind, q)
    mods = []
    for n in j.w:
        m = module(n)
        if not m:
            continue
        fam = FUSED.get(m.split(".")[-1]) if not (kind.startswith("q35") and FUSED.get(m.split(".")[-1]) == "a") else None
        key = m.rsplit(".", 1)[0] + "/" + fam if fam else m        # modules that are one product are left together
        if j.w[n].shape[0] >= 64 and "visual" not in n:
            mods.append((key, m))
    keys = list(dict.fromkeys(k for k, _ in mods))
    for size in range(0, 4 if thorough else 3):
        for ks in itertools.combinations(keys, size):
            ig = [m for k, m in mods if k in ks]
            j.use(ig)
            j.conf["quantization_config"]["ignore"] = ["lm_head"] + ig
            write(j.d, [j.ck], j.conf)
            j.judge(f"{kind} {q['m']}: {ig} left unquantized", "ignore")
    return j.done()


def main():
    c = Check("P21", "for every order, split over files, name form, additional tensor and set of unquantized modules of a checkpoint, the loaded model's logits are the reference decoder's on the checkpoint's weights",
              ["Marlin and int8 kernels are stand-ins with their documented layouts (activations are not rounded)", "one tensor-parallel rank, float32"])
    T = c.thorough
    J = []
    Q = [("awq128", dict(m="awq", g=128)), ("awq32", dict(m="awq", g=32)), ("awq64", dict(m="awq", g=64, name="awq_marlin")), ("awq-1", dict(m="awq", g=-1)),
         ("w4-128", dict(m="w4", g=128)), ("w4-32", dict(m="w4", g=32)), ("w4-64", dict(m="w4", g=64)), ("w8", dict(m="w8"))]
    for k in ("q3small", "q3tied", "q35small", "q35tied", "vl"):
        J.append((f"orders-{k}", orders, dict(kind=k, q=None, n=7 if T else 6)))
        J.append((f"files-{k}", files, dict(kind=k, q=None, n=7 if T else 6, k=2)))
        J.append((f"names-{k}", names, dict(kind=k)))
    for n, q in Q:
        for k in ("q3", "q35", "vlbig"):
            if T or n in ("awq32", "w4-32", "w8"):
                J.append((f"orders-{k}-{n}", orders, dict(kind=k, q=q, n=6 if T else 5)))
            J.append((f"files-{k}-{n}", files, dict(kind=k, q=q, n=5 if T else 4, k=2)))
            if q["m"] != "awq" and (T or n in ("w4-32", "w8")):
                J.append((f"ignore-{k}-{n}", ignores, dict(kind=k, q=q, thorough=T)))
    c.run(J)
    c.finish()


if __name__ == "__main__":
    main()
