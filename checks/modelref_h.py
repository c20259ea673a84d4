"""Shared by P19 and P20: small configurations of the served models, weights under the names Hugging Face checkpoints use,
what the published architectures compute from them (dense, double precision, written from their definition), and stand-ins
with the documented meaning for the GPU-only parts (FlashInfer kernels, CUDA graphs, the index kernel)."""
import os
os.environ.setdefault("PYMLLM_FLASHINFER_WORKSPACE_SIZE", "1024")
import contextlib, inspect, logging, math, types
import torch
import torch.nn.functional as F
from vf.core import Violation

logging.disable(logging.CRITICAL)
torch.set_num_threads(1)
NS = types.SimpleNamespace


# ---------------------------------------------------------------- configurations and weights
def qwen3_cfg(heads=2, kv=1, hd=4, hidden=8, inter=6, layers=2, vocab=9, tie=False, bias=False, theta=100.0, nested=False):
    t = NS(hidden_size=hidden, num_attention_heads=heads, num_key_value_heads=kv, head_dim=hd, intermediate_size=inter, hidden_act="silu",
           num_hidden_layers=layers, vocab_size=vocab, rms_norm_eps=1e-6, rope_theta=theta, max_position_embeddings=64, attention_bias=bias,
           tie_word_embeddings=tie, architectures=["Qwen3ForCausalLM"])
    if nested:
        return NS(text_config=t, tie_word_embeddings=tie, architectures=t.architectures)
    return t


def qwen35_cfg(heads=2, kv=1, hd=8, hidden=8, inter=6, layers=4, interval=2, vocab=9, tie=False, kh=1, vh=2, kd=4, vd=3, conv=4, theta=100.0, rotary=0.5, types_=None, gate=True):
    t = NS(hidden_size=hidden, num_attention_heads=heads, num_key_value_heads=kv, head_dim=hd, intermediate_size=inter, hidden_act="silu",
           num_hidden_layers=layers, vocab_size=vocab, rms_norm_eps=1e-6, partial_rotary_factor=rotary, max_position_embeddings=64, tie_word_embeddings=tie,
           rope_parameters=dict(rope_theta=theta), full_attention_interval=interval, attn_output_gate=gate,
           linear_num_key_heads=kh, linear_num_value_heads=vh, linear_key_head_dim=kd, linear_value_head_dim=vd, linear_conv_kernel_dim=conv)
    if types_:
        t.layers_block_type = types_
    return NS(text_config=t, vision_config=None, tie_word_embeddings=tie, architectures=["Qwen3_5ForConditionalGeneration"])


def tc(cfg):
    return getattr(cfg, "text_config", cfg)


class Rng:          # small deterministic generator: the weights do not depend on torch's
    def __init__(self, seed):
        self.s = seed * 2654435761 % 2**32 or 1

    def t(self, *shape, lo=-1.0, hi=1.0):
        n = math.prod(shape)
        v = []
        for _ in range(n):
            self.s = (self.s * 1664525 + 1013904223) % 2**32
            v.append(lo + (hi - lo) * (self.s >> 8) / 2**24)
        return torch.tensor(v, dtype=torch.float64).reshape(shape)


def qwen3_weights(cfg, seed=1):
    c, r, w = tc(cfg), Rng(seed), {}
    H, D = c.hidden_size, c.head_dim
    w["model.embed_tokens.weight"] = r.t(c.vocab_size, H)
    for i in range(c.num_hidden_layers):
        p = f"model.layers.{i}."
        for n, o, k in (("q", c.num_attention_heads * D, H), ("k", c.num_key_value_heads * D, H), ("v", c.num_key_value_heads * D, H), ("o", H, c.num_attention_heads * D)):
            w[p + f"self_attn.{n}_proj.weight"] = r.t(o, k)
            if c.attention_bias:
                w[p + f"self_attn.{n}_proj.bias"] = r.t(o)
        w[p + "self_attn.q_norm.weight"] = r.t(D, lo=.5, hi=1.5)
        w[p + "self_attn.k_norm.weight"] = r.t(D, lo=.5, hi=1.5)
        for n, o, k in (("gate", c.intermediate_size, H), ("up", c.intermediate_size, H), ("down", H, c.intermediate_size)):
            w[p + f"mlp.{n}_proj.weight"] = r.t(o, k)
        w[p + "input_layernorm.weight"] = r.t(H, lo=.5, hi=1.5)
        w[p + "post_attention_layernorm.weight"] = r.t(H, lo=.5, hi=1.5)
    w["model.norm.weight"] = r.t(H, lo=.5, hi=1.5)
    if not c.tie_word_embeddings:
        w["lm_head.weight"] = r.t(c.vocab_size, H)
    return {k: v.float().double() for k, v in w.items()}


def layer_types(cfg):
    c = tc(cfg)
    if hasattr(c, "layers_block_type"):
        return c.layers_block_type
    return ["attention" if (i + 1) % c.full_attention_interval == 0 else "linear_attention" for i in range(c.num_hidden_layers)]


def qwen35_weights(cfg, seed=1, decay=0.0):
    c, r, w = tc(cfg), Rng(seed), {}
    H, D = c.hidden_size, c.head_dim
    P = "model.language_model."
    w[P + "embed_tokens.weight"] = r.t(c.vocab_size, H)
    kd, vd = c.linear_num_key_heads * c.linear_key_head_dim, c.linear_num_value_heads * c.linear_value_head_dim
    for i, ty in enumerate(layer_types(cfg)):
        p = P + f"layers.{i}."
        if ty == "attention":
            q = c.num_attention_heads * D
            for n, o, k in (("q", q * (2 if c.attn_output_gate else 1), H), ("k", c.num_key_value_heads * D, H), ("v", c.num_key_value_heads * D, H), ("o", H, q)):
                w[p + f"self_attn.{n}_proj.weight"] = r.t(o, k)
            w[p + "self_attn.q_norm.weight"] = r.t(D, lo=-.5, hi=.5)
            w[p + "self_attn.k_norm.weight"] = r.t(D, lo=-.5, hi=.5)
        else:
            for n, o in (("in_proj_qkv", 2 * kd + vd), ("in_proj_z", vd), ("in_proj_a", c.linear_num_value_heads), ("in_proj_b", c.linear_num_value_heads)):
                w[p + f"linear_attn.{n}.weight"] = r.t(o, H)
            w[p + "linear_attn.conv1d.weight"] = r.t(2 * kd + vd, 1, c.linear_conv_kernel_dim)
            w[p + "linear_attn.A_log"] = r.t(c.linear_num_value_heads, lo=-2 + decay, hi=0 + decay)
            w[p + "linear_attn.dt_bias"] = r.t(c.linear_num_value_heads)
            w[p + "linear_attn.norm.weight"] = r.t(c.linear_value_head_dim, lo=.5, hi=1.5)
            w[p + "linear_attn.out_proj.weight"] = r.t(H, vd)
        for n, o, k in (("gate", c.intermediate_size, H), ("up", c.intermediate_size, H), ("down", H, c.intermediate_size)):
            w[p + f"mlp.{n}_proj.weight"] = r.t(o, k)
        w[p + "input_layernorm.weight"] = r.t(H, lo=-.5, hi=.5)
        w[p + "post_attention_layernorm.weight"] = r.t(H, lo=-.5, hi=.5)
    w[P + "norm.weight"] = r.t(H, lo=-.5, hi=.5)
    if not c.tie_word_embeddings:
        w["lm_head.weight"] = r.t(c.vocab_size, H)
    return {k: v.float().double() for k, v in w.items()}


# ---------------------------------------------------------------- what the architectures compute
def rms(x, w, eps=1e-6):
    return x / torch.sqrt((x * x).mean(-1, keepdim=True) + eps) * w


def rope(x, pos, theta, rot, section=None, interleaved=True):       # x [T, H, D], pos [T] or [3, T] (time, height, width)
    half = rot // 2
    inv = theta ** (-torch.arange(half, dtype=torch.float64) * 2 / rot)
    if pos.ndim == 2:
        row = [j % 3 if j < 3 * section[j % 3] else 0 for j in range(half)] if interleaved else [n for n, c in enumerate(section) for _ in range(c)]
        pos = pos[row].T[:, None]
    else:
        pos = pos[:, None, None]
    a = pos.double() * inv
    x1, x2, rest = x[..., :half], x[..., half:rot], x[..., rot:]
    return torch.cat([x1 * a.cos() - x2 * a.sin(), x2 * a.cos() + x1 * a.sin(), rest], -1)


def dense_attn(q, k, v, scale):     # [T, H, D], [T, KV, D]
    g = q.shape[1] // k.shape[1]
    k, v = k.repeat_interleave(g, 1), v.repeat_interleave(g, 1)
    s = torch.einsum("qhd,khd->hqk", q, k) * scale
    T = q.shape[0]
    s = s.masked_fill(torch.triu(torch.ones(T, T, dtype=torch.bool), 1), float("-inf"))
    return torch.einsum("hqk,khd->qhd", s.softmax(-1), v)


def swiglu(x, w, p):
    return (F.silu(x @ w[p + "mlp.gate_proj.weight"].T) * (x @ w[p + "mlp.up_proj.weight"].T)) @ w[p + "mlp.down_proj.weight"].T


def qwen3_ref(cfg, w, ids):
    c = tc(cfg)
    T, D = len(ids), c.head_dim
    pos = torch.arange(T)
    x = w["model.embed_tokens.weight"][torch.tensor(ids)]
    for i in range(c.num_hidden_layers):
        p = f"model.layers.{i}."
        h = rms(x, w[p + "input_layernorm.weight"])

        def lin(n, y):
            y = y @ w[p + f"self_attn.{n}_proj.weight"].T
            return y + w[p + f"self_attn.{n}_proj.bias"] if c.attention_bias else y
        q = rope(rms(lin("q", h).view(T, -1, D), w[p + "self_attn.q_norm.weight"]), pos, c.rope_theta, D)
        k = rope(rms(lin("k", h).view(T, -1, D), w[p + "self_attn.k_norm.weight"]), pos, c.rope_theta, D)
        x = x + lin("o", dense_attn(q, k, lin("v", h).view(T, -1, D), D ** -.5).reshape(T, -1))
        x = x + swiglu(rms(x, w[p + "post_attention_layernorm.weight"]), w, p)
    x = rms(x, w["model.norm.weight"])
    return x @ w["model.embed_tokens.weight" if c.tie_word_embeddings else "lm_head.weight"].T


def delta_rule(q, k, v, g, beta, S):
    """The gated delta rule, token by token: q, k [T, H, K] (not normalised), v [T, H, V], g, beta [T, H], S [H, V, K]."""
    l2 = lambda z: z / (z.norm(dim=-1, keepdim=True) + 1e-6)
    q, k = l2(q) * q.shape[-1] ** -.5, l2(k)
    out = []
    for t in range(q.shape[0]):
        S = S * g[t].exp()[:, None, None]
        d = (v[t] - torch.einsum("hvk,hk->hv", S, k[t])) * beta[t][:, None]
        S = S + d[:, :, None] * k[t][:, None, :]
        out.append(torch.einsum("hvk,hk->hv", S, q[t]))
    return torch.stack(out), S


def qwen35_ref(cfg, w, ids, pos=None, features=None):
    c = tc(cfg)
    T, D, P = len(ids), c.head_dim, "model.language_model."
    pos = torch.arange(T) if pos is None else pos
    x = w[P + "embed_tokens.weight"][torch.tensor(ids)]
    if features is not None:
        x[torch.tensor(ids) == IMG] = features
    mr = (c.rope_parameters["mrope_section"], c.rope_parameters["mrope_interleaved"]) if pos.ndim == 2 else ()
    nrm = lambda z, n: rms(z, 1 + w[n])
    for i, ty in enumerate(layer_types(cfg)):
        p = P + f"layers.{i}."
        h = nrm(x, p + "input_layernorm.weight")
        if ty == "attention":
            rot, th = int(D * c.partial_rotary_factor), c.rope_parameters["rope_theta"]
            q = h @ w[p + "self_attn.q_proj.weight"].T
            if c.attn_output_gate:
                q, gate = q.view(T, -1, 2, D).unbind(2)
            k, v = (h @ w[p + f"self_attn.{n}_proj.weight"].T for n in "kv")
            q = rope(nrm(q.reshape(T, -1, D), p + "self_attn.q_norm.weight"), pos, th, rot, *mr)
            k = rope(nrm(k.view(T, -1, D), p + "self_attn.k_norm.weight"), pos, th, rot, *mr)
            o = dense_attn(q, k, v.view(T, -1, D), D ** -.5)
            if c.attn_output_gate:
                o = o * gate.sigmoid()
            a = o.reshape(T, -1) @ w[p + "self_attn.o_proj.weight"].T
        else:
            l = lambda n: h @ w[p + f"linear_attn.{n}.weight"].T
            kh, vh, kd, vd = c.linear_num_key_heads, c.linear_num_value_heads, c.linear_key_head_dim, c.linear_value_head_dim
            m, K = l("in_proj_qkv"), c.linear_conv_kernel_dim
            cw = w[p + "linear_attn.conv1d.weight"][:, 0]
            mp = torch.cat([torch.zeros(K - 1, m.shape[1], dtype=torch.float64), m])
            m = F.silu(sum(mp[j:j + T] * cw[:, j] for j in range(K)))
            q, k, v = m.split([kh * kd, kh * kd, vh * vd], -1)
            q, k = (z.view(T, kh, kd).repeat_interleave(vh // kh, 1) for z in (q, k))
            g = -w[p + "linear_attn.A_log"].exp() * F.softplus(l("in_proj_a") + w[p + "linear_attn.dt_bias"])
            o, _ = delta_rule(q, k, v.view(T, vh, vd), g, l("in_proj_b").sigmoid(), torch.zeros(vh, vd, kd, dtype=torch.float64))
            o = rms(o, w[p + "linear_attn.norm.weight"]) * F.silu(l("in_proj_z").view(T, vh, vd))
            a = o.reshape(T, -1) @ w[p + "linear_attn.out_proj.weight"].T
        x = x + a
        x = x + swiglu(nrm(x, p + "post_attention_layernorm.weight"), w, p)
    x = nrm(x, P + "norm.weight")
    return x @ w[P + "embed_tokens.weight" if c.tie_word_embeddings else "lm_head.weight"].T


# ---------------------------------------------------------------- stand-ins for what needs a GPU
def _dt(x):
    return getattr(torch, x) if isinstance(x, str) else x


def attend(q, k, v, scale, keep, cap):
    """q [n, H, D], k, v [m, KV, D], keep [n, m] -> out [n, H, D], base-2 log-sum-exp [n, H]"""
    if k.shape[0] == 0:
        return torch.zeros_like(q), torch.full(q.shape[:2], float("-inf"))
    g = q.shape[1] // k.shape[1]
    s = torch.einsum("qhd,khd->qhk", q.float(), k.float().repeat_interleave(g, 1)) * scale
    if cap:
        s = cap * torch.tanh(s / cap)
    s = s.masked_fill(~keep[:, None, :], float("-inf"))
    lse = torch.logsumexp(s, -1)
    o = torch.einsum("qhk,khd->qhd", torch.nan_to_num(torch.exp(s - lse[..., None])), v.float().repeat_interleave(g, 1))
    return o.to(q.dtype), lse / math.log(2)


class Wrapper:
    """What the three FlashInfer batch wrappers document: plan() keeps the index tensors it is given (in graph mode it copies them
    into the buffers given at construction and the batch size is fixed); forward() reads them again."""
    real = None

    def __init__(self, *a, **kw):
        b = inspect.signature(self.real.__init__).bind(self, *a, **kw).arguments
        self.graph = b.get("use_cuda_graph", False)
        self.is_cuda_graph_enabled = self.graph
        self.device = torch.device("cpu")
        self.planned = None
        if b.get("kv_layout", "NHD") != "NHD":
            raise Violation("wrapper:layout", "the KV layout given to FlashInfer is not the pool's")
        if self.graph:
            self._paged_kv_indptr_buf = b["paged_kv_indptr_buffer"]
            self._paged_kv_indices_buf = b["paged_kv_indices_buffer"]
            self._paged_kv_last_page_len_buf = b["paged_kv_last_page_len_buffer"]
            self._fixed_batch_size = len(self._paged_kv_last_page_len_buf)

    def _keep(self, d):
        self.planned = d
        self.copy = {k: v.clone() for k, v in d.items() if isinstance(v, torch.Tensor)}

    def _still(self):
        if self.planned is None:
            raise Violation("wrapper:unplanned", "a FlashInfer wrapper runs that was not planned")
        for k, v in self.copy.items():
            n = int(self.copy["kv_indptr"][-1]) if k == "kv_indices" else len(v)
            if not torch.equal(self.planned[k][:n], v[:n]):
                raise Violation("wrapper:overwritten", f"{k} changed between plan() and run()")
        return self.planned

    def _shapes(self, p, q, k):
        if q.shape[1:] != (p["num_qo_heads"], p["head_dim"]) or k.shape[-2:] != (p["num_kv_heads"], p["head_dim"]):
            raise Violation("wrapper:shape", f"planned heads {p['num_qo_heads']}/{p['num_kv_heads']} dim {p['head_dim']}, run with {tuple(q.shape)}, {tuple(k.shape)}")
        if q.dtype != p["q_dtype"] or k.dtype != p["kv_dtype"]:
            raise Violation("wrapper:dtype", f"planned {p['q_dtype']}/{p['kv_dtype']}, run with {q.dtype}/{k.dtype}")


class Decode(Wrapper):
    def begin_forward(self, *a, **kw):
        inspect.signature(self.real.plan).bind(self, *a, **kw)
        self.plan(False, *a, **kw)

    def plan(self, fast, indptr, indices, last_page_len, num_qo_heads, num_kv_heads, head_dim, page_size, data_type=None, q_data_type=None, kv_data_type=None, non_blocking=True, **kw):
        if kw:
            raise Violation("wrapper:option", f"options {sorted(kw)} are not in the stand-in")
        B = len(last_page_len)
        if self.graph:
            if B != self._fixed_batch_size:
                raise Violation("wrapper:graph-batch", f"plan of {B} sequences on a graph wrapper for {self._fixed_batch_size}")
            if len(indices) > len(self._paged_kv_indices_buf):
                raise Violation("wrapper:graph-indices", "more indices than the graph's buffer holds")
            if not fast:
                self._paged_kv_indptr_buf.copy_(indptr)
                self._paged_kv_last_page_len_buf.copy_(last_page_len)
                self._paged_kv_indices_buf[:len(indices)].copy_(indices.clone())
        else:
            self._paged_kv_indptr_buf, self._paged_kv_indices_buf, self._paged_kv_last_page_len_buf = indptr, indices, last_page_len
        host = indptr.clone()
        if len(indptr) != B + 1 or page_size != 1 or int(host[0]) != 0 or (last_page_len != 1).any():
            raise Violation("wrapper:plan", f"plan of {B} sequences with offsets {indptr.tolist()}, page {page_size}, last pages {last_page_len.tolist()}")
        self._keep(dict(kv_indptr=self._paged_kv_indptr_buf, kv_indices=self._paged_kv_indices_buf, host=host, num_qo_heads=num_qo_heads, num_kv_heads=num_kv_heads,
                        head_dim=head_dim, q_dtype=_dt(q_data_type or data_type), kv_dtype=_dt(kv_data_type or data_type)))

    def forward(self, q, paged_kv_cache, *a, **kw):
        o = inspect.signature(self.real.forward).bind(self, q, paged_kv_cache, *a, **kw).arguments
        p = self._still()
        k, v = (x.squeeze(1) for x in paged_kv_cache)
        self._shapes(p, q, k)
        ip = p["kv_indptr"]
        if len(q) != len(ip) - 1 or not torch.equal(ip, p["host"]):
            raise Violation("wrapper:batch", f"{len(q)} queries for offsets {ip.tolist()} planned as {p['host'].tolist()}")
        win = o.get("window_left", -1)
        out = []
        for i in range(len(q)):
            s = p["kv_indices"][int(ip[i]):int(ip[i + 1])].long()
            keep = torch.ones(1, len(s), dtype=torch.bool)
            if win >= 0:
                keep &= torch.arange(len(s))[None] >= len(s) - 1 - win
            out.append(attend(q[i:i + 1], k[s], v[s], o.get("sm_scale") or q.shape[-1] ** -.5, keep, o.get("logits_soft_cap"))[0])
        return torch.cat(out)


def fast_plan(self, *a, **kw):
    return self.plan(True, *a, **kw)


class PrefillPaged(Wrapper):
    def begin_forward(self, qo_indptr, paged_kv_indptr, paged_kv_indices, paged_kv_last_page_len, num_qo_heads, num_kv_heads, head_dim, page_size,
                      q_data_type=torch.float16, kv_data_type=None, non_blocking=True):
        B = len(paged_kv_last_page_len)
        if len(qo_indptr) != B + 1 or len(paged_kv_indptr) != B + 1 or page_size != 1 or int(qo_indptr[0]) or int(paged_kv_indptr[0]) or (paged_kv_last_page_len != 1).any():
            raise Violation("wrapper:plan", f"prefill plan of {B} with {qo_indptr.tolist()}, {paged_kv_indptr.tolist()}")
        self._keep(dict(qo=qo_indptr, kv_indptr=paged_kv_indptr, kv_indices=paged_kv_indices, num_qo_heads=num_qo_heads, num_kv_heads=num_kv_heads, head_dim=head_dim,
                        q_dtype=_dt(q_data_type), kv_dtype=_dt(kv_data_type or q_data_type)))

    def _run(self, q, paged_kv_cache, a, kw, meth):
        o = inspect.signature(getattr(self.real, meth)).bind(self, q, paged_kv_cache, *a, **kw).arguments
        p = self._still()
        k, v = (x.squeeze(1) for x in paged_kv_cache)
        self._shapes(p, q, k)
        qo, ip = p["qo"], p["kv_indptr"]
        if int(qo[-1]) != len(q):
            raise Violation("wrapper:batch", f"{len(q)} queries, planned {qo.tolist()}")
        out, lse = torch.zeros_like(q), torch.full(q.shape[:2], float("-inf"))
        win, causal = o.get("window_left", -1), o.get("causal", False)
        for i in range(len(qo) - 1):
            a, b = int(qo[i]), int(qo[i + 1])
            s = p["kv_indices"][int(ip[i]):int(ip[i + 1])].long()
            n, m = b - a, len(s)
            at = torch.arange(n)[:, None] + (m - n)
            keep = torch.ones(n, m, dtype=torch.bool)
            if causal:
                keep &= torch.arange(m)[None] <= at
            if win is not None and win >= 0:
                keep &= torch.arange(m)[None] >= at - win
            out[a:b], lse[a:b] = attend(q[a:b], k[s], v[s], o.get("sm_scale") or q.shape[-1] ** -.5, keep, o.get("logits_soft_cap"))
        return out, lse

    def forward(self, q, kv, *a, **kw):
        return self._run(q, kv, a, kw, "forward")[0]

    def forward_return_lse(self, q, kv, *a, **kw):
        return self._run(q, kv, a, kw, "forward_return_lse")


class PrefillRagged(Wrapper):
    def begin_forward(self, qo_indptr, kv_indptr, num_qo_heads, num_kv_heads, head_dim, q_data_type=torch.float16, kv_data_type=None):
        self._keep(dict(qo=qo_indptr, kv_indptr=kv_indptr, num_qo_heads=num_qo_heads, num_kv_heads=num_kv_heads, head_dim=head_dim,
                        q_dtype=_dt(q_data_type), kv_dtype=_dt(kv_data_type or q_data_type)))

    def _run(self, q, k, v, a, kw, meth):
        o = inspect.signature(getattr(self.real, meth)).bind(self, q, k, v, *a, **kw).arguments
        p = self._still()
        self._shapes(p, q, k)
        qo, ip = p["qo"], p["kv_indptr"]
        if int(qo[-1]) != len(q) or int(ip[-1]) != len(k):
            raise Violation("wrapper:batch", f"{len(q)} queries and {len(k)} keys, planned {qo.tolist()} and {ip.tolist()}")
        out, lse = torch.zeros_like(q), torch.full(q.shape[:2], float("-inf"))
        win, causal = o.get("window_left", -1), o.get("causal", False)
        for i in range(len(qo) - 1):
            a, b, c, d = int(qo[i]), int(qo[i + 1]), int(ip[i]), int(ip[i + 1])
            n, m = b - a, d - c
            at = torch.arange(n)[:, None] + (m - n)
            keep = torch.ones(n, m, dtype=torch.bool)
            if causal:
                keep &= torch.arange(m)[None] <= at
            if win >= 0:
                keep &= torch.arange(m)[None] >= at - win
            out[a:b], lse[a:b] = attend(q[a:b], k[c:d], v[c:d], o.get("sm_scale") or q.shape[-1] ** -.5, keep, o.get("logits_soft_cap"))
        return out, lse

    def forward(self, q, k, v, *a, **kw):
        return self._run(q, k, v, a, kw, "forward")[0]

    def forward_return_lse(self, q, k, v, *a, **kw):
        return self._run(q, k, v, a, kw, "forward_return_lse")


def merge_state(va, sa, vb, sb):
    m = torch.maximum(sa, sb)
    wa, wb = torch.exp2(sa - m), torch.exp2(sb - m)
    return ((va * wa[..., None] + vb * wb[..., None]) / (wa + wb)[..., None]).to(va.dtype), m + torch.log2(wa + wb)


def create_kv_indices(table, rows, lens, indptr, start, out):
    for t in (table, rows, lens, indptr, out) + ((start,) if start is not None else ()):
        if t.dtype != torch.int32:
            raise Violation("indices:dtype", f"the index kernel takes int32, given {t.dtype}")
    if len(out) < int(indptr[-1]) or len(indptr) != len(rows) + 1:
        raise Violation("indices:size", f"the index buffer holds {len(out)}, needed {int(indptr[-1])}")
    for i in range(len(rows)):
        s = int(start[i]) if start is not None and len(start) else 0
        n, o = int(lens[i]), int(indptr[i])
        if not 0 <= int(rows[i]) < table.shape[0] or s < 0 or s + n > table.shape[1]:
            raise Violation("indices:range", f"row {int(rows[i])} columns {s}..{s + n} of a {tuple(table.shape)} table")
        out[o:o + n] = table[int(rows[i]), s:s + n]


def rmsnorm(x, w, eps=1e-6, out=None, enable_pdl=None):
    return (rms(x.double(), w.double(), eps)).to(x.dtype)


def gemma_rmsnorm(x, w, eps=1e-6, out=None, enable_pdl=None):
    return (rms(x.double(), 1 + w.double(), eps)).to(x.dtype)


def fused_add(x, res, w, eps=1e-6, enable_pdl=None):
    res.add_(x)
    x.copy_(rmsnorm(res, w, eps))


def gemma_fused_add(x, res, w, eps=1e-6, enable_pdl=None):
    res.add_(x)
    x.copy_(gemma_rmsnorm(res, w, eps))


def apply_rope_inplace(q, k, pos_ids, rotary_dim=None, interleave=False, rope_scale=1, rope_theta=1e4):
    if interleave or rope_scale != 1:
        raise Violation("rope:option", "interleaved or scaled rotation")
    p = pos_ids.reshape(-1)[:q.shape[0]]     # the kernel reads one position per token from the start of the buffer
    for x in (q, k):
        x.copy_(rope(x.double(), p, rope_theta, rotary_dim or x.shape[-1]).to(x.dtype))


def silu_and_mul(x, out=None, enable_pdl=None):
    a, b = x.chunk(2, -1)
    return F.silu(a) * b


class Graph:
    """A CUDA graph: replay runs again what was recorded, on the same tensors, with the host values of the recording."""
    def __init__(self):
        self.fn = None

    def replay(self):
        self.fn()


REC = None


@contextlib.contextmanager
def record(graph, pool=None, stream=None):
    global REC
    REC = []
    yield
    calls, REC = REC, None
    if len(calls) != 1:
        raise Violation("graph:calls", f"{len(calls)} forward passes recorded in one graph")
    backends, saved, fwd, args, out = calls[0]

    def again():
        for b, m in zip(backends, saved):
            b.forward_metadata = m
        new = fwd(*args)
        a, b = tensors(out), tensors(new)
        for x, y in zip(a, b):
            x.copy_(y)
    graph.fn = again


def tensors(o):
    if isinstance(o, torch.Tensor):
        return [o]
    return [v for v in vars(o).values() if isinstance(v, torch.Tensor)]


_done = False


def install():
    """Puts the stand-ins in place of the kernels (by name, in the modules that use them)."""
    global _done
    if _done:
        return
    _done = True
    import flashinfer
    from flashinfer import decode, prefill
    Decode.real, PrefillPaged.real, PrefillRagged.real = decode.BatchDecodeWithPagedKVCacheWrapper, prefill.BatchPrefillWithPagedKVCacheWrapper, prefill.BatchPrefillWithRaggedKVCacheWrapper
    flashinfer.norm.rmsnorm, flashinfer.norm.gemma_rmsnorm = rmsnorm, gemma_rmsnorm
    flashinfer.norm.fused_add_rmsnorm, flashinfer.norm.gemma_fused_add_rmsnorm = fused_add, gemma_fused_add
    flashinfer.rope.apply_rope_pos_ids_inplace = apply_rope_inplace
    flashinfer.activation.silu_and_mul = silu_and_mul
    import pymllm.layers.mlp as mlp
    mlp._ACTIVATION_MAP["silu"] = silu_and_mul
    import pymllm.layers.attention.flashinfer_backend as fb
    fb.BatchDecodeWithPagedKVCacheWrapper, fb.BatchPrefillWithPagedKVCacheWrapper, fb.BatchPrefillWithRaggedKVCacheWrapper = Decode, PrefillPaged, PrefillRagged
    fb.fast_decode_plan, fb.merge_state, fb.create_kv_indices, fb._flashinfer_available, fb._has_fast_decode_plan = fast_plan, merge_state, create_kv_indices, True, True
    import pymllm.layers.attention.gdn_backend as gb
    gb._get_flashinfer_gdn = lambda: (False, None, None)
    gb._get_mllm_gdn_extend = gb._get_mllm_gdn_decode = gb._get_mllm_gdn_extend_chunkwise = lambda: None
    from pymllm.mem_cache.memory_pool import KVPool
    init = KVPool.__init__
    KVPool.__init__ = lambda self, *a, **kw: init(self, *a, **{**kw, "pin_memory": False})     # pinning needs the driver
    torch.cuda.Stream = lambda *a, **k: None
    torch.cuda.stream = lambda s: contextlib.nullcontext()
    torch.cuda.synchronize = lambda *a: None
    torch.cuda.graph_pool_handle = lambda: (0, 0)
    torch.cuda.CUDAGraph, torch.cuda.graph = Graph, record


def make_runner(cfg, weights, slots, max_reqs, ctx, graphs, path=None, only_load=False):
    """The real ModelRunner with the real pools, backend and model, without the parts that look for files and GPUs."""
    install()
    from pymllm.executor.model_runner import ModelRunner
    from pymllm.models import get_model_class
    server = NS(dtype="float32", context_length=ctx, max_running_requests=max_reqs, enable_torch_compile=False, torch_compile_max_bs=0, kv_cache_dtype="auto",
                disable_cuda_graph=not graphs, quantization=None, model_path=path)
    r = ModelRunner(server_config=server, model_config=NS(hf_config=cfg, model_path=path or "/nonexistent"))
    torch.set_default_dtype(torch.float32)
    if path:
        torch.use_deterministic_algorithms(True)         # memory that nothing is loaded into reads as NaN
        try:
            r.load_model()           # from the files there
        finally:
            torch.use_deterministic_algorithms(False)
        if only_load:
            return r
    else:
        r.model = get_model_class(cfg.architectures[0])(cfg)
        with torch.no_grad():
            for p in r.model.parameters():
                p.fill_(float("nan"))        # what no weight of the checkpoint reaches, shows
        r.model.load_weights((k, v.float()) for k, v in weights.items())
    r.model.eval()
    r._extract_model_metadata()
    r._configure_kv_cache_dtype()
    r._profile_max_num_tokens = lambda: slots
    r.init_memory_pool()
    r.init_attention_backend()
    r.graph_runner = None
    if graphs:
        from pymllm.executor.cuda_graph_runner import CudaGraphRunner
        fwd = r.model.forward
        b = r.attn_backend
        bs = [x for x in (getattr(b, "full_attn_backend", b), getattr(b, "gdn_backend", None)) if x is not None]

        def rec(*args):
            m = [x.forward_metadata for x in bs]
            out = fwd(*args)
            if REC is not None:
                REC.append((bs, m, fwd, args, out))
            return out
        r.model.forward = rec
        r.graph_runner = CudaGraphRunner(r)
    return r


# ---------------------------------------------------------------- the vision-language model, against the published implementation
IMG, VSTART, VEND = 12, 14, 15


def vl_cfg(tie=False, kv=1, layers=3, deep=(0, 1), section=(2, 2, 2), interleaved=True, merge=2, temporal=1, hidden=16, hd=12, inter=12):
    from transformers.models.qwen3_vl import Qwen3VLConfig
    t = dict(vocab_size=16, hidden_size=hidden, intermediate_size=inter, num_hidden_layers=layers, num_attention_heads=2, num_key_value_heads=kv, head_dim=hd, rope_theta=100.0,
             max_position_embeddings=64, rope_scaling=dict(rope_type="default", mrope_section=list(section), mrope_interleaved=interleaved), hidden_act="silu", tie_word_embeddings=tie)
    v = dict(depth=2, hidden_size=16, hidden_act="gelu_pytorch_tanh", intermediate_size=12, num_heads=2, in_channels=1, patch_size=1, spatial_merge_size=merge, temporal_patch_size=temporal,
             out_hidden_size=hidden, num_position_embeddings=9, deepstack_visual_indexes=list(deep))
    c = Qwen3VLConfig(text_config=t, vision_config=v, image_token_id=IMG, video_token_id=13, vision_start_token_id=VSTART, vision_end_token_id=VEND, tie_word_embeddings=tie,
                      attn_implementation="eager")
    c.architectures = ["Qwen3VLForConditionalGeneration"]
    return c


def vl_model(cfg, seed=1):
    from transformers.models.qwen3_vl import Qwen3VLForConditionalGeneration
    m = Qwen3VLForConditionalGeneration(cfg).double().eval()
    r = Rng(seed)
    with torch.no_grad():
        for n, p in sorted(m.named_parameters()):
            p.copy_(r.t(*p.shape, lo=.5 if "norm" in n and n.endswith("weight") else -.7, hi=1.5 if "norm" in n and n.endswith("weight") else .7).float().double())
    return m


def vl_weights(m):
    return {k: v for k, v in m.state_dict().items() if not (m.config.tie_word_embeddings and k == "lm_head.weight")}


def vl_ref(m, ids, images):
    """images: list of (grid, pixels [t*h*w, dim])"""
    kw = {}
    if images:
        kw = dict(pixel_values=torch.cat([p for _, p in images]).double(), image_grid_thw=torch.tensor([g for g, _ in images]))
    with torch.no_grad():
        return m(input_ids=torch.tensor([ids]), **kw).logits[0, -1]


# ---------------------------------------------------------------- the hybrid model with images
def qwen35vl_cfg(section=(2, 2, 2), interleaved=True, **kw):
    from transformers.models.qwen3_vl.configuration_qwen3_vl import Qwen3VLVisionConfig
    c = qwen35_cfg(**{**dict(vocab=16, hidden=16, hd=24, rotary=.5), **kw})
    c.text_config.rope_parameters.update(mrope_section=list(section), mrope_interleaved=interleaved)
    c.vision_config = Qwen3VLVisionConfig(depth=2, hidden_size=16, hidden_act="gelu_pytorch_tanh", intermediate_size=12, num_heads=2, in_channels=1, patch_size=1, spatial_merge_size=2,
                                          temporal_patch_size=1, out_hidden_size=16, num_position_embeddings=9, deepstack_visual_indexes=[], attn_implementation="eager")
    c.image_token_id, c.video_token_id, c.vision_start_token_id = IMG, 13, VSTART
    return c


def qwen35vl_vision(cfg, seed=2):
    """The published vision encoder (that of Qwen3-VL, without deepstack)."""
    from transformers.models.qwen3_vl.modeling_qwen3_vl import Qwen3VLVisionModel
    m = Qwen3VLVisionModel(cfg.vision_config).double().eval()
    r = Rng(seed)
    with torch.no_grad():
        for n, p in sorted(m.named_parameters()):
            p.copy_(r.t(*p.shape, lo=.5 if "norm" in n and n.endswith("weight") else -.7, hi=1.5 if "norm" in n and n.endswith("weight") else .7).float().double())
    return m


def qwen35vl_weights(cfg, vision, seed=1):
    return {**qwen35_weights(cfg, seed), **{"model.visual." + k: v for k, v in vision.state_dict().items()}}


def qwen35vl_ref(cfg, w, vision, ids, images):
    if not images:
        return qwen35_ref(cfg, w, ids)[-1]
    m = cfg.vision_config.spatial_merge_size
    with torch.no_grad():
        f = vision(torch.cat([p for _, p in images]).double(), grid_thw=torch.tensor([g for g, _ in images]))[0]
    pos, at, left = [], 0, [(h // m, w_ // m) for (_, h, w_), _ in images]
    i = 0
    while i < len(ids):
        if ids[i] == IMG:
            h, w_ = left.pop(0)
            pos += [(at, at + y, at + x) for y in range(h) for x in range(w_)]
            at += max(h, w_)
            i += h * w_
        else:
            pos.append((at,) * 3)
            at += 1
            i += 1
    return qwen35_ref(cfg, w, ids, torch.tensor(pos).T, f)[-1]
