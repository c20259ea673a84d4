"""P20: through the whole serving path - batches as the scheduler builds them, the model-runner process with its prefix cache,
the real runner, pools, backends and models - every request gets the logits of its own tokens and images.

Every history of prefills (one or two requests, in every order), decode steps and ends, up to a depth, over prompts that share
prefixes, repeat, show other images behind the same tokens, or contain the image marker as text.  The oracle for text models is
modelref_h's dense decoder, for the vision-language model the published implementation (transformers), in double precision, on
that request alone.
"""
import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
import itertools
import torch
import modelref_h as M
from P19 import save, restore
from vf.core import Check, Violation, explore_replay

NS = M.NS


def image(seed, t, h, w):
    return (t, h, w), M.Rng(seed).t(t * h * w, 1).float()


def prompts(kind):
    if kind in ("vl", "q35vl"):
        V, I, E = M.VSTART, M.IMG, M.VEND
        a, b, c = image(3, 1, 2, 4), image(4, 1, 2, 4), image(5, 1, 4, 4)
        one = [1, V, I, I, E, 2, 3]
        return [([1, 2, 3, 4], []), ([1, 2, 3, 4, 5, 6], []), (one, [a]), (one, [b]), (one + [4, 5], [a]), ([7] + [V] + [I] * 4 + [E, V, I, I, E, 1], [c, a]), ([1, V, 5, 2], [])]
    return [(p, []) for p in ([1, 2, 3, 4], [1, 2, 3, 4, 5, 6], [1, 2, 7], [1, 2, 3, 4], [8])]


class Shared:
    cache = {}

    def __init__(self, cfg):
        k = cfg["model"]
        self.plain = 12 if k in ("vl", "q35vl") else None
        if k == "vl":
            hf = M.vl_cfg(**cfg["kw"])
            self.hfm = M.vl_model(hf)
            w = M.vl_weights(self.hfm)
            self.ref = lambda ids, images: M.vl_ref(self.hfm, ids, images)
        elif k == "q35vl":
            hf = M.qwen35vl_cfg(**cfg["kw"])
            vision = M.qwen35vl_vision(hf)
            w = M.qwen35vl_weights(hf, vision)
            self.ref = lambda ids, images: M.qwen35vl_ref(hf, w, vision, ids, images)
        else:
            mk, wf, rf = dict(q3=(M.qwen3_cfg, M.qwen3_weights, M.qwen3_ref), q35=(M.qwen35_cfg, M.qwen35_weights, M.qwen35_ref))[k]
            hf = mk(**cfg["kw"])
            w = wf(hf)
            self.ref = lambda ids, images: rf(hf, w, ids)[-1]
        self.r = r = M.make_runner(hf, w, cfg["slots"], cfg["rows"], cfg.get("ctx", 16), cfg["graphs"])
        self.roots = [r.req_to_token_pool, r.token_to_kv_pool, r.token_to_kv_pool_allocator, r.gdn_pool, r.attn_backend] + ([r.graph_runner.buffers] if r.graph_runner else [])
        self.first = save(self.roots)
        self.known = {}
        self.prompts = prompts(k)
        self.config = NS(**vars(r.server_config), disable_radix_cache=cfg.get("nocache", False), enable_mamba_cache=False, radix_cache_page_size=cfg.get("page", 1))
        sample = r.sample

        def spy(out, *a, **kw):
            self.seen = out.next_token_logits.clone()
            if self.plain:
                out.next_token_logits[:, self.plain:] = -1e9        # the markers of images are not generated
            return sample(out, *a, **kw)
        r.sample = spy

    def want(self, i, more):
        k = (i, tuple(more))
        if k not in self.known:
            ids, images = self.prompts[i]
            self.known[k] = self.ref(ids + list(more), images)
        return self.known[k]

    @classmethod
    def get(cls, cfg):
        k = repr(cfg)
        if k not in cls.cache:
            cls.cache[k] = cls(cfg)
        return cls.cache[k]


class E:
    def __init__(self, cfg):
        from pymllm.orchestrator.model_runner_process import ModelRunnerProcess
        self.cfg, self.S = cfg, Shared.get(cfg)
        restore(self.S.first)
        p = ModelRunnerProcess.__new__(ModelRunnerProcess)
        import inspect
        b = {n: None for n, q in list(inspect.signature(ModelRunnerProcess.__init__).parameters.items())[1:] if q.default is q.empty}
        b.update({n: v for n, v in dict(server_config=self.S.config).items() if n in inspect.signature(ModelRunnerProcess.__init__).parameters})
        p.__init__(**b)
        p._runner = self.S.r
        p._server_config = self.S.config
        p._radix_cache = p._create_prefix_cache()
        self.p, self.live, self.n = p, {}, 0

    def actions(self):
        c = self.cfg
        new = [i for i in range(len(self.S.prompts)) if i not in self.live and i in c["use"]]
        out = []
        room = c["live"] - len(self.live)
        for k in range(1, min(room, c.get("batch", 2)) + 1):
            out += [("pre", x) for x in itertools.permutations(new, k)]
        l = list(self.live)
        ok = [i for i in l if len(self.live[i].output_ids) < c["steps"]]
        out += [("dec", d) for k in range(1, len(ok) + 1) for d in itertools.permutations(ok, k)]
        out += [("fin", i) for i in l]
        return out

    def apply(self, a):
        with torch.no_grad():
            getattr(self, a[0])(tuple(a[1]) if isinstance(a[1], (list, tuple)) else a[1])

    def run(self, who, mode):
        from pymllm.orchestrator.scheduler_process import ScheduleBatch
        import pymllm.orchestrator.scheduler_process as sp
        reqs = [self.live[i] for i in who]
        b = ScheduleBatch(reqs, getattr(sp.ForwardMode, mode)).to_batch_dict()
        out = self.p._forward_batch(b)
        lg = self.S.seen
        if len(lg) != len(who) or [o["rid"] for o in out["outputs"]] != [r.rid for r in reqs]:
            raise Violation("batch", f"{len(lg)} logits, outputs {out['outputs']} for {[r.rid for r in reqs]}")
        for j, i in enumerate(who):
            r = self.live[i]
            want = self.S.want(i, r.output_ids)
            d = (lg[j].double() - want).abs().max().item()
            tok = out["outputs"][j]["output_token_ids"]
            if not d <= 1e-3 * (1 + want.abs().max().item()) or tok != [int(want[:self.S.plain].argmax())]:
                ids, images = self.S.prompts[i]
                raise Violation("logits", f"request {i} (tokens {ids + r.output_ids}, {len(images)} images, place {j} of the batch): logits {[round(x, 3) for x in lg[j].tolist()]}, "
                                f"token {tok}; computed on its own {[round(x, 3) for x in want.tolist()]}")
            r.output_ids.append(tok[0])
            r.seq_len += 1
            r.prefix_len = out["outputs"][j].get("prefix_len", r.prefix_len)

    def pre(self, who):
        from pymllm.orchestrator.scheduler_process import Req
        for i in who:
            ids, images = self.S.prompts[i]
            mm = None
            if images:
                mm = {"image_inputs": {"pixel_values": torch.cat([p for _, p in images]), "image_grid_thw": torch.tensor([g for g, _ in images])}}
            self.live[i] = Req(f"r{self.n}", list(ids), sampling_params=dict(temperature=0.0), mm_inputs=mm)
            self.n += 1
        self.run(who, "EXTEND")

    def dec(self, who):
        self.run(who, "DECODE")

    def fin(self, i):
        self.p._free_rid_resources(self.live.pop(i).rid)

    def check(self):
        pass

    def fingerprint(self):
        p, r = self.p, self.S.r
        return repr((sorted((i, q.output_ids) for i, q in self.live.items()), shape(p._radix_cache, p._node_id_to_gdn_track_slot), len(r.token_to_kv_pool_allocator.free_slots) + len(r.token_to_kv_pool_allocator.release_slots)))


def shape(cache, snaps):
    """the keys in the tree, which are locked and which have a snapshot; slots and times are left out"""
    out = []
    todo = [getattr(cache, "root_node", None) or getattr(cache, "root", None) or getattr(cache, "_root", None)]
    if todo[0] is None:
        return None
    while todo:
        n = todo.pop()
        out.append((str(getattr(n.key, "token_ids", n.key)), getattr(n, "lock_ref", 0), getattr(n, "id", None) in snaps))
        todo += list(n.children.values())
    return sorted(out)


def job(cfg, depth):
    return explore_replay(E, cfg, depth)


def grids(cfg, sides, frames):
    """Every list of up to two images over the sides, the shape of the text around them, and two steps of generation."""
    shapes = [(f, h, w) for f in frames for h in sides for w in sides]
    S = Shared.get(cfg)
    st, bad = dict(states=0, transitions=0, validated=0, exhaustive=True, samples=[]), []
    V, I, X = M.VSTART, M.IMG, M.VEND
    for k in (1, 2):
        for imgs in itertools.product(shapes, repeat=k):
            for lone in (False, True):
                ids = [V, 3] if lone else [1]
                pics = []
                for j, (f, h, w) in enumerate(imgs):
                    ids = ids + [V] + [I] * (f * h * w // 4) + [X]
                    pics.append(image(7 + j, f, h, w))
                S.prompts = [(ids + [V, 5] if lone else ids + [2], pics)]
                if len(ids) + 4 > cfg["ctx"]:
                    continue
                S.known = {}
                hist = [("pre", (0,)), ("dec", (0,)), ("dec", (0,))]
                try:
                    e = E(cfg)
                    for a in hist:
                        e.apply(a)
                        st["transitions"] += 1
                except Violation as v:
                    bad.append(dict(sig=v.sig, msg=f"grids {imgs}, tokens {S.prompts[0][0]}: {v}", cfg=dict(cfg, images=imgs, lone=lone), hist=hist))
                except Exception as v:
                    bad.append(dict(sig="exception:" + type(v).__name__, msg=f"grids {imgs}, tokens {S.prompts[0][0]}: {v!r}", cfg=dict(cfg, images=imgs, lone=lone), hist=hist))
                st["states"] += 1
                if len(bad) >= 3:
                    return st, bad
    st["validated"] = st["transitions"]
    return st, bad


def main():
    c = Check("P20", "every history of prefills, decode steps and ends over the prompts: each request's logits and next token are those of its own tokens and images",
              ["FlashInfer's kernels and CUDA graphs are replaced by stand-ins with their documented meaning", "float32, one process, images (no videos), greedy sampling"])
    t = c.thorough
    base = dict(slots=64, rows=4, graphs=False, live=3, steps=2)
    J = []
    d = 5 if t else 4
    for n, k in (("vl-text", dict(use=[0, 1, 6], kw={})), ("vl-images", dict(use=[2, 3, 4], kw=dict(tie=True))), ("vl-mixed", dict(use=[0, 5, 6, 2], kw=dict(section=(4, 1, 1)), live=2, graphs=True)),
                 ("vl-blocks", dict(use=[1, 4, 5], kw=dict(deep=(1,), kv=2, section=(1, 3, 2)), live=2)), ("vl-nocache", dict(use=[0, 2, 3], kw={}, nocache=True)), ("vl-triples", dict(use=[2, 5, 4, 0], kw={}, batch=3))):
        J.append((n, job, dict(cfg=dict(base, model="vl", **k), depth=d)))
    for n, k in (("hybrid-images", dict(use=[2, 3, 4], kw={})), ("hybrid-mixed", dict(use=[0, 5, 6, 2], kw=dict(section=(4, 1, 1), tie=True), live=2, graphs=True)),
                 ("hybrid-blocks", dict(use=[1, 4, 5], kw=dict(section=(1, 3, 2), interleaved=False, interval=1, layers=2), live=2))):
        J.append((n, job, dict(cfg=dict(base, model="q35vl", **k), depth=d)))
    for n, k in (("text", dict(model="q3", kw={}, page=1)), ("text-pages", dict(model="q3", kw=dict(tie=True), page=2)), ("hybrid", dict(model="q35", kw={}, page=1)),
                 ("text-evict", dict(model="q3", kw={}, page=1, slots=17, live=2)), ("hybrid-evict", dict(model="q35", kw={}, page=1, slots=17, live=2, rows=3)),
                 ("hybrid-graphs", dict(model="q35", kw=dict(tie=True), page=2, graphs=True))):
        J.append((n, job, dict(cfg=dict(base, use=[0, 1, 2, 3, 4], **k), depth=d)))
    for n, k in (("vl-grids", dict(model="vl", kw=dict(section=(3, 2, 1)))), ("hybrid-grids", dict(model="q35vl", kw={}))):
        J.append((n, grids, dict(cfg=dict(base, **k, ctx=40, slots=96), sides=(2, 4, 6, 8) if t else (2, 4, 6), frames=(1,))))
    c.run(J)
    c.finish()


if __name__ == "__main__":
    main()
