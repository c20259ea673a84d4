"""P10: streaming detokenization adds up to the one-shot text.

The real DetokenizerProcess (init_tokenizer + event_loop) runs with a real byte-level / sentencepiece-style
tokenizer; its two sockets are stand-ins.  Every token sequence over a small alphabet (single bytes of 2-, 3-
and 4-byte characters, tokens holding parts of two characters, special tokens) is sent in every grouping into
increments, for one request and for two interleaved ones; after a request finishes, its deltas must
concatenate to tokenizer.decode(all its tokens).
"""
import pathlib, shutil, sys, tempfile
from vf.core import Check, Violation, explore
from pymllm.orchestrator.detokenizer_process import DetokenizerProcess


class _End(Exception):
    pass


class InSock:
    def __init__(self):
        self.q = []

    def recv_pyobj(self, *a, **k):
        if not self.q:
            raise _End()
        return self.q.pop(0)

    def close(self, *a, **k):
        pass


class OutSock:
    def __init__(self):
        self.out = []

    def send_pyobj(self, o, *a, **k):
        self.out.append(o)

    def close(self, *a, **k):
        pass


def make_tokenizer(kind, path):
    from tokenizers import Tokenizer, models, decoders, pre_tokenizers, AddedToken
    from transformers import PreTrainedTokenizerFast
    if kind == "bytelevel":
        from transformers.models.gpt2.tokenization_gpt2 import bytes_to_unicode
        b2u = bytes_to_unicode()
        enc = lambda bs: "".join(b2u[b] for b in bs)
        toks = [bytes([i]) for i in range(256)] + [b"\xe4\xb8", b"\xade4"[:1] + b"a", b"ab", b"\xb8\xad", b"a\xf0\x9f", b"\x98\x80", b"\xa9\xc3", b" a"]
        vocab = {enc(t): i for i, t in enumerate(toks)}
        t = Tokenizer(models.BPE(vocab=vocab, merges=[]))
        t.decoder = decoders.ByteLevel()
        t.pre_tokenizer = pre_tokenizers.ByteLevel(add_prefix_space=False)
        ids = {name: toks.index(b) for name, b in dict(
            a=b"a", c3=b"\xc3", a9=b"\xa9", e4=b"\xe4", b8=b"\xb8", ad=b"\xad", e4b8=b"\xe4\xb8", b8ad=b"\xb8\xad",
            ada=b"\xada", f0=b"\xf0", x9f=b"\x9f", x98=b"\x98", x80=b"\x80", af09f=b"a\xf0\x9f", x9880=b"\x98\x80",
            a9c3=b"\xa9\xc3", sp=b" a").items()}
    else:  # byte-fallback, as sentencepiece-derived vocabularies
        toks = ["<unk>"] + ["<0x%02X>" % i for i in range(256)] + ["a", "b", "\u2581a", "\u4e2d", "\ufffd"]
        t = Tokenizer(models.BPE(vocab={x: i for i, x in enumerate(toks)}, merges=[], byte_fallback=True, unk_token="<unk>"))
        t.decoder = decoders.Sequence([decoders.Replace("\u2581", " "), decoders.ByteFallback(), decoders.Fuse()])
        ids = dict(a=257, sp=259, zh=260, fffd=261, c3=1 + 0xc3, a9=1 + 0xa9, e4=1 + 0xe4, b8=1 + 0xb8, ad=1 + 0xad, f0=1 + 0xf0, x9f=1 + 0x9f, x98=1 + 0x98, x80=1 + 0x80)
    t.add_special_tokens([AddedToken("<|eos|>", special=True)])
    t.add_tokens([AddedToken("<tag>", special=False, normalized=False)])
    ids["eos"] = t.token_to_id("<|eos|>")
    ids["tag"] = t.token_to_id("<tag>")
    PreTrainedTokenizerFast(tokenizer_object=t, eos_token="<|eos|>", clean_up_tokenization_spaces=False).save_pretrained(path)
    return ids


_TOK = {}


def tokenizer(kind):
    if kind not in _TOK:
        d = tempfile.mkdtemp(prefix="vfp10_")
        try:
            ids = make_tokenizer(kind, d)
            p = DetokenizerProcess("a", "b", tokenizer_cfg={"tokenizer_path": d})
            p.init_tokenizer()
            _TOK[kind] = (p._tokenizer, ids, {})
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return _TOK[kind]


class DetokH:
    def __init__(self, cfg):
        self.cfg = cfg
        tok, self.ids, self.memo = tokenizer(cfg["kind"])
        self.p = DetokenizerProcess("a", "b", tokenizer_cfg={})
        self.p._tokenizer = tok
        self.p._recv_from_scheduler = InSock()
        self.p._send_to_rr = OutSock()
        n = cfg["reqs"]
        self.toks = [[] for _ in range(n)]        # tokens generated so far
        self.text = [""] * n                      # deltas delivered so far
        self.state = ["run"] * n
        self.skip = [bool(x) for x in cfg["skip"]]

    def __deepcopy__(self, memo):
        import copy
        h = object.__new__(DetokH)
        h.__dict__.update(self.__dict__)
        tok = self.p._tokenizer
        h.p = copy.deepcopy(self.p, {id(tok): tok})
        h.toks = [list(x) for x in self.toks]
        h.text = list(self.text)
        h.state = list(self.state)
        return h

    def _utf8(self, toks):
        """(valid so far, complete) for the byte runs of a byte-fallback token sequence; that decoder turns a
        whole run into U+FFFD when it is not valid UTF-8, so only well-formed text has a stable decoding."""
        run = b""
        for t in list(toks) + [None]:
            b = t - 1 if t is not None and 1 <= t <= 256 else None
            if b is not None:
                run += bytes([b])
                continue
            if t is None:
                try:
                    run.decode()
                    return True, True
                except UnicodeDecodeError as e:
                    return e.reason == "unexpected end of data", False
            try:
                run.decode()
            except UnicodeDecodeError:
                return False, False
            run = b""

    def actions(self):
        acts = self._actions()
        if self.cfg["kind"] == "bytelevel":
            return acts
        out = []
        for a in acts:
            if a[0] == "more":
                if self._utf8(self.toks[a[1]] + [self.ids[t] for t in a[2:]])[0]:
                    out.append(a)
            elif self._utf8(self.toks[a[1]])[1]:
                out.append(a)
        return out

    def _actions(self):
        out = []
        for r in range(len(self.toks)):
            if self.state[r] != "run":
                continue
            left = self.cfg["len"] - len(self.toks[r])
            if left > 0:
                for k in range(1, min(self.cfg["chunk"], left) + 1):
                    self._combos(out, r, k, ())
            out.append(("finish", r, "length"))
            if self.cfg.get("abort"):
                out.append(("finish", r, "abort"))
        return out

    def _combos(self, out, r, k, pre):
        if k == 0:
            out.append(("more", r) + pre)
            return
        for t in self.cfg["alpha"]:
            self._combos(out, r, k - 1, pre + (t,))

    def _whole(self, ids, skip):
        key = (tuple(ids), skip)
        w = self.memo.get(key)
        if w is None:
            w = self.memo[key] = self.p._tokenizer.decode(list(ids), skip_special_tokens=skip)
        return w

    def apply(self, a):
        r = a[1]
        rid = f"r{r}"
        fin = None
        if a[0] == "more":
            self.toks[r].extend(self.ids[t] for t in a[2:])
        else:
            fin = a[2]
        msg = dict(rids=[rid], finished_reasons=[fin], decode_ids=list(self.toks[r][-1:]), read_offsets=[0],
                   output_ids=list(self.toks[r]), skip_special_tokens=[self.skip[r]], prompt_tokens=[3],
                   completion_tokens=[len(self.toks[r])])
        self.p._recv_from_scheduler.q.append(msg)
        self.p._send_to_rr.out.clear()
        try:
            self.p.event_loop()
        except _End:
            pass
        res = list(self.p._send_to_rr.out)
        self.p._send_to_rr.out.clear()
        if len(res) != 1:
            raise Violation("count", f"{len(res)} results for one increment of {rid}")
        x = res[0]
        if x.get("rid") != rid or bool(x.get("finished")) != (fin is not None) or x.get("finished_reason") != fin:
            raise Violation("routing", f"increment of {rid} (finish={fin}) came out as {x}")
        if x.get("output_token_ids") != self.toks[r] or x.get("completion_tokens") != len(self.toks[r]):
            raise Violation("tokens", f"{rid}: tokens {self.toks[r]} reported as {x.get('output_token_ids')}/{x.get('completion_tokens')}")
        self.text[r] += x.get("delta", "")
        whole = self._whole(self.toks[r], self.skip[r])
        if self.cfg["kind"] != "bytelevel" and not self._utf8(self.toks[r])[1]:
            whole = None
        elif not whole.startswith(self.text[r]):
            raise Violation("delta-not-prefix", f"{rid}: delivered {self.text[r]!r} so far, tokens {list(self.toks[r])} read {whole!r}")
        if fin is not None:
            if self.text[r] != whole or x.get("text") != whole:
                raise Violation("text", f"{rid}: deltas add up to {self.text[r]!r}, final text {x.get('text')!r}, one-shot {whole!r}")
            self.state[r] = fin
        elif whole is not None:
            # nothing that can no longer change may be held back
            stable = whole.rstrip("\ufffd")
            if len(self.text[r]) < len(stable):
                raise Violation("held-back", f"{rid}: {whole!r} decoded but only {self.text[r]!r} delivered")

    def check(self):
        if all(s != "run" for s in self.state):
            left = [k for k, v in vars(self.p).items() if isinstance(v, (dict, list, set)) and k != "_tokenizer_cfg" and len(v)]
            if left:
                raise Violation("state-left", f"all requests finished but {left} still hold {[getattr(self.p, k) for k in left]}")

    def fingerprint(self):
        # a request that goes on with the same tokens and the same delivered text behaves the same
        st = tuple(sorted((k, repr(v)) for k, v in vars(self.p).items() if isinstance(v, dict)))
        return (st, tuple(map(tuple, self.toks)), tuple(self.text), tuple(self.state))


def job(cfg, depth):
    return explore(DetokH, cfg, depth)


def main():
    c = Check("P10", rule="every token sequence over each alphabet up to the length bound x every grouping into increments "
              "(and every interleaving of two requests); a state is (tokens, text delivered, detokenizer state)",
              assumptions=["the scheduler sends the request's complete token list with every increment (checked by P03)",
                           "tokenizers whose decoding of a prefix never changes except at an incomplete trailing character "
                           "(byte-level and byte-fallback vocabularies)"])
    t = c.thorough
    jobs = []
    A = dict(zh=["a", "e4", "b8", "ad", "e4b8", "ada"], emoji=["a", "f0", "x9f", "x98", "x80", "af09f"],
             two=["c3", "a9", "a9c3", "e4", "sp"], mix=["a", "c3", "e4", "f0", "eos", "tag"],
             emoji2=["f0", "x9f", "x9880", "x80", "eos"])
    L = 6 if t else 5
    F = 9 if t else 8
    for n, al in A.items():
        for skip in (1, 0):
            jobs.append((f"one-{n}-skip{skip}", job, dict(cfg=dict(kind="bytelevel", reqs=1, alpha=al, len=L, chunk=2 if not t else 3, skip=[skip]), depth=L + 1)))
    B = dict(zh=["a", "e4", "b8", "ad", "zh"], emoji=["sp", "f0", "x9f", "x98", "x80"], two=["c3", "a9", "fffd", "eos", "a"])
    for n, al in B.items():
        jobs.append((f"fallback-{n}", job, dict(cfg=dict(kind="fallback", reqs=1, alpha=al, len=F, chunk=2, skip=[1]), depth=F + 1)))
    for n, al in dict(zh=["e4", "b8ad", "a"], two=["c3", "a9"], eos=["a", "eos"]).items():
        jobs.append((f"pair-{n}", job, dict(cfg=dict(kind="bytelevel", reqs=2, alpha=al, len=3 if t else (2 if len(al) > 2 else 3), chunk=2, skip=[1, 0], abort=True), depth=9)))
    c.run(jobs)
    c.finish()


if __name__ == "__main__":
    main()
