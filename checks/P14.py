"""P14: a batched request means the same as its items submitted one by one.

Every combination of field forms (absent / shared / one entry per item / wrong number of entries) is run through
the real GenerateReqInput normalisation, RequestResponseProcess.add_request (stand-in socket), pickling and
TokenizerProcess (stand-in tokenizer); what the tokenizer hands to the scheduler for item i must equal what it
hands over when item i is submitted alone, and inconsistent batches must be refused before anything is sent.
"""
import asyncio, copy, dataclasses, itertools, pickle
from types import SimpleNamespace
from vf.core import Check, Violation, guarded
import pymllm.engine.launch as L
from pymllm.engine.io_struct import GenerateReqInput, TokenizedGenerateReqInput
from pymllm.orchestrator.request_response_process import RequestResponseProcess
from pymllm.orchestrator.tokenizer_process import TokenizerProcess

FIELDS = {
    # name: (value for item i, shared value)
    "sampling_params": (lambda i: {"temperature": i / 10, "max_new_tokens": i + 1}, {"temperature": 0.5, "stop": ["x"]}),
    "return_logprob": (lambda i: bool(i % 2), True),
    "logprob_start_len": (lambda i: i + 3, 7),
    "top_logprobs_num": (lambda i: i + 1, 2),
    "image_data": (lambda i: f"img{i}", "img"),
    "audio_data": (lambda i: f"aud{i}", "aud"),
    "video_data": (lambda i: f"vid{i}", "vid"),
    "lora_path": (lambda i: f"lora{i}", "lora"),
    "session_params": (lambda i: {"id": i}, {"id": 9}),
    "rid": (lambda i: f"r{i}", None),
}


class Sock:
    def __init__(self):
        self.out = []

    async def send_pyobj(self, o, *a, **k):
        self.out.append(pickle.loads(pickle.dumps(o)))

    async def recv_pyobj(self):
        await asyncio.get_running_loop().create_future()


def tokenizer():
    t = object.__new__(TokenizerProcess)
    t._tokenizer_cfg = {}
    t._tokenizer = lambda text, **k: {"input_ids": [ord(c) for c in text]}
    t._mm_processor = None
    t._context_length = None
    t._transport_mode = "default"
    t._enable_shared_queue = False
    return t


_LOOP = asyncio.new_event_loop()


def through(kw):
    """What reaches the scheduler for one user request: list of (rid, TokenizedGenerateReqInput)."""
    kw = copy.deepcopy(kw)
    extra = kw.pop("extra", {})
    stream = kw.pop("stream", False)

    async def go():
        rr = RequestResponseProcess("a", "b")
        rr._send_to_tokenizer = rr._recv_from_detokenizer = s = Sock()
        rid = L.Engine._make_rids(kw.get("rid"), kw.get("text"), kw.get("input_ids"))
        req = GenerateReqInput(**{**kw, "rid": rid}, stream=stream, extra_options=extra)
        err = None
        try:
            req.normalize_batch_and_arguments()
            await rr.add_request(req)
        except (ValueError, IndexError) as e:
            err = e
        for _ in range(8):
            await asyncio.sleep(0)
        states = list(rr._rid_to_state)
        if rr._loop_task is not None:
            rr._loop_task.cancel()
            for t in asyncio.all_tasks():
                if t is not asyncio.current_task():
                    t.cancel()
            await asyncio.sleep(0)
        return err, s.out, states

    err, msgs, states = _LOOP.run_until_complete(go())
    tp = tokenizer()
    return err, msgs, [tp._tokenize(m) for m in msgs], states


def view(t):
    d = dataclasses.asdict(t)
    d.pop("rid")
    return d


def job(n, prompt, forms_list, seedname):
    st = dict(states=0, transitions=0, validated=0, exhaustive=True, samples=[])
    viols = {}

    def bad(sig, msg, kw):
        viols.setdefault(sig, dict(sig=sig, msg=msg, cfg=dict(n=n), hist=[["request", repr(kw)]]))

    alone = {}
    for forms in forms_list:
        kw = {}
        if prompt == "text":
            kw["text"] = "p0" if n is None else [f"p{i}" for i in range(n)]
        else:
            kw["input_ids"] = [5, 6] if n is None else [[i, i + 1, 7][: i % 3 + 1] for i in range(n)]
        wrong = False
        m = 1 if n is None else n
        for f, form in forms.items():
            item, shared = FIELDS[f]
            if form == "shared":
                kw[f] = "same" if f == "rid" else copy.deepcopy(shared)
                if f == "rid" and n is not None:
                    wrong = True     # one id for a whole batch cannot name every item
            elif form == "list":
                kw[f] = [item(i) for i in range(m)]
                if n is None and f in ("image_data", "audio_data", "video_data"):
                    kw[f] = ["i1", "i2"]   # several media of one prompt
            elif form == "long":
                kw[f] = [item(i) for i in range(m + 1)]
                wrong = True
            elif form == "short":
                kw[f] = [item(i) for i in range(m - 1)]
                wrong = True
            elif form == "dup":
                kw[f] = [item(0)] * m
                wrong = wrong or m > 1
        st["states"] += 1
        try:
            err, msgs, toks, states = guarded(lambda: through(kw))
        except Violation as v:
            bad(v.sig, v.msg, kw)
            continue
        st["transitions"] += 1 + len(msgs)
        if wrong:
            if err is None or isinstance(err, IndexError):
                bad("accepted", f"inconsistent request was {'accepted' if err is None else 'half processed (IndexError)'}: {kw}", kw)
            elif msgs or states:
                bad("half-sent", f"refused request left {len(msgs)} messages and state of {states}", kw)
            continue
        if err is not None:
            bad("refused", f"consistent request was refused with {err}: {kw}", kw)
            continue
        if len(toks) != m:
            bad("count", f"{len(toks)} items came out of {m}", kw)
            continue
        rids = [t.rid for t in toks]
        if len(set(map(str, rids))) != m or not all(isinstance(r, str) and r for r in rids):
            bad("rid", f"ids {rids}", kw)
        if "rid" in kw and rids != (kw["rid"] if isinstance(kw["rid"], list) else [kw["rid"]]):
            bad("rid", f"ids {rids}, given {kw['rid']}", kw)
        if sorted(states) != sorted(map(str, rids)):
            bad("state", f"waiting for {states}, sent {rids}", kw)
        for i in range(m):
            # the same item, submitted alone
            one = {}
            for f, v in kw.items():
                if f == "rid":
                    continue
                if f in ("text", "input_ids"):
                    one[f] = v if n is None else v[i]
                elif n is None and f in ("image_data", "audio_data", "video_data"):
                    one[f] = v
                else:
                    one[f] = v[i] if isinstance(v, list) else v
            key = repr(one)
            if key not in alone:
                e2, m2, t2, _ = guarded(lambda: through(one))
                if e2 is not None or len(t2) != 1:
                    bad("alone", f"item submitted alone: {e2}", one)
                    alone[key] = None
                else:
                    alone[key] = view(t2[0])
                    exp = dict(sampling_params=one.get("sampling_params") or {}, return_logprob=bool(one.get("return_logprob", False)),
                               logprob_start_len=one.get("logprob_start_len", -1), top_logprobs_num=one.get("top_logprobs_num", 0),
                               lora_path=one.get("lora_path"), session_params=one.get("session_params"),
                               input_ids=one["input_ids"] if "input_ids" in one else [ord(c) for c in one["text"]])
                    mm = {k: one[k] for k in ("image_data", "audio_data", "video_data") if k in one}
                    exp["mm_inputs"] = mm or None
                    got = alone[key]
                    for k, v in exp.items():
                        if got[k] != v:
                            bad("single-field", f"{k} of a single request came out as {got[k]!r}, given {v!r}", one)
            if alone[key] is not None and view(toks[i]) != alone[key]:
                a, b = view(toks[i]), alone[key]
                diff = {k: (a[k], b[k]) for k in a if a[k] != b[k]}
                bad("item", f"item {i} of {kw} differs from the same item alone: {diff}", kw)
    st["samples"] = [[repr(kw)]]
    st["validated"] = len(alone)
    return st, list(viols.values())


def main():
    c = Check("P14", rule="every combination of field forms for single requests and batches of 1..3; a state is one request, a transition one message to the tokenizer",
              assumptions=["text-only tokenizer stand-in; image processor absent, media forwarded verbatim"])
    t = c.thorough
    names = list(FIELDS)
    jobs = []
    for n in (None, 1, 2, 3):
        for prompt in ("text", "ids"):
            full = ["absent", "shared", "list", "long"] + (["short"] if n and n > 1 else [])
            lists = []
            # all forms of every triple of fields (quadruple when thorough), the others absent
            for sub in itertools.combinations(names, 4 if t else 3):
                for forms in itertools.product(full, repeat=len(sub)):
                    f = dict(zip(sub, forms))
                    if n is None and any(f.get(k) == "long" for k in ("image_data", "audio_data", "video_data")):
                        continue
                    lists.append(f)
            # all consistent forms of all fields together
            for forms in itertools.product(["shared", "list"], repeat=len(names)):
                f = dict(zip(names, forms))
                if n is not None and f["rid"] == "shared":
                    f["rid"] = "absent"
                lists.append(f)
            if n:
                lists += [{"rid": "dup"}, {"rid": "dup", "sampling_params": "list"}]
            k = 4
            for j in range(k):
                jobs.append((f"n{n}-{prompt}-{j}", job, dict(n=n, prompt=prompt, forms_list=lists[j::k], seedname=j)))
    c.run(jobs)
    c.finish()


if __name__ == "__main__":
    main()
