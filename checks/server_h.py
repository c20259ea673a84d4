"""Runs the real /v1/chat/completions handler with a stand-in engine that emits given deltas."""
import asyncio, json, warnings
from types import SimpleNamespace


class Eng:
    def __init__(self, chunks, finish):
        self.chunks, self.finish = chunks, finish

    async def generate_async(self, stream=False, **kw):
        acc = ""
        n = len(self.chunks)
        if not stream:
            yield dict(rid="x", text="".join(self.chunks), delta="".join(self.chunks), finished=True, finished_reason=self.finish,
                       prompt_tokens=1, completion_tokens=n)
            return
        for i, ch in enumerate(self.chunks):
            acc += ch
            last = i == n - 1
            yield dict(rid="x", text=acc, delta=ch, finished=last, finished_reason=self.finish if last else None,
                       prompt_tokens=1, completion_tokens=i + 1)


class Req:
    async def is_disconnected(self):
        return False


_S = None
_LOOP = None


def setup():
    global _S, _LOOP
    if _S is None:
        warnings.simplefilter("ignore")
        from pymllm.server import launch as S
        _S = S
        S._messages_to_prompt = lambda *a, **k: "prompt"
        _LOOP = asyncio.new_event_loop()
    return _S


TOOLS = [{"type": "function", "function": {"name": "f", "parameters": {}}}, {"type": "function", "function": {"name": "g", "parameters": {}}}]


def both(text, chunks, reasoning=None, tool=None, oneshot=True, finish="stop", stream_reasoning=True):
    S = setup()
    cfg = SimpleNamespace(server=SimpleNamespace(reasoning_parser=reasoning, tool_call_parser=tool, served_model_name="m", model_path="m",
                                                 enable_debug_timing=False, max_queued_requests=None))
    S.get_global_config = lambda: cfg
    S._maybe_add_debug_timing = lambda *a, **k: None
    base = dict(model="m", messages=[{"role": "user", "content": "hi"}])
    if tool:
        base["tools"] = TOOLS
    base["stream_reasoning"] = stream_reasoning

    async def run_stream():
        S._engine = Eng(chunks, finish)
        resp = await S.openai_chat_completions(S.ChatCompletionRequest(**base, stream=True), Req())
        out = b""
        async for x in resp.body_iterator:
            out += x if isinstance(x, bytes) else x.encode()
        return out

    async def run_whole():
        S._engine = Eng([text], finish)
        resp = await S.openai_chat_completions(S.ChatCompletionRequest(**base, stream=False), Req())
        return json.loads(resp.body)

    raw = _LOOP.run_until_complete(run_stream())
    s = dict(reasoning="", content="", calls={}, finish=[], error=None, done=0, role=0)
    for ev in raw.decode().split("\n\n"):
        if not ev:
            continue
        assert ev.startswith("data: ")
        ev = ev[6:]
        if ev == "[DONE]":
            s["done"] += 1
            continue
        o = json.loads(ev)
        if "error" in o:
            s["error"] = o["error"]
            continue
        ch = o["choices"][0]
        d = ch["delta"]
        s["reasoning"] += d.get("reasoning_content") or ""
        s["content"] += d.get("content") or ""
        s["role"] += "role" in d
        for tc in d.get("tool_calls") or []:
            e = s["calls"].setdefault(tc["index"], dict(names=[], ids=[], args=""))
            if "name" in tc["function"]:
                e["names"].append(tc["function"]["name"])
            if "id" in tc:
                e["ids"].append(tc["id"])
            e["args"] += tc["function"].get("arguments") or ""
        if ch.get("finish_reason"):
            s["finish"].append(ch["finish_reason"])
    w = None
    if oneshot:
        m = _LOOP.run_until_complete(run_whole())["choices"][0]
        msg = m["message"]
        w = dict(reasoning=msg.get("reasoning_content") or "", content=msg.get("content") or "", calls=msg.get("tool_calls") or [], finish=m["finish_reason"])
    return s, w
