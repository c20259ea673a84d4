"""P11: splitting reasoning from the answer does not depend on how the text was chunked."""
import asyncio, json, sys
from vf.core import Check, Violation
sys.path.insert(0, __file__.rsplit("/", 1)[0])
from chunk_h import Chunker, clone
from pymllm.parsers import reasoning_parser as rp
from pymllm.parsers import ReasoningParser

MARK = {"kimi": ("\u25c1think\u25b7", "\u25c1/think\u25b7")}
FORCED = {"deepseek-r1", "qwen3-thinking"}


def marks(model):
    return MARK.get(model, ("<think>", "</think>"))


def ref(model, text):
    s, e = marks(model)
    if model in FORCED:
        before, rest = "", text
        lead = text.lstrip()
        if lead.startswith(s):
            rest = lead[len(s):]
    else:
        i = text.find(s)
        if i < 0:
            return "", text.strip()
        before, rest = text[:i], text[i + len(s):]
    j = rest.find(e)
    if j < 0:
        return rest.strip(), before.strip()
    return rest[:j].strip(), (before + rest[j + len(e):]).strip()


def job(model, frags, n, stream):
    def feed(p, chunk, out):
        r, c = p.parse_stream_chunk(chunk)
        return (out[0] + r, out[1] + c)

    def final(text, leaves):
        want = ref(model, text)
        r, c = ReasoningParser(model, stream_reasoning=stream).parse_non_stream(text)
        if ((r or "").strip(), c.strip()) != want:
            raise Violation("one-shot", f"{model}: {text!r} parsed whole as {(r, c)!r}, expected {want!r}")
        for p, out, cuts in leaves:
            q = clone(p)
            r, c = q.flush() if hasattr(q, "flush") else ("", "")
            got = (out[0] + r, out[1] + c)
            if (got[0].strip(), got[1].strip()) != want:
                v = Violation("stream", f"{model}: {text!r} in chunks ending at {cuts} gave {got!r}, expected {want!r}")
                v.cuts = cuts
                raise v

    return Chunker(lambda: ReasoningParser(model, stream_reasoning=stream), feed, ("", ""), final, frags, n).run()


def server_job(model, texts, tools=None, tc=None):
    from server_h import both
    st = dict(states=0, transitions=0, validated=0, exhaustive=True, samples=[])
    viols = {}
    for text in texts:
        want = ref(model, text)
        whole = both(text, [text], reasoning=model)[1]
        n = len(text)
        cutsets = [()] + [(i,) for i in range(1, n)] + [(i, j) for i in range(1, n) for j in range(i + 1, n)] + [tuple(range(1, n))]
        for cuts in cutsets:
            bounds = (0,) + cuts + (n,)
            chunks = [text[a:b] for a, b in zip(bounds, bounds[1:])]
            for empty_end, sr in ((False, True), (True, True), (False, False)):
                s, w = both(text, chunks + ([""] if empty_end else []), reasoning=model, oneshot=False, stream_reasoning=sr)
                st["states"] += 1
                st["transitions"] += len(chunks)
                got = (s["reasoning"].strip(), s["content"].strip())
                if got != want and "server-stream" not in viols:
                    viols["server-stream"] = dict(sig="server-stream", msg=f"{model}: streamed response to {text!r} was {got!r}, expected {want!r}", cfg=dict(text=text), hist=[["chunks"] + chunks])
                if s["finish"] != ["stop"] and "server-finish" not in viols:
                    viols["server-finish"] = dict(sig="server-finish", msg=f"finish reasons {s['finish']}", cfg=dict(text=text), hist=[["chunks"] + chunks])
        got = (whole["reasoning"].strip(), whole["content"].strip())
        if got != want and "server-whole" not in viols:
            viols["server-whole"] = dict(sig="server-whole", msg=f"{model}: non-streamed response to {text!r} was {got!r}, expected {want!r}", cfg=dict(text=text), hist=[])
    st["samples"] = [[texts[-1]]]
    return st, list(viols.values())


def main():
    c = Check("P11", rule="all texts of up to N fragments over each alphabet x all ways to cut them (merged on equal parser state and output); "
              "server parts: all cuts into up to 3 pieces plus one piece per character",
              assumptions=["whitespace around the reasoning and around the answer is not significant (the one-shot parser strips it)"])
    t = c.thorough
    jobs = []
    for model in sorted(rp._DETECTOR_MAP if hasattr(rp, "_DETECTOR_MAP") else ReasoningParser.SUPPORTED):
        s, e = marks(model)
        for stream in (True, False):
            fr = [s, e, "a", " ", s[:3], e[:4], s[3:], "<"]
            jobs.append((f"{model}-{stream}", job, dict(model=model, frags=fr, n=(5 if t else 4), stream=stream)))
        # single characters of the markers: every text that nearly is a marker
        jobs.append((f"{model}-chars", job, dict(model=model, frags=[s, e, s[:-1], e[:2], e[2:], "x\n", s[0]], n=5 if t else 4, stream=True)))
    texts = ["<think>ab</think>cd", "ab</think>c<", "x<think>y</think>z", "<think>ab", "plain", "a<thi", "<think>a</thi", "</think>a"]
    for model in ("qwen3", "deepseek-r1"):
        for k in range(4):
            jobs.append((f"server-{model}-{k}", server_job, dict(model=model, texts=texts[k::4])))
    c.run(jobs)
    c.finish()


if __name__ == "__main__":
    main()
