"""P12: extracting tool calls does not depend on how the text was chunked."""
import json, re, sys
from vf.core import Check, Violation
sys.path.insert(0, __file__.rsplit("/", 1)[0])
from chunk_h import Chunker, clone
from pymllm.parsers import ToolCallParser

TAGS = {"qwen25": ("<tool_call>\n", "\n</tool_call>"), "hermes": ("<tool_call>\n", "\n</tool_call>"),
        "qwen3_coder": ("<tool_call>", "</tool_call>"), "llama3": ("<|python_tag|>", "")}


def body_call(model, body):
    """(name, arguments as a JSON value) of a well-formed call body, else None."""
    body = body.strip()
    if model == "qwen3_coder":
        m = re.search(r"<function=([^>]+)>", body)
        if not m:
            return None
        params, pos = {}, 0
        while True:
            i = body.find("<parameter=", pos)
            if i < 0:
                break
            j = body.find(">", i)
            if j < 0 or j == i + 11:
                break
            ends = [x for x in (body.find(t, j + 1) for t in ("</parameter>", "<parameter=", "</function>")) if x >= 0]
            if not ends:
                break
            k = min(ends)
            val = body[j + 1:k].strip()
            try:
                params[body[i + 11:j]] = json.loads(val)
            except ValueError:
                params[body[i + 11:j]] = val
            pos = k
        return m.group(1), params
    try:
        o = json.loads(body)
    except ValueError:
        return None
    if not isinstance(o, dict) or not isinstance(o.get("name"), str):
        return None
    return o["name"], o.get("arguments") or o.get("parameters") or {}


def ref(model, text):
    """(plain text, [call or None for a malformed one])"""
    s, e = TAGS[model]
    plain, calls, rest = "", [], text
    while True:
        i = rest.find(s)
        if i < 0:
            return (plain + rest).strip(), calls
        plain += rest[:i]
        rest = rest[i + len(s):]
        j = rest.find(e) if e else -1
        body, rest = (rest, "") if j < 0 else (rest[:j], rest[j + len(e):])
        calls.append(body_call(model, body))


def args_value(a):
    try:
        return json.loads(a)
    except ValueError:
        return a


def add(groups, items):
    """Adds items to the tuple of (index, names, arguments, ids) seen so far, one entry per call index."""
    g = list(groups)
    for it in items:
        if not isinstance(it.arguments, str):
            raise Violation("argument-type", f"arguments of a call came out as {it.arguments!r}, not text")
    for it in items:
        for k, (idx, names, args, ids) in enumerate(g):
            if idx == it.index:
                g[k] = (idx, names + ((it.name,) if it.name is not None else ()), args + it.arguments, ids + bool(it.tool_call_id))
                break
        else:
            g.append((it.index, (it.name,) if it.name is not None else (), it.arguments, int(bool(it.tool_call_id))))
    return tuple(g)


def compare(calls, g):
    """None if the streamed groups g show exactly the well-formed calls, in order."""
    well = [c for c in calls if c is not None]
    keys = list(g)
    if keys != sorted(keys):
        return f"indices out of order: {keys}"
    if len(well) == len(calls) and keys != list(range(len(well))):
        return f"indices {keys} for {len(well)} calls"
    pos = 0
    for k in keys:
        names, args, ids = g[k]
        if pos < len(well) and list(names) == [well[pos][0]] and ids == 1 and args_value(args) == well[pos][1]:
            pos += 1
        elif len(well) == len(calls):
            return f"call {k}: names {names}, arguments {args!r}, ids {ids}"
    if pos < len(well):
        return f"call {well[pos]} did not come out: {g}"
    return None


def job(model, frags, n, max_len=10**9, only=None, prefix=""):
    def feed(p, chunk, out):
        c, items = p.parse_stream_chunk(chunk)
        return (out[0] + c, add(out[1], items))

    def final(text, leaves):
        plain, calls = ref(model, text)
        c, items = ToolCallParser(model).parse_non_stream(text)
        add((), items)
        well = [x for x in calls if x is not None]
        if c.strip() != plain:
            raise Violation("one-shot-text", f"{model}: plain text of {text!r} is {c!r}, expected {plain!r}")
        got = [(i.name, args_value(i.arguments)) for i in items if isinstance(i.name, str)]
        if got != well:
            raise Violation("one-shot-calls", f"{model}: {text!r} parsed whole gave {got}, expected {well}")
        if not well == calls and len(items) > len(calls):
            raise Violation("one-shot-calls", f"{model}: {text!r} gave {len(items)} calls")
        for p, out, cuts in leaves:
            q = clone(p)
            items = q.flush()
            tail = q.flush_content() if hasattr(q, "flush_content") else ""
            allitems = add(out[1], items)
            if (out[0] + tail).strip() != plain:
                v = Violation("stream-text", f"{model}: {text!r} in chunks ending at {cuts}: plain text {out[0] + tail!r}, expected {plain!r}")
                v.cuts = cuts
                raise v
            why = compare(calls, {k: v for k, *v in allitems})
            if why:
                v = Violation("stream-calls", f"{model}: {text!r} in chunks ending at {cuts}: {why}; expected {calls}")
                v.cuts = cuts
                raise v

    return Chunker(lambda: ToolCallParser(model), feed, ("", ()), final, frags, n, accept=only, max_len=max_len, prefix=prefix).run()


def server_job(model, texts):
    from server_h import both
    st = dict(states=0, transitions=0, validated=0, exhaustive=True, samples=[[texts[-1]]])
    viols = {}

    def bad(sig, msg, text, chunks):
        viols.setdefault(sig, dict(sig=sig, msg=msg, cfg=dict(text=text), hist=[["chunks"] + chunks]))

    for text in texts:
        plain, calls = ref(model, text)
        well = [x for x in calls if x is not None]
        n = len(text)
        cutsets = [()] + [(i,) for i in range(1, n)] + [tuple(range(1, n))] + [(i, j) for i in range(1, n, 2) for j in range(i + 1, n, 3)]
        for cuts in cutsets:
            b = (0,) + cuts + (n,)
            chunks = [text[x:y] for x, y in zip(b, b[1:])]
            try:
                s, w = both(text, chunks, tool=model, oneshot=not cuts)
            except Exception as ex:  # noqa  (the handler's own error response)
                bad("server-error", f"{text!r}: request failed with {type(ex).__name__}: {ex}", text, chunks)
                continue
            st["states"] += 1
            st["transitions"] += len(chunks)
            if s["content"].strip() != plain:
                bad("server-text", f"{text!r}: content {s['content']!r}, expected {plain!r}", text, chunks)
            why = compare(calls, {k: [v["names"], v["args"], len(v["ids"])] for k, v in s["calls"].items()})
            if why:
                bad("server-calls", f"{text!r}: {why}", text, chunks)
            if well == calls and s["finish"] != (["tool_calls"] if well else ["stop"]):
                bad("server-finish", f"{text!r}: finish {s['finish']}", text, chunks)
            if s["done"] != 1 or s["role"] != 1 or s["error"]:
                bad("server-frame", f"{text!r}: {s['done']} [DONE], {s['role']} role chunks, error {s['error']}", text, chunks)
            if w is not None:
                got = [(c["function"].get("name"), args_value(c["function"]["arguments"])) for c in w["calls"]]
                if w["content"].strip() != plain or [g for g in got if isinstance(g[0], str)] != well:
                    bad("server-whole", f"{text!r}: non-streamed {w}, expected {plain!r} {well}", text, [text])
    return st, list(viols.values())


J = ['{"name": "f", "arguments": {"a": 1}}', '{"name":"g","arguments":{"k":"v}{","n":{"name":"z"}}}', '{"arguments": {"x": [1,2]}, "name": "f"}',
     '{"name": "f"}', '{"name":"f","arguments":{}}', '{"name": "f", "parameters": {"p": null}}', '[1]', '{"name": "f", "argum', '3', '"s"', '{}',
     '{"name": "f", "arguments": "raw"}', '{"name": "\\u00e9\\"q", "arguments": {"a\\"b": "\\\\"}}', '{"name": "f", "arguments": {"a": 1}} junk',
     '{"name": "f", "arguments": [1, 2]}', '{ "meta": {"name": "no", "arguments": {"q": 0}}, "name" : "f" , "arguments" : { "a" : 1 , "b" : "é" } }',
     '{"name": "f", "arguments": null}', '{"name": null, "arguments": {"a": 1}}', '{"name": "f", "arguments": {"a": 1}']
X = ['<function=f>\n<parameter=a>\n1\n</parameter>\n</function>', '<function=g><parameter=a>x<parameter=b>{"y": [1]}</parameter></function>',
     '<function=f></function>', 'no function', '<function=f><parameter=a>1</parameter><parameter=b>two words</parameter></function>',
     '<function=f><parameter=a>{"x": </parameter><parameter=c></parameter>', '<function=', '<function=f><parameter=a>1',
     '<function=f><parameter=a>"q\\"</parameter></function>']


def main():
    c = Check("P12", rule="texts of up to N fragments (plain text, tag pieces, well-formed and malformed call bodies) x all ways to cut them, "
              "merged on equal parser state and output; server parts: all cuts into 2, many into 3 pieces and one piece per character",
              assumptions=["whitespace around the plain text is not significant (the one-shot parser strips it)",
                           "a JSON body names each key once and does not carry both non-empty `arguments` and `parameters`",
                           "what is streamed of a call that turns out malformed is not fixed; everything around it is"])
    t = c.thorough
    jobs = []
    for model in ("qwen25", "hermes"):
        s, e = TAGS[model]
        # what takes longest goes first
        jobs.append((f"{model}-pieces", job, dict(model=model, frags=['{"name":"f"', ',"arguments":', '{"a":1', '}', '{"b":"}"}', e, ' '], n=5 if t else 4, prefix=s, max_len=70)))
        for i, b in enumerate(J):
            if model == "hermes" and i > 2:
                break
            jobs.append((f"{model}-body{i}", job, dict(model=model, frags=["t", s + b + e, s + b], n=3 if t or len(b) < 60 else 2)))
        jobs.append((f"{model}-tags", job, dict(model=model, frags=[s, e, "{}", "a", s[:4], s[4:], e[:5], e[5:], "\n", "<"], n=4 if t else 3, max_len=60)))
        two = [s + J[0] + e, s + J[6] + e, s + J[3] + e, " x ", s[:6]]
        jobs.append((f"{model}-seq", job, dict(model=model, frags=two, n=3 if t else 2)))
    s, e = TAGS["llama3"]
    for i, b in enumerate(J):
        jobs.append((f"llama3-body{i}", job, dict(model="llama3", frags=["t ", s + b, s[:5]], n=3 if t else 2)))
    s, e = TAGS["qwen3_coder"]
    for i, b in enumerate(X):
        jobs.append((f"coder-body{i}", job, dict(model="qwen3_coder", frags=["t", s + b + e, s + b], n=3 if t else 2)))
    jobs.append(("coder-pieces", job, dict(model="qwen3_coder", frags=["<function=f>", "<parameter=a>", "1", "</parameter>", "<parameter=b>", "</function>", e], n=5 if t else 4, max_len=80,
                 prefix=s + "<function=g>", only=lambda_ok)))
    txt = ["hi " + TAGS["qwen25"][0] + J[0] + TAGS["qwen25"][1] + " bye <to", TAGS["qwen25"][0] + J[1] + TAGS["qwen25"][1] + "\n" + TAGS["qwen25"][0] + J[2] + TAGS["qwen25"][1],
           "a " + TAGS["qwen25"][0] + "[1]" + TAGS["qwen25"][1] + " b", "x" + TAGS["qwen25"][0] + J[0], "plain <tool", TAGS["qwen25"][0] + J[0] + "\n</tool"]
    for k, x in enumerate(txt):
        jobs.append((f"server-qwen25-{k}", server_job, dict(model="qwen25", texts=[x])))
    jobs.append(("server-coder", server_job, dict(model="qwen3_coder", texts=["a<tool_call>" + X[0] + "</tool_call>b<"])))
    jobs.append(("server-llama3", server_job, dict(model="llama3", texts=["a" + TAGS["llama3"][0] + J[0]])))
    c.run(jobs)
    c.finish()


def lambda_ok(text):
    # parameters named once per call
    for call in text.split("<tool_call>"):
        for k in ("<parameter=a>", "<parameter=b>", "<function=f>"):
            if call.count(k) > 1:
                return False
    return True


if __name__ == "__main__":
    main()
