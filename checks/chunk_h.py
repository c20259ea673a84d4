"""Exhaustive exploration of chunkings.

A text is fed to a real streaming parser; for every prefix length i the set of reachable (parser state,
output so far) pairs is kept, and from each of them every next chunk text[i:j] is fed.  That covers all
2^(n-1) ways to cut the text, merged where parser state and output agree.  Texts form a tree over an
alphabet of fragments, and texts sharing a prefix share its states.
"""
import copy
from vf.core import Violation, guarded


def freeze(o):
    if isinstance(o, dict):
        return tuple((k, freeze(o[k])) for k in sorted(o))
    if isinstance(o, (list, tuple)):
        return tuple(freeze(x) for x in o)
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    d = getattr(o, "__dict__", None)
    return (type(o).__name__, freeze(d)) if d is not None else repr(o)


def clone(p):
    q = object.__new__(type(p))
    for k, v in p.__dict__.items():
        if not (v is None or isinstance(v, (str, int, float))):
            v = copy.copy(v) if isinstance(v, (list, dict, set)) and not v else copy.deepcopy(v)
        q.__dict__[k] = v
    return q


class Chunker:
    """new() -> parser; feed(parser, chunk, out) -> out'; out is an immutable value;
    final(text, states) is called for every text with the list of (parser, out, cuts) of all chunkings."""

    def __init__(self, new, feed, out0, final, frags, max_frags, accept=None, max_len=10**9, prefix=""):
        self.prefix = prefix
        self.new, self.feed, self.out0, self.final = new, feed, out0, final
        self.frags, self.max_frags, self.accept, self.max_len = frags, max_frags, accept, max_len
        self.st = dict(states=0, transitions=0, validated=0, exhaustive=True, samples=[], texts=0)
        self.viols = {}

    def report(self, v, text, cuts):
        if v.sig not in self.viols:
            pieces = [text[a:b] for a, b in zip((0,) + cuts, cuts)]
            self.viols[v.sig] = dict(sig=v.sig, msg=v.msg, cfg=dict(text=text), hist=[["chunks"] + pieces])

    def run(self):
        p = self.new()
        levels = [[(p, self.out0, ())]]
        if self.prefix:
            levels = self._extend("", levels, self.prefix)
        self._grow(self.prefix, levels, 0)
        return self.st, list(self.viols.values())

    def _grow(self, text, levels, depth):
        if text and (self.accept is None or self.accept(text)):
            self.st["texts"] += 1
            leaves = levels[len(text)]
            try:
                guarded(lambda: self.final(text, leaves))
            except Violation as v:
                self.report(v, text, getattr(v, "cuts", ()))
            if self.st["texts"] % 97 == 1:
                # replay one chunking on a fresh parser
                _, out, cuts = leaves[len(leaves) // 2]
                q, o, a = self.new(), self.out0, 0
                for b in cuts:
                    o = self.feed(q, text[a:b], o)
                    a = b
                if o == out:
                    self.st["validated"] += 1
                else:
                    self.st["replay_mismatches"] = self.st.get("replay_mismatches", 0) + 1
                if len(self.st["samples"]) < 2:
                    self.st["samples"].append([text] + list(cuts))
        if depth == self.max_frags or len(text) >= self.max_len or len(self.viols) >= 6:
            return
        for f in self.frags:
            t2 = text + f
            if len(t2) > self.max_len:
                continue
            self._grow(t2, self._extend(text, levels, f), depth + 1)

    def _extend(self, text, levels, f):
            t2 = text + f
            lv = list(levels)
            for j in range(len(text) + 1, len(t2) + 1):
                seen = {}
                for i in range(j):
                    for p, out, cuts in lv[i]:
                        q = clone(p)
                        self.st["transitions"] += 1
                        try:
                            o2 = guarded(lambda: self.feed(q, t2[i:j], out))
                        except Violation as v:
                            self.report(v, t2[:j], cuts + (j,))
                            continue
                        key = (freeze(q.__dict__), o2)
                        if key not in seen:
                            seen[key] = (q, o2, cuts + (j,))
                lv.append(list(seen.values()))
                self.st["states"] += len(seen)
            return lv
