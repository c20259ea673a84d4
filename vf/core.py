"""Shared machinery of the Python checks: explicit-state exploration of real objects.

A harness is a class with

    H(cfg)                 build the real system + reference model (both deterministic)
    h.actions()            list of enabled actions (JSON-able tuples), simplest first
    h.apply(a)             run one action on the real code and on the reference;
                           raises Violation on disagreement
    h.check()              invariant on the current state (raises Violation)
    h.fingerprint()        hashable canonical state (states with equal fingerprints are merged)

explore() enumerates *every* action sequence up to max_depth breadth-first (merging equal states).
Snapshots are deepcopies; a share of the reached states is rebuilt by replaying its history on a fresh
object and its fingerprint compared, which validates the snapshots.
"""
from __future__ import annotations
import collections, copy, hashlib, json, os, pathlib, sys, time, traceback, multiprocessing as mp
import gc, resource, signal
from multiprocessing.connection import wait as mp_wait

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))


class Violation(Exception):
    def __init__(self, sig, msg):
        super().__init__(msg)
        self.sig = sig
        self.msg = msg


class HangError(KeyboardInterrupt):  # passes through asyncio tasks and "except Exception"
    pass


def _alarm(_s, _f):
    raise HangError("operation did not terminate")


class time_limit:
    """Raise HangError in the main thread of this process if the block takes too long (in processor
    time, or four times as long by the clock when it only waits)."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, _alarm), signal.signal(signal.SIGPROF, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.seconds * 4)
        signal.setitimer(signal.ITIMER_PROF, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGALRM, self.old[0])
        signal.signal(signal.SIGPROF, self.old[1])


# ----------------------------------------------------------------------------
# canonical form of object graphs
# ----------------------------------------------------------------------------

class Tick(float):
    """A clock reading handed out by the harness clock; only the order of readings matters."""
    __slots__ = ()

    def __deepcopy__(self, memo):
        return self


class Clock:
    def __init__(self):
        self.n = 0.0

    def __call__(self):
        self.n += 1.0
        return Tick(self.n)


def canon(root, skip=(), atoms=(), rename_int=None, rename_keys=None):
    """Canonical, hashable rendering of an object graph.

    Identity is rendered by first-visit number, clock readings by rank, attributes in `skip` are left
    out.  `rename_int` maps attribute name -> True for counters rendered by first-visit number.
    """
    import torch
    seen = {}
    keep = []
    ticks = set()
    out = []
    rn = {}

    def walk(o):
        if o is None or o is True or o is False:
            out.append(o); return
        t = type(o)
        if t is int or t is str or t is bytes:
            out.append(o); return
        if t is Tick:
            ticks.add(float(o)); out.append(o); return
        if t is float:
            out.append(("f", o)); return
        if isinstance(o, torch.Tensor):
            out.append(("T", tuple(o.shape), tuple(o.reshape(-1).tolist()))); return
        if callable(o) and not hasattr(o, "__dict__"):
            out.append("fn"); return
        if atoms and isinstance(o, atoms):
            out.append("atom"); return
        i = id(o)
        if i in seen:
            out.append(("ref", seen[i])); return
        seen[i] = len(seen); keep.append(o)
        if t is tuple or t is list or isinstance(o, collections.deque):
            out.append(("[", len(o)))
            for x in o:
                walk(x)
            return
        if isinstance(o, dict):
            items = list(o.items())
            try:
                items.sort(key=lambda kv: kv[0])
            except TypeError:
                items.sort(key=lambda kv: repr(kv[0]))
            out.append(("{", len(items)))
            for k, v in items:
                out.append(k if isinstance(k, (int, str, tuple)) else repr(k))
                walk(v)
            return
        if isinstance(o, (set, frozenset)):
            out.append(("set", tuple(sorted(map(repr, o))))); return
        if t.__module__.startswith(("torch", "logging", "threading", "zmq")) or isinstance(o, type) or callable(o):
            out.append(("obj", t.__name__)); return
        out.append(("o", t.__name__))
        names = []
        d = getattr(o, "__dict__", None)
        if d is not None:
            names.extend(d.keys())
        for k in t.__mro__:
            s = k.__dict__.get("__slots__")
            if s:
                names.extend([s] if isinstance(s, str) else s)
        for n in sorted(set(names)):
            if n in skip or n.startswith("__"):
                continue
            try:
                v = getattr(o, n)
            except AttributeError:
                continue
            if rename_int and n in rename_int and isinstance(v, int):
                out.append((n, rn.setdefault((rename_int[n], v), len(rn)))); continue
            out.append(n)
            if rename_keys and n in rename_keys and isinstance(v, dict):
                out.append(("{", len(v)))
                for k in sorted(v):
                    out.append(rn.setdefault((rename_keys[n], k), len(rn)))
                    walk(v[k])
                continue
            walk(v)

    walk(root)
    if ticks:
        rank = {v: k for k, v in enumerate(sorted(ticks))}
        out = [("t", rank[float(x)]) if type(x) is Tick else x for x in out]
    return hashlib.blake2b(repr(out).encode(), digest_size=16).digest()


# ----------------------------------------------------------------------------
# explorer
# ----------------------------------------------------------------------------

def exc_sig(e):
    """Signature of an unexpected exception: type + innermost frame inside the repository."""
    fn = "?"
    for fr in traceback.extract_tb(e.__traceback__):
        if "/pymllm/" in fr.filename or "/mllm_kernel/" in fr.filename:
            fn = f"{os.path.basename(fr.filename)}:{fr.name}"
    return f"exception:{type(e).__name__}@{fn}"


def _in_repo(e):
    return any(str(REPO) in fr.filename for fr in traceback.extract_tb(e.__traceback__))


def guarded(f, limit=20.0):
    """Run f(); turn any unexpected exception of the code under test into a Violation."""
    try:
        with time_limit(limit):
            return f()
    except Violation:
        raise
    except HangError as e:
        raise Violation("hang", f"operation did not terminate within {limit}s") from e
    except Exception as e:  # noqa
        raise Violation(exc_sig(e), f"unexpected {type(e).__name__}: {e}\n" + traceback.format_exc(limit=-4)) from e


def replay(hcls, cfg, hist):
    """Re-execute a history on a fresh harness; returns the Violation it ends in, or None."""
    try:
        h = guarded(lambda: hcls(cfg))
        guarded(h.check)
        for a in hist:
            guarded(lambda: h.apply(a))
            guarded(h.check)
    except Violation as v:
        return v
    return None


def explore(hcls, cfg, max_depth, max_states=10**9, deadline=None, validate_every=37, max_viol=8):
    st = dict(states=0, transitions=0, validated=0, depth_done=0, exhaustive=True, outcomes=0, samples=[],
              actions_seen={})
    viols = {}
    outcomes = set()

    def report(v, hist):
        if v.sig not in viols and len(viols) < max_viol:
            v2 = replay(hcls, cfg, hist)
            if v2 is None or v2.sig != v.sig:
                # not reproducible: a defect of the machinery, never reported as a violation
                st.setdefault("unreproduced", []).append([v.sig, [list(x) for x in hist]])
                return
            viols[v.sig] = dict(sig=v.sig, msg=v.msg, cfg=cfg, hist=[list(x) for x in hist])
            _early(viols[v.sig])

    try:
        root = guarded(lambda: hcls(cfg))
        guarded(root.check)
    except Violation as v:
        report(v, [])
        return st, list(viols.values())
    frontier = [(root, ())]
    seen = {root.fingerprint()}
    st["states"] = 1
    n = 0
    for depth in range(max_depth):
        nxt = []
        for h, hist in frontier:
            acts = h.actions()
            for ai, a in enumerate(acts):
                if deadline is not None and time.time() > deadline or st["states"] >= max_states:
                    st["exhaustive"] = False
                    st["violation_list"] = None
                    st["outcomes"] = len(outcomes)
                    return st, list(viols.values())
                h2 = copy.deepcopy(h) if ai < len(acts) - 1 else h
                hist2 = hist + (a,)
                st["transitions"] += 1
                st["actions_seen"][a[0]] = st["actions_seen"].get(a[0], 0) + 1
                try:
                    guarded(lambda: h2.apply(a))
                    guarded(h2.check)
                except Violation as v:
                    report(v, hist2)
                    if v.sig == "hang":      # costs seconds and memory each time: one is enough
                        st["exhaustive"] = False
                        return st, list(viols.values())
                    continue
                o = getattr(h2, "outcome", None)
                if o is not None:
                    outcomes.add(o() if callable(o) else o)
                fp = h2.fingerprint()
                if fp in seen:
                    continue
                seen.add(fp)
                st["states"] += 1
                n += 1
                if n % validate_every == 0:
                    # snapshots are deepcopies: rebuild this state by executing its history on a fresh
                    # object; what is reported is always what the replay shows
                    try:
                        h3 = guarded(lambda: hcls(cfg))
                        for x in hist2:
                            guarded(lambda: h3.apply(x))
                            guarded(h3.check)
                    except Violation as v:
                        report(v, hist2)
                        continue
                    if h3.fingerprint() != fp:
                        st["replay_mismatches"] = st.get("replay_mismatches", 0) + 1
                        st["exhaustive"] = False
                        continue
                    st["validated"] += 1
                    if len(st["samples"]) < 3:
                        st["samples"].append([list(x) for x in hist2])
                if depth + 1 < max_depth:
                    nxt.append((h2, hist2))
        st["depth_done"] = depth + 1
        frontier = nxt
        if not frontier:
            break
    st["outcomes"] = len(outcomes)
    return st, list(viols.values())


def explore_replay(hcls, cfg, max_depth, max_viol=8):
    """As explore(), for harnesses that cannot be copied: every state is reached by executing its history
    on a fresh object (so every trace is a trace of the implementation)."""
    st = dict(states=1, transitions=0, validated=0, depth_done=0, exhaustive=True, samples=[], actions_seen={})
    viols = {}

    def fresh(hist):
        h = guarded(lambda: hcls(cfg))
        guarded(h.check)
        for a in hist:
            guarded(lambda: h.apply(a))
            guarded(h.check)
        return h

    def done(h):
        f = getattr(h, "close", None)
        if f:
            f()

    try:
        root = fresh(())
    except Violation as v:
        return st, [dict(sig=v.sig, msg=v.msg, cfg=cfg, hist=[])]
    seen = {root.fingerprint()}
    frontier = [((), root.actions())]
    done(root)
    for depth in range(max_depth):
        nxt = []
        for hist, acts in frontier:
            for a in acts:
                hist2 = hist + (a,)
                st["transitions"] += 1
                st["validated"] += 1
                st["actions_seen"][a[0]] = st["actions_seen"].get(a[0], 0) + 1
                h = None
                try:
                    h = fresh(hist2)
                    fp = h.fingerprint()
                    if fp in seen:
                        continue
                    seen.add(fp)
                    st["states"] += 1
                    if len(st["samples"]) < 3 and depth >= 2:
                        st["samples"].append([list(x) for x in hist2])
                    if depth + 1 < max_depth:
                        nxt.append((hist2, h.actions()))
                except Violation as v:
                    if v.sig not in viols and len(viols) < max_viol:
                        viols[v.sig] = dict(sig=v.sig, msg=v.msg, cfg=cfg, hist=[list(x) for x in hist2])
                        _early(viols[v.sig])
                    if v.sig == "hang":
                        st["exhaustive"] = False
                        return st, list(viols.values())
                finally:
                    if h is not None:
                        done(h)
        st["depth_done"] = depth + 1
        frontier = nxt
        if not frontier:
            break
    return st, list(viols.values())


# ----------------------------------------------------------------------------
# check runner
# ----------------------------------------------------------------------------

def load_known(prop):
    known, fixed = {}, []
    f = VERIF / "known-findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            line = line.strip()
            if line.startswith("finding:"):
                rest = line[len("finding:"):].strip()
                kv, _, what = rest.partition("::")
                d = dict(x.split("=", 1) for x in kv.split())
                if d.get("property") == prop:
                    known[d["sig"]] = what.strip()
    return known


def _silence():
    import logging
    logging.disable(logging.CRITICAL)
    try:
        import torch
        torch.set_num_threads(1)
    except Exception:
        pass


def _job_entry(arg):
    fn, kw = arg
    _silence()
    gc.disable()
    try:
        t0 = time.clock_gettime(time.CLOCK_MONOTONIC)
        r = fn(**kw)
        r[0]["cpu_s"] = round(time.clock_gettime(time.CLOCK_MONOTONIC) - t0, 1)
        return ("ok", r)
    except Violation as v:
        return ("ok", (dict(states=1, transitions=1, validated=0, exhaustive=False, samples=[]),
                       [dict(sig=v.sig, msg=v.msg, cfg=repr(kw), hist=[])]))
    except BaseException as e:  # noqa
        return ("err", f"{type(e).__name__}: {e}\n{traceback.format_exc()}")


_WIRE = None


def _early(v):
    """Tell the parent of a violation at once: the job may not live to return it."""
    if _WIRE is not None:
        _WIRE.send(("viol", json.loads(json.dumps(v, default=str))))


def _job_proc(w, fn, kw):
    global _WIRE
    _WIRE = w
    used = int(open("/proc/self/statm").read().split()[0]) * resource.getpagesize()
    resource.setrlimit(resource.RLIMIT_AS, (used + (6 << 30), resource.getrlimit(resource.RLIMIT_AS)[1]))
    w.send(_job_entry((fn, kw)))
    w.close()
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(0)


class Check:
    def __init__(self, prop, rule="", assumptions=()):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in sys.argv:
            self.tier = sys.argv[sys.argv.index("--tier") + 1]
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.rule = rule
        self.assumptions = list(assumptions)
        self.agg = dict(states=0, transitions=0, traces_validated_against_impl=0, exhaustive=True)
        self.samples = []
        self.parts = []
        self.viols = []
        self.errors = []
        self.extra = {}

    # ---- running explorer jobs in parallel
    def run(self, jobs, nproc=None):
        """jobs: list of (name, fn, kwargs); fn returns (stats, violations)."""
        nproc = nproc or min(8, os.cpu_count() or 1)
        # ids of the jobs are stable; large jobs should be listed first
        ctx = mp.get_context("fork")
        todo = list(enumerate(jobs))[::-1]
        live, done, early, t_first = {}, {}, {}, None
        known = load_known(self.prop)
        sys.stdout.flush(); sys.stderr.flush()
        while todo or live:
            while todo and len(live) < nproc:
                i, (name, fn, kw) = todo.pop()
                r, w = ctx.Pipe(False)
                p = ctx.Process(target=_job_proc, args=(w, fn, kw))
                p.start()
                w.close()
                live[r] = (i, name, p)
            if t_first is not None and time.time() - t_first > 60:
                # a violation is known: the rest of the exploration has a minute to end
                todo.clear()
                for i, name, p in live.values():
                    p.kill()
            for r in mp_wait(list(live), 5):
                i, name, p = live.pop(r)
                try:
                    val = r.recv()
                    if val[0] == "viol":
                        live[r] = (i, name, p)
                        early.setdefault(i, []).append(val[1])
                        if val[1]["sig"] not in known:
                            t_first = t_first or time.time()
                        continue
                    done[i] = (name, val)
                except EOFError:
                    p.join()
                    if early.get(i):
                        done[i] = (name, ("ok", (dict(exhaustive=False), early[i])))
                    else:
                        done[i] = (name, ("err", f"worker ended without a result (exit code {p.exitcode})"))
                r.close()
                p.join()
        for i in sorted(done):
            name, (kind, val) = done[i]
            if kind == "err":
                self.errors.append((name, val))
                continue
            self.add(name, *val)

    def add(self, name, st, vs):
        self.agg["states"] += st.get("states", 0)
        self.agg["transitions"] += st.get("transitions", 0)
        self.agg["traces_validated_against_impl"] += st.get("validated", 0)
        if not st.get("exhaustive", True):
            self.agg["exhaustive"] = False
        part = {k: v for k, v in st.items() if k not in ("samples", "violation_list")}
        part["name"] = name
        self.parts.append(part)
        for s in st.get("samples", [])[:1]:
            if len(self.samples) < 6:
                self.samples.append({"part": name, "history": s})
        if st.get("unreproduced"):
            self.errors.append((name, "violation not reproduced on replay: %r" % st["unreproduced"][:2]))
        for v in vs:
            v = dict(v)
            v["part"] = name
            self.viols.append(v)

    def violation(self, part, sig, msg, cfg=None, hist=()):
        self.viols.append(dict(sig=sig, msg=msg, cfg=cfg, hist=list(hist), part=part))

    def finish(self):
        known = load_known(self.prop)
        new, hit = [], {}
        for v in self.viols:
            if v["sig"] in known:
                hit[v["sig"]] = v
            else:
                new.append(v)
        for sig, what in known.items():
            print(f"KNOWN-FINDING: property={self.prop} {what} [{'reproduced' if sig in hit else 'not reached in this run'}]")
        wall = time.time() - self.t0
        cov = dict(self.agg)
        cov["samples"] = self.samples or [{"note": "no state beyond the initial one was reached"}]
        cov["rule"] = self.rule
        cov["parts"] = self.parts
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1),
                  level="model_checking", coverage=cov, assumptions=self.assumptions, wall_s=round(wall, 2),
                  violations=len(new))
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{self.prop}.json").write_text(json.dumps(ev, indent=1, default=str))
        print(f"{self.prop} [{self.tier}] states={cov['states']} transitions={cov['transitions']} "
              f"validated={cov['traces_validated_against_impl']} exhaustive={cov['exhaustive']} wall={wall:.1f}s")
        for p in self.parts[:10]:
            print("   ", json.dumps({k: v for k, v in p.items() if k != "unreproduced"}, default=str)[:300])
        rc = 0
        if new:
            d = VERIF / "evidence" / "replays"
            d.mkdir(exist_ok=True)
            seen = set()
            for i, v in enumerate(new):
                if v["sig"] in seen:
                    continue
                seen.add(v["sig"])
                path = d / f"{self.prop}_{len(seen)}.json"
                path.write_text(json.dumps(dict(property=self.prop, **v), indent=1, default=str))
                print(f"--- {v['sig']} in {v['part']}: {v['msg'][:1500]}\n    cfg={v.get('cfg')} history={v.get('hist')}")
                print(f"VIOLATION property={self.prop} replay={path}")
            rc = 1
        for name, e in self.errors:
            print(f"ERROR in {name}: {e}", file=sys.stderr)
        if self.errors and rc == 0:
            rc = 2
        sys.stdout.flush()
        sys.exit(rc)
