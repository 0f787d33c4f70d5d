"""Exhaustive explorers over systems that run the real code in lock-step with a reference model."""
import hashlib
import json
import multiprocessing as mp
import os
import time
import traceback

from . import env
from .canon import canon


class Violation(Exception):
    """The implementation left the behaviour the property allows."""

    def __init__(self, msg, where=None):
        super().__init__(msg)
        self.msg = msg
        self.where = where


class Sys:
    """Base: one implementation instance plus its reference model.
    Subclasses implement __init__(cfg), events(), step(ev); step raises Violation."""

    def events(self):
        raise NotImplementedError

    def step(self, ev):
        raise NotImplementedError

    def roots(self):
        return self.__dict__

    def outcome(self):
        """Short description of what was observed last (diversity measure)."""
        return None


class Result:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.executions = 0
        self.steps = 0
        self.maxdepth = 0
        self.outcomes = set()
        self.samples = []
        self.violations = []     # dicts
        self.exhausted = True    # frontier ran empty / all sequences up to the bound done
        self.fixpoint = True     # frontier ran empty before the depth bound
        self.notes = []

    def merge(self, o):
        self.states += o.states
        self.transitions += o.transitions
        self.executions += o.executions
        self.steps += o.steps
        self.maxdepth = max(self.maxdepth, o.maxdepth)
        if len(self.outcomes) < 100000:
            self.outcomes |= o.outcomes
        if len(self.samples) < 12:
            self.samples += o.samples[:2]
        self.violations += o.violations
        self.exhausted = self.exhausted and o.exhausted
        self.fixpoint = self.fixpoint and o.fixpoint
        self.notes += o.notes


def _h(x):
    return hashlib.blake2b(repr(x).encode("utf-8", "replace"), digest_size=8).digest()


def run_trace(cls, cfg, events):
    """Fresh execution of one event sequence. Returns (violation or None, system, log)."""
    env.fresh()
    log = []
    i = -1
    try:
        s = cls(cfg)
        for i, ev in enumerate(events):
            s.step(ev)
            log.append([ev, _j(s.outcome())])
    except Violation as v:
        log.append([events[i] if i >= 0 else "construction", "VIOLATION: " + v.msg])
        return v.msg, None, log
    except Exception as e:      # the code under test (or the harness) raised
        tb = traceback.format_exc(limit=-6)
        msg = "unexpected %s: %s" % (type(e).__name__, e)
        log.append([events[i] if i >= 0 else "construction", msg, tb])
        return msg, None, log
    return None, s, log


def _j(x):
    try:
        json.dumps(x)
        return x
    except Exception:
        return repr(x)


def _viol(name, cls, cfg, trace, msg, log):
    return {"family": name, "system": cls.__module__ + ":" + cls.__name__, "cfg": cfg,
            "trace": list(trace), "message": msg, "log": log}


def bfs(name, cls, cfg, depth, max_states=200_000, time_limit=None, max_viol=1):
    """Breadth first over all event sequences, merging states whose canonical object graph
    (implementation + model + module state) is identical. Every transition runs the real code."""
    r = Result()
    t_end = time.monotonic_ns() + int(time_limit * 1e9) if time_limit else None
    seen = set()

    def key(s):
        return canon((s.roots(), env.global_delta()))

    msg, s, log = run_trace(cls, cfg, [])
    r.executions += 1
    if msg:
        r.violations.append(_viol(name, cls, cfg, [], msg, log))
        return r
    seen.add(key(s))
    frontier = [((), tuple(s.events()))]
    d = 0
    while frontier and d < depth:
        d += 1
        nxt = []
        for prefix, evs in frontier:
            for ev in evs:
                trace = prefix + (ev,)
                msg, s, log = run_trace(cls, cfg, trace)
                r.executions += 1
                r.transitions += 1
                r.steps += len(trace)
                if msg:
                    r.violations.append(_viol(name, cls, cfg, trace, msg, log))
                    if len(r.violations) >= max_viol:
                        r.exhausted = False
                        r.states = len(seen)
                        r.maxdepth = d
                        return r
                    continue
                if s.outcome() is not None:
                    r.outcomes.add(_h(s.outcome()))
                k = key(s)
                if k in seen:
                    continue
                seen.add(k)
                nxt.append((trace, tuple(s.events())))
                if len(seen) % 997 == 3 or len(r.samples) < 1 and d >= 3:
                    if len(r.samples) < 4:
                        r.samples.append({"family": name, "trace": log})
            if len(seen) > max_states or (t_end and time.monotonic_ns() > t_end):
                r.exhausted = False
                r.fixpoint = False
                r.notes.append("%s: stopped at %d states, depth %d" % (name, len(seen), d))
                r.states = len(seen)
                r.maxdepth = d
                return r
        frontier = nxt
    r.maxdepth = d
    r.fixpoint = not frontier
    r.states = len(seen)
    if not r.samples and r.executions:
        r.samples.append({"family": name, "trace": log})
    return r


def enumerate_cases(name, cls, cfg, cases, max_viol=1):
    """Runs cls(cfg) on every case (a complete event sequence) of an explicit finite enumeration."""
    r = Result()
    for trace in cases:
        msg, s, log = run_trace(cls, cfg, trace)
        r.executions += 1
        r.states += 1
        r.transitions += len(trace)
        r.steps += len(trace)
        r.maxdepth = max(r.maxdepth, len(trace))
        if msg:
            r.violations.append(_viol(name, cls, cfg, trace, msg, log))
            if len(r.violations) >= max_viol:
                r.exhausted = False
                return r
            continue
        if s.outcome() is not None:
            r.outcomes.add(_h(s.outcome()))
        w = getattr(s, "work", 0)        # (state, input) pairs evaluated inside the steps
        r.states += w
        r.transitions += w
        r.steps += w
        if len(r.samples) < 2 and r.executions % 7 == 1:
            r.samples.append({"family": name, "trace": log})
    return r


def legal(cls, cfg, trace):
    """Are the events of the trace all offered by the system?"""
    try:
        env.fresh()
        s = cls(cfg)
        for i, ev in enumerate(trace):
            if ev not in list(s.events()):
                return False
            if i < len(trace) - 1:
                s.step(ev)
    except Exception:
        return False
    return True


def shrink(cls, cfg, trace, msg):
    """Greedy removal of events while some violation remains."""
    trace = list(trace)
    only_legal = legal(cls, cfg, trace)
    changed = True
    budget = 300
    while changed and budget > 0:
        changed = False
        for i in range(len(trace)):
            t = trace[:i] + trace[i + 1:]
            budget -= 1
            try:
                m, s, log = run_trace(cls, cfg, t)
            except Exception:
                continue
            if m and (not only_legal or legal(cls, cfg, t)):
                trace, msg, changed = t, m, True
                break
            if budget <= 0:
                break
    return trace, msg


# ------------------------------------------------------------------ parallel task runner

def _task(a):
    fn, args, kw = a
    try:
        return fn(*args, **kw)
    except Violation as v:
        r = Result()
        r.violations.append({"family": str(args[0]) if args else "?", "system": None, "cfg": None,
                             "trace": [], "message": v.msg, "log": []})
        return r


def _quiet():
    """Console output of the code under test is of no interest."""
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.close(null)


def run_tasks(tasks, procs=None, stop=None):
    """tasks: list of (fn, args, kw) returning Result. Runs them on all cores, merges in order."""
    procs = procs or min(8, os.cpu_count() or 1, max(1, len(tasks)))
    res = Result()
    ctx = mp.get_context("fork")
    with ctx.Pool(procs, initializer=_quiet) as pool:
        for r in (pool.imap_unordered if stop else pool.imap)(_task, tasks, chunksize=1):
            res.merge(r)
            if stop and any(stop(v) for v in r.violations):
                break       # only with VERIF_STOP (used when many mutated trees are checked)
    return res
