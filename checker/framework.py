"""Runs a check over the entry points in parallel and reports the outcome."""
from __future__ import annotations

import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

from driver import Driver, AnalysisError, all_entries, short, ROOT


class Finding:
    __slots__ = ("rule", "construct", "message", "where", "entry", "config")

    def __init__(self, rule, construct, message, where="", entry="", config=""):
        self.rule, self.construct, self.message = rule, construct, message
        self.where, self.entry, self.config = where, entry, config

    @property
    def key(self):
        return "%s|%s" % (self.rule, self.construct)

    def dump(self):
        return dict(rule=self.rule, construct=self.construct, message=self.message, where=self.where,
                    entry=self.entry, config=self.config, key=self.key)


class Analysis:
    """Base class of the rules.  Sub-classes fill ``findings`` (dict key ->
    Finding) and count obligations with ``oblige``."""

    groups = None
    facets = ()
    opts = {}
    passes = ({},)          # option sets the entries are run under

    def __init__(self):
        self.findings = {}
        self.obligations = {}
        self.discharged = {}
        self.samples = []
        self.D = None

    # hooks ---------------------------------------------------------------
    def make_facets(self):
        return []

    def event(self, I, ev):
        pass

    def begin(self, D, run):
        pass

    def after(self, D, run):
        pass

    def end(self, D, run):
        pass

    def select(self, e):
        return self.groups is None or e.group in self.groups

    def finish(self):
        """Called once in the parent with everything merged."""

    # reporting -----------------------------------------------------------
    def oblige(self, rule, inst, ok=True):
        self.obligations.setdefault(rule, set()).add(inst)
        if not ok:
            self.discharged.setdefault(rule, set()).add(inst)

    def report(self, D, rule, construct, message, ev=None, where=None):
        run = D.cur
        w = where
        if ev is not None:
            w = "%s:%d" % (D.repo.file_of(ev.mod), ev.line)
        f = Finding(rule, construct, message, w or "", "%s.%s" % (run.entry.name, run.method) if run else "",
                    short(run.config) if run else "")
        if f.key not in self.findings:
            self.findings[f.key] = f


def _worker(job):
    cls, names, opts, tier = job
    an = cls()
    an.tier = tier
    an.po = opts
    o = dict(an.opts)
    if tier == "thorough":
        o.update(full_cap=900, oracle_cap=96)
    o.update(opts)
    err = None
    D = None
    try:
        def hook(I, ev):
            if an.D is not None and an.D.cur is not None:
                an.event(I, ev)

        D = Driver(an.make_facets(), [hook], o)
        an.D = D
        D.analysis = an
        an.setup(D) if hasattr(an, "setup") else None
        es = {e.name: e for e in all_entries()}
        for n in names:
            D.run_entry(es[n], an)
    except AnalysisError as e:
        err = str(e)
    except Exception:
        import traceback
        err = traceback.format_exc().replace("\n", " | ")
    stats = D.stats if D else {}
    stats = dict(stats)
    stats["functions"] = sorted("%s.%s" % f for f in D.I.seen_funcs) if D else []
    stats["unknown"] = dict(D.I.unknown) if D else {}
    extra = an.export() if hasattr(an, "export") else None
    return (an.findings, an.obligations, an.discharged, an.samples, stats, err, extra)


WEIGHT = {"Simplex": 6, "TV": 6, "ProximalGradient": 12, "Segment": 7, "Intersection": 4, "PALM": 4, "iPALM": 4,
          "L2": 3, "Sum": 2, "AcceleratedProximalGradient": 3, "TwIST": 2, "GeneralizedProximalGradient": 2}


def run_analysis(cls, tier="quick", jobs=None, verbose=False):
    jobs = jobs or min(8, os.cpu_count() or 1)
    proto = cls()
    names = [e.name for e in all_entries() if proto.select(e)]
    names.sort(key=lambda n: -WEIGHT.get(n, 1))
    work = []
    for o in proto.passes:
        for n in names:
            work.append((cls, [n], o, tier))
    # few large chunks to amortise loading
    nchunk = jobs * 3
    chunks = []
    for o in proto.passes:
        buckets = [[0, []] for _ in range(min(nchunk, max(1, len(names))))]
        for n in names:
            b = min(buckets, key=lambda b: b[0])
            b[0] += WEIGHT.get(n, 1)
            b[1].append(n)
        chunks += [(cls, b[1], o, tier) for b in buckets if b[1]]
    total = cls()
    total.tier = tier
    stats = dict(entries=0, configs=0, runs=0, methods=0, capped=0, failed=[], functions=set(), unknown={})
    errs = []
    extras = []
    if jobs == 1:
        results = map(_worker, chunks)
        pool = None
    else:
        pool = mp.get_context("fork").Pool(jobs)
        results = pool.imap_unordered(_worker, chunks)
    for fi, ob, di, sa, st, err, extra in results:
        for k, v in fi.items():
            if k not in total.findings or (v.entry, v.config) < (total.findings[k].entry, total.findings[k].config):
                total.findings[k] = v
        for k, v in ob.items():
            total.obligations.setdefault(k, set()).update(v)
        for k, v in di.items():
            total.discharged.setdefault(k, set()).update(v)
        total.samples += sa
        for k in ("entries", "configs", "runs", "methods", "capped"):
            stats[k] += st.get(k, 0)
        stats["failed"] += st.get("failed", [])
        stats["functions"] |= set(st.get("functions", []))
        for k, v in st.get("unknown", {}).items():
            stats["unknown"][k] = stats["unknown"].get(k, 0) + v
        if err:
            errs.append(err)
        if extra is not None:
            extras.append(extra)
    if pool:
        pool.close()
        pool.join()
    total.extras = extras
    total.finish()
    return total, stats, errs
