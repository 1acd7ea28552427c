"""Demand-driven discharge: an obligation at a construct is first tried with nothing known about the caller; when the
function alone does not prove it, the analysis is repeated from each caller (the callee analysed in the caller's context),
up to the externally visible entry points.  Only an obligation that no context level proves is reported."""
import time
from core import *

class Discharge:
    def __init__(self, prog, mkmon, inline, cap=8, maxlevels=6, maxinline=7, steps=1500000, over=None):
        self.p = prog; self.mkmon = mkmon; self.inline = inline; self.cap = cap; self.maxlevels = maxlevels
        self.maxinline = maxinline; self.steps = steps
        self.analysed = set(); self.runs = 0; self.reports = {}; self.budget = []
        self.covered = set(); self.run_cpu = 90; self.site_cpu = 240; self.end = None

    def run_entry(self, name, target):
        mon = self.mkmon()
        I = SInterp(self.p, mon, inline=lambda n, d: self.inline(n) or self.p.small(n) or target in self.p.reach(n), maxinline=self.maxinline, cap=self.cap, steps=self.steps)
        self.runs += 1
        now = time.process_time()
        I.cpu_limit = now + self.run_cpu if self.end is None else min(now + self.run_cpu, max(self.end, now + 5))
        try:
            I.run(name)
        except Budget as e:
            self.budget.append((name, str(e)))
            return None, mon
        self.covered |= I.covered
        return I, mon

    def site(self, fname):
        """all obligations located in function fname -> list of unproven Reports"""
        self.end = time.process_time() + self.site_cpu
        level = [(fname, 0, None, ())]
        seen = set()
        unproven = []
        while level:
            name, d, open_, below = level.pop()
            if (name, open_) in seen: continue
            seen.add((name, open_))
            self.analysed.add(name)
            I, mon = self.run_entry(name, fname)
            if I is None:
                reps = None
            else:
                reps = [r for r in I.reports.values() if r.fname == fname and (open_ is None or (r.rule, r.where) in open_)]
                if not reps: continue
            if os.environ.get('SA_DEBUG'): print('   unproven at', name, [(r.where, r.msg) for r in reps or ()][:6], self.budget[-1:])
            callers = [c for c in self.p.callers.get(name, {})]
            if reps is None and below:
                # the context is too large to help: what the callee could not prove stays unproven
                unproven.extend(below)
                continue
            if not callers or d >= self.maxlevels:
                if reps is None: raise AnalysisError('budget exhausted in %s: %s' % (name, self.budget[-1][1]))
                unproven.extend(reps)
                continue
            nopen = frozenset((r.rule, r.where) for r in reps) if reps is not None else open_
            level.extend((c, d + 1, nopen, tuple(reps or ())) for c in callers)
        return unproven
