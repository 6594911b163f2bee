"""Rule framework: exploration bookkeeping, verdicts, evidence."""
import json
import os
import time
import traceback
from .values import *
from .interp import (AbsRaise, AnalysisError, PathAbort, Unsupported, _MISSING, short)
from . import model

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = {}


class Rule:
    def __init__(self, id, title, fn, technique, rule_text):
        self.id, self.title, self.fn, self.technique, self.rule_text = id, title, fn, technique, rule_text


def rule(id, title, technique, text):
    def deco(fn):
        RULES[id] = Rule(id, title, fn, technique, text)
        return fn
    return deco


class Done:
    """Outcome of a scenario: returned value or the abstract exception that left it."""
    def __init__(self, value=None, exc=None, loc=None, world=None):
        self.value, self.exc, self.loc, self.world = value, exc, loc, world

    @property
    def raised(self):
        return self.exc is not None


class Ctx:
    def __init__(self, rule_id, tier='quick', root='/repo'):
        self.rule = rule_id
        self.tier = tier
        self.root = root
        self.obligations = {}       # name -> dict(paths, decided, undecided, failed)
        self.violations = []
        self.functions = set()
        self.undecided = []
        self.I_ = None
        self.notes = []
        self.sites = 0

    @property
    def thorough(self):
        return self.tier == 'thorough'

    @property
    def I(self):
        if self.I_ is None:
            self.I_ = model.new_interp(root=self.root)
        return self.I_

    def ob(self, name):
        return self.obligations.setdefault(name, {'instances': 0, 'undecided': 0, 'failed': 0})

    # ------------------------------------------------------------------ reporting
    def fail(self, obligation, where, msg, path=None):
        o = self.ob(obligation)
        o['failed'] += 1
        v = {'obligation': obligation, 'where': where, 'message': msg}
        if path:
            v['path'] = path
        if not any(x['obligation'] == obligation and x['where'] == where and x['message'] == msg for x in self.violations):
            self.violations.append(v)

    def check(self, obligation, ok, where, msg):
        """One syntactic/dataflow obligation instance."""
        self.ob(obligation)['instances'] += 1
        if not ok:
            self.fail(obligation, where, msg)

    # ------------------------------------------------------------------ path exploration
    def explore(self, obligation, scenario, judge, max_paths=6000, stop_after=6, need=1, stubs=None):
        """Enumerate the abstract paths of scenario(I) -> value; judge(I, Done) -> list of (where, message)."""
        I = self.I
        I.abort_on_taint = True
        o = self.ob(obligation)
        prefix = []
        n = decided = 0
        nfail = 0
        why = {}
        t0 = time.time()
        while True:
            I.reset(prefix)
            I.stubs = dict(stubs or {})
            n += 1
            bad = None
            done = None
            try:
                try:
                    done = Done(scenario(I))
                except AbsRaise as e:
                    done = Done(exc=e.exc, loc=e.loc)
                done.world = I.world
            except PathAbort as e:
                bad = 'abort: %s at %s' % (e, I.loc())
                if I.loop_bound_hit:
                    done = Done()
                    done.world = I.world
                    done.diverged = I.loc()
            except Unsupported as e:
                bad = 'unsupported construct: %s' % e
            except RecursionError:
                bad = 'unsupported: recursion'
            if done is not None and getattr(done, 'diverged', None) is None:
                try:
                    msgs = judge(I, done) or []
                except Unsupported as e:
                    msgs = []
                    bad = 'unsupported construct: %s' % e
                except AbsRaise as e:
                    msgs = []
                    bad = 'judge could not evaluate: %s %s' % (e.exc, e.loc)
                if I.tainted:
                    bad = 'depends on unmodelled value: %s' % (I.tainted[0],)
                    msgs = []
                if bad is None:
                    decided += 1
                    for where, msg in msgs:
                        nfail += 1
                        self.fail(obligation, where, msg, path=[describe(d) for d in I.decisions])
            if bad is not None:
                o['undecided'] += 1
                why[bad] = why.get(bad, 0) + 1
            prefix = I.prefix[:I.pos]
            widths = I.widths[:I.pos]
            while prefix and prefix[-1] + 1 >= widths[len(prefix) - 1]:
                prefix.pop()
            if not prefix:
                break
            prefix[-1] += 1
            if nfail >= stop_after:
                break
            if n >= max_paths:
                raise AnalysisError('%s: path budget exceeded (%d)' % (obligation, max_paths))
        I.reset([])
        I.stubs = {}
        o['instances'] += decided
        o['seconds'] = round(o.get('seconds', 0) + time.time() - t0, 2)
        for b, c in sorted(why.items()):
            self.undecided.append({'obligation': obligation, 'reason': b, 'paths': c})
        if decided < need and not nfail:
            raise AnalysisError('%s: only %d path(s) could be decided (%s)' % (obligation, decided, '; '.join(why) or 'none explored'))
        self.functions |= I.inlined
        return decided


def describe(d):
    k, v, loc = d
    return '%s = %s at %s' % (pretty(k) if not isinstance(k, str) else k, short(v), loc)
