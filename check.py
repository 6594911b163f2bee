#!/usr/bin/env python3
"""Decide one property of /repo's current source by static analysis.

usage: check.py ID [--tier quick|thorough] [--root /repo]
exit 0: every obligation holds; 1: VIOLATION line; 2: the analysis cannot decide."""
import argparse
import importlib
import json
import os
import pkgutil
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

from sa import framework, rules  # noqa: E402
from sa.interp import AnalysisError, AbsRaise, Unsupported  # noqa: E402


def load_rules():
    for m in pkgutil.iter_modules(rules.__path__):
        importlib.import_module('sa.rules.' + m.name)


def known_findings(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('property') == pid and d.get('status') == 'open':
                    out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--root', default='/repo')
    ap.add_argument('--evidence', default=os.path.join(HERE, 'evidence'))
    a = ap.parse_args()
    load_rules()
    if a.id not in framework.RULES:
        print('unknown property', a.id)
        return 2
    r = framework.RULES[a.id]
    ctx = framework.Ctx(a.id, a.tier, a.root)
    t0 = time.time()
    err = None
    try:
        r.fn(ctx)
    except AnalysisError as e:
        err = 'analysis error: %s' % e
    except AbsRaise as e:
        err = 'analysis error: client set-up raised %s%r at %s' % (e.exc, e.exc.fields.get('args'), e.loc)
    except Exception:
        err = 'internal error: ' + traceback.format_exc()[-1500:]
    dt = time.time() - t0
    kf = known_findings(a.id)
    new, listed = [], []
    for v in ctx.violations:
        m = [k for k in kf if k['obligation'] == v['obligation'] and k['where_contains'] in v['where']
             and k['message_contains'] in v['message']]
        (listed if m else new).append((v, m))
    for k in {id(m[0]): m[0] for _, m in listed}.values():
        print('KNOWN-FINDING: property=%s %s' % (a.id, k['what']))
    os.makedirs(a.evidence, exist_ok=True)
    n_inst = sum(o['instances'] for o in ctx.obligations.values())
    undec = sum(o['undecided'] for o in ctx.obligations.values())
    prog_m = prog_f = None
    if ctx.I_ is not None:
        prog_m, prog_f = len(ctx.I_.prog.modules), ctx.I_.prog.n_functions()
    ev = {
        'property': a.id,
        'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '0') or 0),
        'level': 'other',
        'technique': r.technique,
        'coverage': {
            'explanation': 'Static analysis of the current source, no package code is executed. %s. Rule: %s' % (
                r.technique, r.rule_text),
            'rule': r.rule_text,
            'modules_parsed': prog_m,
            'functions_in_package': prog_f,
            'functions_traversed': len(ctx.functions),
            'obligations': len(ctx.obligations),
            'instances_decided': n_inst,
            'instances_undecided': undec,
            'obligation_detail': ctx.obligations,
            'functions': sorted(f for f in ctx.functions if f.startswith('rocketry')),
            'undecided_reasons': ctx.undecided[:40],
            'notes': ctx.notes,
        },
        'wall_s': round(dt, 2),
        'violations': [v for v, _ in new],
        'known_findings': [v for v, _ in listed],
        'result': 'error' if err and not new else ('violation' if new else 'holds'),
    }
    if err:
        ev['error'] = err
    path = os.path.join(a.evidence, '%s.json' % a.id)
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if new:
        rp = os.path.join(a.evidence, '%s.violation.json' % a.id)
        with open(rp, 'w') as f:
            json.dump({'property': a.id, 'rule': r.rule_text, 'violations': [v for v, _ in new],
                       'replay': 'python3 %s %s --tier %s' % (os.path.join(HERE, 'check.py'), a.id, a.tier)}, f, indent=1,
                      default=str)
        for v, _ in new[:8]:
            print('%s: %s\n    at %s' % (v['obligation'], v['message'], v['where']))
            for d in v.get('path', [])[:14]:
                print('      path: ' + d)
        print('VIOLATION property=%s replay=%s' % (a.id, rp))
        return 1
    if err:
        print(err)
        return 2
    print('%s holds: %d obligations, %d instances, %d undecided, %.1f s' % (a.id, len(ctx.obligations), n_inst, undec, dt))
    return 0


if __name__ == '__main__':
    sys.exit(main())
