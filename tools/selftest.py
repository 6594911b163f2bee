"""Differential test of the analyser's semantics of Python: every snippet of selftest_snippets.py is run by CPython and
evaluated abstractly; the results must be the same. (A test of the analyser, not of the repository; no check runs it.)"""
import importlib.util
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from sa import model
from sa.values import *
from sa.interp import AbsRaise, Unsupported


def plain(I, v):
    v = I.force(v)
    if isinstance(v, AList):
        return [plain(I, x) for x in v.items]
    if isinstance(v, tuple):
        return tuple(plain(I, x) for x in v)
    if isinstance(v, ADict):
        return {plain(I, k): plain(I, x) for k, x in v.d.items()}
    if isinstance(v, ASet):
        return {plain(I, x) for x in v.items}
    return v


def main():
    snip = os.path.join(HERE, 'selftest_snippets.py')
    d = tempfile.mkdtemp()
    try:
        shutil.copytree('/repo/rocketry', d + '/rocketry', ignore=shutil.ignore_patterns('test', '__pycache__'))
        shutil.copy(snip, d + '/rocketry/_selftest.py')
        I = model.new_interp(root=d)
        I.reset([])
        mod = I.module('rocketry._selftest')
        spec = importlib.util.spec_from_file_location('snip', snip)
        real = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(real)
        bad = 0
        for n in [n for n in dir(real) if n.startswith('t_')]:
            want = getattr(real, n)()
            try:
                got = plain(I, I.call(mod.ns[n], [], {}))
            except AbsRaise as e:
                got = 'raised %r %r %s' % (e.exc, getattr(e.exc, 'fields', None), e.loc)
            except Unsupported as e:
                got = 'unsupported %s' % e
            except Exception as e:
                got = 'crash %s %r' % (type(e).__name__, e)
            if got != want:
                bad += 1
                print('DIFF %s\n  want %r\n  got  %r' % (n, want, got))
        print('%d differences' % bad)
        return 1 if bad else 0
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    sys.exit(main())
