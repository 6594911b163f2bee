"""Time periods: interval algebra, cyclic periods, combined periods, timezones.

Domain: points of time are named symbols; a path fixes their weak order (which of them are equal, which
come first). The code only compares points, so one abstract state per weak order covers every input."""
import datetime
from fractions import Fraction
from ..framework import rule
from ..model import *
from ..interp import short

T = 'Abstract interpretation over the weak orders of symbolic points of time'
INTERVAL, BASE, ANCHOR = 'rocketry/pybox/time/interval.py', 'rocketry/core/time/base.py', 'rocketry/core/time/anchor.py'


class Points(World):
    """Symbolic points with a weak order that is chosen point by point."""
    datetimes = True

    def __init__(self, I):
        World.__init__(self)
        self.I = I
        I.world = self
        self.classes = []
        self.val = {}
        self.odd = 0
        I.order = self.order

    def place(self, *names, lo=None, after=False):
        """Choose where each point lies relative to the points placed before (not before, or after, the point lo)."""
        for n in names:
            first = 0 if lo is None else next(i for i, c in enumerate(self.classes) if lo in c)
            opts = []
            for i in range(first, len(self.classes)):
                opts.append(('=', i))
                opts.append(('>', i))
            if first == 0 and (lo is None):
                opts.insert(0, ('>', -1))
            if after:
                opts.remove(('=', first))
            how, i = self.I.choose('place of ' + n, opts) if len(opts) > 1 else opts[0]
            if how == '=':
                self.classes[i].append(n)
            else:
                self.classes.insert(i + 1, [n])
        for i, c in enumerate(self.classes):
            for n in c:
                self.val[n] = (i + 1) * 10

    def order(self, d):
        if all(k in self.val for k in d.co):
            v = sum(c * self.val[k] for k, c in d.co.items()) + d.const
            if len(d.co) > 2 or abs(d.const) > 0.001:
                self.odd += 1
            return (v > 0) - (v < 0)
        return None

    def num(self, x):
        if isinstance(x, DT):
            x = x.lin
        if isinstance(x, Lin):
            return sum(c * self.val[k] for k, c in x.co.items()) + x.const
        if isinstance(x, datetime.datetime):
            return float('-inf') if x.year < 2000 else float('inf')
        return x

    def text(self):
        return ' < '.join(' = '.join(c) for c in self.classes)


def inn(closed, l, r, x):
    return {'left': l <= x < r, 'right': l < x <= r, 'both': l <= x <= r, 'neither': l < x < r}[closed]


def empty(closed, l, r):
    return not (l < r or (l == r and closed == 'both'))


@rule('C26', 'Intervals behave as sets of points', T + ' (endpoints of two intervals and a point)',
      'For every order of the endpoints of two intervals and a point, and every closedness: membership, emptiness and overlap are those of the sets of points; '
      'the intersection of overlapping intervals contains exactly the points both contain; an interval whose start is after its end cannot be created.')
def c26(ctx):
    SRC = 'from rocketry.pybox.time import Interval\n'
    CL = ['left', 'right', 'both', 'neither']

    def mk(I, w, ns, l, r, c):
        return I.call(ns['Interval'], [Lin.sym(l), Lin.sym(r)], {'closed': c})

    def one(I):
        w = Points(I)
        ns = client(I, SRC)
        w.place('l', 'r', 'x')
        w.c = I.choose('closed', CL)
        try:
            a = mk(I, w, ns, 'l', 'r', w.c)
        except AbsRaise as e:
            w.got = ('raised', str(e.exc.cls.name))
            return w
        w.got = (I.truth(I.callm(a, '__contains__', Lin.sym('x'))), I.truth(I.getattr(a, 'is_empty')))
        return w

    def j_one(I, d):
        if d.raised:
            yield (d.loc, 'Interval raises %s' % d.exc)
            return
        w = d.value
        l, r, x = (w.val[n] for n in 'lrx')
        exp = ('raised', 'ValueError') if l > r else (inn(w.c, l, r, x), empty(w.c, l, r))
        if w.got != exp:
            yield (INTERVAL, 'interval l..r closed %s, %s: (contains x, is empty) is %s, expected %s' % (w.c, w.text(), w.got, exp))
    ctx.explore('membership', one, j_one, need=30)

    def two(I):
        w = Points(I)
        ns = client(I, SRC)
        w.place('l1')
        w.place('r1', lo='l1')
        w.place('l2')
        w.place('r2', lo='l2')
        w.place('x')
        w.c = (I.choose('closed 1', CL), I.choose('closed 2', CL))
        v = w.val
        if empty(w.c[0], v['l1'], v['r1']) or empty(w.c[1], v['l2'], v['r2']):
            w.skip = True
            return w
        w.skip = False
        a, b = mk(I, w, ns, 'l1', 'r1', w.c[0]), mk(I, w, ns, 'l2', 'r2', w.c[1])
        w.ov = I.truth(I.callm(a, 'overlaps', b))
        try:
            c = I.callm(a, '__and__', b)
            w.both = I.truth(I.callm(c, '__contains__', Lin.sym('x')))
        except AbsRaise as e:
            w.both = str(e.exc.cls.name)
        return w

    def j_two(I, d):
        if d.raised:
            yield (d.loc, 'Interval raises %s' % d.exc)
            return
        w = d.value
        if w.skip:
            return
        v = w.val
        L, R = max(v['l1'], v['l2']), min(v['r1'], v['r2'])
        ov = L < R or (L == R and inn(w.c[0], v['l1'], v['r1'], L) and inn(w.c[1], v['l2'], v['r2'], L))
        if w.ov != ov:
            yield (INTERVAL, 'intervals closed %s, %s: overlap is %s' % (w.c, w.text(), w.ov))
        exp = inn(w.c[0], v['l1'], v['r1'], v['x']) and inn(w.c[1], v['l2'], v['r2'], v['x'])
        if ov and w.both != exp:
            yield (INTERVAL, 'intervals closed %s, %s: the intersection contains x: %s, expected %s' % (w.c, w.text(), w.both, exp))
        if not ov and w.both is True:
            yield (INTERVAL, 'intervals closed %s, %s: the intersection of intervals that do not overlap contains x' % (w.c, w.text()))
    ctx.explore('two intervals', two, j_two, need=1000, max_paths=12000)


class Clock(Points):
    """A symbolic datetime by its clock components (microseconds as the unit of positions in the cycle)."""
    PARTS = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'weekday')

    def __init__(self, I, rep, tz=None):
        Points.__init__(self, I)
        self.rep = rep
        self.val['now'] = Fraction(0)
        self.tz = tz
        for n in self.PARTS:
            self.val['now.' + n] = rep.weekday() if n == 'weekday' else getattr(rep, n)
        self.dt = DT(Lin.sym('now'), tz)

    def order(self, d):
        if all(k in self.val for k in d.co):
            v = self.num(d)
            if self.stats is not None:
                self.stats['exact' if self.exact(d) else 'other'] += 1
            return (v > 0) - (v < 0)
        return None

    stats = weights = None

    def exact(self, d):
        """Whether the form compares two of: position in the cycle, start, end, bounds of the cycle."""
        parts = {k[4:]: c for k, c in d.co.items() if k.startswith('now.')}
        pos = [k for k in (1, -1) if parts == {n: k * m for n, m in self.weights.items()}]
        rest = [c for k, c in d.co.items() if k in ('start', 'end')]
        return (not parts or bool(pos)) and all(abs(c) == 1 for c in rest) and len(rest) + bool(parts) <= 2 and not (d.const and len(rest) + bool(parts) == 2)

    def shifted(self, v):
        """Components of now + an offset: those of now with the carries of the representative."""
        if v.lin.co.get('now') != 1 or any(k not in self.val for k in v.lin.co):
            return None
        return self.rep + datetime.timedelta(microseconds=round((self.num(v.lin) - self.val['now']) * 10 ** 6))

    def datetime_attr(self, I, v, name):
        if name not in self.PARTS and name not in ('isoweekday', 'date', 'replace'):
            return None
        at = self.shifted(v)
        if at is None:
            return None

        def part(n):
            base = self.rep.weekday() if n == 'weekday' else getattr(self.rep, n)
            x = at.weekday() if n == 'weekday' else getattr(at, n)
            return Lin({'now.' + n: 1}, x - base)
        if name == 'weekday':
            return Builtin('weekday', lambda I, a, k: part('weekday'))
        if name == 'isoweekday':
            return Builtin('isoweekday', lambda I, a, k: part('weekday').add(1))
        if name in self.PARTS:
            return part(name)
        return None


CYCLES = {
    # class: (length of the cycle and of the unit in microseconds, components and what they weigh)
    'TimeOfMinute': (60 * 10 ** 6, 10 ** 6, {'second': 10 ** 6, 'microsecond': 1}),
    'TimeOfHour': (3600 * 10 ** 6, 60 * 10 ** 6, {'minute': 60 * 10 ** 6, 'second': 10 ** 6, 'microsecond': 1}),
    'TimeOfDay': (86400 * 10 ** 6, 3600 * 10 ** 6, {'hour': 3600 * 10 ** 6, 'minute': 60 * 10 ** 6, 'second': 10 ** 6, 'microsecond': 1}),
    'TimeOfWeek': (7 * 86400 * 10 ** 6, 86400 * 10 ** 6, {'weekday': 86400 * 10 ** 6, 'hour': 3600 * 10 ** 6, 'minute': 60 * 10 ** 6,
                                                         'second': 10 ** 6, 'microsecond': 1}),
}
INSIDE = datetime.datetime(2023, 5, 18, 9, 31, 17, 250003)     # a Thursday, nothing at a bound
OPENING = datetime.datetime(2023, 5, 15)                       # the first instant of every cycle (a Monday)
CLOSING = datetime.datetime(2023, 5, 21, 23, 59, 59, 999999)   # the last instant of every cycle


@rule('C27', 'Cyclic periods contain and span the right times', T + ' and their clock components (exact linear forms)',
      'For a cyclic period (of minute, hour, day, week) given by any start and end (also one of them, none, a time point or a starting point) and any time: the time is in the period exactly if its '
      'position in the cycle is from the start up to (not including) the end, over the turn of the cycle if the start is after the end; rolling forward gives the rest of the current '
      'or the whole next occurrence, rolling back the elapsed part of the current or the whole previous one.')
def c27(ctx):
    SRC = 'from rocketry.time import TimeOfMinute, TimeOfHour, TimeOfDay, TimeOfWeek, TimeOfMonth\n'
    stats = {'exact': 0, 'other': 0}

    def scen(I):
        cls = I.choose('period', list(CYCLES))
        S, unit, weights = CYCLES[cls]
        rep = I.choose('time', [INSIDE, OPENING, CLOSING])
        w = Clock(I, rep, I.choose('timezone', [None, datetime.timezone.utc]) if rep is INSIDE else None)
        ns = client(I, SRC)
        w.stats, w.weights = stats, weights
        p = sum(m * (rep.weekday() if n == 'weekday' else getattr(rep, n)) for n, m in weights.items())
        form = I.choose('form', ['between', 'from', 'until', 'all', 'at', 'starting'])
        s, e = 0, S
        kw = {}
        args = []

        def position(n, extra=()):
            o = {0: 'the turn of the cycle', p: 'now', p - 7: 'shortly before', p + 7: 'shortly after', p // 2: 'before', (p + S) // 2: 'after',
                 S - 1: 'the last instant'}
            for x in extra:
                o[x] = 'position %d' % x
            x = I.choose(n, sorted(k for k in o if 0 <= k <= (S if n == 'end' else S - 1)))
            w.val[n] = x
            return x, ADict({'microsecond': Lin.sym(n)})
        if form in ('between', 'from', 'at', 'starting'):
            s, a = position('start', (p - unit, p - unit + 1, p - unit - 1, S - unit) if form == 'at' else ())
            args.append(a)
        else:
            args.append(None)
        if form in ('between', 'until'):
            e, a = position('end', (S, s))
            args.append(a)
        if form == 'at':
            e = (s + unit) % S
            pr = I.call(I.getattr(ns[cls], 'at'), args, {})
        elif form == 'starting':
            e = s
            pr = I.call(I.getattr(ns[cls], 'starting'), args, {})
        else:
            pr = I.call(ns[cls], args if form != 'all' else [], kw)
        w.cls, w.form, w.p, w.s, w.e, w.S = cls, form, p, s, e, S
        w.inside = I.truth(I.callm(pr, '__contains__', w.dt))
        w.fwd = I.callm(pr, 'rollforward', w.dt)
        w.back = I.callm(pr, 'rollback', w.dt)
        return w

    def judge(I, d):
        if d.raised:
            yield (d.loc, 'a period raises %s%s' % (d.exc, short(d.exc.fields.get('args'))))
            return
        w = d.value
        p, s, e, S = w.p, w.s, w.e, w.S
        full = s == e or (s == 0 and e == S)
        inside = full or (s <= p < e if s <= e else (p >= s or p < e))

        def nxt(x):
            return x - p if p < x else x - p + S

        def prv(x):
            return x - p if p >= x else x - p - S
        what = '%s (%s) from %s to %s of %s, now at %s' % (w.cls, w.form, s, e, S, p)
        at = ANCHOR
        if w.inside != inside:
            yield (at, '%s: the time is in the period: %s' % (what, w.inside))
        if full:
            f = (0, nxt(e))
            b = (prv(s) if prv(s) else -S, 0)
        elif inside:
            f = (0, nxt(e))
            b = (prv(s), 0)
        else:
            f = (nxt(s), nxt(e))
            b = (prv(s), prv(e))
        for name, got, exp, cl in (('forward', w.fwd, f, ('left',)), ('back', w.back, b, ('left', 'both'))):
            l, r = (w.num(I.getattr(got, x)) for x in ('left', 'right'))
            l, r = (round(float(x) * 10 ** 6) for x in (l, r))
            if (l, r) != exp:
                yield (at, '%s: rolling %s gives from %+d to %+d (from now), expected from %+d to %+d' % ((what, name, l, r) + exp))
            c = I.getattr(got, 'closed')
            if c not in cl or (l == r) != (c == 'both'):
                yield (at, '%s: rolling %s gives an interval closed %s' % (what, name, c))
            for x in ('left', 'right'):
                v = I.getattr(got, x)
                if isinstance(v, DT) and v.tz != w.tz:
                    yield (at, '%s: rolling %s of a time with timezone %s gives timezone %s' % (what, name, w.tz, v.tz))
    ctx.explore('cyclic periods', scen, judge, need=500, max_paths=20000)
    ctx.notes.append('comparisons of exact positions (region invariant): %d, other comparisons: %d' % (stats['exact'], stats['other']))

    def month(I):
        rep = I.choose('time', [INSIDE, datetime.datetime(2023, 5, 1), datetime.datetime(2023, 5, 31, 23, 59, 59, 999999)])
        w = Clock(I, rep)
        ns = client(I, SRC)
        w.form = I.choose('form', ['between', 'from', 'until', 'at', 'starting', 'all'])
        days = [1, rep.day - 1, rep.day, rep.day + 1, 31]
        days = sorted({x for x in days if 1 <= x <= 31})
        w.a = w.b = None
        if w.form in ('between', 'from', 'at', 'starting'):
            w.a = w.val['first'] = I.choose('first', days)
        if w.form in ('between', 'until'):
            w.b = w.val['last'] = I.choose('last', days)
        A, B = (None if x is None else Lin.sym(n) for x, n in ((w.a, 'first'), (w.b, 'last')))
        if w.form in ('at', 'starting'):
            pr = I.call(I.getattr(ns['TimeOfMonth'], w.form), [A], {})
        else:
            pr = I.call(ns['TimeOfMonth'], [A, B] if w.form != 'all' else [], {})
        w.inside = I.truth(I.callm(pr, '__contains__', w.dt))
        return w

    def j_month(I, d):
        if d.raised:
            yield (d.loc, 'a period raises %s%s' % (d.exc, short(d.exc.fields.get('args'))))
            return
        w = d.value
        day = w.rep.day
        a = 1 if w.a is None else w.a
        b = a if w.form == 'at' else 31 if w.b is None else w.b
        if w.form in ('all', 'starting') or b == a - 1:
            exp = True
        else:
            exp = a <= day <= b if a <= b else (day >= a or day <= b)
        if w.inside != exp:
            yield ('rocketry/time/interval.py', 'TimeOfMonth (%s) from day %s to day %s: a time on day %s is in the period: %s' % (w.form, w.a, w.b, day, w.inside))
    ctx.explore('days of month', month, j_month, need=60)


@rule('C28', 'Combined periods are the intersection or union of their parts', T + ' (bounds of up to three parts and the time)',
      'For periods combined with & and | (also nested, with always and never) of parts with any bounds, and any time: the time is in the combination exactly if it is in all (any) of the parts; '
      'rolling an intersection forward (back) gives the common time of the parts from (up to) the time, nothing if there is none; rolling a union gives the overlapping occurrences '
      'that come first, whatever the order of the parts. Combining does not raise.')
def c28(ctx):
    SRC = 'from rocketry.core.time.base import All, Any, StaticInterval, always, never\n'

    def world(I, n):
        w = Points(I)
        w.ns = client(I, SRC)
        for i in range(n):
            w.place('l%d' % i)
            w.place('r%d' % i, lo='l%d' % i, after=True)
        w.place('t')
        w.parts = [(w.val['l%d' % i], w.val['r%d' % i]) for i in range(n)]
        return w

    def part(I, w, i):
        return I.call(w.ns['StaticInterval'], [DT(Lin.sym('l%d' % i)), DT(Lin.sym('r%d' % i))], {})

    def run(I, w, pr, ops):
        t = DT(Lin.sym('t'))
        w.got = {}
        for op in ops:
            try:
                v = I.callm(pr, op, t)
                w.got[op] = I.truth(v) if op == '__contains__' else (w.num(I.getattr(v, 'left')), w.num(I.getattr(v, 'right')), I.getattr(v, 'closed'))
            except AbsRaise as e:
                w.got[op] = 'raises %s' % getattr(e.exc.cls, 'name', e.exc.cls)
            except Unsupported as e:
                # fixed intervals need no more levels of calls than there are parts
                if 'call depth exceeded' not in str(e):
                    raise
                w.got[op] = 'recursion without end'
        return w

    def expected(w, kind, op):
        t = w.val['t']
        ins = [l <= t < r for l, r in w.parts]
        if op == '__contains__':
            return [all(ins) if kind == 'all' else any(ins)]
        fwd = op == 'rollforward'
        occ = [(max(l, t), r) if fwd else (l, min(r, t)) for l, r in w.parts]
        if kind == 'all':
            L, R = max(l for l, r in occ), min(r for l, r in occ)
            return [(L, R)] if L < R else ['nothing']
        occ = [o for o in occ if o[0] < o[1]]
        if not occ:
            return ['nothing']
        res = []
        for touch in (False, True):
            cur = min(occ, key=lambda o: o[0]) if fwd else max(occ, key=lambda o: o[1])
            for _ in occ:
                for l, r in occ:
                    if (l <= cur[1] and cur[0] <= r) if touch else (l < cur[1] and cur[0] < r):
                        cur = (min(l, cur[0]), max(r, cur[1]))
            res.append(cur)
        return res

    def judge(I, d):
        if d.raised:
            yield (d.loc, 'combining periods raises %s' % d.exc)
            return
        w = d.value
        for op, got in w.got.items():
            exp = expected(w, w.kind, op)
            if isinstance(got, tuple):
                l, r, c = got
                got = 'nothing' if empty(c, l, r) else (l, r)
            if got not in exp:
                yield (BASE, '%s of %s, %s: %s gives %s, expected %s' % (
                    w.kind, ', '.join('[l%d, r%d)' % (i, i) for i in range(len(w.parts))), w.text(), op, got, exp[0]))
    OPS = ['__contains__', 'rollforward', 'rollback']

    def two(I):
        w = world(I, 2)
        w.kind = I.choose('combination', ['all', 'any'])
        a, b = part(I, w, 0), part(I, w, 1)
        pr = I.callm(a, '__and__' if w.kind == 'all' else '__or__', b)
        return run(I, w, pr, OPS)
    ctx.explore('two parts', two, judge, need=100)

    def three(I):
        w = world(I, 3)
        w.kind = I.choose('combination', ['all', 'any'])
        a, b, c = (part(I, w, i) for i in range(3))
        op = '__and__' if w.kind == 'all' else '__or__'
        return run(I, w, I.callm(I.callm(a, op, b), op, c), OPS)
    ctx.explore('three parts', three, judge, need=1000, max_paths=40000)

    def special(I):
        w = world(I, 1)
        w.kind = I.choose('combination', ['all', 'any'])
        other = I.choose('other', ['always', 'never'])
        first = I.choose('first', [True, False])
        nested = I.choose('made by', ['operator', 'class'])
        a, b = part(I, w, 0), w.ns[other]
        inf = float('inf')
        w.parts.append((-inf, inf) if other == 'always' else (inf, inf))
        a, b = (a, b) if first else (b, a)
        if nested == 'operator':
            pr = I.callm(a, '__and__' if w.kind == 'all' else '__or__', b)
        else:
            pr = I.call(w.ns['All' if w.kind == 'all' else 'Any'], [a, b], {})
        return run(I, w, pr, OPS)
    ctx.explore('with always or never', special, judge, need=20)

    def only_always(I):
        w = world(I, 0)
        w.kind = I.choose('combination', ['all', 'any'])
        inf = float('inf')
        w.parts = [(-inf, inf)]
        return run(I, w, I.call(w.ns['All' if w.kind == 'all' else 'Any'], [w.ns['always']] * 2, {}), OPS)
    ctx.explore('of always only', only_always, judge)


@rule('C39', 'Fixed and relative periods span the right times, also with a timezone', T + ' and their timezone-awareness',
      'For a fixed period with any bounds (or open ones) and for periods relative to a reference time (past/future, nearer/farther than), with and without a timezone: membership and the '
      'intervals from rolling forward and back are those of the bounds and never raise; times with a timezone give intervals in that timezone, so they can be compared with other times of the session. '
      'The same holds for combinations of them with each other.')
def c39(ctx):
    SRC = '''
from rocketry.core.time.base import All, Any, StaticInterval, TimeDelta, always, never
from rocketry.time.delta import TimeSpanDelta
'''
    INF = float('inf')

    def tzof(v):
        return v.tz if isinstance(v, DT) else v.tzinfo

    def run(I, w, pr, t):
        w.got = {}
        for op in ('__contains__', 'rollforward', 'rollback'):
            try:
                v = I.callm(pr, op, t)
                if op == '__contains__':
                    w.got[op] = I.truth(v)
                else:
                    l, r = I.getattr(v, 'left'), I.getattr(v, 'right')
                    w.got[op] = (w.num(l), w.num(r), tzof(l) == w.tz and tzof(r) == w.tz)
            except AbsRaise as e:
                w.got[op] = 'raises %s%s' % (getattr(e.exc.cls, 'name', e.exc.cls), short(e.exc.fields.get('args')))
        return w

    def judge(I, d):
        if d.raised:
            yield (d.loc, 'a period raises %s' % d.exc)
            return
        w = d.value
        for op, got in w.got.items():
            what = '%s, timezone %s, %s: %s' % (w.what, w.tz, w.text(), op)
            if isinstance(got, str):
                yield (w.at, '%s %s' % (what, got))
                continue
            exp = w.exp[op]
            if op == '__contains__':
                if exp is not None and got != exp:
                    yield (w.at, '%s is %s' % (what, got))
                continue
            if not got[2]:
                yield (w.at, '%s gives times of another timezone than the one asked for' % what)
            if exp is not None and got[:2] != exp:
                yield (w.at, '%s gives %s, expected %s' % (what, got[:2], exp))

    def fixed(I):
        w = Points(I)
        w.tz = I.choose('timezone', [None, datetime.timezone.utc])
        w.at = BASE
        ns = client(I, SRC)
        lo, hi = I.choose('has start', [True, False]), I.choose('has end', [True, False])
        aware = w.tz is not None and I.choose('bounds with timezone', [True, False])
        if lo:
            w.place('l')
        if hi:
            w.place('r', **({'lo': 'l', 'after': True} if lo else {}))
        w.place('t')
        btz = w.tz if aware else None
        kw = {}
        if lo:
            kw['start'] = DT(Lin.sym('l'), btz)
        if hi:
            kw['end'] = DT(Lin.sym('r'), btz)
        pr = I.call(ns['StaticInterval'], [], kw)
        l, r, t = w.val['l'] if lo else -INF, w.val['r'] if hi else INF, w.val['t']
        w.exp = {'__contains__': l <= t < r, 'rollforward': (max(l, t), r) if t <= r else (INF, INF),
                 'rollback': (l, min(t, r)) if l <= t else (-INF, -INF)}
        w.what = 'fixed period from %s to %s%s' % ('l' if lo else 'the beginning', 'r' if hi else 'the end', ' (with timezone)' if aware else '')
        return run(I, w, pr, DT(Lin.sym('t'), w.tz))
    ctx.explore('fixed', fixed, judge, need=30)

    def relative(I):
        w = Points(I)
        w.tz = I.choose('timezone', [None, datetime.timezone.utc])
        w.at = BASE
        ns = client(I, SRC)
        w.place('ref')
        t, R = DT(Lin.sym('t'), w.tz), DT(Lin.sym('ref'), w.tz)
        kind = I.choose('period', ['past', 'future', 'both', 'farther', 'nearer', 'between'])
        # p and f: symbolic non-negative lengths of time in seconds, t: relative to the bounds they give
        w.val['p'], w.val['f'] = (3, 7) if I.choose('order of the lengths', ['p < f', 'p = f']) == 'p < f' else (7, 7)
        p, f = w.val['p'], w.val['f']
        ref = w.val['ref']
        w.val['t'] = ref + I.choose('time from the reference', sorted({-9, -f, -5, -p, -1, 0, 1, p, 5, f, 9}))
        x = w.val['t']
        P, F = TD({'p': 1}), TD({'f': 1})
        if kind in ('past', 'future', 'both'):
            pr = I.call(ns['TimeDelta'], [], {k: v for k, v in (('past', P), ('future', F)) if kind in (k, 'both')})
            a, b = (p if kind != 'future' else 0), (f if kind != 'past' else 0)
            w.exp = {'__contains__': ref - a <= x <= ref + b, 'rollback': (x - a, x), 'rollforward': (x, x + b)}
        else:
            kw = {k: v for k, v in (('near', P), ('far', F)) if (kind in ('farther', 'between') and k == 'near') or (kind in ('nearer', 'between') and k == 'far')}
            pr = I.call(ns['TimeSpanDelta'], [], kw)
            n, fa = (p if 'near' in kw else 0), (f if 'far' in kw else INF)
            w.exp = {'__contains__': n <= abs(x - ref) <= fa, 'rollback': (x - fa, x - n), 'rollforward': (x + n, x + fa)}
            w.at = 'rocketry/time/delta.py'
        pr = I.callm(pr, 'use_reference', R)
        w.what = 'period relative to a time (%s)' % kind
        return run(I, w, pr, t)
    ctx.explore('relative', relative, judge, need=100)

    def mixed(I):
        w = Points(I)
        w.tz = I.choose('timezone', [None, datetime.timezone.utc])
        w.at = BASE
        ns = client(I, SRC)
        w.place('l')
        w.place('r', lo='l', after=True)
        w.place('t')
        w.val['ref'], w.val['p'] = w.val['t'], 25
        a = I.call(ns['StaticInterval'], [DT(Lin.sym('l')), DT(Lin.sym('r'))], {})
        b = I.call(ns['TimeDelta'], [], {'past': TD({'p': 1}), 'reference': DT(Lin.sym('t'), w.tz)})
        c = I.choose('third', ['always', 'never', None])
        op = I.choose('combination', ['__and__', '__or__'])
        pr = I.callm(a, op, b)
        if c:
            pr = I.callm(pr, op, ns[c])
        ins = [w.val['l'] <= w.val['t'] < w.val['r'], True] + ([c == 'always'] if c else [])
        w.exp = {'__contains__': all(ins) if op == '__and__' else any(ins), 'rollback': None, 'rollforward': None}
        w.what = 'fixed and relative period combined by %s%s' % (op, ' with ' + c if c else '')
        return run(I, w, pr, DT(Lin.sym('t'), w.tz))
    ctx.explore('combined', mixed, judge, need=20)


FIELDS = {
    # field: first and last value, names of the values
    'minute': (0, 59, None), 'hour': (0, 23, None), 'day_of_month': (1, 31, None),
    'month': (1, 12, ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']),
    'day_of_week': (0, 7, ['Sun', 'Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat']),
}


@rule('C29', 'Cron expressions mean what cron means', 'Abstract interpretation (constant propagation over the grammar of cron fields) against a reference reading of the fields',
      'For every form of each field (any, value, range, step, stepped range, list, names): a time is in the period of the expression exactly if its minute, hour, day and month are among the values of the '
      'fields, the day counting if it is among the days of month or of week when both are given; as expression, as keywords and as condition alike.')
def c29(ctx):
    SRC = 'from rocketry.time import Cron\nfrom rocketry.conds import cron, crontime\n'

    class W(Clock):
        def datetime_attr(self, I, v, name):
            if name in ('month', 'year'):
                at = self.shifted(v)
                return None if at is None else getattr(at, name)
            return Clock.datetime_attr(self, I, v, name)

    def value_of(t, field):
        return {'minute': t.minute, 'hour': t.hour, 'day_of_month': t.day, 'month': t.month, 'day_of_week': (t.weekday() + 1) % 7}[field]

    def read(field, expr):
        """The values of a cron field."""
        lo, hi, names = FIELDS[field]

        def num(s):
            return int(s) if s.isdigit() else [n.lower() for n in names].index(s.lower()[:3]) + (1 if field == 'month' else 0)
        res = set()
        for e in expr.split(','):
            e, _, step = e.partition('/')
            step = int(step or 1)
            if e == '*':
                a, b = lo, (6 if field == 'day_of_week' else hi)
                if field == 'day_of_week' and step > 1:
                    a, b = 1, 7             # the week of the package starts on Monday
            elif '-' in e:
                a, b = map(num, e.split('-'))
            else:
                a = b = num(e)
            if a <= b:
                res |= set(range(a, b + 1, step))
            else:
                assert step == 1
                res |= set(range(a, hi + 1)) | set(range(lo, b + 1))
        return {v % 7 for v in res} if field == 'day_of_week' else res

    def exprs(field):
        lo, hi, names = FIELDS[field]
        mid = (lo + hi) // 2
        out = ['*', str(lo), str(mid), str(hi), '%d-%d' % (lo, mid), '%d-%d' % (mid, hi), '%d-%d' % (lo + 1, hi - 1),
               '%d,%d' % (lo + 1, hi - 1), '%d-%d,%d' % (lo + 2, mid, hi), '*/2', '*/3', '%d-%d/2' % (lo + 1, hi - 1), '%d-%d/3' % (lo, hi - 1), '%d-%d/2' % (mid - 1, hi),
               '*,%d' % mid, '%d,*' % mid, '%d-%d/1' % (lo + 1, lo + 4), '%d-%d/2' % (lo + 1, lo + 5),
               '*/3,%d' % (lo + 2), '%d,*/3' % (lo + 2), '%d-%d/2,%d' % (lo + 1, lo + 3, lo + 4), '%d-%d/2,%d-%d' % (lo + 1, lo + 3, lo + 4, lo + 5), '%d-%d' % (mid, mid), '%d-%d/2' % (mid, mid)]
        if hi < 32:
            out.append('*/1')
        if field == 'day_of_week':
            out += ['5-0', '0-5', '0-6', '1-7', '6-0', '0,3', '7,3', '0-2,4']
        if field != 'day_of_month':
            out.append('%d-%d' % (hi - 1, lo + 1))
        if names:
            out += [names[1], names[-1].upper(), names[3].lower(), '%s-%s' % (names[1], names[4]), '%s-%s' % (names[-2], names[2]), '%s-%s/2' % (names[1], names[5]),
                    '%s,%s' % (names[0], names[5])]
        return out

    def at(field, v):
        t = datetime.datetime(2023, 5, 18, 9, 31, 17, 250003)
        if field == 'day_of_week':
            return t + datetime.timedelta(days=v - value_of(t, field))
        return t.replace(**{'day' if field == 'day_of_month' else field: v})

    def inside(I, w, ns, kw, how, t):
        order = list(FIELDS)
        if how == 'keywords':
            pr = I.call(ns['Cron'], [], dict(kw))
        elif how == 'positional':
            pr = I.call(ns['Cron'], [kw.get(f, '*') for f in order], {})
        else:
            args, k = ([' '.join(kw.get(f, '*') for f in order)], {}) if how != 'condition with keywords' else ([], dict(kw))
            pr = I.getattr(I.call(ns['cron' if how != 'time condition' else 'crontime'], args, k), 'period')
        return I.truth(I.callm(pr, '__contains__', t))

    def scen(I):
        field = I.choose('field', list(FIELDS))
        expr = I.choose('expression', exprs(field))
        how = I.choose('given as', ['keywords', 'condition'])
        lo, hi, _ = FIELDS[field]
        w = W(I, INSIDE)
        ns = client(I, SRC)
        w.field, w.expr, w.how, w.res = field, expr, how, {}
        vals = range(lo, (6 if field == 'day_of_week' else hi) + 1)
        if not ctx.thorough and field in ('minute', 'hour', 'day_of_month'):
            keep = {x + d for x in read(field, expr) for d in (-1, 0, 1)} if len(read(field, expr)) < 8 else set(range(lo, lo + 9)) | set(range(hi - 8, hi + 1)) | set(range((lo + hi) // 2 - 3, (lo + hi) // 2 + 4))
            vals = [v for v in vals if v in keep]
        for v in vals:
            rep = at(field, v)
            w.rep = rep
            for n in w.PARTS:
                w.val['now.' + n] = rep.weekday() if n == 'weekday' else getattr(rep, n)
            w.res[v] = inside(I, w, ns, {field: expr}, how, w.dt)
        return w

    def judge(I, d):
        if d.raised:
            yield (d.loc, 'a cron expression raises %s%s' % (d.exc, short(d.exc.fields.get('args'))))
            return
        w = d.value
        exp = read(w.field, w.expr)
        bad = [v for v, got in w.res.items() if got != (v in exp)]
        if bad:
            yield ('rocketry/time/cron.py', '%s = "%s" (%s): a time whose %s is %d is %sin the period' % (
                w.field, w.expr, w.how, w.field, bad[0], '' if w.res[bad[0]] else 'not '))
    ctx.explore('fields', scen, judge, need=100)

    def together(I):
        w = W(I, INSIDE)
        ns = client(I, SRC)
        t = INSIDE
        kw, w.match = {}, {}
        for f, (lo, hi, names) in FIELDS.items():
            how = I.choose(f, ['any', 'matches', 'does not match'])
            v = value_of(t, f)
            if how != 'any':
                kw[f] = str(v) if how == 'matches' else str(v + 1)
            w.match[f] = how
        w.kw = kw
        w.how = I.choose('given as', ['keywords', 'positional', 'condition', 'condition with keywords', 'time condition'] if len(kw) in (2, 5) else ['keywords', 'condition'])
        w.got = inside(I, w, ns, kw, w.how, w.dt)
        return w

    def j_together(I, d):
        if d.raised:
            yield (d.loc, 'a cron expression raises %s%s' % (d.exc, short(d.exc.fields.get('args'))))
            return
        w = d.value
        m = w.match
        exp = all(m[f] != 'does not match' for f in ('minute', 'hour', 'month'))
        days = [m[f] for f in ('day_of_month', 'day_of_week') if m[f] != 'any']
        if days:
            exp = exp and 'matches' in days
        if w.got != exp:
            yield ('rocketry/time/cron.py', 'cron with %s (%s): the time %s is %sin the period' % (w.kw, w.how, w.rep, '' if w.got else 'not '))
    ctx.explore('fields together', together, j_together, need=200)

    DOM = {True: ['18', '3,18', '15-20', '16-20/2', '*/17'], False: ['19', '3,19', '19-22', '15-20/2', '*/2']}
    DOW = {True: ['4', 'Thu', '1,4', '3-5', 'Wed-Fri', '2-6/2', '*/3'], False: ['5', 'Fri', '1,5', '5-0', 'Fri-Sun', '1-5/2', '*/2']}

    def days(I):
        w = W(I, INSIDE)
        ns = client(I, SRC)
        assert (INSIDE.day, value_of(INSIDE, 'day_of_week')) == (18, 4)
        a, b = I.choose('the day of month matches', [False, True]), I.choose('the day of week matches', [False, True])
        w.kw = {'day_of_month': I.choose('day of month', DOM[a]), 'day_of_week': I.choose('day of week', DOW[b])}
        w.exp, w.how = a or b, 'keywords'
        w.got = inside(I, w, ns, w.kw, w.how, w.dt)
        return w

    def j_days(I, d):
        if d.raised:
            yield (d.loc, 'a cron expression raises %s%s' % (d.exc, short(d.exc.fields.get('args'))))
            return
        w = d.value
        if w.got != w.exp:
            yield ('rocketry/time/cron.py', 'cron with %s: the time %s is %sin the period' % (w.kw, w.rep, '' if w.got else 'not '))
    ctx.explore('days of month and of week', days, j_days, need=100)


MONTHS = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September', 'October', 'November', 'December']
US = datetime.timedelta(microseconds=1)


@rule('C42', 'Periods of month and year follow the calendar', 'Abstract interpretation (constant propagation over the classes of bounds, lengths of months and places of the time) against the calendar',
      'For periods of days of month and of months of year, with any bounds (given, open, over the turn of the month or year, a time point or a starting point), in months of every length, leap years and others, '
      'and times at, just before, between and after the bounds: the time is in the period exactly if its day (month) is; rolling forward gives the rest of the current or the whole next occurrence in the calendar, '
      'rolling back the elapsed part of the current or the whole previous one. Months too short for the period have none; nothing raises.')
def c42(ctx):
    SRC = 'from rocketry.time import TimeOfMonth, TimeOfYear\n'
    IV = 'rocketry/time/interval.py'
    D = datetime.datetime

    def first(y, m, n=0):
        m = m - 1 + n
        return D(y + m // 12, m % 12 + 1, 1)

    def point(y, m, day, n=0):
        """The start of the day of month m + n, or the end of the month if it is shorter."""
        a = first(y, m, n)
        return min(a + datetime.timedelta(days=day - 1), first(y, m, n + 1))

    def month_occurrences(a, b, over):
        for y in range(2018, 2031):
            for m in range(1, 13):
                l, r = point(y, m, a), point(y, m, b + 1, over)
                if l < r:
                    yield l, r

    def year_occurrences(a, b, over):
        for y in range(1990, 2110):
            l = point(y, a[0], a[1])
            r = point(y + over, b[0], b[1])
            if l < r:
                yield l, r

    def times(occ, at):
        """Times around the bounds of the occurrences that meet the window."""
        res = set()
        for l, r in occ:
            for x in (l, r):
                if at <= x < at + datetime.timedelta(days=32):
                    res |= {x - US, x, x + US}
        nxt = first(at.year, at.month, 1)
        res |= {at, at + datetime.timedelta(days=13, hours=7), nxt - US, nxt - datetime.timedelta(hours=30)}
        return sorted(res)

    def roll(I, w, pr, ts):
        w.got = []
        for t in ts:
            t = t.replace(tzinfo=w.tz)
            row = [t]
            for op in ('__contains__', 'rollforward', 'rollback'):
                try:
                    v = I.callm(pr, op, t)
                    row.append(I.truth(v) if op == '__contains__' else (I.getattr(v, 'left'), I.getattr(v, 'right')))
                except AbsRaise as e:
                    row.append('%s raises %s%s' % (op, getattr(e.exc.cls, 'name', e.exc.cls), short(e.exc.fields.get('args'))))
            w.got.append(row)
        return w

    def judge(I, d):
        if d.raised:
            yield (d.loc, 'a period raises %s%s' % (d.exc, short(d.exc.fields.get('args'))))
            return
        w = d.value

        def same(got, exp):
            return all(isinstance(g, D) and g.tzinfo == w.tz and abs(g.replace(tzinfo=None) - x) <= w.slack for g, x in zip(got, exp))
        for t, inside, fwd, back in w.got:
            what = '%s at %s' % (w.what, t)
            t = t.replace(tzinfo=None)
            bad = [x for x in (inside, fwd, back) if isinstance(x, str)]
            if bad:
                yield (IV, '%s: %s' % (what, bad[0]))
                return
            cur = [o for o in w.occ if o[0] <= t < o[1]]
            # the last microsecond of an occurrence may be left out where the bounds are months
            edge = w.slack and any(abs(t - o[1]) <= 2 * w.slack for o in w.occ)
            if edge:
                continue
            if inside != bool(cur):
                yield (IV, '%s: the time is in the period: %s' % (what, inside))
                return
            n = min((o for o in w.occ if o[1] > t), key=lambda o: o[1])
            f = (t, cur[0][1]) if cur else n
            if not same(fwd, f):
                yield (IV, '%s: rolling forward gives from %s to %s, expected from %s to %s' % ((what,) + fwd + f))
                return
            p = max((o for o in w.occ if o[0] <= t), key=lambda o: o[0])
            if w.full and t == p[0]:
                p = max((o for o in w.occ if o[0] < t), key=lambda o: o[0])
                b = (p[0], t)
            else:
                b = (p[0], t) if cur else p
            if not same(back, b):
                yield (IV, '%s: rolling back gives from %s to %s, expected from %s to %s' % ((what,) + back + b))
                return

    WINDOW = [D(2023, m, 1) for m in range(1, 13)] + [D(2022, 12, 1), D(2024, 1, 1), D(2024, 2, 1), D(2024, 3, 1)]

    def month(I):
        w = World()
        I.world = w
        ns = client(I, SRC)
        days = [None, 1, 15, 28, 29, 30, 31] if not ctx.thorough else [None, 1, 2, 14, 15, 27, 28, 29, 30, 31]
        form = I.choose('form', ['between', 'at', 'starting'])
        a = I.choose('first', days if form == 'between' else days[1:])
        b = I.choose('last', days) if form == 'between' else None
        spelled = I.choose('given as', ['number', 'text'])
        w.tz = datetime.timezone.utc if spelled == 'text' else None
        w.slack = datetime.timedelta()

        def spell(x):
            return x if x is None or spelled == 'number' else '%d%s' % (x, {1: 'st', 2: 'nd', 3: 'rd', 31: 'st'}.get(x, 'th'))
        s, e = a or 1, (a if form == 'at' else b or 31)
        if form == 'between':
            pr = I.call(ns['TimeOfMonth'], [spell(a), spell(b)] if a or b else [], {})
        else:
            pr = I.call(I.getattr(ns['TimeOfMonth'], form), [spell(a)], {})
        w.full = form == 'starting' or (s - 1) % 31 == e % 31
        if form == 'starting':
            e = s - 1
        w.occ = list(month_occurrences(s, e, 0 if s - 1 < e else 1))
        w.what = 'TimeOfMonth (%s) from %s to %s' % (form, spell(a), spell(b))
        ts = [t for x in (WINDOW if ctx.thorough else WINDOW[:4] + WINDOW[11:]) for t in times(w.occ, x)]
        if not ctx.thorough:
            ts = ts[::2] if spelled == 'text' else ts
        return roll(I, w, pr, ts)
    ctx.explore('days of month', month, judge, need=60, max_paths=400)

    def year(I):
        w = World()
        I.world = w
        ns = client(I, SRC)
        ms = [None, 1, 2, 3, 6, 12]
        form = I.choose('form', ['between', 'at', 'days'])
        w.slack = US
        w.tz = None
        if form == 'days':
            a, b, spelled = I.choose('bounds', [((2, 29), (3, 1)), ((2, 28), (3, 1)), ((1, 15), (2, 29)), ((11, 30), (2, 29)), ((12, 31), (1, 1)), ((3, 1), (2, 28)), ((4, 10), (4, 20))]), None, 'text'
            (s, e) = a
            args = ['%s %d' % (MONTHS[m - 1], d) for m, d in (s, e)]
            w.full = False
        else:
            a = I.choose('first', ms if form == 'between' else ms[1:])
            b = I.choose('last', ms) if form == 'between' else None
            spelled = I.choose('given as', ['number', 'text'])
            w.tz = datetime.timezone.utc if spelled == 'number' else None

            def spell(x):
                return x if x is None or spelled == 'number' else MONTHS[x - 1][:3 if x % 2 else None]
            args = [spell(a), spell(b)] if form == 'between' else [spell(a)]
            s, e = (a or 1, 1), ((a if form == 'at' else b or 12), 32)
            w.full = args == [None, None] or (a in (None, 1) and b is None and form == 'between')
        if form == 'at':
            pr = I.call(I.getattr(ns['TimeOfYear'], 'at'), args, {})
        else:
            pr = I.call(ns['TimeOfYear'], args if not args == [None, None] else [], {})
        w.occ = list(year_occurrences(s, e, 0 if s < e else 1))
        w.what = 'TimeOfYear (%s) %s' % (form, args)
        win = WINDOW if ctx.thorough else [WINDOW[i] for i in (0, 1, 2, 5, 11, 12, 13, 14)]
        ts = [t for x in win for t in times(w.occ, x)]
        if not ctx.thorough:
            ts = ts[::2] if spelled == 'text' and form != 'days' else ts
        return roll(I, w, pr, ts)
    ctx.explore('months of year', year, judge, need=60, max_paths=400)


@rule('C44', 'Cron expressions and combined periods roll to their nearest occurrences', 'Abstract interpretation (constant propagation over forms of cron expressions and pairs of cyclic periods) against a scan of the calendar',
      'For cron expressions with every combination of given fields and for intersections and (disjoint) unions of cyclic periods, at times in, just before, just after and far from an occurrence, also over the turn '
      'of hours, days, months and years: rolling back gives the elapsed part of the current or the whole previous occurrence, rolling forward the rest of the current or the whole next one.')
def c44(ctx):
    D, TD_ = datetime.datetime, datetime.timedelta
    WHERE = 'rocketry/core/time/base.py'
    ctx.I.MAX_DEPTH = 400

    def scan(inside, t, step):
        """The occurrences around t: ((start, end) of the elapsed or last one, (start, end) of the remaining or next one)."""
        m = t - TD_(seconds=(t - D(2000, 1, 1)).total_seconds() % step.total_seconds())
        m = m.replace(microsecond=0)
        n = 0
        f = m
        while not inside(f):
            f += step
            n += 1
            if n > 900000:
                return None
        e = f
        while inside(e):
            e += step
        b = m
        n = 0
        while not inside(b):
            b -= step
            n += 1
            if n > 900000:
                return None
        r = b + step
        while inside(b):
            b -= step
        return (b + step, min(t, r)), (max(f, t), e)

    def roll(I, pr, ts):
        out = []
        for t in ts:
            row = [t]
            for op in ('rollback', 'rollforward'):
                try:
                    v = I.callm(pr, op, t)
                    row.append((I.getattr(v, 'left'), I.getattr(v, 'right')))
                except AbsRaise as e:
                    row.append('raises %s%s' % (getattr(e.exc.cls, 'name', e.exc.cls), short(e.exc.fields.get('args'))))
                except Unsupported as e:
                    # the occurrences asked for are at most some tens of steps away
                    if 'call depth exceeded' not in str(e):
                        raise
                    row.append('does not end (recursion)')
            out.append(row)
            if any(isinstance(x, str) for x in row):
                break
        return out

    def judge(I, d):
        if d.raised:
            yield (d.loc, 'a period raises %s%s' % (d.exc, short(d.exc.fields.get('args'))))
            return
        w = d.value
        for t, back, fwd in w.got:
            exp = scan(w.inside, t.replace(tzinfo=None), w.step)
            if exp is None:
                continue
            for op, got, ex in (('back', back, exp[0]), ('forward', fwd, exp[1])):
                if isinstance(got, str):
                    yield (WHERE, '%s at %s: rolling %s %s' % (w.what, t, op, got))
                    return
                ok = all(isinstance(g, D) and g.tzinfo == t.tzinfo for g in got)
                if ok:
                    g = [x.replace(tzinfo=None) for x in got]
                    ok = g[0] == ex[0] and TD_() <= ex[1] - g[1] <= US
                if not ok:
                    yield (WHERE, '%s at %s: rolling %s gives from %s to %s, expected from %s to %s' % (w.what, t, op, got[0], got[1], ex[0], ex[1]))
                    return

    S = TD_(seconds=17)

    # ---- cron
    def values(field, expr):
        lo, hi, _ = FIELDS[field]
        res = set()
        for e in expr.split(','):
            e, _, st = e.partition('/')
            a, b = (lo, 6 if field == 'day_of_week' else hi) if e == '*' else (map(int, e.split('-')) if '-' in e else (int(e), int(e)))
            st = int(st or 1)
            res |= set(range(a, b + 1, st)) if a <= b else set(range(a, hi + 1)) | set(range(lo, b + 1))
        return {v % 7 for v in res} if field == 'day_of_week' else res

    CRONS = ['* * * * *', '30 * * * *', '*/20 * * * *', '5-10 * * * *', '0 * * * *', '59 * * * *', '15,45 * * * *', '58-2 * * * *',
             '* 6 * * *', '0 0 * * *', '59 23 * * *', '30 9-17 * * *', '0 */6 * * *', '10 22-2 * * *', '* 0 * * *', '* 23 * * *',
             '0 12 1 * *', '59 23 31 * *', '30 6 29 * *', '0 0 10-12 * *', '* * 15 * *',
             '0 12 * * 1', '30 23 * * 0', '0 0 * * 1-5', '15 10 * * 6,0', '* * * * 3',
             '0 0 1 1 *', '59 23 31 12 *', '0 6 * 2 *', '30 12 28 2 *', '* * * 6-8 *', '0 0 1 */3 *',
             '0 12 13 * 5', '30 9 1 1 1', '0 0 * 12 0', '5 4 10-20 3-5 2', '*/30 8,20 * * 1-5', '45 * 31 * *']

    def cron_(I):
        w = World()
        I.world = w
        ns = client(I, 'from rocketry.time import Cron\n')
        expr = I.choose('expression', CRONS)
        c = expr.split()
        pr = I.call(ns['Cron'], c, {})
        vals = {f: values(f, e) for f, e in zip(FIELDS, c)}

        def day(t):
            days = []
            if c[2] != '*':
                days.append(t.day in vals['day_of_month'])
            if c[4] != '*':
                days.append((t.weekday() + 1) % 7 in vals['day_of_week'])
            return t.month in vals['month'] and (not days or any(days))

        def nearest(t, step):
            """The nearest matching minute from t on in the direction (None: none in years)."""
            for _ in range(3000):
                if not day(t):
                    t = t.replace(hour=0, minute=0) + TD_(days=1) if step > 0 else t.replace(hour=23, minute=59) - TD_(days=1)
                    continue
                x = t
                while x.date() == t.date():
                    if x.minute in vals['minute'] and x.hour in vals['hour']:
                        return x
                    x += TD_(minutes=step)
                t = x
        # an occurrence of a cron expression is a minute
        w.nearest = nearest
        base = [D(2023, 5, 18, 9, 31), D(2023, 1, 1, 0, 0), D(2023, 12, 31, 23, 59), D(2024, 2, 29, 12, 0), D(2023, 3, 31, 23, 30), D(2023, 7, 9, 6, 5)]
        near = []
        for x in base[:3]:
            y = nearest(x, 1)
            if y is not None:
                near += [y, y - TD_(minutes=1), y + TD_(minutes=1)]
        ts = [x + S for x in base + near]
        tz = I.choose('timezone', [None, datetime.timezone.utc] if ctx.thorough else [None])
        w.got = roll(I, pr, [t.replace(tzinfo=tz) for t in ts])
        w.what = 'cron "%s"' % expr
        return w

    def j_cron(I, d):
        if not d.raised:
            w, m = d.value, TD_(minutes=1)
            for t, back, fwd in w.got:
                n = t.replace(tzinfo=None)
                x = n.replace(second=0, microsecond=0)
                b, f = w.nearest(x, -1), w.nearest(x, 1)
                for op, got, ex in (('back', back, (b, min(n, b + m))), ('forward', fwd, (max(f, n), f + m))):
                    if isinstance(got, str):
                        yield (WHERE, '%s at %s: rolling %s %s' % (w.what, t, op, got))
                        return
                    g = [y.replace(tzinfo=None) if isinstance(y, D) and y.tzinfo == t.tzinfo else None for y in got]
                    if g[0] != ex[0] or g[1] is None or not TD_() <= ex[1] - g[1] <= US:
                        yield (WHERE, '%s at %s: rolling %s gives from %s to %s, expected from %s to %s' % (w.what, t, op, got[0], got[1], ex[0], ex[1]))
                        return
        else:
            yield from judge(I, d)
    ctx.explore('cron expressions', cron_, j_cron, need=len(CRONS))

    # ---- combined cyclic periods
    def rng(get, a, b, closed=False):
        b = b + 1 if closed else b
        return (lambda t: a <= get(t) < b) if a < b else (lambda t: get(t) >= a or get(t) < b)
    hour, minute, day, wday = (lambda t: t.hour), (lambda t: t.minute), (lambda t: t.day), (lambda t: t.weekday())
    PARTS = {
        '10 to 14 o\'clock': ("TimeOfDay('10:00', '14:00')", rng(hour, 10, 14)),
        '12 to 16 o\'clock': ("TimeOfDay('12:00', '16:00')", rng(hour, 12, 16)),
        '22 to 2 o\'clock': ("TimeOfDay('22:00', '02:00')", rng(hour, 22, 2)),
        '16 to 18 o\'clock': ("TimeOfDay('16:00', '18:00')", rng(hour, 16, 18)),
        'Mon to Fri': ("TimeOfWeek('Mon', 'Fri')", rng(wday, 0, 4, True)),
        'Sat to Sun': ("TimeOfWeek('Sat', 'Sun')", rng(wday, 5, 6, True)),
        'Fri to Mon': ("TimeOfWeek('Fri', 'Mon')", rng(wday, 4, 0, True)),
        'Wed': ("TimeOfWeek.at('Wed')", rng(wday, 2, 2, True)),
        'days 1 to 15': ("TimeOfMonth(1, 15)", rng(day, 1, 15, True)),
        'days 28 to 3': ("TimeOfMonth(28, 3)", rng(day, 28, 3, True)),
        'first half hour': ("TimeOfHour('00:00', '30:00')", rng(minute, 0, 30)),
        'last quarter': ("TimeOfHour('45:00', None)", rng(minute, 45, 60)),
        'around the hour': ("TimeOfHour('50:00', '10:00')", rng(minute, 50, 10)),
    }
    NAMES = list(PARTS)
    PARTS['middle of the hour'] = ("TimeOfHour('20:00', '40:00')", rng(minute, 20, 40))
    ANY = [('10 to 14 o\'clock', '16 to 18 o\'clock'), ('22 to 2 o\'clock', '12 to 16 o\'clock'), ('Sat to Sun', 'Wed'), ('around the hour', 'middle of the hour'),
           ('16 to 18 o\'clock', '22 to 2 o\'clock', '10 to 14 o\'clock'), ('Wed', 'Fri to Mon')]
    DISJOINT = {frozenset(x) for x in (('10 to 14 o\'clock', '22 to 2 o\'clock'), ('12 to 16 o\'clock', '22 to 2 o\'clock'), ('16 to 18 o\'clock', '22 to 2 o\'clock'),
                                       ('10 to 14 o\'clock', '16 to 18 o\'clock'), ('12 to 16 o\'clock', '16 to 18 o\'clock'), ('Mon to Fri', 'Sat to Sun'), ('Sat to Sun', 'Wed'),
                                       ('Fri to Mon', 'Wed'), ('first half hour', 'last quarter'))}
    PAIRS = [(a, b) for a in NAMES for b in NAMES if a < b and frozenset((a, b)) not in DISJOINT]
    TRIPLES = [('10 to 14 o\'clock', 'Mon to Fri', 'first half hour'), ('days 1 to 15', 'Sat to Sun', '22 to 2 o\'clock'), ('around the hour', '10 to 14 o\'clock', '12 to 16 o\'clock'),
               ('days 28 to 3', 'Mon to Fri', '16 to 18 o\'clock')]

    def combo(I):
        w = World()
        I.world = w
        op = I.choose('combination', ['&', '|'])
        parts = I.choose('parts', PAIRS + TRIPLES if op == '&' else ANY)
        if I.choose('order', ['given', 'reversed']) == 'reversed':
            parts = parts[::-1]
        ns = client(I, 'from rocketry.time import TimeOfDay, TimeOfWeek, TimeOfMonth, TimeOfHour\nperiod = ' + (' %s ' % op).join(PARTS[p][0] for p in parts) + '\n')
        comb = all if op == '&' else any
        w.inside = lambda t: comb(PARTS[p][1](t) for p in parts)
        w.step = TD_(minutes=5)
        w.what = (' and ' if op == '&' else ' or ').join(parts)
        base = [D(2023, 5, 18, 9, 30), D(2023, 1, 1, 0, 0), D(2023, 12, 31, 23, 55), D(2024, 2, 29, 12, 0), D(2023, 7, 9, 6, 5), D(2023, 8, 2, 11, 55)]
        near = []
        for x in base[:3]:
            r = scan(w.inside, x + S, w.step)
            if r is not None:
                near += [r[1][0] - TD_(minutes=1), r[1][0] + TD_(minutes=1), r[1][1] - TD_(minutes=1), r[1][1] + TD_(minutes=1), r[0][0] + TD_(minutes=1), r[0][0] - TD_(minutes=1)]
        ts = base + near if ctx.thorough else base[:4] + near[::2]
        w.got = roll(I, ns['period'], [t + S for t in ts])
        return w
    ctx.explore('combined periods', combo, judge, need=100)
