"""Conditions: boolean algebra, comparisons, log based conditions."""
import itertools
from ..framework import rule
from ..interp import short
from ..model import *
from .scheduling import boot, ready, BOOL

T = 'Path-sensitive abstract interpretation'
# what the conditions on the log of a task do not depend on
IRRELEVANT = ('permanent', 'force_run', 'daemon', 'priority', 'disabled', 'description', 'on_startup', 'on_shutdown', 'multilaunch', '_main_alive')
CT = 'rocketry.conditions.task.task.'

CLIENT_PERIOD = '''
from rocketry.core.time.base import TimePeriod
from rocketry.pybox.time.interval import Interval

class ClientPeriod(TimePeriod):
    "A period whose latest occurrence is from S to E"
    def rollback(self, dt):
        return Interval(_S(dt), _E(dt), closed=_closed())
    def rollforward(self, dt):
        return Interval(_S(dt), _E(dt), closed=_closed())
    def __contains__(self, dt):
        return _inside(dt)
'''


class CondW(Sched):
    """A session whose log, clock and periods are symbolic points of time with a chosen order."""
    datetimes = True
    in_period = None

    def __init__(self, I, **c):
        self.rank = {'S': 10, 'E': 20, 'now': 30, 'now2': 30}
        Sched.__init__(self, I, **c)
        self.outcomes = ('return',)
        self.end_cond = None
        base = I.order

        def order(d):
            if abs(d.const) < 1e6 and d.co and all(k in self.rank for k in d.co) and sum(d.co.values()) == 0:
                v = sum(c * self.rank[k] for k, c in d.co.items()) + d.const
                return (v > 0) - (v < 0)
            if len(d.co) == 1 and list(d.co)[0] in self.rank and (abs(d.const) < 1e6 or abs(d.const) > 5e9):
                # every point of time is after the smallest and before the largest representable one
                (c,) = d.co.values()
                return c if abs(d.const) < 1e6 else -c
            return base(d)
        I.order = order

    def now(self, I):
        return Lin.sym('now')

    def floor(self, I, lin):
        """The whole second of a time: the time itself or before everything else there is."""
        if I.choose('times are whole seconds', [False, True]):
            return lin
        k = ('second of', lin.key())
        self.rank[k] = 0.5
        return Lin.sym(k)

    def boot_clock(self):
        self.clock.read = lambda I: self.now(I)

    def period(self):
        I = self.I
        if not hasattr(self, 'pns'):
            def at(n):
                def bound(I, a, k):
                    I.event('bound', at=I.force(a[0]))
                    return DT(Lin.sym(n), I.getattr(a[0], 'tzinfo'))
                return Builtin('_' + n, bound)

            def inside(I, a, k):
                I.event('inside', at=a[0])
                return self.in_period if self.in_period is not None else I.choose('now in period', BOOL)
            self.pns = client(I, CLIENT_PERIOD, {'_S': at('S'), '_E': at('E'), '_inside': Builtin('_inside', inside),
                                                 '_closed': Builtin('_closed', lambda I, a, k: self.closed)}, name='__client_period__')
        return I.call(self.pns['ClientPeriod'], [], {})

    closed = 'left'
    POS = [('before', 5), ('at the start', 10), ('inside', 15), ('at the end', 20), ('after', 25)]

    def rec(self, i, action, pos, task='a', run_id=None):
        n = 'r%d' % i
        base = dict(self.POS)[pos] if isinstance(pos, str) else pos
        self.rank[n] = base if base in (10, 20) else base + i * 0.1
        r = {'action': action, 'task_name': task, 'created': Lin.sym(n), 'pos': pos}
        if run_id is not None:
            r['run_id'] = run_id
        return r


def default_session(I, w, **conf):
    """Another session is the default one of the package."""
    o = I.call(w.ns['Session'], [], {'config': ADict(dict(conf))})
    I.callm(o, 'set_as_default')
    return o


def observe(I, cond, task, w):
    return I.force(I.callm(cond, 'observe', task=task, session=w.session))


VALS = [(op, v) for op in ('eq', 'ne', 'lt', 'gt', 'le', 'ge') for v in (0, 1)] + [('eq', 2), ('ge', 2), ('lt', 2)]
COMPS = {'eq': lambda n, v: n == v, 'ne': lambda n, v: n != v, 'lt': lambda n, v: n < v,
         'gt': lambda n, v: n > v, 'le': lambda n, v: n <= v, 'ge': lambda n, v: n >= v}


def comp(I, cond, op, val):
    return I.callm(cond, '__%s__' % op, val)


# ---------------------------------------------------------------------------------------------- C17
STATUS = [('TaskStarted', ['run']), ('TaskFailed', ['fail']), ('TaskSucceeded', ['success']), ('TaskTerminated', ['terminate']),
          ('TaskInacted', ['inaction']), ('TaskFinished', ['success', 'fail', 'terminate'])]


@rule('C17', 'Task status conditions say what the task log says', T + ' over all orders of log records and period bounds',
      'For every log history (up to two records of the task in every order relative to the bounds of the period, plus a record of another task) and every '
      'comparison, each status condition observed for a task is true iff the number of records of its action(s) of that task within the period satisfies the '
      'comparison - with the cached last-action times and when the session is configured to read the log; is-running equals the number of live runs started in the period.')
def c17(ctx):
    acts = ['run', 'fail', 'success', 'terminate', 'inaction', 'crash']

    def scen(I, n, acts, named, tz=None):
        w = CondW(I, force_status_from_logs=Choice('force_status_from_logs', BOOL), timezone=tz)
        w.boot_clock()
        forced = I.force(Choice('force_status_from_logs', BOOL))
        w.forced = forced
        default_session(I, w, force_status_from_logs=not forced)
        hist = []
        lo = 0
        for i in range(n):
            a = I.choose(('record', i), acts)
            pos = [p for p, r in w.POS if r >= lo]
            p = I.choose(('time of record', i), pos)
            lo = dict(w.POS)[p]
            hist.append(w.rec(i, a, p))
        hist.insert(0, w.rec(8, 'success', 'inside', 'b'))
        hist.insert(0, w.rec(7, 'fail', 'inside', 'b'))
        w.hist = hist
        w.t = w.task('a', execution='main')
        w.u = w.task('b', execution='main')
        if forced:
            # the cached times are outdated
            I.await_(I.callm(w.scheduler, 'startup'))
            w.history = hist
        else:
            w.history = hist
            I.await_(I.callm(w.scheduler, 'startup'))
        if named == 'named':
            kw, obs = {'task': 'a'}, w.u
        elif named == 'task':
            kw, obs = {'task': w.t}, w.u
        else:
            kw, obs = {}, w.t
        free(I, w, [w.t, w.u], IRRELEVANT, ('multilaunch', 'silence_cond_check'))
        per = w.period()
        w.out = []
        for cname, ca in STATUS:
            if n and (named or tz or n == 2) and not any(r['action'] in ca for r in hist if r['task_name'] == 'a') and cname != 'TaskFinished':
                continue
            cls = I.get(CT + cname)
            cnt = sum(1 for r in hist if r['task_name'] == 'a' and r['action'] in ca and r['pos'] in ('at the start', 'inside', 'at the end'))
            c0 = I.call(cls, [], dict(kw, period=per))
            w.out.append((cname, 'has happened', observe(I, c0, obs, w), cnt > 0, cnt))
            match = any(r['action'] in ca for r in hist if r['task_name'] == 'a')
            for op, v in VALS if match and ((not tz and not named) or ctx.thorough) else VALS[::5]:
                c = comp(I, c0, op, v)
                w.out.append((cname, '%s %d' % (op, v), observe(I, c, obs, w), COMPS[op](cnt, v), cnt))
            if n < 2 and not named:
                cnt = sum(1 for r in hist if r['task_name'] == 'a' and r['action'] in ca)
                c0 = I.call(cls, [], dict(kw))
                w.out.append((cname, 'has happened (no period)', observe(I, c0, obs, w), cnt > 0, cnt))
                c = comp(I, comp(I, c0, 'ge', 1), 'lt', 2)
                w.out.append((cname, 'ge 1 and lt 2 (no period)', observe(I, c, obs, w), 1 <= cnt < 2, cnt))
        return w

    def judge(I, d):
        w = d.world
        if d.raised:
            yield (d.loc, 'observing a status condition raises %s%s' % (d.exc, short(d.exc.fields.get('args'))))
            return
        for cname, what, got, exp, cnt in w.out:
            if got is not exp and (not isinstance(got, bool) or got != exp):
                yield ('rocketry/conditions/task/utils.py, ' + CT + cname, '%s "%s" is %s when the log has %d matching record(s) in the period: %s%s' % (
                    cname, what, short(got), cnt, [(r['action'], r['pos']) for r in w.hist if r['task_name'] == 'a'],
                    ', reading the log is configured' if w.forced else ''))

    ctx.explore('histories of up to one record', lambda I: scen(I, I.choose('records', [0, 1]), acts, ''), judge, need=50)
    ctx.explore('condition about a named task', lambda I: scen(I, 1, acts, 'named'), judge, need=50)
    ctx.explore('condition about a given task', lambda I: scen(I, 1, ['success', 'run'], 'task'), judge, need=10)
    two = acts if ctx.thorough else ['success', 'fail']
    ctx.explore('histories of two records', lambda I: scen(I, 2, two, ''), judge, need=100)
    import datetime
    ctx.explore('session with a timezone', lambda I: scen(I, 1, acts, '', datetime.timezone.utc), judge, need=50)

    # ------------------------------------------------ several comparisons
    def scen_pairs(I):
        w = CondW(I, force_status_from_logs=Choice('force_status_from_logs', BOOL))
        w.boot_clock()
        w.forced = I.force(Choice('force_status_from_logs', BOOL))
        pos = I.choose('time of record', ['none', 'before', 'inside', 'after'])
        cname, ca = I.choose('condition', [STATUS[2], STATUS[5]])
        w.hist = [] if pos == 'none' else [w.rec(0, 'success', pos)]
        w.history = w.hist
        w.t = w.task('a', execution='main')
        I.await_(I.callm(w.scheduler, 'startup'))
        cnt = int(pos == 'inside')
        c0 = I.call(I.get(CT + cname), [], {'period': w.period()})
        w.out = []
        for op, v in itertools.product(COMPS, (0, 1, 0.5, 1.5)):
            c = comp(I, c0, op, v)
            w.out.append((cname, '%s %s' % (op, v), observe(I, c, w.t, w), COMPS[op](cnt, v), cnt))
            for op2, v2 in itertools.product(COMPS, (0, 1)):
                if op2 > op and v in (0, 1):
                    w.out.append((cname, '%s %s and %s %s' % (op, v, op2, v2), observe(I, comp(I, c, op2, v2), w.t, w), COMPS[op](cnt, v) and COMPS[op2](cnt, v2), cnt))
        return w
    ctx.explore('several comparisons', scen_pairs, judge, need=16)

    # ------------------------------------------------ tasks started by status conditions
    def scen_self(I):
        w = CondW(I, force_status_from_logs=Choice('force_status_from_logs', BOOL))
        w.boot_clock()
        w.forced = I.force(Choice('force_status_from_logs', BOOL))
        pos = I.choose('time of record', [p for p, _ in w.POS])
        act = I.choose('record', ['success', 'fail'])
        how = I.choose('start condition', ['own success', 'other success', 'own finish', 'both', 'not started yet'])
        w.how = how
        per = w.period()
        w.history = [w.rec(0, act, pos)]
        w.hist = w.history
        S, F = I.get(CT + 'TaskSucceeded'), I.get(CT + 'TaskFinished')
        w.u = w.task('b', execution='main')
        limited = False
        if how == 'own success':
            c, limited = I.call(S, [], {'period': per}), True
        elif how == 'own finish':
            c, limited = I.call(F, [], {'period': per, 'task': 'a'}), True
        elif how == 'other success':
            c = I.call(S, [], {'period': per, 'task': 'b'})
        elif how == 'both':
            c = I.callm(I.call(F, [], {'task': 'b'}), '__and__', I.call(F, [], {}))
        else:
            c = I.call(S, [], {'period': per, 'task': 'missing'})
        w.t = w.task('a', execution='main', start_cond=c, disabled=True)
        I.await_(I.callm(w.scheduler, 'startup'))
        w.out = []
        for cname, ca in STATUS:
            if ca != ['success'] and ca != ['fail']:
                continue
            cnt = sum(1 for r in w.history if r['action'] in ca and (not limited or pos in ('at the start', 'inside', 'at the end')))
            for kw, obs in (({}, w.t), ({'task': 'a'}, w.u)):
                c0 = I.call(I.get(CT + cname), [], dict(kw))
                w.out.append((cname, 'has happened (start condition: %s)' % how, observe(I, c0, obs, w), cnt > 0, cnt))
                w.out.append((cname, 'le 0 (start condition: %s)' % how, observe(I, comp(I, c0, 'le', 0), obs, w), cnt <= 0, cnt))
        return w
    ctx.explore('tasks started by status conditions', scen_self, judge, need=20)

    # ------------------------------------------------ is running
    def scen_run(I):
        import datetime
        tz = I.choose('timezone', [None, datetime.timezone.utc])
        w = CondW(I, force_status_from_logs=False, timezone=tz)
        w.boot_clock()
        w.max_obs = 0
        default_session(I, w, force_status_from_logs=True)
        mode = I.choose('execution', ['thread', 'process'])
        w.t = w.task('a', execution=mode, multilaunch=True)
        w.u = w.task('b', execution='main')
        w.exp = []
        w.tz = tz
        n = I.choose('runs', [0, 1, 2])
        w.runs_at = []
        ready(I, w)
        for i in range(n):
            p = I.choose(('start of run', i), [p for p, _ in w.POS] if n == 1 or ctx.thorough else ['before', 'inside'])
            dead = I.choose(('run has ended', i), [False, True])
            nm = 'r%d' % i
            w.rank[nm] = dict(w.POS)[p]
            w.now = lambda I, nm=nm: Lin.sym(nm)
            I.callm(w.t, 'run')
            I.memo[('cond', 'start:a')] = False
            I.memo[('cond', 'start:b')] = False
            w.cycle()
            if len(w.runs) != i + 1:
                raise PathAbort('run not started')
            w.runs[i].data['dead' if dead else 'stuck'] = True
            w.runs_at.append((p, not dead))
        w.now = lambda I: Lin.sym('now')
        free(I, w, [w.t, w.u], IRRELEVANT, ('multilaunch', 'silence_cond_check'))
        w.out = []
        per = w.period()
        # running for more (less) than some time: the period starts 20 s and ends 10 s before now
        I.callm(w.session, 'set_as_default')
        api = I.get('rocketry.conditions.api.running')
        at = lambda p: dict(w.POS)[p]
        for what, meth, args, inp in (('running more than 10 s', 'more_than', ['10 seconds'], lambda p: at(p) <= 20), ('running less than 20 s', 'less_than', ['20 seconds'], lambda p: at(p) >= 10),
                                      ('running between 10 and 20 s', 'between', ['10 seconds', '20 seconds'], lambda p: 10 <= at(p) <= 20), ('running', None, [], lambda p: True)):
            n = sum(1 for p, alive in w.runs_at if alive and inp(p))
            for named in (False, True):
                a = I.call(api, ['a'], {}) if named else api
                c = I.callm(a, meth, *args) if meth else a
                w.out.append((what + (' (named)' if named else ''), observe(I, c, w.u if named else w.t, w), n > 0, n, per))
        for pd in (per, None):
            n = sum(1 for p, alive in w.runs_at if alive and (pd is None or p in ('at the start', 'inside', 'at the end')))
            for kw, obs in (({}, w.t), ({'task': 'a'}, w.u)):
                c0 = I.call(I.get(CT + 'TaskRunning'), [], dict(kw, period=pd))
                w.out.append(('is running', observe(I, c0, obs, w), n > 0, n, pd))
                for op, v in VALS if not kw or ctx.thorough else VALS[::4]:
                    w.out.append(('running %s %d' % (op, v), observe(I, comp(I, c0, op, v), obs, w), COMPS[op](n, v), n, pd))
        return w

    def judge_run(I, d):
        w = d.world
        if d.raised:
            yield (d.loc, 'observing whether a task is running raises %s%s (session timezone: %s)' % (d.exc, short(d.exc.fields.get('args')), w.tz))
            return
        for what, got, exp, n, pd in w.out:
            if got is not exp:
                yield (CT + 'TaskRunning', '"%s" is %s when %d run(s) started in the period are alive; runs (start, alive): %s' % (what, short(got), n, w.runs_at))
    ctx.explore('live runs', scen_run, judge_run, need=20)

    def scen_log(I):
        w = CondW(I, force_status_from_logs=True)
        w.boot_clock()
        default_session(I, w, force_status_from_logs=False)
        w.t = w.task('a', execution='main')
        w.u = w.task('b', execution='main')
        h = []
        n = 0
        k = I.choose('runs', [0, 1, 2])
        order = I.choose('order', ['one after another', 'overlapping']) if k == 2 else 'one after another'
        runs, ends = [], []
        for i in range(k):
            runs.append(('run', i))
            e = I.choose(('outcome', i), ['none', 'success', 'fail', 'terminate', 'inaction', 'crash'])
            if e == 'none':
                n += 1
            else:
                ends.append((e, i))
        ids = I.choose('the log has run ids', [True, False])
        seq = runs + ends if order == 'overlapping' else sorted(runs + ends, key=lambda x: (x[1], x[0] != 'run'))
        same = k == 1 and I.choose('the run ends at the instant it starts', [False, True])
        for i, (a, r) in enumerate(seq):
            h.append(w.rec(0 if same else i, a, 15, run_id='id%d' % r if ids else None))
        h.append(w.rec(9, 'run', 15, task='b', run_id='other' if ids else None))
        w.history = h
        w.seq = seq
        w.out = []
        per = w.period()
        for pd in (None, per):
            c0 = I.call(I.get(CT + 'TaskRunning'), [], {'period': pd})
            w.out.append(('is running', observe(I, c0, w.t, w), n > 0, n))
            for op, v in VALS if pd is None else VALS[::4]:
                w.out.append(('running %s %d' % (op, v), observe(I, comp(I, c0, op, v), w.t, w), COMPS[op](n, v), n))
        return w

    def judge_log(I, d):
        w = d.world
        if d.raised:
            yield (d.loc, 'observing whether a task is running raises %s' % d.exc)
            return
        for what, got, exp, n in w.out:
            if got is not exp:
                yield (CT + 'TaskRunning', '"%s" is %s when %d run(s) in the log have no outcome: %s' % (what, short(got), n, w.seq))
    ctx.explore('runs in the log', scen_log, judge_log, need=20)


# ---------------------------------------------------------------------------------------------- C15
CLIENT_LEAF = '''
from rocketry.core.condition import BaseCondition
from rocketry.args import Task, Session
class Leaf(BaseCondition):
    def __init__(self, label):
        self.label = label
    def get_state(self, task=Task(), session=Session()):
        return _leaf(self, task, session)
'''


def trees():
    """Expressions over the conditions x, y, z: (source, value function)."""
    ops = {'&': lambda a, b: a and b, '|': lambda a, b: a or b}
    leaf = lambda n: ((n, lambda v: v[n]), ('~' + n, lambda v: not v[n]))
    out = []
    for lx in leaf('x'):
        for ly in leaf('y'):
            for o1, f1 in ops.items():
                s2 = '(%s %s %s)' % (lx[0], o1, ly[0])
                g2 = lambda v, f1=f1, lx=lx, ly=ly: f1(lx[1](v), ly[1](v))
                for neg in ('', '~'):
                    gn = g2 if not neg else (lambda v, g2=g2: not g2(v))
                    out.append((neg + s2, gn))
                    for o2, f2 in ops.items():
                        out.append(('(%s%s %s z)' % (neg, s2, o2), lambda v, gn=gn, f2=f2: f2(gn(v), v['z'])))
                        out.append(('(z %s %s%s)' % (o2, neg, s2), lambda v, gn=gn, f2=f2: f2(v['z'], gn(v))))
                        out.append(('~(z %s %s%s)' % (o2, neg, s2), lambda v, gn=gn, f2=f2: not f2(v['z'], gn(v))))
    xyz = [lambda v: v['x'], lambda v: v['y'], lambda v: v['z']]
    out += [('All(x, y, z)', lambda v: all(f(v) for f in xyz)), ('Any(x, y, z)', lambda v: any(f(v) for f in xyz)),
            ('All(Any(x, y), z)', lambda v: (v['x'] or v['y']) and v['z']), ('Any(All(x, y), z)', lambda v: (v['x'] and v['y']) or v['z']),
            ('Any(All(x, y), All(y, z))', lambda v: (v['x'] and v['y']) or (v['y'] and v['z'])),
            ('All(Any(x, y), Any(y, z))', lambda v: (v['x'] or v['y']) and (v['y'] or v['z'])),
            ('~~x', lambda v: v['x']), ('~~(x & y)', lambda v: v['x'] and v['y']), ('Not(Not(x))', lambda v: v['x']),
            ('(x & y) & (y & z)', lambda v: v['x'] and v['y'] and v['z']), ('(x | y) | (y | z)', lambda v: v['x'] or v['y'] or v['z']),
            ('(x & y) | (y & z)', lambda v: (v['x'] and v['y']) or (v['y'] and v['z'])),
            ('(x | y) & (y | z)', lambda v: (v['x'] or v['y']) and (v['y'] or v['z'])),
            ('true & x', lambda v: v['x']), ('false | x', lambda v: v['x']), ('false & x', lambda v: False), ('x | true', lambda v: True),
            ('true | x', lambda v: True), ('x | false', lambda v: v['x']), ('x & true', lambda v: v['x']), ('x & false', lambda v: False),
            ('true & false', lambda v: False), ('false | true', lambda v: True), ('~(x | false)', lambda v: not v['x']), ('(x & true) | y', lambda v: v['x'] or v['y']),
            ('~Not(Not(x))', lambda v: not v['x']), ('~~~x', lambda v: not v['x']), ('Not(~Not(~x))', lambda v: v['x']), ('~~~~(x | y)', lambda v: v['x'] or v['y']),
            ('x & x', lambda v: v['x']), ('x | x', lambda v: v['x']), ('x & ~x', lambda v: False), ('x | ~x', lambda v: True), ('All(x, y, x, z)', lambda v: all(f(v) for f in xyz)),
            ('All(x, All(y, Any(z, ~x)), ~z)', lambda v: v['x'] and v['y'] and (v['z'] or not v['x']) and not v['z']),
            ('Any(x, Any(y, All(z, ~x)), ~z)', lambda v: v['x'] or v['y'] or (v['z'] and not v['x']) or not v['z']),
            ('~All(x, y, z)', lambda v: not all(f(v) for f in xyz)), ('~Any(x, y, z)', lambda v: not any(f(v) for f in xyz)),
            ('x & y & z & ~x', lambda v: False), ('~x | ~y | ~z', lambda v: not all(f(v) for f in xyz)), ('~x & ~y & ~z', lambda v: not any(f(v) for f in xyz)),
            ('~true | x', lambda v: v['x']), ('x & ~false', lambda v: v['x']), ('All(x)', lambda v: v['x']), ('Any(x)', lambda v: v['x'])]
    return out


@rule('C15', 'Conditions combine as boolean logic', T + ' of all expression shapes over three conditions',
      'For every expression over three conditions built with &, |, ~, All, Any and Not (two levels deep, with shared parts) and every value of the conditions, '
      'observing the expression gives the boolean value of the expression, hands the observed task and session to every condition it asks, and building '
      'further expressions from a condition does not change it.')
def c15(ctx):
    TR = trees()

    def scen(I):
        w = CondW(I)
        w.boot_clock()
        w.t = w.task('a', execution='main')
        default_session(I, w)
        leaf = client(I, CLIENT_LEAF, {'_leaf': Builtin('_leaf', lambda I, a, k: obs(w, I, *a))}, name='__client_leaf__')['Leaf']
        ns = {n: I.call(leaf, [n], {}) for n in 'xyz'}
        src = 'from rocketry.core.condition.base import All, Any, Not, AlwaysTrue, AlwaysFalse\ntrue = AlwaysTrue()\nfalse = AlwaysFalse()\n'
        src += '\n'.join('e%d = %s' % (i, s) for i, (s, _) in enumerate(TR))
        # expressions reuse parts of each other
        src += '\nshared = x & y\nshared_or = x | y\nused1 = shared & z\nused2 = shared | z\nused3 = ~shared\nused4 = z & shared\nused5 = All(shared, z)'
        src += '\nused6 = shared_or | z\nused7 = z | shared_or\nused8 = Any(shared_or, z)\nused9 = shared_or & z\n'
        w.exp = client(I, src, ns, name='__client_expr__')
        w.v = {n: I.choose(('value of', n), BOOL) for n in 'xyz'}
        w.kind = I.choose('the parts give', ['booleans', 'numbers', 'None or text'])
        for n in 'xyz':
            I.memo[('cond', n)] = {'booleans': w.v[n], 'numbers': 2 if w.v[n] else 0, 'None or text': 'yes' if w.v[n] else None}[w.kind]
        I.trace.clear()
        w.out = []
        for i, (s, f) in enumerate(TR + [('shared', lambda v: v['x'] and v['y']), ('shared_or', lambda v: v['x'] or v['y'])]):
            c = w.exp['e%d' % i] if i < len(TR) else w.exp[s]
            w.out.append((s, observe(I, c, w.t, w), f(w.v)))
        return w

    def judge(I, d):
        w = d.world
        if d.raised:
            yield (d.loc, 'observing a combined condition raises %s%s' % (d.exc, short(d.exc.fields.get('args'))))
            return
        for s, got, exp in w.out:
            if got is not exp and (w.kind == 'booleans' or I.truth(got) != exp):
                yield ('rocketry/core/condition/base.py', '%s is %s for %s' % (s, short(got), w.v))
        for e in I.trace:
            if e.kind == 'observe' and (e.get('task') is not w.t or e.get('session') is not w.session):
                yield (e.loc, 'a part of a combined condition is observed for task %s and session %s instead of the observed ones' % (short(e.get('task')), short(e.get('session'))))
                break

    def obs(self, I, cond, task, session):
        lab = cond.fields['label']
        v = I.choose(('cond', lab), [True, False, 0, 2, None, 'yes'])
        I.event('observe', cond=lab, value=v, task=task, session=session)
        return v
    ctx.explore('expressions', scen, judge, need=8)

    # ------------------------------------------------ the conditions of the package as parts
    def scen_lib(I):
        w = CondW(I)
        w.kind = 'booleans'
        w.boot_clock()
        w.t, w.u = w.task('a', execution='main'), w.task('b', execution='main')
        ka, kb = I.choose('successes of a', [0, 1, 2]), I.choose('b succeeded', BOOL)
        env, inp = I.choose('env', ['prod', 'dev']), I.choose('now in period', BOOL)
        w.in_period = inp
        w.history = [w.rec(i, 'success', 'inside') for i in range(ka)] + ([w.rec(5, 'success', 'inside', 'b')] if kb else [])
        I.await_(I.callm(w.scheduler, 'startup'))
        I.callm(I.getattr(w.session, 'parameters'), '__setitem__', 'env', env)
        S, per = I.get(CT + 'TaskSucceeded'), w.period()
        parts = {'own': (I.call(S, [], {'period': per}), ka > 0), 'other': (I.call(S, [], {'period': per, 'task': 'b'}), kb),
                 'twice': (comp(I, I.call(S, [], {'period': per}), 'ge', 2), ka >= 2), 'never': (comp(I, I.call(S, [], {}), 'eq', 0), ka == 0),
                 'prod': (I.call(I.get('rocketry.conditions.parameter.IsEnv'), ['prod'], {}), env == 'prod'),
                 'dev': (I.call(I.get('rocketry.conditions.parameter.IsEnv'), ['dev'], {}), env == 'dev'),
                 'now': (I.call(I.get('rocketry.conditions.time.IsPeriod'), [], {'period': per}), inp),
                 'started': (I.call(I.get('rocketry.conditions.api.started'), ['b'], {}), False),
                 'succeeded': (I.call(I.get('rocketry.conditions.api.succeeded'), ['b'], {}), kb)}
        w.v = {n: v for n, (_, v) in parts.items()}
        C = 'rocketry.core.condition.base.'
        w.out = []
        for m, n in itertools.permutations(parts, 2):
            (c, x), (d, y) = parts[m], parts[n]
            w.out.append(('%s & %s' % (m, n), observe(I, I.callm(c, '__and__', d), w.t, w), x and y))
            w.out.append(('%s | %s' % (m, n), observe(I, I.callm(c, '__or__', d), w.t, w), x or y))
            w.out.append(('~(%s & ~%s)' % (m, n), observe(I, I.callm(I.callm(c, '__and__', I.callm(d, '__invert__')), '__invert__'), w.t, w), not (x and not y)))
        for f, g in (('All', all), ('Any', any)):
            for names in (list(parts), list(parts)[::-1], list(parts)[::2], list(parts)[1::2]):
                w.out.append(('%s(%s)' % (f, ', '.join(names)), observe(I, I.call(I.get(C + f), [parts[n][0] for n in names], {}), w.t, w), g(parts[n][1] for n in names)))
        return w
    ctx.explore('conditions of the package combined', scen_lib, judge, need=20)


# ---------------------------------------------------------------------------------------------- C16
COMPARABLE = '''
from rocketry.core.condition.base import BaseComparable
class Measured(BaseComparable):
    def get_measurement(self):
        return _measure()
'''


@rule('C16', 'Comparing a condition yields a new condition with that meaning', T + ' over all comparisons and measurements',
      'For each measurement (a number or a sequence) and each comparison or pair of comparisons, the compared condition is true iff the measurement satisfies all of '
      'them, an uncompared condition iff the measurement is positive, and the condition compared from keeps its own meaning (conditions derived from one condition are independent).')
def c16(ctx):
    def scen(I, what):
        w = CondW(I)
        w.boot_clock()
        w.t = w.task('a', execution='main')
        w.n = I.choose('measurement', [0, 1, 2, 3] + ([-1, 0.5, 1.5] if what == 'number' else []))
        w.what = what
        if what == 'cycles':
            w.scheduler.fields['n_cycles'] = w.n
            cls = I.get('rocketry.conditions.scheduler.SchedulerCycles')
            mk = lambda: I.call(cls, [], {})
        else:
            def measure(I, a, k):
                return w.n if what == 'number' else AList([Sym(('m', i), meta={'notnone': True}) for i in range(w.n)])
            cls = client(I, COMPARABLE, {'_measure': Builtin('_measure', measure)}, name='__client_cmp__')['Measured']
            mk = lambda: I.call(cls, [], {})
        w.out = []
        base = mk()
        made = []
        for op, f in COMPS.items():
            for v in (0, 1, 2, 0.5, 1.5):
                c = comp(I, base, op, v)
                made.append((c, 'c %s %d' % (op, v), f(w.n, v)))
                if what == 'number' or op in ('gt', 'le'):
                    for op2, f2 in COMPS.items():
                        if op2 != op:
                            v2 = 2
                            made.append((comp(I, c, op2, v2), '(c %s %d) %s %d' % (op, v, op2, v2), f(w.n, v) and f2(w.n, v2)))
        for o1, o2, o3 in itertools.permutations(COMPS, 3):
            for v in ((1, 1, 1), (0, 2, 1), (2, 0, 0)) if what == 'number' else ((0, 2, 1),):
                c = comp(I, comp(I, comp(I, base, o1, v[0]), o2, v[1]), o3, v[2])
                made.append((c, '((c %s %d) %s %d) %s %d' % (o1, v[0], o2, v[1], o3, v[2]), COMPS[o1](w.n, v[0]) and COMPS[o2](w.n, v[1]) and COMPS[o3](w.n, v[2])))
        again = comp(I, comp(I, base, 'ge', 3), 'ge', 1)
        made.append((again, 'compared again', w.n >= 1))
        made.append((base, 'c', w.n > 0))
        made.append((mk(), 'a new condition', w.n > 0))
        for kw in ({'__gt__': 1}, {'__lt__': 2}, {'__ge__': 1, '__lt__': 3}, {'__eq__': 2}, {'__ne__': 2}, {'__le__': 1},
                   {'__ge__': 0, '__le__': 2, '__ne__': 1}, {'__gt__': '1'}, {'__lt__': '2'}, {'__eq__': '0'}):
            if what == 'cycles':
                c = I.call(I.getattr(cls, 'from_magic'), [], dict(kw))
                made.append((c, 'from_magic %s' % kw, all(COMPS[k.strip('_')](w.n, int(v)) for k, v in kw.items())))
        if what == 'cycles':
            for kw in ({'more_than': 1}, {'less_than': 2}, {'more_than': 0, 'less_than': 3}, {'more_than': 0}, {'less_than': 0}, {'less_than': 1, 'more_than': 0}):
                c = I.call(I.get('rocketry.conditions.api.scheduler_cycles'), [], dict(kw))
                made.append((c, 'scheduler_cycles(%s)' % kw, w.n > kw.get('more_than', -1) and w.n < kw.get('less_than', 99)))
        for c, desc, exp in made:
            w.out.append((desc, observe(I, c, w.t, w), exp))
        # conditions compare equal to equal conditions, not as measurements
        a, b, c = comp(I, mk(), 'ge', 1), comp(I, mk(), 'ge', 1), comp(I, mk(), 'ge', 2)
        for x, y, exp in ((a, b, True), (a, c, False), (a, mk(), False)):
            r = I.force(I.callm(x, '__eq__', y))
            w.out.append(('equality of conditions', r, exp))
        return w

    def judge(I, d):
        w = d.world
        if d.raised:
            yield (d.loc, 'comparing or observing a condition raises %s%s' % (d.exc, short(d.exc.fields.get('args'))))
            return
        for s, got, exp in w.out:
            if got is not exp:
                yield ('rocketry/core/condition/base.py', '"%s" is %s, expected %s, for a measurement of %s (%s)' % (s, short(got), exp, w.n, w.what))
    for what in ('number', 'sequence', 'cycles'):
        ctx.explore('measurement: ' + what, lambda I: scen(I, what), judge, need=4)


# ---------------------------------------------------------------------------------------------- C18
@rule('C18', 'A periodic task runs only inside its period and at most once plus retries', T + ' over all orders of log records and period bounds',
      'For every log history of up to two records (three for retries), position relative to the period bounds, value of "now in period" and retries: the executable condition '
      'is true iff now is in the period (or the period is a time delta), no success, inaction or termination and at most `retries` failures of the task lie in the period; '
      'the runnable condition iff now is in the period and no run started in it; every(...) iff there is no such record in the past duration.')
def c18(ctx):
    acts = ['run', 'fail', 'success', 'terminate', 'inaction', 'crash']

    def inp(w, r, delta):
        return w.rank[list(r['created'].co)[0]] >= 10 and (delta or w.rank[list(r['created'].co)[0]] <= 20)

    def scen(I, n, acts, named=False, poss=None):
        w = CondW(I, force_status_from_logs=Choice('force_status_from_logs', BOOL))
        w.boot_clock()
        forced = I.force(Choice('force_status_from_logs', BOOL))
        default_session(I, w, force_status_from_logs=not forced)
        hist, lo = [], 0
        for i in range(n):
            a = I.choose(('record', i), acts)
            pos = [p for p, r in w.POS if r >= lo and (poss is None or p in poss)]
            p = I.choose(('time of record', i), pos)
            lo = dict(w.POS)[p]
            hist.append(w.rec(i, a, p))
        w.hist = hist
        full = [w.rec(7, 'success', 'inside', 'b'), w.rec(8, 'fail', 'inside', 'b'), w.rec(9, 'run', 'inside', 'b')] + hist
        w.t = w.task('a', execution='main')
        w.u = w.task('b', execution='main')
        if not forced:
            w.history = full
        I.await_(I.callm(w.scheduler, 'startup'))
        w.history = full
        kw, obs = ({'task': 'a'}, w.u) if named else ({}, w.t)
        free(I, w, [w.t, w.u], IRRELEVANT, ('multilaunch', 'silence_cond_check'))
        w.out = []
        import datetime
        delta = I.call(I.get('rocketry.core.time.base.TimeDelta'), [datetime.timedelta(seconds=20)], {})
        for per, isdelta in ((w.period(), False), (delta, True)):
            cnt = lambda *a: sum(1 for r in hist if r['action'] in a and inp(w, r, isdelta))
            for inside in ([True] if isdelta else [True, False]):
                w.in_period = inside
                ok = cnt('success', 'inaction', 'terminate') == 0
                rets = [None, 0, 1, 2] if cnt('fail') or n == 0 else [None, 2] if hist else [None]
                for ret in rets:
                    c = I.call(I.get(CT + 'TaskExecutable'), [], dict(kw, period=per, **({} if ret is None else {'retries': ret})))
                    w.out.append(('executable', dict(retries=ret, inside=inside, delta=isdelta), observe(I, c, obs, w), inside and ok and cnt('fail') <= (ret or 0)))
                c = I.call(I.get(CT + 'TaskRunnable'), [], dict(kw, period=per))
                w.out.append(('runnable', dict(inside=inside, delta=isdelta), observe(I, c, obs, w), inside and cnt('run') == 0))
        if not named:
            cnt = lambda *a: sum(1 for r in hist if r['action'] in a and inp(w, r, True))
            ev = I.get('rocketry.conditions.api.every')
            for based, exp in ((None, cnt('run') == 0), ('run', cnt('run') == 0), ('success', cnt('success') == 0), ('fail', cnt('fail') == 0),
                               ('finish', cnt('success', 'inaction', 'terminate', 'fail') == 0)):
                c = I.call(ev, ['20 seconds'], {} if based is None else {'based': based})
                w.out.append(('every 20 seconds', dict(based=based), observe(I, c, obs, w), exp))
        return w

    def judge(I, d):
        w = d.world
        if d.raised:
            yield (d.loc, 'observing the condition raises %s%s' % (d.exc, short(d.exc.fields.get('args'))))
            return
        for name, how, got, exp in w.out:
            if got is not exp:
                yield ('rocketry/conditions/task/task.py', 'the condition "%s" %s is %s for the log %s' % (
                    name, how, short(got), [(r['action'], r['pos']) for r in w.hist]))
    ctx.explore('histories of up to one record', lambda I: scen(I, I.choose('records', [0, 1]), acts), judge, need=50)
    ctx.explore('named task', lambda I: scen(I, 1, ['run', 'fail', 'success'], True), judge, need=20)
    two = acts if ctx.thorough else ['fail', 'success']
    ctx.explore('histories of two records', lambda I: scen(I, 2, two, False, None if ctx.thorough else ['before', 'inside', 'after']), judge, need=30)
    ctx.explore('several failures', lambda I: scen(I, 3, ['fail'], False, ['before', 'inside']), judge, need=8)


# ---------------------------------------------------------------------------------------------- C19
@rule('C19', 'A dependent task is due exactly after its dependency ended since its last run', T + ' over all interleavings of the logs',
      'For every interleaving of up to four log records of a task and its dependency, the depend conditions (success, failure, finish) are true iff the dependency has a record of '
      'the listed outcome later than the last run record of the task (or the task has not run); all/any forms over two dependencies combine them.')
def c19(ctx):
    DEP = {'DependSuccess': ['success'], 'DependFailure': ['fail'], 'DependFinish': ['success', 'fail']}

    def build(I, n, alphabet):
        w = CondW(I, force_status_from_logs=Choice('force_status_from_logs', BOOL))
        w.boot_clock()
        w.t, w.u, w.v = w.task('a', execution='main'), w.task('b', execution='main'), w.task('c', execution='main')
        default_session(I, w)
        seq = []
        for i in range(n):
            seq.append(I.choose(('record', i), alphabet))
        w.seq = seq
        w.hist = [w.rec(i, a, i + 1, t) for i, (t, a) in enumerate(seq)]
        w.history = w.hist
        if I.choose('the session was started with this log', [False, True]):
            I.await_(I.callm(w.scheduler, 'startup'))
        free(I, w, [w.t, w.u, w.v], IRRELEVANT, ('multilaunch', 'silence_cond_check'))
        return w

    def exp(seq, dep, acts):
        ld = max([i for i, (t, a) in enumerate(seq) if t == dep and a in acts], default=None)
        la = max([i for i, (t, a) in enumerate(seq) if t == 'a' and a == 'run'], default=None)
        return ld is not None and (la is None or ld > la)

    def scen(I, n, alphabet):
        w = build(I, n, alphabet)
        w.out = []
        for cn, acts in DEP.items():
            cls = I.get(CT + cn)
            e = exp(w.seq, 'b', acts)
            w.out.append((cn, observe(I, I.call(cls, [], {'depend_task': 'b'}), w.t, w), e))
            w.out.append((cn + ' (given tasks)', observe(I, I.call(cls, [], {'depend_task': w.u, 'task': w.t}), w.v, w), e))
            w.out.append((cn + ' (named tasks)', observe(I, I.call(cls, [], {'depend_task': 'b', 'task': 'a'}), w.v, w), e))
        return w

    def scen_multi(I, n, alphabet):
        w = build(I, n, alphabet)
        w.out = []
        for kind, cn in (('success', 'DependSuccess'), ('fail', 'DependFailure'), ('finish', 'DependFinish')):
            b, c = exp(w.seq, 'b', DEP[cn]), exp(w.seq, 'c', DEP[cn])
            for q, e in (('all', b and c), ('any', b or c)):
                f = I.get('rocketry.conditions.api.after_%s_%s' % (q, kind))
                w.out.append(('after_%s_%s' % (q, kind), observe(I, I.call(f, ['b', 'c'], {}), w.t, w), e))
            w.out.append(('after_%s' % kind, observe(I, I.call(I.get('rocketry.conditions.api.after_%s' % kind), ['b'], {}), w.t, w), b))
        return w

    def judge(I, d):
        w = d.world
        if d.raised:
            yield (d.loc, 'observing a depend condition raises %s%s' % (d.exc, short(d.exc.fields.get('args'))))
            return
        for name, got, e in w.out:
            if got is not e:
                yield ('rocketry/conditions/task/utils.py', '%s for "a" after "b" is %s when the log is %s' % (name, short(got), w.seq))
    def scen_tie(I):
        w = build(I, 0, [])
        act = I.choose('outcome of b', ['success', 'fail'])
        first = I.choose('first record in the log', ['a', 'b'])
        w.rank['same'] = 12
        rs = [{'action': 'run', 'task_name': 'a', 'created': Lin.sym('same')}, {'action': act, 'task_name': 'b', 'created': Lin.sym('same')}]
        w.history = rs if first == 'a' else rs[::-1]
        w.seq = 'a started and b ended (%s) at the same time' % act
        w.out = [(cn, observe(I, I.call(I.get(CT + cn), [], {'depend_task': 'b'}), w.t, w), False) for cn in DEP]
        return w

    def scen_many(I):
        w = build(I, 0, [])
        tasks = ['b', 'c', 'd', 'e', 'f']
        for n in 'def':
            w.task(n, execution='main')
        kind, cn, act = I.choose('kind', [('success', 'DependSuccess', 'success'), ('fail', 'DependFailure', 'fail'), ('finish', 'DependFinish', 'fail')])
        q = I.choose('form', ['all', 'any'])
        odd = I.choose('odd one', tasks + [None])
        done = [t for t in tasks if (t == odd) == (q == 'any')]
        w.seq = [('a', 'run')] + [(t, act) for t in done]
        w.history = [w.rec(i, a, i + 1, t) for i, (t, a) in enumerate(w.seq)]
        e = (q == 'all') if odd is None else (q == 'any')
        f = I.get('rocketry.conditions.api.after_%s_%s' % (q, kind))
        w.out = [('after_%s_%s of five' % (q, kind), observe(I, I.call(f, list(tasks), {}), w.t, w), e)]
        pc = I.get('rocketry.parse.parse_condition')
        text = "after %stasks '%s' %s" % ('any ' if q == 'any' else '', "', '".join(tasks), {'success': 'succeeded', 'fail': 'failed', 'finish': 'finished'}[kind])
        w.out.append((text, observe(I, I.call(pc, [text], {'session': w.session}), w.t, w), e))
        return w
    al = [('a', 'run'), ('a', 'success'), ('a', 'inaction'), ('a', 'fail'), ('a', 'terminate'), ('a', 'crash'), ('b', 'crash'), ('b', 'run'), ('b', 'success'), ('b', 'fail'), ('b', 'terminate'), ('b', 'inaction')]
    small = [('a', 'run'), ('b', 'success'), ('b', 'fail')]
    ctx.explore('logs of up to two records', lambda I: scen(I, I.choose('records', [0, 1, 2]), al), judge, need=50)
    ctx.explore('longer logs', lambda I: scen(I, 4 if ctx.thorough else 3, al if ctx.thorough else small), judge, need=20, max_paths=20000)
    ctx.explore('ties', scen_tie, judge, need=4)
    ctx.explore('many dependencies', scen_many, judge, need=36)
    ctx.explore('several dependencies', lambda I: scen_multi(I, 3, [('a', 'run'), ('b', 'success'), ('c', 'success'), ('c', 'fail')]), judge, need=50)


# ---------------------------------------------------------------------------------------------- C38
@rule('C38', 'Retries are bounded by the failures in a row', T + ' over all outcome histories',
      'For every history of up to four outcomes, retry(n) is true iff the last outcome is a failure and the failures since the last other outcome are at most n '
      '(always for unlimited retries, never for n = 0).')
def c38(ctx):
    OUT = ['fail', 'success', 'terminate', 'inaction', 'crash']

    def scen(I, n, al, more=()):
        w = CondW(I, force_status_from_logs=Choice('force_status_from_logs', BOOL))
        w.boot_clock()
        w.t, w.u = w.task('a', execution='main'), w.task('b', execution='main')
        default_session(I, w)
        w.rank['now'] = 1000
        w.seq = [I.choose(('outcome', i), al) for i in range(n)] + list(more)
        n += len(more)
        h = []
        for i, o in enumerate(w.seq):
            h.append(w.rec(3 * i, 'run', 3 * i + 1, 'a'))
            h.append(w.rec(3 * i + 1, 'fail' if o != 'fail' else 'success', 3 * i + 2, 'b'))
            h.append(w.rec(3 * i + 2, o, 3 * i + 3, 'a'))
        w.history = h
        I.await_(I.callm(w.scheduler, 'startup'))
        k = 0
        while k < n and w.seq[n - 1 - k] == 'fail':
            k += 1
        free(I, w, [w.t, w.u], IRRELEVANT, ('multilaunch', 'silence_cond_check'))
        w.out = []
        for r in (0, 1, 2, 3, -1, None, '2') + ((len(more) - 1, len(more), len(more) + 1, 10 ** 6, 10 ** 12) if more else ()):
            e = k > 0 and (r in (-1, None) or k <= int(r))
            w.out.append((r, observe(I, I.call(I.get(CT + 'Retry'), [r], {}), w.t, w), e))
        api = I.get('rocketry.conditions.api.retry')
        w.out.append(('unlimited', observe(I, api, w.t, w), k > 0))
        w.out.append(('api 1', observe(I, I.call(api, [1], {}), w.t, w), k == 1))
        return w

    def judge(I, d):
        w = d.world
        if d.raised:
            yield (d.loc, 'observing a retry condition raises %s%s' % (d.exc, short(d.exc.fields.get('args'))))
            return
        for r, got, e in w.out:
            if got is not e:
                yield ('rocketry/conditions/task/task.py: Retry', 'retry(%s) is %s when the outcomes of the task were %s' % (r, short(got), w.seq if len(w.seq) < 9 else w.seq[:1] + ['... %d failures' % (len(w.seq) - 1)]))
    ctx.explore('outcomes', lambda I: scen(I, I.choose('runs', [0, 1, 2]), OUT), judge, need=30)
    ctx.explore('many failures', lambda I: scen(I, 1, ['fail', 'success'], ['fail'] * (130 if I.choose('many', BOOL) else 11)), judge, need=2)
    ctx.explore('longer histories', lambda I: scen(I, 4 if ctx.thorough else 3, OUT), judge, need=8)


# ---------------------------------------------------------------------------------------------- C20
CLIENT_FUNC = '''
from rocketry.conditions import FuncCond, TaskCond
from rocketry.args import Task, Session
from rocketry.parse import parse_condition

def check(x, y=1, t=Task(), s=Session()):
    return _func(x, y, t, s)

def check_simple():
    return _func(None, None, None, None)

def check_slow():
    return _slow()
'''


@rule('C20', 'Session level conditions reflect the session they are observed in', T,
      'For every state of the observed session - its parameters, scheduler start relative to a period, clock relative to a period, returned value and last success of a check '
      'task - the environment, parameter, scheduler-started, period, function and task-backed conditions have exactly the truth value that state implies, '
      'are read from the observed session (another session, in the opposite state, is the default one) and give the observed task and session to functions that ask for them.')
def c20(ctx):
    def two(I, **c):
        w = CondW(I, **c)
        w.boot_clock()
        w.t = w.task('a', execution='main')
        w.other = default_session(I, w)
        return w

    def params(I, s):
        return I.getattr(s, 'parameters')

    def scen_par(I):
        w = two(I)
        vals = [None, 1, 2]
        a, b = I.choose('value of p', ['absent', 1, 2, 0, None, '1', '']), I.choose('value of q', ['absent', 1, None, 0])
        as_arg = I.choose('the parameters are given as', ['values', 'arguments']) == 'arguments'
        for n, v in (('p', a), ('q', b)):
            if v != 'absent':
                I.callm(params(I, w.session), '__setitem__', n, I.call(I.get('rocketry.args.SimpleArg'), [v], {}) if as_arg else v)
            else:
                I.callm(params(I, w.other), '__setitem__', n, 1)
        w.out = []
        PE = I.get('rocketry.conditions.parameter.ParamExists')
        for args, kw in ((['p'], {}), (['p', 'q'], {}), ([], {'p': 1}), (['q'], {'p': 1}), ([], {'p': 1, 'q': 1}), ([], {'p': 2}), ([], {'p': 0}), ([], {'p': None}), ([], {'p': '1'}), ([], {'p': ''}), (['q', 'p'], {'q': 0}), ([], {})):
            have = {k: v for k, v in (('p', a), ('q', b)) if v != 'absent'}
            e = all(k in have for k in args) and all(have.get(k, 'absent') == v for k, v in kw.items())
            w.out.append(('ParamExists(%s, %s)' % (args, kw), observe(I, I.call(PE, list(args), dict(kw)), w.t, w), e))
        return w

    def scen_env(I):
        w = two(I)
        v = I.choose('env', ['absent', 'prod', 'dev', 'Prod', 'production', 1, '1', None, 'None', ''])
        if v != 'absent':
            as_arg = I.choose('the environment is given as', ['a value', 'an argument']) == 'an argument'
            I.callm(params(I, w.session), '__setitem__', 'env', I.call(I.get('rocketry.args.SimpleArg'), [v], {}) if as_arg else v)
        I.callm(params(I, w.other), '__setitem__', 'env', 'prod' if v != 'prod' else 'dev')
        IE = I.get('rocketry.conditions.parameter.IsEnv')
        w.out = [('IsEnv(%s)' % x, observe(I, I.call(IE, [x], {}), w.t, w), (None if v == 'absent' else v) == x) for x in ('prod', 'dev', 1, '1', 'None', '')]
        return w

    def scen_time(I):
        import datetime
        tz = I.choose('timezone', [None, datetime.timezone.utc])
        w = two(I, timezone=tz)
        pos = I.choose('scheduler started', [p for p, _ in w.POS])
        w.rank['st'] = dict(w.POS)[pos]
        w.now = lambda I: Lin.sym('st')
        I.await_(I.callm(w.scheduler, 'startup'))
        w.now = lambda I: Lin.sym('now')
        I.getattr(w.other, 'scheduler').fields['startup_time'] = DT(Lin.sym('now'), tz)
        w.in_period = I.choose('now in period', BOOL)
        per = w.period()
        SS = I.get('rocketry.conditions.scheduler.SchedulerStarted')
        delta = I.call(I.get('rocketry.core.time.base.TimeDelta'), [datetime.timedelta(seconds=20)], {})
        w.out = [('scheduler started in the period', observe(I, I.call(SS, [], {'period': per}), w.t, w), pos in ('at the start', 'inside', 'at the end')),
                 ('scheduler started in the past 20 s', observe(I, I.call(SS, [], {'period': delta}), w.t, w), pos != 'before'),
                 ('scheduler started', observe(I, I.call(SS, [], {}), w.t, w), True)]
        at = dict(w.POS)[pos]
        for kw, e in (({'more_than': '10 seconds'}, at <= 20), ({'less_than': '20 seconds'}, at >= 10), ({'more_than': '10 seconds', 'less_than': '20 seconds'}, 10 <= at <= 20), ({}, True)):
            w.out.append(('scheduler_running(%s)' % ', '.join('%s=%s' % x for x in kw.items()), observe(I, I.call(I.get('rocketry.conditions.api.scheduler_running'), [], dict(kw)), w.t, w), e))
        I.trace.clear()
        w.out.append(('is period', observe(I, I.call(I.get('rocketry.conditions.time.IsPeriod'), [], {'period': per}), w.t, w), w.in_period))
        ins = [e for e in I.trace if e.kind == 'inside']
        w.out.append(('the period is asked for the time of the session clock', len(ins) == 1 and ins[0].at == DT(Lin.sym('now'), tz), True))
        return w

    def scen_func(I):
        w = two(I)
        v = I.choose('value', BOOL)
        got = []

        def func(I, a, k):
            got.append(tuple(a))
            return v if a[0] != 7 else not v
        ns = client(I, CLIENT_FUNC, {'_func': Builtin('_func', func), '_slow': Builtin('_slow', func)}, name='__client_func__')
        FC = ns['FuncCond']
        base = I.call(I.call(FC, [], {}), [ns['check']], {})
        c5, c7 = I.call(base, [5], {}), I.call(base, [7], {'y': 3})
        simple = I.call(FC, [ns['check_simple']], {})
        w.out = []
        for nm, c, e, args in (('f(5)', c5, v, (5, 1)), ('f(7, y=3)', c7, not v, (7, 3)), ('f(5) again', c5, v, (5, 1))):
            r = observe(I, c, w.t, w)
            w.out.append((nm, r, e))
            w.out.append((nm + ': arguments handed to the function', got[-1][:2] == args and got[-1][2] is w.t and got[-1][3] is w.session, True))
        w.out.append(('f', observe(I, simple, w.t, w), v))
        w.out.append(('f5 & ~f7', observe(I, I.callm(c5, '__and__', I.callm(c7, '__invert__')), w.t, w), v))
        return w

    def scen_task(I):
        w = two(I)
        w.now = lambda I: Lin.sym('now')
        ret = w.ret = I.choose('checked value', ['not checked', True, False])
        w.active = I.choose('last check is within the active time', BOOL)

        def slow(I, a, k):
            return w.ret
        ns = client(I, CLIENT_FUNC, {'_func': Builtin('_func', slow), '_slow': Builtin('_slow', slow)}, name='__client_func__')
        g = w.session if I.choose('the condition is declared in', ['session', 'group']) == 'session' else I.call(w.ns['Session'], [], {})
        I.callm(g, 'set_as_default')
        tc = I.call(ns['TaskCond'], [], {'session': g, 'syntax': 'is ready', 'active_time': 'past 20 seconds', 'execution': 'main',
                                         'start_cond': w.cond('check')})
        I.call(tc, [ns['check_slow']], {})
        c1 = I.call(ns['parse_condition'], ['is ready'], {'session': g})
        c2 = I.call(ns['parse_condition'], ['is ready'], {'session': g})
        default_session(I, w)
        if g is not w.session:
            # the task is included from a group
            for t in list(I.iterate(I.getattr(g, 'tasks'))):
                I.setattr(t, 'name', 'group.check')
                I.callm(w.session, 'add_task', t)
        w.out = [('one check task', sum(1 for t in I.iterate(I.getattr(w.session, 'tasks'))), 2)]
        if ret != 'not checked':
            ready(I, w)
            I.memo[('cond', 'start:a')] = False
            I.memo[('cond', 'check')] = True
            w.rank['checked'] = 15 if w.active else 5
            w.now = lambda I: Lin.sym('checked')
            w.cycle()
            w.now = lambda I: Lin.sym('now')
        e = ret is True and w.active
        for c in (c1, c2):
            w.out.append(('task-backed condition (checked: %s, active: %s)' % (ret, w.active), observe(I, c, w.t, w), e))
        if ret != 'not checked' and I.choose('checked again', BOOL):
            w.ret = I.choose('value checked again', BOOL)
            w.rank['again'] = 20
            w.now = lambda I: Lin.sym('again')
            w.cycle()
            w.now = lambda I: Lin.sym('now')
            for c in (c1, c2):
                w.out.append(('task-backed condition (checked: %s, then %s)' % (ret, w.ret), observe(I, c, w.t, w), w.ret))
        return w

    def judge(I, d):
        w = d.world
        if d.raised:
            yield (d.loc, 'observing the condition raises %s%s' % (d.exc, short(d.exc.fields.get('args'))))
            return
        for name, got, e in w.out:
            if got is not e and not (isinstance(got, int) and got == e and not isinstance(e, bool)):
                yield ('rocketry/conditions', '%s is %s, expected %s' % (name, short(got), e))
    ctx.explore('parameters', scen_par, judge, need=6)
    ctx.explore('environment', scen_env, judge, need=3)
    ctx.explore('time', scen_time, judge, need=10)
    ctx.explore('functions', scen_func, judge, need=2)
    ctx.explore('check tasks', scen_task, judge, need=6)
