"""Conditions and periods given as text or through the conds API: constant propagation over the documented grammar."""
import datetime
import itertools
from ..framework import rule
from ..model import *
from ..interp import short
from .periods import Clock, INSIDE

T = 'Abstract interpretation (constant propagation over the documented grammar) against a reference reading'
SEC, MIN, HOUR, DAY = 10 ** 6, 60 * 10 ** 6, 3600 * 10 ** 6, 86400 * 10 ** 6
MONTHS = [0, 31, 60, 91, 121, 152, 182, 213, 244, 274, 305, 335, 366]
WD = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
WDL = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']
MO = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']
MOL = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September', 'October', 'November', 'December']


def nth(d):
    return '%d%s' % (d, {1: 'st', 2: 'nd', 3: 'rd'}.get(d, 'th'))


# class: (cycle, unit, base time, starts, ends, whole units); a start is (spelling, position), an end likewise, a unit (spelling, start, end)
def spelled():
    S = {}
    S['TimeOfSecond'] = (SEC, datetime.datetime(2023, 5, 18, 9, 31, 17), [('250', 250000), (250, 250000), (0, 0)], [('750', 750000), (750, 751000)],
                         [(500, 500000, 501000), ('500', 500000, 501000)])
    S['TimeOfMinute'] = (MIN, datetime.datetime(2023, 5, 18, 9, 31), [('15', 15 * SEC), ('05.5', 5500000), (20, 20 * SEC), (12.5, 12500000), ('00', 0)],
                         [('45', 45 * SEC), ('30.250', 30250000), (30, 31 * SEC), (59, MIN)], [('10', 10 * SEC, 11 * SEC), (10, 10 * SEC, 11 * SEC), (59, 59 * SEC, MIN)])
    S['TimeOfHour'] = (HOUR, datetime.datetime(2023, 5, 18, 9), [('15:00', 15 * MIN), ('05:30', 5 * MIN + 30 * SEC), (20, 20 * MIN), ('00:00', 0)],
                       [('45:00', 45 * MIN), ('30:00.5', 30 * MIN + 500000), (30, 31 * MIN), (59, HOUR)], [('10:00', 10 * MIN, 11 * MIN), (10, 10 * MIN, 11 * MIN), ('59:00', 59 * MIN, HOUR)])
    S['TimeOfDay'] = (DAY, datetime.datetime(2023, 5, 18), [('10:00', 10 * HOUR), ('08:30', 8 * HOUR + 30 * MIN), ('10:00:15', 10 * HOUR + 15 * SEC), (7, 7 * HOUR), ('22:00', 22 * HOUR)],
                      [('15:00', 15 * HOUR), ('18:45', 18 * HOUR + 45 * MIN), (20, 21 * HOUR), (23, DAY), ('00:00', 0), ('06:00', 6 * HOUR)],
                      [('10:00', 10 * HOUR, 11 * HOUR), (0, 0, HOUR), ('23:00', 23 * HOUR, DAY)])
    S['TimeOfWeek'] = (7 * DAY, datetime.datetime(2023, 5, 15),
                       [(n, i * DAY) for i, n in enumerate(WD)] + [(n, i * DAY) for i, n in enumerate(WDL)] + [(i + 1, i * DAY) for i in (0, 3, 6)]
                       + [('Tue 00:00', DAY), ('Tue 10:00', DAY + 10 * HOUR), ('friday 18:30', 4 * DAY + 18 * HOUR + 30 * MIN)],
                       [(n, (i + 1) * DAY) for i, n in enumerate(WD)] + [(n, (i + 1) * DAY) for i, n in enumerate(WDL)] + [(i + 1, (i + 1) * DAY) for i in (0, 3, 6)]
                       + [('Wed 00:00', 2 * DAY), ('Thu 12:00', 3 * DAY + 12 * HOUR)],
                       [(n, i * DAY, (i + 1) * DAY) for i, n in enumerate(WD)] + [('Saturday', 5 * DAY, 6 * DAY), (7, 6 * DAY, 7 * DAY)])
    S['TimeOfMonth'] = (31 * DAY, datetime.datetime(2023, 5, 1),
                        [(nth(d), (d - 1) * DAY) for d in (1, 2, 3, 4, 10, 31)] + [('5', 4 * DAY), ('6.', 5 * DAY), (20, 19 * DAY), ('3rd 12:30:00', 2 * DAY + 12 * HOUR + 30 * MIN)],
                        [(nth(d), d * DAY) for d in (1, 3, 15, 28, 31)] + [('7', 7 * DAY), (20, 20 * DAY), (31, 31 * DAY), ('8th 00:00', 7 * DAY), ('9th 06:00', 8 * DAY + 6 * HOUR)],
                        [(nth(d), (d - 1) * DAY, d * DAY) for d in (1, 2, 15, 31)] + [(9, 8 * DAY, 9 * DAY)])
    Y = MONTHS
    S['TimeOfYear'] = (366 * DAY, datetime.datetime(2024, 1, 1),
                       [(n, Y[i] * DAY) for i, n in enumerate(MO)] + [(n, Y[i] * DAY) for i, n in enumerate(MOL)] + [(i + 1, Y[i] * DAY) for i in (0, 1, 11)]
                       + [('Feb 15th', (31 + 14) * DAY), ('Mar 3rd 10:00', (60 + 2) * DAY + 10 * HOUR)],
                       [(n, Y[i + 1] * DAY) for i, n in enumerate(MO)] + [('june', 182 * DAY)] + [(i + 1, Y[i + 1] * DAY) for i in (0, 1, 11)],
                       [(n, Y[i] * DAY, Y[i + 1] * DAY) for i, n in enumerate(MO)] + [(2, 31 * DAY, 60 * DAY)])
    return S


NAMES = {'TimeOfSecond': ('secondly', 'second', None), 'TimeOfMinute': ('minutely', 'minute', 'this minute'), 'TimeOfHour': ('hourly', 'hour', 'this hour'),
         'TimeOfDay': ('daily', 'day', 'today'), 'TimeOfWeek': ('weekly', 'week', 'this week'), 'TimeOfMonth': ('monthly', 'month', 'this month'), 'TimeOfYear': (None, None, None)}
STAT = {'failed': 'TaskFailed', 'succeeded': 'TaskSucceeded', 'finished': 'TaskFinished', 'terminated': 'TaskTerminated', 'inacted': 'TaskInacted', 'started': 'TaskStarted'}
SRC = '''
from rocketry.parse import parse_condition, parse_time, add_condition_parser
from rocketry.conditions import *
from rocketry.core.condition import AlwaysTrue, AlwaysFalse, All, Any, Not
from rocketry.conds import *
from rocketry.time import TimeOfSecond, TimeOfMinute, TimeOfHour, TimeOfDay, TimeOfWeek, TimeOfMonth, TimeOfYear, TimeDelta, TimeSpanDelta, always, never
from rocketry.conditions.api import *
from rocketry.time import Cron
from rocketry import Session
def is_a(c, cls):
    return isinstance(c, cls)
'''
FILES = 'rocketry/conditions/api.py', 'rocketry/parse/_setup_cond_parsers.py', 'rocketry/time/interval.py'


class TextClock(Clock):
    def datetime_attr(self, I, v, name):
        if name in ('month', 'year'):
            at = self.shifted(v)
            return None if at is None else getattr(at, name)
        return Clock.datetime_attr(self, I, v, name)

    def at(self, rep):
        self.rep = rep
        for n in self.PARTS:
            self.val['now.' + n] = rep.weekday() if n == 'weekday' else getattr(rep, n)
        return self.dt


def cond_of(I, c):
    """The condition a wrapper of the API stands for."""
    g = I.getattr(c, 'get_cond', None)
    return c if g is None else I.call(g, [], {})


@rule('C40', 'Time conditions mean the period they spell', T,
      'For every unit of time (second to year), every way to bound it (between, before, after, on, starting, none) and every spelling of the bounds (numbers, clock times, weekdays, days of month, months): '
      'the period contains a time at each side of each bound exactly if the spelled period does - as a period, through the conds API and as text - and the condition is of the kind named '
      '(once per period, in the period, or a status of the observed or named task within the period).')
def c40(ctx):
    SP = spelled()

    def scen(I):
        cls = I.choose('unit', list(SP))
        execn, unit, this = NAMES[cls]
        S, base, starts, ends, units = SP[cls]
        routes = ['class'] + (['daily', 'time of', 'text daily'] if execn else []) + (['text time of'] if this else []) + (['status', 'text status', 'text task status'] if this else [])
        route = I.choose('route', routes)
        text = route.startswith('text')
        forms = ['between', 'after', 'before', 'on', 'starting', 'all']
        if route == 'text time of':
            forms = ['between', 'after', 'before'] + (['on'] if cls in ('TimeOfWeek', 'TimeOfMonth') else [])
        if cls == 'TimeOfYear':
            forms.remove('starting')
        form = I.choose('form', forms)
        w = TextClock(I, INSIDE)
        ns = client(I, SRC)
        ok = [x for x in starts if not text or isinstance(x[0], str)]
        oke = [x for x in ends if not text or isinstance(x[0], str)]
        oku = [x for x in units if not text or isinstance(x[0], str)]
        full = route != 'class' and not ctx.thorough
        if full:
            ok, oke, oku = ok[:2] + ok[-1:], oke[:2] + oke[-1:], oku[:2]
        if form == 'between':
            pairs = [(a, b) for a in ok for b in (oke[:3] + oke[-1:])] if not full else [(ok[0], b) for b in oke] + [(a, oke[0]) for a in ok[1:]]
            if route == 'class':
                pairs += [(a, b) for a in ok[:2] for b in oke]
        elif form in ('after', 'starting'):
            pairs = [(a, None) for a in ok]
        elif form == 'before':
            pairs = [(None, b) for b in oke]
        elif form == 'on':
            pairs = [(u, None) for u in oku]
        else:
            pairs = [(None, None)]
        w.what, w.bad = [], []
        status = I.choose('status', list(STAT)) if 'status' in route else None
        if route == 'status' and status not in ('failed', 'succeeded', 'finished', 'started'):
            status = 'failed'
        for a, b in pairs:
            s = 0 if a is None else a[1]
            e = S if b is None else b[1]
            if form == 'on':
                s, e = a[1], a[2]
            if form == 'starting':
                e = s
            vals = [x[0] for x in (a, b) if x is not None]
            name = '%s %s %s (%s)' % (cls, form, ' '.join(map(str, vals)), route)
            if route == 'class':
                C = ns[cls]
                pr = I.call(C, {'between': vals, 'after': vals + [None], 'before': [None] + vals, 'all': []}[form], {}) if form not in ('on', 'starting') else \
                    I.call(I.getattr(C, 'at' if form == 'on' else 'starting'), vals, {})
            else:
                if text:
                    tail = {'between': ' between %s and %s', 'after': ' after %s', 'before': ' before %s', 'on': ' on %s', 'starting': ' starting %s', 'all': ''}[form] % tuple(vals)
                    head = {'text daily': execn, 'text time of': 'time of %s' % unit, 'text status': 'has %s %s' % (status, this), 'text task status': "task 'my task' has %s %s" % (status, this)}[route]
                    name = '"%s"' % (head + tail)
                    c = I.call(ns['parse_condition'], [head + tail], {})
                else:
                    if route == 'status':
                        named = form in ('all', 'between') and I.choose('of a named task', [False, True])
                        wr = I.getattr(I.call(ns[status], ['my task'], {}) if named else ns[status], this.replace(' ', '_') if this != 'today' else I.choose('day', ['today', 'this_day']))
                    else:
                        wr = ns[execn if route == 'daily' else 'time_of_%s' % unit]
                    c = wr if form == 'all' else I.call(I.getattr(wr, form if form != 'on' else I.choose('on', ['on', 'at'])), vals, {})
                c = cond_of(I, c)
                want = STAT[status] if status else 'IsPeriod' if 'time of' in route else 'TaskExecutable'
                if not I.truth(I.call(ns['is_a'], [c, ns[want]], {})):
                    w.bad.append((name, 'is a condition of %s, expected %s' % (short(c), want)))
                    continue
                if status:
                    t = I.force(I.getattr(c, 'task'))
                    if t != ('my task' if 'task' in route.split() or (route == 'status' and named) else None):
                        w.bad.append((name, 'is about the task %s' % short(t)))
                pr = I.getattr(c, 'period')
            is_full = s == e or (s == 0 and e == S)
            probes = {s - 1, s, s + 1, e - 2, e, e + 1, (s + (e if e > s else e + S)) // 2 % S}
            if cls != 'TimeOfYear':
                probes.add(e - 1)
            for p in sorted(x % S for x in probes):
                if cls == 'TimeOfYear' and p in (S - 1, (e - 1) % S):
                    continue        # the last microsecond of a month
                t = base + datetime.timedelta(microseconds=p)
                exp = is_full or (s <= p < e if s <= e else (p >= s or p < e))
                got = I.truth(I.callm(pr, '__contains__', w.at(t)))
                if got != exp:
                    w.bad.append((name, 'the time %s is %sin the period' % (t, '' if got else 'not ')))
                    break
            if is_full and cls not in ('TimeOfMonth', 'TimeOfYear'):
                t = base + datetime.timedelta(microseconds=(s + S // 3) % S)
                got = I.callm(pr, 'rollback', w.at(t))
                l = round(float(w.num(I.getattr(got, 'left'))) * 10 ** 6)
                if l != -(S // 3):
                    w.bad.append((name, 'the occurrence at %s starts at %+d microseconds from it' % (t, l)))
        return w

    def judge(I, d):
        if d.raised:
            yield (d.loc, 'creating a time condition raises %s%s' % (d.exc, short(d.exc.fields.get('args'))))
            return
        for name, msg in d.value.bad[:2]:
            yield (FILES[2] if '(class)' in name else FILES[1] if '"' in name else FILES[0], '%s: %s' % (name, msg))
    ctx.explore('spelled periods', scen, judge, need=150)


# ---------------------------------------------------------------------------------------------- C41
def signature(I, v, depth=0):
    v = I.force(v)
    if isinstance(v, Obj) and depth < 8:
        return (v.cls.name,) + tuple(sorted((str(k), signature(I, x, depth + 1)) for k, x in v.fields.items() if k != '_str' and not str(k).startswith('_cached')))
    if isinstance(v, (AList,)):
        return ('list',) + tuple(signature(I, x, depth + 1) for x in v.items)
    if isinstance(v, (tuple, list)):
        return ('list',) + tuple(signature(I, x, depth + 1) for x in v)
    if isinstance(v, ADict):
        return ('dict',) + tuple(sorted((str(k), signature(I, x, depth + 1)) for k, x in v.d.items()))
    return short(v)


SAME = [
    ("has failed", "TaskFailed()"), ("has succeeded", "TaskSucceeded()"), ("has finished", "TaskFinished()"), ("has started", "TaskStarted()"),
    ("has terminated", "TaskTerminated()"), ("has inacted", "TaskInacted()"),
    ("task 'my task' has failed", "TaskFailed(task='my task')"), ("task 'my task' has succeeded", "TaskSucceeded(task='my task')"),
    ("task 'my task' has started", "TaskStarted(task='my task')"), ("task 'my task' has finished", "TaskFinished(task='my task')"),
    ("task 'my task' has terminated", "TaskTerminated(task='my task')"), ("task 'my task' has inacted", "TaskInacted(task='my task')"),
    ("has failed past 2 hours", "TaskFailed(period=TimeDelta('2 hours'))"), ("has succeeded in past 30 min", "TaskSucceeded(period=TimeDelta('30 min'))"),
    ("task 'x' has started past 1 days, 2 hours", "TaskStarted(task='x', period=TimeDelta('1 days, 2 hours'))"),
    ("every 10 minutes", "TaskStarted(period=TimeDelta('10 minutes')) == 0"), ("every 1 hour, 30 min", "every('1 hour, 30 min')"),
    ("after task 'a'", "DependSuccess(depend_task='a')"), ("after task 'a' succeeded", "DependSuccess(depend_task='a')"),
    ("after task 'a' failed", "DependFailure(depend_task='a')"), ("after task 'a' finished", "DependFinish(depend_task='a')"),
    ("after tasks 'a', 'b'", "All(DependSuccess(depend_task='a'), DependSuccess(depend_task='b'))"),
    ("after tasks 'a', 'b', 'c d' succeeded", "All(DependSuccess(depend_task='a'), DependSuccess(depend_task='b'), DependSuccess(depend_task='c d'))"),
    ("after tasks 'a', 'b' failed", "All(DependFailure(depend_task='a'), DependFailure(depend_task='b'))"),
    ("after tasks 'a', 'b' finished", "All(DependFinish(depend_task='a'), DependFinish(depend_task='b'))"),
    ("after any tasks 'a', 'b'", "Any(DependSuccess(depend_task='a'), DependSuccess(depend_task='b'))"),
    ("after any tasks 'a', 'b' succeeded", "Any(DependSuccess(depend_task='a'), DependSuccess(depend_task='b'))"),
    ("after any tasks 'a', 'b' failed", "Any(DependFailure(depend_task='a'), DependFailure(depend_task='b'))"),
    ("after any tasks 'a', 'b' finished", "Any(DependFinish(depend_task='a'), DependFinish(depend_task='b'))"),
    ("while task 'a' is running", "TaskRunning(task='a')"), ("task 'a' is running", "TaskRunning(task='a')"),
    ("scheduler has more than 3 cycles", "SchedulerCycles() > 3"), ("scheduler has less than 3 cycles", "SchedulerCycles() < 3"), ("scheduler has 3 cycles", "SchedulerCycles() == 3"),
    ("scheduler has run over 10 min", "Not(SchedulerStarted(period=TimeDelta('10 min')))"), ("scheduler started 10 min ago", "SchedulerStarted(period=TimeDelta('10 min'))"),
    ("env 'test'", "IsEnv('test')"), ("param 'mode' exists", "ParamExists('mode')"), ("param 'mode' is 'fast'", "ParamExists(mode='fast')"),
    ("always", "IsPeriod(period=always)"), ("never", "IsPeriod(period=never)"),
    ("true", "AlwaysTrue()"), ("false", "AlwaysFalse()"), ("always true", "AlwaysTrue()"), ("always false", "AlwaysFalse()"), (True, "AlwaysTrue()"), (False, "AlwaysFalse()"),
    ("cron 1-5 * * * *", "TaskRunnable(period=Cron('1-5', '*', '*', '*', '*'))"),
    ("!after_all_success('a', 'b')", "All(DependSuccess(depend_task='a'), DependSuccess(depend_task='b'))"),
    ("!after_any_fail('a', 'b')", "Any(DependFailure(depend_task='a'), DependFailure(depend_task='b'))"),
    ("!cond_of(started)", "TaskStarted()"), ("!cond_of(failed('x'))", "TaskFailed(task='x')"), ("!cond_of(succeeded('x'))", "TaskSucceeded(task='x')"), ("!cond_of(finished)", "TaskFinished()"),
    ("!cond_of(retry)", "Retry(-1)"), ("!retry(3)", "Retry(3)"), ("!cond_of(running)", "TaskRunning()"), ("!cond_of(running('x'))", "TaskRunning(task='x')"),
    ("!running('x') >= 2", "TaskRunning(task='x') >= 2"), ("!running == 0", "TaskRunning() == 0"), ("!running < 2", "TaskRunning() < 2"), ("!running != 2", "TaskRunning() != 2"),
    ("!running('x') <= 2", "TaskRunning(task='x') <= 2"), ("!running > 2", "TaskRunning() > 2"),
    ("!scheduler_cycles(more_than=2)", "SchedulerCycles() > 2"), ("!scheduler_cycles(less_than=4)", "SchedulerCycles() < 4"),
    ("!scheduler_running(more_than='10 min')", "SchedulerStarted(period=TimeSpanDelta(near='10 min'))"),
    ("!scheduler_running(less_than='10 min')", "SchedulerStarted(period=TimeSpanDelta(far='10 min'))"),
    ("!every('5 min', based='success')", "TaskSucceeded(period=TimeDelta('5 min')) == 0"), ("!every('5 min', based='fail')", "TaskFailed(period=TimeDelta('5 min')) == 0"),
    ("!every('5 min', based='finish')", "TaskExecutable(period=TimeDelta('5 min'))"),
]
DELTAS = {'10 minutes': 600, '2 hours': 7200, '30 min': 1800, '1 days, 2 hours': 93600, '1 hour, 30 min': 5400, '10 s': 10, '1 minute 30 seconds': 90, '2 days': 172800, '1 week': None,
          '1 h': 3600, '5 m': 300, '15 sec': 15, '00:10:30': 630, '1 day 12:00:00': 129600, '1.5 hours': 5400, '2h 30min': 9000, '100 ms': 0.1}


def trees(n):
    """All binary expression trees with n leaves as nested tuples."""
    if n == 1:
        return [None]
    return [(op, l, r) for k in range(1, n) for l in trees(k) for r in trees(n - k) for op in '&|']


def render(t, names, style, neg, parent=None):
    """Text of a tree; neg is an iterator over which nodes are negated."""
    not_ = next(neg)
    if t is None:
        s = next(names)
        return ('~' + s if style != 'loose' else '~ ' + s) if not_ else s
    op, l, r = t
    sep = ' ' if style != 'tight' else ''
    s = render(l, names, style, neg, op) + sep + op + sep + render(r, names, style, neg, op)
    paren = not_ or style == 'full' or (parent == '&' and op == '|')
    if paren:
        s = '(' + s + ')' if style != 'loose' else '( ' + s + ' )'
    return '~' + s if not_ else s


def size(t):
    return 1 if t is None else 1 + size(t[1]) + size(t[2])


def texts(thorough):
    out = []
    for n in (1, 2, 3, 4):
        for t in trees(n):
            m = size(t)
            for k in range(0, m + 1 if thorough and n < 4 else (3 if n < 3 else 2 if n < 4 else 1)):
                for on in itertools.combinations(range(m), k):
                    for style in ('plain', 'tight', 'full', 'loose') if (thorough or n < 3) else ('plain', 'full') if n < 4 else ('plain',):
                        out.append(render(t, iter('abcd'), style, iter([i in on for i in range(m)])))
    out += ['~~a', '((a))', '(a) & ((b | c))', '~(~a)', '(((a | b)) & c)', '~~(a & b)', 'a & b & c & d', 'a | b | c | d', '(a & b) | (c & d)', '~(a | b) & ~(c | d)', '(a|(b&(c|d)))',
            'a & ~ b', '~(a & ~(b | ~c))', '((a | b) & c) | d', 'a & (b | (c & ~d))']
    return sorted(set(out), key=lambda s: (len(s), s))


CLIENT = '''
from rocketry.core.condition import BaseCondition
class ClientCond(BaseCondition):
    def __init__(self, label):
        self.label = label
    def get_state(self, task=None, session=None):
        return _observe(self)
'''
ATOM = {'a': 'cond one', 'b': 'second cond', 'c': "task 'x' third", 'd': 'fourth'}


@rule('C41', 'Conditions given as text are the conditions they spell', T,
      'Each form of the condition syntax (status, dependency, running, scheduler, environment, parameter, delta, cron and constant conditions) and of the conds API yields the same condition as the classes '
      'constructed directly, and texts combining conditions with &, |, ~ and parentheses (and periods with & and |) have the value of that expression, ~ binding before & and & before |, for every value of the parts. '
      'Text conditions registered in a session are found for the tasks of that session only.')
def c41(ctx):
    def same(I):
        w = TextClock(I, INSIDE)
        txt, ref = I.choose('text', SAME)
        ns = client(I, SRC + 'def cond_of(c):\n    return c.get_cond()\n')
        w.txt, w.ref = txt, ref
        src = txt[1:] if isinstance(txt, str) and txt.startswith('!') else 'parse_condition(%r)' % (txt,)
        got = client(I, 'got = %s\nref = %s\n' % (src, ref), dict(ns))
        w.got, w.exp = signature(I, got['got']), signature(I, got['ref'])
        return w

    def j_same(I, d):
        if d.raised:
            yield (d.loc, 'a condition from text raises %s%s' % (d.exc, short(d.exc.fields.get('args'))))
            return
        w = d.value
        if w.got != w.exp:
            yield (FILES[1], '%s is not the condition %s but %s' % (w.txt if not str(w.txt).startswith('!') else 'conds: ' + w.txt[1:], w.ref, str(w.got)[:200]))
    ctx.explore('forms', same, j_same, need=len(SAME))

    def delta(I):
        w = TextClock(I, INSIDE)
        w.s = I.choose('delta', [s for s in DELTAS if DELTAS[s] is not None])
        how = I.choose('as', ['TimeDelta', 'far', 'near'])
        ns = client(I, SRC)
        pr = I.call(ns['TimeDelta'], [w.s], {}) if how == 'TimeDelta' else I.call(ns['TimeSpanDelta'], [], {how: w.s})
        iv = I.callm(pr, 'rollback', w.dt)
        w.got = float(w.num(I.getattr(iv, 'right' if how == 'near' else 'left')))
        return w

    def j_delta(I, d):
        if d.raised:
            yield (d.loc, 'a time delta from text raises %s%s' % (d.exc, short(d.exc.fields.get('args'))))
            return
        w = d.value
        if abs(w.got + DELTAS[w.s]) > 1e-6:
            yield ('rocketry/pybox/time/convert.py', 'the time delta "%s" is %s seconds' % (w.s, -w.got))
    ctx.explore('time deltas', delta, j_delta, need=len(DELTAS))

    # ------------------------------------------------------------------ expressions
    def expr(I):
        w = TextClock(I, INSIDE)
        w.s = I.choose('expression', TEXTS)
        vals = {}

        def obs(I, a, k):
            return vals[a[0].fields['label']]
        ns = client(I, CLIENT + SRC, {'_observe': Builtin('_observe', obs)})
        parsers = ADict({})
        for n, txt in ATOM.items():
            parsers.d[txt] = I.call(ns['ClientCond'], [n], {})
        I.call(ns['add_condition_parser'], [parsers], {})
        session = I.call(ns['Session'], [], {})
        text = ''.join(ATOM.get(ch, ch) for ch in w.s)
        w.text = text
        c = I.call(ns['parse_condition'], [text], {'session': session})
        names = [n for n in ATOM if n in w.s]
        w.bad = None
        for combo in itertools.product([False, True], repeat=len(names)):
            vals.update(zip(names, combo))
            got = I.truth(I.callm(c, 'observe', session=session))
            exp = bool(eval(w.s, {}, {n: int(v) for n, v in vals.items()}) & 1)
            if got != exp:
                w.bad = (dict(zip(names, combo)), got)
                break
        return w

    def j_expr(I, d):
        if d.raised:
            yield (d.loc, 'parsing an expression raises %s%s' % (d.exc, short(d.exc.fields.get('args'))))
            return
        w = d.value
        if w.bad:
            yield ('rocketry/parse/utils/string_parser.py', 'the text "%s" (%s) is %s for %s' % (w.text, w.s, w.bad[1], w.bad[0]))
    TEXTS = texts(ctx.thorough)
    ctx.explore('expressions', expr, j_expr, need=len(TEXTS), max_paths=20000)

    PT = {'a': ('time of day before 12:00', True), 'b': ('time of day after 12:00', False), 'c': ('time of week between Wed and Fri', True), 'd': ('time of month after 20th', False)}
    PTEXTS = [t for t in texts(False) if '~' not in t]

    def ptext(I):
        w = TextClock(I, INSIDE)
        w.s = I.choose('expression', PTEXTS)
        order = I.choose('names', ['abcd', 'badc'])
        ns = client(I, SRC)
        key = dict(zip('abcd', order))
        w.text = ''.join(PT[key[ch]][0] if ch in key else ch for ch in w.s)
        pr = I.call(ns['parse_time'], [w.text], {})
        w.got = I.truth(I.callm(pr, '__contains__', w.at(INSIDE)))
        w.exp = bool(eval(w.s, {}, {n: int(PT[key[n]][1]) for n in key}) & 1)
        return w

    def j_ptext(I, d):
        if d.raised:
            yield (d.loc, 'parsing a period raises %s%s' % (d.exc, short(d.exc.fields.get('args'))))
            return
        w = d.value
        if w.got != w.exp:
            yield ('rocketry/parse/utils/string_parser.py', 'the period "%s" contains the time %s: %s' % (w.text, INSIDE, w.got))
    ctx.explore('period expressions', ptext, j_ptext, need=len(PTEXTS))

    # ------------------------------------------------------------------ syntax of a session
    CUSTOM = '''
import re
from rocketry import Rocketry
from rocketry.parse import parse_condition
first = Rocketry(config={'task_execution': 'main'})
second = Rocketry(config={'task_execution': 'main'})
first.session.set_as_default() if _default == 'first' else second.session.set_as_default()

@first.cond("is plain")
def plain():
    return _plain()

@first.cond(re.compile(r"is at (?P<place>.+)"))
def at(place):
    return _at(place)

@first.cond(["is one", "is uno"])
def either():
    return _either()

@first.task("is at home", name="t1")
def t1():
    ...

@first.task("is at work & is plain", name="t2")
def t2():
    ...

@first.task("is uno | is one", name="t3")
def t3():
    ...
known = []
for text in ("is plain", "is at home", "is one", "is uno"):
    try:
        second.task(text, name=text)(t1)
    except Exception:
        pass
    else:
        known.append(text)
'''

    def custom(I):
        w = TextClock(I, INSIDE)
        vals = {}

        def val(n):
            return Builtin('_' + n, lambda I, a, k: vals[tuple(a) or n])
        w.default = I.choose('default session', ['first', 'second'])
        ns = client(I, CUSTOM, {'_plain': val('plain'), '_at': val('at'), '_either': val('either'), '_default': w.default})
        w.known = [I.force(x) for x in ns['known'].items]
        w.bad = []
        s = I.getattr(ns['first'], 'session')
        for combo in itertools.product([False, True], repeat=4):
            home, work, plain, either = combo
            vals.update({('home',): home, ('work',): work, 'plain': plain, 'either': either})
            for n, exp in (('t1', home), ('t2', work and plain), ('t3', either), ('t1', home)):
                t = I.callm(s, '__getitem__', n)
                got = I.truth(I.callm(I.getattr(t, 'start_cond'), 'observe', task=t, session=s))
                if got != exp:
                    w.bad.append((n, combo, got))
        return w

    def j_custom(I, d):
        if d.raised:
            yield (d.loc, 'using a condition registered with text raises %s%s' % (d.exc, short(d.exc.fields.get('args'))))
            return
        w = d.value
        for n, combo, got in w.bad[:2]:
            yield ('rocketry/conditions/func.py', 'task %s of a session with its own text conditions: the condition is %s for (at home, at work, plain, either) = %s' % (n, got, combo))
        if w.known:
            yield ('rocketry/parse/_condition/condition_item.py', 'the text conditions %s of a session are known in another session (default session: the %s)' % (w.known, w.default))
    ctx.explore('texts of a session', custom, j_custom, need=2)
