"""The clock of the session: where every time the package uses comes from."""
import datetime
from ..framework import rule
from ..interp import short
from ..model import *
from .lifecycle import Life, scenario, task_records, desc, where, clock_syms, run_once
from .conditions import CondW, CT
from .shutdown import session_scen
from .termination import TermW
from .scheduling import BOOL, ready, boot

T = 'Path-sensitive abstract interpretation (provenance of times: every reading of a clock is an effect)'
TASK = 'rocketry/core/task.py'


def rival(I, w, **conf):
    """Another session, with a clock of its own, is the default one."""
    def read(I, a, k):
        I.event('clock', path='the clock of another session')
        return Lin.sym('other%d' % sum(1 for e in I.trace if e.kind == 'clock'))
    o = I.call(w.ns['Session'], [], {'config': ADict(dict(conf, time_func=Builtin('other_time_func', read)))})
    I.callm(o, 'set_as_default')
    return o


def foreign(I):
    for e in I.trace:
        if e.kind == 'clock':
            yield (e.loc, 'a time is read from %s although the session has its own clock' % e.path)
            return


def first(x):
    return sorted(x)[0] if x else None


@rule('C30', 'Times come from the clock of the session', T,
      'With a clock configured for the session (and another session with another clock being the default one), on every path of running a task in each mode to each outcome, of whole scheduler sessions to every way out, of '
      'checking timeouts and of observing each condition, no other clock is read; the run record has the reading taken at the start of the run, the outcome record that same start, the reading at its end as end and their '
      'difference as runtime, also for overlapping runs; times given to the user are in the timezone of the session.')
def c30(ctx):
    def runs(I):
        class W(Life):
            def __init__(self, I, **c):
                Life.__init__(self, I, **c)
                rival(I, self)
        return scenario(I, cls=W)

    def j_runs(I, d):
        if d.raised:
            return
        w = d.value
        yield from foreign(I)
        recs = [(i, e) for i, e in enumerate(I.trace) if e.kind == 'record' and e.rec.get('task_name') == 'a' and e.action]
        start = None
        reads = [(i, clock_syms(e.value)) for i, e in enumerate(I.trace) if e.kind == 'time']
        for i, e in recs:
            s, en = I.force(e.rec.get('start')), I.force(e.rec.get('end'))
            if not clock_syms(s):
                yield (e.chain, 'the start in the %s record is %s, not a reading of the session clock (%s)' % (e.action, short(s), desc(w, I)))
                continue
            if e.action == 'run':
                start = s
            else:
                if start is not None and s != start:
                    yield (e.chain, 'the start in the %s record is %s, but the run record has %s (%s)' % (e.action, short(s), short(start), desc(w, I)))
                if not clock_syms(en):
                    yield (e.chain, 'the end in the %s record is %s, not a reading of the session clock (%s)' % (e.action, short(en), desc(w, I)))
                elif isinstance(en, Lin) and isinstance(s, Lin):
                    rt = I.force(e.rec.get('runtime'))
                    if rt != en.add(s, -1):
                        yield (e.chain, 'the runtime in the %s record is %s, not the time from its start to its end (%s)' % (e.action, short(rt), desc(w, I)))
                ex = [j for j, x in enumerate(I.trace) if x.kind == 'execute']
                at = [j for j, c in reads if c == clock_syms(en)]
                if ex and at and at[0] < ex[-1]:
                    yield (e.chain, 'the end in the %s record was read before the task code was run (%s)' % (e.action, desc(w, I)))
    ctx.explore('runs', runs, j_runs, need=100)

    def overlap(I):
        w = boot(I, cls=TermW, multilaunch=True)
        w.mode = I.choose('execution', ['async', 'thread', 'process'])
        w.endv = False
        rival(I, w)
        w.t = w.task('a', execution=w.mode)
        ready(I, w)
        for i in range(2):
            I.callm(w.t, 'run')
            I.memo[('cond', 'start:a')] = False
            w.frozen = True
            w.cycle()
        w.frozen = False
        w.order = I.choose('ends first', [0, 1])
        if len(w.runs) != 2:
            raise PathAbort('runs')
        for r in ([w.runs[w.order], w.runs[1 - w.order]]):
            w.finish(I, r, 'success')
            r.data['dead'] = True
        I.callm(w.scheduler, 'handle_logs')
        return w

    def j_overlap(I, d):
        if d.raised:
            return
        w = d.value
        yield from foreign(I)
        byrun = {}
        for r in w.records:
            if r.get('action'):
                byrun.setdefault(short(r.get('run_id')), []).append(r)
        for rid, rs in byrun.items():
            st = {short(I.force(r.get('start'))) for r in rs}
            if len(st) != 1:
                yield (TASK + ': _set_status', 'the records %s of one of two overlapping %s runs have different starts: %s' % ([r['action'] for r in rs], w.mode, sorted(st)))
    ctx.explore('overlapping runs', overlap, j_overlap, need=2)

    # ------------------------------------------------------------------ creation times (sessions one after the other)
    class Stamped(Life):
        stamp = False

        def log_emit(self, I, logger, level, msg, kw):
            if self.stamp and self.is_task_logger(I, logger) and isinstance(kw.get('extra'), ADict):
                r = I.callm(logger, 'makeRecord', logger.fields['name'], 20, '(unknown file)', 0, msg, (), None, None, kw['extra'], None)
                I.event('stamped', action=kw['extra'].d.get('action'), at=I.force(I.getattr(r, 'created')))
            Life.log_emit(self, I, logger, level, msg, kw)

        def observe(self, I, cond, task, session):
            if cond.fields['label'] == 'shut':
                return True
            return Life.observe(self, I, cond, task, session)

    def stamps(I):
        w = Stamped(I, execution='process')
        w.own = I.choose('time_func', BOOL)
        w.other = I.choose('session started before', [None, 'with time_func', 'without time_func'])
        w.config(shut_cond=w.cond('shut'))
        if not w.own:
            w.config(time_func=None)
        if w.other:
            o = rival(I, w, shut_cond=w.cond('shut'))
            if w.other == 'without time_func':
                I.setattr(I.getattr(o, 'config'), 'time_func', None)
            I.callm(o, 'start')
        w.mode = I.choose('execution', ['main', 'async', 'thread', 'process'])
        w.t = w.task('a', execution=w.mode)
        I.callm(w.session, 'start')
        I.trace.clear()
        w.stamp = True
        w.exc = run_once(I, w, w.t)
        return w

    def j_stamps(I, d):
        if d.raised:
            yield (d.loc, 'a session with its own clock: %s' % d.exc)
            return
        w = d.value
        st = [e for e in I.trace if e.kind == 'stamped' and e.action]
        if not st:
            raise Unsupported('no record was created')
        for e in st:
            own = bool(clock_syms(e.at))
            if own != w.own or (not own and e.at != Lin.sym('wall')):
                yield (e.loc, 'the creation time of the %s record of a %s run is %s; the session has %s (another session started before: %s)' % (
                    e.action, w.mode, short(e.at), 'its own clock' if w.own else 'no time_func', w.other))
    ctx.explore('creation times', stamps, j_stamps, need=20)

    def public(I):
        tz = I.choose('timezone', [None, datetime.timezone.utc])
        w = CondW(I, timezone=tz)
        w.tz = tz
        w.boot_clock()
        I.trace.clear()
        return I.force(I.callm(w.session, 'get_current_time'))

    def j_public(I, d):
        if d.raised:
            yield (d.loc, 'get_current_time raises %s' % d.exc)
            return
        yield from foreign(I)
        if d.value != DT(Lin.sym('now'), d.world.tz):
            yield ('rocketry/session.py', 'get_current_time gives %s, expected the reading of the session clock in timezone %s' % (short(d.value), d.world.tz))
    ctx.explore('current time', public, j_public, need=2)

    def sess(I):
        w = session_scen(I, ['shut_cond', 'shut_down', 'SchedulerExit', 'error', 'restart'], modes=('process', 'thread', 'async', 'main'))
        return w

    def j_sess(I, d):
        yield from foreign(I)
    ctx.explore('sessions', sess, j_sess, need=20)

    def timeouts(I):
        w = TermW(I, timeout=0.1)
        w.mode = I.choose('execution', ['async', 'thread', 'process'])
        w.endv = False
        rival(I, w)
        w.t = w.task('a', execution=w.mode, timeout=I.choose('timeout', [None, 10]))
        ready(I, w)
        I.callm(w.t, 'run')
        w.cycle()
        w.cycle()
        return w
    ctx.explore('timeouts', timeouts, j_sess, need=6)

    # ------------------------------------------------------------------ conditions
    CONDS = [('TaskStarted', {}), ('TaskSucceeded', {}), ('TaskFailed', {}), ('TaskTerminated', {}), ('TaskInacted', {}), ('TaskFinished', {}), ('TaskExecutable', {}), ('TaskRunnable', {}),
             ('TaskRunning', {}), ('SchedulerStarted', {}), ('IsPeriod', {}), ('DependSuccess', {'depend_task': 'b'}), ('DependFailure', {'depend_task': 'b'}), ('DependFinish', {'depend_task': 'b'})]

    def conds(I):
        tz = I.choose('timezone', [None, datetime.timezone.utc])
        w = CondW(I, timezone=tz, force_status_from_logs=I.choose('force_status_from_logs', BOOL))
        w.boot_clock()
        w.tz = tz
        rival(I, w, timezone=None if tz else datetime.timezone.utc)
        w.t, w.u = w.task('a', execution='main'), w.task('b', execution='main')
        w.history = [w.rec(0, 'run', 'inside', 'a'), w.rec(1, 'success', 'inside', 'b')]
        for r in w.history:
            r['run_id'] = 'id-' + r['task_name']
        I.await_(I.callm(w.scheduler, 'startup'))
        I.trace.clear()
        name, kw = I.choose('condition', CONDS)
        kw = dict(kw)
        form = 'cycle'
        if 'depend_task' not in kw:
            form = I.choose('period', ['cycle', 'delta'] if name != 'IsPeriod' else ['cycle'])
            w.in_period = True
            kw['period'] = w.period() if form == 'cycle' else I.call(I.get('rocketry.core.time.base.TimeDelta'), [datetime.timedelta(seconds=20)], {})
        ns = client(I, 'from rocketry.conditions import *\n')
        w.name = name
        I.callm(I.call(ns[name], [], kw), 'observe', task=w.t, session=w.session)
        return w

    def j_conds(I, d):
        if d.raised:
            yield (d.loc, 'observing a condition raises %s%s' % (d.exc, short(d.exc.fields.get('args'))))
            return
        yield from foreign(I)
        for e in I.trace:
            if e.kind == 'inside' and isinstance(e.at, DT) and e.at.tz != d.value.tz:
                yield (e.loc, '%s asks the period for a time in timezone %s, the session has %s' % (d.value.name, e.at.tz, d.value.tz))
            if e.kind in ('inside', 'bound') and isinstance(e.at, DT) and e.at.lin not in [Lin.sym(x) for x in ('now', 'r0', 'r1')]:
                yield (e.loc, '%s asks the period for %s, neither a reading of the session clock nor a time of the task log' % (d.value.name, short(e.at)))
    ctx.explore('conditions', conds, j_conds, need=40)

    def given(I):
        tz = I.choose('timezone', [None, datetime.timezone.utc])
        w = CondW(I, timezone=tz)
        w.boot_clock()
        w.tz = tz
        rival(I, w, timezone=None if tz else datetime.timezone.utc)
        w.t = w.task('a', execution='main')
        acts = ['run', 'success', 'fail', 'terminate', 'inaction', 'crash']
        w.history = [w.rec(i, a, 'inside', 'a') for i, a in enumerate(acts)]
        I.await_(I.callm(w.scheduler, 'startup'))
        w.got = {a: I.force(I.getattr(w.t, 'last_' + a)) for a in acts}
        w.got['scheduler startup'] = I.force(I.getattr(w.scheduler, 'startup_time'))
        return w

    def j_given(I, d):
        if d.raised:
            yield (d.loc, 'reading the times of a task raises %s' % d.exc)
            return
        yield from foreign(I)
        w = d.value
        for n, v in w.got.items():
            exp = Lin.sym('now') if n.startswith('sched') else Lin.sym('r%d' % ['run', 'success', 'fail', 'terminate', 'inaction', 'crash'].index(n))
            if v != DT(exp, w.tz):
                yield (TASK, 'the time of the last %s is %s, expected %s in timezone %s' % (n, short(v), exp, w.tz))
    ctx.explore('times given', given, j_given, need=2)
