"""Termination of runs: when it is due, how it is delivered, what is logged."""
import datetime
from ..framework import rule
from ..interp import short
from ..model import *

T = 'Path-sensitive abstract interpretation (typestate of runs under termination)'
BOOL = [False, True]


class PhaseClock(Clock):
    """All readings within a phase are equal; phases are ordered."""

    def __init__(self):
        Clock.__init__(self)
        self.phase = 0

    def read(self, I):
        v = Lin.sym('P%d' % self.phase)
        I.event('time', value=v)
        return v


LIMITS = (90000.5, 200000.25)      # task timeout, session timeout


def phase_order(I):
    """Durations between phases are abstracted to the regions separated by the configured limits."""
    def order(d):
        co = dict(d.co)
        if len(co) == 2 and sorted(co.values()) == [-1, 1] and all(k[0] == 'P' for k in co):
            (pos,) = [k for k, c in co.items() if c == 1]
            (neg,) = [k for k, c in co.items() if c == -1]
            a, b = int(pos[1:]), int(neg[1:])
            if a < b:
                r = order(d.scale(-1))
                return None if r is None else -r
            reg = duration(I, b, a)
            x = reg + d.const
            return (x > 0) - (x < 0)
        return None
    return order


def duration(I, b, a):
    """Representative duration between the start of phase b and phase a (a > b): below/at/between/at/above the limits."""
    if a == b:
        return 0
    opts = [50, 90000.5, 100000, 200000.25, 300000]
    if a - b == 1:
        return I.choose(('duration', b, a), opts)
    lo = duration(I, b, a - 1) + duration(I, a - 1, a)
    return lo


class Term(Sched):
    outcomes = ('return',)
    max_obs = 0

    def __init__(self, I, **c):
        Sched.__init__(self, I, **c)
        self.clock = PhaseClock()
        I.order = phase_order(I)
        self.cancelled_outcomes = ('Cancelled',)

    # processes die when terminated and joined
    def terminate(self, I, o):
        o.data['term_requested'] = True

    def join(self, I, o):
        if o.data.get('term_requested'):
            o.data['dead'] = True
            I.event('killed', run=o)

    def cancel(self, I, o):
        o.data['cancel_requested'] = True

    def await_task(self, I, t):
        d = t.data
        if d.get('mode') == 'main':
            return env.run_task_obj(I, t)
        if d.get('dead') or d.get('done'):
            d['dead'] = True
            if d.get('exc') is not None:
                raise AbsRaise(d['exc'], I.loc())
            return d.get('result')
        if not d.get('cancel_requested'):
            d['dead'] = True
            return env.run_task_obj(I, t)
        state = d.get('state') or I.choose(('async state', self.runs.index(t)), ['suspended', 'not begun'])
        d['dead'] = True
        d['done'] = True
        I.event('cancelled', run=t, state=state)
        if state == 'not begun':
            raise AbsRaise(I.make_exc(I.ext['asyncio.CancelledError']), I.loc())
        # the coroutine is suspended in the task's code, which sees the cancellation
        old = self.outcomes
        self.outcomes = self.cancelled_outcomes
        try:
            d['started'] = False
            return env.run_task_obj(I, t)
        finally:
            self.outcomes = old


def term_events(I, w, since=0):
    """(run, mechanism) of every termination delivered."""
    out = []
    for e in I.trace[since:]:
        if e.kind == 'terminate':
            out.append((e.obj, e.op, e))
        elif e.kind == 'flag' and e.op == 'set':
            for r in w.runs:
                if r.data['kind'] == 'thread' and e.obj in thread_events(I, r):
                    out.append((r, 'event', e))
    return out


def thread_events(I, th):
    """The termination event handed to a threaded run: the Event created before the thread that the thread did not set
    itself on starting."""
    evs = th.data.get('term_events')
    return evs or ()


class TermW(Term):
    endv = False            # fixed value of the end conditions; None: any outcome
    n = 1

    def observe(self, I, cond, task, session):
        lab = cond.fields['label']
        if not lab.startswith('end'):
            return Sched.observe(self, I, cond, task, session)
        if self.endv is not None:
            return self.endv
        v = I.choose(('cond', lab), [False, True, 'raises'] if self.n == 1 else [False])
        I.event('observe', cond=lab, value=v)
        if v == 'raises':
            raise AbsRaise(Obj(PyClass(ValueError), {'args': ()}, label='error in condition'), I.loc())
        return v

    def thread_start(self, I, th):
        pre = [e for e in I.trace if e.kind == 'flag' and e.op == 'set']
        n0 = len(I.trace)
        Sched.thread_start(self, I, th)
        set_in = {id(e.obj) for e in I.trace[n0:] if e.kind == 'flag' and e.op == 'set'}
        # events reachable from the run's arguments
        found = []

        def walk(v, depth=0):
            if depth > 4:
                return
            if isinstance(v, Obj):
                if isinstance(v.cls, ClassVal) and v.cls.path == 'threading.Event':
                    if v not in found and id(v) not in set_in:
                        found.append(v)
                    return
                if v.cls is self.ns['TaskRun'] or v.cls is self.ns['Parameters']:
                    for x in v.fields.values():
                        walk(x, depth + 1)
            elif isinstance(v, ADict):
                for x in v.d.values():
                    walk(x, depth + 1)
            elif isinstance(v, (tuple, list)):
                for x in v:
                    walk(x, depth + 1)
            elif isinstance(v, AList):
                for x in v.items:
                    walk(x, depth + 1)
        walk(th.data['args'])
        walk(th.data['kwargs'])
        th.data['term_events'] = found


def run_objects(t):
    """The run objects the task holds."""
    for v in list(t.fields.values()):
        for x in v.items if isinstance(v, AList) else v.d.values() if isinstance(v, ADict) else ():
            if isinstance(x, Obj) and isinstance(x.fields, dict) and 'run_id' in x.fields:
                yield x


def begin(I, cls=TermW, **conf):
    mode = I.choose('execution', ['process', 'thread', 'async'])
    w = cls(I, multilaunch=True, timeout=datetime.timedelta(seconds=LIMITS[1]), **conf)
    w.mode = mode
    return w


def start(I, w):
    I.callm(w.t, 'run')
    w.cycle()


@rule('C09', 'Live runs are terminated exactly when they should be', T,
      'On every path of a cycle over live runs (one, or two started at different times) the runs that get a termination are exactly: all, if '
      'termination was requested or the end condition holds (or fails to evaluate while condition errors are silenced); otherwise those '
      'of a non-permanent task whose duration exceeds the task timeout, or the session timeout when the task has none.')
def c09(ctx):
    def scen(I):
        w = begin(I, silence_cond_check=Choice('silence_cond_check', BOOL))
        to = I.choose('task.timeout', [None, LIMITS[0]])
        w.to = to
        w.t = w.task('a', execution=w.mode, start_cond=None, permanent=Choice('permanent', BOOL),
                     timeout=None if to is None else datetime.timedelta(seconds=to))
        w.scheduler.fields['n_cycles'] = 0
        w.endv = False
        start(I, w)
        w.n = I.choose('runs', [1, 2])
        if w.n == 2:
            w.clock.phase = 1
            start(I, w)
        w.clock.phase += 1
        w.force = I.choose('termination requested', BOOL) if w.n == 1 else False
        if w.n == 1:
            free(I, w, [w.t], ('priority', 'daemon', 'status', 'disabled'), ('silence_task_prerun', 'instant_shutdown'))
        if w.force:
            I.callm(w.t, 'terminate')
        w.endv = None
        w.since = len(I.trace)
        w.cycle()
        return w

    def judge(I, d):
        w = d.world
        silence = I.force(Choice('silence_cond_check', BOOL))
        if not hasattr(w, 'since'):
            return
        end = I.memo.get(('cond', 'end:a'), False)
        if end is False and w.n == 1:
            end = I.choose(('cond', 'end:a'), [False, True, 'raises'])
        if end == 'raises' and not silence:
            if not d.raised:
                yield ('rocketry/core/task.py', 'the end condition failed to evaluate, errors are not silenced, but the cycle went on')
            return
        if d.raised:
            yield (d.loc, 'exception %s leaves the cycle (end condition %s, silenced=%s)' % (d.exc, end, silence))
            return
        got = [r for r, _, _ in term_events(I, w, w.since)]
        perm = I.force(Choice('permanent', BOOL))
        limit = w.to if w.to is not None else LIMITS[1]
        for i, r in enumerate(w.runs[:w.n]):
            if r.data.get('dead_before'):
                continue
            dur = duration(I, i, w.clock.phase)
            early = any(x is r for x, _, _ in term_events(I, w, 0)[:0])
            exp = w.force or end in (True, 'raises') or (not perm and dur > limit)
            if w.n == 2 and i == 0 and not perm and duration(I, 0, 1) > limit:
                continue        # was already due when the second run was started
            if (r in got) != exp:
                yield (where_term(I, w), '%s run %s terminated: requested=%s, end condition=%s, permanent=%s, duration=%s s, task '
                       'timeout=%s s, session timeout=%s s' % (w.mode, 'is' if r in got else 'is not', w.force, end, perm, dur, w.to,
                                                              LIMITS[1]))
    ctx.explore('due', scen, judge, need=60)

    def scen_next(I):
        w = begin(I)
        w.t = w.task('a', execution=w.mode, start_cond=None)
        w.scheduler.fields['n_cycles'] = 0
        w.no_timeout = True
        start(I, w)
        w.idle = I.choose('termination requested', ['while the run is alive', 'after the run has ended'])
        w.later = I.choose('the run ends', ['at once', 'after another cycle'])
        if w.idle == 'after the run has ended':
            gone(w)
            w.cycle()
        I.callm(w.t, 'terminate')
        w.cycle()
        if w.later == 'after another cycle':
            w.cycle()
        gone(w)
        w.first = len(w.runs)
        w.since = len(I.trace)
        start(I, w)
        return w

    def gone(w):
        for r in w.runs:
            r.data.update(dead=True, done=True)

    def judge_next(I, d):
        w = d.world
        if d.raised:
            yield (d.loc, 'exception %s leaves the cycle' % d.exc)
            return
        got = [r for r, _, _ in term_events(I, w, w.since)]
        if any(r in got for r in w.runs[w.first:]):
            yield (where_term(I, w), 'a %s run started after the run the termination was requested for (%s) had ended (%s) is terminated as well' % (w.mode, w.idle, w.later))
    ctx.explore('the next run', scen_next, judge_next, need=6)


def where_term(I, w):
    ev = [e for _, _, e in term_events(I, w, getattr(w, 'since', 0))]
    return ev[-1].loc if ev else 'rocketry/core/task.py'


def term_scen(I, via):
    ids = []

    def rid(I, a, k):
        v = 'run-%d' % (len(ids) + 1)
        ids.append(v)
        return v
    w = begin(I, cls=W10, func_run_id=Builtin('rid', rid, params=[('task', 'PK', None), ('params', 'PK', None)]))
    w.cancelled_outcomes = ('Cancelled', 'return', 'Exception')
    w.ids = ids
    w.via = via
    w.endv = False
    w.t = w.task('a', execution=w.mode, start_cond=None, permanent=(via == 'shutdown'))
    w.u = w.task('b', execution=w.mode, start_cond=None)
    w.scheduler.fields['n_cycles'] = 0
    I.callm(w.u, 'run')
    start(I, w)
    w.n = I.choose('runs', [1, 2])
    if w.n == 2:
        start(I, w)
    w.mine = [r for r in w.runs if r.data['owner'] is w.t]
    w.gone = []
    if w.n == 2 and I.choose('first run has ended', BOOL):
        r = w.mine[0]
        r.data['dead'] = True
        r.data['done'] = True
        w.gone.append(r)
        if I.choose('its outcome could not be logged', BOOL):
            w.config(silence_task_logging=False)
            w.err = Obj(PyClass(RuntimeError), {'args': ()}, label='log write failed')
            for run in run_objects(w.t):
                if r in run.fields.values() and 'exception' in run.fields:
                    run.fields['exception'] = w.err
    w.since = len(I.trace)
    w.nrec = len(w.records)
    free(I, w, [w.t], ('priority', 'daemon', 'status', 'disabled', '_main_alive'), ('silence_task_prerun', 'tasks_as_daemon', 'instant_shutdown'))

    def cycle():
        try:
            w.cycle()
        except AbsRaise as e:
            if e.exc is not w.err:
                raise
    if via == 'request':
        I.callm(w.t, 'terminate')
        cycle()
        w.again = len(I.trace)
        cycle()
    elif via == 'end-cond':
        w.endv = True
        w.end_for = 'a'
        cycle()
        w.again = len(I.trace)
    elif via == 'terminate_all':
        I.await_(I.callm(w.scheduler, 'terminate_all', reason='x'))
        w.again = len(I.trace)
    else:
        # graceful shutdown: ended runs may still be listed; b ends on its own, a is permanent
        for r in w.runs:
            if r.data['owner'] is w.u:
                r.data['dead'] = True
        w.sleep_kills = 'terminated'
        try:
            I.await_(I.callm(w.scheduler, 'shut_down'))
        except AbsRaise as e:
            if e.exc is not w.err:
                raise
        w.again = len(I.trace)
    return w


@rule('C10', 'A termination reaches each live run once and is logged once', T,
      'On every path of terminating runs in each execution mode: each live run gets the mechanism of its kind exactly once (process '
      'terminated and reaped, asyncio task cancelled and awaited, thread signalled), exactly one "terminate" record with the run\'s id '
      'is logged per run that ended because of it (threads log their own), runs that already ended get neither, and the request is '
      'cleared afterwards.')
def c10(ctx):
    def judge(I, d):
        w = d.world
        if d.raised:
            yield (d.loc, 'exception %s %s leaves the termination' % (d.exc, d.exc.fields.get('args')))
            return
        ev = term_events(I, w, w.since)
        mech = {'process': 'terminate', 'async': 'cancel', 'thread': 'event'}[w.mode]
        for i, r in enumerate(w.mine):
            mine = [(m, e) for x, m, e in ev if x is r]
            if r in w.gone:
                if mine:
                    yield (where_term(I, w), 'a %s run that already ended is terminated' % w.mode)
                continue
            if w.mode == 'thread' and not r.data.get('dead') and not I.truth(I.callm(w.t, 'is_alive')):
                yield (where_term(I, w), 'a signalled thread that is still alive is no run of the task any more')
            n1 = [m for m, e in mine if I.trace.index(e) < w.again]
            if n1 != [mech] or (len(mine) > 1 and w.mode != 'thread'):
                yield (where_term(I, w), 'live %s run gets %s instead of one %s' % (w.mode, [m for m, _ in mine], mech))
            if w.mode == 'process' and not r.data.get('dead'):
                yield (where_term(I, w), 'the terminated process is not reaped')
            rid = w.ids[w.order_of(r)]
            recs = [x for x in w.records[w.nrec:] if x.get('run_id') == rid and 'action' in x]
            acts = [x['action'] for x in recs]
            if w.mode == 'process':
                exp = ['terminate']
            elif w.mode == 'thread':
                exp = []
            else:
                ex = [e for e in I.trace if e.kind == 'cancelled' and e.run is r]
                st = ex[0].state if ex else None
                out = None
                if st == 'suspended':
                    j = I.trace.index(ex[0])
                    out = [e.outcome for e in I.trace[j:] if e.kind == 'execute'][0:1]
                    out = out[0] if out else None
                exp = [{'return': 'success', 'Exception': 'fail'}.get(out, 'terminate')]
            if acts != exp:
                yield (where_rec(I), 'log records of the terminated %s run are %s, expected %s' % (w.mode, acts, exp))
        lost = [x for x in w.records[w.nrec:] if x.get('action') and x.get('run_id') not in w.ids]
        if lost:
            yield (where_rec(I), 'record "%s" of the termination has no run id' % lost[0]['action'])
        if w.gone:
            rid = w.ids[w.order_of(w.gone[0])]
            extra = [x['action'] for x in w.records[w.nrec:] if x.get('run_id') == rid and 'action' in x]
            if extra:
                yield (where_rec(I), 'a run that already ended gets a further record %s' % extra)
        if w.via == 'request' and I.truth(I.getattr(w.t, 'force_termination')):
            yield (where_term(I, w), 'the termination request stays set after it was carried out')
        b = [m for x, m, e in ev if x.data['owner'] is w.u]
        if b and w.via in ('request', 'end-cond'):
            yield (where_term(I, w), 'a run of another task is terminated')

    for via in ('request', 'end-cond', 'terminate_all', 'shutdown'):
        ctx.explore(via, lambda I: term_scen(I, via), judge, need=6)


class W10(TermW):
    err = None

    def observe(self, I, cond, task, session):
        lab = cond.fields['label']
        if lab.startswith('end'):
            return bool(self.endv) and lab == 'end:a'
        return Sched.observe(self, I, cond, task, session)

    def sleep(self, I, delay):
        if self.sleep_kills == 'terminated':
            # signalled threads end in time; a permanent task does not end by itself
            for r, m, _ in term_events(I, self, self.since):
                r.data['dead'] = True

    def order_of(self, r):
        return self.runs.index(r)


def where_rec(I):
    ev = [e for e in I.trace if e.kind == 'record']
    return ev[-1].chain if ev else 'rocketry/core/task.py'
