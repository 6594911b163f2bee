"""Run lifecycle: what reaches the task log for one run, in every execution mode and for every outcome."""
from ..framework import rule
from ..interp import short, Fiber
from ..model import *
from ..env import run_task_obj

TERMINAL = ('success', 'fail', 'terminate', 'inaction', 'crash')
EXPECT = {'return': 'success', 'Exception': 'fail', 'SchedulerRestart': 'success', 'SchedulerExit': 'success',
          'TaskInaction': 'inaction', 'TaskTermination': 'terminate', 'Cancelled': 'terminate'}
MODES = ('main', 'async', 'thread', 'process')


class Life(Base):
    """One run of one task, from the request to start it until its last log record is handled."""
    timeouts = 0
    earlier = None              # an earlier run that is alive
    kept = '<missing>'          # the return value of the run before
    check_order = False
    prev = None
    returns_none = False        # also runs that return None

    def thread_start(self, I, th):
        th.data['alive'] = True
        self.run_target(I, th)
        th.data['alive'] = False

    def run_target(self, I, th):
        I.event('thread_begin', obj=th)
        args = list(I.iterate(th.data['args'])) if th.data['args'] != () else []
        kw = th.data['kwargs'].d if isinstance(th.data['kwargs'], ADict) else {}
        try:
            I.call(th.data['target'], args, dict(kw))
        except AbsRaise as e:
            I.event('thread_died', exc=e.exc)
        I.event('thread_end', obj=th)

    def alive(self, I, o):
        if o.data.get('kind') == 'async':
            return not o.data.get('done', False)
        return o.data.get('alive', False)

    def task_created(self, I, t):
        self.async_tasks.append(t)

    def queue_get(self, I, q, block, timeout):
        # nothing came in the time waited: the child, which already came to its end, is gone
        if block:
            for e in I.trace:
                if e.kind == 'process_start':
                    e.obj.data['alive'] = False
            self.timeouts += 1
            if self.timeouts > 3 and self.earlier is not None and self.earlier.data['alive']:
                self.earlier.data['alive'] = False
                I.event('in vain', what='waiting for the start of a process that is gone, as long as an earlier run is alive')
        Base.queue_get(self, I, q, block, timeout)

    def run_child(self, I, p, tgt, kw):
        if self.fault == 'dies':
            # the process ends before it could report anything
            return
        Base.run_child(self, I, p, tgt, kw)

    def pickleable(self, I, v):
        return self.fault != 'pickle'

    def __init__(self, I, **c):
        self.async_tasks = []
        Base.__init__(self, I, **c)

    def finish(self, I):
        """Let the event loop run the created asyncio tasks, let child processes end, handle the log queue."""
        for t in self.async_tasks:
            if not t.data.get('started'):
                try:
                    run_task_obj(I, t)
                except AbsRaise:
                    pass
        for e in list(I.trace):
            if e.kind == 'process_start':
                e.obj.data['alive'] = False
        try:
            I.callm(self.scheduler, 'handle_logs')
        except AbsRaise as e:
            I.event('handle_logs_raised', exc=e.exc)


def run_once(I, w, t, via='scheduler'):
    """Start the task through the scheduler; returns the exception that left it, if any."""
    try:
        if via == 'scheduler':
            I.await_(I.callm(w.scheduler, 'run_task', t))
        else:
            I.await_(I.callm(t, 'start_async'))
        exc = None
    except AbsRaise as e:
        exc = e
    w.finish(I)
    return exc


def task_records(w, name='a'):
    return [r for r in w.records if r.get('task_name') == name and 'action' in r]


FAULTS = (None, 'arg', 'hook', 'process_success', 'process_failure')
# processes that are spawned get a pickled copy of the task
PROCESS_FAULTS = FAULTS + ('pickle', 'dies')


def scenario(I, log_failures=False, faults=FAULTS, cls=Life, prev=(None, 'return', 'Exception', 'TaskInaction', 'alive'), **config):
    mode = I.choose('execution', list(MODES))
    conf = dict(config)
    w = cls(I, **conf)
    w.log_failures = log_failures
    w.mode = mode
    if mode == 'async' and 'Cancelled' not in w.outcomes:
        # cancelled by the event loop
        w.outcomes = tuple(w.outcomes) + ('Cancelled',)
    is_async = I.choose('execute is a coroutine function', [False, True])
    own = mode
    if I.choose('execution is given by', ['task', 'session']) == 'session':
        w.config(execution=mode)
        own = None
    w.t = t = w.task('a', is_async=is_async, execution=own, parameters=ADict({'p': I.call(w.ns['ClientArg'], ['p'], {})}))
    I.getattr(I.getattr(w.session, 'hooks'), 'task_execute').items.append(w.hook('h'))
    free(I, w, [t], ('permanent', 'priority', 'daemon', 'disabled', 'multilaunch', '_main_alive', 'on_startup', 'on_shutdown'), ('silence_task_prerun', 'silence_task_logging', 'tasks_as_daemon', 'multilaunch', 'instant_shutdown'))
    w.before = []
    if own is not None:
        w.prev = I.choose('previous run', list(prev))
        if w.prev == 'alive':
            # of a task that may be launched several times
            t.fields['status'] = 'run'
            w.earlier = th = I.call(I.ext['threading.Thread'], [], {})
            th.data['alive'] = True
            I.callm(I.getattr(t, '_run_stack'), 'append', I.call(w.ns['TaskRun'], [], {'start': Lin.sym('t0'), 'task': th}))
        elif w.prev is not None:
            old, w.outcomes, w.log_failures = w.outcomes, (w.prev,), False
            run_once(I, w, t)
            w.outcomes, w.log_failures = old, log_failures
            w.before = list(I.trace)
            w.records = []
            w.runno = 1
            if w.prev == 'return':
                w.kept = w.RESULT
            w.RESULT = Obj(PyClass(object), {}, label='RESULT of the second run')
            for x in w.async_tasks:
                x.data['started'] = True
    if cls.returns_none and w.prev in (None, 'return') and I.choose('the task returns', ['a value', 'None']) == 'None':
        w.RESULT = None
    w.fault = I.choose('fault', list(PROCESS_FAULTS if mode == 'process' and faults is FAULTS else faults))
    I.trace.clear()
    w.exc = run_once(I, w, t)
    return w


def where(I, kind='record', pred=lambda e: True, default='rocketry/core/task.py'):
    ev = [e for e in I.trace if e.kind == kind and pred(e)]
    return (ev[-1].get('chain') or ev[-1].loc) if ev else default


def outcome_of(I, w):
    ex = [e for e in I.trace if e.kind == 'execute']
    if not ex:
        return 'fail'
    exp = EXPECT[ex[-1].outcome]
    if ex[-1].outcome == 'return' and w.fault == 'process_success':
        exp = 'fail'
    return exp


def desc(w, I):
    ex = [e for e in I.trace if e.kind == 'execute']
    return "execution=%s, task code: %s%s" % (w.mode, ex[-1].outcome if ex else 'not reached',
                                              ', failing: %s' % w.fault if w.fault else '')


# ---------------------------------------------------------------------------------------------- overlapping runs
class Overlap(Life):
    """Two runs that are alive at the same time, each suspended in the code of its task until it ends."""

    def __init__(self, I, **c):
        self.fibers, self.cur, self.ended = [], [], []
        Life.__init__(self, I, **c)

    def begin(self, I, o, body):
        def act():
            body()
            o.data['alive'] = False
        f = Fiber(I, act)
        f.obj = o
        f.no = len(self.fibers)
        f.parked = False
        self.fibers.append(f)
        self.cur.append(f)
        f.resume()
        self.cur.pop()

    def thread_start(self, I, th):
        th.data['alive'] = True
        self.begin(I, th, lambda: self.run_target(I, th))

    def run_child(self, I, p, tgt, kw):
        def body():
            self.child_process = p
            Life.run_child(self, I, p, tgt, kw)
        self.begin(I, p, body)

    def begin_async(self, I):
        for t in self.async_tasks:
            if not t.data.get('started'):
                def body(t=t):
                    try:
                        run_task_obj(I, t)
                    except AbsRaise:
                        pass
                self.begin(I, t, body)

    def execute(self, I, task, params):
        f = self.cur[-1]
        f.parked = True
        out = f.park()
        f.parked = False
        I.event('execute', task=task, params=params, outcome=out, no=f.no)
        if out == 'return':
            return self.results[f.no]
        raise AbsRaise(mk_exc(I, out), I.loc())

    def end(self, I, no, out):
        f = self.fibers[no]
        self.cur.append(f)
        if f.obj.data.get('kind') != 'async':
            self.child_process = f.obj
        f.send(out)
        self.cur.pop()
        self.ended.append((no, out))


OVER = ('return', 'Exception', 'TaskInaction', 'TaskTermination')


def overlap(I, cls=Overlap, outcomes=OVER, **config):
    mode = I.choose('execution', ['async', 'thread', 'process'])
    w = cls(I, multilaunch=True, max_process_count=8, **config)
    w.end_cond = None
    w.no_timeout = True
    w.mode = mode
    w.before = []
    w.results = [Obj(PyClass(object), {}, label='RESULT of run %d' % i) for i in (1, 2)]
    is_async = mode == 'async' and I.choose('execute is a coroutine function', [False, True])
    w.t = w.task('a', is_async=is_async, execution=mode)
    w.same = I.choose('the second run is of', ['the same task', 'another task']) == 'the same task'
    w.u = w.t if w.same else w.task('b', is_async=is_async, execution=mode)
    w.of = [w.t, w.u]
    I.trace.clear()
    try:
        early = mode == 'async' and I.choose('the first run has begun when the second is started', [False, True])
        for i, t in enumerate(w.of):
            I.await_(I.callm(w.scheduler, 'run_task', t))
            if mode == 'async' and (early or i):
                w.begin_async(I)
        if len(w.fibers) == 2 and all(f.parked for f in w.fibers):
            first = I.choose('the run that ends first', [0, 1])
            for no in (first, 1 - first):
                w.end(I, no, I.choose(('run %d ends with' % (no + 1)), list(outcomes)))
                I.callm(w.scheduler, 'handle_logs')
                for t in (w.t,) if w.same else (w.t, w.u):
                    I.callm(t, '_clean_run_stack')
    finally:
        for f in w.fibers:
            f.close()
    return w


def over_desc(w):
    return '%s runs of %s, %s' % (w.mode, 'one task' if w.same else 'two tasks',
                                  ', then '.join('run %d ended with %s' % (n + 1, o) for n, o in w.ended))


def over_raised(I, d, w):
    if d.raised:
        yield (d.loc, 'exception %s leaves the scheduler with two runs alive (%s)' % (d.exc, w.mode))
    elif len(w.ended) != 2:
        yield (where(I, 'start'), 'two runs of %s did not both begin (%s)' % ('one task' if w.same else 'two tasks', w.mode))


def over_c05(I, d):
    w = d.world
    bad = list(over_raised(I, d, w))
    yield from bad
    if bad:
        return
    for name, t in (('a', w.t), ('b', w.u)):
        mine = [i for i in (0, 1) if w.of[i] is t and (name == 'a' or not w.same)]
        acts = [r['action'] for r in task_records(w, name)]
        exp = ['run'] * len(mine) + [EXPECT[o] for n, o in w.ended if n in mine]
        if acts != exp:
            yield (where(I), 'the log records of task %s are %s, expected %s (%s)' % (name, acts, exp, over_desc(w)))


def over_c06(I, d):
    w = d.world
    bad = list(over_raised(I, d, w))
    yield from bad
    if bad:
        return
    ids = [e.value for e in I.trace if e.kind == 'runid']
    if len(ids) != 2:
        yield (where(I, 'runid'), 'run id generated %d times for two runs (%s)' % (len(ids), over_desc(w)))
        return
    recs = [r for r in w.records if 'action' in r]
    runs = [r for r in recs if r['action'] == 'run']
    outs = [r for r in recs if r['action'] != 'run']
    for r, no in list(zip(runs, (0, 1))) + list(zip(outs, [n for n, _ in w.ended])):
        if key_of(r.get('run_id')) != key_of(ids[no]):
            yield (where(I, pred=lambda e: e.rec is r), 'record "%s" of run %d has run_id %s instead of the id generated for that run (%s)' % (
                r['action'], no + 1, short(r.get('run_id')), over_desc(w)))


def over_c22(I, d):
    w = d.world
    bad = list(over_raised(I, d, w))
    yield from bad
    if bad:
        return
    for t in (w.t, w.u):
        try:
            got = I.call(I.getattr(I.getattr(w.session, 'returns'), '__getitem__'), [t], {})
        except AbsRaise:
            got = '<missing>'
        exp = [w.results[n] for n, o in w.ended if o == 'return' and w.of[n] is t]
        if got is not (exp[-1] if exp else '<missing>') and got != (exp[-1] if exp else '<missing>'):
            yield (where(I), 'the return value of a task is %s (%s)' % (short(got), over_desc(w)))


def run_ids():
    def rid(I, a, k):
        v = Sym(('run_id', I.fresh('run_id')), meta={'notnone': True, 'truthy': True, 'notobj': True})
        I.event('runid', value=v, task=a[0])
        return v
    return Builtin('func_run_id', rid, params=[('task', 'PK', None), ('params', 'PK', None)])


@rule('C05', 'One run record, one matching outcome record per run',
      'Path-sensitive abstract interpretation of the run lifecycle (typestate over log records)',
      'On every abstract path of starting a task in each of the four execution modes, for every outcome of the task code, '
      'its success/failure handlers, its arguments and its pre-execution hooks, the task log receives exactly one "run" '
      'record, then exactly one terminal record whose action is the one the outcome prescribes.')
def c05(ctx):
    def judge(I, d):
        w = d.value
        acts = [r['action'] for r in task_records(w)]
        exp = outcome_of(I, w)
        ctl = w.fault in ('process_success',) and any(e.kind == 'execute' and e.outcome.startswith('Scheduler') for e in I.trace)
        if ctl:
            return
        for e in I.trace:
            if e.kind == 'in vain':
                yield (e.loc, '%s (%s)' % (e.what, desc(w, I)))
        if acts != ['run', exp]:
            yield (where(I), 'log records of one run are %s, expected %s (%s)' % (acts, ['run', exp], desc(w, I)))
        stray = [r for r in w.records if 'action' in r and r.get('task_name') != 'a']
        if stray:
            yield (where(I), 'record logged under another task name: %r (%s)' % (stray[0].get('task_name'), desc(w, I)))
    ctx.explore('lifecycle', scenario, judge, need=40)
    ctx.explore('overlapping runs', overlap, over_c05, need=60)


@rule('C06', 'Log records of a run carry that run\'s id',
      'Path-sensitive abstract interpretation of the run lifecycle (value provenance of run ids)',
      'Every action record written for a run carries the run id generated for that run, in all execution modes and outcomes.')
def c06(ctx):
    def judge(I, d):
        w = d.value
        recs = task_records(w)
        ids = [e for e in I.trace if e.kind == 'runid']
        if len(ids) != 1:
            yield (where(I, 'runid'), 'run id generated %d times for one run (%s)' % (len(ids), desc(w, I)))
            return
        for r in recs:
            if key_of(r.get('run_id')) != key_of(ids[0].value):
                yield (where(I, pred=lambda e: e.rec is r), 'record "%s" of the run has run_id %r instead of the id generated for '
                       'the run (%s)' % (r['action'], short(r.get('run_id')), desc(w, I)))

    def scen(I):
        def rid(I, a, k):
            v = Sym(('run_id', I.fresh('run_id')), meta={'notnone': True, 'truthy': True, 'notobj': True})
            I.event('runid', value=v, task=a[0])
            return v
        return scenario(I, func_run_id=Builtin('func_run_id', rid, params=[('task', 'PK', None), ('params', 'PK', None)]))
    ctx.explore('run-id', scen, judge, need=40)
    ctx.explore('overlapping runs', lambda I: overlap(I, func_run_id=run_ids()), over_c06, need=60)

    # overlapping runs that are terminated
    from .termination import term_scen, where_rec

    def judge_t(I, d):
        w = d.world
        if d.raised:
            return
        for i, r in enumerate(w.mine):
            rid = w.ids[w.order_of(r)]
            recs = [x for x in w.records if x.get('run_id') == rid and 'action' in x]
            if r not in w.gone and w.mode == 'process' and [x['action'] for x in recs] != ['run', 'terminate']:
                yield (where_rec(I), 'the records with the id of a terminated run (one of %d) are %s' % (len(w.mine), [x['action'] for x in recs]))
        lost = [x for x in w.records if x.get('action') and x.get('run_id') not in w.ids]
        if lost:
            yield (where_rec(I), 'record "%s" has the run id %s of no run' % (lost[0]['action'], short(lost[0].get('run_id'))))
    for via in ('request', 'end-cond', 'terminate_all'):
        ctx.explore('run ids of terminated runs, ' + via, lambda I, v=via: term_scen(I, v), judge_t, need=6)


def clock_syms(v):
    """Names of the clock readings a value is built from."""
    out = set()

    def walk(k):
        if isinstance(k, tuple):
            for x in k:
                walk(x)
        elif isinstance(k, str) and k[:1] == 't' and k[1:].isdigit():
            out.add(k)
    walk(key_of(v))
    return out


ACTIONS = ('run', 'success', 'fail', 'terminate', 'inaction', 'crash')


@rule('C07', 'Task status and last-action times agree with the task log',
      'Path-sensitive abstract interpretation of the run lifecycle (cache/log coherence)',
      'At the end of every abstract path of a run, the task status is the action of its last log record; for each action the '
      'reported last time is the clock reading taken for the latest such record, and is unset for actions that were never logged; '
      'if the log write of a record of the run failed, the task ends with status "fail" (never success), and a run whose start '
      'could not be logged is not executed (except in a child process that is already running).')
def c07(ctx):
    def judge(I, d):
        w = d.value
        yield from coherent(I, w, w.t, 'a', desc(w, I))

    def coherent(I, w, t, name, what):
        recs = [e for e in I.trace if e.kind == 'record' and e.rec.get('task_name') == name and e.action]
        st = I.callm(t, 'get_status')
        if recs and st != recs[-1].action:
            yield (recs[-1].chain, 'status is %r after the log record "%s" (%s)' % (st, recs[-1].action, what))
        seen = {}
        trace = w.before + list(I.trace)
        for i, e in enumerate(trace):
            if e.kind == 'record' and e.rec.get('task_name') == name:
                seen[e.action] = (i, e)
        for a in ACTIONS:
            v = I.getattr(t, 'last_' + a)
            if a not in seen:
                if v is not None:
                    yield (where(I), 'last_%s is set although no "%s" record was logged (%s)' % (a, a, what))
                continue
            i, e = seen[a]
            got = clock_syms(v)
            # readings taken after the previous record and up to this record (its end)
            own = set()
            for x in ('end', 'created') if a != 'run' else ('created', 'start'):
                if e.rec.get(x) is not None:
                    own |= clock_syms(e.rec[x])
            j = i
            while j > 0 and trace[j].kind not in ('time',):
                j -= 1
            if trace[j].kind == 'time':
                own |= clock_syms(trace[j].value)
            if not got or not got <= own:
                yield (e.chain, 'last_%s is %s although the latest "%s" record was logged at %s (%s)' % (
                    a, short(v), a, sorted(own), what))
    ctx.explore('status-follows-log', lambda I: scenario(I, prev=(None, 'return', 'Exception', 'TaskInaction')), judge, need=40)

    def over(I, d):
        w = d.world
        bad = list(over_raised(I, d, w))
        yield from bad
        if bad:
            return
        for name, t in (('a', w.t), ('b', w.u)) if not w.same else (('a', w.t),):
            yield from coherent(I, w, t, name, over_desc(w))
    ctx.explore('overlapping runs', overlap, over, need=60)

    def judge2(I, d):
        w = d.value
        if not w.n_logfail:
            return
        st = I.callm(w.t, 'get_status')
        what = [e for e in I.trace if e.kind == 'logfail'][0]
        if what.what == 'run':
            if w.mode == 'process':
                return          # the child process runs on and reports its own outcome
            if any(e.kind == 'execute' for e in I.trace):
                yield (what.loc, 'the task was executed although its "run" record could not be written (%s)' % desc(w, I))
        if st != 'fail':
            yield (what.loc, 'status is %r after the write of the "%s" record failed (%s)' % (st, what.what, desc(w, I)))
    ctx.explore('failed-log-write', lambda I: scenario(I, log_failures=True, faults=(None,), prev=(None, 'return')), judge2, need=40)


@rule('C22', 'Return values are stored before the success becomes visible',
      'Path-sensitive abstract interpretation of the run lifecycle (effect ordering)',
      'On every abstract path: when the task code returned and the run is logged as success, the exact returned object is in the '
      'session return values under that task, stored before the success record; no other outcome stores anything.')
def c22(ctx):
    def stored(I, w):
        try:
            return I.call(I.getattr(I.getattr(w.session, 'returns'), '__getitem__'), [w.t], {})
        except AbsRaise:
            return '<missing>'

    class W(Life):
        at_success = '<none>'
        returns_none = True

        def persist(self, I, rec):
            if rec.get('action') == 'success':
                self.at_success = stored(I, self)
            Life.persist(self, I, rec)

    def scen(I):
        return scenario(I, cls=W)

    def judge(I, d):
        w = d.value
        ex = [e for e in I.trace if e.kind == 'execute']
        out = ex[-1].outcome if ex else None
        if out == 'return' and w.fault != 'process_success':
            if stored(I, w) is not w.RESULT:
                yield (where(I), 'the returned value is not available in the session returns (%s): %s' % (desc(w, I), short(stored(I, w))))
            elif w.at_success is not w.RESULT:
                yield (where(I), 'success is logged before the return value is stored (%s)' % desc(w, I))
        elif out not in ('SchedulerRestart', 'SchedulerExit') and stored(I, w) is not w.kept:
            yield (where(I), 'the return value became %s although the run did not succeed (%s)' % (short(stored(I, w)), desc(w, I)))
    ctx.explore('return-values', scen, judge, need=40)
    ctx.explore('overlapping runs', overlap, over_c22, need=60)



# ---------------------------------------------------------------------------------------------- C36
class RelayW(Sched):
    """Process runs of two tasks; a run may end at any point at which the scheduler cannot see it."""

    def __init__(self, I, **c):
        self.ended = {}
        Sched.__init__(self, I, **c)

    def end(self, I, r):
        act = I.choose(('ends with', self.runs.index(r)), ['success', 'fail', 'inaction'])
        v = Obj(PyClass(object), {}, label='RESULT%d' % self.runs.index(r))
        self.ended[r] = (act, v)
        self.finish(I, r, act, v)

    def moment(self, I, what):
        for r in list(self.runs):
            if r.data['kind'] == 'process' and not r.data.get('dead') and r not in self.ended and r.data.get('relayed'):
                if I.choose(('run %d ends' % self.runs.index(r), what), [True, False]):
                    self.end(I, r)

    def run_child(self, I, p, tgt, kw):
        self.moment(I, 'while another process starts')
        Sched.run_child(self, I, p, tgt, kw)
        p.data['relayed'] = True

    def alive(self, I, o):
        if o.data.get('kind') == 'process':
            return not o.data.get('dead')
        return Sched.alive(self, I, o)

    def sleep(self, I, delay):
        for r in list(self.runs):
            if not r.data.get('dead') and r not in self.ended:
                self.end(I, r)


@rule('C36', 'Every record of a process run reaches the task log once, with its return value',
      'Path-sensitive abstract interpretation of the log relay over all interleavings of process ends',
      'For two process tasks and every moment at which their runs end (while the other process is starting, between cycles, during shutdown): after the session '
      'the task log holds for each run its run record followed by its outcome record, once, under its own task and run id, in the order they were sent; the value '
      'returned by each succeeded run is stored under its task, before its success record; no record is left in the queue.')
def c36(ctx):
    def scen(I):
        w = RelayW(I, instant_shutdown=False, max_process_count=8)
        w.end_cond = None
        w.no_timeout = True
        ml = I.choose('two runs of one task', [False, True])
        w.tasks = [w.task('a', execution='process', multilaunch=ml)] + ([] if ml else [w.task('b', execution='process')])
        for f in ('is_alive',):
            w.scheduler.fields[f] = True
        w.scheduler.fields.setdefault('n_cycles', 0)
        I.trace.clear()
        w.stored_at = {}
        returns = I.getattr(w.session, 'returns')
        old = w.persist

        def persist(I, rec):
            if rec.get('action') == 'success':
                t = [t for t in w.tasks if I.getattr(t, 'name') == rec.get('task_name')]
                try:
                    w.stored_at[id(rec)] = I.callm(returns, '__getitem__', t[0]) if t else None
                except AbsRaise:
                    w.stored_at[id(rec)] = None
            old(I, rec)
        w.persist = persist
        for t in w.tasks:
            I.callm(t, 'run')
            if ml:
                I.callm(t, 'run')
            I.memo[('cond', 'start:' + I.getattr(t, 'name'))] = False
        w.cycle()
        w.moment(I, 'between cycles')
        w.cycle()
        I.await_(I.callm(w.scheduler, 'shut_down'))
        return w

    def judge(I, d):
        w = d.world
        if d.raised:
            yield (d.loc, 'exception %s%s leaves the scheduler' % (d.exc, short(d.exc.fields.get('args'))))
            return
        if len(w.runs) != 2:
            yield (where(I), '%d process runs were started for two requests' % len(w.runs))
            return
        if w.scheduler.fields['_log_queue'].data['items']:
            yield ('rocketry/core/schedule.py', 'records are left in the log queue after the session')
        recs = [r for r in w.records if 'action' in r]
        for i, r in enumerate(w.runs):
            rel = [e for e in I.trace if e.kind == 'relay' and e.rec.data.get('process') is r]
            rid = rel[0].rec.fields.get('run_id')
            name = rel[0].rec.fields.get('task_name')
            act, v = w.ended[r]
            mine = [x for x in recs if x.get('run_id') == rid and x.get('task_name') == name]
            if [x['action'] for x in mine] != ['run', act]:
                yield ('rocketry/core/task.py, rocketry/core/schedule.py: relay of log records', 'the log has %s for a process run of task "%s" that ended with %s' % (
                    [x['action'] for x in mine], name, act))
                continue
            if act == 'success':
                last = not any(w.ended[q][0] == 'success' for q in w.runs[i + 1:] if q.data['owner'].fields.get('name') == name)
                if w.stored_at.get(id(mine[1])) is not v:
                    yield ('rocketry/core/task.py, rocketry/core/schedule.py: relay of log records',
                           'the success of a process run of task "%s" is logged without its return value being stored (stored: %s)' % (name, short(w.stored_at.get(id(mine[1])))))
            if any(k == '__return__' for x in mine for k in x):
                yield ('rocketry/core/schedule.py', 'the returned object is written to the task log')
    ctx.explore('interleavings', scen, judge, need=20)
