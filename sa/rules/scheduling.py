"""Starting runs: who may start, when, how many, in which order."""
from ..framework import rule
from ..interp import short
from ..model import *

T_STARTS = 'Path-sensitive abstract interpretation of the scheduler cycle over all liveness histories'


def boot(I, cls=Sched, **conf):
    w = cls(I, **conf)
    w.outcomes = ('return',)
    w.no_timeout = True
    w.max_obs = 1
    w.end_cond = None
    return w


def ready(I, w):
    """Startup without tasks to start: sets the scheduler's per-session attributes."""
    for f in ('is_alive',):
        w.scheduler.fields[f] = True
    w.scheduler.fields.setdefault('n_cycles', 0)
    I.trace.clear()


def Own(I, w, mode):
    """The execution is the task's own or, if it has none, that of the session."""
    if I.choose('execution is given by', ['task', 'session']) == 'task':
        return mode
    I.getattr(w.session, 'config').fields['execution'] = mode
    return None


@rule('C01', 'No overlapping runs of a task unless multilaunch is allowed', T_STARTS,
      'On every path of two and three consecutive scheduler cycles (and of startup followed by cycles and shutdown), with each '
      'liveness history of earlier runs, a run is started while an earlier run of the same task is alive only if the task\'s '
      'multilaunch setting, or the session\'s when the task has none, is true.')
def c01(ctx):
    def scen(I, cycles=2):
        mode = I.choose('execution', ['async', 'thread', 'process'])
        w = boot(I, multilaunch=Choice('session.multilaunch', [False, True]))
        w.mode = mode
        w.t = w.task('a', execution=Own(I, w, mode), multilaunch=Choice('task.multilaunch', [None, False, True]))
        free(I, w, [w.t], ('permanent', 'force_run', 'disabled', 'status', '_main_alive', 'daemon', 'priority'), ('silence_task_prerun', 'silence_cond_check', 'tasks_as_daemon', 'instant_shutdown'))
        ready(I, w)
        for i in range(cycles):
            if I.choose(('requested', i), [True, False]):
                I.callm(w.t, 'run')
            w.cycle()
        return w

    def judge(I, d):
        w = d.value if d.value is not None else d.world
        if d.raised:
            return
        for e in I.trace:
            if e.kind != 'start':
                continue
            same = [r for r in e.alive if r.data['owner'] is e.task]
            if same:
                m = I.force(Choice('task.multilaunch', [None, False, True]))
                if m is None:
                    m = I.force(Choice('session.multilaunch', [False, True]))
                if not m:
                    yield (e.chain, 'a new run of the task is started while a previous %s run is alive and multilaunch is not '
                           'allowed (task.multilaunch=%s)' % (w.mode, I.force(Choice('task.multilaunch', [None, False, True]))))
    ctx.explore('cycles', lambda I: scen(I, 3 if ctx.thorough else 2), judge, need=20)

    def scen2(I):
        mode = I.choose('execution', ['async', 'thread', 'process'])
        w = boot(I, multilaunch=Choice('session.multilaunch', [False, True]), instant_shutdown=True)
        w.mode = mode
        w.t = w.task('a', execution=mode, on_startup=True, on_shutdown=True,
                     multilaunch=Choice('task.multilaunch', [None, False, True]))
        I.callm(w.t, 'run')
        I.callm(w.t, 'run')
        I.trace.clear()
        I.await_(I.callm(w.scheduler, 'startup'))
        w.cycle()
        w.sleep_kills = True
        I.await_(I.callm(w.scheduler, 'shut_down'))
        return w
    ctx.explore('startup-shutdown', scen2, judge, need=6)

    class Kill(Sched):
        """Terminating a process ends it; a thread goes on until it looks at the event."""

        def terminate(self, I, o):
            o.data['dead'] = True

        def cancel(self, I, o):
            o.data['cancel'] = True

        def await_task(self, I, t):
            if t.data.get('cancel'):
                # the coroutine may go on after the cancellation was delivered
                t.data['cancel'] = False
                t.data['dead'] = not I.choose('cancellation is ignored', BOOL)
                if t.data['dead']:
                    raise AbsRaise(mk_exc(I, 'Cancelled'), I.loc())
                return None
            return Sched.await_task(self, I, t)

    def earlier(I, where):
        """Earlier runs, some of them alive, at the cycle, the startup or the shutdown."""
        mode = I.choose('execution', ['async', 'thread', 'process'])
        w = boot(I, cls=Kill, multilaunch=True, max_process_count=10)
        w.max_obs = 0
        w.mode = mode
        w.t = w.task('a', execution=Own(I, w, mode), on_startup=where == 'startup', on_shutdown=where == 'shutdown')
        n = I.choose('earlier runs', [1, 2, 3] if ctx.thorough else [1, 2])
        for i in range(n):
            I.await_(I.callm(w.scheduler, 'run_task', w.t))
        for i, r in enumerate(list(w.runs)):
            if I.choose(('ended', i), BOOL):
                r.data['dead'] = True
        I.getattr(w.session, 'config').fields['multilaunch'] = Choice('session.multilaunch', [False, True])
        w.t.fields['multilaunch'] = Choice('task.multilaunch', [None, False, True])
        free(I, w, [w.t], ('permanent', 'force_run', 'disabled', 'status', '_main_alive', 'daemon', 'priority'), ('silence_task_prerun', 'silence_task_logging', 'tasks_as_daemon'))
        ready(I, w)
        I.callm(w.t, 'run')
        if where == 'startup':
            I.await_(I.callm(w.scheduler, 'startup'))
        elif where == 'shutdown':
            I.await_(I.callm(w.scheduler, 'run_shutdown_tasks'))
        else:
            if where == 'termination':
                I.callm(w.t, 'terminate')
            w.cycle()
            I.callm(w.t, 'run')
            w.cycle()
        return w
    for where in ('cycle', 'termination', 'startup', 'shutdown'):
        ctx.explore('earlier runs alive, ' + where, lambda I, x=where: earlier(I, x), judge, need=6)


@rule('C02', 'Live process runs never exceed the process limit', T_STARTS,
      'On every path of scheduler cycles over several process tasks (including multilaunch), with each liveness history, a process '
      'is started only while the number of live task processes in the session is below max_process_count.')
def c02(ctx):
    def scen(I, cycles):
        n = I.choose('max_process_count', [1, 2] if not ctx.thorough else [1, 2, 3])
        w = boot(I, max_process_count=n)
        w.n = n
        w.t = w.task('a', execution=Own(I, w, 'process'), multilaunch=True)
        w.u = w.task('b', execution=Choice('b.execution', ['process', 'thread']), multilaunch=Choice('b.multilaunch', [True, None]))
        free(I, w, [w.t, w.u], ('permanent', 'force_run', 'disabled', 'status', '_main_alive', 'daemon', 'priority'), ('silence_task_prerun', 'silence_cond_check', 'tasks_as_daemon', 'instant_shutdown'))
        ready(I, w)
        for i in range(cycles):
            I.callm(w.t, 'run')
            I.callm(w.u, 'run')
            w.cycle()
        return w

    def judge(I, d):
        if d.raised:
            return
        w = d.value
        for e in I.trace:
            if e.kind == 'start' and e.run_kind == 'process':
                n = sum(1 for r in e.alive if r.data['kind'] == 'process')
                if n >= w.n:
                    yield (e.chain, 'a process is started while %d task processes are alive and max_process_count is %d' % (n, w.n))
    ctx.explore('cycles', lambda I: scen(I, 2), judge, need=20, max_paths=20000)

    def scen_startup(I):
        w = boot(I, max_process_count=1)
        w.n = 1
        for nm in 'abc':
            w.task(nm, execution='process', on_startup=(nm != 'c'), on_shutdown=(nm == 'c'),
                   start_cond=w.cond('start:x'))
        I.trace.clear()
        I.await_(I.callm(w.scheduler, 'startup'))
        w.sleep_kills = True
        I.await_(I.callm(w.scheduler, 'shut_down'))
        return w
    ctx.explore('startup-shutdown', scen_startup, judge, need=3)


BOOL = [False, True]


@rule('C03', 'A task starts exactly when it is eligible', T_STARTS,
      'On every path of one scheduler cycle, of the startup and of the shutdown sequence, the set of started tasks is exactly: in a '
      'cycle, tasks that are neither startup nor shutdown tasks, while the scheduler is not on hold, that have a pending run '
      'request or are enabled with a true start condition; in startup (shutdown) only startup (shutdown) tasks, which also start '
      'when they have no start condition and are not disabled.')
def c03(ctx):
    def mk(I, kind, always_false=False):
        w = boot(I)
        mode = I.choose('execution', ['main', 'async', 'thread', 'process'] if kind == 'cycle' or ctx.thorough else ['main', 'thread'])
        kw = dict(execution=mode, disabled=Choice('disabled', BOOL), on_startup=Choice('on_startup', BOOL),
                  on_shutdown=Choice('on_shutdown', BOOL))
        if always_false:
            kw['start_cond'] = None
        w.t = w.task('a', **kw)
        free(I, w, [w.t], ('permanent', 'priority', 'daemon', 'status', '_main_alive', 'multilaunch'),
             ('silence_task_prerun', 'silence_task_logging', 'silence_cond_check', 'tasks_as_daemon', 'instant_shutdown', 'multilaunch'))
        w.always_false = always_false
        w.reqs = I.choose('run requests', [0, 1])
        for _ in range(w.reqs):
            I.callm(w.t, 'run')
        w.kind = kind
        return w

    def forced(I, n):
        return I.force(Choice(n, BOOL))

    def scen(I, kind, af):
        w = mk(I, kind, af)
        if kind == 'cycle':
            ready(I, w)
            w.hold = I.choose('on_hold', BOOL)
            I.setattr(w.scheduler, 'on_hold', w.hold)
            I.trace.clear()
            w.cycle()
        elif kind == 'startup':
            I.trace.clear()
            I.await_(I.callm(w.scheduler, 'startup'))
        else:
            I.trace.clear()
            w.sleep_kills = True
            I.await_(I.callm(w.scheduler, 'shut_down'))
        return w

    def judge(I, d):
        if d.raised:
            yield (d.loc, 'exception %s leaves the scheduler' % d.exc)
            return
        w = d.value
        got = sum(1 for e in I.trace if e.kind == 'start') + sum(
            1 for e in I.trace if e.kind == 'execute' and I.force(e.task.fields.get('execution')) == 'main')
        cond = False if w.always_false else I.choose(('cond', 'start:a'), BOOL)
        runnable = w.reqs > 0 or (not forced(I, 'disabled') and cond)
        if w.kind == 'cycle':
            exp = (not forced(I, 'on_startup') and not forced(I, 'on_shutdown') and not w.hold and runnable)
        else:
            flag = forced(I, 'on_startup' if w.kind == 'startup' else 'on_shutdown')
            exp = flag and (runnable or (w.always_false and not forced(I, 'disabled')))
        if got != (1 if exp else 0):
            yield (where_start(I), 'task was started %d time(s) in the %s, expected %d (run requests=%d, disabled=%s, start condition '
                   '%s, on_startup=%s, on_shutdown=%s%s)' % (
                       got, w.kind, 1 if exp else 0, w.reqs, forced(I, 'disabled'), 'not set' if w.always_false else cond,
                       forced(I, 'on_startup'), forced(I, 'on_shutdown'),
                       ', on_hold=%s' % w.hold if w.kind == 'cycle' else ''))
    for kind in ('cycle', 'startup', 'shutdown'):
        for af in (False, True):
            ctx.explore('%s%s' % (kind, '-no-start-cond' if af else ''), lambda I, k=kind, a=af: scen(I, k, a), judge, need=8)


def where_start(I):
    ev = [e for e in I.trace if e.kind in ('start', 'execute', 'observe')]
    return ev[-1].get('chain') or ev[-1].loc if ev else 'rocketry/core/schedule.py'


@rule('C04', 'Run requests are served once each, in order, with their own parameters',
      'Path-sensitive abstract interpretation of request queueing and consumption',
      'On every path of cycles after k run requests with distinct parameters (k up to 3), in every execution mode, the runs that start consume '
      'the requests one per run in request order with exactly the requested values, nothing of a request reaches a later run, and the '
      'task\'s own parameters are never changed.')
def c04(ctx):
    def scen(I):
        mode = I.choose('execution', ['main', 'async', 'thread', 'process'])
        w = boot(I, cls=W, multilaunch=True, max_process_count=10)
        w.mode = mode
        w.t = w.task('a', execution=mode, parameters=ADict({'base': 7, 'x': 'task'}), start_cond=None)
        w.k = I.choose('requests', [1, 2, 3])
        for i in range(w.k):
            style = I.choose(('style', i), ['kwargs', 'dict', 'shared']) if i < 1 else style if style == 'shared' else 'kwargs'
            if style == 'kwargs':
                I.callm(w.t, 'run', **{'x': 'req%d' % i, 'only%d' % i: i})
            elif style == 'shared':
                # one parameters object for all the requests, with further values
                if i == 0:
                    w.shared = I.call(w.ns['Parameters'], [], {'x': 'shared'})
                I.callm(w.t, 'run', w.shared, **{'x': 'req%d' % i, 'only%d' % i: i})
            else:
                I.callm(w.t, 'run', ADict({'x': 'req%d' % i, 'only%d' % i: i}))
        I.callm(w.t, 'run') if False else None
        ready(I, w)
        w.frozen = True
        for i in range(w.k):
            w.cycle()
            w.drain(I)
        # afterwards a condition-started run
        I.setattr(w.t, 'start_cond', w.cond('start:always'))
        I.memo[('cond', 'start:always')] = True
        w.cycle()
        w.drain(I)
        return w

    class W(Sched):
        shared = None

        def drain(self, I):
            for r in self.runs:
                if r.data['kind'] == 'async' and not r.data.get('started'):
                    self.in_child += 1
                    d, nf, ne = I.depth, len(I.frames), len(I.exc_stack)
                    try:
                        env.run_task_obj(I, r)
                    except (Park, AbsRaise):
                        pass
                    finally:
                        self.in_child -= 1
                        I.depth = d
                        del I.frames[nf:]
                        del I.exc_stack[ne:]

    def judge(I, d):
        if d.raised:
            yield (d.loc, 'exception %s leaves the scheduler' % d.exc)
            return
        w = d.value
        ex = [e for e in I.trace if e.kind == 'execute']
        for i in range(w.k + 1):
            exp = {'base': 7, 'x': 'req%d' % i, 'only%d' % i: i} if i < w.k else {'base': 7, 'x': 'task'}
            if i >= len(ex):
                yield (where_start(I), 'request %d of %d did not lead to a run (execution=%s)' % (i + 1, w.k, w.mode))
                return
            got = {k: v for k, v in ex[i].params.d.items()}
            if got != exp:
                what = 'request %d' % (i + 1) if i < w.k else 'the run after all requests'
                yield (ex[i].loc if not ex[i].loc.startswith('<') else where_start(I), '%s was run with parameters %s instead of %s '
                       '(execution=%s)' % (what, got, exp, w.mode))
                return
        if len(ex) > w.k + 1:
            yield (where_start(I), '%d requests led to %d runs' % (w.k, len(ex)))
        tp = I.getattr(w.t, 'parameters')
        got = {k: I.call(I.getattr(tp, '__getitem__'), [k], {}) for k in I.iterate(tp)}
        if got != {'base': 7, 'x': 'task'}:
            yield (where_start(I), "the task's own parameters changed to %s" % got)
        if w.shared is not None and [(k, I.call(I.getattr(w.shared, '__getitem__'), [k], {})) for k in I.iterate(w.shared)] != [('x', 'shared')]:
            yield (where_start(I), 'the parameters object given with the requests was changed')

    ctx.explore('requests', scen, judge, need=12)

    # ------------------------------------------------------------ equal, empty and later requests; busy, failing and disabled tasks
    REQ = [{'x': 'A'}, {'x': 'B'}, {}]

    class W2(W):
        ends = 'return'

        def execute(self, I, task, params):
            if self.in_child:
                return W.execute(self, I, task, params)
            I.event('execute', task=task, params=params, outcome=self.ends)
            if self.late == 'in the first run' and self.count('execute') == 1:
                self.request(I, 2)
            if self.ends != 'return' and self.count('execute') == 1:
                raise AbsRaise(mk_exc(I, self.ends), I.loc())
            return self.result(I)

        def request(self, I, i):
            self.reqs.append(self.want[i])
            I.callm(self.t, 'run', **self.want[i])

    def scen2(I):
        mode = I.choose('execution', ['main', 'async', 'thread', 'process'])
        ml = I.choose('multilaunch', BOOL) if mode != 'main' else True
        w = boot(I, cls=W2, multilaunch=ml, max_process_count=10)
        w.mode = mode
        w.phase = I.choose('the task is', ['regular', 'disabled', 'on_startup', 'on_shutdown']) if mode == 'main' else 'regular'
        w.t = w.task('a', execution=mode, parameters=ADict({'base': 7, 'x': 'task'}), start_cond=w.cond('idle'), **(
            {} if w.phase == 'regular' else {w.phase: True}))
        I.memo[('cond', 'start:idle')] = False
        I.memo[('cond', 'idle')] = False
        w.want = [I.choose(('request', i), REQ) for i in range(3)]
        w.reqs = []
        w.late = I.choose('the last request is made', ['before', 'after a cycle'] + ['in the first run'] * (mode == 'main' and w.phase in ('regular', 'disabled')))
        if mode == 'main' and w.phase == 'regular':
            w.ends = I.choose('the first run ends with', ['return', 'Exception', 'TaskInaction'])
        for i in range(3 if w.late == 'before' else 2):
            w.request(I, i)
        ready(I, w)
        w.frozen = True
        if w.phase in ('on_startup', 'on_shutdown'):
            w.expected = 1
            if w.phase == 'on_startup':
                I.await_(I.callm(w.scheduler, 'startup'))
            for _ in range(2):
                w.cycle()
            if w.late == 'after a cycle':
                w.request(I, 2)
                w.cycle()
            if w.phase == 'on_shutdown':
                I.await_(I.callm(w.scheduler, 'shut_down'))
            return w
        w.expected = 3
        for i in range(7):
            w.cycle()
            w.drain(I)
            if i == 0 and w.late == 'after a cycle':
                w.request(I, 2)
            if not ml and i % 2:
                # the live runs end
                for r in w.runs:
                    if not r.data.get('dead'):
                        w.finish(I, r)
                        r.data['dead'] = r.data['done'] = True
        return w

    def judge2(I, d):
        if d.raised:
            yield (d.loc, 'exception %s leaves the scheduler' % d.exc)
            return
        w = d.value
        ex = [e for e in I.trace if e.kind == 'execute']
        what = '%s task, execution=%s, requests %s, the last made %s' % (w.phase, w.mode, w.reqs, w.late)
        got = [{k: v for k, v in e.params.d.items()} for e in ex]
        exp = [dict({'base': 7, 'x': 'task'}, **r) for r in w.reqs][:w.expected]
        if got != exp:
            yield (where_start(I), 'the runs have the parameters %s, expected %s (%s)' % (got, exp, what))
    ctx.explore('request sequences', scen2, judge2, need=100)
