"""Session level behaviour: crash recovery, error containment, hooks, locking, ordering, names, manual runs."""
from ..framework import rule
from ..interp import short
from ..model import *
from .scheduling import boot, ready, where_start, BOOL
from .shutdown import ShutW

ACTIONS = ['success', 'fail', 'terminate', 'inaction', 'crash']
T = 'Path-sensitive abstract interpretation'


@rule('C08', 'A run cut off by a crash is recovered as a crash at startup', T + ' of the startup over all log histories',
      'For every log history of a task (up to three records, interleaved with records of another task) the startup writes exactly one "crash" '
      'record if the last record of the task is "run" and none otherwise; the status and the last-action times then equal those of the log; '
      'another startup writes nothing more.')
def c08(ctx):
    def scen(I):
        w = boot(I)
        w.strict_clock = True
        w.t = w.task('a', execution='main')
        w.u = w.task('b', execution='main')
        n = I.choose('records of the task', [0, 1, 2, 3])
        hist, seq = [], []
        for i in range(n):
            act = 'run' if i % 2 == 0 else I.choose(('record', i), ACTIONS)
            seq.append((act, w.clock.read(I)))
        other = I.choose('records of another task', ['none', 'run before', 'success after'])
        ot = None
        if other == 'run before':
            hist.append({'action': 'run', 'task_name': 'b', 'created': Lin.sym('t0')})
        for a, t in seq:
            hist.append({'action': a, 'task_name': 'a', 'created': t})
        if other == 'success after':
            hist.append({'action': 'run', 'task_name': 'b', 'created': w.clock.read(I)})
            hist.append({'action': 'success', 'task_name': 'b', 'created': w.clock.read(I)})
        w.history = hist
        w.seq = seq
        w.other = other
        if n and I.choose('there was an earlier session', BOOL):
            # what the task remembers of it is outdated
            for a in ['run'] + ACTIONS:
                if '_last_' + a in w.t.fields:
                    w.t.fields['_last_' + a] = Lin.sym('t0')
            free(I, w, [w.t], ('status',))
        I.memo[('cond', 'start:a')] = False
        I.memo[('cond', 'start:b')] = False
        I.trace.clear()
        I.await_(I.callm(w.scheduler, 'startup'))
        w.first = list(w.records)
        I.await_(I.callm(w.scheduler, 'startup'))
        return w

    def judge(I, d):
        w = d.world
        if d.raised:
            yield (d.loc, 'exception %s leaves the startup' % d.exc)
            return
        got = [(r['action'], r.get('task_name')) for r in w.first if 'action' in r]
        mine = [a for a, n in got if n == 'a']
        last = w.seq[-1][0] if w.seq else None
        exp = ['crash'] if last == 'run' else []
        where = where_rec(I)
        if mine != exp:
            yield (where, 'the log of a task is %s; the startup wrote %s for it, expected %s' % ([a for a, _ in w.seq], mine, exp))
        b = [a for a, n in got if n == 'b']
        if b != (['crash'] if w.other == 'run before' else []):
            yield (where, 'the startup wrote %s for another task whose log is "%s"' % (b, w.other))
        if len(w.records) != len(w.first):
            yield (where, 'a second startup wrote further records %s' % [r.get('action') for r in w.records[len(w.first):]])
        st = I.getattr(w.t, 'status')
        if st != ('crash' if last == 'run' else last):
            yield (where, 'the log of a task is %s; its status after startup is %s' % ([a for a, _ in w.seq], st))
        times = {}
        for a, t in w.seq:
            times[a] = t
        for a in ['run'] + ACTIONS:
            if a == 'crash' and last == 'run':
                continue
            v = I.callm(w.t, '_get_last_action', a)
            e = times.get(a)
            if (v is None) != (e is None) or (v is not None and not I.eq(v, e)):
                yield ('rocketry/core/task.py', 'the last "%s" time after startup is %s, the log says %s' % (a, short(v), short(e)))
    ctx.explore('histories', scen, judge, need=30)


def where_rec(I):
    ev = [e for e in I.trace if e.kind == 'record']
    return ev[-1].chain if ev else 'rocketry/core/task.py'


@rule('C14', 'Errors are contained or propagated exactly as configured', T + ' with one fault injected per path',
      'On every path of a cycle (and startup) over a faulty and a healthy task: if the faulty task\'s condition, set-up or log write fails, the '
      'healthy task is still handled and nothing leaves the scheduler iff the matching silence setting is on, otherwise the error leaves the '
      'scheduler; scheduler restart/exit requests raised by a task always leave it, and an error of the shut condition always does.')
def c14(ctx):
    FA = {'condition': 'silence_cond_check', 'end condition': 'silence_cond_check', 'set-up': 'silence_task_prerun', 'log write': 'silence_task_logging'}

    class W(Sched):
        kind = None
        all_records = False
        async_end = None

        def observe(self, I, cond, task, session):
            lab = cond.fields['label']
            if lab.startswith('end'):
                if self.kind == 'end condition' and lab == 'end:a':
                    I.event('fault', what='end condition')
                    raise AbsRaise(Obj(PyClass(ValueError), {'args': ()}, label='error in condition'), I.loc())
                return False
            if lab == 'idle':
                return False
            if lab == 'bad' and self.kind == 'condition':
                I.event('fault', what='condition')
                raise AbsRaise(Obj(PyClass(ValueError), {'args': ()}, label='error in condition'), I.loc())
            if lab == 'shut':
                if self.kind == 'shut condition':
                    I.event('fault', what='shut condition')
                    raise AbsRaise(Obj(PyClass(ValueError), {'args': ()}, label='error in condition'), I.loc())
                return True
            return True

        def argvalue(self, I, a, task, session):
            I.event('fault', what='set-up')
            raise AbsRaise(Obj(PyClass(ValueError), {'args': ()}, label='error in argument'), I.loc())

        def may_fail(self, I, what):
            if self.kind == 'log write' and not getattr(self, 'done', False) and (what == self.fail_action or self.all_records):
                self.done = not self.all_records
                I.event('fault', what='log write')
                raise AbsRaise(Obj(PyClass(RuntimeError), {'args': ()}, label='log write failed'), I.loc())

        def execute(self, I, task, params):
            if task.label == 'task:a' and self.async_end:
                if self.async_end == 'return':
                    return self.result(I)
                raise AbsRaise(mk_exc(I, self.async_end), I.loc())
            if task.label == 'task:a' and self.kind in ('SchedulerRestart', 'SchedulerExit'):
                I.event('execute', task=task, params=params, outcome=self.kind)
                raise AbsRaise(mk_exc(I, self.kind), I.loc())
            if task.label == 'task:a' and self.kind in ('SystemExit', 'KeyboardInterrupt'):
                I.event('execute', task=task, params=params, outcome=self.kind)
                raise AbsRaise(Obj(PyClass({'SystemExit': SystemExit}.get(self.kind, KeyboardInterrupt)), {'args': ()}, label=self.kind), I.loc())
            return Sched.execute(self, I, task, params)

    def scen(I, phase):
        kind = I.choose('fault', ['condition', 'set-up', 'log write', 'SchedulerRestart', 'SchedulerExit', 'SystemExit', 'KeyboardInterrupt', 'none'] + ['end condition'] * (phase == 'cycle') if phase != 'shutdown' else ['condition', 'set-up', 'log write', 'none'])
        w = boot(I, cls=W, **{c: Choice(c, BOOL) for c in set(FA.values())})
        w.kind = kind
        w.phase = phase
        w.fail_action = I.choose('failing record', ['run', 'success'] + ['crash'] * (phase == 'startup')) if kind == 'log write' else None
        if w.fail_action == 'crash':
            # a run cut off in an earlier session: recovering it writes a record
            w.history = ({'task_name': 'a', 'action': 'run', 'created': Lin.sym('t0'), 'start': Lin.sym('t0')},)
        mode = I.choose('execution', ['main', 'process', 'thread']) if kind == 'log write' and w.fail_action == 'run' else 'main'
        w.idle = False
        if kind == 'end condition':
            mode = I.choose('execution', ['main', 'process', 'thread', 'async'])
            w.idle = I.choose('the task is idle', BOOL)
        w.mode = mode
        kw = dict(on_startup=True) if phase == 'startup' else dict(on_shutdown=True) if phase == 'shutdown' else {}
        w.t = w.task('a', execution=mode, start_cond=w.cond('idle' if w.idle else 'bad'), end_cond=w.cond('end:a') if kind == 'end condition' else None, priority=10,
                     parameters=ADict({'p': I.call(w.ns['ClientArg'], ['p'], {})}) if kind == 'set-up' else None, **kw)
        w.u = w.task('b', execution='main', start_cond=w.cond('good'), **kw)
        free(I, w, [w.t], ('force_run', 'permanent', 'status', '_main_alive', 'multilaunch'), ('multilaunch', 'instant_shutdown', 'tasks_as_daemon'))
        ready(I, w)
        if phase == 'startup':
            I.await_(I.callm(w.scheduler, 'startup'))
        elif phase == 'shutdown':
            w.sleep_kills = True
            I.await_(I.callm(w.scheduler, 'shut_down'))
        else:
            w.cycle()
        return w

    def judge(I, d):
        w = d.world
        fired = any(e.kind == 'fault' for e in I.trace)
        if w.kind in FA and not fired:
            return
        name = w.kind if w.kind not in FA else None
        if name is None:
            exc = not I.force(Choice(FA[w.kind], BOOL))
        else:
            exc = name != 'none'
        where = d.loc if d.raised else where_start(I)
        if w.mode == 'thread' and w.phase == 'startup':
            return              # reported by the next cycle
        if bool(d.raised) != exc:
            yield (where, 'a failure of %s in %s with %s: %s' % (
                w.kind, w.phase, '%s=%s' % (FA[w.kind], not exc) if w.kind in FA else 'a scheduler exception',
                'exception %s leaves the scheduler' % d.exc if d.raised else 'it does not leave the scheduler'))
        elif d.raised and w.kind in ('SystemExit', 'KeyboardInterrupt') and d.exc.label != w.kind:
            yield (where, '%s raised by a task leaves the scheduler as %s' % (w.kind, d.exc))
        elif d.raised and w.kind in ('SchedulerRestart', 'SchedulerExit') and d.exc.cls is not I.get('rocketry.exc.' + w.kind):
            yield (where, '%s raised by a task leaves the scheduler as %s' % (w.kind, d.exc))
        if not d.raised:
            n = sum(1 for e in I.trace if e.kind == 'execute' and e.task is w.u)
            if n != 1:
                yield (where, 'a failure of %s of one task keeps another task from running' % w.kind)
        if w.kind == 'condition' and any(e.kind == 'execute' and e.task is w.t for e in I.trace):
            yield (where, 'a task whose condition failed is run')
    for ph in ('cycle', 'startup', 'shutdown'):
        ctx.explore(ph, lambda I, p=ph: scen(I, p), judge, need=12)

    def scen2(I):
        w = boot(I, cls=W, silence_cond_check=True)
        w.kind = I.choose('fault', ['shut condition', 'none'])
        w.config(shut_cond=w.cond('shut'))
        I.trace.clear()
        I.await_(I.callm(w.scheduler, 'serve'))
        return w

    def judge2(I, d):
        w = d.world
        if bool(d.raised) != (w.kind != 'none'):
            yield (d.loc or where_start(I), 'failure of the %s: %s' % (w.kind, d.exc or 'is lost'))
    ctx.explore('shut-condition', scen2, judge2, need=2)

    def scen3(I):
        """A run of a thread or an asyncio task ends, with its outcome not being loggable, at any point of the session."""
        silent = I.choose('silence_task_logging', BOOL)
        w = boot(I, cls=W, silence_task_logging=silent)
        w.silent = silent
        w.end = I.choose('the run ends with', ['return', 'Exception', 'TaskInaction'])
        w.when = I.choose('the run ends', ['between cycles', 'while the next cycle handles another task', 'during shutdown'])
        w.fail_action = {'return': 'success', 'Exception': 'fail', 'TaskInaction': 'inaction'}[w.end]
        w.frozen = True
        w.mode = I.choose('execution', ['thread', 'async'])
        w.t = w.task('a', execution=w.mode, start_cond=w.cond('bad'), priority=I.choose('priority', [10, -10]))
        w.u = w.task('b', execution='main', start_cond=w.cond('good'))
        ready(I, w)
        w.cycle()
        th = w.runs[-1]

        def over():
            if not th.data.get('dead'):
                w.kind, w.all_records = 'log write', I.choose('every record of the run fails', BOOL)
                if w.mode == 'thread':
                    w.resume_thread(I, th, w.end)
                else:
                    w.async_end = w.end
                    w.finish(I, th)
                w.kind = None
        if w.when == 'between cycles':
            over()
        w.over = over
        w.cycles = 1
        w.t.fields['disabled'] = True
        if w.when != 'during shutdown':
            if w.when != 'between cycles':
                old = w.execute

                def ex(I, task, params):
                    if task is w.u and not w.resuming:
                        over()
                    return old(I, task, params)
                w.execute = ex
            w.cycle()
            over()
        else:
            w.sleep = lambda I, d: over()
        w.cycle_raised = False
        I.await_(I.callm(w.scheduler, 'shut_down'))
        return w

    def judge3(I, d):
        w = d.world
        if not any(e.kind == 'fault' for e in I.trace):
            return
        if bool(d.raised) == w.silent:
            yield (d.loc if d.raised else where_start(I),
                   'a run (%s) ends (%s) %s and its outcome cannot be logged, silence_task_logging=%s: %s' % (
                       w.mode, w.end, w.when, w.silent, 'exception %s leaves the scheduler' % d.exc if d.raised else 'the error is lost'))
    ctx.explore('thread-records', scen3, judge3, need=12)


@rule('C32', 'Hooks bracket the event they are registered for', T + ' with generator hooks',
      'On every path (each execution mode and outcome of a task run; task creation; startup, cycle and shutdown) every hook registered in the session '
      'of the task runs once before the event in registration order with the task it asked for, and generator hooks are resumed exactly once after it.')
def c32(ctx):
    def marks(I, since=0):
        return [(e.what, e.val) for e in I.trace[since:] if e.kind == 'mark']

    def mark(I, what, v):
        I.event('mark', what=what, val=v)

    def add(I, w, name):
        ta = I.call(I.get('rocketry.args.Task'), [], {})
        L = I.getattr(I.getattr(w.session, 'hooks'), name)
        L.items.extend([gen_hook('g1', mark, ta), fun_hook('f2', mark, ta), gen_hook('g3', mark)])

    PRE = ['g1-pre', 'f2', 'g3-pre']

    def verdict(I, got, where, what, task=None, inner=None):
        names = [g for g, _ in got]
        post = sorted(n for n in names if n.endswith('post'))
        pre = [n for n in names if not n.endswith('post')]
        if pre != PRE:
            yield (where, 'hooks of %s: %s ran before it, expected %s' % (what, pre, PRE))
        elif post != ['g1-post', 'g3-post']:
            yield (where, 'hooks of %s: %s ran after it' % (what, post))
        elif names.index(post[0]) < 3 or names.index(post[1]) < 3:
            yield (where, 'hooks of %s: finished before all were begun (%s)' % (what, names))
        elif task is not None:
            for n, v in got:
                if n in ('g1-pre', 'f2') and v is not task:
                    yield (where, 'hook %s of %s got %s instead of the task' % (n, what, short(v)))

    def run(I):
        mode = I.choose('execution', ['main', 'async', 'thread', 'process'])
        w = HW(I)
        w.mode = mode
        add(I, w, 'task_execute')
        w.fault = I.choose('fault', [None, 'arg', 'hook'])
        if w.fault == 'hook':
            I.getattr(I.getattr(w.session, 'hooks'), 'task_execute').items.append(w.hook('bad'))
        w.t = w.task('a', execution=mode, start_cond=None, end_cond=None, is_async=mode == 'async' and I.choose('coroutine function', BOOL),
                     **({'parameters': ADict({'p': I.call(w.ns['ClientArg'], ['p'], {})})} if w.fault == 'arg' else {}))
        I.callm(w.t, 'run')
        ready(I, w)
        try:
            w.cycle()
        except AbsRaise as e:
            w.exc = e
        for e in list(I.trace):
            if e.kind == 'create_task' and not e.task.data.get('started'):
                try:
                    env.run_task_obj(I, e.task)
                except AbsRaise:
                    pass
        return w

    class HW(Base):
        exc = None
        no_timeout = True

        def thread_start(self, I, th):
            args = list(I.iterate(th.data['args']))
            kw = th.data['kwargs'].d if isinstance(th.data['kwargs'], ADict) else {}
            I.call(th.data['target'], args, dict(kw))

        def task_created(self, I, t):
            pass

        def alive(self, I, o):
            return not o.data.get('done', False) if o.data.get('kind') == 'async' else False

        cycle = Sched.cycle

    def judge(I, d):
        w = d.world
        if d.raised:
            yield (d.loc, 'exception %s leaves the run' % d.exc)
            return
        ex = [i for i, e in enumerate(I.trace) if e.kind == 'execute']
        if len(ex) != (0 if w.fault else 1):
            return
        mk = [(i, e) for i, e in enumerate(I.trace) if e.kind == 'mark']
        out = I.trace[ex[0]].outcome if ex else 'an error of its %s' % {'arg': 'arguments', 'hook': 'last hook'}[w.fault]
        task = I.trace[ex[0]].task if ex else None
        for v in verdict(I, [(e.what, e.val) for _, e in mk], hook_loc(I), 'a %s run ending in %s' % (w.mode, out), task=task):
            yield v
            return
        for i, e in mk:
            if ex and (i < ex[0]) == e.what.endswith('post'):
                yield (hook_loc(I), 'hook step %s is on the wrong side of the execution' % e.what)
            if e.what.endswith('post'):
                # what the hook is resumed with: the error, if any
                v = e.val
                if not isinstance(v, tuple) or len(v) != 3:
                    yield (hook_loc(I), 'a hook is resumed with %s after a %s run ending in %s' % (short(v), w.mode, out))
                elif (v[1] is None) != (out == 'return'):
                    yield (hook_loc(I), 'a hook is resumed with the error %s after a %s run ending in %s' % (short(v[1]), w.mode, out))
    ctx.explore('task-execute', run, judge, need=16)

    # two runs that overlap: each hook is resumed for its own run
    from .lifecycle import overlap, Overlap, over_raised, over_desc

    class OW(Overlap):
        def task(self, name, **kw):
            L = I_hooks(self)
            if not L.items:
                def call(I, a, k):
                    n = len([e for e in I.trace if e.kind == 'mark' and e.what == 'pre'])
                    def it():
                        I.event('mark', what='pre', no=n, fiber=self.cur[-1].no)
                        x = yield None
                        I.event('mark', what='post', no=n, fiber=self.cur[-1].no, val=x)
                    return AIter(it())
                b = Builtin('hook:g', call, params=[])
                b.attrs['isgen'] = True
                L.items.append(b)
            return Overlap.task(self, name, **kw)

    def I_hooks(w):
        return w.I.getattr(w.I.getattr(w.session, 'hooks'), 'task_execute')

    def judge_o(I, d):
        w = d.world
        bad = list(over_raised(I, d, w))
        yield from bad
        if bad:
            return
        got = [(e.what, e.no, e.fiber) for e in I.trace if e.kind == 'mark']
        exp = [('pre', 0, 0), ('pre', 1, 1)] + [('post', n, n) for n, _ in w.ended]
        if got != exp:
            yield (hook_loc(I), 'the hook of two overlapping runs is run as %s (step, hook call, run), expected %s (%s)' % (got, exp, over_desc(w)))
        for e in I.trace:
            if e.kind == 'mark' and e.what == 'post' and (e.val[1] is None) != (dict(w.ended)[e.no] == 'return'):
                yield (hook_loc(I), 'the hook of a run is resumed with the error %s (%s)' % (short(e.val[1]), over_desc(w)))
    ctx.explore('overlapping runs', lambda I: overlap(I, cls=OW), judge_o, need=60)

    def init(I):
        w = boot(I)
        other = I.call(w.ns['Session'], [], {})
        add(I, w, 'task_init')
        I.trace.clear()
        o = I.choose('task in', ['the session', 'another session'])
        w.o = o
        w.t = w.task('a', execution='main') if o == 'the session' else I.call(
            w.ns['ClientTask'], [], dict(name='x', session=other, execution='main'))
        return w

    def judge_init(I, d):
        w = d.world
        if d.raised:
            yield (d.loc, 'exception %s leaves the creation' % d.exc)
            return
        got = marks(I)
        if w.o == 'another session':
            if got:
                yield (hook_loc(I), 'creation hooks ran for a task of another session')
            return
        yield from verdict(I, got, hook_loc(I), 'the creation of a task', task=w.t)
    ctx.explore('task-init', init, judge_init, need=2)

    def sched(I, which):
        w = boot(I)
        add_plain(I, w, which)
        w.t = w.task('a', execution='main', on_startup=which == 'scheduler_startup', on_shutdown=which == 'scheduler_shutdown', start_cond=None)
        I.callm(w.t, 'run')
        ready(I, w)
        w.which = which
        if which == 'scheduler_startup':
            I.await_(I.callm(w.scheduler, 'startup'))
        elif which == 'scheduler_cycle':
            w.cycle()
        else:
            I.await_(I.callm(w.scheduler, 'shut_down'))
        return w

    def add_plain(I, w, name):
        I.getattr(I.getattr(w.session, 'hooks'), name).items.extend([gen_hook('g1', mark), fun_hook('f2', mark), gen_hook('g3', mark)])

    def judge_s(I, d):
        w = d.world
        if d.raised:
            yield (d.loc, 'exception %s leaves the scheduler' % d.exc)
            return
        yield from verdict(I, marks(I), hook_loc(I), w.which)
        ex = [i for i, e in enumerate(I.trace) if e.kind == 'execute']
        mk = [(i, e) for i, e in enumerate(I.trace) if e.kind == 'mark']
        for i, e in mk:
            if ex and (i < ex[0]) == e.what.endswith('post'):
                yield (hook_loc(I), '%s: hook step %s is on the wrong side of the event' % (w.which, e.what))
    for which in ('scheduler_startup', 'scheduler_cycle', 'scheduler_shutdown'):
        ctx.explore(which, lambda I, x=which: sched(I, x), judge_s)


def hook_loc(I):
    ev = [e for e in I.trace if e.kind in ('execute', 'record')]
    return ev[-1].get('chain') or 'rocketry/core/hook.py' if ev else 'rocketry/core/hook.py'


@rule('C33', 'A task is handled under its lock, which is always released', 'Lock typestate over the paths of the scheduler cycle',
      'On every path of a cycle, including those where handling a task fails or a scheduler exception is raised: conditions of a task are evaluated, runs '
      'started and terminated only while that task\'s lock is held; each lock is released as often as acquired; no two task locks are held at once.')
def c33(ctx):
    class W(Sched):
        def observe(self, I, cond, task, session):
            lab = cond.fields['label']
            nm = lab.split(':')[1]
            v = I.choose(('cond', lab), [True, 'raises'] if lab.startswith('start') else [False, True])
            I.event('observe', cond=lab, value=v, on=nm)
            if v == 'raises':
                raise AbsRaise(Obj(PyClass(ValueError), {'args': ()}, label='error in condition'), I.loc())
            return v

    def scen(I):
        w = W(I, silence_cond_check=Choice('silence_cond_check', BOOL))
        w.outcomes = ('return', 'Exception', 'SchedulerRestart')
        w.no_timeout = True
        w.max_obs = 1
        mode = I.choose('execution', ['main', 'thread', 'process', 'async'])
        w.t = w.task('a', execution=mode)
        w.u = w.task('b', execution='main', end_cond=None)
        ready(I, w)
        w.tasks = {'a': w.t, 'b': w.u}
        w.cycle()
        return w

    def judge(I, d):
        w = d.world
        lock = {n: I.getattr(t, 'lock') for n, t in w.tasks.items()}
        if lock['a'] is lock['b']:
            yield ('rocketry/core/task.py', 'two tasks share one lock')
            return
        held = {}
        n_ops = 0
        for e in I.trace:
            if e.kind == 'lock':
                n_ops += 1
                held[id(e.obj)] = held.get(id(e.obj), 0) + (1 if e.op == 'acquire' else -1)
                if held[id(e.obj)] > 1:
                    yield (e.loc, 'the lock of a task is acquired while it is held')
                if held[id(e.obj)] < 0:
                    yield (e.loc, 'the lock of a task is released without being held')
                if sum(held.values()) > 1:
                    yield (e.loc, 'locks of two tasks are held at once')
                continue
            nm = None
            if e.kind == 'observe':
                nm = e.on
            elif e.kind == 'start':
                nm = e.task.label.split(':')[1]
            elif e.kind == 'execute' and not e.task.data.get('child_of'):
                if I.force(e.task.fields.get('execution')) == 'main':
                    nm = e.task.label.split(':')[1]
            if nm is not None and held.get(id(lock[nm]), 0) != 1:
                yield (e.get('chain') or e.loc if not e.loc.startswith('<') else 'rocketry/core/schedule.py',
                       '%s of task %s happens without holding its lock' % (e.kind, nm))
        if any(held.values()):
            yield (d.loc if d.raised else 'rocketry/core/schedule.py', 'a task lock is left held when the cycle ends%s' % (
                ' by an exception' if d.raised else ''))
    ctx.explore('cycle', scen, judge, need=20)


@rule('C37', 'Tasks are handled in order of priority', T + ' over all priority orders',
      'For every assignment of relative priorities to three tasks (missing priority is 0) the tasks of a cycle, of the startup and of the shutdown are '
      'handled in non-increasing priority.')
def c37(ctx):
    PR = [-1, 0, 1, 5]

    def scen(I, phase):
        w = boot(I)
        w.phase = phase
        kw = dict(on_startup=phase == 'startup', on_shutdown=phase == 'shutdown')
        w.pr = {}
        for n in 'abc':
            p = I.choose(('priority', n), PR + ['default'] if n == 'a' else PR)
            w.pr[n] = 0 if p == 'default' else p
            x = {} if p == 'default' else {'priority': p}
            t = w.task(n, execution='main', start_cond=w.cond('start:' + n), **kw, **x)
            I.memo[('cond', 'start:' + n)] = True
            free(I, w, [t], ('permanent', 'daemon', 'description', 'status', 'multilaunch'))
        free(I, w, [], (), ('silence_task_prerun', 'tasks_as_daemon', 'multilaunch', 'instant_shutdown', 'use_instance_naming', 'cycle_sleep'))
        ready(I, w)
        if phase == 'startup':
            I.await_(I.callm(w.scheduler, 'startup'))
        elif phase == 'cycle':
            w.cycle()
        else:
            I.await_(I.callm(w.scheduler, 'shut_down'))
        return w

    def judge(I, d):
        w = d.world
        if d.raised:
            yield (d.loc, 'exception %s leaves the scheduler' % d.exc)
            return
        order = [w.pr[e.task.label.split(':')[1]] for e in I.trace if e.kind == 'execute']
        if len(order) != 3 or order != sorted(order, reverse=True):
            yield (where_start(I), 'tasks with priorities %s are run in the order %s in the %s' % (sorted(w.pr.values()), order, w.phase))
    for ph in ('cycle', 'startup', 'shutdown'):
        ctx.explore(ph, lambda I, p=ph: scen(I, p), judge, need=20)
