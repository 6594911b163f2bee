"""The tasks of a session: names, look-up, manual runs."""
from ..framework import rule
from ..model import *
from .scheduling import boot, ready, where_start, BOOL

T = 'Path-sensitive abstract interpretation'


@rule('C25', 'Task names identify the tasks of a session', T + ' of task creation, renaming and deletion against a reference registry',
      'For every sequence of creating tasks with equal or different names, deleting or renaming them, and each way to handle existing names: the names of the tasks of the '
      'session stay unique; a creation with an existing name fails without changing the session (raise), gets another name (rename) or is left out of the session (ignore); '
      'looking up by name or task gives exactly the registered task and fails for any other name.')
def c25(ctx):
    NAMES = ['x', 'y', 'x - 1']

    def tasks(I, w):
        return list(I.iterate(I.getattr(w.session, 'tasks')))

    def lookup(I, w, key):
        try:
            return I.callm(w.session, '__getitem__', key)
        except AbsRaise as e:
            return 'raised ' + str(getattr(e.exc.cls, 'name', e.exc.cls))

    def create(I, w, name):
        try:
            return w.task(name, execution='main'), None
        except AbsRaise as e:
            return None, e

    def registry_ok(I, w, ref, what):
        """ref: the tasks that must be registered, by name"""
        now = tasks(I, w)
        at = 'rocketry/session.py'
        if sorted(map(id, now)) != sorted(map(id, ref.values())):
            yield (at, '%s: the session has the tasks %s, expected %s' % (
                what, sorted(str(I.getattr(t, 'name')) for t in now), sorted(ref)))
            return
        for n, t in ref.items():
            if I.getattr(t, 'name') != n:
                yield (at, '%s: a task is named %r, expected %r' % (what, I.getattr(t, 'name'), n))
            if lookup(I, w, n) is not t:
                yield (at, '%s: session[%r] is %r' % (what, n, lookup(I, w, n)))
            if lookup(I, w, t) is not t:
                yield (at, '%s: session[task %r] is %r' % (what, n, lookup(I, w, t)))
            if I.callm(w.session, '__contains__', n) is not True:
                yield (at, '%s: %r is not in the session' % (what, n))
            if I.getattr(t, 'session') is not w.session:
                yield (at, '%s: the session of task %r is another one' % (what, n))
        for n in NAMES + ['z', ' x', 'x ', 'X', '', 'x -', 'x - ', 'y - 1']:
            if n not in ref:
                r = lookup(I, w, n)
                if r != 'raised KeyError':
                    yield (at, '%s: session[%r] is %r though there is no such task' % (what, n, r))
                if I.callm(w.session, '__contains__', n) is not False:
                    yield (at, '%s: %r is said to be in the session' % (what, n))

    def scen(I):
        mode = I.choose('task_pre_exist', ['raise', 'rename', 'ignore'])
        w = boot(I, task_pre_exist=mode)
        ref, msgs, hist = {}, [], []
        w.msgs = msgs

        def step(i):
            name = I.choose(('create', i), NAMES)
            hist.append('create %r' % name)
            what = 'task_pre_exist=%s, after %s' % (mode, ', '.join(hist))
            t, e = create(I, w, name)
            if name not in ref:
                if e:
                    msgs.append((e.loc, '%s: creation fails with %s' % (what, e.exc)))
                    return
                ref[name] = t
            elif mode == 'raise':
                if not e:
                    msgs.append(('rocketry/core/task.py', '%s: no error' % what))
            elif mode == 'rename':
                if e:
                    msgs.append((e.loc, '%s: creation fails with %s' % (what, e.exc)))
                    return
                new = I.getattr(t, 'name')
                if not isinstance(new, str) or new in ref or not new.startswith(name):
                    msgs.append(('rocketry/core/task.py', '%s: the new task is named %r' % (what, new)))
                    return
                ref[new] = t
            elif e:
                msgs.append((e.loc, '%s: creation fails with %s' % (what, e.exc)))
            msgs.extend(registry_ok(I, w, ref, what))
        step(0)
        step(1)
        if I.choose('delete', BOOL):
            n = I.choose('deleted', sorted(ref))
            how = I.choose('by', ['task.delete()', 'remove_task(name)', 'remove_task(task)'])
            t = ref.pop(n)
            hist.append('deleting %r by %s' % (n, how))
            if how == 'task.delete()':
                I.callm(t, 'delete')
            else:
                I.callm(w.session, 'remove_task', n if 'name' in how else t)
            msgs.extend(registry_ok(I, w, ref, 'task_pre_exist=%s, after %s' % (mode, ', '.join(hist))))
        step(2)
        if len(msgs) == 0 and mode == 'raise' and ref and I.choose('rename a task', BOOL):
            n = sorted(ref)[0]
            new = I.choose('new name', ['z', 'y'])
            t = ref[n]
            hist.append('renaming %r to %r' % (n, new))
            what = 'after ' + ', '.join(hist)
            try:
                I.setattr(t, 'name', new)
                e = None
            except AbsRaise as ex:
                e = ex
            if new in ref and new != n:
                if not e:
                    msgs.append(('rocketry/core/task.py', '%s: no error' % what))
                    return w
            elif new not in ref:
                if e:
                    msgs.append((e.loc, '%s: fails with %s' % (what, e.exc)))
                    return w
                ref[new] = ref.pop(n)
            msgs.extend(registry_ok(I, w, ref, what))
        return w

    def judge(I, d):
        if d.raised:
            yield (d.loc, 'exception %s' % d.exc)
            return
        for m in d.value.msgs[:2]:
            yield m
    ctx.explore('sequences', scen, judge, need=150)

    # ------------------------------------------------------------ names that begin alike
    def scen2(I):
        w = boot(I)
        w.msgs = []
        names = ['x', 'x:y', 'x - 1', 'xy', 'X', 'a x', ' z', 'y ']
        ref = {n: w.task(n, execution='main') for n in names}
        w.msgs.extend(registry_ok(I, w, ref, 'after creating %s' % names))
        n = I.choose('removed', names)
        how = I.choose('by', ['task.delete()', 'remove_task(name)', 'remove_task(task)'])
        t = ref.pop(n)
        if how == 'task.delete()':
            I.callm(t, 'delete')
        else:
            I.callm(w.session, 'remove_task', n if 'name' in how else t)
        w.msgs.extend(registry_ok(I, w, ref, 'after creating %s and removing %r by %s' % (names, n, how)))
        return w
    ctx.explore('similar names', scen2, judge, need=18)

    # ------------------------------------------------------------ renaming among names like the renamed ones
    def scen4(I):
        w = boot(I, task_pre_exist='rename')
        w.msgs = []
        names = I.choose('existing', [('x', 'x - 2'), ('x', 'x - 1', 'x - 3'), ('x', 'x1', 'y'), ('x', 'x - 1', 'x - 1 - 1'), ('x', 'x - 10', 'x - 2', 'x - 1')])
        ref = {n: w.task(n, execution='main') for n in names}
        for i in range(3):
            name = I.choose(('created', i), ['x', 'x - 1'] if i else ['x'])
            what = 'task_pre_exist=rename, creating %r with the tasks %s' % (name, sorted(ref))
            t, e = create(I, w, name)
            if e:
                w.msgs.append((e.loc, '%s fails with %s' % (what, e.exc)))
                return w
            new = I.getattr(t, 'name')
            if not isinstance(new, str) or new in ref or not new.startswith(name):
                w.msgs.append(('rocketry/core/task.py', '%s: the new task is named %r' % (what, new)))
                return w
            ref[new] = t
            w.msgs.extend(registry_ok(I, w, ref, what))
        return w
    ctx.explore('renaming', scen4, judge, need=18)

    # ------------------------------------------------------------ tasks of another session
    def scen3(I):
        mode = I.choose('task_pre_exist', ['raise', 'ignore', 'rename'])
        w = boot(I, task_pre_exist=mode)
        w.msgs = []
        other = I.call(I.get('rocketry.Session'), [], {})
        name = I.choose('name', ['x', 'y'])
        ref = {n: w.task(n, execution='main') for n in ('x', 'x - 1')}
        t = I.call(w.ns['ClientTask'], [], dict(name=name, session=other, execution='main', start_cond=w.cond('s'), end_cond=w.cond('e')))
        what = 'task_pre_exist=%s, after adding the task %r of another session' % (mode, name)
        e = None
        try:
            I.callm(w.session, 'add_task', t)
        except AbsRaise as ex:
            e = ex
        if name not in ref:
            if e:
                w.msgs.append((e.loc, '%s: fails with %s' % (what, e.exc)))
            else:
                ref[name] = t
        elif mode == 'raise':
            if e is None or not I.isinstance(e.exc, PyClass(KeyError)):
                w.msgs.append(('rocketry/session.py', '%s: no KeyError' % what))
        elif mode == 'rename':
            return w
        if not w.msgs:
            w.msgs.extend(registry_ok(I, w, ref, what))
        return w
    ctx.explore('tasks of another session', scen3, judge, need=5)


@rule('C34', 'Running given tasks manually leaves the session as it was', T + ' of Session.run over task settings and outcomes',
      'For every combination of settings of the tasks, arguments of session.run and outcome (also errors leaving the scheduler and tasks created meanwhile): only the named tasks '
      'are started (each once; with obey_cond only if its condition holds), in the given execution; afterwards every task has the settings and the session the shut condition it had, '
      'and no run request is left.')
def c34(ctx):
    ATTRS = ('disabled', 'execution', 'start_cond', 'end_cond', 'name', 'priority', 'permanent', 'on_startup', 'on_shutdown', 'timeout')

    class W(Sched):
        ending = None
        new = False

        def execute(self, I, task, params):
            if self.new and task is self.a:
                self.fresh = self.task('fresh', execution='main', start_cond=self.cond('never'))
                I.memo[('cond', 'never')] = False
            I.event('execute', task=task, params=params, outcome=self.ending)
            if self.ending == 'return':
                return self.RESULT
            raise AbsRaise(mk_exc(I, self.ending), I.loc())

        def may_fail(self, I, what):
            if self.ending == 'log failure' and what == 'run':
                raise AbsRaise(Obj(PyClass(RuntimeError), {'args': ()}, label='log write failed'), I.loc())

    def scen(I):
        w = boot(I, cls=W, silence_task_logging=False, silence_task_prerun=False, silence_cond_check=False)
        w.shut = w.cond('shut')
        w.config(shut_cond=w.shut)
        w.ending = I.choose('task', ['return', 'Exception', 'SchedulerExit', 'log failure'])
        w.new = w.ending == 'return' and I.choose('a task is created meanwhile', BOOL)
        # the name of one task is the beginning of the name of the other
        w.names = na, nb = I.choose('names', [('a', 'ab'), ('ab', 'a')]) if w.ending == 'return' and not w.new else ('a', 'ab')
        w.a = w.task(na, execution=I.choose('execution of a', ['main', 'thread']) if w.ending == 'return' and not w.new else 'main',
                     start_cond=w.cond('start:' + na), disabled=I.choose('a disabled', BOOL))
        w.b = w.task(nb, execution='main', start_cond=w.cond('start:' + nb), disabled=I.choose('b disabled', BOOL))
        w.both = w.ending == 'return' and I.choose('run both', BOOL)
        w.obey = I.choose('obey_cond', BOOL)
        w.ex = I.choose('execution', [None, 'main', 'thread']) if w.ending == 'return' and not w.new else None
        if not w.obey:
            I.memo[('cond', 'start:a')] = I.memo[('cond', 'start:ab')] = True
        w.frozen = False
        w.sleep_kills = True
        ready(I, w)
        w.before = {t: {a: I.getattr(t, a) for a in ATTRS} for t in (w.a, w.b)}
        kw = {'obey_cond': w.obey}
        if w.ex:
            kw['execution'] = w.ex
        w.raised = None
        try:
            I.callm(w.session, 'run', *([na, nb] if w.both else [na]), **kw)
        except AbsRaise as e:
            w.raised = e
        return w

    def judge(I, d):
        w = d.world
        if d.raised:
            yield (d.loc, 'exception %s' % d.exc)
            return
        at = 'rocketry/session.py'
        desc = 'session.run(%s, execution=%s, obey_cond=%s), task ends with %s%s' % (
            ', '.join(map(repr, w.names if w.both else w.names[:1])), w.ex, w.obey, w.ending, ', a task is created meanwhile' if w.new else '')
        exp_raise = w.ending == 'log failure'
        started = {t: sum(1 for e in I.trace if e.kind == 'execute' and e.task is t) for t in (w.a, w.b)}
        for t, n in started.items():
            named = t is w.a or w.both
            lab = 'start:' + t.label.split(':')[1]
            want = named and (not w.obey or (not w.before[t]['disabled'] and I.memo.get(('cond', lab)) is True))
            if exp_raise and (named or n):
                want = n if n == 0 else 0
            if n != (1 if want else 0) and not (w.ending == 'SchedulerExit' and n == 0 and t is w.b):
                yield (at, '%s: %s runs %d times' % (desc, t.label, n))
            if n == 1 and w.ex:
                th = [e for e in I.trace if e.kind == 'start' and e.task is t]
                if bool(th) != (w.ex == 'thread'):
                    yield (at, '%s: %s is not run as %s' % (desc, t.label, w.ex))
            for a, v in w.before[t].items():
                now = I.getattr(t, a)
                if now is not v and not (isinstance(v, (str, bool, int, type(None))) and now == v):
                    yield (at, '%s: %s of %s is %r afterwards, it was %r' % (desc, a, t.label, now, v))
            b = [x for x in I.iterate(I.getattr(t, 'batches'))]
            if b and not exp_raise:
                yield (at, '%s: %s has still %d run request(s)' % (desc, t.label, len(b)))
        if I.getattr(I.getattr(w.session, 'config'), 'shut_cond') is not w.shut:
            yield (at, '%s: the shut condition of the session is another one afterwards' % desc)
        if w.raised is not None and not exp_raise:
            yield (w.raised.loc, '%s: raises %s' % (desc, w.raised.exc))
    ctx.explore('runs', scen, judge, need=60)
