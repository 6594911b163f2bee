"""The most general client: an abstract session, tasks, runs and environment the rules explore.

Nothing here executes package code: client snippets are parsed and evaluated by the abstract interpreter
together with the package's syntax trees."""
import ast
from .values import *
from .interp import (AbsRaise, AnalysisError, Interp, PathAbort, Program, Unsupported, explore, _MISSING)
from . import env
from .env import World, arg


CLIENT = '''
from rocketry.session import Session
from rocketry.core.task import Task, TaskRun
from rocketry.core.condition import BaseCondition
from rocketry.core.parameters import Parameters, BaseArgument

class ClientTask(Task):
    def execute(self, **params):
        return _execute(self, params)
    def process_success(self, output):
        return _user(self, 'process_success')
    def process_failure(self, *exc_info):
        return _user(self, 'process_failure')

class ClientAsyncTask(Task):
    async def execute(self, **params):
        return _execute(self, params)
    def process_success(self, output):
        return _user(self, 'process_success')
    def process_failure(self, *exc_info):
        return _user(self, 'process_failure')

class ClientArg(BaseArgument):
    def __init__(self, label):
        self.label = label
    def get_value(self, task=None, session=None, **kwargs):
        return _argvalue(self, task, session)
    def stage(self, task=None, session=None, **kwargs):
        return self

class ClientCond(BaseCondition):
    def __init__(self, label):
        self.label = label
    def get_state(self, task=None, session=None):
        return _observe(self, task, session)
    def __copy__(self):
        return self
'''


def client(I, src, natives=None, name='__client__'):
    tree = ast.parse(src)
    m = ModuleVal(name, '<client>', tree, src)
    m.is_pkg = False
    m.ns['__name__'] = name
    for k, v in (natives or {}).items():
        m.ns[k] = v
    from .interp import Frame
    f = Frame(m)
    f.locals = m.ns
    I.frames.append(f)
    try:
        I.block(tree.body, f)
    finally:
        I.frames.pop()
    return m.ns


class Clock:
    """Session clock: the i-th reading is the symbol t_i; readings never decrease."""

    def __init__(self):
        self.n = 0
        self.reads = []

    def read(self, I):
        self.n += 1
        v = Lin.sym('t%d' % self.n)
        self.reads.append(v)
        I.event('time', value=v)
        return v


def time_order(I):
    def order(d):
        co = dict(d.co)
        if d.const == 0 and len(co) == 2 and sorted(co.values()) == [-1, 1] and all(k[0] == 't' and k[1:].isdigit() for k in co):
            (pos,) = [k for k, c in co.items() if c == 1]
            (neg,) = [k for k, c in co.items() if c == -1]
            p, n = int(pos[1:]), int(neg[1:])
            lo, hi = min(p, n), max(p, n)
            # elapsed: later reading >= earlier reading
            if I.world is not None and I.world.strict_clock:
                return 1 if p > n else -1
            return (1 if p > n else -1) * I.choose(('elapsed', lo, hi), [1, 0])
        if I.world is not None and I.world.no_timeout and len(co) == 2 and sorted(co.values()) == [-1, 1] \
                and all(k[0] == 't' and k[1:].isdigit() for k in co):
            # an interval between two readings is shorter than any configured timeout
            return -1 if d.const < 0 else 1
        return None
    return order


EXC = {
    'Exception': None,
    'SchedulerRestart': 'rocketry.exc.SchedulerRestart',
    'SchedulerExit': 'rocketry.exc.SchedulerExit',
    'TaskInaction': 'rocketry.exc.TaskInactionException',
    'TaskTermination': 'rocketry.exc.TaskTerminationException',
    'Cancelled': 'asyncio.CancelledError',
}


def mk_exc(I, name):
    if name == 'Exception':
        return Obj(PyClass(ValueError), {'args': ()}, label='user error')
    p = EXC[name]
    if p.startswith('rocketry'):
        return I.make_exc(I.get(p))
    return I.make_exc(I.ext[p])


class Base(World):
    """A session with abstract tasks."""
    strict_clock = False
    end_cond = 'client'
    no_timeout = False
    execution = None
    outcomes = ('return', 'Exception', 'SchedulerRestart', 'SchedulerExit', 'TaskInaction', 'TaskTermination')
    resuming = None
    log_failures = False        # may the log write fail (at most once per path)?

    def __init__(self, I, **config):
        self.I = I
        I.world = self
        I.order = time_order(I)
        self.clock = Clock()
        self.records = []           # records that reached the (main process) task log
        self.n_logfail = 0
        self.RESULT = Obj(PyClass(object), {}, label='RESULT')
        natives = {
            '_execute': Builtin('_execute', lambda I, a, k: self.execute(I, a[0], a[1])),
            '_user': Builtin('_user', lambda I, a, k: self.user(I, a[0], a[1])),
            '_argvalue': Builtin('_argvalue', lambda I, a, k: self.argvalue(I, a[0], a[1], a[2])),
            '_observe': Builtin('_observe', lambda I, a, k: self.observe(I, a[0], a[1], a[2])),
        }
        self.ns = client(I, CLIENT, natives)
        conf = dict(time_func=Builtin('time_func', lambda I, a, k: self.clock.read(I)))
        conf.update(config)
        self.session = I.call(self.ns['Session'], [], {'config': ADict(conf)})
        self.scheduler = I.getattr(self.session, 'scheduler')
        I.trace.clear()

    # ------------------------------------------------------------ construction
    def cond(self, label):
        return self.I.call(self.ns['ClientCond'], [label], {})

    def task(self, name, is_async=False, **kw):
        I = self.I
        kw.setdefault('start_cond', self.cond('start:' + name))
        kw.setdefault('end_cond', self.cond('end:' + name) if self.end_cond == 'client' else self.end_cond)
        t = I.call(self.ns['ClientAsyncTask' if is_async else 'ClientTask'], [],
                   dict(name=name, session=self.session, **kw))
        t.label = 'task:' + name
        return t

    def config(self, **kw):
        for k, v in kw.items():
            self.I.getattr(self.session, 'config').fields[k] = v

    # ------------------------------------------------------------ behaviour of the client's code
    def execute(self, I, task, params):
        out = I.choose(('outcome', task.label, self.runno, self.count('execute')), list(self.outcomes))
        I.event('execute', task=task, params=params, outcome=out)
        if out == 'return':
            return self.result(I)
        raise AbsRaise(mk_exc(I, out), I.loc())

    runno = 0
    fault = None                # which piece of client code raises ('arg', 'hook', 'process_success', ...)

    def user(self, I, task, what):
        I.event('user', what=what, task=task)
        if self.fault == what:
            raise AbsRaise(Obj(PyClass(ValueError), {'args': ()}, label='error in ' + what), I.loc())

    def argvalue(self, I, a, task, session):
        I.event('argvalue', arg=a, task=task, session=session)
        if self.fault == 'arg':
            raise AbsRaise(Obj(PyClass(ValueError), {'args': ()}, label='error in argument'), I.loc())
        return Sym(('argvalue', a.fields['label']), meta={'notnone': True, 'notobj': True})

    def hook(self, label, gen=False):
        def call(I, a, k):
            I.event('hook', label=label, phase='pre', args=tuple(a), kwargs=dict(k))
            if self.fault == 'hook':
                raise AbsRaise(Obj(PyClass(ValueError), {'args': ()}, label='error in hook'), I.loc())
            return None
        return Builtin('hook:' + label, call, params=[])

    def result(self, I):
        return self.RESULT

    def observe(self, I, cond, task, session):
        lab = cond.fields['label']
        v = I.choose(('cond', lab), [True, False])
        I.event('observe', cond=lab, value=v)
        return v

    def count(self, kind):
        return sum(1 for e in self.I.trace if e.kind == kind)

    # ------------------------------------------------------------ task log
    def is_task_logger(self, I, logger):
        n = logger.fields['name']
        return isinstance(n, str) and n.startswith('rocketry.task')

    def may_fail(self, I, what):
        if not self.log_failures or self.n_logfail >= 1:
            return
        if I.choose(('logfail', what, len(I.trace)), [False, True]):
            self.n_logfail += 1
            I.event('logfail', what=what)
            raise AbsRaise(Obj(PyClass(RuntimeError), {'args': ()}, label='log write failed'), I.loc())

    def log_emit(self, I, logger, level, msg, kw):
        if not self.is_task_logger(I, logger) or self.resuming:
            return
        extra = kw.get('extra')
        rec = dict(extra.d) if isinstance(extra, ADict) else {}
        rec['level'] = level
        rec['message'] = msg
        name = logger.fields['name']
        if name.endswith('._process'):
            own = I.force(logger.fields.get('level')) or 30         # the default in a new process
            if {'debug': 10, 'info': 20, 'warning': 30}.get(level, 40) < own:
                I.event('dropped', rec=rec)
                return
            self.child_record(I, logger, rec)
            return
        self.may_fail(I, rec.get('action'))
        self.persist(I, rec)

    def persist(self, I, rec):
        self.records.append(rec)
        I.event('record', rec=rec, action=rec.get('action'), run_id=rec.get('run_id'), task_name=rec.get('task_name'), chain=I.chain())

    def log_handle(self, I, logger, record):
        if not self.is_task_logger(I, logger):
            return
        f = record.fields
        self.may_fail(I, f.get('action'))
        rec = dict(f)
        self.persist(I, rec)

    history = ()                # records already in the log before the analysed operation

    def repo_rows(self, I, kw):
        rows = []
        for r in list(self.history) + [x for x in self.records if 'action' in x]:
            f = dict(r)
            f.setdefault('created', f.get('end', f.get('start')))
            ok = True
            for k, v in kw.items():
                if k in ('action', 'task_name'):
                    if isinstance(v, env.RepoOp):
                        if v.name != 'in_':
                            raise Unsupported('repo filter %r' % v)
                        ok = ok and any(I.eq(f.get(k), x) for x in I.iterate(v.args[0]))
                    else:
                        ok = ok and I.eq(f.get(k), v)
                elif k == 'created':
                    ok = ok and self.created_ok(I, f.get('created'), v)
                else:
                    raise Unsupported('repo filter on %s' % k)
            if ok:
                rows.append(f)
        return rows

    def created_ok(self, I, c, v):
        ops = {'greater_equal': ['ge'], 'less_equal': ['le'], 'greater_than': ['gt'], 'less_than': ['lt']}
        if isinstance(v, env.RepoOp):
            if v.name == 'between':
                for o, x in zip(('ge', 'le'), v.args):
                    if x is not None and not I.compare(o, c, x):
                        return False
                return True
            if v.name in ops:
                return I.compare(ops[v.name][0], c, v.args[0])
        raise Unsupported('repo filter %r' % (v,))

    def repo_query(self, I, repo, args, kw, op):
        if args:
            raise Unsupported('positional repo filter')
        rows = self.repo_rows(I, kw)
        recs = [Obj(I.ext['logging.LogRecord'], f, label='record') for f in rows]
        if op == 'all':
            return AList(recs)
        if op == 'count':
            return len(recs)
        if not recs:
            return None
        return recs[-1] if op == 'last' else recs[0]

    # ------------------------------------------------------------ child processes
    def child_record(self, I, logger, rec):
        """A record emitted in a child process: goes through the queue handler to the log queue."""
        r = Obj(I.ext['logging.LogRecord'], dict(rec), label='record:%s' % rec.get('action'))
        r.fields['created'] = rec.get('end', rec.get('start'))
        r.fields.setdefault('exc_text', None if rec['level'] != 'exception' else Sym('exc_text', meta={'notnone': True}))
        r.fields.setdefault('exc_info', None)
        r.data['process'] = getattr(self, 'child_process', None)
        I.event('relay', rec=r, action=rec.get('action'))
        for h in list(logger.fields['handlers'].items):
            I.callm(h, 'handle', r)

    def proc_start(self, I, p):
        """The child runs its target on copies of the objects it was given, up to the end."""
        p.data['alive'] = True
        kw = {k: v for k, v in (p.data['kwargs'].d if isinstance(p.data['kwargs'], ADict) else {}).items()}
        tgt = p.data['target']
        self.run_child(I, p, tgt, kw)

    def run_child(self, I, p, tgt, kw):
        if not isinstance(tgt, Bound) or not isinstance(tgt.self, Obj):
            raise Unsupported('process target is not a bound method')
        child = self.pickled(I, tgt.self)
        I.event('child_begin', obj=p)
        try:
            I.call(Bound(tgt.func, child), list(I.iterate(p.data['args'])) if p.data['args'] != () else [], kw)
        except AbsRaise as e:
            I.event('child_crash', exc=e.exc)
        I.event('child_end', obj=p)

    def pickled(self, I, task):
        """The child's copy of the task: what the task's own pickling hands over."""
        st = I.callm(task, '__getstate__')
        c = Obj(task.cls, {}, label=task.label + '(child)')
        for part in ('__dict__', '__private_attribute_values__'):
            d = st.d.get(part)
            if isinstance(d, ADict):
                c.fields.update(d.d)
        c.data = dict(task.data)
        c.data['child_of'] = task
        return c

    def thread_start(self, I, th):
        th.data['alive'] = True


def gen_hook(label, mark, task_arg=None):
    """A generator hook of the client: marks label-pre, is suspended, marks label-post when resumed."""
    def call(I, a, k):
        def it():
            mark(I, label + '-pre', k.get('task'))
            x = yield None
            mark(I, label + '-post', x)
        return AIter(it())
    b = Builtin('hook:' + label, call, params=[('task', 'PK', task_arg)] if task_arg is not None else [])
    b.attrs['isgen'] = True
    return b


def fun_hook(label, mark, task_arg=None):
    return Builtin('hook:' + label, lambda I, a, k: mark(I, label, k.get('task')),
                   params=[('task', 'PK', task_arg)] if task_arg is not None else [])


def new_interp(k=2, root='/repo'):
    I = Interp(Program(root), k=k)
    I.load_all()
    return I


FREE_TASK = {
    'permanent': [False, True], 'force_run': [False, True], 'daemon': [None, False, True], 'priority': [0, 1], 'disabled': [False, True],
    'description': [None, 'what it does'], 'on_startup': [False, True], 'on_shutdown': [False, True], 'multilaunch': [None, False, True],
    'status': [None, 'run', 'success', 'fail', 'terminate', 'inaction', 'crash'], '_main_alive': [False, True],
}
FREE_CONFIG = {
    'silence_task_prerun': [False, True], 'silence_task_logging': [False, True], 'silence_cond_check': [False, True], 'tasks_as_daemon': [False, True],
    'instant_shutdown': [False, True], 'multilaunch': [False, True], 'use_instance_naming': [False, True], 'restarting': ['relaunch', 'replace', 'recall', 'fresh'],
    'task_pre_exist': ['raise', 'rename', 'ignore'], 'cycle_sleep': [None, 1],
}


def free(I, w, tasks=(), task=(), config=()):
    """What the property does not depend on is arbitrary: these attributes get any of their values, chosen where (and only if) the code reads them."""
    conf = I.getattr(w.session, 'config')
    for n in config:
        conf.fields[n] = Free('config.' + n, FREE_CONFIG[n])
    for t in tasks:
        for n in task:
            t.fields[n] = Free('%s.%s' % (t.label, n), FREE_TASK[n])


class Park(Exception):
    """A concurrently running target stays where it is: unwinds the abstract call without running handlers."""


class Sched(Base):
    """A scheduler whose started runs stay alive until they are observed dead."""
    parked = True

    def __init__(self, I, **c):
        self.runs = []              # started threads / processes / asyncio tasks, in order
        self.frozen = False
        Base.__init__(self, I, **c)

    def execute(self, I, task, params):
        if self.resuming:
            out, self.resuming = self.resuming, None
            if out == 'return':
                return self.result(I)
            raise AbsRaise(mk_exc(I, out), I.loc())
        I.event('execute', task=task, params=params, outcome='?')
        if self.in_child:
            raise Park()
        out = I.choose(("outcome", task.label, self.count("execute")), list(self.outcomes))
        I.trace[-1].d["outcome"] = out
        if out == "return":
            return self.result(I)
        raise AbsRaise(mk_exc(I, out), I.loc())

    in_child = 0

    def thread_start(self, I, th):
        self.started(I, th, 'thread')
        d, nf, ne = I.depth, len(I.frames), len(I.exc_stack)
        self.in_child += 1
        try:
            args = list(I.iterate(th.data['args'])) if th.data['args'] != () else []
            kw = th.data['kwargs'].d if isinstance(th.data['kwargs'], ADict) else {}
            I.call(th.data['target'], args, dict(kw))
            th.data['dead'] = True
        except Park:
            pass
        except AbsRaise as e:
            th.data['dead'] = True
        finally:
            self.in_child -= 1
            I.depth = d
            del I.frames[nf:]
            del I.exc_stack[ne:]

    def run_child(self, I, p, tgt, kw):
        self.started(I, p, 'process')
        self.child_process = p
        d, nf, ne = I.depth, len(I.frames), len(I.exc_stack)
        self.in_child += 1
        try:
            Base.run_child(self, I, p, tgt, kw)
            p.data['dead'] = True
        except Park:
            pass
        finally:
            self.in_child -= 1
            I.depth = d
            del I.frames[nf:]
            del I.exc_stack[ne:]

    def task_created(self, I, t):
        co = t.data['coro']
        if isinstance(co, Coro):
            # a run of a task, if the coroutine belongs to a task object
            o = co.args[0] if co.args else None
            if isinstance(o, Obj) and I.isinstance(o, self.ns['Task']):
                t.data['owner'] = o
                t.data['mode'] = I.callm(o, 'get_execution')
                if t.data['mode'] != 'main':
                    self.started(I, t, 'async')

    def started(self, I, o, kind):
        o.data['kind'] = kind
        o.data['born'] = len(I.trace)
        if 'owner' not in o.data:
            tg = o.data.get('target')
            o.data['owner'] = tg.self if isinstance(tg, Bound) else None
        I.event('start', task=o.data['owner'], run=o, run_kind=kind, chain=I.chain(),
                alive=[r for r in self.runs if not r.data.get('dead')])
        self.runs.append(o)

    def alive(self, I, o):
        if o.data.get('dead'):
            return False
        if o not in self.runs:
            return not o.data.get('done', False)
        if self.frozen or o.data.get('stuck'):
            return True
        n = o.data.get('obs', 0)
        o.data['obs'] = n + 1
        if n >= self.max_obs or not I.choose(('dies', self.runs.index(o), n), [False, True]):
            return True
        o.data['dead'] = True
        I.event('dies', run=o)
        return False

    max_obs = 2
    sleep_kills = False         # every sleep of the scheduler is long enough for the live runs to end

    def sleep(self, I, delay):
        if self.sleep_kills:
            for r in list(self.runs):
                if not r.data.get('dead') and not r.data.get('stuck'):
                    self.finish(I, r)

    def finish(self, I, r, action='success', value=None):
        """The run ends by itself (with a success)."""
        r.data['dead'] = True
        I.event('finishes', run=r)
        if r.data['kind'] == 'async':
            try:
                env.run_task_obj(I, r)
            except AbsRaise:
                pass
        elif r.data['kind'] == 'process':
            rel = [e for e in I.trace if e.kind == 'relay' and e.rec.data.get('process') is r]
            if rel:
                f = dict(rel[-1].rec.fields)
                f.update(action=action, end=self.clock.read(I))
                if action == 'success':
                    f['__return__'] = self.RESULT if value is None else value
                if action == 'fail':
                    f.update(level='exception', exc_text=Sym('exc_text', meta={'notnone': True}))
                f['created'] = f['end']
                rec = Obj(rel[-1].rec.cls, f, label='record:' + action)
                q = self.scheduler.fields['_log_queue']
                q.data['items'].append(rec)

    resuming = None

    def resume_thread(self, I, th, outcome):
        """The parked thread goes on to its end: its target is followed again, its prefix (up to execute) without effects."""
        self.resuming = outcome
        try:
            args = list(I.iterate(th.data['args'])) if th.data['args'] != () else []
            kw = th.data['kwargs'].d if isinstance(th.data['kwargs'], ADict) else {}
            I.call(th.data['target'], args, dict(kw))
        except AbsRaise:
            pass
        finally:
            self.resuming = None
            th.data['dead'] = True

    def await_task(self, I, t):
        return env.run_task_obj(I, t)

    def cycle(self):
        self.I.await_(self.I.callm(self.scheduler, 'run_cycle'))


def lock_free(I, w):
    return [e for e in I.trace if e.kind == 'lock']
