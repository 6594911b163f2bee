"""Abstract models of the runtime services the package leans on (threads, processes, asyncio, locks,
queues, logging).  A model only records the operation as an event and keeps the few state bits the
rules need; anything that depends on the outside world is delegated to ``I.world`` (see World)."""
from .values import *
from .interp import AbsRaise, _MISSING, AnalysisError, Unsupported


class World:
    """Default environment: nothing runs on its own, nothing fails."""

    def log_emit(self, I, logger, level, msg, kw):
        pass

    def log_handle(self, I, logger, record):
        pass

    def sleep(self, I, delay):
        pass

    def thread_start(self, I, th):
        pass

    def proc_start(self, I, p):
        pass

    def task_created(self, I, t):
        pass

    def alive(self, I, o):
        return o.data.get('alive', False)

    def join(self, I, o):
        o.data['alive'] = False

    def terminate(self, I, o):
        pass

    def cancel(self, I, o):
        pass

    def await_task(self, I, t):
        """Await an asyncio.Task: run its coroutine to completion (once)."""
        return run_task_obj(I, t)

    def queue_get(self, I, q, block, timeout):
        """Called when the queue is empty."""
        I.raise_(I.ext['queue.Empty'])

    def event_wait(self, I, e, timeout):
        return True

    def repo_query(self, I, repo, args, kw, op):
        return Sym(('extcall', 'redbird', op, I.fresh('q')))

    def pickleable(self, I, v):
        return True

    def program_wait(self, I, o, timeout):
        return o.fields['returncode']

    def popen(self, I, o, args, kw):
        pass

    def communicate(self, I, o, kw):
        return (Sym(('stdout', I.fresh('p'))), Sym(('stderr', I.fresh('p'))))

    def exec_(self, I, args):
        raise Halt()


class Halt(Exception):
    """The process is replaced: nothing runs after this."""


class RepoOp:
    """A redbird filter operation, e.g. between(a, b)."""
    def __init__(self, name, args, kw):
        self.name, self.args, self.kw = name, args, kw

    def __repr__(self):
        return '%s(%s)' % (self.name, ', '.join(map(repr, self.args)))


class _Default(World):
    pass


def world(I):
    return I.world if I.world is not None else _DEF


_DEF = _Default()


def run_task_obj(I, t):
    d = t.data
    if not d.get('started'):
        d['started'] = True
        I.event('task_begin', task=t)
        try:
            d['result'] = I.await_(d['coro'])
        except AbsRaise as e:
            d['exc'] = e.exc
        d['done'] = True
        I.event('task_end', task=t)
    if d.get('exc') is not None:
        raise AbsRaise(d['exc'], I.loc())
    return d.get('result')


def native(I, path, methods, bases=(), props=None):
    name = path.rpartition('.')[2]
    c = I.ext.get(path)
    if not isinstance(c, ClassVal):
        c = ClassVal(name, list(bases), {}, ext=True, path=path)
        I.ext[path] = c
    for n, fn in methods.items():
        c.ns[n] = Builtin('%s.%s' % (path, n), fn)
    for n, fn in (props or {}).items():
        c.ns[n] = PropVal(Builtin('%s.%s' % (path, n), fn))
    return c


def arg(a, k, i, name, default=None):
    if len(a) > i:
        return a[i]
    return k.get(name, default)


def install(I):
    E = I.ext

    # ---- threading.Event
    def ev_init(I, a, k):
        a[0].data['flag'] = False

    def ev_set(I, a, k):
        I.event('flag', op='set', obj=a[0], old=a[0].data.get('flag'))
        a[0].data['flag'] = True

    def ev_clear(I, a, k):
        I.event('flag', op='clear', obj=a[0], old=a[0].data.get('flag'))
        a[0].data['flag'] = False

    def ev_isset(I, a, k):
        return a[0].data.get('flag', False)

    def ev_wait(I, a, k):
        I.event('flag', op='wait', obj=a[0], old=a[0].data.get('flag'))
        if a[0].data.get('flag') is True:
            return True
        return world(I).event_wait(I, a[0], arg(a, k, 1, 'timeout'))
    for p in ('threading.Event', 'multiprocessing.Event', 'asyncio.Event'):
        native(I, p, {'__init__': ev_init, 'set': ev_set, 'clear': ev_clear, 'is_set': ev_isset, 'isSet': ev_isset,
                      'wait': ev_wait})

    # ---- locks
    def lk_acq(I, a, k):
        I.event('lock', op='acquire', obj=a[0])
        a[0].data['held'] = a[0].data.get('held', 0) + 1
        return True

    def lk_rel(I, a, k):
        I.event('lock', op='release', obj=a[0])
        a[0].data['held'] = a[0].data.get('held', 0) - 1
        return None

    def lk_locked(I, a, k):
        return a[0].data.get('held', 0) > 0
    for p in ('threading.Lock', 'threading.RLock', 'multiprocessing.Lock'):
        native(I, p, {'acquire': lk_acq, 'release': lk_rel, 'locked': lk_locked, '__enter__': lk_acq,
                      '__exit__': lk_rel})

    # ---- queues
    def q_init(I, a, k):
        a[0].data['items'] = []

    def q_put(I, a, k):
        I.event('queue', op='put', obj=a[0], item=a[1])
        a[0].data['items'].append(a[1])

    def q_get(I, a, k):
        block = arg(a, k, 1, 'block', True)
        timeout = arg(a, k, 2, 'timeout')
        q = a[0]
        if not q.data['items']:
            world(I).queue_get(I, q, block, timeout)
        if not q.data['items']:
            I.raise_(I.ext['queue.Empty'])
        x = q.data['items'].pop(0)
        I.event('queue', op='get', obj=q, item=x)
        return x

    def q_nowait(I, a, k):
        return q_get(I, [a[0], False], {})
    for p in ('multiprocessing.Queue', 'queue.Queue', 'queue.SimpleQueue', 'multiprocessing.SimpleQueue'):
        native(I, p, {'__init__': q_init, 'put': q_put, 'put_nowait': q_put, 'get': q_get, 'get_nowait': q_nowait,
                      'empty': lambda I, a, k: not a[0].data['items'],
                      'qsize': lambda I, a, k: len(a[0].data['items']),
                      'close': lambda I, a, k: None})

    # ---- threads and processes
    def mk_init(kind):
        def init(I, a, k):
            o = a[0]
            o.data.update(kind=kind, target=arg(a, k, 2, 'target'), args=k.get('args', ()), kwargs=k.get('kwargs'),
                          daemon=k.get('daemon'), started=False)
            I.event(kind + '_new', obj=o, target=o.data['target'], args=o.data['args'], kwargs=o.data['kwargs'],
                    daemon=o.data['daemon'])
        return init

    def th_start(I, a, k):
        a[0].data['started'] = True
        I.event('thread_start', obj=a[0])
        world(I).thread_start(I, a[0])

    def pr_start(I, a, k):
        a[0].data['started'] = True
        I.event('process_start', obj=a[0])
        world(I).proc_start(I, a[0])

    def alive(I, a, k):
        return world(I).alive(I, a[0])

    def join(I, a, k):
        I.event('join', obj=a[0])
        world(I).join(I, a[0])

    def term(I, a, k):
        I.event('terminate', obj=a[0], op='terminate')
        world(I).terminate(I, a[0])
    native(I, 'threading.Thread', {'__init__': mk_init('thread'), 'start': th_start, 'is_alive': alive, 'join': join})
    native(I, 'multiprocessing.Process', {'__init__': mk_init('process'), 'start': pr_start, 'is_alive': alive,
                                          'join': join, 'terminate': term, 'kill': term})
    uu = native(I, 'uuid.UUID', {'__str__': lambda I, a, k: a[0].fields['hex']})

    def uuid4(I, a, k):
        key = ('uuid', I.fresh('uuid'))
        m = {'notnone': True, 'truthy': True, 'notobj': True}
        return Obj(uu, {'hex': Sym(key, meta=m), 'int': Sym(('int', key), meta=m)})
    for p in ('uuid.uuid4', 'uuid.uuid1'):
        E[p] = Builtin(p, uuid4)
    E['multiprocessing.cpu_count'] = Builtin('cpu_count', lambda I, a, k: 4)
    E['os.cpu_count'] = Builtin('cpu_count', lambda I, a, k: 4)

    # ---- child programs
    def po_init(I, a, k):
        a[0].data.update(cmd=a[1] if len(a) > 1 else k.get('args'), kw=dict(k))
        a[0].fields['returncode'] = None
        a[0].fields['args'] = a[0].data['cmd']
        a[0].fields['pid'] = 4242
        I.event('popen', obj=a[0], cmd=snap(I, a[0].data['cmd']), kw=dict(k), chain=I.chain())
        world(I).popen(I, a[0], a[0].data['cmd'], k)

    def po_comm(I, a, k):
        kw = dict(k)
        if len(a) > 2:
            kw['timeout'] = a[2]
        I.event('communicate', obj=a[0], timeout=kw.get('timeout'))
        return world(I).communicate(I, a[0], kw)

    def po_op(op):
        def f(I, a, k):
            I.event('popen_op', op=op, obj=a[0], timeout=(a[1] if len(a) > 1 else k.get('timeout')) if op == 'wait' else None)
            if op == 'wait':
                return world(I).program_wait(I, a[0], a[1] if len(a) > 1 else k.get('timeout'))
            if op == 'poll':
                return a[0].fields['returncode']
            a[0].data.setdefault('ops', []).append(op)
        return f
    native(I, 'subprocess.Popen', {'__init__': po_init, 'communicate': po_comm, 'kill': po_op('kill'), 'terminate': po_op('terminate'),
                                   'wait': po_op('wait'), 'poll': po_op('poll'),
                                   '__enter__': lambda I, a, k: a[0], '__exit__': lambda I, a, k: None})
    E['subprocess.PIPE'] = -1
    E['subprocess.STDOUT'] = -2
    E['subprocess.DEVNULL'] = -3
    E['subprocess.CREATE_NEW_CONSOLE'] = 16

    def execl(I, a, k):
        I.event('exec', cmd=[snap(I, x) for x in a], chain=I.chain())
        world(I).exec_(I, a)
    for p in ('os.execl', 'os.execv', 'os.execlp', 'os.execvp'):
        E[p] = Builtin(p, execl)

    # ---- asyncio
    fut = E['asyncio.Future']
    tk = E['asyncio.Task']

    def create_task(I, a, k):
        t = Obj(tk)
        t.data['coro'] = a[0]
        t.data['kind'] = 'async'
        I.event('create_task', task=t)
        world(I).task_created(I, t)
        return t

    def t_cancel(I, a, k):
        I.event('terminate', obj=a[0], op='cancel')
        world(I).cancel(I, a[0])
        return True

    def t_await(I, a, k):
        return world(I).await_task(I, a[0])
    native(I, 'asyncio.Future', {'done': lambda I, a, k: I_not(I, world(I).alive(I, a[0])), 'cancel': t_cancel,
                                 '__await__': t_await,
                                 'cancelled': lambda I, a, k: a[0].data.get('cancelled', False)})
    for p in ('asyncio.create_task', 'asyncio.ensure_future'):
        E[p] = Builtin(p, create_task)

    def arun(I, a, k):
        I.event('asyncio_run', coro=a[0])
        return I.await_(a[0])
    E['asyncio.run'] = Builtin('asyncio.run', arun)

    sl = native(I, 'asyncio._Sleep', {
        '__await__': lambda I, a, k: (I.event('sleep', delay=a[0].data['delay']), world(I).sleep(I, a[0].data['delay']), None)[2]})

    def asleep(I, a, k):
        o = Obj(sl)
        o.data['delay'] = arg(a, k, 0, 'delay')
        return o
    E['asyncio.sleep'] = Builtin('asyncio.sleep', asleep)
    E['time.sleep'] = Builtin('time.sleep', lambda I, a, k: None)

    wf = native(I, 'asyncio._WaitFor', {
        '__await__': lambda I, a, k: (I.event('wait_for', delay=a[0].data['timeout']), I.await_(a[0].data['aw']))[1]})

    def wait_for(I, a, k):
        o = Obj(wf)
        o.data['aw'] = a[0]
        o.data['timeout'] = arg(a, k, 1, 'timeout')
        return o
    E['asyncio.wait_for'] = Builtin('asyncio.wait_for', wait_for)
    sh = native(I, 'asyncio._Shield', {'__await__': lambda I, a, k: I.await_(a[0].data['aw'])})

    def shield(I, a, k):
        o = Obj(sh)
        o.data['aw'] = a[0]
        return o
    E['asyncio.shield'] = Builtin('asyncio.shield', shield)
    def ga_await(I, a, k):
        out = []
        for x in a[0].data['aws']:
            try:
                out.append(I.await_(x))
            except AbsRaise as e:
                if not a[0].data['catch'] or I.exc_is(e.exc, 'SystemExit') or I.exc_is(e.exc, 'KeyboardInterrupt'):
                    raise
                out.append(e.exc)
        return AList(out)
    ga = native(I, 'asyncio._Gather', {'__await__': ga_await})

    def gather(I, a, k):
        o = Obj(ga)
        o.data['aws'] = list(a)
        o.data['catch'] = I.truth(k.get('return_exceptions', False))
        return o
    E['asyncio.gather'] = Builtin('asyncio.gather', gather)

    def wt_await(I, a, k):
        for x in a[0].data['aws']:
            try:
                I.await_(x)
            except AbsRaise:
                pass
        return (ASet(a[0].data['aws']), ASet([]))
    wt = native(I, 'asyncio._Wait', {'__await__': wt_await})

    def await_all(I, a, k):
        if k.get('timeout') is not None or k.get('return_when') is not None:
            raise Unsupported('asyncio.wait with a timeout or another condition')
        o = Obj(wt)
        o.data['aws'] = list(I.iterate(a[0]))
        return o
    E['asyncio.wait'] = Builtin('asyncio.wait', await_all)

    # ---- logging
    def level_of(I, lg):
        lv = I.force(lg.fields.get('level'))
        name = lg.fields['name']
        while not lv and isinstance(name, str) and '.' in name:
            name = name.rpartition('.')[0]
            up = I.loggers.get(key_of(name))
            lv = I.force(up.fields.get('level')) if up is not None else 0
        return lv or getattr(world(I), 'root_level', 20)

    def lg_emit(level):
        def f(I, a, k):
            I.event('log', logger=a[0], level=level, msg=a[1] if len(a) > 1 else None, extra=k.get('extra'),
                    exc_info=k.get('exc_info'), stack=I.exc_stack[-1] if I.exc_stack else None)
            world(I).log_emit(I, a[0], level, a[1] if len(a) > 1 else None, k)
        return f
    ms = {lv: lg_emit(lv) for lv in ('debug', 'info', 'warning', 'error', 'critical', 'exception')}

    def lg_log(I, a, k):
        return lg_emit(a[1])(I, [a[0]] + a[2:], k)

    def lg_handle(I, a, k):
        I.event('handle', logger=a[0], record=a[1])
        world(I).log_handle(I, a[0], a[1])

    def lg_add(I, a, k):
        I.event('addHandler', logger=a[0], handler=a[1])
        a[0].fields['handlers'].items.append(a[1])

    def lg_remove(I, a, k):
        I.event('removeHandler', logger=a[0], handler=a[1])
        a[0].fields['handlers'].items[:] = [h for h in a[0].fields['handlers'].items if h is not a[1]]
    ms.update(log=lg_log, handle=lg_handle, addHandler=lg_add, removeHandler=lg_remove,
              setLevel=lambda I, a, k: (a[0].fields.update(level=I.force(a[1])), I.event('setLevel', logger=a[0], level=a[1]))[1],
              isEnabledFor=lambda I, a, k: I.force(a[1]) >= level_of(I, a[0]),
              makeRecord=lambda I, a, k: Obj(E['logging.LogRecord'], {'created': Lin.sym('wall')}, label='record'),
              getEffectiveLevel=lambda I, a, k: level_of(I, a[0]),
              hasHandlers=lambda I, a, k: bool(a[0].fields['handlers'].items))
    logger_cls = native(I, 'logging.Logger', ms)

    def getLogger(I, a, k):
        name = arg(a, k, 0, 'name', 'root')
        key = key_of(name)
        reg = I.loggers
        if key not in reg:
            o = Obj(logger_cls, {'name': name, 'handlers': AList([], label='%s.handlers' % (name,)), 'propagate': True,
                                 'level': 0, 'parent': None}, label='logger:%s' % (name,))
            reg[key] = o
        return reg[key]
    E['logging.getLogger'] = Builtin('logging.getLogger', getLogger)
    E['multiprocessing.current_process'] = Builtin(
        'current_process', lambda I, a, k: Obj(native(I, 'multiprocessing._Cur', {}),
                                               {'name': 'MainProcess', 'daemon': False}, label='MainProcess'))
    def qh_init(I, a, k):
        a[0].fields['queue'] = arg(a, k, 1, 'queue')

    def qh_prepare(I, a, k):
        return a[1]
    native(I, 'logging.handlers.QueueHandler', {
        '__init__': qh_init, 'prepare': qh_prepare,
        'format': lambda I, a, k: Sym(('formatted', key_of(a[1].fields.get('message'))), meta={'notnone': True}),
        'setLevel': lambda I, a, k: None,
        'enqueue': lambda I, a, k: I.callm(a[0].fields['queue'], 'put_nowait', a[1]),
        'emit': lambda I, a, k: I.callm(a[0], 'enqueue', I.callm(a[0], 'prepare', a[1])),
        'handle': lambda I, a, k: I.callm(a[0], 'emit', a[1])}, bases=[E['logging.Handler']])
    native(I, 'logging.Formatter', {})
    native(I, 'redbird.base.BaseRepo', {})
    E['redbird.BaseRepo'] = E['redbird.base.BaseRepo']

    def rh_init(I, a, k):
        a[0].fields['repo'] = arg(a, k, 1, 'repo')
    native(I, 'redbird.logging.RepoHandler', {'__init__': rh_init}, bases=[E['logging.Handler']])

    def repo_init(I, a, k):
        a[0].fields['model'] = k.get('model')
    def q_make(I, a, k):
        o = Obj(qry)
        o.data['kw'] = dict(k)
        o.data['args'] = a[1:]
        o.data['repo'] = a[0]
        I.event('repo_query', repo=a[0], args=tuple(a[1:]), kw=dict(k))
        return o

    def q_run(op):
        return lambda I, a, k: world(I).repo_query(I, a[0].data['repo'], a[0].data['args'], a[0].data['kw'], op)
    qry = native(I, 'redbird.Query', {op: q_run(op) for op in ('all', 'first', 'last', 'count')})
    for p in ('redbird.base.BaseRepo',):
        E[p].ns['filter_by'] = Builtin('filter_by', q_make)
    for n in ('between', 'greater_equal', 'less_equal', 'greater_than', 'less_than', 'in_', 'not_equal', 'equal'):
        E['redbird.oper.' + n] = Builtin('redbird.oper.' + n, lambda I, a, k, n=n: RepoOp(n, tuple(a), dict(k)))
    native(I, 'redbird.repos.MemoryRepo', {'__init__': repo_init}, bases=[E['redbird.base.BaseRepo']])


def I_not(I, v):
    v = I.force(v)
    if isinstance(v, Sym):
        return not I.truth(v)
    return not v


def snap(I, v):
    v = I.force(v)
    if isinstance(v, AList):
        return [snap(I, x) for x in v.items]
    return v
