"""Parameters: which value reaches the task code, and what is left behind."""
from ..framework import rule
from ..interp import short
from ..model import *
from .lifecycle import Life, MODES, run_once, task_records

SRC = '''
from rocketry.core.task import Task
from rocketry.core.parameters import BaseArgument
from rocketry.tasks.func import FuncTask
from rocketry.args import Arg, FuncArg, Return, Private, SimpleArg, Session as SessionArg, Task as TaskArg, Config, EnvArg

class Fresh(BaseArgument):
    def __init__(self, label):
        self.label = label
    def get_value(self, task=None, session=None, **kwargs):
        return _fresh(self.label, task, session)

class Staged(Fresh):
    """Handed over as such; the value is formed where the task runs."""
    def stage(self, **kwargs):
        return self

def plain_func(x):
    return _got(x)
def default_func(x='DEFAULT'):
    return _got(x)
def arg_func(x=Fresh('signature')):
    return _got(x)
async def async_func(x):
    return _got(x)
def two(x, y=Fresh('signature'), *, z='DEFAULT'):
    return _got((x, y, z))

def typed(type_):
    return _got(type_)
def underscored(_param):
    return _got(_param)
def about(task, session, params, name):
    return _got((task, session, params, name))

class CustomTask(Task):
    def execute(self, x):
        return _got(x)
class CustomDefaultTask(Task):
    def execute(self, x='DEFAULT'):
        return _got(x)
class OpenTask(Task):
    def execute(self, **params):
        return _got(params)

def make_own(task=TaskArg(), session=SessionArg()):
    return _made(task, session, None)
def make_value(task=TaskArg(), session=SessionArg(), inner=Arg('inner', default=None)):
    return _made(task, session, inner)
'''


def value(label, n):
    o = Obj(PyClass(object), {}, label='%s#%d' % (label, n))
    o.data['value'] = (label, n)
    return o


class PW(Life):
    def __init__(self, I, **c):
        Life.__init__(self, I, **c)
        self.got = []
        self.nfresh = 0
        self.seen = []
        self.px = client(I, SRC, {
            '_got': Builtin('_got', lambda I, a, k: self.take(I, a[0])),
            '_fresh': Builtin('_fresh', lambda I, a, k: self.fresh(I, a[0], a[1], a[2])),
            '_made': Builtin('_made', lambda I, a, k: self.made(I, *a)),
        }, '__params__')

    def take(self, I, v):
        self.got.append(v)
        return 'OUT'

    def fresh(self, I, label, task, session):
        self.nfresh += 1
        self.seen.append((label, task, session))
        return value(label, self.nfresh)

    def made(self, I, task, session, inner):
        self.seen.append(('made', task, session, inner))
        return value('made', len(self.seen))


def mk(I, w, kind, label):
    """A value given for a parameter: nothing, a plain value or an argument whose value is formed for each run."""
    if kind == 'value':
        return label
    return I.call(w.px['Fresh' if kind == 'argument' else 'Staged'], [label], {})


def is_value(v, kind, label):
    if kind == 'value':
        return v == label
    return isinstance(v, Obj) and v.data.get('value', (None,))[0] == label


def same_task(t, real):
    return t is real or (isinstance(t, Obj) and t.data.get('child_of') is real)


@rule('C21', 'Tasks get the parameter values with the highest precedence, formed anew',
      'Path-sensitive abstract interpretation of parameter collection and materialisation',
      'For a parameter given in any combination of run request, task parameters, function signature (argument or default) and session parameters, each as a plain value or an '
      'argument, in every execution mode and kind of task: the code of the task gets the value of the first of request, task, signature argument, session, default; '
      'arguments are evaluated for that task and session at each run; session parameters it does not take are not passed and not evaluated without their task; a later run '
      'without a request is the same again; the parameters of the session and the task hold the same objects as before.')
def c21(ctx):
    FORMS = {'function': ('plain_func', None), 'function with default': ('default_func', 'default'),
             'function with an argument as default': ('arg_func', 'signature'), 'async function': ('async_func', None),
             'task class': ('CustomTask', None), 'task class with default': ('CustomDefaultTask', 'default')}
    KINDS = (None, 'value', 'argument')

    def build(I, w, form, mode, params):
        name, _ = FORMS[form]
        kw = dict(name='a', session=w.session, execution=mode, start_cond=w.cond('s'), end_cond=w.cond('e'), parameters=params)
        if 'class' in form:
            t = I.call(w.px[name], [], kw)
        else:
            t = I.call(w.px['FuncTask'], [w.px[name]], kw)
        t.label = 'task:a'
        return t

    def snap(I, o):
        p = I.getattr(o, 'parameters')
        return list(I.iterate(I.callm(p, 'items'))) if p is not None else []

    def same(a, b):
        return len(a) == len(b) and all(x[0] == y[0] and (x[1] is y[1] or (isinstance(x[1], str) and x[1] == y[1])) for x, y in
                                        ((tuple(i), tuple(j)) for i, j in zip(a, b)))

    def scen(I):
        w = PW(I)
        w.form = I.choose('task', list(FORMS))
        w.mode = I.choose('execution', list(MODES))
        w.src = {}
        for s in ('session', 'task', 'request'):
            w.src[s] = I.choose('given in the %s' % s, list(KINDS))
        other = I.call(w.px['Arg'], ['nowhere'], {})
        sp = {'other': other}
        if w.src['session']:
            sp['x'] = mk(I, w, w.src['session'], 'session')
        I.callm(I.getattr(w.session, 'parameters'), 'update', ADict(sp))
        tp = ADict({'x': mk(I, w, w.src['task'], 'task')}) if w.src['task'] else ADict({})
        w.t = t = build(I, w, w.form, w.mode, tp)
        I.trace.clear()
        w.before = snap(I, w.session), snap(I, t)
        w.results = []
        for i in range(2):
            if i == 0 and w.src['request']:
                I.callm(t, 'run', x=mk(I, w, w.src['request'], 'request'))
            n, k = len(w.got), len(w.seen)
            w.exc = run_once(I, w, t)
            w.results.append((w.got[n:], w.seen[k:]))
        w.after = snap(I, w.session), snap(I, t)
        return w

    def judge(I, d):
        if d.raised:
            yield (d.loc, 'running the task raises %s' % d.exc)
            return
        w = d.value
        given = {s: k for s, k in w.src.items() if k}
        desc = '%s, execution=%s, x given in %s' % (w.form, w.mode, ', '.join('%s (%s)' % i for i in given.items()) or 'nothing')
        default = FORMS[w.form][1]
        vals = []
        for i, (got, seen) in enumerate(w.results):
            src = dict(w.src)
            if i == 1:
                src['request'] = None
            order = [('request', src['request']), ('task', src['task'])]
            if default == 'signature':
                order.append(('signature', 'argument'))
            order.append(('session', src['session']))
            if default == 'default':
                order.append(('DEFAULT', 'value'))
            exp = [(s, k) for s, k in order if k][:1]
            nth = 'run with request' if i == 0 and w.src['request'] else 'run %d' % (i + 1)
            if not exp:
                if got:
                    yield ('rocketry/core/task.py', '%s: %s executes with x=%r though nothing gives x' % (desc, nth, got[0]))
                continue
            s, k = exp[0]
            if len(got) != 1:
                yield ('rocketry/core/task.py', '%s: %s does not execute (once), expected the value of the %s' % (desc, nth, s))
                continue
            if not is_value(got[0], k, s):
                yield ('rocketry/core/parameters/parameters.py', '%s: %s gets x=%r, expected the value of the %s' % (desc, nth, got[0], s))
                continue
            for lab, t, se in seen:
                if lab == s and not (same_task(t, w.t) and (se is None or se is w.session)):
                    if not (w.mode == 'process' and same_task(t, w.t)):
                        yield ('rocketry/core/parameters/parameters.py', '%s: argument %s is evaluated for task %r, session %r' % (desc, lab, t, se))
            if k == 'argument':
                vals.append((s, got[0].data['value']))
        if len(vals) == 2 and vals[0] == vals[1]:
            yield ('rocketry/core/parameters/parameters.py', '%s: the argument of the %s is not evaluated anew in the second run' % (desc, vals[0][0]))
        for a, b, what in zip(w.before, w.after, ('session', 'task')):
            if not same(a, b):
                yield ('rocketry/core/task.py', '%s: the parameters of the %s change from %r to %r by running' % (desc, what, a, b))
    ctx.explore('precedence', scen, judge, need=500)

    # ------------------------------------------------------------ kinds of arguments
    AK = {
        'SimpleArg': lambda I, w: I.call(w.px['SimpleArg'], ['V'], {}),
        'Private': lambda I, w: I.call(w.px['Private'], ['V'], {}),
        'Session()': lambda I, w: I.call(w.px['SessionArg'], [], {}),
        'Task()': lambda I, w: I.call(w.px['TaskArg'], [], {}),
        "Task('b')": lambda I, w: I.call(w.px['TaskArg'], ['b'], {}),
        'Config()': lambda I, w: I.call(w.px['Config'], [], {}),
        "Return('b')": lambda I, w: I.call(w.px['Return'], ['b'], {}),
        "Return('b', default)": lambda I, w: I.call(w.px['Return'], ['b'], {'default': 'V'}),
        "Arg('k')": lambda I, w: I.call(w.px['Arg'], ['k'], {}),
        "Arg('nowhere', default)": lambda I, w: I.call(w.px['Arg'], ['nowhere'], {'default': 'V'}),
        "Arg('nowhere', None)": lambda I, w: I.call(w.px['Arg'], ['nowhere'], {'default': None}),
        "Return('b', None)": lambda I, w: I.call(w.px['Return'], ['b'], {'default': None}),
        "Arg('nowhere', None) >> Arg('k')": lambda I, w: I.callm(I.call(w.px['Arg'], ['nowhere'], {'default': None}), '__rshift__', I.call(w.px['Arg'], ['k'], {})),
        "Arg('nowhere') >> Arg('k')": lambda I, w: I.callm(I.call(w.px['Arg'], ['nowhere'], {}), '__rshift__', I.call(w.px['Arg'], ['k'], {})),
        'FuncArg': lambda I, w: I.call(w.px['FuncArg'], [w.px['make_value']], {}),
        'FuncArg(materialize=pre)': lambda I, w: I.call(w.px['FuncArg'], [w.px['make_value']], {'materialize': 'pre'}),
        'FuncArg(materialize=post)': lambda I, w: I.call(w.px['FuncArg'], [w.px['make_value']], {'materialize': 'post'}),
        'argument formed where the task runs': lambda I, w: mk(I, w, 'staged', 'k'),
    }

    def scen2(I):
        w = PW(I)
        w.mode = I.choose('execution', list(MODES))
        w.kind = I.choose('argument', list(AK))
        w.at = I.choose('given in the', ['session', 'task', 'request'])
        I.callm(I.getattr(w.session, 'parameters'), 'update', ADict({'k': mk(I, w, 'argument', 'k'), 'inner': mk(I, w, 'argument', 'inner')}))
        w.b = w.task('b', execution='main')
        w.ret = value('return of b', 0)
        if w.kind == "Return('b')":
            I.callm(I.getattr(w.session, 'returns'), '__setitem__', w.b, w.ret)
        # the session parameters are not handed over to child processes
        w.nested = w.mode != 'process' or 'pre' in w.kind
        if not w.nested:
            w.px['make_value'] = w.px['make_own']
        arg = AK[w.kind](I, w)
        if w.at == 'session':
            I.callm(I.getattr(w.session, 'parameters'), '__setitem__', 'x', arg)
        w.t = t = build(I, w, 'function', w.mode, ADict({'x': arg} if w.at == 'task' else {}))
        I.trace.clear()
        if w.at == 'request':
            I.callm(t, 'run', x=arg)
        w.exc = run_once(I, w, t)
        return w

    def judge2(I, d):
        if d.raised:
            yield (d.loc, 'running the task raises %s' % d.exc)
            return
        w = d.value
        desc = 'execution=%s, x=%s given in the %s' % (w.mode, w.kind, w.at)
        at = 'rocketry/args/builtin.py'
        if len(w.got) != 1:
            yield (at, '%s: the task does not execute (%s)' % (desc, w.exc.exc if w.exc else [r.get('action') for r in task_records(w)]))
            return
        v = w.got[0]
        if w.kind in ('SimpleArg', 'Private') or 'default' in w.kind:
            ok = v == 'V'
        elif w.kind.endswith(('None)', "None) >> Arg('k')")):
            ok = v is None
        elif w.kind == 'Session()':
            ok = v is w.session
        elif w.kind == 'Task()':
            ok = same_task(v, w.t)
        elif w.kind == "Task('b')":
            ok = v is w.b
        elif w.kind == 'Config()':
            ok = v is I.getattr(w.session, 'config')
        elif w.kind == "Return('b')":
            ok = v is w.ret
        elif 'FuncArg' in w.kind:
            ok = isinstance(v, Obj) and v.data.get('value', (None,))[0] == 'made'
            m = [s for s in w.seen if s[0] == 'made']
            if ok and (len(m) != 1 or not same_task(m[0][1], w.t) or m[0][2] not in (w.session, w.t.fields.get('session')) and w.mode != 'process'
                       or w.nested and not is_value(m[0][3], 'argument', 'inner')):
                yield (at, '%s: the function is called %s' % (desc, [x[1:] for x in m]))
        else:
            ok = is_value(v, 'argument', 'k')
            bad = [s for s in w.seen if s[0] == 'k' and not same_task(s[1], w.t)]
            if bad:
                yield (at, '%s: the argument is evaluated for task %r' % (desc, bad[0][1]))
        if not ok:
            yield (at, '%s: the task gets %r' % (desc, v))
    ctx.explore('arguments', scen2, judge2, need=100)

    # ------------------------------------------------------------ names of parameters
    def scen3(I):
        w = PW(I)
        w.mode = I.choose('execution', list(MODES))
        w.at = I.choose('given in the', ['session', 'task', 'request'])
        w.name = I.choose('name', ['type_', '_param', 'task, session, params and name'])
        fn, names = {'type_': ('typed', ['type_']), '_param': ('underscored', ['_param'])}.get(w.name, ('about', ['task', 'session', 'params', 'name']))
        w.want = {n: 'V' + n for n in names}
        if w.at == 'session':
            I.callm(I.getattr(w.session, 'parameters'), 'update', ADict(dict(w.want)))
        w.t = t = I.call(w.px['FuncTask'], [w.px[fn]], dict(
            name='a', session=w.session, execution=w.mode, start_cond=w.cond('s'), end_cond=w.cond('e'),
            parameters=ADict(dict(w.want)) if w.at == 'task' else ADict({})))
        t.label = 'task:a'
        if w.at == 'request':
            I.callm(t, 'run', ADict(dict(w.want)))
        w.exc = run_once(I, w, t)
        return w

    def judge3(I, d):
        w = d.world
        want = list(w.want.values())
        got = None if d.raised or len(w.got) != 1 else w.got[0]
        got = [got] if isinstance(got, str) else list(got) if isinstance(got, tuple) else got
        if got != want:
            yield (d.loc if d.raised else 'rocketry/core/parameters/parameters.py',
                   'execution=%s: parameter(s) named %s given in the %s: the task gets %s instead of %s' % (
                       w.mode, w.name, w.at, d.exc if d.raised else got, want))
    ctx.explore('names', scen3, judge3, need=36)

    # ------------------------------------------------------------ None, zero and empty values are values
    def scen4(I):
        w = PW(I)
        w.form = I.choose('task', list(FORMS))
        w.mode = I.choose('execution', list(MODES))
        w.ch = {}
        for s in ('session', 'task', 'request'):
            w.ch[s] = I.choose('given in the %s' % s, ['-', None, 'V'] if s == 'session' else ['-', None, 0, ''] if s == 'task' else ['-', None, False])
        w.wrap = I.choose('as', ['value', 'SimpleArg'])
        give = lambda s: ADict({} if w.ch[s] == '-' else {'x': I.call(w.px['SimpleArg'], [w.ch[s]], {}) if w.wrap == 'SimpleArg' else w.ch[s]})
        I.callm(I.getattr(w.session, 'parameters'), 'update', give('session'))
        w.t = t = build(I, w, w.form, w.mode, give('task'))
        if w.ch['request'] != '-':
            I.callm(t, 'run', give('request'))
        w.exc = run_once(I, w, t)
        return w

    def judge4(I, d):
        w = d.world
        desc = '%s, execution=%s, x given as %s of %s' % (w.form, w.mode, w.wrap, w.ch)
        if d.raised:
            yield (d.loc, '%s: running the task raises %s' % (desc, d.exc))
            return
        default = FORMS[w.form][1]
        exp = [w.ch[s] for s in ('request', 'task') if w.ch[s] != '-']
        if default == 'signature':
            exp.append(('signature',))
        if w.ch['session'] != '-':
            exp.append(w.ch['session'])
        if default == 'default':
            exp.append('DEFAULT')
        if not exp:
            ok = not w.got
        elif exp[0] == ('signature',):
            ok = len(w.got) == 1 and is_value(w.got[0], 'argument', 'signature')
        else:
            ok = len(w.got) == 1 and type(w.got[0]) is type(exp[0]) and w.got[0] == exp[0]
        if not ok:
            yield ('rocketry/core/parameters/parameters.py', '%s: the task gets %s, expected %s' % (desc, w.got or 'nothing', exp[:1] or 'nothing'))
    ctx.explore('empty values', scen4, judge4, need=500)


def leaks(v, secret, seen=None, depth=0):
    """Whether the abstract value shows the secret (strings, containers and formatted strings of them)."""
    seen = seen if seen is not None else set()
    if id(v) in seen or depth > 12:
        return False
    seen.add(id(v))
    if isinstance(v, str):
        return secret in v
    if isinstance(v, ADict):
        return any(leaks(x, secret, seen, depth + 1) for kv in v.d.items() for x in kv)
    if isinstance(v, dict):
        return any(leaks(x, secret, seen, depth + 1) for kv in v.items() for x in kv)
    if isinstance(v, AList):
        return any(leaks(x, secret, seen, depth + 1) for x in v.items)
    if isinstance(v, (list, tuple, set, frozenset)):
        return any(leaks(x, secret, seen, depth + 1) for x in v)
    if isinstance(v, Sym):
        return leaks(v.key, secret, seen, depth + 1)
    return False


@rule('C23', 'Private arguments are only shown to the task they are given to',
      'Abstract interpretation with the secret as a marked value (information flow to display, look-up and log sinks)',
      'For a secret given as a Private argument in the session, task or run parameters, directly, by reference or as an alternative: the text of the argument, of the parameters holding it and of '
      'their JSON form, the value looked up without a task and every log message and log field of a run (each execution mode and outcome) do not contain the secret, and the task code gets it.')
def c23(ctx):
    SECRET = 'S3CRET'

    def forms(I, w):
        p = I.call(w.px['Private'], [SECRET], {})
        kind = I.choose('form', ['Private', 'alternative', 'reference'])
        if kind == 'alternative':
            return kind, I.callm(I.call(w.px['Arg'], ['nowhere'], {}), '__rshift__', p)
        if kind == 'reference':
            I.callm(I.getattr(w.session, 'parameters'), '__setitem__', 'secret', p)
            return kind, I.call(w.px['Arg'], ['secret'], {})
        return kind, p

    VIEWS = ('str(arg)', 'repr(arg)', 'format(arg)', 'str(params)', 'repr(params)', 'params[name]', 'params.get(name)', 'params.to_json()', 'f"{arg}"', 'session.parameters[name]',
             'materialized for no task', 'materialized for the session', 'shut condition', 'scheduler hook', 'argument of the scheduler')

    def scen(I):
        w = PW(I)
        w.kind, arg = forms(I, w)
        w.view = I.choose('view', list(VIEWS))
        px = client(I, '''
from rocketry.core.parameters import Parameters
from rocketry.core.hook import _Hooker
from rocketry.conditions import FuncCond
def view(how, arg, session):
    if how == 'str(arg)':
        return str(arg)
    if how == 'repr(arg)':
        return repr(arg)
    if how == 'format(arg)':
        return '{}'.format(arg)
    if how == 'f"{arg}"':
        return f"{arg} {arg!r}"
    if how == 'session.parameters[name]':
        session.parameters['x'] = arg
        return session.parameters['x']
    if how == 'shut condition':
        seen = []
        def cond(x=arg):
            seen.append(x)
            return False
        session.scheduler.check_shut_cond(FuncCond(cond))
        return seen
    if how == 'scheduler hook':
        seen = []
        def hook(x=arg):
            seen.append(x)
        _Hooker([hook]).prerun(scheduler=session.scheduler)
        return seen
    if how == 'argument of the scheduler':
        return arg.get_value(session=session, scheduler=session.scheduler)
    if how == 'materialized for no task':
        return Parameters(x=arg).materialize()
    if how == 'materialized for the session':
        return Parameters(x=arg).materialize(session=session)
    p = Parameters(x=arg) | Parameters(y=1)
    if how == 'str(params)':
        return str(p)
    if how == 'repr(params)':
        return repr(p)
    if how == 'params[name]':
        return p['x']
    if how == 'params.get(name)':
        return p.get('x')
    return p.to_json()
''', {}, '__view__')
        w.seen = I.call(px['view'], [w.view, arg, w.session], {})
        return w

    def judge(I, d):
        w = d.world
        if d.raised:
            return          # e.g. a reference cannot be resolved without a session
        if leaks(w.seen, SECRET):
            yield ('rocketry/args/secret.py', 'given as %s: %s shows the secret: %r' % (w.kind, w.view, w.seen))
    ctx.explore('display', scen, judge, need=15)

    class LW(PW):
        def log_emit(self, I, logger, level, msg, kw):
            self.texts.append((msg, kw))
            Life.log_emit(self, I, logger, level, msg, kw)

        def execute_(self, I):
            pass

    def scen2(I):
        w = LW(I, silence_task_prerun=True)
        w.texts = []
        w.mode = I.choose('execution', list(MODES))
        w.kind, arg = forms(I, w)
        w.at = I.choose('given in the', ['session', 'task', 'request'])
        w.end = I.choose('task', ['return', 'Exception', 'TaskInaction', 'missing parameter'])

        def take(I, v):
            w.got.append(v)
            if w.end == 'return':
                return 'OUT'
            raise AbsRaise(mk_exc(I, w.end), I.loc())
        w.take = take
        if w.at == 'session':
            I.callm(I.getattr(w.session, 'parameters'), '__setitem__', 'x', arg)
        fn = w.px['two' if w.end == 'missing parameter' else 'plain_func']
        if w.end == 'missing parameter':
            fn = w.px['about']
        w.t = t = I.call(w.px['FuncTask'], [fn], dict(
            name='a', session=w.session, execution=w.mode, start_cond=w.cond('s'), end_cond=w.cond('e'),
            parameters=ADict({'x': arg} if w.at == 'task' else {})))
        t.label = 'task:a'
        I.trace.clear()
        if w.at == 'request':
            I.callm(t, 'run', x=arg)
        w.exc = run_once(I, w, t)
        return w

    def judge2(I, d):
        w = d.world
        if d.raised:
            yield (d.loc, 'running the task raises %s' % d.exc)
            return
        desc = 'execution=%s, secret given as %s in the %s, task: %s' % (w.mode, w.kind, w.at, w.end)
        for m, kw in w.texts:
            if leaks(m, SECRET) or any(leaks(v, SECRET) for k, v in kw.items()):
                yield ('rocketry/core/task.py', '%s: the secret is in a log record: %r' % (desc, m))
        for r in w.records:
            if leaks(r, SECRET):
                yield ('rocketry/core/task.py', '%s: the secret is in the task log' % desc)
        if w.end != 'missing parameter' and w.got != [SECRET]:
            yield ('rocketry/args/secret.py', '%s: the task gets %r' % (desc, w.got))
    ctx.explore('runs', scen2, judge2, need=100)


@rule('C24', 'Handing a task over to a process does not change the task',
      'Path-sensitive abstract interpretation with an object-state comparison (aliasing) around pickling and process start',
      'Pickling a task (alone or to start a process run of it) leaves every setting of the task and of its session holding the same objects and containers with the same content; '
      'the copy that is handed over has no run stack, lock, conditions or session tasks of the original.')
def c24(ctx):
    MAY = {'status', '_last_run', '_run_stack', 'batches', '_mark_running', '_main_alive', '_last_success', '_last_fail', 'force_run'}

    def deep(I, v, depth=0):
        if isinstance(v, ADict):
            return ('dict', id(v), tuple((k if isinstance(k, str) else id(k), deep(I, x, depth + 1)) for k, x in v.d.items())) if depth < 4 else id(v)
        if isinstance(v, AList):
            return ('list', id(v), tuple(deep(I, x, depth + 1) for x in v.items)) if depth < 4 else id(v)
        if isinstance(v, (str, int, bool, float, type(None), tuple, frozenset)):
            return v
        if isinstance(v, Obj) and depth < 2 and I.isinstance(v, I.get('rocketry.core.parameters.Parameters')):
            return ('params', id(v), deep(I, v.fields.get('_params'), depth + 1))
        return ('obj', id(v))

    def snap(I, o, skip=()):
        return {k: deep(I, v) for k, v in o.fields.items() if k not in skip}

    def scen(I):
        w = PW(I)
        w.how = I.choose('handed over by', ['pickling', 'starting a process run', 'pickling parameters'])
        w.fs = I.choose('given in the', ['session', 'task'])
        args = ADict({'x': mk(I, w, 'argument', 'k'), 'plain': 'V'})
        if w.fs == 'session':
            I.callm(I.getattr(w.session, 'parameters'), 'update', args)
        w.config(shut_cond=w.cond('shut'))
        w.b = w.task('b', execution='main')
        w.t = t = I.call(w.px['FuncTask'], [w.px['plain_func']], dict(
            name='a', session=w.session, execution='process', start_cond=w.cond('s'), end_cond=w.cond('e'),
            parameters=args if w.fs == 'task' else ADict({})))
        t.label = 'task:a'
        I.getattr(t, 'lock')
        cfg = I.getattr(w.session, 'config')
        I.trace.clear()
        w.before = snap(I, t, MAY), snap(I, w.session, ('returns',)), snap(I, cfg), snap(I, w.b)
        if w.how == 'pickling':
            w.state = I.callm(t, '__getstate__')
        elif w.how == 'pickling parameters':
            w.state = I.callm(I.getattr(w.session if w.fs == 'session' else t, 'parameters'), '__getstate__')
        else:
            w.exc = run_once(I, w, t)
        w.after = snap(I, t, MAY), snap(I, w.session, ('returns',)), snap(I, cfg), snap(I, w.b)
        return w

    def judge(I, d):
        w = d.world
        if d.raised:
            yield (d.loc, 'exception %s' % d.exc)
            return
        for what, a, b in zip(('task', 'session', 'session configuration', 'another task'), w.before, w.after):
            for k in sorted(set(a) | set(b)):
                if a.get(k, '-') != b.get(k, '-'):
                    yield ('rocketry/core/task.py', '%s: attribute %s of the %s is changed' % (w.how, k, what))
        if w.how == 'pickling':
            st = w.state.d
            priv, dct = st['__private_attribute_values__'].d, st['__dict__'].d
            for k in ('_lock', '_run_stack'):
                if priv.get(k) is not None:
                    yield ('rocketry/core/task.py', 'the pickled task holds %s of the original' % k)
            for k in ('start_cond', 'end_cond'):
                if dct.get(k) is not None:
                    yield ('rocketry/core/task.py', 'the pickled task holds the %s of the original' % k)
            s = dct.get('session')
            if s is w.session or (isinstance(s, Obj) and s.fields.get('tasks') is not None and list(I.iterate(s.fields['tasks']))):
                yield ('rocketry/session.py', 'the pickled task holds the session of the original with its tasks')
    ctx.explore('pickling', scen, judge, need=4)


ARGS_SRC = '''
from rocketry.tasks.func import FuncTask
from rocketry.conditions import FuncCond
from rocketry.parameters import FuncParam
from rocketry.args import (Arg, FuncArg, Return, SimpleArg, Session as SessionArg, Task as TaskArg, Config, EnvArg, CliArg,
                           TaskLogger, SchedulerLogger, TerminationFlag, argument)

def made(*args, **kwargs):
    return _made(args, kwargs)
def nested(task=TaskArg(), config=Config(), other=Arg('plain')):
    return _made((task, config, other), {})
def pair(a, b, *, c, plain=Arg('plain')):
    return _made((a, b, c, plain), {})
def given(x):
    return _got(x)
def make_func(arg):
    def in_signature(x=arg):
        return _got(x)
    return in_signature
def make_cond(arg):
    def check(x=arg):
        _got(x)
        return True
    return FuncCond(decor_return_func=False)(check)
def make_hook(arg):
    def hook(task=TaskArg(), x=arg):
        _got(x)
        yield
    return hook
def other_task():
    return None
'''


@rule('C45', 'Arguments are the values they name', 'Path-sensitive abstract interpretation of the evaluation of arguments',
      'For every built-in argument (session parameter, session, task, configuration, loggers, return value, environment variable, command line option, termination flag, function, and chains of alternatives), '
      'given in the session, the task, the run request or the signature of the function, in every execution mode (own or of the session): the task gets the value named, at that run; where what it names is '
      'missing it gets the default if there is one, else the run fails and the task is not executed. Functions of conditions and hooks get the same values.')
def c45(ctx):
    AT = 'rocketry/args/builtin.py'

    def setup(I, **c):
        w = Life(I, **c)
        w.got, w.calls = [], []
        w.px = client(I, ARGS_SRC, {
            '_got': Builtin('_got', lambda I, a, k: (w.got.append(I.force(a[0])), 'OUT')[1]),
            '_made': Builtin('_made', lambda I, a, k: (w.calls.append((a[0], a[1])), value('made', len(w.calls)))[1])}, '__args__')
        I.ext['os.environ'].d.clear()
        I.ext['os.environ'].d.update({'OTHER': 'no'})
        I.ext['sys.argv'].items[:] = ['prog', '--other', 'no', '--x-ray', 'no', '--x=no', 'x', '--x', 'V', '--x', 'no', '-y', '--x']
        I.callm(I.getattr(w.session, 'parameters'), 'update', ADict({'plain': 'P', 'ref': I.call(w.px['Arg'], ['plain'], {}), 'refref': I.call(w.px['Arg'], ['ref'], {}),
                                                                   'none': None, 'simple': I.call(w.px['SimpleArg'], ['V'], {})}))
        return w

    def px(w, I, cls, *a, **k):
        return I.call(w.px[cls], list(a), k)

    def pipe(I, *args):
        r = args[0]
        for x in args[1:]:
            r = I.callm(r, '__rshift__', x)
        return r

    FAIL = object()

    # name -> (build(I, w), expected value, or function (I, w, v) -> bool)
    def const(x):
        return lambda I, w, v: type(v) is type(x) and v == x

    def event(I, w, v):
        ok = isinstance(v, Obj) and v.cls is I.ext['threading.Event'] and not v.data.get('flag')
        if w.mode == 'thread':
            return ok and any(I.getattr(r, 'event_terminate', None) is v for r in w.flags)
        return ok

    def logger(name, adapter):
        def f(I, w, v):
            if not isinstance(v, Obj):
                return False
            if adapter:
                if I.getattr(v, 'task_name', None) != 'a':
                    return False
                v = I.getattr(v, 'logger')
            return I.getattr(v, 'name') == name
        return f

    def made(args, kwargs=None):
        def f(I, w, v):
            if not (isinstance(v, Obj) and v.data.get('value', (None,))[0] == 'made') or len(w.calls) != 1:
                return False
            a, k = w.calls[0]
            a = list(I.iterate(a))
            k = k.d if isinstance(k, ADict) else k
            exp = args(I, w)
            return len(a) == len(exp) and all((x is y) or (isinstance(y, str) and x == y) or same_task(x, y) for x, y in zip(a, exp)) and dict(k) == (kwargs or {})
        return f
    cfg = lambda I, w: I.getattr(w.session, 'config')
    AK = {
        "Arg('plain')": (lambda I, w: px(w, I, 'Arg', 'plain'), const('P')),
        "Arg of Arg": (lambda I, w: px(w, I, 'Arg', 'refref'), const('P')),
        "Arg('none', default)": (lambda I, w: px(w, I, 'Arg', 'none', default='D'), const(None)),
        "Arg('simple', default)": (lambda I, w: px(w, I, 'Arg', 'simple', default='D'), const('V')),
        "Arg('nowhere')": (lambda I, w: px(w, I, 'Arg', 'nowhere'), FAIL),
        "Arg('nowhere', default 0)": (lambda I, w: px(w, I, 'Arg', 'nowhere', default=0), const(0)),
        "Arg(function of a parameter)": (lambda I, w: (I.call(I.call(w.px['FuncParam'], ['by_func'], {'session': w.session}), [w.px['made']], {}), px(w, I, 'Arg', w.px['made']))[1], made(lambda I, w: [])),
        "SimpleArg": (lambda I, w: px(w, I, 'SimpleArg', 'V'), const('V')),
        "Session()": (lambda I, w: px(w, I, 'SessionArg'), lambda I, w, v: v is w.session),
        "Task()": (lambda I, w: px(w, I, 'TaskArg'), lambda I, w, v: same_task(v, w.t)),
        "Task('b')": (lambda I, w: px(w, I, 'TaskArg', 'b'), lambda I, w, v: v is w.b),
        "Task('nowhere')": (lambda I, w: px(w, I, 'TaskArg', 'nowhere'), FAIL),
        "Config()": (lambda I, w: px(w, I, 'Config'), lambda I, w, v: v is I.getattr(w.session, 'config')),
        "TaskLogger()": (lambda I, w: px(w, I, 'TaskLogger'), logger('my.tasks', True)),
        "SchedulerLogger()": (lambda I, w: px(w, I, 'SchedulerLogger'), logger('my.scheduler', False)),
        "Return('b')": (lambda I, w: (ret(I, w), px(w, I, 'Return', 'b'))[1], lambda I, w, v: v is w.ret),
        "Return(task)": (lambda I, w: (ret(I, w), px(w, I, 'Return', w.b))[1], lambda I, w, v: v is w.ret),
        "Return(None returned, default)": (lambda I, w: (ret(I, w, None), px(w, I, 'Return', 'b', default='D'))[1], const(None)),
        "Return('b') not run": (lambda I, w: px(w, I, 'Return', 'b'), FAIL),
        "Return('nowhere')": (lambda I, w: px(w, I, 'Return', 'nowhere', default='D'), FAIL),
        "Return('b') not run, default": (lambda I, w: px(w, I, 'Return', 'b', default='D'), const('D')),
        "EnvArg set": (lambda I, w: (px(w, I, 'EnvArg', 'VAR', default='D'), I.ext['os.environ'].d.update({'VAR': 'V'}))[0], const('V')),
        "EnvArg set empty": (lambda I, w: (I.ext['os.environ'].d.update({'VAR': ''}), px(w, I, 'EnvArg', 'VAR', default='D'))[1], const('')),
        "EnvArg unset": (lambda I, w: px(w, I, 'EnvArg', 'VAR'), FAIL),
        "EnvArg unset, default None": (lambda I, w: px(w, I, 'EnvArg', 'VAR', default=None), const(None)),
        "CliArg": (lambda I, w: px(w, I, 'CliArg', '--x', default='D'), const('V')),
        "CliArg absent": (lambda I, w: px(w, I, 'CliArg', '--z'), FAIL),
        "CliArg absent, default": (lambda I, w: px(w, I, 'CliArg', '--z', default=''), const('')),
        "TerminationFlag()": (lambda I, w: px(w, I, 'TerminationFlag'), event),
        "FuncArg with values": (lambda I, w: px(w, I, 'FuncArg', w.px['made'], 'p', q='k'), made(lambda I, w: ['p'], {'q': 'k'})),
        "FuncArg with arguments": (lambda I, w: px(w, I, 'FuncArg', w.px['nested'], materialize='pre'), made(lambda I, w: [w.t, cfg(I, w), 'P'])),
        "FuncArg with both": (lambda I, w: px(w, I, 'FuncArg', w.px['pair'], 'p', materialize='pre', b='q', c='r'), made(lambda I, w: ['p', 'q', 'r', 'P'])),
        "@argument()": (lambda I, w: I.call(I.call(w.px['argument'], [], {'materialize': 'pre'}), [w.px['nested']], {}), made(lambda I, w: [w.t, cfg(I, w), 'P'])),
        "chain, last": (lambda I, w: pipe(I, px(w, I, 'Arg', 'nowhere'), px(w, I, 'EnvArg', 'VAR'), px(w, I, 'CliArg', '--x')), const('V')),
        "chain, first": (lambda I, w: pipe(I, px(w, I, 'Arg', 'plain'), px(w, I, 'CliArg', '--x')), const('P')),
        "chain, middle": (lambda I, w: pipe(I, px(w, I, 'EnvArg', 'VAR'), px(w, I, 'Arg', 'none'), px(w, I, 'CliArg', '--x')), const(None)),
        "chain of chains": (lambda I, w: pipe(I, px(w, I, 'EnvArg', 'VAR'), pipe(I, px(w, I, 'CliArg', '--z'), px(w, I, 'Arg', 'plain'))), const('P')),
        "chain in chain": (lambda I, w: pipe(I, px(w, I, 'Arg', 'plain'), pipe(I, px(w, I, 'CliArg', '--x'), px(w, I, 'Arg', 'none'))), const('P')),
        "Arg of TerminationFlag()": (lambda I, w: (I.callm(I.getattr(w.session, 'parameters'), '__setitem__', 'flag', px(w, I, 'TerminationFlag')), px(w, I, 'Arg', 'flag'))[1], event),
        "Arg of Task()": (lambda I, w: (I.callm(I.getattr(w.session, 'parameters'), '__setitem__', 'me', px(w, I, 'TaskArg')), px(w, I, 'Arg', 'me'))[1], lambda I, w, v: same_task(v, w.t)),
        "chain, none": (lambda I, w: pipe(I, px(w, I, 'EnvArg', 'VAR'), px(w, I, 'CliArg', '--z')), FAIL),
    }

    def ret(I, w, v=FAIL):
        w.ret = value('return of b', 0) if v is FAIL else v
        I.callm(I.getattr(w.session, 'returns'), '__setitem__', w.b, w.ret)

    def scen(I):
        w = setup(I)
        conf = I.getattr(w.session, 'config')
        w.mode = I.choose('execution', list(MODES))
        w.own = I.choose('execution of', ['task', 'session']) == 'task'
        w.kind = I.choose('argument', list(AK))
        w.at = I.choose('given in the', ['signature', 'session', 'task', 'request'] if w.own else ['signature', 'task'])
        if 'Logger' in w.kind:
            I.setattr(conf, 'task_logger_basename', 'my.tasks')
            I.setattr(conf, 'scheduler_logger_basename', 'my.scheduler')
        w.b = w.task('b', execution='main')
        if not w.own:
            I.setattr(conf, 'execution', w.mode)
        arg = AK[w.kind][0](I, w)
        if w.at == 'session':
            I.callm(I.getattr(w.session, 'parameters'), '__setitem__', 'x', arg)
        fn = I.call(w.px['make_func'], [arg], {}) if w.at == 'signature' else w.px['given']
        w.t = t = I.call(w.px['FuncTask'], [fn], dict(name='a', session=w.session, start_cond=w.cond('s'), end_cond=w.cond('e'),
                                                      parameters=ADict({'x': arg} if w.at == 'task' else {}), **({'execution': w.mode} if w.own else {})))
        t.label = 'task:a'
        if w.at == 'request':
            I.callm(t, 'run', x=arg)
        w.flags = []
        I.trace.clear()
        real = w.thread_start

        def thread_start(I, th):
            w.flags += [r for r in I.iterate(t.fields['_run_stack'])]
            return real(I, th)
        w.thread_start = thread_start
        w.exc = run_once(I, w, t)
        w.actions = [r.get('action') for r in task_records(w)]
        return w

    def judge(I, d):
        if d.raised:
            yield (d.loc, 'running the task raises %s%s' % (d.exc, short(d.exc.fields.get('args'))))
            return
        w = d.value
        desc = 'execution=%s (of the %s), x=%s given in the %s' % (w.mode, 'task' if w.own else 'session', w.kind, w.at)
        exp = AK[w.kind][1]
        if exp is FAIL:
            if w.got:
                yield (AT, '%s: the task is executed with x=%r' % (desc, w.got[0]))
            elif w.actions != ['run', 'fail']:
                yield (AT, '%s: the log has %s, expected run and fail' % (desc, w.actions))
            return
        if len(w.got) != 1:
            yield (AT, '%s: the task does not execute (%s)' % (desc, w.exc.exc if w.exc else w.actions))
        elif not exp(I, w, w.got[0]):
            yield (AT, '%s: the task gets %r' % (desc, w.got[0]))
    ctx.explore('tasks', scen, judge, need=300)

    def scen2(I):
        w = setup(I)
        w.mode = 'main'
        w.use = I.choose('used in', ['condition', 'hook of the task'])
        w.kind = I.choose('argument', [k for k in AK if 'TerminationFlag' not in k])
        if 'Logger' in w.kind:
            conf = I.getattr(w.session, 'config')
            I.setattr(conf, 'task_logger_basename', 'my.tasks')
            I.setattr(conf, 'scheduler_logger_basename', 'my.scheduler')
        w.b = w.task('b', execution='main')
        arg = AK[w.kind][0](I, w)
        w.t = t = w.task('a', execution='main')
        if w.use == 'condition':
            c = I.call(w.px['make_cond'], [arg], {})
            w.res = I.callm(c, 'observe', task=t, session=w.session)
        else:
            h = I.call(w.px['make_hook'], [arg], {})
            I.call(I.callm(w.session, 'hook_task_execute'), [h], {})
            I.trace.clear()
            w.exc = run_once(I, w, t)
        return w

    def judge2(I, d):
        w = d.world
        desc = '%s with x=%s' % (w.use, w.kind)
        exp = AK[w.kind][1]
        if exp is FAIL:
            if w.got:
                yield (AT, '%s: called with x=%r' % (desc, w.got[0]))
            return
        if d.raised:
            yield (d.loc, '%s raises %s%s' % (desc, d.exc, short(d.exc.fields.get('args'))))
        elif len(w.got) != 1 or not exp(I, w, w.got[0]):
            yield (AT, '%s: called with %s' % (desc, w.got or 'nothing'))
    ctx.explore('conditions and hooks', scen2, judge2, need=60)
