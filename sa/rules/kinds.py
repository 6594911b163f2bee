"""Kinds of tasks (commands, code) and groups of tasks."""
import datetime
import itertools
from ..framework import rule
from ..interp import short
from ..model import *
from .lifecycle import Life, run_once, task_records, MODES

T = 'Path-sensitive abstract interpretation'
COMMAND, CODE, APP = 'rocketry/tasks/command.py', 'rocketry/tasks/code.py', 'rocketry/application.py'
FLAG = {None: '--', 'long': '--', '--': '--', 'short': '-', '-': '-'}


class CmdW(Life):
    """A child program that cannot be started, succeeds, fails or exceeds its time."""
    child = 'ok'

    def popen(self, I, o, args, kw):
        if self.child == 'cannot start':
            raise AbsRaise(Obj(PyClass(FileNotFoundError), {'args': ()}, label='no such program'), I.loc())

    def communicate(self, I, o, kw):
        self.program_wait(I, o, kw.get('timeout'))
        o.data['out'] = Obj(PyClass(object), {}, label='OUTPUT')
        return (o.data['out'], self.err(I))

    def program_wait(self, I, o, timeout):
        """The program that takes too long ignores requests to terminate: only killing ends it."""
        t = I.force(timeout)
        if t is not None and not isinstance(t, (int, float, Lin)):
            raise AbsRaise(Obj(PyClass(TypeError), {'args': ('timeout is not a number: %s' % short(t),)}), I.loc())
        killed = 'kill' in o.data.get('ops', ())
        first = 'waits' not in o.data
        o.data['waits'] = True
        if self.child == 'too long' and not killed and t is not None:
            raise AbsRaise(Obj(I.ext['subprocess.TimeoutExpired'], {'args': ()}, label='TimeoutExpired'), I.loc())
        if self.child == 'too long' and not killed and not first:
            I.event('stuck', obj=o)
        o.fields['returncode'] = {'ok': 0, 'too long': -9 if killed else 0}.get(self.child, self.child)
        return o.fields['returncode']

    def err(self, I):
        return b'oops \xff'


@rule('C31', 'Command and code tasks run what they define', T + ' (constant propagation over the definitions)',
      'On every path of running a command task twice (as text or list, each form of arguments, with parameters, working directory, shell and extra settings, in each execution mode): each run starts exactly '
      'one program with the defined command followed by the parameters as arguments and the defined settings; it succeeds with the output exactly if the program ends with 0, fails otherwise and if the program '
      'cannot be started; a program exceeding the timeout of the task is killed and the run fails; the definition of the task does not change. A code task runs its code with its parameters '
      'and returns what the code sets.')
def c31(ctx):
    def scen(I):
        w = CmdW(I)
        mode = I.choose('execution', list(MODES))
        w.form = I.choose('command', ['text', 'list'])
        w.params = I.choose('parameters', [{}, {'x': 'one', 'y': 'two'}, {'-z': 'one'}])
        w.argform = I.choose('argform', list(FLAG)) if w.params else None
        w.opts = I.choose('settings', ['default', 'cwd', 'shell', 'popen'] if mode == 'main' or not w.params or ctx.thorough else ['default'])
        w.timeout = I.choose('timeout', [None, 20, 0, 'never'] if not w.params or ctx.thorough else [None, 20])
        w.kids = [I.choose(('program', 1), ['ok', 1, -11, 'too long', 'cannot start'] if not w.params or ctx.thorough else ['ok', 1]), 'ok']
        w.mode = mode
        kw = {'execution': mode, 'name': 'a', 'session': w.session, 'start_cond': w.cond('start:a'), 'parameters': ADict(dict(w.params))}
        if w.argform is not None:
            kw['argform'] = w.argform
        if w.timeout is not None:
            kw['timeout'] = w.timeout
        w.exp_kw = {'cwd': None, 'shell': False, 'stdin': -1, 'stdout': -1, 'stderr': -1}
        if w.opts == 'cwd':
            kw['cwd'] = w.exp_kw['cwd'] = 'some/dir'
        elif w.opts == 'shell':
            kw['shell'] = w.exp_kw['shell'] = True
        elif w.opts == 'popen':
            kw['kwds_popen'] = ADict({'env': 'ENV', 'stdin': 7})
            w.exp_kw.update(env='ENV', stdin=7)
        w.popen_kw = dict(kw['kwds_popen'].d) if 'kwds_popen' in kw else {}
        ns = client(I, 'from rocketry.tasks import CommandTask\n')
        w.defined = 'do this' if w.form == 'text' else ['do', 'this']
        w.t = I.call(ns['CommandTask'], [], dict(kw, command='do this' if w.form == 'text' else AList(['do', 'this'])))
        w.t.label = 'task:a'
        w.res = []
        for kid in w.kids:
            w.child = kid
            I.trace.clear()
            w.records = []
            exc = run_once(I, w, w.t)
            pop = [e for e in I.trace if e.kind == 'popen']
            w.res.append(dict(pop=pop, exc=exc, acts=[r['action'] for r in task_records(w)], kills=[e for e in I.trace if e.kind == 'popen_op' and e.op in ('kill', 'terminate')],
                              times=[I.force(e.timeout) for e in I.trace if e.kind == 'communicate' or e.kind == 'popen_op' and e.op == 'wait'],
                              ret=ret(I, w), out=pop[-1].obj.data.get('out') if pop else None,
                              stuck=[e for e in I.trace if e.kind == 'stuck']))
        c = I.force(I.getattr(w.t, 'command'))
        w.after = [I.force(x) for x in c.items] if isinstance(c, AList) else c
        k = I.force(I.getattr(w.t, 'kwds_popen'))
        w.popen_after = {x: I.force(y) for x, y in k.d.items()} if isinstance(k, ADict) else {} if k is None else k
        return w

    def ret(I, w):
        try:
            return I.force(I.call(I.getattr(I.getattr(w.session, 'returns'), '__getitem__'), [w.t], {}))
        except AbsRaise:
            return None

    def judge(I, d):
        if d.raised:
            yield (d.loc, 'running a command task raises %s%s' % (d.exc, short(d.exc.fields.get('args'))))
            return
        w = d.value
        what = '%s command, parameters %s, argform %s, settings %s, timeout %s, execution %s' % (w.form, w.params, w.argform, w.opts, w.timeout, w.mode)
        args = []
        for k, v in w.params.items():
            args += [k if k.startswith('-') else FLAG[w.argform] + k, v]
        cmd = w.defined + args if w.form == 'list' else w.defined + ''.join(' %s "%s"' % tuple(args[i:i + 2]) for i in range(0, len(args), 2))
        limit = w.timeout if w.timeout != 'never' else None
        for i, (kid, r) in enumerate(zip(w.kids, w.res)):
            ok = kid == 'ok' or (kid == 'too long' and limit is None)
            run = 'run %d (program: %s) of a %s' % (i + 1, kid, what)
            if len(r['pop']) != 1:
                yield (COMMAND, '%s starts %d programs (records %s)' % (run, len(r['pop']), r['acts']))
                continue
            e = r['pop'][0]
            got = list(e.cmd) if isinstance(e.cmd, (list, tuple)) else e.cmd.items if isinstance(e.cmd, AList) else e.cmd
            if got != cmd:
                yield (e.loc, '%s starts %s, expected %s' % (run, short(got), cmd))
            kw = {k: I.force(v) for k, v in e.kw.items()}
            if any(kw.get(k) != v for k, v in w.exp_kw.items()):
                yield (e.loc, '%s is started with %s, expected %s' % (run, kw, w.exp_kw))
            if r['acts'] != ['run', 'success' if ok else 'fail']:
                yield (COMMAND, '%s is logged as %s' % (run, r['acts']))
            if ok and r['ret'] is not r['out']:
                yield (COMMAND, '%s returns %s, not the output of the program' % (run, short(r['ret'])))
            if kid != 'cannot start' and (not r['times'] or r['times'][0] != limit):
                yield (COMMAND, '%s waits for the program with timeout %s' % (run, r['times'][:1]))
            if kid == 'too long' and limit is not None and not r['kills']:
                yield (COMMAND, '%s leaves the program running' % run)
            if r['stuck']:
                yield (r['stuck'][0].loc, '%s waits for the end of the program, which was not killed' % run)
            if ok and r['kills']:
                yield (COMMAND, '%s kills the program' % run)
        if w.popen_after != w.popen_kw:
            yield (COMMAND, 'the extra settings of the task are %s after running it, they were %s (%s)' % (w.popen_after, w.popen_kw, what))
        if w.after != w.defined:
            yield (COMMAND, 'the command of the task is %s after running it (%s)' % (w.after, what))
    ctx.explore('commands', scen, judge, need=300, max_paths=20000)

    def code(I):
        class W(Life):
            pass
        w = W(I)
        w.mode = I.choose('execution', list(MODES))
        w.params = I.choose('parameters', [{}, {'x': 3}])
        w.out = I.choose('output variable', [None, 'res'])
        w.sets = I.choose('code sets', ['return_value', 'res', None])
        w.fails = I.choose('code fails', [False, True])
        w.seen = []

        def run(I, a, k):
            loc = a[2] if len(a) > 2 else a[1]
            # all names the code sees besides the builtins
            vis = {x: I.force(v) for m in (a[1], loc) for x, v in (m.d.items() if isinstance(m, ADict) else [('names of a module', m)]) if not str(x).startswith('__')}
            w.seen.append((I.force(a[0]), vis))
            if a[1] is not loc:
                # names the code declares global
                if isinstance(a[1], ADict):
                    a[1].d['left over'] = 1
            if w.fails:
                raise AbsRaise(Obj(PyClass(ValueError), {'args': ()}, label='error in code'), I.loc())
            if w.sets:
                loc.d[w.sets] = w.RESULT
        I.ext['hook.exec'] = Builtin('hook.exec', run)
        ns = client(I, 'from rocketry.tasks import CodeTask\n')
        kw = {'execution': w.mode, 'name': 'a', 'session': w.session, 'start_cond': w.cond('start:a'), 'parameters': ADict(dict(w.params)), 'code': 'the code'}
        if w.out:
            kw['output_variable'] = w.out
        w.t = I.call(ns['CodeTask'], [], kw)
        w.t.label = 'task:a'
        w.res = []
        for i in range(2):
            w.records, w.seen = [], []
            run_once(I, w, w.t)
            w.res.append(([r['action'] for r in task_records(w)], list(w.seen), ret(I, w)))
        return w

    def j_code(I, d):
        if d.raised:
            yield (d.loc, 'running a code task raises %s%s' % (d.exc, short(d.exc.fields.get('args'))))
            return
        w = d.value
        for i, (acts, seen, r) in enumerate(w.res):
            what = 'run %d of a code task (%s, parameters %s, output %s, code sets %s%s)' % (i + 1, w.mode, w.params, w.out, w.sets, ', fails' if w.fails else '')
            if acts != ['run', 'fail' if w.fails else 'success']:
                yield (CODE, '%s is logged as %s' % (what, acts))
            if seen != [('the code', w.params)]:
                yield (CODE, '%s runs %s' % (what, short(seen)))
            exp = w.RESULT if not w.fails and w.sets == (w.out or 'return_value') else None
            if r is not exp:
                yield (CODE, '%s returns %s' % (what, short(r)))
    ctx.explore('code', code, j_code, need=40)


# ---------------------------------------------------------------------------------------------- C35
GROUP = '''
from rocketry import Rocketry, Grouper
app = Rocketry(config={'task_execution': 'main'})
app.params(own=1, shared=2)
group = Grouper(**_group)
if _params:
    group.params(shared=3, theirs=4)

if _own:
    @app.task(_cond('app'), name="first", execution="thread")
    def first():
        ...

@group.task(_cond('g1'), name="one", execution=_exec)
def one():
    ...

@group.task(name="two")
def two():
    ...

@group.task(_cond('g1'), name="pre.same")
def same():
    ...

app.include_grouper(group)
other = Grouper(prefix="other.")

@other.task(_cond('g3'), name="three")
def three():
    ...

if _other:
    app.include_grouper(other)
'''


@rule('C35', 'Including a group adds its tasks as the group says', T,
      'For every combination of prefix, condition and execution of a group and of its tasks: after including it the session has exactly its own and the tasks of the group, named with the prefix, each true exactly if '
      'its own and the condition of the group are, executed as the task says, else as the group says, else as the session says, belonging to the session (which sees the parameters of the group); tasks of the session and of other groups are unaffected.')
def c35(ctx):
    def scen(I):
        w = Life(I)
        # what the conditions are while the group is included does not matter
        vals = dict.fromkeys(('app', 'g1', 'group', 'g3'), I.choose('conditions are', [False, True]))
        w.observe = lambda I, c, t, s: vals[c.fields['label']]
        w.prefix = I.choose('prefix', [None, 'pre.'])
        w.cond = I.choose('group condition', [False, True])
        w.gex = I.choose('group execution', [None, 'async', 'process'])
        w.tex = I.choose('task execution', [None, 'thread', 'process'])
        w.params = I.choose('parameters', [False, True])
        w.other = I.choose('another group', [False, True])
        w.own = I.choose('tasks of the app', [False, True])
        CC = w.ns['ClientCond']

        def mk(I, a, k):
            return I.call(CC, [a[0]], {})
        g = {}
        if w.prefix:
            g['prefix'] = w.prefix
        if w.cond:
            g['start_cond'] = I.call(CC, ['group'], {})
        if w.gex:
            g['execution'] = w.gex
        ns = client(I, GROUP, {'_group': ADict(g), '_params': w.params, '_exec': w.tex, '_other': w.other, '_own': w.own, '_cond': Builtin('_cond', mk)})
        s = I.getattr(ns['app'], 'session')
        w.tasks = {}
        w.bad = []
        for t in I.iterate(I.getattr(s, 'tasks')):
            t = I.force(t)
            w.tasks[I.force(I.getattr(t, 'name'))] = dict(execution=I.force(I.getattr(t, 'execution')), same=I.force(I.getattr(t, 'session')) is s, value={})
            for combo in itertools.product([False, True], repeat=4):
                vals.update(zip(('app', 'g1', 'group', 'g3'), combo))
                c = I.getattr(t, 'start_cond')
                w.tasks[I.force(I.getattr(t, 'name'))]['value'][combo] = I.truth(I.callm(c, 'observe', task=t, session=s))
        P = I.getattr(s, 'parameters')
        w.got = {k: I.force(I.callm(P, '__getitem__', k)) if I.truth(I.callm(P, '__contains__', k)) else None for k in ('own', 'shared', 'theirs')}
        return w

    def judge(I, d):
        if d.raised:
            yield (d.loc, 'including a group raises %s%s' % (d.exc, short(d.exc.fields.get('args'))))
            return
        w = d.value
        what = 'group with prefix %s, %s condition, execution %s' % (w.prefix, 'a' if w.cond else 'no', w.gex)
        p = w.prefix or ''
        exp = {'first': ('thread', lambda a, g1, g, g3: a), p + 'one': (w.tex or w.gex, lambda a, g1, g, g3: g1 and (g or not w.cond)), p + 'two': (w.gex, lambda *a: False)}
        exp[p + 'pre.same'] = (w.gex, exp[p + 'one'][1])
        if not w.own:
            exp.pop('first')
        if w.other:
            exp['other.three'] = (None, lambda a, g1, g, g3: g3)
        if set(w.tasks) != set(exp):
            yield (APP, '%s: the tasks of the session are %s' % (what, sorted(map(str, w.tasks))))
            return
        for n, (ex, f) in exp.items():
            t = w.tasks[n]
            if t['execution'] != ex:
                yield (APP, '%s: the execution of task %s (own: %s) is %s' % (what, n, w.tex if n.endswith('one') else None, t['execution']))
            if not t['same']:
                yield (APP, '%s: task %s does not belong to the session' % (what, n))
            bad = [c for c, v in t['value'].items() if v != f(*c)]
            if bad:
                yield (APP, '%s: the condition of task %s is %s for (app, own, group, other group) = %s' % (what, n, t['value'][bad[0]], bad[0]))
        e = {'own': 1, 'shared': 3 if w.params else 2, 'theirs': 4 if w.params else None}
        if w.got != e:
            yield (APP, '%s: the parameters of the session are %s, expected %s' % (what, w.got, e))
    ctx.explore('groups', scen, judge, need=60)


FUNC = 'rocketry/tasks/func.py'
FSRC = '''
from pathlib import Path
from rocketry.tasks import FuncTask
from rocketry import Rocketry
from rocketry.core.parameters import BaseArgument

class Value(BaseArgument):
    def get_value(self, **kwargs):
        return _value()

def target(x, y='Y', *, z=Value(), k='K'):
    "what it does"
    return _called('target', x=x, y=y, z=z, k=k)
async def atarget(x, y='Y', *, z=Value(), k='K'):
    "what it does"
    return _called('atarget', x=x, y=y, z=z, k=k)
def nothing():
    return _called('nothing')
def other(x='X'):
    return _called('other', x=x)

class Callable_:
    def __call__(self, x, y='Y', *, z=Value(), k='K'):
        return _called('object', x=x, y=y, z=z, k=k)
'''
MODULE = '''
def main(x, y='Y%(v)d', z=Value()):
    return _called('%(v)d:main', x=x, y=y, z=z)
async def work(x, y='Y%(v)d', z=Value()):
    return _called('%(v)d:work', x=x, y=y, z=z)
'''


class FuncW(Life):
    """Functions of the client, in memory or in a file that changes between runs."""
    version = 1
    broken = None               # what goes wrong in the run: import, missing function, argument, function

    def __init__(self, I):
        Life.__init__(self, I)
        self.calls = []
        self.nat = {'_called': Builtin('_called', lambda I, a, k: self.called(I, a[0], k)), '_value': Builtin('_value', lambda I, a, k: self.argument(I))}
        self.fx = client(I, FSRC, self.nat, '__functions__')

    def called(self, I, name, kw):
        self.calls.append((name, {k: I.force(v) for k, v in kw.items()}))
        if self.broken == 'function':
            raise AbsRaise(Obj(PyClass(ValueError), {'args': ()}, label='error in the function'), I.loc())
        return 'RETURN%d' % len(self.calls)

    def argument(self, I):
        if self.broken == 'argument':
            raise AbsRaise(Obj(PyClass(ValueError), {'args': ()}, label='error in an argument'), I.loc())
        return 'VALUE'

    def load_module(self, I, spec, mod):
        if self.broken == 'import':
            raise AbsRaise(Obj(PyClass(SyntaxError), {'args': ()}, label='error in the file'), I.loc())
        ns = client(I, MODULE % {'v': self.version}, dict(self.nat, Value=self.fx['Value']), I.force(spec.fields['name']))
        for n in ('main', 'work'):
            if not (self.broken == 'missing' and n == self.name):
                mod.fields[n] = ns[n]


@rule('C43', 'Function tasks run the function they name', T + ' (provenance of the called function and of the arguments)',
      'On every path of running a function task twice, in each execution mode: each run calls exactly the function the task was created with (given, decorated with the task, the session or the app, or named in a file) once, with the '
      'parameters of task and session that the function accepts and no others, awaiting it if it is a coroutine function, and returns what it returns; decorating gives back the function. A function of a file is the one the file '
      'defines at that run, whatever happened in the previous run; while the file is imported its directory (or that of its package) and the sys_paths of the task are importable, and sys.path is the same afterwards.')
def c43(ctx):
    def result(I, w):
        try:
            return I.force(I.call(I.getattr(I.getattr(w.session, 'returns'), '__getitem__'), [w.t], {}))
        except AbsRaise:
            return None

    def run(I, w):
        n = len(w.calls)
        w.records = []
        I.trace.clear()
        run_once(I, w, w.t)
        return dict(calls=w.calls[n:], acts=[r['action'] for r in task_records(w)], ret=result(I, w), imports=[e for e in I.trace if e.kind == 'import'])

    def given(I):
        w = FuncW(I)
        w.mode = I.choose('execution', list(MODES))
        w.form = I.choose('created by', ['FuncTask(function)', '@FuncTask()', '@session.task', '@app.task', 'create_task(func)', 'plain @FuncTask'])
        w.fn = I.choose('function', ['target', 'atarget', 'nothing', 'object'] if w.form == 'FuncTask(function)' else ['target', 'atarget', 'nothing'])
        w.xfrom = I.choose('x given in', ['session', 'task', 'both']) if w.fn != 'nothing' else 'session'
        f = w.fx[w.fn] if w.fn != 'object' else I.call(w.fx['Callable_'], [], {})
        kw = {'name': 'a', 'execution': w.mode, 'start_cond': w.cond('start:a')}
        if w.xfrom != 'session' and w.form != 'plain @FuncTask':
            kw['parameters'] = ADict({'x': 'task x'})
        if w.xfrom != 'task':
            I.callm(I.getattr(w.session, 'parameters'), 'update', ADict({'x': 'session x', 'unknown': 1, 'y2': 2}))
        w.x = 'task x' if 'parameters' in kw else 'session x'
        # parameters that have a default, given by the session or the task
        w.y, w.z, w.k = 'Y', 'VALUE', 'K'
        if w.fn != 'nothing' and w.form == 'FuncTask(function)':
            if w.xfrom == 'session':
                I.callm(I.getattr(w.session, 'parameters'), 'update', ADict({'y': 'session y', 'k': 'session k'}))
                w.y, w.k = 'session y', 'session k'
            else:
                kw['parameters'].d.update(y='task y', z='task z')
                w.y, w.z = 'task y', 'task z'
        w.back = f
        FT = w.fx['FuncTask']
        if w.form == 'FuncTask(function)':
            w.t = I.call(FT, [f], dict(kw, session=w.session))
        elif w.form == 'plain @FuncTask':
            # no settings: in a session of its own
            w.t = I.call(FT, [f], {})
            w.session = I.getattr(w.t, 'session')
            w.scheduler = I.getattr(w.session, 'scheduler')
            I.callm(I.getattr(w.session, 'parameters'), 'update', ADict({'x': 'session x'}))
            w.mode = 'thread'
        elif w.form == 'create_task(func)':
            w.t = I.call(I.getattr(w.session, 'create_task'), [], dict(kw, func=f))
        else:
            if w.form == '@FuncTask()':
                w.t = I.call(FT, [], dict(kw, session=w.session))
                w.back = I.call(w.t, [f], {})
            else:
                if w.form == '@app.task':
                    app = I.call(w.fx['Rocketry'], [w.session], {})
                    kw.pop('start_cond')
                    dec = I.call(I.getattr(app, 'task'), [w.cond('start:a')], kw)
                else:
                    dec = I.call(I.getattr(w.session, 'create_task'), [], kw)
                w.back = I.call(dec, [f], {})
                w.t = I.callm(w.session, '__getitem__', 'a')
        w.f = f
        if not isinstance(w.t, Obj):
            w.t = list(I.iterate(I.getattr(w.session, 'tasks')))[-1]
        w.t.label = 'task:a'
        name = I.getattr(w.t, 'name')
        old = task_records
        w.named = name
        w.res = []
        for i in range(2):
            n = len(w.calls)
            w.records = []
            I.trace.clear()
            run_once(I, w, w.t)
            w.res.append(dict(calls=w.calls[n:], acts=[r['action'] for r in old(w, name)], ret=result(I, w)))
        return w

    def j_given(I, d):
        if d.raised:
            yield (d.loc, 'a function task raises %s%s' % (d.exc, short(d.exc.fields.get('args'))))
            return
        w = d.value
        what = '%s of %s, execution %s, x from %s' % (w.form, w.fn, w.mode, w.xfrom)
        exp = (w.fn, {} if w.fn == 'nothing' else {'x': w.x, 'y': w.y, 'z': w.z, 'k': w.k})
        if w.back is not w.f:
            yield (FUNC, '%s: decorating gives %s, not the function' % (what, short(w.back)))
        for i, r in enumerate(w.res):
            if r['calls'] != [exp]:
                yield (FUNC, '%s: run %d calls %s, expected %s' % (what, i + 1, r['calls'], exp))
            elif r['acts'] != ['run', 'success'] or r['ret'] != 'RETURN%d' % (i + 1):
                yield (FUNC, '%s: run %d is logged as %s and returns %s' % (what, i + 1, r['acts'], short(r['ret'])))
        if I.getattr(w.t, 'description') != ('what it does' if w.fn in ('target', 'atarget') else None):
            yield (FUNC, '%s: the description of the task is %s' % (what, short(I.getattr(w.t, 'description'))))
    ctx.explore('given functions', given, j_given, need=100)

    def file(I):
        w = FuncW(I)
        w.mode = I.choose('execution', list(MODES))
        w.name = I.choose('function', ['main', 'work'])
        w.pkg = I.choose('file is in a', ['directory', 'package', 'nested package'])
        w.prev = I.choose('first run', ['succeeds', 'function', 'argument', 'import', 'missing'])
        w.present = I.choose('directory is importable already', [False, True])
        w.extra = I.choose('sys_paths', [(), ('/lib/one', '/lib/two')])
        w.root = '/proj' if w.pkg != 'directory' else '/proj/pkg/sub'
        path = '/proj/pkg/sub/tasks.py' if w.pkg != 'package' else '/proj/pkg/tasks.py'
        from ..interp import APath
        APath.FILES = {path} | ({'/proj/pkg/__init__.py'} if w.pkg == 'package' else {'/proj/pkg/__init__.py', '/proj/pkg/sub/__init__.py'} if w.pkg == 'nested package' else set())
        w.mod = {'directory': 'tasks.py', 'package': 'pkg.tasks', 'nested package': 'pkg.sub.tasks'}[w.pkg]
        sp = I.ext['sys.path']
        sp.items[:] = ['/usr/lib/a'] + ([w.root] if w.present else []) + ['/usr/lib/b']
        w.sys_path = list(sp.items)
        kw = {'name': 'a', 'execution': w.mode, 'start_cond': w.cond('start:a'), 'session': w.session, 'path': APath(path), 'sys_paths': AList([APath(x) for x in w.extra]),
              'parameters': ADict({'x': 'task x'})}
        w.z = 'VALUE'
        if w.prev == 'succeeds' and not w.extra:
            at = I.choose('another z is given in the', ['signature only', 'task', 'session'])
            if at == 'task':
                kw['parameters'].d['z'] = w.z = 'task z'
            elif at == 'session':
                I.callm(I.getattr(w.session, 'parameters'), 'update', ADict({'z': 'session z'}))
        if w.name != 'main':
            kw['func_name'] = w.name
        I.callm(I.getattr(w.session, 'parameters'), 'update', ADict({'unknown': 1}))
        w.t = I.call(w.fx['FuncTask'], [], kw)
        w.t.label = 'task:a'
        w.res = []
        try:
            for i in (1, 2, 3):
                w.version = i
                w.broken = w.prev if i == 1 and w.prev != 'succeeds' else None
                w.res.append(run(I, w))
            w.after = list(sp.items)
        finally:
            sp.items[:] = ['/usr/lib/python']
        return w

    def j_file(I, d):
        if d.raised:
            yield (d.loc, 'a function task raises %s%s' % (d.exc, short(d.exc.fields.get('args'))))
            return
        w = d.value
        what = '%s of a file in a %s (first run: %s, sys_paths %s, directory in sys.path already: %s), execution %s' % (w.name, w.pkg, w.prev, list(w.extra), w.present, w.mode)
        nret = 0
        for i, r in enumerate(w.res):
            fails = i == 0 and w.prev != 'succeeds'
            runs = not fails or w.prev == 'function'
            exp = [('%d:%s' % (i + 1, w.name), {'x': 'task x', 'y': 'Y%d' % (i + 1), 'z': w.z})] if runs else []
            nret += runs
            if r['calls'] != exp:
                yield (FUNC, '%s: run %d calls %s, expected %s' % (what, i + 1, r['calls'], exp))
            elif r['acts'] != ['run', 'fail' if fails else 'success'] or (not fails and r['ret'] != 'RETURN%d' % nret):
                yield (FUNC, '%s: run %d is logged as %s and returns %s' % (what, i + 1, r['acts'], short(r['ret'])))
            if not r['imports']:
                yield (FUNC, '%s: run %d does not import the file' % (what, i + 1))
            for e in r['imports']:
                miss = [p for p in (w.root,) + tuple(w.extra) if p not in e.sys_path]
                if miss:
                    yield (e.loc, '%s: %s is not importable (in sys.path as text) while the file is imported' % (what, miss[0]))
                if w.pkg != 'directory' and I.force(e.spec.fields['name']) != w.mod:
                    yield (e.loc, '%s: the file is imported as module %s' % (what, short(e.spec.fields['name'])))
        if w.after != w.sys_path:
            yield (FUNC, '%s: sys.path is %s after the runs, was %s' % (what, w.after, w.sys_path))
    ctx.explore('functions of files', file, j_file, need=100)
