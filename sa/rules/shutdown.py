"""Shutdown and restart: what happens on every way out of the scheduler."""
from ..framework import rule
from ..interp import short
from ..model import *
from ..env import Halt
from .termination import TermW, term_events, PhaseClock

T = 'Path-sensitive abstract interpretation of the whole scheduler session (startup, cycles, shutdown) over every way out'
BOOL = [False, True]
FATAL = ('SchedulerExit', 'KeyboardInterrupt', 'SystemExit', 'error')
class ShutW(TermW):
    sleep_kills = True
    max_obs = 0
    trigger = None
    serves = 0
    cycles_before = 0
    shuts = 0

    def build(self, I):
        self.cycles = 0
        def mark(I, what, v):
            I.event('mark', what=what)
        h = I.getattr(self.session, 'hooks')
        for n, f in (('scheduler_shutdown', gen_hook('shutdown', mark)), ('scheduler_startup', fun_hook('startup', mark)),
                     ('scheduler_cycle', Builtin('hook:cycle', lambda I, a, k: self.on_cycle(I), params=[]))):
            I.getattr(h, n).items.append(f)

    def on_cycle(self, I):
        if self.count_mark('startup') < 2:
            self.cycles_before = self.cycles + 1
        self.cycles += 1
        I.event('mark', what='cycle')
        if self.cycles == self.fire_at:
            I.event('mark', what='trigger')
            if getattr(self, 't', None) is not None and self.status_free:
                # the status is that of the run that ended last, whatever else is alive
                self.t.fields['status'] = Free('a.status', ['run', 'success', 'fail', 'terminate', 'inaction'])
            self.fire(I, self.trigger)
        if self.cycles > self.fire_at + 2:
            # still going on long after it was to stop
            self.runaway = True
            if self.cycles > self.fire_at + 6:
                raise PathAbort('does not stop')
            raise AbsRaise(Obj(PyClass(SystemExit), {'args': ()}, label='SystemExit'), I.loc())

    runaway = False
    fire_at = 2

    def fire(self, I, t):
        S = self.session
        if t == 'shut_down':
            I.callm(S, 'shut_down')
        elif t == 'shut_down twice':
            I.callm(S, 'shut_down')
            I.callm(S, 'shut_down')
        elif t == 'shut_down twice, not forced':
            I.callm(S, 'shut_down', force=False)
            I.callm(S, 'shut_down', force=False)
        elif t == 'force':
            I.callm(S, 'shut_down', force=True)
        elif t == 'restart':
            I.callm(S, 'restart')
        elif t == 'restart and shutdown':
            I.callm(S, 'restart')
            I.callm(S, 'shut_down')
        elif t == 'restart and exit':
            I.callm(S, 'restart')
            raise AbsRaise(mk_exc(I, 'SchedulerExit'), I.loc())
        elif t in ('SchedulerExit', 'SchedulerRestart'):
            raise AbsRaise(mk_exc(I, t), I.loc())
        elif t in ('KeyboardInterrupt', 'SystemExit'):
            raise AbsRaise(Obj(PyClass(getattr(__builtins__, t, None) or eval(t)), {'args': ()}, label=t), I.loc())
        elif t == 'error':
            raise AbsRaise(Obj(PyClass(ValueError), {'args': ()}, label='user error'), I.loc())

    fail_cond = None
    status_free = False

    def observe(self, I, cond, task, session):
        lab = cond.fields['label']
        if lab == 'shut':
            self.shuts += 1
            I.event('mark', what='shut_cond')
            if self.count_mark('startup') > 1:
                return self.cycles > self.cycles_before or self.trigger != 'restart'
            if self.trigger == 'shut_cond' and self.cycles >= 1:
                I.event('mark', what='trigger')
                return True
            return False
        if lab == self.fail_cond:
            raise AbsRaise(Obj(PyClass(ValueError), {'args': ()}, label='error in condition'), I.loc())
        if lab == 'once':
            return self.cycles == 1 and self.count_mark('startup') == 1
        if lab == 'yes':
            return True
        return TermW.observe(self, I, cond, task, session)

    def sleep(self, I, delay):
        # the live runs last until the shutdown has begun
        m = [e.what for e in I.trace if e.kind == 'mark' and e.what in ('startup', 'shutdown-pre')]
        if m and m[-1] == 'shutdown-pre':
            if self.waited < self.patience and (self.mode == 'thread' or not term_events(I, self)):
                self.waited += 1
                return
            TermW.sleep(self, I, delay)

    patience = waited = 0           # the runs outlast this many sleeps of the shutdown

    def count_mark(self, what):
        return sum(1 for e in self.I.trace if e.kind == 'mark' and e.what == what)


def alive_at_end(w):
    return [r for r in w.runs if not r.data.get('dead')]


def session_scen(I, triggers, modes=('process', 'thread', 'async'), restarting='recall', **conf):
    mode = I.choose('execution', list(modes))
    conf.setdefault('instant_shutdown', Choice('instant_shutdown', BOOL))
    w = ShutW(I, restarting=restarting, **conf)
    w.mode = mode
    w.endv = False
    w.config(shut_cond=w.cond('shut'))
    w.trigger = I.choose('stopped by', list(triggers))
    if w.trigger in ('shut_cond', 'restart', 'error'):
        w.patience = I.choose('the run outlasts', [0, 30])
    w.build(I)
    w.t = w.task('a', execution=mode, start_cond=w.cond('once'), permanent=Choice('permanent', BOOL))
    w.status_free = True
    free(I, w, [w.t], ('force_run', '_main_alive', 'daemon'), ('silence_task_prerun', 'silence_task_logging', 'silence_cond_check', 'tasks_as_daemon'))
    w.s = w.task('s', execution='main', on_shutdown=True, start_cond=None)
    I.trace.clear()
    w.exc = None
    w.halted = False
    d, nf, ne = I.depth, len(I.frames), len(I.exc_stack)
    try:
        I.await_(I.callm(w.scheduler, 'serve'))
    except AbsRaise as e:
        w.exc = e
    except Halt:
        w.halted = True
        I.depth = d
        del I.frames[nf:]
        del I.exc_stack[ne:]
    return w


TRIGGERS = ('shut_cond', 'shut_down', 'shut_down twice', 'shut_down twice, not forced', 'force', 'restart', 'SchedulerRestart') + FATAL


def idx(I, pred):
    return [i for i, e in enumerate(I.trace) if pred(e)]


def leftovers(I, w):
    """Common clean-up obligations after the scheduler returned or raised."""
    if w.runaway:
        yield 'the scheduler goes on with its cycles'
        return
    for r in alive_at_end(w):
        yield 'a %s run is still alive after the scheduler ended' % r.data['kind']
    q = w.scheduler.fields.get('_log_queue')
    if q is not None and q.data['items'] and not (w.exc is not None and w.lost_ok):
        yield 'log records of process runs are left unhandled in the queue'
    if I.truth(I.getattr(w.scheduler, 'is_alive')):
        yield 'the scheduler still reports to be alive'
    pre, post = w.count_mark('shutdown-pre'), w.count_mark('shutdown-post')
    if pre != post or pre < 1:
        yield 'the shutdown hooks ran %d time(s) before and %d time(s) after the shutdown' % (pre, post)


ShutW.lost_ok = False


def shut_loc(I):
    ev = [e for e in I.trace if e.kind in ('mark', 'terminate', 'record', 'start', 'execute')]
    for e in reversed(ev):
        if e.loc and not e.loc.startswith('<'):
            return e.loc
    return 'rocketry/core/schedule.py'


@rule('C11', 'Every way out of the scheduler runs the whole shutdown', T,
      'On every path of a session stopped by its shut condition, a shutdown or restart request, a scheduler exception, an interrupt or an '
      'error - also with failures injected in the shutdown tasks or in log writes - the scheduler leaves no live run, no unhandled log '
      'record, is not alive, has run the shutdown tasks exactly once after the last cycle, and has completed the shutdown hooks; only an error leaves as an exception.')
def c11(ctx):
    def judge(I, d):
        w = d.value
        for m in leftovers(I, w):
            yield (shut_loc(I), '%s (stopped by %s, instant_shutdown=%s)' % (m, w.trigger, I.force(Choice('instant_shutdown', BOOL))))
        if (w.trigger == 'error') != (w.exc is not None):
            yield (w.exc.loc if w.exc else shut_loc(I), 'stopped by %s: %s' % (
                w.trigger, 'the scheduler raised %s' % w.exc.exc if w.exc else 'the error does not leave the scheduler'))
        ex = idx(I, lambda e: e.kind == 'execute' and e.task is w.s)
        cyc = idx(I, lambda e: e.kind == 'mark' and e.what == 'cycle')
        n = w.count_mark('startup')
        if len(ex) != n or (ex and n == 1 and cyc and ex[-1] < cyc[-1]):
            yield (shut_loc(I), 'the shutdown task ran %d time(s) in %d session(s) or not after the last cycle (stopped by %s)' % (
                len(ex), n, w.trigger))
        term = idx(I, lambda e: (e.kind in ('terminate', 'finishes')))
        if ex and n == 1 and term and term[0] < ex[0] and w.mode != 'thread' and not any(
                c > term[0] for c in cyc) and I.trace[term[0]].kind == 'terminate':
            yield (shut_loc(I), 'live runs are terminated before the shutdown tasks were run (stopped by %s)' % w.trigger)
    ctx.explore('ways-out', lambda I: session_scen(I, TRIGGERS), judge, need=40)

    def faulty(I):
        fault = I.choose('fault', ['shutdown task condition', 'log write', 'end condition'])
        w0 = dict(silence_cond_check=False, silence_task_logging=False)
        FW.fault_kind = fault
        return session_scen2(I, FW, fault, **w0)

    class FW(ShutW):
        fault_kind = None
        lost_ok = True
        armed = False

        def may_fail(self, I, what):
            if self.fault_kind == 'log write' and self.armed and not getattr(self, 'failed', False) and what in ('success', 'terminate'):
                self.failed = True
                I.event('logfail', what=what)
                raise AbsRaise(Obj(PyClass(RuntimeError), {'args': ()}, label='log write failed'), I.loc())

        def on_cycle(self, I):
            ShutW.on_cycle(self, I)
            self.arm()

        def arm(self):
            if self.cycles >= 2:
                self.armed = True

        def fire(self, I, t):
            self.arm()
            if self.fault_kind == 'end condition':
                self.fail_cond = 'end:a'
            ShutW.fire(self, I, t)

        def observe(self, I, cond, task, session):
            if cond.fields['label'] == self.fail_cond:
                # fails once the shutdown has begun
                m = [e.what for e in I.trace if e.kind == 'mark' and e.what in ('startup', 'shutdown-pre')]
                if self.fault_kind == 'end condition' and (not m or m[-1] != 'shutdown-pre'):
                    return False
                self.failed = True
            return ShutW.observe(self, I, cond, task, session)

        def sleep(self, I, delay):
            if self.fault_kind == 'end condition' and not getattr(self, 'failed', False) and not term_events(I, self):
                return
            ShutW.sleep(self, I, delay)

    def session_scen2(I, cls, fault, **conf):
        mode = I.choose('execution', ['process', 'thread', 'async'])
        w = cls(I, restarting='recall', instant_shutdown=Choice('instant_shutdown', BOOL), **conf)
        w.mode = mode
        w.endv = False
        w.fault_kind = fault
        w.config(shut_cond=w.cond('shut'))
        w.trigger = I.choose('stopped by', ['shut_down', 'restart', 'SchedulerExit'])
        w.build(I)
        w.t = w.task('a', execution=mode, start_cond=w.cond('once'))
        w.s = w.task('s', execution='main', on_shutdown=True, start_cond=w.cond('s'))
        if fault == 'shutdown task condition':
            w.fail_cond = 's'
        else:
            I.memo[('cond', 's')] = True
        I.trace.clear()
        w.exc = None
        try:
            I.await_(I.callm(w.scheduler, 'serve'))
        except AbsRaise as e:
            w.exc = e
        return w

    def judge2(I, d):
        w = d.value
        for m in leftovers(I, w):
            yield (shut_loc(I), '%s (failure of %s during a shutdown caused by %s)' % (m, w.fault_kind, w.trigger))
        failed = getattr(w, 'failed', False)
        n = sum(1 for e in I.trace if e.kind == 'execute' and e.task is w.s)
        if w.fault_kind != 'shutdown task condition' and n != w.count_mark('startup'):
            yield (shut_loc(I), 'the shutdown task ran %d time(s) in %d session(s) (failure of %s during a shutdown caused by %s)' % (n, w.count_mark('startup'), w.fault_kind, w.trigger))
        if failed and w.exc is None and (w.fault_kind != 'log write' or w.mode == 'process'):
            yield (shut_loc(I), 'failure of %s during a shutdown is lost although such errors are not silenced' % w.fault_kind)
        if w.exc is not None and w.count_mark('startup') > 1:
            yield (shut_loc(I), 'the scheduler restarted although its shutdown failed')
    ctx.explore('faults', faulty, judge2, need=10)

    # the outcome of a threaded run cannot be logged while other runs are alive
    class EW(ShutW):
        breaking = False
        broken = None

        def may_fail(self, I, what):
            if self.breaking:
                raise AbsRaise(Obj(PyClass(RuntimeError), {'args': ()}, label='log write failed'), I.loc())

        def sleep(self, I, delay):
            m = [e.what for e in I.trace if e.kind == 'mark' and e.what in ('startup', 'shutdown-pre')]
            if self.broken is None and m and (m[-1] == 'shutdown-pre' or self.when != 'during shutdown') and len(self.runs) >= self.expected:
                self.broken = next(r for r in self.runs if r.data['owner'] is self.t and r.data['kind'] == 'thread')
                if self.broken.data.get('dead'):
                    return
                self.breaking = True
                self.resume_thread(I, self.broken, 'return')
                self.breaking = False
                for r in self.runs:
                    if r.data['owner'] is self.p and not r.data.get('dead'):
                        self.finish(I, r)
                return
            ShutW.sleep(self, I, delay)

        def observe(self, I, cond, task, session):
            if cond.fields['label'] == 'often':
                return self.cycles <= self.n_runs and self.count_mark('startup') == 1
            return ShutW.observe(self, I, cond, task, session)

    def unloggable(I):
        w = EW(I, restarting='recall', instant_shutdown=False, silence_task_logging=False, multilaunch=True)
        w.endv = False
        w.mode = 'thread'
        w.config(shut_cond=w.cond('shut'))
        w.n_runs = I.choose('runs of the task', [1, 2])
        w.when = I.choose('fails', ['in a cycle', 'right before shutdown', 'during shutdown'])
        w.fire_at = 4 if w.when == 'in a cycle' else 2
        w.trigger = I.choose('stopped by', ['shut_down', 'restart', 'SchedulerExit'])
        w.build(I)
        w.t = w.task('a', execution='thread', start_cond=w.cond('often'))
        w.p = w.task('p', execution='process', start_cond=w.cond('once'))
        w.s = w.task('s', execution='main', on_shutdown=True, start_cond=None)
        w.expected = w.n_runs + 1
        I.trace.clear()
        w.exc = None
        try:
            I.await_(I.callm(w.scheduler, 'serve'))
        except AbsRaise as e:
            w.exc = e
        return w

    def judge3(I, d):
        w = d.value
        for m in leftovers(I, w):
            yield (shut_loc(I), '%s (the outcome of a threaded run could not be logged %s, stopped by %s)' % (m, w.when, w.trigger))
        if w.broken is not None and w.exc is None and not term_events(I, w):
            yield (shut_loc(I), 'a log error of a threaded run is lost although such errors are not silenced')
        n = sum(1 for e in I.trace if e.kind == 'execute' and e.task is w.s)
        if n != w.count_mark('startup'):
            yield (shut_loc(I), 'the shutdown task ran %d time(s) in %d session(s)' % (n, w.count_mark('startup')))
    ctx.explore('unloggable-thread', unloggable, judge3, need=8)


@rule('C12', 'Shutdown waits for running tasks unless it must be immediate', T,
      'On every path out of a session: a live run is terminated iff the shutdown is immediate (instant_shutdown, an interrupt, exit or error, or a '
      'forced shutdown) or the task is permanent; otherwise it runs to its own end. A second session of the same scheduler decides by its own shutdown.')
def c12(ctx):
    def judge(I, d):
        w = d.value
        inst = I.force(Choice('instant_shutdown', BOOL))
        perm = I.force(Choice('permanent', BOOL))
        if w.runaway:
            yield (shut_loc(I), 'the scheduler goes on with its cycles (stopped by %s)' % w.trigger)
            return
        immediate = inst or w.trigger in FATAL or w.trigger in ('force', 'shut_down twice')
        runs = [r for r in w.runs if r.data['owner'] is w.t]
        if len(runs) != 1:
            return
        got = any(r is runs[0] for r, _, _ in term_events(I, w))
        exp = immediate or perm
        if perm and not immediate:
            return      # may end by itself before it is looked at; see below
        if got != exp:
            yield (shut_loc(I), 'a live %s run is %s at shutdown (stopped by %s, instant_shutdown=%s, permanent=%s)' % (
                w.mode, 'terminated' if got else 'not terminated', w.trigger, inst, perm))
    ctx.explore('graceful', lambda I: session_scen(I, TRIGGERS), judge, need=40)

    # a permanent task does not end by itself
    def perm(I):
        w = session_scen_perm(I)
        return w

    def session_scen_perm(I):
        class PW(ShutW):
            waits = 0

            def finish(self, I, r):
                if r.data['owner'] is self.t and not r.data.get('term'):
                    if not any(x is r for x, _, _ in term_events(I, self)):
                        self.waits += 1
                        if self.waits < 2:
                            return
                        # was waited for in vain: ends here so that the path does
                ShutW.finish(self, I, r)
        mode = I.choose('execution', ['process', 'thread', 'async'])
        w = PW(I, restarting='recall', instant_shutdown=False)
        w.mode = mode
        w.config(shut_cond=w.cond('shut'))
        w.trigger = I.choose('stopped by', ['shut_down', 'restart', 'shut_cond'])
        w.build(I)
        w.t = w.task('a', execution=mode, start_cond=w.cond('once'), permanent=True)
        w.status_free = True
        I.trace.clear()
        w.exc = None
        I.await_(I.callm(w.scheduler, 'serve'))
        return w

    def judge_p(I, d):
        if d.raised:
            yield (d.loc, 'exception %s leaves the scheduler' % d.exc)
            return
        w = d.value
        if alive_at_end(w) or not term_events(I, w):
            yield (shut_loc(I), 'a permanent %s task is not terminated at shutdown' % w.mode)
    ctx.explore('permanent', perm, judge_p, need=5)

    # the decision does not leak to a later session of the same scheduler
    def twice(I):
        w = ShutW(I, restarting='recall', instant_shutdown=False)
        w.mode = I.choose('execution', ['process', 'thread'])
        w.config(shut_cond=w.cond('shut'))
        w.build(I)
        first = I.choose('first session stopped by', ['force', 'shut_down twice', 'shut_down', 'SchedulerExit'])
        w.trigger = first
        w.first = first
        I.await_(I.callm(w.scheduler, 'serve'))
        w.cycles = 0
        I.trace.clear()
        w.trigger = 'shut_down'
        w.t = w.task('a', execution=w.mode, start_cond=w.cond('once'))
        w.since = len(I.trace)
        I.await_(I.callm(w.scheduler, 'serve'))
        return w

    def judge2(I, d):
        w = d.world
        if d.raised:
            yield (d.loc, 'exception %s leaves the scheduler' % d.exc)
            return
        if w.runaway:
            yield (shut_loc(I), 'the scheduler goes on with its cycles (stopped by %s)' % w.trigger)
            return
        if term_events(I, w):
            yield (shut_loc(I), 'a live %s run is terminated at a plain shutdown because an earlier session was stopped by "%s"' % (
                w.mode, w.first))
        elif not [r for r in w.runs]:
            yield (shut_loc(I), 'the task was not started in the second session')
    ctx.explore('second-session', twice, judge2, need=4)


@rule('C13', 'A restart happens once, after a complete shutdown, as configured', T,
      'On every path of a session: a restart takes place iff one was requested (by request or exception); at that moment no run is alive, the log '
      'queue is empty and the shutdown hooks have completed; it is exactly one restart of the configured kind with the same interpreter and arguments.')
def c13(ctx):
    KINDS = ['replace', 'relaunch', 'fresh', 'recall']

    def scen(I):
        kind = I.choose('restarting', KINDS)
        w = RW(I, restarting=kind, instant_shutdown=Choice('instant_shutdown', BOOL))
        w.kind = kind
        w.mode = I.choose('execution', ['process', 'thread'])
        w.config(shut_cond=w.cond('shut'))
        w.trigger = I.choose('stopped by', list(TRIGGERS) + ['task raises SchedulerRestart'])
        w.build(I)
        w.t = w.task('a', execution=w.mode, start_cond=w.cond('once'))
        if w.trigger == 'task raises SchedulerRestart':
            w.r = w.task('r', execution='main', start_cond=w.cond('once'))
        I.trace.clear()
        w.exc = None
        w.at = []
        d, nf, ne = I.depth, len(I.frames), len(I.exc_stack)
        try:
            I.await_(I.callm(w.scheduler, 'serve'))
        except AbsRaise as e:
            w.exc = e
        except Halt:
            I.depth = d
            del I.frames[nf:]
            del I.exc_stack[ne:]
        return w

    class RW(ShutW):
        any_platform = True
        def execute(self, I, task, params):
            if task.label == 'task:r':
                I.event('execute', task=task, params=params, outcome='SchedulerRestart')
                raise AbsRaise(mk_exc(I, 'SchedulerRestart'), I.loc())
            return ShutW.execute(self, I, task, params)

        def dirty(self, I):
            q = self.scheduler.fields['_log_queue']
            out = []
            if alive_at_end(self):
                out.append('a run is alive')
            if q.data['items']:
                out.append('log records are unhandled')
            if self.count_mark('shutdown-post') < self.count_mark('startup') - (1 if self.restarted_in else 0):
                out.append('the shutdown hooks have not completed')
            return out
        restarted_in = False

        def popen(self, I, o, args, kw):
            self.at.append(self.dirty(I))

        def exec_(self, I, args):
            self.at.append(self.dirty(I))
            raise Halt()

    def platform(I):
        for k, v, _ in I.decisions:
            if v in ('Linux', 'Windows'):
                return v
        return 'Linux'

    def judge(I, d):
        w = d.value
        if w.runaway:
            yield (shut_loc(I), 'the scheduler goes on with its cycles (stopped by %s)' % w.trigger)
            return
        exp = w.trigger in ('restart', 'SchedulerRestart', 'task raises SchedulerRestart')
        execs = [e for e in I.trace if e.kind == 'exec']
        pop = [e for e in I.trace if e.kind == 'popen']
        again = w.count_mark('startup') - 1
        got = {'replace': len(execs), 'relaunch': len(pop), 'fresh': len(pop), 'recall': again}
        total = len(execs) + len(pop) + again
        if total != (1 if exp else 0) or got[w.kind] != total:
            yield (shut_loc(I), 'stopped by %s with restarting=%s: %d process replacement(s), %d new process(es), %d new session(s)' % (
                w.trigger, w.kind, len(execs), len(pop), again))
            return
        if not exp:
            return
        for x in w.at:
            for m in x:
                yield (shut_loc(I), 'restart while %s' % m)
        if w.kind == 'recall':
            marks = [e.what for e in I.trace if e.kind == 'mark']
            i = [k for k, m in enumerate(marks) if m == 'startup'][1]
            if 'shutdown-post' not in marks[:i]:
                yield (shut_loc(I), 'restart before the shutdown hooks have completed')
        py, argv = I.ext['sys.executable'], list(I.ext['sys.argv'].items)
        for e in execs:
            if len(e.cmd) != 2 + len(argv) or e.cmd[0] is not py or e.cmd[1] is not py or any(a is not b for a, b in zip(e.cmd[2:], argv)):
                yield (e.chain, 'the process is replaced with %s' % short(e.cmd))
        for e in pop:
            c = e.cmd if isinstance(e.cmd, list) else [e.cmd]
            if e.kw.get('shell', False) is not False and len(c) > 1 and platform(I) != 'Windows':
                yield (e.chain, 'the new process is launched through a shell as a list of arguments: only %s is run, without its arguments' % short(c[0]))
                continue
            if len(c) != 1 + len(argv) or c[0] is not py or any(a is not b for a, b in zip(c[1:], argv)):
                yield (e.chain, 'the new process is launched as %s' % short(e.cmd))
    ctx.explore('restart', scen, judge, need=60)

    # a restart request that was overtaken does not last until a later session
    def later(I):
        w = RW(I, restarting='relaunch', instant_shutdown=False)
        w.at = []
        w.config(shut_cond=w.cond('shut'))
        w.build(I)
        w.first = w.trigger = I.choose('first session stopped by', ['restart and shutdown', 'restart and exit', 'restart', 'shut_down'])
        I.await_(I.callm(w.scheduler, 'serve'))
        w.cycles = 0
        I.trace.clear()
        w.trigger = 'shut_down'
        I.await_(I.callm(w.scheduler, 'serve'))
        return w

    def judge_l(I, d):
        w = d.world
        if d.raised:
            yield (d.loc, 'exception %s leaves the scheduler' % d.exc)
            return
        if w.runaway:
            yield (shut_loc(I), 'the scheduler goes on with its cycles (stopped by %s)' % w.trigger)
            return
        pop = [e for e in I.trace if e.kind == 'popen']
        if pop:
            yield (pop[0].chain, 'a later session, stopped by a plain shutdown, restarts because the first was stopped by: %s' % w.first)
        elif w.cycles < 2:
            yield (shut_loc(I), 'a later session ends after %d cycle(s) because the first was stopped by: %s' % (w.cycles, w.first))
    ctx.explore('later session', later, judge_l, need=4)
