#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/catalog.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

TASK, SCHED, SESS = 'rocketry/core/task.py', 'rocketry/core/schedule.py', 'rocketry/session.py'
COND, STMT, PARAM = 'rocketry/core/condition/base.py', 'rocketry/core/condition/statement.py', 'rocketry/core/parameters/parameters.py'
P = []


def prop(id, title, statement, over, over_text, why, files, mech, observe=(), state=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': over_text},
        'why_tests_cant': why,
        'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                    'observe_at': list(observe),
                    'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                    'hook_needed': None}})


NOTE = ('Path-sensitive abstract interpretation of the syntax trees of the current tree. Sound for the modelled abstract client '
        '(the scenario bounds in DESIGN.md: number of tasks, runs and cycles) and the modelled library contracts (threading, asyncio, '
        'multiprocessing, logging, pydantic, redbird); a path that meets an unmodelled value is counted undecided and never reported.')
TECH = {}
NA = []

prop('C01', 'No overlapping runs of a task unless multilaunch is allowed',
     'The scheduler never starts a new threaded, process or async run of a task while an earlier run of the same task is still alive, '
     'unless the task allows multiple launches (or the session does and the task does not say). This holds in regular cycles, startup and shutdown.',
     ['schedules', 'histories', 'configurations'],
     'every liveness history of earlier runs, every execution mode, every combination of task and session multilaunch settings and start condition values',
     'Tests start a few tasks with fixed sleeps; whether an earlier run is still alive at each poll is a schedule they cannot enumerate.',
     [SCHED, TASK], [('runnability gate', SCHED + ': is_task_runnable'), ('liveness', TASK + ': is_alive, TaskRun.is_alive'),
                     ('run stack', TASK + ': _clean_run_stack')], ['the task log', 'runs started'])
prop('C02', 'Live process runs never exceed the process limit',
     'At no moment does the session have more live task processes than the configured maximum process count. A process task beyond the limit '
     'waits for a later cycle instead of starting.',
     ['schedules', 'histories', 'configurations'],
     'every order in which process runs start and end, with and without multilaunch, for every limit',
     'Tests look at one count for one set of sleeping processes; the limit has to hold for every history of starts and deaths.',
     [SCHED, TASK], [('free processor check', SCHED + ': has_free_processors, is_task_runnable'), ('count of live runs', TASK + ': n_alive')],
     ['processes started'])
prop('C03', 'A task starts exactly when it is eligible',
     'In a cycle exactly those tasks start that have a pending run request or are enabled with a true start condition, and only while the '
     'scheduler is not on hold; startup and shutdown tasks never start in a cycle. Startup (shutdown) tasks start only in the startup (shutdown) '
     'sequence, where having no start condition counts as eligible, and a disabled task never starts on its own.',
     ['schedules', 'configurations'],
     'every combination of disabled, requested, startup/shutdown membership, hold state, start condition value or failure, and execution mode',
     'Tests pin single combinations of these flags; the decision is a function of all of them together.',
     [SCHED, TASK], [('cycle', SCHED + ': run_cycle, is_task_runnable, check_task_cond'), ('eligibility', TASK + ': is_runnable'),
                     ('startup/shutdown', SCHED + ': startup, shut_down')], ['runs started', 'the task log'])
prop('C04', 'Run requests are served once each, in order, with their own parameters',
     'Each manual run request of a task produces exactly one run, in the order of the requests, and that run gets exactly the parameter values '
     'given with its request. Nothing of a request leaks to other runs or into the parameters of the task.',
     ['histories', 'schedules'],
     'every number and interleaving of requests and cycles, every execution mode, with and without parameters in each request',
     'Tests make one or two requests in one mode and look at the final log.',
     [TASK, SCHED], [('request queue', TASK + ': run, _main_runner/start_async, get_task_params, prefilter_params')], ['parameters received by the task code'])
prop('C05', 'One run record, one matching outcome record per run',
     'Every run of a task leaves exactly one run record followed by exactly one outcome record in the task log, whatever its execution mode. '
     'The outcome matches what happened: success for a normal return or a requested scheduler restart/exit, fail for an error, '
     'terminate for a termination and inaction for declared inaction.',
     ['inputs', 'schedules', 'fault_sequences'],
     'every outcome of the task code, its parameters, hooks and success/failure handlers, in every execution mode',
     'Tests raise one kind of exception from the task body; failures in arguments, hooks, handlers and special exceptions per execution mode are not enumerated.',
     [TASK, SCHED], [('run bodies', TASK + ': _run_as_main, _run_as_async, _run_as_thread, _run_as_process'),
                     ('execution', TASK + ': _run_as_main/_execute'), ('record relay', SCHED + ': handle_logs')], ['the task log'])
prop('C06', 'Log records of a run carry that run\'s id',
     'All log records written on behalf of one run carry the run id that was generated for that run, so concurrent or repeated runs of one task can be told apart in the log.',
     ['inputs', 'schedules', 'fault_sequences'], 'every execution mode and every outcome, including failures outside of the task code',
     'Tests check ids of successful runs; the id has to follow every error path too.',
     [TASK], [('record creation', TASK + ': _set_status'), ('run id', TASK + ': TaskRun, log_*')], ['the task log'])
prop('C07', 'Task status and last-action times agree with the task log',
     'After a run, the status of a task is the action of its latest log record and the last run/success/fail/... times are those of the latest '
     'such records. If writing a record fails, the task does not end up as succeeded, and a run whose start could not be logged is not executed in the main process.',
     ['inputs', 'fault_sequences', 'crash_points'], 'every outcome and execution mode, with a failure injected at each log write',
     'Tests make a log write fail at one or two points; each point and mode has its own error path.',
     [TASK], [('status', TASK + ': _set_status, log_record, status, get_status'), ('cached times', TASK + ': _last_run ... _get_last_action')],
     ['task status', 'last action times'])
prop('C09', 'Live runs are terminated exactly when they should be',
     'In each cycle a live run is terminated if termination of its task was requested, its end condition holds (or crashes while such errors are silenced), '
     'or a non-permanent task has run longer than its timeout (the session\'s if the task has none). A request ends with the runs it was made for: later runs are not terminated by it. No other live run is terminated.',
     ['schedules', 'configurations', 'histories'], 'every run duration relative to the limits, every combination of timeouts, permanence, end condition value and requests, one or several runs',
     'Tests wait real time for one combination; boundaries and combinations cannot be sampled with sleeps.',
     [TASK], [('termination check', TASK + ': _check_termination, _is_run_timeout, is_terminable')], ['terminations delivered'])
prop('C10', 'A termination reaches each live run once and is logged once',
     'When a task is terminated every live run of it is stopped by the means of its execution mode exactly once, and a run that ends because of it '
     'gets exactly one terminate record with its id. Runs that had already ended get no terminate record, other tasks are untouched and the request is cleared.',
     ['schedules', 'histories'], 'every execution mode, one or two runs, live or already ended, cancellation before or during execution, via request, end condition or shutdown',
     'The termination tests are timing dependent (and excluded as unstable); they see one interleaving each.',
     [TASK, SCHED], [('delivery', TASK + ': TaskRun.terminate, _terminate_all, _terminate_run'), ('scheduler', SCHED + ': terminate_all, terminate_task')],
     ['the task log', 'process, thread and asyncio task state'])
prop('C22', 'Return values are stored before the success becomes visible',
     'When a task succeeds, exactly the object it returned is stored as its return value before its success record appears, so a task that '
     'starts on the success always sees it. No other outcome stores a value.',
     ['schedules', 'inputs'], 'every execution mode and every outcome',
     'A test reads the value after the scheduler stopped; the order of the two effects is never observed.',
     [TASK, SCHED], [('return handling', TASK + ': _handle_return'), ('relay', SCHED + ': handle_logs')], ['session return values', 'the task log'])

EXTRA = os.path.join(HERE, 'tools', 'catalog_more.py')
if os.path.exists(EXTRA):
    exec(compile(open(EXTRA).read(), EXTRA, 'exec'))


def main():
    import check
    check.load_rules()
    from sa import framework
    P.sort(key=lambda p: p['id'])
    ids = [p['id'] for p in P]
    assert len(set(ids)) == len(ids)
    na = {n['property'] for n in NA}
    missing = [i for i in ids if i not in framework.RULES and i not in na]
    extra = [r for r in framework.RULES if r not in ids]
    if missing or extra:
        print('no rule:', missing, 'no property:', extra)
    for p in P:
        assert len(p['title']) <= 80, p['id']
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            if p['id'] in framework.RULES or p['id'] in na:
                f.write(json.dumps(p) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3 -c "import ast, sys; assert sys.version_info >= (3, 9)"',
           'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': framework.RULES[p['id']].technique, 'level': 'other', 'level_note': NOTE}
                      for p in P if p['id'] in framework.RULES],
           'not_applicable': NA,
           'notes': 'All checks are static analysis of /repo\'s source (see DESIGN.md). No hooks in /repo. Exit 2: the analysis could not decide.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(man['checks']), 'checks')


main()
