prop('C08', 'A run cut off by a crash is recovered as a crash at startup',
     'When a session starts, a task whose last log record is a run without outcome gets exactly one crash record; no other task gets one. '
     'After startup the status and last-action times of every task equal what its log says, and another startup adds nothing.',
     ['crash_points', 'histories'], 'every log history of the task, interleaved with records of other tasks',
     'Tests write one or two fixed histories; the crash point may be anywhere in the log.',
     [TASK, SESS], [('recovery', TASK + ': _init_cache, set_cached'), ('startup', SCHED + ': startup; ' + SESS + ': _check_readable_logger, set_as_default')],
     ['the task log', 'task status after startup'])
prop('C11', 'Every way out of the scheduler runs the whole shutdown',
     'However a session ends (shut condition, shutdown or restart request, scheduler exception, interrupt or error) it leaves no live run and no '
     'unhandled log record, the shutdown tasks have run exactly once after the last cycle, the shutdown hooks are completed and the session is not '
     'alive any more. Only errors leave the scheduler as exceptions.',
     ['schedules', 'fault_sequences', 'crash_points'], 'every stop trigger, execution mode, run state at the stop, failing shutdown task and failing log write',
     'Tests stop a session a few ways with successful tasks; the error paths through shutdown are combinations they do not reach.',
     [SCHED, SESS], [('main loop', SCHED + ': serve'), ('shutdown', SCHED + ': shut_down, run_shutdown_tasks, wait_task_shutdown')],
     ['live runs after the session', 'the task log', 'hooks'])
prop('C12', 'Shutdown waits for running tasks unless it must be immediate',
     'At shutdown a live run is terminated if the shutdown is immediate (configured as instant, forced, or caused by an interrupt, exit or error) or '
     'its task is permanent; any other live run is left to end by itself. How one session was shut down does not affect a later session of the same scheduler.',
     ['schedules', 'configurations', 'histories'], 'every stop trigger, execution mode, permanence and shutdown setting; two sessions in a row',
     'Tests need real sleeps to see waiting versus terminating and cover few combinations.',
     [SCHED], [('wait or terminate', SCHED + ': shut_down, wait_task_shutdown'), ('request', SESS + ': shut_down')], ['terminations delivered', 'the task log'])
prop('C13', 'A restart happens once, after a complete shutdown, as configured',
     'A restart takes place if and only if it was requested (by request or by a task raising the restart exception), exactly once, in the configured '
     'way, with the same interpreter and arguments. At that moment no run is alive, no log record is unhandled and the shutdown hooks are completed.',
     ['schedules', 'configurations', 'fault_sequences'], 'every stop trigger, restart mode and run state at the stop',
     'A test can only restart by replacing the test process; tests stub it and look at one order of events.',
     [SCHED], [('restart', SCHED + ': shut_down, _restart'), ('request', SESS + ': restart')], ['process replacement, relaunch or return of the session'])
prop('C14', 'Errors are contained or propagated exactly as configured',
     'If the condition, the set-up or a log write of one task fails, other tasks are still handled and nothing leaves the scheduler exactly when the matching '
     'silence setting is on; otherwise the error leaves the scheduler. Scheduler restart and exit requests raised by a task on the main thread always reach the scheduler, '
     'and an error of the shut condition is never silenced.',
     ['fault_sequences', 'configurations'], 'every place of the fault, silence setting, execution mode and phase (startup, cycle)',
     'Tests inject one fault per setting; the product of fault places, modes and settings is not sampled.',
     [SCHED, TASK], [('containment', SCHED + ': run_cycle, check_task_cond, run_task_as_*')], ['exceptions leaving the session', 'runs of other tasks'])
prop('C32', 'Hooks bracket the event they are registered for',
     'Every hook registered in a session runs once before its event (task creation, task execution, scheduler startup, cycle, shutdown) in registration order '
     'with the task it asks for, and generator hooks that began are resumed exactly once after the event: after a run of a task whatever its outcome, also if it failed in getting its arguments or in a later hook, and then with the error of that run; '
     'at shutdown also if a task or condition failed; after creation, startup and a cycle if these were completed. Hooks of other sessions are not run.',
     ['inputs', 'schedules'], 'every execution mode and outcome of a run; every hook point; several hooks; two sessions',
     'Tests register one hook and run successful tasks; resumption after each failing outcome is not sampled.',
     ['rocketry/core/hook.py', TASK, SCHED], [('hooker', 'rocketry/core/hook.py: _Hooker'), ('task hooks', TASK + ': hooks in __init__ and the run bodies')], ['order of hook calls'])
prop('C33', 'A task is handled under its lock, which is always released',
     'The scheduler evaluates the conditions of a task, starts its runs and terminates them only while holding the lock of that task, holds the lock of one '
     'task at a time and has released it whenever handling the task ends, also by an error.',
     ['schedules', 'fault_sequences'], 'every condition value or failure and every outcome of handling a task in a cycle',
     'A missed release only shows as a deadlock in a rare interleaving with user code.',
     [SCHED, TASK], [('locking', SCHED + ': run_cycle')], ['lock state'])
prop('C37', 'Tasks are handled in order of priority',
     'In startup, each cycle and shutdown tasks are handled in order of non-increasing priority, a task without a given priority counting as 0.',
     ['inputs', 'configurations'], 'every assignment of priorities to the tasks and every order of creation',
     'Tests use one order of creation and a few priorities.',
     [SCHED, SESS], [('order', SCHED + ': tasks; ' + SESS + ': tasks')], ['order of runs'])
TCOND, TUTIL, API = 'rocketry/conditions/task/task.py', 'rocketry/conditions/task/utils.py', 'rocketry/conditions/api.py'
prop('C15', 'Conditions combine as boolean logic',
     'A condition built with &, |, ~, All, Any and Not has the boolean value of that expression over its parts. Every part is observed for the same task and session, '
     'and using a condition in a further expression does not change the condition itself.',
     ['inputs', 'configurations'], 'every expression shape and every combination of values of its parts',
     'Tests evaluate a handful of expressions; flattening and sharing of parts make the value depend on the whole shape.',
     [COND], [('operators and containers', COND + ': BaseCondition, All, Any, Not')], ['value of observe'])
prop('C16', 'Comparing a condition yields a new condition with that meaning',
     'Comparing a measurable condition (==, !=, <, >, <=, >=, also chained or given as keywords) yields a condition that is true exactly if the measured number (or length) satisfies '
     'all the comparisons; without comparison it is true if the number is positive. The condition compared from keeps its own meaning, so conditions derived from it are independent.',
     ['inputs', 'histories'], 'every measurement, every comparison and pair of comparisons, every order of deriving conditions',
     'Tests compare fresh conditions once; conditions derived from a shared one (as the conds API offers) are not tried.',
     [COND], [('comparisons', COND + ': BaseComparable')], ['value of observe'])
prop('C17', 'Task status conditions say what the task log says',
     'A condition on a task having started, succeeded, failed, terminated, inacted or finished is true exactly if the number of such log records of that task within its period '
     '(bounds included) satisfies its comparison. The answer is the same whether it is found from the cached times or by reading the log, as the observed session is configured. '
     'A condition on a task running counts the runs of it that are alive and started in the period, or, if the session reads the log, those in the log without an outcome (also in logs without run ids).',
     ['histories', 'inputs', 'configurations'], 'every log history relative to the bounds of the period, every comparison, with and without a timezone, about the observed or another task',
     'The cached shortcuts are right or wrong depending on how records lie relative to the period; tests place one record well inside.',
     [TUTIL, TCOND], [('counting and shortcuts', TUTIL + ': TaskStatusMixin'), ('running', TCOND + ': TaskRunning'), ('period span', 'rocketry/core/time/utils.py: get_period_span')],
     ['value of observe'])
prop('C18', 'A periodic task runs only inside its period and at most once plus retries',
     'The condition of a periodic task (daily, weekly, ...) is true exactly if now is in the period and the task has not succeeded, inacted or been terminated in the period and has '
     'failed in it at most as many times as retries are allowed; the once-per-period (cron) condition if now is in the period and the task has not started in it; '
     '"every X" exactly if there is no run (success, fail, finish) within the last X.',
     ['histories', 'inputs', 'configurations'], 'every log history relative to the bounds of the period, every number of retries, now inside or outside of the period',
     'Tests place single records at fixed times; counts and boundaries over all histories are not sampled.',
     [TCOND, API], [('executable, runnable', TCOND + ': TaskExecutable, TaskRunnable'), ('every', API + ': every')], ['value of observe'])
prop('C19', 'A dependent task is due exactly after its dependency ended since its last run',
     '"After task B succeeded (failed, finished)" is true for a task exactly if B has a success (fail, either) record later than the last start of the task, or has one and the task has never started. '
     'The all/any forms are the conjunction/disjunction over the listed tasks.',
     ['histories', 'schedules'], 'every interleaving of the log records of the task and its dependencies',
     'Tests run one pipeline order; each interleaving of runs and outcomes is a different history.',
     [TUTIL, API], [('depend', TUTIL + ': DependMixin'), ('api', API + ': after_*')], ['value of observe'])
prop('C20', 'Session level conditions reflect the session they are observed in',
     'The conditions on the environment, on session parameters, on when the scheduler started, on the cycles it has done, on it running, on the current time, on a function and on a check task have exactly the value implied by the '
     'state of the session they are observed in, never that of another (default) session and not a value of an earlier observation, and functions get the observed task and session they ask for.',
     ['inputs', 'configurations'], 'every state of the observed session, with another session being the default one',
     'Tests have one session, so using the wrong one is invisible.',
     ['rocketry/conditions/parameter.py', 'rocketry/conditions/scheduler.py', 'rocketry/conditions/time.py', 'rocketry/conditions/func.py', 'rocketry/conditions/meta.py'],
     [('conditions', 'rocketry/conditions: IsEnv, ParamExists, SchedulerStarted, IsPeriod, FuncCond, TaskCond')], ['value of observe'])
prop('C38', 'Retries are bounded by the failures in a row',
     'retry(n) is true for a task exactly if its last outcome is a failure and it has failed at most n times since its last other outcome; it is always true after a failure for unlimited retries and never for n = 0.',
     ['histories'], 'every history of outcomes',
     'Tests fail one task a fixed number of times.',
     [TCOND], [('retry', TCOND + ': Retry')], ['value of observe'])
prop('C36', 'No message of a task process is lost',
     'Whatever a run in a separate process sends to the scheduler (log records, return value) is handled exactly once, in the order of that run, also if another task is being started at that moment; '
     'when the session has ended nothing is left unhandled.',
     ['schedules', 'crash_points'], 'every interleaving of process runs sending their records with the scheduler starting, checking and stopping tasks',
     'The loss needs a process to finish within the short time in which another is starting; tests do not hit it.',
     [TASK, SCHED], [('start-up of a process', TASK + ': _run_as_process, _lock_to_run_log'), ('relay', SCHED + ': handle_logs')], ['the task log', 'session return values'])
ARGS = 'rocketry/args/builtin.py'
prop('C21', 'A run gets the parameter values of highest precedence, formed for that run',
     'Every parameter a task asks for gets the value with the highest precedence (run request, task parameters, function signature, session parameters), '
     'and nothing the task did not ask for is passed. Argument objects are turned into their value once for each run, with the task and session of the run, so a later run sees '
     'fresh values and neither the task nor the session parameters are changed by running.',
     ['inputs', 'histories', 'configurations'], 'every combination of places that define a parameter (plain value or argument), every execution mode, two runs in a row',
     'Tests define a parameter in one place and run once; freezing a value or mixing up places shows only with combinations and repeated runs.',
     [TASK, PARAM, ARGS, 'rocketry/tasks/func.py'], [('collection', TASK + ': get_task_params, prefilter_params, postfilter_params'), ('materialisation', PARAM + ': pre_materialize, materialize')],
     ['parameters received by the task code'])
prop('C23', 'Private values are only shown to the task they are given to',
     'The value of a private argument reaches the code of the task it is given to, and is not shown by the textual forms of the argument or of parameters, nor by the log records of the run.',
     ['inputs', 'schedules'], 'every textual form of parameters holding private values, every execution mode and outcome',
     'Tests look at one repr; a secret may leak through any representation or log record.',
     ['rocketry/args/secret.py', PARAM], [('private', 'rocketry/args/secret.py: Private'), ('representation', PARAM + ': represent, __str__, __repr__')], ['textual forms', 'the task log'])
prop('C24', 'Handing a task over to a process does not change the task',
     'Starting a process run leaves the task in the scheduler as it was (lock, conditions, parameters, run stack, session), and the copy handed over shares no mutable state with it.',
     ['inputs', 'histories'], 'every attribute of the task and session',
     'A test sees the run succeed; the damage shows only in later behaviour of the scheduler.',
     [TASK, SESS], [('state', TASK + ': __getstate__; ' + SESS + ': _copy_pickle')], ['the task after the start'])
prop('C25', 'Task names identify the tasks of a session',
     'The names of the tasks of a session are unique at all times. Creating a task with an existing name fails without changing the session, gets a new name or is left out of the session, as configured. '
     'Looking up a name or task gives exactly the registered task, and an error for anything else.',
     ['histories', 'configurations'], 'every sequence of creating, renaming and deleting tasks and every setting for existing names',
     'Tests create a clash once; sequences of renaming, deleting and creating are not tried.',
     [SESS, TASK], [('registry', SESS + ': add_task, remove_task, __getitem__, __contains__; ' + TASK + ': name validation, delete')], ['tasks of the session'])
prop('C34', 'Running given tasks manually leaves the session as it was',
     'Session.run(names) runs exactly the given tasks, each once (with obey_cond only if its condition holds), and afterwards the conditions, the disabled state and the shut condition of the session are what they were before, '
     'also if a task fails or the run ends in an error.',
     ['inputs', 'fault_sequences'], 'every combination of task settings, outcomes and obey_cond, unknown names, tasks created during the run',
     'Tests run one task; restoration after errors or for untouched tasks is not looked at.',
     [SESS], [('run', SESS + ': run')], ['runs', 'task attributes after the run'])
TIME = 'rocketry/core/time/base.py'
INTERVAL = 'rocketry/time/interval.py'
prop('C26', 'Interval algebra agrees with set membership',
     'Whether a time is in an interval, whether an interval is empty and whether two intervals overlap agree with the sets of times they stand for, open and closed bounds respected; '
     'the intersection of two overlapping intervals contains exactly the times both contain; an interval with its start after its end cannot be created.',
     ['inputs'], 'every order of the bounds of two intervals and a time (also coinciding ones) and every combination of open and closed bounds',
     'The number of orders of bounds times closedness is far above what the tests sample and mistakes hide in coinciding bounds.',
     ['rocketry/pybox/time/interval.py', TIME], [('intervals', 'rocketry/pybox/time/interval.py: Interval')], ['membership', 'overlaps'])
prop('C27', 'The occurrences of a cyclic period are consistent with membership',
     'For a cyclic period (time of minute, hour, day or week; any start and end, one of them or none, a time point or starting point) a time is in the period exactly if its position in the cycle is from the start up to, '
     'not including, the end, over the turn of the cycle if the start is after the end. Rolling forward gives the rest of the current or the whole next occurrence, rolling back the elapsed part of the current or the whole '
     'previous one. Times of month contain exactly their days, also in short months.',
     ['inputs'], 'every position of the time relative to the start and end and the turn of the cycle, every kind of period and way to create it',
     'Tests list examples; the position of a time relative to both ends and the turn of the cycle is a combination of cases for each unit.',
     [INTERVAL, TIME, 'rocketry/core/time/anchor.py'], [('anchored intervals', 'rocketry/core/time/anchor.py: AnchoredInterval; ' + INTERVAL)], ['membership', 'rollforward', 'rollback'])
prop('C28', 'Combined periods are the intersection and union of their parts',
     'A time is in A & B exactly if it is in both, and in A | B exactly if it is in one of them, also nested and with always and never. Rolling an intersection of spans forward (back) gives the common time of the parts '
     'from (up to) the time and nothing if there is none; rolling a union gives the overlapping occurrences that come first, whatever the order of the parts. Combining does not raise.',
     ['inputs'], 'every arrangement of the occurrences of the parts around the time, up to three parts, including always',
     'The iteration over occurrences depends on how those of several periods lie relative to each other; tests try a few fixed hours.',
     [TIME], [('combination', TIME + ': All, Any, StaticInterval')], ['membership', 'rollforward', 'rollback'])
prop('C29', 'A cron expression matches exactly the times it lists',
     'A time is in the period of a cron expression exactly if its minute, hour, month and day fields are each matched by the expression (list, range, step, name or any), a day being matched by day of month or of week if both '
     'are restricted and by the restricted one otherwise; equally if given as keywords or used as a condition.',
     ['inputs'], 'every field value and every form of field (any, value, list, range, step, named), at every position in the hour, day, week and month',
     'Tests check a list of expressions at fixed times.',
     ['rocketry/time/cron.py'], [('cron', 'rocketry/time/cron.py: Cron')], ['membership'])
prop('C39', 'Fixed and relative spans are what they say, in any timezone',
     'A span given by two times, by distances from now or as always contains exactly the times between its bounds, and rolling forward and back gives exactly the part of the span after and before the time. Times with a timezone are handled as without.',
     ['inputs', 'configurations'], 'every position of the time relative to the bounds, bounds given or not, with and without timezone',
     'Tests use naive times inside or outside; unlimited bounds combined with timezones are not tried.',
     [TIME, 'rocketry/time/delta.py', 'rocketry/time/construct.py'], [('static and relative', TIME + ': StaticInterval; rocketry/time/delta.py: TimeSpanDelta')], ['membership', 'rollforward', 'rollback'])
prop('C31', 'Command and code tasks run what they define',
     'Each run of a command task starts exactly one program: the defined command followed by the parameters as arguments, with the defined settings. The run succeeds with the output of the program exactly if it ends with 0 '
     'and fails otherwise, also if it cannot be started; a program exceeding the timeout of the task (zero included) is killed before its end is awaited. A code task runs its code with its parameters and returns what the code sets. Running does not change the definition.',
     ['inputs', 'histories', 'fault_sequences'], 'every form of command, arguments and settings, every end of the program, every execution mode, two runs in a row',
     'Tests run each command once and mostly successful ones; changes of the definition show in later runs only.',
     ['rocketry/tasks/command.py', 'rocketry/tasks/code.py'], [('command', 'rocketry/tasks/command.py: execute, get_kwargs_popen'), ('code', 'rocketry/tasks/code.py: execute')], ['programs started', 'the task log', 'return values'])
prop('C35', 'Including a group adds its tasks as the group says',
     'After including a group the session has its own and exactly the tasks of the group, named with the prefix of the group, each due only if its own and the condition of the group hold, executed as the task says, else as the group says, else as the '
     'session says, and belonging to the session, which has the parameters of the group. Other tasks are unaffected.',
     ['inputs', 'configurations'], 'every combination of settings of the group and of its tasks, one or two groups',
     'Tests set one option of the group at a time.',
     ['rocketry/application.py'], [('inclusion', 'rocketry/application.py: include_grouper')], ['tasks of the session'])
prop('C40', 'Time conditions mean the period they spell',
     'A period or condition of a second, minute, hour, day, week, month or year, bounded with between, before, after, on or starting by numbers, clock times, weekdays, days of month or months, contains a time exactly if the spelled period does, '
     'equally as a period object, through the conds API and as text, and is of the kind named (once per period, in the period, status of the observed or named task in the period).',
     ['inputs'], 'every unit, form and route, every weekday and month, and times at each side of each bound',
     'Tests compare texts with objects built by the same code; a wrong reading of a spelling is wrong in both.',
     ['rocketry/time/interval.py', 'rocketry/conditions/api.py', 'rocketry/parse/_setup_cond_parsers.py', 'rocketry/time/construct.py'],
     [('spelling', 'rocketry/time/interval.py: anchor_str, anchor_int'), ('api', 'rocketry/conditions/api.py: TimeCondWrapper, TimeActionWrapper'), ('text', 'rocketry/parse/_setup_cond_parsers.py')],
     ['membership', 'kind of condition'])
prop('C41', 'Conditions given as text are the conditions they spell',
     'Each form of the condition syntax and of the conds API yields the condition its words say. Texts combining conditions with &, |, ~ and parentheses (periods with & and |) have the value of that boolean expression, ~ binding before & and & before |, '
     'for all values of the parts. Time deltas given as text have the spelled length. Texts registered in a session are known in that session only.',
     ['inputs', 'configurations'], 'every form of the syntax, every expression up to four parts in several spellings and all values of the parts',
     'Tests parse a list of texts; nesting, negation and precedence combine in more ways.',
     ['rocketry/parse/utils/string_parser.py', 'rocketry/parse/_setup_cond_parsers.py', 'rocketry/parse/_condition/condition_item.py', 'rocketry/conditions/api.py'],
     [('expressions', 'rocketry/parse/utils/string_parser.py: InstructionParser'), ('forms', 'rocketry/parse/_setup_cond_parsers.py'), ('lookup', 'rocketry/parse/_condition/condition_item.py')], ['value of observe'])
prop('C30', 'Times come from the clock of the session',
     'With a clock (time_func) and timezone configured for a session, starts, ends, runtimes and creation times of the records (sessions running one after the other), due times, timeouts and the moments conditions ask about are readings of that clock: no other clock is read, also not that of another session. '
     'The records of one run share the reading at its start, the outcome has the one at its end and their difference as runtime, also for overlapping runs; times given to the user are in the timezone of the session.',
     ['configurations', 'histories'], 'every execution mode and outcome, overlapping runs ending in either order, every way out of a session, every time-dependent condition',
     'Tests use the real clock, where a foreign clock gives the same time, and a single session.',
     ['rocketry/core/task.py', 'rocketry/core/schedule.py', 'rocketry/session.py', 'rocketry/conditions/task/utils.py'],
     [('task times', 'rocketry/core/task.py: _set_status, log_running'), ('session clock', 'rocketry/session.py: get_time, _format_timestamp'), ('conditions', 'rocketry/core/condition/statement.py, rocketry/conditions/task/utils.py')],
     ['the task log', 'the clock read'])
prop('C42', 'Periods of month and year follow the calendar',
     'For a period of days of month or of months of year, whatever its bounds, a time is in it exactly if its day (month) is. Rolling forward gives the rest of the current or the whole next occurrence by the calendar, rolling back the elapsed part of the '
     'current or the whole previous one, in months of every length, in leap and other years and over the turn of the year; months too short for the period have no occurrence.',
     ['inputs'], 'every class of bounds, every length of month, leap and other years, times on each side of each bound',
     'Tests roll periods whose bounds exist in every month, mostly within one month.',
     [INTERVAL, 'rocketry/core/time/anchor.py'], [('calendar', INTERVAL + ': CalendarMixin, TimeOfMonth, TimeOfYear')], ['membership', 'rollforward', 'rollback'])
prop('C43', 'Function tasks run the function they name',
     'Each run of a function task calls exactly the function the task was created with (given, decorated, or named in a file) once, with the parameters of task and session that the function accepts and no others, awaiting it if it is a coroutine '
     'function, and gives its return value; decorating gives back the function. A function of a file is the one the file defines at that run, whatever happened in the previous run; the directory of the file (or of its package) and the sys_paths '
     'are importable while the file is imported, and sys.path is the same afterwards.',
     ['inputs', 'histories', 'fault_sequences'], 'every way to create the task, execution mode and place of the file, every way the previous run went',
     'Tests run each task once and successfully; the file changing or a failing run in between are not tried.',
     ['rocketry/tasks/func.py', TASK, 'rocketry/session.py'], [('function', 'rocketry/tasks/func.py: get_func, execute, process_finish'), ('import', 'rocketry/tasks/func.py: get_module, TempSysPath'), ('decorators', 'rocketry/session.py: create_task; rocketry/application.py: task')],
     ['functions called', 'return values', 'sys.path'])
prop('C44', 'Cron expressions and combined periods roll to their nearest occurrences',
     'Rolling a cron expression back gives the elapsed part of the current or the whole latest matching minute, rolling it forward the rest of the current or the whole next matching minute. An intersection of periods of day, week, month or hour '
     '(or a union of such periods that do not meet) rolls likewise to the times at which all (any) of its parts contain the time, over the turn of hours, days, months and years.',
     ['inputs'], 'cron expressions with every combination of given fields, every pair of cyclic periods of different kinds, times in, around and far from an occurrence',
     'Tests roll a few expressions from a few times; the search for the occurrence takes other steps for others.',
     ['rocketry/core/time/base.py', 'rocketry/time/cron.py', INTERVAL], [('intersection', 'rocketry/core/time/base.py: All'), ('union', 'rocketry/core/time/base.py: Any'), ('cron', 'rocketry/time/cron.py: get_subperiod')],
     ['rollforward', 'rollback'])
prop('C45', 'Arguments are the values they name',
     'A parameter given as an argument - in the session, the task, the run request or the signature of the function - has in each run the value the argument names: the session parameter (also through further arguments), the session, the own or named '
     'task, the configuration, the task or scheduler logger as configured, the latest return value of the task, the environment variable, the command line option, the termination flag of that very run, the return value of the function called with its '
     'arguments, or the first of alternatives that has one. None and empty values are values. Where what is named is missing, the default is used if given; otherwise the run fails without executing the task. Functions of conditions and task hooks get the same values.',
     ['inputs', 'configurations'], 'every built-in argument, place to give it and execution mode, set on the task or the session',
     'Tests evaluate most arguments alone or in one mode; the run a flag belongs to and missing values depend on mode, place and settings.',
     ['rocketry/args/builtin.py', 'rocketry/core/parameters/arguments.py', 'rocketry/core/parameters/parameters.py', TASK], [('arguments', 'rocketry/args/builtin.py'), ('evaluation', 'rocketry/core/parameters/parameters.py: materialize, pre_materialize'), ('use', TASK + ': _run_as_main, run_as_thread, run_as_process')],
     ['values the task function receives', 'the task log'])
