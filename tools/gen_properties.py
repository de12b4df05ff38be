#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate it)."""
import json, os
P = []


def p(id, title, statement, over, quant, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': quant},
        'why_tests_cant': why,
        'anchors': {
            'files': ['src/hypershell/' + f for f in files],
            'state': [{'name': n, 'meaning': m, 'where': 'src/hypershell/' + w} for n, m, w in state],
            'mechanism': [{'name': n, 'where': 'src/hypershell/' + w} for n, w in mech],
            'observe_at': list(observe),
            'hook_needed': hook,
        }})


p('C01', 'Submission stores every input line exactly once, in order, unaltered',
  'Submitting N input lines, from a file, standard input, any iterable or one task at a time, adds exactly N task '
  'records, whose argument text is the submit-template expansion of the whitespace-stripped line, carrying exactly the '
  'given tags, with submission times in input order, and the reported count equals N. This holds for every bundle size '
  'and bundle wait, for slow or bursty sources, and when several submitters write to one database at the same time; a '
  'submission that reports success has lost and duplicated nothing, and one that cannot be stored ends with an error.',
  ['inputs', 'schedules', 'configurations'],
  'All line contents (unicode, quotes, blank, date-like, braces), all counts, bundle sizes/waits, source timings, and '
  'interleavings of loader/committer threads and concurrent submitter processes.',
  'No stable test touches submission; a test samples one list at default bundling, while losses happen at bundle '
  'boundaries, at source stalls, and under particular loader/committer interleavings.',
  ['submit.py', 'task.py', 'data/model.py', 'core/template.py'],
  [('Loader -> bounded queue -> DatabaseCommitter with final commit on sentinel', 'submit.py'),
   ('Task.new strips args and stamps submit time', 'data/model.py')],
  [('task table', 'one row per submitted line', 'data/model.py')],
  ['task table (row-level audit triggers)', 'return value of submit_from/submit_file', 'task id printed by `hs task submit`'])

p('C02', 'With a database every task runs exactly once and its result is recorded',
  'In a run with a database and no failures of server or clients, every submitted task is executed exactly once (once '
  'per recorded attempt), on exactly one client, and ends with its real exit status, start and completion time stored '
  'in its own record before the server finishes. No task is skipped, executed twice, or credited with the result of '
  'another, for any number of clients, executors, bundle sizes and waits, with or without confirmations, with tasks '
  'submitted before, during or after start-up.',
  ['schedules', 'histories', 'configurations', 'inputs'],
  'All interleavings of submitter, scheduler, queue, clients, executors, collectors and receiver; all topologies and '
  'bundling parameters; all arrival patterns.',
  'The stable tests only cover database URL formatting; exactly-once is a property of the interleaving of at least six '
  'concurrent machines over three queues and a database.',
  ['server.py', 'client.py', 'submit.py', 'data/model.py', 'core/queue.py', 'core/fsm.py', 'cluster/local.py'],
  [('Task.next marks and commits schedule_time before the bundle is queued', 'data/model.py'),
   ('Receiver writes finished tasks back by id', 'server.py'),
   ('ClientScheduler/TaskExecutor/ClientCollector queues', 'client.py')],
  [('schedule_time/client_id/completion_time', 'life-cycle of a task', 'data/model.py')],
  ['execution journal written by the tasks themselves', 'row-level audit history of the task table'])

p('C03', 'Without a database every input line still runs exactly once',
  'In a run without a database, every input line is executed exactly once by some client and the server ends by itself '
  'only after all of them have finished and every failure has been reported. Nothing is dropped at a bundle boundary, '
  'while clients are busy, or when the last bundle is incomplete.',
  ['schedules', 'inputs', 'configurations'],
  'All task counts relative to bundle sizes, task durations (fast, slower than internal waits), client counts, source timings.',
  'No test runs a server; loss at the last bundle needs busy clients and a count that is not a multiple of the bundle size.',
  ['submit.py', 'server.py', 'client.py'],
  [('QueueCommitter final commit', 'submit.py'), ('ServerThread wait order submitter/heartbeat/receiver', 'server.py')],
  (), ['execution journal written by the tasks', 'failure stream'])

p('C04', 'What runs and what is recorded is exactly what was submitted',
  'The command executed for a task is the client template applied to exactly the argument text submitted, whatever that '
  'text looks like, and no trip through the database, server or client alters the argument text, tags, identifiers, '
  'submit time or attempt data of a task. The recorded command, exit status (negative for a signal) and client are the '
  'ones that really occurred.',
  ['inputs', 'histories'],
  'All argument strings and tag values, including ones resembling dates, numbers, JSON, null or containing quotes, '
  'newlines-free unicode and shell syntax; all exit statuses and signals.',
  'Encoding faults depend on the content of the payload; tests do not send any payload through the pipeline.',
  ['data/model.py', 'client.py', 'server.py', 'core/template.py'],
  [('Entity.pack/unpack JSON serialisation', 'data/model.py'), ('TaskExecutor.create_task', 'client.py')],
  (), ['audit history (insert vs. final row)', 'argv seen by the spawned shell', 'execution journal'])

p('C05', 'A crashed server loses no work and repeats none that was recorded',
  'If the server process is killed at any point and a new server is started on the same database in restart mode, then '
  'every task ever submitted reaches completion, every task whose completion had been recorded is never executed again, '
  'and every attempt chain stays intact. A second or later crash during recovery changes nothing of this.',
  ['crash_points', 'histories', 'schedules'],
  'Every database commit, statement and queue operation of the server as crash point, repeated crashes, all retry settings.',
  'Tests never crash anything; the failing point may be a single window between two commits.',
  ['server.py', 'data/model.py'],
  [('Scheduler.start reverts interrupted tasks', 'server.py'),
   ('Task.revert_interrupted / select_interrupted', 'data/model.py'),
   ('commit ordering in Task.next and retry scheduling', 'data/model.py')],
  [('schedule_time set, completion_time null', 'interrupted task', 'data/model.py')],
  ['audit history across server incarnations', 'execution journal'])

p('C06', 'A lost client loses no tasks and a healthy client is never evicted',
  'If a client dies or is cut off, the tasks it had confirmed but not returned are handed to other clients within the '
  'eviction period plus one check interval, and everything completes. A client whose heartbeats arrive within the '
  'eviction period is never evicted and none of its tasks are taken away; a client evicted by mistake that comes back '
  'is accepted again, and tasks already completed are not reverted.',
  ['crash_points', 'fault_sequences', 'schedules'],
  'Clients killed at any moment (before/after confirm, while running, before returning results), stalled, or returning; '
  'any mix of live and dead clients; heartbeat timing around the eviction threshold.',
  'Needs real process death and time-outs; no test starts a client.',
  ['server.py', 'data/model.py', 'client.py', 'core/heartbeat.py'],
  [('HeartMonitor.check_clients eviction and Task.revert_orphaned', 'server.py'), ('ClientHeartbeat', 'client.py')],
  [('Client.evicted/disconnected_at', 'liveness as seen by the server', 'data/model.py')],
  ['audit history of task and client tables', 'execution journal'])

p('C07', 'Retries: bounded attempts, one successor per failure, nothing else',
  'With a limit of N attempts, a task that keeps failing is executed exactly N times, a task that succeeds at attempt k '
  'is executed exactly k times, and a successful task is never retried. Attempts of one task form a single chain linked '
  'in both directions with attempt numbers 1,2,3..., the same argument text and tags, and every non-final failure marked '
  'as retried; the server does not finish while a permitted retry is outstanding, whatever the timing of the failure.',
  ['histories', 'schedules', 'configurations', 'crash_points'],
  'All failure patterns over tasks and attempts, limits, eager or not, bundle sizes, arrival of the failure relative to '
  'the scheduler deciding that it is done, restart between attempts.',
  'Retry scheduling is never exercised; the race between the last failure and the end of scheduling needs a precise interleaving.',
  ['data/model.py', 'server.py'],
  [('select_failed / schedule of failed tasks', 'data/model.py'), ('Scheduler.load_bundle halt condition', 'server.py')],
  [('attempt, retried, previous_id, next_id', 'attempt chain', 'data/model.py')],
  ['audit history', 'execution journal'])

p('C08', 'Scheduling order: oldest first, retries after or before new work as asked',
  'Tasks are handed out in order of submission time, in groups no larger than the bundle size. Without eager mode a '
  'failed task is retried only when no new task is waiting to be scheduled, with eager mode retries that are due are '
  'scheduled ahead of new tasks; retries among themselves go in order of completion. This holds for servers and for '
  'every way of launching a cluster that accepts the option.',
  ['histories', 'schedules', 'configurations'],
  'All backlogs of new and failed tasks, bundle sizes, eager on/off, entry points (library, server command, cluster command).',
  'Order is a property of histories across scheduling rounds; no test schedules anything.',
  ['data/model.py', 'server.py', 'cluster/__init__.py'],
  [('Task.next eager / not eager', 'data/model.py'), ('order_by submit_time / completion_time', 'data/model.py'),
   ('eager option plumbing', 'cluster/__init__.py')],
  (), ['order of schedule events in the audit history'])

p('C09', 'The server ends when, and only when, all work is finished',
  'A server that is not told to run forever keeps running while any task is still to come from its source, waiting, '
  'running or due for retry, and exits by itself, releasing every connected client, once none is; with no task ever '
  'submitted it waits. In forever mode it never stops by itself. Restarting on a database that is already complete '
  'executes nothing and ends as soon as the clients are released.',
  ['schedules', 'histories', 'configurations', 'fault_sequences'],
  'All source timings (stalls longer than any internal wait), all numbers of clients joining early, late or at shutdown, '
  'clients dying just before the end, queue sizes.',
  'Termination conditions are checked against races between scheduler polls, submitters and clients; tests run none.',
  ['server.py', 'submit.py', 'client.py'],
  [('Scheduler.load_bundle halt condition', 'server.py'), ('HeartMonitor.signal_clients/switch_mode', 'server.py'),
   ('ServerThread.run wait order', 'server.py')],
  [('startup_phase, scheduler_done, should_signal', 'termination flags', 'server.py')],
  ['process exit and status', 'execution journal', 'task table at exit'])

p('C10', 'A client that leaves first finishes and returns everything it accepted',
  'When a client leaves in an orderly way, because the server released it, its idle time-out passed, or it was told to '
  'stop with SIGUSR1, every task it has taken from the server is executed and its result reaches the server, including '
  'an incomplete last bundle, before the client disconnects. After SIGUSR1 it takes no further bundle, and the server '
  'can complete the remaining work with other clients without waiting for eviction.',
  ['schedules', 'fault_sequences', 'configurations'],
  'All moments of departure relative to bundle fill level, bundle sizes and waits, running tasks, busy completed-queue.',
  'Loss needs a partial bundle at the instant of departure; no test runs a client.',
  ['client.py', 'core/signal.py'],
  [('ClientThread wait order scheduler/executors/collector/heartbeat', 'client.py'), ('ClientCollector.finalize', 'client.py')],
  (), ['audit history', 'execution journal', 'client table'])

p('C11', 'Task walltime limit is enforced with INT, TERM, KILL escalation',
  'A task running longer than the task time-out receives SIGINT, then SIGTERM, then SIGKILL, each only if it is still '
  'running one signal wait after the previous one, never before the limit and never out of order, and its real '
  'termination status is recorded. A task that ends within its limit is never signalled; SIGUSR2 to the client triggers '
  'the same escalation for running tasks at once.',
  ['schedules', 'inputs', 'configurations'],
  'All time-outs and signal waits, tasks that obey, catch or ignore each signal, tasks ending close to each deadline, several executors.',
  'Timing dependent behaviour of real processes; untested.',
  ['client.py'],
  [('TaskExecutor CHECK_TASK/WAIT_SIGNAL/STOP/TERM/KILL states', 'client.py')],
  [('stop_requested, attempted_*', 'escalation state per task', 'client.py')],
  ['signals as received and time-stamped by the task itself', 'task table'])

p('C12', 'Each task sees its own metadata and the exported environment',
  'Every task process runs in the configured task directory with TASK_* variables that describe that very task (id, '
  'args, command, attempt, submit data, tags as TASK_TAG_*, TASK_CWD, TASK_OUTPATH, TASK_ERRPATH), together with the '
  'client environment and every variable configured under export. No variable of one task leaks into another, whatever '
  'ran before on the same executor.',
  ['inputs', 'configurations', 'histories'],
  'All tag sets and argument texts, export sections (scalars and lists), sequences of tasks on one executor.',
  'Depends on task data and on what ran before; untested.',
  ['client.py', 'core/config.py'],
  [('task_env()', 'client.py'), ('load_task_env()', 'core/config.py')],
  (), ['environment dumped by the task itself'])

p('C13', 'Task output goes where it was asked to go, complete and unmixed',
  'With capture, the standard output and standard error of each task are stored byte for byte in two files of its own, '
  'whose paths are in its record and which `task info --stdout/--stderr` print; without capture, output of all tasks is '
  'delivered completely to the chosen streams or files. Finishing, failing or ending one task or executor never loses '
  'or redirects the output of another.',
  ['inputs', 'schedules', 'configurations'],
  'All outputs (size, binary bytes, none), many tasks in parallel, redirect to file with several executors, executors ending at different times.',
  'Shared stream handling only fails with several executors ending at different times; untested.',
  ['client.py', 'task.py'],
  [('TaskExecutor.start_task redirect handling', 'client.py'), ('TaskExecutor.finalize', 'client.py'),
   ('TaskInfoApp.print_file', 'task.py')],
  (), ['captured files vs. what the task wrote'])

p('C14', 'Parallelism is exactly what was asked for',
  'A client started with N executors never runs more than N tasks at the same time, and with enough independent work '
  'available it does run N at once. Without clients the server holds back: no more than the queued bundles plus one are '
  'ever marked as scheduled ahead of demand.',
  ['schedules', 'configurations'],
  'All N, bundle sizes, task durations and client counts.',
  'A concurrency bound is a property of every schedule; untested.',
  ['client.py', 'server.py', 'core/queue.py'],
  [('one TaskThread per executor over a bounded local queue', 'client.py'), ('bounded scheduled queue', 'core/queue.py')],
  (), ['start/end journal of tasks', 'audit history'])

p('C15', 'Every failed task is reported, once, and no successful one',
  'With failure redirection (to a file, standard output or a stream), the argument text of every task attempt that '
  'ended with non-zero status, was killed by a signal or could not be started appears exactly once in the failure '
  'output, complete by the time the program exits; successful tasks never appear. This holds with and without a database.',
  ['histories', 'configurations', 'inputs'],
  'All mixtures of outcomes, bundle sizes, retries, in-memory and database mode, server and cluster commands.',
  'Depends on the outcome history; untested.',
  ['server.py', 'cluster/local.py', 'cluster/__init__.py'],
  [('Receiver.update_tasks redirect_failures', 'server.py')],
  (), ['failure file vs. execution journal'])

p('C16', 'One bad task cannot harm the run',
  'A task that cannot be expanded or started (bad template result, null bytes, oversized command, missing working '
  'directory), crashes, or floods output is recorded as failed, and all other tasks still run to completion with their '
  'own results; the server and clients stay alive and finish normally. A record that disappears or changes in the '
  'database while its task is running affects at most that task.',
  ['inputs', 'fault_sequences', 'histories'],
  'All kinds of defective tasks at any position, with retries and several executors; rows deleted or edited at any moment.',
  'Robustness against particular inputs; untested.',
  ['client.py', 'server.py', 'core/fsm.py'],
  [('TaskExecutor.create_task exception handling', 'client.py'), ('Receiver/Confirm updates', 'server.py')],
  (), ['task table', 'process exit', 'execution journal'])

p('C17', 'Cancelled, reverted and deleted tasks behave as such',
  'A task cancelled before the server scheduled it never runs, counts as finished with status -1, is not retried and '
  'stays cancelled across server restarts; a cancelled, completed or failed task that is reverted becomes new and runs '
  'again; a deleted task is gone and is not run again. None of these affects any other task or keeps the server from finishing.',
  ['histories', 'schedules', 'crash_points'],
  'All sequences of submit, run, cancel, revert, delete and restart over overlapping task sets, with and without retries.',
  'Needs multi-step histories over command and server; untested.',
  ['task.py', 'data/model.py', 'server.py'],
  [('TaskUpdateApp cancel/revert/delete', 'task.py'), ('Task.count_remaining/select_interrupted/select_failed', 'data/model.py')],
  [('exit_status = -1 with schedule_time set', 'cancelled task', 'task.py')],
  ['execution journal', 'audit history', 'process exit'])

p('C18', 'Template expansion follows the documented pattern language',
  'For every argument string, each documented pattern ({} {.} {..} {/} {/-} {-} {+} {++}, slices, lambda and shell '
  'patterns) expands to its documented value, text outside patterns is copied unchanged, several patterns expand '
  'independently, and the argument text itself is never re-interpreted as a template. An unknown pattern is an error, '
  'never a silent substitution.',
  ['inputs', 'programs'],
  'All argument strings and all templates built from documented patterns and literal text.',
  'A template language has unboundedly many combinations; no stable test covers it.',
  ['core/template.py', 'core/types.py'],
  [('Template.expand and pattern tables', 'core/template.py')],
  (), ['expand() result vs. an independent reference implementation', 'command recorded by a real client'])

p('C19', 'Search returns exactly the matching tasks',
  'For every combination of conditions, tags, aliases, ordering, limit and fields, `task search` returns exactly the '
  'tasks satisfying all conditions under the documented comparison operators, in the requested order, truncated to the '
  'limit, and --count reports that number. --tag-keys and --tag-values list exactly the distinct keys and values present.',
  ['inputs', 'histories'],
  'All databases and queries over every field type, operator, null and tag value type.',
  'A query language over arbitrary data; no stable test runs a search.',
  ['task.py', 'core/types.py'],
  [('SearchableMixin.build_query', 'task.py'), ('WhereClause', 'task.py'), ('Tag', 'task.py')],
  (), ['command output vs. an independent in-memory evaluator'])

p('C20', 'Update changes exactly the selected tasks, exactly as told',
  'Every `task update` applies all requested field, tag, cancel, revert, delete and tag-removal changes to precisely the '
  'set of tasks that matched when it started, and leaves every other task and every unmentioned field and tag as it was. '
  'Nothing changes if the confirmation is not given or the arguments are rejected, and a limit never affects more tasks than it says.',
  ['inputs', 'histories'],
  'All databases, filters, limits and orders, and combinations of changes, including changes to the very fields and tags filtered on.',
  'Interaction of filter and change is input dependent; untested.',
  ['task.py', 'data/model.py'],
  [('TaskUpdateApp.update_tasks', 'task.py')],
  (), ['before/after image of the task table vs. reference model'])

p('C21', 'Listing formats are faithful',
  'JSON, CSV and YAML output of task data parse back to exactly the stored values of the selected fields, one record '
  'per task, for any content; plain output has one line per task with the fields in the requested order, and extracting a '
  'single field prints its stored value.',
  ['inputs'],
  'All field contents (quotes, delimiters, newlines-free unicode, nulls, nested tags), delimiters and field selections.',
  'Escaping faults depend on content; untested.',
  ['task.py'],
  [('print_json/print_csv/print_plain/print_field', 'task.py')],
  (), ['parsed command output vs. database row'])

p('C22', 'Configuration precedence and provenance',
  'Each configuration option takes its value from the highest-precedence source that defines it, environment over local '
  'over user over system file over default, merged option by option, and `config get`/`config which` report that value and '
  'that source. An explicitly chosen configuration file replaces all other files but not the environment.',
  ['configurations'],
  'All assignments of option values over the five sources, all value types, nested sections.',
  'Number of combinations; modules load configuration once at import so one test process cannot vary it.',
  ['core/config.py', 'config.py', 'core/platform.py'],
  [('partial_load / Configuration layering', 'core/config.py'), ('blame/which', 'core/config.py')],
  (), ['fresh interpreter per configuration'])

p('C23', 'Setting an option changes that option and nothing else',
  'After `config set`, reading the option back from that site yields the given value, and every other option, section and '
  'comment in that file is unchanged, for any sequence of sets; the previous file is kept as a backup. Other sites are not touched.',
  ['histories', 'inputs', 'configurations'],
  'All sequences of option paths (nested, new, existing) and values over existing file contents.',
  'History and content dependent; untested.',
  ['core/config.py', 'config.py'],
  [('update()/_inplace_update', 'core/config.py')],
  (), ['parsed file before/after'])

p('C24', 'Tags are validated completely and stored with their type',
  'A tag set is accepted only if every key is a string and every value is a number, boolean, null or a string of allowed '
  'characters and length, irrespective of order and of other tags in the set; accepted tags are stored and reported '
  'with the same value and type through submission, retry, search and update. A rejected tag set leaves the database unchanged.',
  ['inputs', 'histories'],
  'All tag dictionaries and command-line tag lists.',
  'Input dependent; untested.',
  ['data/model.py', 'task.py', 'core/types.py'],
  [('Task.ensure_valid_tag', 'data/model.py'), ('Tag.from_cmdline', 'task.py'), ('smart_coerce', 'core/types.py')],
  (), ['task table', 'raised errors'])

p('C25', 'Only holders of the key can reach the queues',
  'A peer that does not present the server key receives no task data and cannot place anything in any queue, and its '
  'attempts, malformed or abandoned connections included, neither stop nor corrupt the run of legitimate clients; a client '
  'with the wrong key fails with an error status. Launched clusters use a fresh random key per run.',
  ['fault_sequences', 'schedules', 'inputs'],
  'All wrong keys, garbage and half-open connections at any moment of a run.',
  'Adversarial peers and timing; untested.',
  ['core/queue.py', 'client.py', 'cluster/local.py', 'cluster/remote.py', 'cluster/ssh.py'],
  [('BaseManager authkey', 'core/queue.py'), ('secrets.token_hex per cluster', 'cluster/local.py')],
  (), ['wire-level peers', 'execution journal', 'exit status'])

p('C26', 'Database settings map to the intended connection and never leak the password',
  'For every valid set of database options the encoded URL is parsed by the database library back into the same '
  'provider, user, password, host, port, database and parameters, invalid combinations are rejected, and the printable '
  'representation never contains the password.',
  ['inputs', 'configurations'],
  'All strings for each field, including reserved URL characters.',
  'The tests sample a handful of plain ASCII values.',
  ['data/core.py'],
  [('DatabaseURL.encode/_validate/__repr__', 'data/core.py')],
  (), ['sqlalchemy.make_url round trip', 'repr()'])

p('C27', 'Host list patterns expand to exactly the hosts they denote',
  'Every host list pattern expands, in order, to exactly the hosts it denotes: comma separated names, numeric ranges and '
  'lists in brackets with zero padding kept, any number of groups; plain names are returned unchanged.',
  ['inputs'],
  'All patterns of names, ranges, lists and padding.',
  'Input dependent; untested.',
  ['cluster/ssh.py'],
  [('NodeList.from_pattern/expand_pattern', 'cluster/ssh.py')],
  (), ['expansion vs. reference', 'hosts contacted by a stand-in ssh'])

p('C28', 'Autoscaling stays within its bounds and keeps work moving',
  'The autoscaler launches the initial number of clients, never raises the number of live clients above the larger of '
  'maximum, minimum and initial size, restores the minimum when clients exit, and with work outstanding and no live client launches one within one period. '
  'Under the fixed policy it adds clients only for those reasons; under the dynamic policy it adds clients only while the '
  'pressure exceeds one, and it never fails because of the state of the task history.',
  ['histories', 'schedules', 'configurations'],
  'All sequences of client exits, task arrivals and completions, both policies and all size settings.',
  'Control loop over histories; untested.',
  ['cluster/remote.py', 'data/model.py'],
  [('AutoScaler check_fixed/check_dynamic/scale/clean', 'cluster/remote.py'), ('Task.task_pressure', 'data/model.py')],
  (), ['process table of launched stand-in clients over time'])

p('C29', 'Initialising never destroys data, truncating needs consent',
  '`initdb` and any command that initialises on demand leave existing tasks and clients untouched, however often they run '
  'and even while others write; truncation empties the tables only after explicit confirmation (flag or affirmative answer), '
  'and a refused or impossible confirmation changes nothing. Without a configured database these commands fail rather than '
  'silently use a temporary one.',
  ['histories', 'inputs', 'configurations'],
  'All histories of init, submit, truncate and answers.',
  'History dependent; untested.',
  ['data/__init__.py', 'data/core.py', 'submit.py'],
  [('InitDBApp', 'data/__init__.py'), ('ensuredb/checkdb', 'data/__init__.py')],
  (), ['table contents before/after'])

p('C30', 'Task records tell a consistent story at every moment',
  'At every committed state of the database a task is in one of the documented life-cycle states: new, scheduled, '
  'confirmed, completed, cancelled or retried; it moves only along submitted, scheduled, started, completed except for '
  'explicit reverts, and submit, schedule, start and completion times, waited and duration agree with that order. Identity, '
  'argument text, submit data, attempt number and predecessor never change after submission.',
  ['histories', 'schedules', 'crash_points'],
  'All histories produced by servers, clients, crashes, evictions and commands.',
  'An invariant over every intermediate database state, not only final ones; untested.',
  ['data/model.py', 'server.py', 'client.py', 'task.py'],
  [('all writers of the task table', 'data/model.py')],
  [('task row', 'life-cycle', 'data/model.py')],
  ['row-level audit history of every committed change'])

p('C31', 'Waiting on a task reports its real outcome',
  '`task wait` returns only after the task has finished, prints or returns its actual exit status as requested, and '
  '`task run` prints the complete output of its own task; a failed command of the interface (unknown id, bad argument, missing file) '
  'exits with non-zero status and has no effect on the database.',
  ['schedules', 'inputs', 'histories'],
  'All completion times relative to polling, exit statuses, unknown ids.',
  'Race between polling and completion; untested.',
  ['task.py'],
  [('TaskWaitApp.wait_task', 'task.py'), ('TaskRunApp.run', 'task.py')],
  (), ['exit status and output of the command vs. execution journal'])

p('C32', 'Buffered work is flushed within the bundle wait',
  'A task read from a source, and a result produced on a client, is passed on when the bundle is full or at the latest '
  'about one bundle wait after the previous flush, also when nothing further arrives; no bundle ever exceeds the bundle size '
  'and the order within the stream is kept.',
  ['schedules', 'configurations'],
  'All arrival patterns, bundle sizes and waits.',
  'Needs a stalled source or a long-running companion task; untested.',
  ['submit.py', 'client.py'],
  [('DatabaseCommitter.get_task/QueueCommitter.get_task', 'submit.py'), ('ClientCollector.check_bundle', 'client.py')],
  (), ['commit instants in the audit history vs. arrival instants'])

p('C33', 'Cluster options reach the server and every client',
  'Whatever way a cluster is launched (local, custom launcher, MPI, SSH host list, autoscaling), every option given takes '
  'effect with the given value on the server or on each launched client, one client per host for SSH, and conflicting options '
  'are rejected before anything runs. The template arrives at each client character for character.',
  ['configurations', 'inputs'],
  'All option combinations and template texts, all launch modes.',
  'Combinations of options across launchers; untested.',
  ['cluster/__init__.py', 'cluster/remote.py', 'cluster/ssh.py', 'cluster/local.py'],
  [('ClusterApp.run and launchers', 'cluster/__init__.py'), ('client_argv construction', 'cluster/remote.py')],
  (), ['argv received by a stand-in launcher', 'behaviour of the launched clients'])

p('C34', 'The client registry reflects reality',
  'Each client that connects is recorded once with its identity, host and connection time under the server that serves '
  'it; an orderly departure sets its disconnection time, an eviction marks it evicted, and a returning client is shown as '
  'connected again. The client recorded for a task is the client that ran it.',
  ['histories', 'schedules', 'fault_sequences'],
  'All sequences of connects, departures, deaths, evictions and returns of any number of clients.',
  'History dependent; untested.',
  ['server.py', 'data/model.py', 'core/heartbeat.py'],
  [('HeartMonitor.update_client', 'server.py'), ('Client.from_heartbeat', 'data/model.py')],
  (), ['client table audit history vs. process history'])

p('C35', 'Results are the same on PostgreSQL as on SQLite',
  'Submission, scheduling, retries, search, update and recovery behave identically on a PostgreSQL and on a SQLite database.',
  ['configurations', 'histories'],
  'All histories on both back ends.',
  'No PostgreSQL server is available to the tests.',
  ['data/core.py', 'data/model.py', 'task.py'],
  [('provider-specific branches', 'task.py')],
  (), ['differential runs on both back ends'])

p('C36', 'Files of remote tasks are fetched intact over SSH',
  'Asking for the output of a task that ran on another host, reached as the SSH configuration says (name, port, user, key), yields the '
  'bytes which the current run of that task wrote there, or an error; never truncated, another task\'s output or that of an earlier run, '
  'also after fetches that failed, were interrupted or ran at the same time.',
  ['inputs', 'fault_sequences'],
  'All file contents, hosts and connection faults.',
  'No SSH server is available to the tests.',
  ['core/remote.py', 'task.py'],
  [('SSHConnection.get_file', 'core/remote.py'), ('TaskInfoApp.copy_remote_files', 'task.py')],
  (), ['fetched file vs. remote file'])

p('C37', 'Every documented setting takes effect, and options override it',
  'Each parameter of the configuration reference governs the program that documents it, whether it comes from a file or from the '
  'environment, in the stand-alone server, client and submit commands as well as in clusters, and a command-line option '
  'for the same parameter takes precedence: addresses and key, queue and bundle sizes and waits, attempts and eager '
  'scheduling, polling, eviction and heartbeat periods, timeouts and signal escalation, working directory and exported variables, and the '
  'level and format of log messages.',
  ['configurations'],
  'All combinations of settings, values, sources (file, environment, option) and commands.',
  'The existing tests read single settings back; whether a running component obeys them shows only in a run.',
  ['core/config.py', 'server.py', 'client.py', 'submit.py', 'cluster/__init__.py', 'cluster/local.py', 'core/queue.py', 'core/logging.py'],
  [('option defaults of ServerApp/ClientApp/SubmitApp/ClusterApp', 'server.py'), ('QueueConfig', 'core/queue.py')],
  (), ['listening socket', 'queue operations', 'execution journal', 'task rows', 'log lines'])

p('C38', 'Asked to stop a run drains, interrupted it ends, restarted it completes',
  'A server or cluster that receives SIGUSR1 halts its scheduling: what was scheduled completes and is recorded, clients disconnect, every '
  'program ends with status 0, and all other tasks remain untouched in the database. SIGUSR2 does the same, and where the signal reaches clients '
  'running tasks are interrupted with the usual escalation. A keyboard interrupt ends any program promptly with status 4, leaving no processes and no '
  'open port behind, and clients whose server is gone end as well. A restart afterwards completes exactly the rest: no task is lost, none that was recorded runs again.',
  ['schedules', 'fault_sequences', 'histories'],
  'Signals at every moment of a run, to servers, clients and all kinds of clusters, with any source, retries, bundle and queue sizes.',
  'Needs whole programs that are signalled while threads and processes are at work; no test starts them.',
  ['server.py', 'client.py', 'core/signal.py', 'core/queue.py', 'cluster/local.py', 'cluster/remote.py', 'submit.py', 'task.py'],
  [('Scheduler.load_bundle', 'server.py'), ('ServerThread.run_with_exceptions', 'server.py'), ('ClientThread.run_with_exceptions', 'client.py'), ('QueueServer.start', 'core/queue.py')],
  (), ['task rows and history', 'execution journal', 'exit statuses', 'processes and ports after the end'])

p('C39', 'A failing database ends the run with an error, and nothing is lost',
  'When the database is out of reach for a moment (locked by somebody else for less than the time the database library waits) a run carries on unharmed. When it is so for '
  'longer, or cannot be written any more, all programs of the run end by themselves with a documented error status and a message, and leave no '
  'processes behind; they never stay idle forever. No record is wrong, and a restart completes the rest without running again what was recorded. '
  'A submission ends likewise, with exactly the first tasks of its input stored.',
  ['fault_sequences', 'schedules'],
  'Failures of the database at every moment and for any time, hitting any subset of the threads of a server, in servers and all kinds of clusters.',
  'No test injects failures into a running server; which of its threads fails depends on timing.',
  ['server.py', 'client.py', 'submit.py', 'core/thread.py', 'core/fsm.py', 'core/queue.py', 'cluster/local.py', 'cluster/remote.py', 'data/model.py'],
  [('ServerThread.wait_scheduler', 'server.py'), ('ServerThread.stop', 'server.py'), ('Thread.join', 'core/thread.py'), ('AutoScalingCluster.run_with_exceptions', 'cluster/remote.py')],
  (), ['ends and exit statuses', 'task rows', 'execution journal', 'processes after the end'])

p('C40', 'Embedded in a program the library does what its documentation says',
  'A program which uses the documented functions and threads of the library (clusters, servers, clients, submissions to the database or to a queue) gets the same as from '
  'the commands: every task of its source, whatever kind of iterable that is, runs as often as its parameters say (by default once), with a record of each run where there is a database; '
  'redirected and captured output, the failed tasks, tags and templates are as asked for; the counts returned by submissions are those of the tasks that are there. The configuration '
  'file has no effect on the defaults of parameters. One after another any number of calls work in the same process. What fails is raised to the caller, without hanging or '
  'leaving processes behind. stop() ends a thread early: a client completes what it has and leaves the rest to others, a submission has stored exactly what it counted, '
  'what a stopped server left is completed by a restart.',
  ['inputs', 'histories', 'schedules', 'fault_sequences'],
  'All sequences of documented library calls in one process, with any parameters and sources, stopped at any moment, with and without a database.',
  'The tests neither start servers and clients nor call the library; what is left of a previous call in the process, and when stop() arrives, decide.',
  ['cluster/local.py', 'cluster/remote.py', 'cluster/ssh.py', 'server.py', 'client.py', 'submit.py', 'core/thread.py', 'core/queue.py'],
  [('run_local', 'cluster/local.py'), ('LocalCluster.__init__', 'cluster/local.py'), ('RemoteCluster.__init__', 'cluster/remote.py'), ('ServerThread.__init__', 'server.py'),
   ('serve_from', 'server.py'), ('ClientThread.stop', 'client.py'), ('ClientSchedulerThread.stop', 'client.py'), ('submit_from', 'submit.py'), ('SubmitThread.stop', 'submit.py'), ('QueueServer.start', 'core/queue.py')],
  (), ['task rows and history', 'execution journal', 'returned values and raised errors', 'redirected streams', 'processes after the end'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
