"""Single source of properties.jsonl and MANIFEST.json.  Run: python3 tools/catalog.py"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

TS = "ipyparallel/controller/task_scheduler.py"
SCH = "ipyparallel/controller/scheduler.py"
DEP = "ipyparallel/controller/dependency.py"
HUB = "ipyparallel/controller/hub.py"
HM = "ipyparallel/controller/heartmonitor.py"
BC = "ipyparallel/controller/broadcast_scheduler.py"
CLU = "ipyparallel/cluster/cluster.py"
LAU = "ipyparallel/cluster/launcher.py"
CL = "ipyparallel/client/client.py"
AR = "ipyparallel/client/asyncresult.py"
VW = "ipyparallel/client/view.py"

prop("T01", "Load-balanced tasks run only where and when their dependencies allow",
 "A load-balanced task is handed to an engine only after its `after` dependency is met under its any/all and success/failure switches, and only to a registered engine on which its `follow` dependency is met, that is among its requested targets (if any), and on which it has not already failed or been refused.",
 ["histories", "schedules", "inputs"],
 "every sequence of submissions, results (success, failure, refused), engine arrivals and departures, and timer firings, for every dependency form (any/all x success/failure x after/follow), target set, retry count, scheme and high-water mark",
 "The tests submit a few two-task chains on a live cluster where timing decides which scheduler path runs; they never compare the dispatch decision with the set of finished tasks for arbitrary DAGs and interleavings.",
 [TS, DEP], [("TaskScheduler.dispatch_submission / update_graph / maybe_run", TS), ("Dependency.check / unreachable", DEP)],
 ["frames sent on the scheduler's engine-facing stream"])
prop("T02", "Every load-balanced task gets exactly one final answer",
 "Every submitted load-balanced task is answered to the client that submitted it exactly once (with the engine's own reply when it ran), it is never outstanding on two engines at once and is never run again after it was answered, and when nothing is running and every engine is free no runnable or doomed task is left unanswered. The hub is told of each submission, each assignment and each final answer exactly once.",
 ["histories", "schedules", "fault_sequences"],
 "every history of submissions, results, refusals, retries, engine arrivals/departures and timers, including results that arrive after the engine was declared dead",
 "A lost or duplicated task shows only for particular combinations of queue content, high-water mark and completion order; tests wait for a handful of results and cannot see a second execution or a reply that never comes for an untested DAG.",
 [TS], [("TaskScheduler.update_graph / fail_unreachable / dispatch_result", TS)],
 ["client-facing, engine-facing and monitor streams of the scheduler"])
prop("T03", "Engine capacity is respected and never wasted; least-loaded choice",
 "With a high-water mark h > 0 no engine ever has more than h load-balanced tasks outstanding, and after each event no waiting task whose dependencies are met is left waiting while a permitted engine has spare capacity (for h = 0 capacity is unlimited). Under the default scheme each assignment goes to a permitted engine with the fewest outstanding tasks, the least recently used one on ties.",
 ["histories", "configurations"],
 "all histories of submissions, completions, failures, refusals, engine arrivals and departures, for h in {0,1,2,3} and every scheme (the choice rule for leastload and lru)",
 "Tests use the default mark with sleeping tasks; capacity accounting after failures, retries and engine loss, and starvation of queued tasks, are never asserted.",
 [TS], [("available_engines / submit_task / add_job / finish_job", TS)], ["frames on the engine-facing stream"])
prop("T04", "Retries: failures are retried the requested number of times, elsewhere",
 "A failed task with retries left is not reported but tried again on an engine where it has not failed before, consuming one retry per failure; its failure is reported exactly when a failure arrives with no retry left, and a success is reported at once. A refusal (unmet engine-side dependency) moves the task to another engine without consuming a retry.",
 ["histories", "inputs"], "all retry counts, all result sequences per task mixing success, failure and refusal, and engine loss while running",
 "The only retry tests use always-failing tasks; a mixed sequence of refusals, failures and engine deaths per task is not reachable from them.",
 [TS], [("dispatch_result / handle_unmet_dependency", TS)], ["client-facing and engine-facing streams"])
prop("T05", "Impossible tasks are failed with the right reason, and only those",
 "A task naming itself or an unknown task is failed as invalid at once; a task whose dependencies can no longer be met, that is restricted to engines that have all gone or refused it, or that must follow tasks which finished on different engines, is failed as impossible no later than when an engine next has room to consider it, and such failures cascade to its dependents; a task still waiting when its timeout expires is failed as timed out. A task that can still run is never failed for any of these reasons.",
 ["histories", "inputs", "schedules"], "all DAG shapes up to the bound, all switch combinations, all orders of failure, timeouts and engine departures",
 "Tests cover one unknown id, one follow conflict and one timeout; cascades through queued and directly failed tasks depend on internal bookkeeping that the tests never reach.",
 [TS, DEP], [("fail_unreachable / maybe_run / job_timeout", TS), ("Dependency.unreachable", DEP)], ["client-facing stream"])
prop("T06", "Tasks on a lost engine are answered or retried, never stuck or doubled",
 "After an engine is unregistered no task is sent to it; results it had already produced are still honoured if they arrive within the grace period, and after the grace period (a few seconds, not before) each task still outstanding on it is retried elsewhere if it has retries left and otherwise answered with an engine-died error. A result that arrives from it later changes nothing.",
 ["fault_sequences", "histories", "schedules"], "an engine lost at every point of every history, with any subset of its outstanding results arriving before or after the grace period",
 "Killing engines at chosen points between assignment, result and cleanup is not possible from the tests, which kill one engine once.",
 [TS], [("_unregister_engine / handle_stranded_tasks", TS)], ["client-facing and engine-facing streams"])
prop("T07", "Waiting tasks that compete for an engine run in submission order",
 "An engine is never given to a task submitted after another task that it could equally have been given to, when that other task was already waiting (and has waited ever since) before the later one was submitted.",
 ["histories", "schedules"], "all queues, completion orders and mixes of dependency, target and refusal constraints",
 "Order is only visible with several queued tasks skipped over repeatedly, a situation the tests never set up or assert.",
 [TS], [("update_graph queue scan", TS)], ["frames on the engine-facing stream"])

prop("H01", "Engine ids are unique, never reused, and survive a controller restart",
 "An accepted engine registration gets an id no other engine has: the requested id when that is free, otherwise one that was never handed out before; a registration whose uuid is already in use (registered or in progress) is refused. The list of engines that clients are shown is always exactly the registered engines. A controller restarted from its saved state restores exactly the engines that were registered and never hands out an id its predecessor had used.",
 ["histories", "crash_points", "inputs"], "every sequence of registrations (with and without requested ids, repeated uuids), first heartbeats, departures, and controller restarts at every point",
 "Tests start a few engines once; id reuse appears only after particular sequences of failed registrations, departures and restarts.",
 [HUB], [("Hub.register_engine / finish_registration / unregister_engine / _save_engine_state / _load_engine_state", HUB)],
 ["hub replies on the client/engine ROUTER, notifications on the PUB socket"],
 [("engines, next id", "registered engines and the id counter", HUB)])
prop("H02", "Engine membership follows heartbeats and is announced exactly once",
 "An accepted registration becomes an engine exactly when its first heartbeat arrives before the registration timeout, and is dropped at the timeout (not before) otherwise. An engine leaves exactly when it asks to or when its heart stops. Every arrival and departure is announced to clients and schedulers exactly once, with the engine's id and uuid.",
 ["histories", "schedules", "fault_sequences"], "every interleaving of registration requests, heartbeats, timeouts, heart failures, unregistration and repeated registrations of the same engine",
 "The races between a registration's timeout, its heartbeat and a new registration of the same engine cannot be scheduled from a live-cluster test.",
 [HUB, HM], [("Hub.handle_new_heart / handle_heart_failure / _purge_stalled_registration / finish_registration / unregister_engine", HUB)],
 ["PUB notifications, registration replies"])
prop("H03", "Results are recorded once and reported exactly as they were produced",
 "A request the hub has seen is reported as pending until its result arrives, or until its engine has been gone for the grace period; from then on it is reported as finished with exactly that result, status, buffers, metadata and captured output. Asking for an unknown task is an error. History lists every request exactly once in submission order, and with a persistent database all of this still holds for a restarted controller.",
 ["histories", "schedules", "crash_points"], "every interleaving of the submission, assignment, result and output messages (which arrive on different channels in any order), engine loss, queries and controller restarts, for every database backend",
 "The channels race: the tests only see the usual order on a live cluster and never a result before its submission, output after the result, or a lookup after a restart.",
 [HUB, "ipyparallel/controller/dictdb.py", "ipyparallel/controller/sqlitedb.py"], [("Hub.save_queue_request / save_queue_result / save_task_request / save_task_result / save_iopub_message / get_results / get_history", HUB)],
 ["replies to result_request, history_request and db_request"])
prop("H04", "Queue status and load reports are accurate",
 "For every registered engine the queue status lists exactly the direct requests and load-balanced tasks currently outstanding on it and those it completed, plus the tasks not yet assigned, and the load report counts the same; an engine that is not registered yields an error.",
 ["histories", "schedules"], "every interleaving of submissions, assignments, results, refusals/retries on other engines, engine loss and purges",
 "A phantom or missing entry needs a retry, refusal or message race that tests do not arrange; they check counts after a few quick tasks.",
 [HUB], [("Hub.queue_status / check_load, and the pending/queues/tasks/completed bookkeeping", HUB)], ["replies to queue_request and load_request"])
prop("H05", "Purge removes only finished requests; resubmit repeats the exact request once",
 "Purging removes exactly the finished requests it names (all, by id, by engine) and nothing else; a purge that names an unfinished request is refused and removes nothing, and one that names an unknown engine is an error. A resubmitted request, finished or not, is submitted again exactly once, under a new id, with the original content and buffers, and the original record is kept; a resubmission that names an unknown request is refused and submits nothing.",
 ["histories", "inputs"], "every history of requests followed by any sequence of purges and resubmissions, for every database backend",
 "Tests purge one finished message; mixtures of finished and pending ids, engines and backends are not sampled.",
 [HUB, "ipyparallel/controller/dictdb.py", "ipyparallel/controller/sqlitedb.py"], [("Hub.purge_results / resubmit_task", HUB)], ["replies to purge_request and resubmit_request, and the later query replies; frames on the resubmit stream"])
prop("H06", "A heart is declared dead exactly after too many consecutive misses",
 "The heart monitor sends one ping per period. An engine's heart is reported new exactly once, at its first valid answer, and reported stopped exactly when it has missed more than the configured number of consecutive periods; an answer to the current or the previous ping counts, anything else does not, and a stopped heart that answers again is new again.",
 ["histories", "schedules", "configurations"], "every pattern of answered, late, bogus and missing answers of any number of hearts, for every configured number of permitted misses",
 "Tests cannot time heartbeats precisely: they kill one engine and wait.",
 [HM], [("HeartMonitor.beat / handle_new_heart / handle_heart_failure / handle_pong", HM)], ["handlers registered with add_new_heart_handler / add_heart_failure_handler; frames on the ping socket"])

DD = "ipyparallel/controller/dictdb.py"
SQ = "ipyparallel/controller/sqlitedb.py"
prop("D01", "The task database returns exactly what was stored, and keeps it on disk",
 "Every database backend returns each record, whole or in part, exactly as it was last written (all fields, buffers and instants of time), independently of what callers did with records returned earlier, and lists the history in order of submission; unknown records and duplicate ids are errors. A SQLite database that is closed and reopened holds exactly the same records, and after a crash it holds the state of some moment no earlier than a few seconds before. NoDB accepts everything and answers every lookup with an error.",
 ["histories", "inputs", "crash_points"], "every sequence of adds, updates, drops, queries, reopenings and crashes, every backend, with unset, empty, unicode, date-like and binary values and timestamps in any timezone",
 "Tests store a handful of uniform records in one timezone, never reopen a file and never crash.",
 [DD, SQ], [("DictDB/SQLiteDB.add_record / update_record / get_record / find_records", DD), ("SQLiteDB adapters, converters, _init_db, _check_table, commit callback", SQ)], ["return values of the database API"])
prop("D02", "Database queries follow the documented operators on every backend",
 "A query selects exactly the records for which every condition holds, where equality, $eq, $ne, $in, $nin, $lt, $gt, $lte, $gte and $glob mean what the documentation says (Python's ==, !=, in, not in, <, >, <=, >= and fnmatch), unset fields are equal only to None and never before or after anything, and instants are compared as instants. The result has the requested keys plus msg_id, each record once, and dropping matching records removes exactly the records the same query selects.",
 ["inputs", "histories"], "all conjunctions of conditions over all fields, operators and operand values (including unset fields, empty lists, mixed timezones, wildcard and negated patterns), on every backend",
 "Tests use single conditions over populated fields; wrong answers arise for unset values, combined conditions, time zones and unusual patterns.",
 [DD, SQ], [("DictDB._match / CompositeFilter / filters", DD), ("SQLiteDB._render_expression / operators", SQ)], ["find_records, drop_matching_records"])
prop("D03", "The in-memory database stays within its limits by dropping the oldest records",
 "After every write the in-memory database holds at most record_limit records and size_limit bytes of buffers. When a limit is exceeded it drops exactly the oldest record_limit*cull_fraction records (at least one), or the oldest records until the size is at most size_limit*(1-cull_fraction); otherwise nothing is ever dropped, and looking up or updating a dropped record is an error.",
 ["histories", "configurations"], "all sequences of adds, updates that grow or shrink buffers, and removals, for all limits and fractions",
 "The limits are large in tests; accounting errors accumulate only over a history of updates and drops.",
 [DD], [("DictDB._add_bytes / _drop_bytes / _maybe_cull / _cull_oldest", DD)], ["the ids remaining after each operation"])

BC = "ipyparallel/controller/broadcast_scheduler.py"
prop("B01", "A broadcast reaches each target exactly once, and each reply comes back once",
 "Whatever the depth of the scheduler tree, every engine a broadcast request names gets exactly one intact copy, through the leaf it is connected to, and no other engine gets any. Without coalescing, each engine's reply is passed on to the requesting client exactly once, unchanged and identified by request and engine.",
 ["schedules", "inputs", "configurations"], "all sets and orders of targets, depths 0 to 3, several concurrent requests and clients, all interleavings of the messages inside the tree",
 "Tests run one broadcast at a time at the default depth; misrouting shows only for particular engine ids, depths and concurrent requests.",
 [BC, "ipyparallel/controller/app.py"], [("BroadcastScheduler.dispatch_submission / dispatch_result / send_to_*", BC), ("IPController.launch_broadcast_schedulers", "ipyparallel/controller/app.py")], ["frames at engines and clients"])
prop("B02", "Coalesced broadcast replies are complete, exact and never hide a failure",
 "A coalescing broadcast is answered exactly once, when the last of its targets has answered. The reply lists each target once, with its own result at its own position, and if any target failed the reply is a failure of one of them.",
 ["schedules", "inputs", "configurations"], "all sets and orders of targets, depths 0 to 3, any order of the engines' answers, several concurrent requests, any subset of failing engines",
 "Tests use homogeneous results in id order with depth 1; mixed-up attribution or lost errors appear only for some orders and depths.",
 [BC], [("BroadcastScheduler.coalescing_reply", BC)], ["the coalesced reply frames at the client"])

CL = "ipyparallel/client/client.py"
AR = "ipyparallel/client/asyncresult.py"
VW = "ipyparallel/client/view.py"
KN = "ipyparallel/engine/kernel.py"
prop("C01", "Every submitted call gets exactly one answer: the outcome of a run of that call",
 "For direct, load-balanced and broadcast submissions alike, the submitted function and arguments are run only on the engines the call was meant for, and no more often than allowed, and its future is resolved exactly once with the value or exception of one of its runs, or with an abort or engine-death error that really applies. The answer comes to the client that asked. A call whose engine dies, before or after a late reply, is answered too; nothing a user waits for stays pending except load-balanced calls that no engine is able to run.",
 ["schedules", "crash_points", "histories"], "random mixes of direct, load-balanced, broadcast and coalescing calls from up to two clients on one to seven engines that come and go, with every message interleaving drawn at random, plus behaviours of the design specification",
 "Tests submit a few calls to a live cluster and never control when engines die or in which order replies, deaths and notifications arrive.",
 [CL, VW, "ipyparallel/controller/task_scheduler.py", KN], [("Client._handle_apply_reply / _handle_execute_reply / _handle_stranded_msgs", CL), ("View._really_apply", VW), ("IPythonParallelKernel.do_apply", KN)], ["futures and AsyncResults of a real client", "what the engines ran"])
prop("C02", "AsyncResult tells the truth about its calls at every moment",
 "ready(), successful(), get() with any timeout, return_exceptions and return_when, wait(), iteration, indexing, get_dict(), len, progress, split and done callbacks always agree with the state of the underlying calls. Results come in submission order, failures are raised (together, when there are several calls), a timeout is reported only when it has passed and something is unfinished, and a callback is called exactly once, after the results are there.",
 ["schedules", "histories", "inputs"], "the API is called at random moments of random histories of direct, load-balanced and broadcast calls, with failing, aborted and stranded calls mixed in",
 "Tests call each method once on a finished or a sleeping call; wrong answers appear in partly finished, mixed, or coalesced results.",
 [AR], [("AsyncResult.get / wait / __iter__ / __getitem__ / get_dict", AR)], ["return values and exceptions of AsyncResult methods"])
prop("C03", "outstanding, history and wait() of clients and views are exact",
 "A client's outstanding set is exactly the set of its submitted calls that have no answer yet, its history lists every submitted call once in order of submission, and a view's outstanding is the same for what was submitted through it. Client.wait and View.wait return True exactly when all the named (or all) calls are answered, and False only after the timeout.",
 ["schedules", "histories"], "random histories of calls, deaths, aborts and failed submissions from up to two clients and several views each",
 "Tests look at the sets after a single call; leaks and losses need broadcasts, deaths, late replies or failed submissions.",
 [CL, VW], [("Client._send / wait / outstanding", CL), ("save_ids / sync_results", VW)], ["client.outstanding", "client.history", "wait results"])
prop("C04", "The client knows its engines, and targets resolve to the engines they name",
 "The ids of a client are those of the engines registered so far and not gone, in ascending order, each mapped to its own engine. Targets given as an int (also negative), list, slice, range or 'all' resolve to exactly the engines they name in the order given, and anything else is refused. A live engine is not declared gone, and whoever waits for engines is told as soon as there are enough, one is lost, or the time is up, and not otherwise.",
 ["schedules", "histories", "inputs"], "random arrivals and deaths of up to seven engines with all kinds of target expressions evaluated in between and several concurrent waits",
 "Tests use a fixed set of engines numbered from zero and one wait at a time.",
 [CL], [("Client._build_targets / _register_engine / _unregister_engine / wait_for_engines", CL)], ["client.ids", "resolved targets", "futures of wait_for_engines"])
prop("C05", "Outputs, errors and metadata belong to the call and engine that produced them",
 "The stdout, stderr, displayed outputs, execute results and published data of an AsyncResult are exactly what its own calls produced on the engines, in order and per engine, never those of another call; after wait_for_output they are complete. Metadata and exceptions name the engine that ran the call, its status, and times in order.",
 ["schedules", "histories"], "random histories of calls producing mixed outputs on several engines at once, with outputs delivered before, between or after the replies of any of them",
 "Tests read outputs after everything has arrived from one call at a time.",
 [CL, AR, KN], [("Client._dispatch_iopub / _extract_metadata", CL), ("AsyncResult.wait_for_output", AR), ("finish_metadata / get_engine_info", KN)], ["AsyncResult.stdout/stderr/outputs/data/metadata", "engine info of exceptions"])
prop("C09", "abort() stops exactly the calls it names, if they have not started",
 "A call that an engine was told to abort before it started is never run there, and is answered as aborted; calls that were not named are not affected, and a call is reported as aborted only if somebody aborted it (or an earlier execute failed on its engine). abort() itself returns, also when engines die meanwhile.",
 ["schedules", "histories"], "random aborts (of some or all calls, on some or all engines) racing with the execution of direct, load-balanced, broadcast and coalesced calls and with engine deaths",
 "Tests abort a queue behind one sleeping call; other orders, broadcasts and several clients are never tried.",
 [KN, CL], [("Kernel.should_handle / abort_request", KN), ("Client.abort / _send_control_request", CL)], ["what the engines ran", "outcomes"])
prop("E01", "An engine runs what one client sends it directly in the order it was sent",
 "Calls that one client submits through direct views are run by each engine one at a time in the order of submission, whatever other clients, load-balanced tasks, failures and output are doing.",
 ["schedules", "histories"], "random interleavings of direct calls of up to two clients with load-balanced and broadcast calls on the same engines",
 "Tests rely on this order but never try to disturb it.",
 [KN, CL, VW], [("IPythonParallelKernel", KN), ("DirectView._really_apply", VW)], ["order of runs at each engine"])

RF = "ipyparallel/client/remotefunction.py"
MP = "ipyparallel/client/map.py"
prop("C07", "A parallel map is the builtin map, for every view, chunking and result access",
 "view.map, map_sync, map_async, imap and parallel functions call the function exactly once for every item (or part) with arguments that belong together, on the engine the partition names, and get(), iteration (before, while and after it is done), and len() of the result give the values in the order of the inputs, whatever the sequences, their lengths, the chunk size and the distribution. With ordered=False an iteration gives every value exactly once; failing items raise, or are returned if asked for.",
 ["inputs", "schedules", "histories"], "sequences of all lengths up to 17 (also of unequal length, one-shot iterators, generators, dicts and custom sequences) over one to seven engines, with block and round-robin distribution, chunk sizes 1-7, failing items, deaths of engines, and results looked at in any state",
 "Tests map a few fixed ranges and look at finished results; partition boundaries, empty parts and partly finished results are hardly reached.",
 [RF, MP, VW, AR], [("ParallelFunction.__call__", RF), ("Map / RoundRobinMap", MP), ("AsyncMapResult", AR), ("BroadcastView.map, LoadBalancedView.map", VW)], ["calls the engines ran and their arguments", "results of maps"])
prop("C08", "Lazy maps are bounded, complete and in order, and executor shutdown ends",
 "LoadBalancedView.imap (and executor.map) never takes more than max_outstanding inputs ahead of finished calls, takes the rest as results arrive, yields every result once, in input order unless ordered=False, raises the error of the first failed call or of the input itself, and takes no further input after cancel(), an error, or when the iterator is dropped. executor.shutdown returns once all inputs are taken (or their map is stopped) and all calls are answered, and it always returns.",
 ["schedules", "histories", "inputs"], "several lazy maps at once per view with limits 0-5, inputs that fail, calls that fail, engines that die or hang, cancels, drops and shutdowns at random moments, plus behaviours of the design specification",
 "Tests run one imap of a well-behaved input to its end; races of feeding, results, cancellation and shutdown are not reached.",
 [VW], [("LoadBalancedView.imap", VW), ("LazyMapIterator", VW), ("ViewExecutor.shutdown", VW)], ["when inputs are taken", "values of the iterator", "whether shutdown returns"])

CN = "ipyparallel/serialize/canning.py"
SZ = "ipyparallel/serialize/serialize.py"
KN = "ipyparallel/engine/kernel.py"
UT = "ipyparallel/util.py"
prop("E02", "Engine namespaces are exactly what the requests sent to them make of them",
 "push, item assignment, execute, run and calls of interactive functions change the namespaces of exactly the engines they name, in the order in which they were sent, and nothing else does; what a failing request did before its error stays, and what a request sends is what its arguments were at the time of the call. pull, item access, returned values and References give every engine's own value, equal to what was stored and in target order, or the error raised there; clear empties the namespaces it names before it returns.",
 ["histories", "schedules", "inputs"], "random histories of pushes, pulls, code, functions with positional, keyword, default and closure values, References, clears and deaths over direct, broadcast and load-balanced views of one or two clients and up to seven engines, with scalars, lists, arrays, bytes, functions, objects and nested values",
 "Tests push and pull a few values with idle engines; mixtures of pending requests, errors, target orders and views on engines with different contents are not reached.",
 [VW, KN, CN, SZ, UT], [("DirectView.push / pull / execute / run", VW), ("_push, _pull", UT), ("do_apply, clear_request", KN), ("pack_apply_message / unpack_apply_message", SZ)], ["namespaces of engines after every request", "results of requests"])
prop("C10", "Scatter gives every engine its part, and gather puts the parts together again",
 "scatter partitions a sequence over the target engines in the order of the targets, without losing, repeating or reordering elements and keeping the kind of the sequence (flatten: single elements), for block and round-robin distribution and any length. gather with the same distribution and targets returns the elements of what the engines hold in the original order, as a list or as an array of the same type; an error on any engine is reported as that engine's.",
 ["inputs", "histories"], "lists, tuples, ranges, dicts and 1- and 2-d arrays of 0-12 and 300 elements over subsets and permutations of one to seven engines, through direct and broadcast views, with flattening, gathered whole or after changes on the engines",
 "Tests scatter a few ranges over all engines and gather them in block distribution; empty and uneven parts, round robin and arrays are not checked together.",
 [VW, MP, AR], [("DirectView.scatter / gather", VW), ("Map / RoundRobinMap", MP), ("AsyncMapResult._reconstruct_result", AR)], ["namespaces of engines", "results of gather"])

prop("S01", "Values arrive as they were sent",
 "Any function, positional and keyword arguments that a client packs into a message are what the receiver unpacks: the same values of the same types, in the same order, under the same names, with nothing lost, added or moved between arguments, whatever their size and nesting, whether buffers travel in place or out of band, and whether serialized at once or in advance. References, wherever the code introspects, become what the receiver's namespace holds under their name. Serializing neither fails on nor changes the sender's values.",
 ["inputs", "histories"], "numbers, text, bytes, memoryviews, NumPy arrays and scalars of all kinds, containers, exceptions, functions with default arguments, keyword-only defaults, closures, globals and annotations, partials, classes, dependents and References, nested and of 0-5000 bytes, sent several times with changes in between and random thresholds",
 "Tests round-trip single values; which buffers belong to which argument depends on combinations of sizes, kinds and nesting across all arguments of a message.",
 [SZ, CN], [("serialize_object / deserialize_object", SZ), ("pack_apply_message / unpack_apply_message", SZ), ("CannedFunction, CannedPartial, CannedArray, ...", CN)], ["arguments of pack_apply_message", "results of unpack_apply_message"])

prop("C06", "Retrieving, resubmitting and purging requests by id is exact",
 "What clients are told of requests by id (status, results, errors, output, metadata, history, queries) is what was true of exactly those requests at some moment of the call, for any client, in the order asked, whether or not results are cached, came late, or were purged elsewhere; unknown ones are refused, and what is finished is there. Resubmitting runs the same call as new requests and leaves the old ones as they are. Purging removes exactly the finished results that it names, from the hub or the client, or refuses and removes nothing.",
 ["histories", "schedules"], "random and model-generated histories of requests, retrievals, status and database queries, resubmissions and purges by two clients while results, output, deaths of engines and answers of the hub are under way, on both databases",
 "Tests retrieve one finished request on an idle cluster; mixtures of local, outstanding, remote, failed and purged requests, and answers that cross results, are not reached.",
 [CL, AR, HUB], [("Client.get_result / result_status / resubmit / purge_*", CL), ("AsyncHubResult", AR), ("get_results, resubmit_task, purge_results, db_query, get_history", HUB)], ["answers to retrievals, queries and purges", "records of the hub", "runs on engines"])

prop("X01", "Without the cluster's key nothing can be caused",
 "Whoever is connected to the cluster's ports but cannot sign with its key causes nothing: no code runs, no engine is registered or removed or shut down, no request is recorded, purged, resubmitted, aborted or answered, no result, output or notification reaches a client's futures, tables and metadata. This holds for unsigned, wrongly signed, altered and malformed messages sent to the controller, the schedulers, the engines and the clients. Everything that the holders of the key do goes on as if those messages did not exist.",
 ["inputs", "schedules"], "unsigned, wrongly signed, altered, truncated and undelimited messages of every kind (requests, replies, registrations, heartbeat reports, monitor reports, outputs, notifications, control messages), at any port and any moment of random histories of clients, engines and deaths",
 "The tests never send a message that is not genuine while a cluster is working; a check left out in one handler changes nothing for honest users.",
 [HUB, TS, BC, CL, "ipyparallel/engine/kernel.py"], [("Hub.dispatch_query, dispatch_monitor_traffic and handlers", HUB), ("TaskScheduler.dispatch_submission / dispatch_result / dispatch_notification", TS), ("BroadcastScheduler.dispatch_submission / dispatch_result", BC), ("unpack_message", CL)],
 ["runs on engines", "records of the hub", "results, outputs and tables of clients"])

prop("L01", "Start, stop, restart and signal act on exactly the right processes",
 "A start launches exactly the processes asked for, with the cluster's environment and its controller's connection info, or fails and leaves none behind; stopping returns when everything it is about has ended, terminating first and killing only after the grace period; a restart gives the same set of the same size; a signal reaches every running process of the sets it is about. No call touches any other process, also when calls overlap, processes die at any moment or cannot be launched. Whoever waits for the end of a component is told once, after all its processes have ended, with their exit code, and no process is left running that no Cluster object manages.",
 ["inputs", "schedules", "fault_sequences"], "one or two managing objects, a controller and sets of 1-3 engines, overlapping calls, deaths at any moment, processes that ignore signals, failing launches, connection files that come late, half-written or never",
 "The tests start real processes one way each; overlapping calls, deaths between two steps of a call and failing launches are not tried.",
 [CLU, LAU], [("Cluster.start_controller / start_engines / stop_engines / restart_engines / signal_engines / stop_cluster", CLU), ("LocalProcessLauncher, LocalEngineSetLauncher", LAU)],
 ["processes", "signals", "on_stop notifications"])
prop("L02", "The cluster file follows what runs, so that another process can take over",
 "At every moment a reader finds the cluster file complete, with every component that runs and none that is known to have ended, and finds no file when nothing runs. When the launching process is gone, Cluster.from_file and ClusterManager.load_clusters give an object with exactly the controller and engines that still run, which it can stop, signal, restart and be told about. clean_cluster_files refuses while anything of the cluster runs, and removes everything otherwise.",
 ["schedules", "crash_points"], "the file as seen at every executed line of cluster.py; crashes of the managing process between any two steps, followed by deaths of any of the processes and up to several takeovers",
 "The tests look at the file after each call and load it from a fresh object once; they do not look in between, and nothing crashes.",
 [CLU, LAU], [("Cluster.to_dict / from_dict / update_cluster_file / from_file", CLU), ("ClusterManager.load_clusters, clean_cluster_files", CLU), ("LocalEngineSetLauncher.from_dict / to_dict", LAU)],
 ["cluster file", "processes", "on_stop notifications"])

LN = {}
exec(open(os.path.join(ROOT, "tools", "levels.py")).read())
TECH = "TLA+ specification checked with TLC; executions of the real code validated against it (trace validation)"

def emit():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in P:
        i = p["id"]
        if i in NA:
            continue
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH,
                       "level": "model_checking", "level_note": LN[i]})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
         "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
         "notes": "TLA+ specifications in specs/, drivers of the real code in harness/, one check per property through check.py. No hooks in /repo are needed: the drivers observe the public streams and APIs."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

if __name__ == "__main__":
    emit()
