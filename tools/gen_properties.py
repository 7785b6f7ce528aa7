"""Writes properties.jsonl (kept as a program so that the texts stay readable)."""
import json, os

P = []

def prop(id, title, statement, over, quant, why, files, mech, observe, state=None):
    anchors = {"files": files,
               "mechanism": [{"name": n, "where": w} for n, w in mech],
               "observe_at": observe, "hook_needed": None}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(quant.split())},
              "why_tests_cant": " ".join(why.split()), "anchors": anchors})

E = "src/docket/execution.py"
D = "src/docket/docket.py"
W = "src/docket/worker.py"
DEP = "src/docket/dependencies/"

prop("C01", "No accepted task is ever lost",
 """Once add or replace reports a task as scheduled, the task runs to its final outcome at least once after its due time,
 however workers crash, stall, lose connections or are restarted, and however Redis connections drop or scripts are flushed, as long as
 one worker that knows the task eventually stays up. The only excuses are a later cancel, replace, clear or strike of that key.""",
 ["schedules", "crash_points", "fault_sequences"],
 "every interleaving of clients, workers, schedulers and lease timers, every worker crash point between or inside Redis commands, every sequence of connection faults",
 "Tests run one worker with no crashes between commands; loss needs a crash, lease expiry or lost reply at a particular point of the deliver-claim-run-acknowledge sequence.",
 [E, D, W],
 [("atomic schedule script", E + " _schedule"), ("claim script", E + " _claim"), ("terminal script acknowledging the message", E + " _terminal"),
  ("due-task mover", W + " _stream_due_tasks"), ("redelivery", W + " get_redeliveries")],
 ["start and end of task bodies", "status returned by add/replace"],
 [("stream, queue, parked hash, runs hash", "where a waiting task lives", D)])

prop("C02", "Each schedule runs exactly once when no worker fails",
 """While no worker process crashes or stalls beyond its redelivery timeout and Redis stays reachable, every accepted schedule is executed exactly once per
 attempt across the whole fleet, including tasks that run much longer than the redelivery timeout and regardless of how many workers, schedulers and
 concurrent deliveries race. No execution ever happens that nobody scheduled, and each execution sees exactly the function and arguments it was scheduled with.""",
 ["schedules", "configurations"],
 "every interleaving of several workers' polling, scheduling, lease renewal and claiming; every latency; task durations up to many redelivery timeouts",
 "Duplicate execution depends on how lease renewal, autoclaim and several schedulers interleave; tests sample one timing of one worker.",
 [W, E], [("lease renewal", W + " _renew_leases"), ("due-task mover", W + " _stream_due_tasks"), ("claim", E + " _claim")],
 ["task body starts per schedule and attempt"])

prop("C03", "Tasks never start early and start promptly when due",
 """No execution starts before the time it was scheduled for (measured on the clocks of the processes involved, so at most the clock skew between them early), for adds, replaces,
 retries and reschedules alike. When an idle worker is available and Redis is reachable, a due task starts within a small bound of polling intervals after its due time.""",
 ["schedules", "inputs", "configurations"],
 "every due time relative to polling, every number of workers and tasks in the queue, clock skew between processes",
 "Tests check a handful of due times with one worker on the real clock.",
 [W, E], [("due-task mover", W + " _stream_due_tasks"), ("immediate or future decision", E + " Execution.schedule")],
 ["task start times against scheduled times"])

prop("C04", "At most one live task per key, and dispositions are truthful",
 """While a task with a given key is waiting or running, adding that key again changes nothing and is reported as already scheduled; when no such task exists the add
 is accepted and reported as scheduled. Of any number of concurrent adds of one key exactly one is accepted, and the accepted one's function and arguments are what runs.
 (Dispositions are as seen by callers whose own connection does not fail during the call: a client library that resends an add after a lost reply learns of its own first attempt.)""",
 ["schedules", "histories"],
 "every interleaving of adds, replaces, cancels from several clients with the task's own scheduling, delivery, retry and completion",
 "Needs linearizability over concurrent clients and workers; tests issue operations one after another.",
 [E], [("existence check and write in one script", E + " _schedule"), ("known cleared at claim", E + " _claim")],
 ["Disposition of add", "task body starts"], [("known / state fields", "whether a live task holds the key", E)])

prop("C05", "A replacement supersedes the waiting task and always takes effect",
 """After a replace is acknowledged, the task waiting under that key before it never starts, and the replacement runs with the replacement's function, arguments and time.
 A task already running when it is replaced is left to finish without disturbing its replacement: it neither cancels, delays forever, overwrites the record of, nor consumes it.""",
 ["schedules", "histories", "crash_points"],
 "every point of the old task's life at which the replace lands: parked, queued, delivered but unclaimed, running, retrying, finishing",
 "Tests replace a task parked in the future; the races with delivery, retry and completion need controlled interleaving.",
 [E, D], [("replace branch", E + " _schedule"), ("generation check", E + " _claim / _terminal")],
 ["task body starts and arguments", "final state of the key"])

prop("C06", "A cancelled task does not run, and its key is usable again",
 """After cancel of a waiting task is acknowledged that task never starts, whether it was parked, queued, or already delivered to a worker; cancelling a running task
 interrupts it and records it as cancelled, or has no effect if it finishes first. A task added under that key after the cancel is accepted and runs normally, and cancel of
 one key never affects another key's task.""",
 ["schedules", "histories"],
 "every point of the task's life at which the cancel lands, every interleaving of re-adds with the cancellation's delivery",
 "Tests cancel parked tasks or running tasks at one fixed moment.",
 [D, W, E], [("cancel script", D + " _cancel_task"), ("cancellation listener", W + " _handle_cancellation"), ("claim check", E + " _claim")],
 ["task body starts and interruptions", "recorded state"])

prop("C07", "Retries follow their policy exactly",
 """A failing task is retried until it succeeds or its configured number of attempts is used up, never more and never fewer; attempts are numbered consecutively from 1, each starts no earlier than the policy's
 delay (fixed, exponential within its bounds, or the one the task asked for) after the failure, and an unlimited policy never gives up. A retried task
 is never also reported as failed until its last attempt fails.""",
 ["schedules", "inputs", "histories"],
 "every number of failures, every delay policy, concurrent replace/cancel, and delivery interleavings",
 "Tests cover a few attempts with zero delays.",
 [DEP + "_retry.py", E, W], [("retry handlers", DEP + "_retry.py handle_failure"), ("reschedule branch", E + " _schedule")],
 ["attempt numbers and times of task body starts", "recorded states"])

prop("C08", "A perpetual task is one unbroken chain",
 """A perpetual task that finishes, by success or by failure, is scheduled again for its interval later (or the interval and arguments it asked for), so that the chain continues for as long as workers run, surviving
 worker crashes and connection faults; at no time does one key have two chains, and no run starts before its due time.
 The chain ends only when the task cancels itself or is cancelled, and a replacement made from outside while it runs wins over its own rescheduling.""",
 ["schedules", "crash_points", "fault_sequences"],
 "every crash point around completion and rescheduling, every race with replace/cancel from outside",
 "Tests run a few iterations without faults.",
 [DEP + "_perpetual.py", W, E], [("completion handler", DEP + "_perpetual.py on_complete"), ("supersession check", E + " is_superseded")],
 ["start times of the chain's runs, arguments"])

prop("C09", "Automatic perpetual and cron tasks have exactly one live chain",
 """However many workers start, crash and restart concurrently, each automatic perpetual task has exactly one chain across the fleet, is started without anyone adding it, and is
 started again within a bounded time when its chain has been lost. Cron tasks run at the wall-clock times of their expression in their timezone: never at any other time, and no occurrence twice.""",
 ["schedules", "crash_points", "inputs"],
 "every concurrent start-up of workers, every way of losing a chain, every cron expression and timezone transition in the simulated window",
 "Tests start one worker and check the first run.",
 [W, DEP + "_perpetual.py", DEP + "_cron.py"], [("seeding under a lock", W + " _schedule_all_automatic_perpetual_tasks"), ("cron schedule", DEP + "_cron.py")],
 ["start times of chain runs"])

prop("C10", "Concurrency limits are never exceeded and waiters always proceed",
 """At any moment no more than the configured number of tasks with the same concurrency key (per task, per argument value, or per shared scope) are running across all workers, unless
 a slot holder's process has died or stalled past its lease. Every task held back by a full limit eventually runs exactly once when slots free up, crashes included, and
 cancelled or replaced waiters neither run nor block others.""",
 ["schedules", "crash_points", "fault_sequences"],
 "every interleaving of acquisition, release, parking, waking, lease expiry, cancel and crash over several workers",
 "Over-admission and stuck waiters need two workers racing between acquire, release and wake or a crash while holding a slot.",
 [DEP + "_concurrency.py", W], [("acquire or park script", DEP + "_concurrency.py"), ("release and wake script", DEP + "_concurrency.py"), ("scavenging of expired holders", DEP + "_concurrency.py")],
 ["overlap of running task bodies per key", "completion of every waiter"], [("slots sorted set, waiters stream", "holders and parked waiters", DEP + "_concurrency.py")])

prop("C11", "Rate limits hold in every window and excess tasks follow the policy",
 """For every rate-limited key, at most the configured number of executions start in any sliding window of the configured length, across all workers. Tasks over the limit
 are run later (each exactly once, as soon as the window allows within a bound) or, when dropping is configured, are dropped and recorded as cancelled; tasks of other keys are unaffected.""",
 ["schedules", "inputs"],
 "every arrival pattern and interleaving over several workers",
 "Tests check one worker with one burst.",
 [DEP + "_ratelimit.py", W], [("sliding window script", DEP + "_ratelimit.py")], ["start times per key"])

prop("C12", "A cooldown admits at most one execution per window",
 """For every cooldown key, two executions never start within the configured window of one another, across all workers; tasks arriving inside the window are
 dropped and recorded as cancelled, the first task after the window is admitted, and other keys are unaffected.""",
 ["schedules", "inputs"], "every arrival pattern and interleaving over several workers",
 "Tests check one burst on one worker.",
 [DEP + "_cooldown.py", W], [("SET NX with expiry", DEP + "_cooldown.py")], ["start times per key"])

prop("C13", "A debounce runs once, after things have settled",
 """For every debounce key, a burst of submissions leads to exactly one execution, which starts only after no submission arrived for the settling period; it is never
 lost (however submissions interleave, and once worker crashes stop), the others are dropped, and bursts separated by more than the settling period each get an execution.""",
 ["schedules", "inputs", "crash_points"], "every arrival pattern and interleaving over several workers, crashes of the worker holding the winner",
 "Tests check one burst on one worker.",
 [DEP + "_debounce.py", W], [("settle script", DEP + "_debounce.py")], ["start times per key"])

prop("C14", "Strikes converge on every process and are enforced",
 """Strikes and restores take effect in one total order: once faults and submissions stop, every connected docket and worker agrees on what is stricken, including processes that joined later or lost their connection for a while.
 Once a strike has been acknowledged and has reached a process, that process neither accepts nor starts a matching task, non-matching tasks are never affected, and after the restore matching tasks run again.""",
 ["schedules", "histories", "fault_sequences"], "every order of strikes and restores from several clients, joins, reconnections",
 "Tests use one client and one worker with strikes issued long before tasks.",
 ["src/docket/strikelist.py", D, W], [("strike stream monitor", "src/docket/strikelist.py _monitor_strikes"), ("enforcement at add and at start", D + " add, " + W + " _execute")],
 ["is_stricken-visible behaviour: dispositions and starts"])

prop("C15", "States move legally and get_result returns that run's outcome",
 """The published and stored state of a key moves only forward through scheduled, queued, running to exactly one terminal state per run (back to scheduled or queued only for a retry, a redelivery or a new schedule), and the terminal
 state matches what the task body did. get_result called at any time returns the value, or raises the exception, of that task's final attempt, raises on cancellation, and always returns within a
 bounded time after the task ends or at its timeout.""",
 ["schedules", "crash_points", "fault_sequences"], "every interleaving of a waiter's subscription with the task's life, every fault",
 "A lost wake-up needs the completion to land between the waiter's read and its subscription.",
 [E, W], [("get_result", E), ("terminal script", E + " _terminal")], ["published state events", "get_result outcomes"])

prop("C16", "Progress is exact and never leaks between runs",
 """While their connection to Redis holds, the progress increments made by a running task are never lost or applied twice, reading progress returns the values of the current run only (never a previous run's), a subscriber that is
 connected sees every progress and state event in order and always learns of the end, and progress is removed when the run ends.""",
 ["schedules", "histories"], "every interleaving of updates with readers, replacement runs and stale attempts",
 "Tests update from one place with no concurrent runs.",
 ["src/docket/_execution_progress.py", E, DEP + "_progress.py"], [("progress hash tagged by generation", E + " _claim, _terminal"), ("increment", "src/docket/_execution_progress.py")],
 ["progress fields and events"])

prop("C17", "Workers survive faults, drain on shutdown and respect concurrency",
 """A worker asked to run forever never silently stops working: after any connection loss, Redis restart or task failure it resumes executing tasks within a bounded time, or stops with an error so that
 its supervisor can start it again; task failures never stop it. On a shutdown request it
 starts no further task, lets its running tasks finish and acknowledges them, and then exits within a bounded time; it never runs more tasks at once than its concurrency,
 and run_until_finished and run_at_most return exactly when no work remains or the given number of runs has been made.""",
 ["schedules", "fault_sequences", "configurations"], "every fault sequence and shutdown moment",
 "Tests stop idle workers or inject a single exception by mocking.",
 [W], [("reconnect loop", W + " _run"), ("drain", W + " _worker_loop"), ("bounded runs", W + " run_at_most")], ["worker process liveness", "concurrent body count", "return of run_*"])

prop("C18", "The worker registry reflects who is alive",
 """A worker that is up and connected is listed, with the tasks it knows, within one heartbeat interval and stays listed; a worker that stopped gracefully disappears at once and
 one that crashed disappears within the allowed number of missed heartbeats. Lookups by task list exactly the live workers that know the task.""",
 ["schedules", "fault_sequences"], "every start, crash, stop and outage sequence", "Tests wait one heartbeat with one or two healthy workers.",
 [W, D], [("heartbeat", W + " _heartbeat"), ("removal", W + " _remove_heartbeat"), ("lookups", D + " workers, task_workers")], ["docket.workers / task_workers"])

prop("C19", "Timeouts bound every execution and nothing else",
 """A task with a timeout that exceeds it is interrupted within a bound of the deadline (the extended one, when the task extended it) and treated as failed with a timeout error, so that its retry policy applies; a task that finishes in time,
 fails by itself or is cancelled is unaffected, each attempt gets a fresh timeout, and the worker goes on working.""",
 ["schedules", "inputs"], "every duration, extension moment, cancellation race", "Tests check one overrun and one extension.",
 [DEP + "_timeout.py", W], [("timeout runtime", DEP + "_timeout.py run")], ["end times and recorded outcomes"])

prop("C20", "Dependencies are entered once and always released",
 """Each execution receives its declared dependencies resolved once per execution, each released exactly once, in reverse order, after the task body ended, whatever the outcome: success, failure, timeout, cancellation,
 rejection by admission control, or failure of another dependency. Shared dependencies are created at most once per worker, even under concurrent first use, and released once when
 the worker stops; a failing dependency fails only its own execution.""",
 ["schedules", "crash_points", "inputs"], "every interleaving of concurrent executions, cancellation at every await, failures at enter, body and exit",
 "Tests resolve dependencies sequentially with a few outcomes.",
 [DEP + "_resolution.py", DEP + "_functional.py", W], [("resolution", DEP + "_resolution.py"), ("shared context", DEP + "_functional.py")], ["enter and exit events of dependencies"])

prop("C21", "Nothing is left behind in Redis",
 """When all tasks have ended and the retention time has passed, no key belonging to any of those tasks remains in Redis and no message is pending or left in the stream, whatever faults happened on the way; with a retention of zero
 this holds as soon as the tasks have ended. While a task is waiting or running its record never expires.""",
 ["schedules", "crash_points", "fault_sequences"], "every task history with faults, retention settings", "Tests check key leaks on happy paths only.",
 [E, D, W], [("terminal script TTLs", E + " _terminal"), ("cancel", D + " _cancel"), ("progress removal", E)], ["keys in Redis after quiescence"])

prop("C22", "Scattered agendas place every task inside the window",
 """Scattering an agenda schedules every one of its tasks exactly once, in the order and at the times spread evenly over the requested window, each jittered by no more than the requested amount and never before
 the window starts; if scheduling fails midway the caller sees the error and whatever was reported as scheduled runs.""",
 ["inputs", "schedules", "fault_sequences"], "every agenda size, window, jitter and random draw; faults during the scatter", "Tests sample a few sizes with wide tolerances.",
 ["src/docket/agenda.py"], [("scatter", "src/docket/agenda.py scatter")], ["scheduled times and task starts"])

prop("C23", "Clear removes exactly the waiting tasks",
 """After clear is acknowledged none of the tasks that were waiting (scheduled or queued) when it was called ever starts, it reports how many it removed, running tasks finish undisturbed and keep their record, tasks added after
 it run normally, and every cleared key can be added again at once.""",
 ["schedules", "histories"], "every interleaving of clear with adds, deliveries, running tasks", "Tests clear a docket with no worker running.",
 [D], [("clear", D + " clear")], ["task starts after clear", "returned count"])

prop("C24", "Snapshots are accurate",
 """A snapshot of a docket taken while nothing changes lists every waiting task exactly once as future and every started task as running with the right key, function, arguments, due time, start time and worker, with exact totals
 (of a docket with up to 1000 queued tasks whose functions it knows); taken while things change it never invents a task or misreports one's identity, and always returns.""",
 ["schedules", "histories"], "every state of the docket and every interleaving with concurrent changes", "Tests take snapshots of hand-built states.",
 ["src/docket/_docket_snapshot.py"], [("snapshot", "src/docket/_docket_snapshot.py")], ["snapshot contents"])

prop("C25", "Dockets of different names never affect one another",
 """Two dockets with different names on one Redis (neither name being the other one followed by a colon), whatever their keys and tasks, are isolated: operations on one (add, replace, cancel, clear, strike, admission limits, perpetual seeding, worker
 registry, results) never change what the other accepts, runs, reports or limits.""",
 ["inputs", "schedules"], "every pair of names, equal task keys and concurrency keys, all control operations", "Tests use one docket at a time.",
 [D, "src/docket/_redis.py"], [("key prefix", D + " key")], ["behaviour of docket B with and without traffic on A"])

prop("C26", "The guarantees hold on Redis Cluster and through Sentinel failover",
 """On a Redis Cluster every multi-key operation stays within one slot and tasks flow as on a standalone server; with Sentinel, clients and workers follow the current master after a failover and
 resume executing accepted tasks that the new master knows, within a bounded time and without being restarted.""",
 ["configurations", "fault_sequences"], "every docket name and task key, every failover moment", "Tests need real clusters and failovers at chosen moments; the suite mostly uses one in-memory server.",
 ["src/docket/_redis.py", "src/docket/_redis_sentinel.py"], [("hash-tagged prefix", "src/docket/_redis.py prefix"), ("sentinel connection pool", "src/docket/_redis_sentinel.py")], ["CROSSSLOT errors", "task starts after failover"])

prop("C27", "Pure parsing helpers accept and reject the right inputs",
 """Durations, operators, values and task references given on the command line are parsed to the value they denote or rejected with a clear error.""",
 ["inputs"], "every command-line string", "Tests sample a few strings.",
 ["src/docket/cli"], [("parsers", "src/docket/cli")], ["parsed values"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
