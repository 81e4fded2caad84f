import json
P=[]
def p(id,title,statement,over,text,why,files,mechanism,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mechanism],observe_at=observe or ["messages in and out of the broker handler","frontend status notifications"],hook_needed=None)))
H="src/handlers/broker_handler.cpp"; S="src/queuing/single_queue_manager.h"; M="src/queuing/multi_queue_manager.cpp"; R="src/reactor/reactor.cpp"
HST=["histories","schedules","inputs"]
p("C01","Every accepted job ends in exactly one final report",
 "Once a client's evaluation request has been accepted, the job stays with the broker (waiting, or running on a worker) until exactly one final result, OK or FAILED, is reported to the frontend for it. It is never dropped silently, never reported twice and never sent to a worker again after it has been reported. This holds for both queue managers and for every sequence of results, failures, worker deaths and re-registrations.",
 HST+["fault_sequences"],"all histories of eval/init/done/ping messages and elapsed time, any number of jobs and workers, both queue managers",
 "The tests run single scripted exchanges of at most three messages, all with the multi-queue manager; no test follows a job through several failures or drains the system.",
 [H,S,M],[("accept only after a successful enqueue","process_client_eval"),("report on done/FAILED/limit/expiry","process_worker_done, process_timer, check_failure_count"),("queue managers hand every job over exactly once","enqueue_request, worker_finished, worker_terminated")])
p("C02","One job per worker and one worker per job",
 "A job is only ever sent to a currently registered worker that has no unfinished job of its own, and one accepted job is never in the hands of two registered workers at the same time. A worker is busy from the moment a job is sent to it (or it declares one when registering) until it reports that job's result or is declared dead.",
 HST+["fault_sequences"],"all histories of messages and elapsed time, both queue managers",
 "Needs sequences mixing retries, expirations and re-registrations; the tests never observe more than one dispatch decision in a row.",
 [H,S,M],[("current request per worker","worker_jobs_ / current_requests_"),("assignment only to an idle worker","enqueue_request, assign_request")])
p("C03","Jobs go only to workers that meet all their requirements",
 "Whenever a job is sent to a worker, the worker's declared capabilities satisfy every requirement of the job: the worker's hardware group equals one of the '|'-separated alternatives requested, its declared thread count is at least the requested one, and every other requested header equals one of the values the worker declares under that name. A worker satisfies a request exactly when each single requirement is satisfied; a requirement naming something the worker does not declare is not satisfied.",
 ["inputs","histories"],"all header sets (names, values, repeated names, several requirements) of workers and requests, for first dispatches as well as for queued and retried jobs",
 "The tests try a dozen fixed header pairs on one worker and never check the worker chosen for queued or reassigned jobs among workers of different capabilities.",
 ["src/worker.cpp",S,M,H],[("check_headers / header matchers","src/worker.cpp"),("selection of a worker for a job","first_idle_worker_selector, assign_request, multi enqueue_request")])
p("C04","Every evaluation request gets one ack and one correct verdict",
 "A well-formed evaluation request is answered to its sender, and only to it, with 'ack' followed by exactly one verdict: 'accept' if the broker is not frozen and some registered worker satisfies all the request's requirements, 'reject' with a reason otherwise. A rejected job is never sent to a worker and never reported to the frontend as a job status.",
 ["inputs","histories"],"all requests in all broker states (workers coming and going, busy or idle, frozen or not), any number of clients",
 "Tests accept or reject one request against one fixed worker; admission after deaths, with only busy workers, or with several clients is not exercised.",
 [H,S,M],[("ack, then accept/reject","process_client_eval"),("assignability of the request","is_request_assignable, multi enqueue_request")])
p("C05","No worker idles while a job waits for it",
 "After the broker has handled any message or timer event, no registered worker without a job is left idle while a job waits that it should be running: with the single-queue manager any waiting job the worker satisfies, with the multi-queue manager any job waiting in that worker's own queue. In particular a job that finds a suitable idle worker on arrival (single) or whose chosen worker is idle (multi) is sent at once.",
 HST+["fault_sequences"],"all histories, both queue managers",
 "A stuck queue only shows after particular combinations of failures, adopted jobs and queue contents; the tests check the next job only after a plain success or failure with one worker.",
 [H,S,M],[("assignment of a next job after done/init","process_worker_done, process_worker_init"),("direct assignment on arrival","enqueue_request")])
p("C06","Waiting jobs are served first come, first served",
 "When a worker becomes free (or registers) and is given a waiting job, it is the job that has been waiting longest among those it may take: with the single-queue manager among all waiting jobs whose requirements it satisfies, with the multi-queue manager among those in its own queue. The order is that of (re-)entering the queue, however many jobs wait and however close together they arrived.",
 ["histories","schedules","inputs"],"all queue contents of any length, all arrival patterns including many arrivals within one clock tick",
 "Tests never have more than two waiting jobs, so neither ordering among many nor skipping of unsuitable jobs is observed.",
 [S,M,H],[("sort by arrival and first match","single_queue_manager::assign_request"),("FIFO queue per worker","multi_queue_manager queues_")])
p("C07","Failed attempts are retried up to the configured limit only",
 "An attempt fails when the worker running the job reports an internal error or is declared dead; the job is then given to the workers again unless the number of its failed attempts has reached max_request_failures, in which case it is reported FAILED right away and never sent again. A job is therefore sent at most max(1, max_request_failures) times, and a job whose worker reports OK or FAILED is never retried. Time spent only waiting in a queue does not count as a failed attempt.",
 HST+["configurations","fault_sequences"],"all sequences of internal errors and worker deaths, all limits, both queue managers",
 "The tests exercise one internal error with limit 10 and one expiration with a preset counter; nothing follows a job across several failures of mixed kinds.",
 [H],[("failure counter","request::failure_count"),("limit check","check_failure_count")])
p("C08","A worker is declared dead exactly when it stays silent too long",
 "A registered worker is declared dead only after it has sent nothing for more than one ping interval max_liveness times in a row, and it is declared dead as soon as that has happened. Any message from the worker starts the count anew, including the registration itself; messages of other peers do not affect it.",
 ["schedules","histories","configurations"],"all interleavings of messages and timer events with arbitrary elapsed times, all ping intervals and liveness limits",
 "Tests feed one timer message to a worker whose liveness was set to 1 by hand.",
 [H],[("liveness countdown and timers","process_timer"),("reset on every message","on_request")],observe=["registered workers after each event","pong/intro replies"])
p("C09","Jobs of a dead worker are re-homed or reported in the same step",
 "When a worker is declared dead, each job it was running or that can no longer be processed without it is, in the same step, either given to or queued for a surviving worker that satisfies it, or reported FAILED to the frontend. Nothing is sent to a dead worker until it registers again, and no waiting job is ever left without a registered worker that satisfies it.",
 HST+["fault_sequences"],"all histories including several workers dying at the same moment, both queue managers",
 "Tests let one worker die that holds one job; simultaneous deaths, queues of the dead and chains of deaths are not reached.",
 [H,S,M],[("collecting and reassigning requests","process_timer, reassign_request"),("worker_terminated","queue managers")])
p("C10","Stale and foreign results change nothing",
 "A 'done' message from a peer that is not registered, or for a job other than the one the sender is currently running (including when it runs none), or that is incomplete or carries an unknown status, is ignored: no report, no dispatch, no change to any job or worker.",
 ["inputs","histories"],"all done messages in all states",
 "The tests only send matching results from known workers.",
 [H],[("identity, arity and job id checks","process_worker_done")])
p("C11","Freezing stops admission and nothing else",
 "From a freeze request until the next unfreeze, every evaluation request is rejected; after an unfreeze (and initially) admission works normally. Each freeze and unfreeze is acknowledged to its sender, repeated ones are harmless, and freezing does not affect workers or jobs already accepted: waiting jobs are still dispatched, retried and reported.",
 ["histories","inputs"],"all interleavings of freeze/unfreeze with every other message",
 "One test freezes once and never unfreezes; nothing checks already accepted work while frozen.",
 [H],[("is_frozen_ flag","process_client_freeze, process_client_unfreeze, process_client_eval")])
p("C12","No message can bring the broker down",
 "Whatever frames a client or a worker sends (missing or surplus frames, unknown commands, malformed or non-numeric headers, results without a job), the broker neither terminates nor performs an invalid memory access, and it goes on serving all peers. A malformed message has no effect on other peers' jobs.",
 ["inputs","histories"],"all message contents in all states",
 "Tests send only well-formed messages.",
 [H,"src/worker.cpp","src/reactor/command_holder.cpp",S,M],[("argument checks","process_* functions"),("unknown commands are ignored","command_holder::call_function")])
p("C13","Workers are known by identity, with their latest capabilities",
 "At most one registration exists per worker identity. A ping from a registered worker is answered 'pong', from any other peer 'intro'; 'init' from an unknown identity registers it, 'init' repeating the same capabilities changes nothing, and 'init' with different capabilities replaces the old registration (whose job is then handled like that of a dead worker unless the worker declares it is still running it) and reports an error to the frontend.",
 ["histories","inputs"],"all sequences of init, ping and expiration for any set of identities",
 "Tests cover one first init and one identical repeated init.",
 [H,"src/worker_registry.cpp","src/worker.cpp"],[("lookup by identity","worker_registry"),("init handling","process_worker_init")])
p("C14","Workers receive jobs exactly as the client submitted them",
 "A job sent to a worker consists of 'eval', the job id and then exactly the frames the client put after the header terminator, in order and byte for byte, at the first and at every later attempt. Headers and metadata are never part of it.",
 ["inputs","histories"],"all payloads (any number, content and length of frames, including empty ones), all attempts",
 "Tests check one payload of two frames on the first dispatch.",
 [H,"src/worker.h"],[("job_request_data","src/worker.h"),("send_request","broker_handler")])
p("C15","The monitor hears of progress and of every broker-side failure",
 "Progress messages of workers are forwarded to the monitor verbatim. For every job the broker rejects for want of a suitable worker or gives up because its worker died or the retry limit was reached, the monitor is sent FAILED for that job; for every job moved on from a dead worker it is sent ABORTED. The monitor is sent nothing else.",
 HST,"all histories",
 "Tests check single notifications in single-step scenarios.",
 [H],[("notify_monitor","broker_handler"),("progress forwarding","process_worker_progress")])
p("C16","Runtime statistics tell the truth",
 "The reply to get-runtime-stats goes to the asking client and lists the number of jobs evaluated (results OK) and failed (results FAILED or internal error) so far and whether the broker is frozen, as of now, and the number of waiting jobs, of registered workers, of idle workers and of jobs in progress as of the last timer event. Every listed name is followed by its value.",
 ["histories"],"all histories, statistics requested at any point",
 "No test looks at the statistics.",
 [H],[("runtime_stats_","broker_handler"),("recount on each timer event","process_timer")])
p("C17","The reactor delivers every message once, in order, to each subscriber",
 "Every message received on a registered socket is handed exactly once to every handler subscribed to that origin, and messages of one origin reach a handler in the order they were received, whether the handler is synchronous or asynchronous, however slow it is, however many messages are pending, and from the very first message on. Responses of handlers go to the addressed socket or handler once and in the order given; a slow asynchronous handler does not delay the other handlers; after termination is requested the loop ends.",
 ["schedules","inputs","histories"],"all interleavings of the loop with handler threads, all message contents, any backlog",
 "The reactor tests are flaky and excluded; they use fixed sleeps, 100 identical messages and instantly returning handlers.",
 [R,"src/reactor/reactor.h"],[("poll loop and dispatch","reactor::start_loop, process_message"),("in-process sockets to handler threads","asynchronous_handler_wrapper")],observe=["calls of handlers","messages arriving at socket peers"])
p("C18","Messages cross the sockets whole and only to the addressee",
 "A message sent to a peer arrives at that peer and no other, with exactly its frames in order, byte for byte (also empty frames and binary identities), and a message from a peer is received with that peer's identity and exactly its frames. Messages without frames or to unknown peers are dropped without disturbing any other message.",
 ["inputs","histories"],"all message contents, all sequences of sends to known, unknown and vanished peers",
 "No test uses the router socket.",
 ["src/reactor/router_socket_wrapper.cpp","src/reactor/socket_wrapper_base.cpp"],[("router framing","router_socket_wrapper::send_message/receive_message")],observe=["frames at the peers"])
p("C19","Each status notification is posted until it succeeds or tries run out",
 "For every notification exactly one HTTP POST succeeds if any of its first four attempts succeeds; failed attempts (connection errors or HTTP status 400 and above) are repeated after waiting 1, 2 and 4 seconds, there is no attempt after a success, and after four failures the notification is given up and the next one is processed. Each attempt goes to the configured address extended by the notification type and job id, carries exactly the reported fields and values whatever characters they contain, and the configured credentials.",
 ["fault_sequences","inputs"],"all sequences of attempt outcomes, all notification types and contents",
 "No test runs the notifier.",
 ["src/handlers/status_notifier_handler.cpp","src/helpers/curl.cpp","src/notifier/reactor_status_notifier.cpp"],[("retry loop","status_notifier_handler::on_request"),("curl_post","src/helpers/curl.cpp")],observe=["HTTP requests at the frontend","sleeps"])
p("C20","Timer events add up to the time that really passed",
 "The elapsed times the reactor announces in its timer events add up to the real time since the loop started, up to the length of one poll cycle, no matter how many messages arrive and how long handlers take. Timer events keep coming while the loop runs, at least every poll timeout when nothing happens.",
 ["schedules"],"all message loads and handler run times",
 "The only timer test (flaky, excluded) checks that at most one event came.",
 [R],[("elapsed time measurement","reactor::start_loop")],observe=["timer messages delivered to a handler"])
p("C21","The configuration file decides every setting",
 "Every documented configuration item that is present with a valid value is in effect with exactly that value, every omitted one (or section) leaves its default, independently of the others; a document that is not a map, or a scalar value that is not convertible to its item's type, is reported as a configuration error. (An item given as a list or map instead of a scalar, or a section that is not a map, counts as omitted.) In particular the log is written to the configured file (however its path is given), holds the records of at least the configured level, and is kept in at most rotations older files of at most max-size bytes.",
 ["configurations","inputs"],"all combinations of present, omitted and invalid items",
 "Tests load one complete file and three invalid ones.",
 ["src/config/broker_config.cpp","src/config/broker_config.h","src/helpers/logger.cpp","src/broker_core.cpp"],[("item by item loading","broker_config::broker_config"),("log levels","helpers::get_log_level"),("log set-up","broker_core::log_init")],observe=["configuration getters"])
p("C22","Load is spread over the workers that can take it",
 "With the multi-queue manager each new or retried job goes to the worker, among those that satisfy it, that was least recently given a job (a newly registered worker counting as never given one), so that jobs with equal requirements go round all suitable workers in turn. With the single-queue manager a job never waits while any worker that satisfies it is idle.",
 HST,"all histories of arrivals, registrations and deaths",
 "Tests check two jobs on two fresh workers.",
 [M,S],[("rotation of worker_queue_","multi_queue_manager::enqueue_request"),("idle worker selector","first_idle_worker_selector")])
p("C23","The assembled program keeps its promises over the network",
 "Running as a whole with its sockets, threads, configuration and HTTP notifier, the broker gives clients, workers, the monitor and the frontend the specified conversation: accepted jobs reach a suitable worker over TCP unchanged, their results reach the frontend by HTTP, progress and failures reach the monitor, silent workers are expired and their jobs moved on, and the configured queue manager is used. With a missing or invalid configuration or an unknown queue manager it ends with an error status instead of serving.",
 ["schedules","histories","configurations"],"all interleavings of several clients and workers talking to one broker process",
 "No test links or runs the program; even the wiring of sockets and handlers is untested.",
 ["src/broker_connect.cpp","src/broker_core.cpp","src/main.cpp",R,"src/reactor/router_socket_wrapper.cpp"],[("wiring of sockets and handlers","broker_connect::broker_connect"),("queue manager selection","broker_core::broker_init")],observe=["TCP peers of the process","HTTP frontend"])
p("C24","A job declared by a registering worker is adopted, not repeated",
 "When a worker registers declaring a job it is already running, the broker counts it as that worker's current job: it sends the worker nothing until the worker reports the result, reports that result to the frontend under the declared job id, and then gives the worker further work. Since the broker does not know its contents it never sends such a job anywhere; if it fails internally or the worker dies, it is reported FAILED.",
 HST,"all histories with declared jobs, both queue managers",
 "Tests adopt a job with the multi-queue manager only and look at single steps.",
 [H,S,M],[("current_job at init","process_worker_init"),("incomplete requests","job_request_data::is_complete")])
p("C25","The broker says only what the protocol calls for",
 "Every message the broker emits is one the protocol calls for at that moment: replies go only to the peer that asked, jobs only to workers, job reports only for a job that just ended, errors only for conflicting registrations. Unknown commands, unterminated evaluation requests and timer events without an expiration produce no jobs, reports or notifications.",
 ["histories","inputs"],"all histories, all message contents",
 "Tests compare the output of single steps in a few states.",
 [H,"src/reactor/command_holder.cpp"],[("command dispatch","broker_handler::on_request, command_holder"),("responses","respond callback")])
p("C26","Groups of peers that share no jobs do not affect each other",
 "If no worker of one group satisfies any request of another group's clients, each group is served exactly as if the other did not exist: its clients and workers receive the same messages in the same order, the frontend and the monitor hear the same about its jobs, and the same workers run the same jobs after every event, whatever the other group's clients and workers do (submit, fail, die, re-register, send garbage). Only freezing, the statistics and the passing of time are common to all.",
 HST+["fault_sequences"],"all pairs of histories of two groups with disjoint identities, job ids and capabilities, and all their interleavings, both queue managers",
 "This is a statement about pairs of executions; the tests never run two groups of workers and never compare two runs.",
 [H,S,M,"src/worker_registry.cpp"],[("choice of a worker looks only at suitable workers","enqueue_request, assign_request"),("liveness is counted per worker","process_timer"),("state is kept per worker and per request","worker_timers_, current_requests_, queues_, jobs_")])
with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
