import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=['src_py/hat/event/'+f if not f.startswith('/') else f[1:] for f in files],
                   mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    P.append(d)

p('C01','Event type wildcard matching',
  "An event type is matched by a query type exactly when every subtype equals the corresponding query subtype, where '?' stands for exactly one arbitrary subtype and a trailing '*' for zero or more, and both are exhausted together otherwise. A subscription built from any list of query types matches an event type exactly when at least one of its query types does, regardless of the order, duplication or overlap of the list.",
  ['inputs'],"every event type and every set of query types (any order, any overlap, including '*' and '?'), for the Python and the C implementation",
  "Tests use a couple of dozen hand-written pairs; the quantifier ranges over all subtype lists and all lists of query types, where overlaps, order of insertion and shared prefixes matter.",
  ['common/matches.py','common/subscription/common.py','common/subscription/pysubscription.py','common/subscription/csubscription.py','/src_c/py/subscription/_csubscription.c'],
  [('recursive wildcard matching','common/matches.py'),('subscription trie and lookup','common/subscription/')],
  observe=['matches_query_type','create_subscription(...).matches'])

p('C02','Subscription set algebra is exact',
  "Union and intersection of subscriptions match exactly the event types matched by any, respectively all, of the operands, and two subscriptions are reported disjoint exactly when no event type is matched by both. The sanitised query types a subscription reports describe exactly the same set of event types as the subscription itself. Operands are never changed, and the results can be used in further operations with the same guarantees.",
  ['inputs'],"every tuple of subscriptions and every composition of operations on them, for the Python and the C implementation",
  "Unit tests check selected pairs of query types; correctness depends on the interplay of '*', '?' and literal branches in arbitrary pairs, and on compositions of operations.",
  ['common/subscription/common.py','common/subscription/pysubscription.py','common/subscription/csubscription.py','/src_c/py/subscription/_csubscription.c'],
  [('trie union / intersection','common/subscription/common.py'),('trie disjointness','common/subscription/pysubscription.py')])

p('C03','Event type collections return exactly the subscribed values',
  "At any point of any history of adding (subscription, value) pairs and removing values, looking up an event type in an event type collection yields exactly the values that have at least one added and not since removed subscription matching that event type. This holds for every collection implementation, for repeated and overlapping additions of the same value, and for re-adding after removal.",
  ['inputs','histories'],"every sequence of add/remove operations and every looked-up event type",
  "Tests add a few subscriptions once; overlapping additions of one value, and removal followed by re-adding, form an unbounded set of histories.",
  ['common/collection/pytree.py','common/collection/pylist.py','common/collection/common.py','common/collection/ctree.py','/src_c/py/collection/_ctree.c'],
  [('value tree','common/collection/pytree.py'),('value list with union','common/collection/pylist.py')])

p('C04','Timestamp arithmetic, conversions and natural event order',
  "Timestamp byte encoding is lossless and preserves order for every representable timestamp; conversion to and from datetime is lossless over the whole datetime range, conversion from float is exact to the microsecond, negative times included, and adding seconds yields a normalised timestamp equal to the exact sum. Natural order of events agrees with event id order for events of the same server and with timestamps for events of different servers, is irreflexive, and never holds in both directions for events whose relative order is determined.",
  ['inputs'],"every timestamp, datetime, float offset and pair of events, including negative, sub-second and boundary values",
  "Tests convert a few sample values; the defects live at sign changes, second boundaries and the extremes of the ranges.",
  ['common/encoder.py','common/common.py'],
  [('timestamp conversions','common/encoder.py'),('Timestamp.add, Event ordering','common/common.py')])

p('C05','Wire representation is lossless',
  "Every event, register event, query parameter set, query result, status and payload that can be constructed survives encoding to its serialised (SBS) wire form and decoding unchanged, including absent optional fields, empty collections, empty and non-ASCII strings, binary and JSON payloads and extreme integers. Stored database keys and values likewise decode to what was encoded, and stored key order equals the logical order of the keys.",
  ['inputs'],"every value of the message and database data types",
  "Tests round-trip one or two values per type; combinations of optional fields, enum values and boundary numbers are not covered.",
  ['common/encoder.py','backends/lmdb/common.py','eventer/common.py','/schemas_sbs/common.sbs','/schemas_sbs/eventer.sbs'],
  [('to/from SBS functions','common/encoder.py'),('database encoders','backends/lmdb/common.py')])

p('C06','Event identifiers are unique, contiguous and never reused',
  "Every event an event server registers carries its configured server id, all events of one session share one session id and one timestamp and have instance ids 1, 2, 3, ... in order of creation, and successive sessions get consecutive, strictly increasing session ids (a session interrupted by closing or failure also consumes one). This also holds across engine restarts and orderly process restarts on the same database: an event id that was once assigned and accepted is never assigned to another event.",
  ['schedules','histories'],"every interleaving of register requests, module processing and engine/backend restarts",
  "Tests check one run with a few registrations; reuse appears only for particular combinations of restart point and of what the last sessions contained.",
  ['server/engine.py','backends/lmdb/backend.py','backends/lmdb/systemdb.py'],
  [('session/instance counters','server/engine.py'),('last event id persistence','backends/lmdb/systemdb.py')],
  state=[('last event id','id of the last created event','server/engine.py'),('last event ids','last registered id per server','backends/lmdb/systemdb.py')])

p('C07','Modules process every session event exactly once, to a fixpoint',
  "Within a session each module is told of the session start before and of its stop after all processing, and is called exactly once, strictly sequentially, for every session event its subscription matches, in order of event creation, including events produced by itself and other modules, until no new events are produced. Events are passed with their true source (the original requester, or the module that produced them), and the session's events are registered together with the backend, in creation order. Sessions never overlap.",
  ['schedules','inputs','configurations'],"every module set, event cascade and interleaving of concurrent register requests with asynchronous module processing",
  "Tests use one or two modules with fixed reactions and no concurrent requests suspended inside module callbacks.",
  ['server/engine.py','common/module.py'],
  [('session processing loop','server/engine.py')])

p('C08','Register requests are answered with their own events; engine life cycle',
  "Every engine register call terminates: it returns the events created for exactly that request, in request order and with the request's type, source timestamp and payload, or None if the backend reports failure, or raises once the engine closes; an empty request returns an empty result. Requests are processed in order of arrival. The first session an engine registers is its STARTED status event and the last is its STOPPED status event, even if the engine closes because of a failing module or backend.",
  ['schedules','fault_sequences'],"every interleaving of register calls, cancellations of callers, engine close, module failure/closing and backend failure",
  "Tests close the engine at one or two fixed points; a lost or hanging request needs a particular interleaving of close with queued and in-flight requests.",
  ['server/engine.py'],
  [('register queue and loop','server/engine.py')])

p('C09','Clients are notified of exactly the subscribed events, in order',
  "A connected eventer client receives every event notified by the server after its successful initialisation that matches its subscriptions, its server id filter and its persisted mode, exactly once, in the order of notification and with content unchanged, and receives no other events. Events of one notification call reach the client as one group.",
  ['schedules','configurations'],"every set of clients with their filters and every interleaving of connecting, notifications, network delivery and back-pressure",
  "Tests check one client per filter with deliveries in one natural order; multiple clients connecting or disconnecting during notification are not explored.",
  ['eventer/server.py','eventer/client.py','server/eventer_server.py'],
  [('per connection filtering','eventer/server.py'),('receive loop','eventer/client.py')])

p('C10','Responses reach their own requests and no request hangs',
  "Each register and query request of an eventer client is answered with the result of that very request, no matter how many requests are in flight, how requests are cancelled or how long processing takes, and when the connection is lost every pending and later request fails with a connection error instead of hanging. Server notification with acknowledge returns only after every notified client has processed and acknowledged the events or its own connection has ended, regardless of what other clients do, and then always returns.",
  ['schedules','fault_sequences'],"every interleaving of requests, cancellations, acknowledgements, deliveries and connection losses on several connections",
  "Tests run one request at a time on healthy connections; correlation and hang freedom depend on interleavings with cancellation and disconnect.",
  ['eventer/client.py','eventer/server.py'],
  [('conversation futures','eventer/client.py'),('ack futures','eventer/server.py')])

p('C11','Connection admission and CONNECTED/DISCONNECTED events',
  "A client is admitted exactly when it supplies no token or the configured server token; a refused client gets an error response, receives no notifications, can register or query nothing and causes no events. Every client admitted while the engine is running causes, as long as the engine keeps running, exactly one CONNECTED event before any event it registers, and exactly one DISCONNECTED event after its last, both carrying its name and a source unique to the connection, and the reported client names are exactly those of the currently connected, admitted clients.",
  ['schedules','configurations'],"every token configuration and interleaving of connects, disconnects, registrations and engine start/stop",
  "Tests exercise one client with each token combination; races of disconnect with the initialisation and with engine changes are not explored.",
  ['server/eventer_server.py','eventer/server.py'],
  [('token check and status events','server/eventer_server.py'),('connection loop','eventer/server.py')])

p('C12','Server status is propagated and gates registration',
  "Every connected client observes the status sequence of the server in order: the status in its initialisation response followed by every later change, ending with the current one. Registration is answered with failure, and registers nothing, unless the server is operational (a request racing with the stopping engine may instead end with a connection error); queries are answered in every status.",
  ['schedules','histories'],"every interleaving of status changes with connects, requests and network delivery",
  "Tests change the status with an idle established connection; a change that coincides with a client's initialisation or with in-flight requests is not explored.",
  ['eventer/server.py','eventer/client.py','server/eventer_server.py','server/engine_runner.py'],
  [('status notification','eventer/server.py'),('engine gate','server/eventer_server.py')])

p('C13','Latest query returns the latest event of each type',
  "A latest query on the LMDB backend returns, for every event type matching both the requested event types (wildcards allowed) and the configured latest subscription, exactly the newest registered event of that type in natural order, and nothing else. The answer is the same before and after flushing and after reopening the database.",
  ['histories','inputs'],"every registration history (several servers, out of order arrival across servers) and every list of requested types, at every flush/reopen point",
  "Tests register a few events and query fixed types; history, wildcard lists and reopen points are sampled.",
  ['backends/lmdb/latestdb.py','backends/lmdb/backend.py'],
  [('latest cache and database','backends/lmdb/latestdb.py')])

p('C14','Timeseries query filters, orders and pages exactly',
  "A timeseries query on the LMDB backend returns exactly the events stored in the first partition with the requested ordering that shares event types with the query, filtered by event types and by both time ranges, sorted by the requested time and direction, limited to the result limit, with more_follows telling exactly whether further results exist. Continuing repeatedly with the last returned event id yields every result exactly once. The answer does not depend on which events have already been flushed to disk.",
  ['histories','inputs','configurations'],"every registration history (with absent and unordered source timestamps, several servers), flush pattern and parameter combination",
  "Tests query either fully flushed or simple data; combinations of flushed and unflushed events with unordered timestamps and paging are not covered.",
  ['backends/lmdb/timeseriesdb.py'],
  [('partition range scan','backends/lmdb/timeseriesdb.py'),('pending changes scan','backends/lmdb/timeseriesdb.py')])

p('C15','Server query returns the retained history of a server in order',
  "A server query on the LMDB backend returns exactly the events of the requested server that are still retained (as the latest of their type or in some partition), in event id order, strictly after the given last event id, each exactly once, limited to the result limit with exact more_follows; with the persisted flag only events already flushed are considered. Repeated continuation yields every retained event exactly once. (An event replaced as the latest of its type may still be reported until its replacement is flushed.)",
  ['histories','inputs'],"every history of registrations, replacements of latest events, cleanups and flushes, and every paging pattern",
  "Tests use short linear histories; reference removal across flushed and unflushed events creates many combinations.",
  ['backends/lmdb/refdb.py','backends/lmdb/backend.py','backends/lmdb/latestdb.py'],
  [('event references','backends/lmdb/refdb.py')])

p('C16','Persisted history is always a consistent prefix',
  "Whenever the process crashes, and whatever write fails, reopening the LMDB database gives a state equal to the one after some prefix of the registered batches: all databases agree with each other, and it includes at least everything whose flush was reported complete (flush returned or flushed notification made). No later event is ever persisted while an earlier accepted one is lost.",
  ['crash_points','fault_sequences','histories'],"every crash point and every failing write in every history of registrations, flushes and cleanups",
  "Tests never crash or fail the storage; the quantifier is over crash points and failing writes.",
  ['backends/lmdb/backend.py','backends/lmdb/environment.py','backends/lmdb/systemdb.py'],
  [('single write transaction per flush','backends/lmdb/backend.py')])

p('C17','Backend accepts events monotonically and reports them once',
  "The LMDB backend accepts an event exactly when its id is newer than the last registered id of its server, its timestamp is not older than that server's last registered one, the configured conditions hold and it matches the latest subscription or some partition (an event failing only the latter two still counts as the last registered one); otherwise the event leaves no trace in any query result. Every registered batch is reported once to the registered callback before the call returns and, once durable, exactly once to the flushed callback, in registration order. An operation in progress while the backend closes terminates, and after closing every operation fails with a closed error instead of hanging.",
  ['histories','schedules'],"every history of batches with stale, duplicate, out-of-order and condition-violating events of several servers, and every interleaving with flushing and closing",
  "Tests register well formed batches; stale and mixed batches interleaved with periodic flush and close are not explored.",
  ['backends/lmdb/backend.py','backends/lmdb/systemdb.py'],
  [('acceptance checks','backends/lmdb/backend.py'),('flush loop','backends/lmdb/backend.py')])

p('C18','Retention removes exactly the oldest excess entries',
  "After cleanup every partition keeps the newest entries by its own ordering: an entry is removed exactly when the partition holds more than min_entries and it exceeds max_entries or the size limit, or is older than the duration limit, oldest first. Partitions without limit, latest events and other partitions are untouched, and a removed entry disappears from server queries only if nothing else retains it.",
  ['histories','configurations'],"every limit combination, history and cleanup/flush/reopen point",
  "Tests check each limit alone on a fresh partition; combinations, restarts and repeated flush/cleanup cycles are not covered.",
  ['backends/lmdb/timeseriesdb.py','backends/lmdb/refdb.py','backends/lmdb/backend.py'],
  [('partition cleanup','backends/lmdb/timeseriesdb.py'),('reference cleanup','backends/lmdb/refdb.py')])

p('C19','Concurrent backend operations are linearisable',
  "Queries running concurrently with registrations, flushes and cleanups of the LMDB backend return a result that would have been correct at some moment between call and return: no event registered before the query started is missing, none appears twice, and none appears out of order. (An entry which a cleanup running at the same time removes may or may not be returned.)",
  ['schedules'],"every interleaving of query, register, flush and cleanup steps on the event loop and the storage executor",
  "Tests issue operations one after another; the code itself carries a TODO about the window between taking changes and writing them.",
  ['backends/lmdb/backend.py','backends/lmdb/timeseriesdb.py','backends/lmdb/refdb.py','backends/lmdb/environment.py'],
  [('single worker executor','backends/lmdb/environment.py'),('pending changes hand-over','backends/lmdb/backend.py')])

p('C20','Server synchronisation transfers the complete remote history',
  "When an eventer client of one server reports itself synchronised with a remote server, its backend holds every event the remote server has persisted so far, and afterwards every event the remote persists is registered locally in remote order, each exactly once, with complete remote sessions never split across registrations. This holds if the remote keeps registering during synchronisation, if results are paged, and after any disconnect and reconnect; synchronisation progress is announced as CONNECTED, then SYNCING if there was anything to transfer, then SYNCED with the number of transferred events.",
  ['schedules','fault_sequences'],"every interleaving of paged queries, live notifications, remote registrations and connection losses",
  "Tests synchronise against a scripted idle server; the overlap of paging with live notifications is a race.",
  ['server/eventer_client.py','server/eventer_client_runner.py'],
  [('synchronise then drain cached notifications','server/eventer_client.py')])

p('C21','A redundant server engages only while no remote server is active',
  "A server starts its engine only when no valid remote server in its group is known to be active (starting, operational or stopping), and remote activity is reported exactly as the union of the states of the connected remote servers. Every valid remote server announced by the monitor, and only those with matching group and token, is being connected or reconnected to as long as it is announced. The engine runner goes through STARTING, OPERATIONAL, STOPPING and STANDBY in order, closes the engine with all of its modules and flushes before STANDBY, starts again after a requested restart, and closes when its engine closes on its own.",
  ['schedules','histories'],"every sequence of monitor states, remote status changes, connection losses, restart requests and engine failures",
  "Tests step through a few scenarios; the combination of monitor state changes with connection attempts in flight is not explored.",
  ['server/engine_runner.py','server/eventer_client_runner.py'],
  [('engine runner loop','server/engine_runner.py'),('remote activity tracking','server/eventer_client_runner.py')])

p('C22','Client component follows the active event server',
  "The client component runs its user runner exactly while it is blessed and connected to the currently active event server of the monitored group (blessed, with matching token); at most one client connection and runner exist at a time, and the runner is always closed when its connection is lost or another server becomes active. After connection loss or refusal it reconnects, always to the most recently announced active server; if the runner closes by itself while connected, the component closes.",
  ['schedules','fault_sequences'],"every sequence of monitor states, connection results, losses and runner behaviours",
  "Tests follow single scripted transitions; races between server changes, connection establishment and runner creation are not explored.",
  ['component.py'],
  [('server data loop / client loop','component.py')])

p('C23','Orderly shutdown persists everything and stops everything',
  "When an event server process is closed at any moment, including during start-up and with requests in flight, it terminates, every request still open ends with an answer or a connection error, everything acknowledged to clients is found in the reopened database, and the history ends with the engine's STOPPED event. Persisted notifications for events flushed during shutdown are still delivered to connected clients.",
  ['schedules'],"every point of closing relative to start-up, client requests and flushing",
  "Tests close an idle server; the order of engine, eventer server and backend shutdown only matters with work in flight.",
  ['server/main_runner.py','server/engine_runner.py','server/engine.py','backends/lmdb/backend.py'],
  [('staged stop','server/main_runner.py')])

p('C24','Memory and dummy backend implement the documented backend contract',
  "The memory backend returns for every last event id, latest, timeseries and server query the answer defined by the query semantics over all events registered so far: correct filters on every parameter (events without source timestamp neither satisfy a source time limit nor take part in source time order), requested order, exact continuation after the last event id, and exact more_follows. Registered and flushed callbacks are called once per registered batch. The dummy backend accepts every batch, with both callbacks, and answers every query and last event id as if nothing was registered.",
  ['histories','inputs'],"every registration history and query parameter combination",
  "The memory backend's tests cover few parameters; combinations of filter, order and continuation are unbounded.",
  ['backends/memory.py','backends/dummy.py'],
  [('list scan queries','backends/memory.py')])

p('C25','Database migration preserves all events',
  "Converting a database of an older supported version (0.6, 0.7) to the current one yields a database that the current backend opens and in which every event, with equivalent type, timestamps, payload and identity, is found by latest, timeseries and server queries exactly as stored before; continuing registration on the converted database never reuses ids. The source database is not modified, and an already existing destination is not overwritten.",
  ['inputs','histories','configurations'],"every content of an old database (payload kinds, several servers, several partitions)",
  "No tests cover conversion beyond fixed samples.",
  ['backends/lmdb/convert/main.py','backends/lmdb/convert/convert_v06_to_v07.py','backends/lmdb/convert/convert_v07_to_v09.py','backends/lmdb/convert/v06.py','backends/lmdb/convert/v07.py','backends/lmdb/convert/v09.py'],
  [('conversion steps','backends/lmdb/convert/')])

p('C26','Database tools report and copy exactly what is stored',
  "The LMDB manager's copy produces a database equivalent for every query to its source, except for the latest events or timeseries entries it was asked to skip, and never changes the source; its query commands print exactly the stored settings, last ids, references, latest events, partitions and timeseries entries, restricted by the given filters.",
  ['inputs','histories'],"every database content and command line option combination",
  "The tools have no tests.",
  ['backends/lmdb/manager/main.py','backends/lmdb/manager/query.py','backends/lmdb/manager/copy.py','backends/lmdb/manager/common.py'],
  [('query and copy actions','backends/lmdb/manager/')])

p('C27','Admin requests are answered correctly and never hang',
  "Each get or set logging configuration request of an adminer client returns the server's answer to that very request or raises its error, with several requests in flight and across cancellations of individual requests; an error or a cancelled request does not affect other requests or the connection. A successful set is observed by every later get, a failed set changes nothing, and on connection loss every pending request fails with a connection error.",
  ['schedules','fault_sequences'],"every interleaving of requests, cancellations, server-side failures, deliveries and connection losses",
  "Tests issue one request at a time; cancellation and pipelining are not covered.",
  ['adminer/client.py','adminer/server.py','server/adminer_server.py'],
  [('conversation futures','adminer/client.py')])

p('C28','Registration conditions have their documented meaning',
  "A configured condition applies to exactly the events matching its subscriptions, and an event is accepted exactly when all conditions applying to it hold: 'all' and 'any' are conjunction and disjunction, and 'json' requires a JSON payload whose value at the configured path has the required type and equals the required value, with JSON equality (booleans are not numbers, an absent value counts as null).",
  ['inputs','configurations'],"every nesting of conditions, overlap of subscriptions and payload",
  "Tests list single conditions with few payloads; nested conditions and several conditions for one event type are combinatorial.",
  ['backends/lmdb/conditions.py'],
  [('condition evaluation','backends/lmdb/conditions.py')])

p('C29','Reopening with a changed configuration never corrupts history',
  "An LMDB database can be reopened with different latest subscriptions, partitions, limits and conditions: partitions with unchanged definition keep their data whatever their position in the list, new partitions start empty, nothing of a removed partition appears in another one, and latest and server queries never return duplicated, wrong or replaced events. (Data that the current configuration no longer selects may stay visible to server queries and may reappear when it is selected again.) Reopening with a different identifier, or a database of an unsupported version, is refused and leaves the database unchanged.",
  ['histories','configurations'],"every sequence of configurations with registrations in between",
  "Tests open each database with a single configuration.",
  ['backends/lmdb/timeseriesdb.py','backends/lmdb/latestdb.py','backends/lmdb/refdb.py','backends/lmdb/systemdb.py'],
  [('partition identity','backends/lmdb/timeseriesdb.py'),('latest type references','backends/lmdb/latestdb.py'),('settings validation','backends/lmdb/systemdb.py')])

p('C30','A misbehaving client harms only its own connection',
  "Whatever one client sends or does (malformed or unexpected messages, sudden disconnect, disconnecting during initialisation or with requests in flight), the server keeps serving every other client: their requests are answered correctly, they receive their notifications, new clients can connect, and the offending connection's resources are released once it ends.",
  ['schedules','fault_sequences'],"every message a client can send in every protocol state, and every disconnect point, interleaved with well-behaved clients",
  "Tests only use the well-behaved client implementation.",
  ['eventer/server.py','server/eventer_server.py','adminer/server.py'],
  [('connection loop error handling','eventer/server.py')])

p('C31','Command-line client sends what its arguments say',
  "Each hat-event-manager action sends to the server exactly the request its arguments describe (registration with type, source timestamp and the payload read from file or standard input in the given format; latest, timeseries and server query with all their parameters; subscription with server id and persisted filter) under the given client name and token, and prints exactly the returned or notified events; a refused registration is reported by exit code 1 and invalid arguments are refused without sending anything.",
  ['inputs'],"every combination of options up to a bound, payload formats and sources, and server answers",
  "The tool has no tests.",
  ['manager/main.py','manager/common.py'],
  [('actions and option parsing','manager/main.py')])

p('C32','Clients survive a misbehaving server',
  "Whatever an event server or adminer server sends to a connected client (responses to unknown, already answered or the server's own conversations, notifications at any moment, malformed or unexpected messages, data cut or changed at any byte, a sudden disconnect), a request is only ever answered by the response of its own conversation, messages of other conversations change nothing, a message which breaks the protocol closes the client's connection, and then every pending and later request fails with a connection error: nothing hangs. Connecting ends with success only after a successful init response to the client's own init request, with EventerInitError carrying the server's reason, or with another exception, and a connection which was not established is closed.",
  ['inputs','schedules','fault_sequences'],"every sequence of server messages up to a bound, every cut of the response stream, interleaved with requests and cancellations",
  "Tests use only well-behaved servers.",
  ['eventer/client.py','adminer/client.py'],
  [('receive loop and conversation correlation','eventer/client.py'),('receive loop','adminer/client.py')])

p('C33','Redundant servers: one active engine at a time, complete hand-over',
  "When several event servers connected to each other share a monitor server group, then at any moment at most one of them runs an engine; the next one creates its engine only after it has received everything the previous one registered, including its final STOPPED event (as long as the servers were synchronized and could reach each other since), and whatever is stopped, killed, restarted, crashed, disconnected or re-ranked, the servers settle with exactly one OPERATIONAL server, all others STANDBY, all ready for the monitor server. Histories of one server on other servers are always prefixes of that server's own history, acknowledged events are never lost by an orderly stop, and when servers are stopped one after another each later one ends with the complete history of each earlier one.",
  ['schedules','crash_points','histories'],"every sequence of server and network events up to a bound, and every interleaving of hand-over with them",
  "Tests run one server with mocked monitor and remote servers; no test has two real servers handing over.",
  ['server/main_runner.py','server/engine_runner.py','server/eventer_client_runner.py','server/eventer_client.py','server/eventer_server.py'],
  [('waiting for remote engine','server/engine_runner.py'),('remote active state','server/eventer_client_runner.py'),('closing order','server/main_runner.py')])

p('C34','Readiness announced to monitor server',
  "A server announces to the monitor server that it is ready only once it accepts clients, and stays ready while it runs, except after a module calls reset_monitor_ready: then it announces that it is not ready, and becomes ready again as soon as its blessing is released, or after the timeout if it is not released. Every reset request made while the server is announced as ready is honoured, nothing else withdraws readiness, the blessing is only released when no engine is running, an engine (never more than one) runs only while the server is blessed, a blessed ready server always ends with a running engine, and losing the monitor server or a failed engine closes the server.",
  ['schedules','histories'],"every sequence of resets, restarts, blessing changes, delays and ends up to a bound, interleaved",
  "Tests check one reset with one schedule and mocked monitor server.",
  ['server/main_runner.py','server/engine_runner.py','server/engine.py'],
  [('readiness loop','server/main_runner.py'),('restart and close','server/engine_runner.py')])

p('C35','Event server process: configuration, start and end',
  "An event server process started with a configuration accepted by the documented schemas (server, backend and module schemas, in any supported format and from the given path, standard input or the default location) runs exactly what is configured: eventer and adminer server at configured addresses, server id and token, logging configuration, every module with its own configuration, the chosen backend. On SIGINT or SIGTERM, also repeated, it ends orderly with exit code 0: modules are closed, everything is persisted, nothing listens. With a configuration which violates any of the schemas, or names something that is not a backend or a module, it ends with an error before a database or module is created.",
  ['inputs'],"every single change of a complete configuration (removed or mistyped value, optional value left out), every source and format, every sequence of signals up to a bound",
  "Tests never run the server process nor its configuration validation.",
  ['server/main.py','server/main_runner.py','server/adminer_server.py','common/module.py','common/backend.py'],
  [('validation and start','server/main.py')])

p('C36','Client component passes on what its connections report',
  "The client component reports every change of monitor state (component.state is always the last reported one, blessed or not), the close request of the monitor server, every status change of the event server it is connected to and every notification matching the requested subscription, persisted flag and server id (given explicitly, also None for all servers, or that of the active server by default): each exactly once, in order, with the component and the client it belongs to, and never two calls of one kind for one client at a time. Notifications form an uninterrupted part of what the active server notified, also across switching, loss and reconnection. Callbacks which are not given change nothing, ready is what was set and announced, and connection arguments are passed to the event server unchanged.",
  ['histories','schedules'],"every sequence of monitor states, statuses, notifications, losses up to a bound, and their interleavings with switching",
  "Tests mock the connections and check one sequence.",
  ['component.py'],
  [('callbacks','component.py'),('client arguments','component.py')])

with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
