"""Regenerates /verif/properties.jsonl.  One call of P(...) per property."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
ROWS = []
def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
  assert len(title) <= 80, (id, len(title))
  ROWS.append({
    "id": id, "title": title, "statement": statement,
    "quantifier": {"over": over, "text": qtext},
    "why_tests_cant": why,
    "anchors": {
      "files": files,
      "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
      "mechanism": [{"name": n, "where": w} for n, w in mech],
      "observe_at": list(observe), "hook_needed": hook}})

NET = "streamtasks/net/__init__.py"
# ---------------------------------------------------------------- network
P("C01", "Topic data reaches exactly its subscribers, once and in order",
  "On any acyclic network of switches and clients, every data message a topic's single provider publishes is delivered exactly once, with unchanged content and in publication order, to every client whose subscription was established before the publication and is kept. Clients not subscribed to the topic never receive it, and a client that subscribes or unsubscribes meanwhile receives a duplicate-free, in-order part of the messages that is complete from the moment its subscription is established until it unsubscribes. Message order and content do not depend on link type, link delays, the number of other topics or other clients subscribing and unsubscribing.",
  ["histories", "schedules", "configurations"],
  "every tree of switches and clients, every link type and per-link delay, every interleaving of publish / subscribe / unsubscribe / pause operations",
  "Unit tests use one or two switches with fixed three-message scripts and no delays; the guarantee quantifies over topologies, delays and concurrent subscription histories.",
  [NET, "streamtasks/client/__init__.py", "streamtasks/client/topic.py", "streamtasks/client/receiver.py", "streamtasks/utils.py"],
  [("Switch.on_stream_message / handle_message", NET), ("Client._task_receive dispatch", "streamtasks/client/__init__.py"), ("IdTracker reference counting", "streamtasks/utils.py")],
  [("Link.in_topics", "topics the peer of this link asked for", NET), ("Client._in_topics", "local subscription reference counts", "streamtasks/client/__init__.py")],
  ["client receiver queues", "OutTopic.send"])
P("C02", "A provider is asked for data exactly while some client subscribes",
  "Whenever the network is quiescent, the provider of a topic sees the topic as requested if and only if at least one reachable live client is subscribed to it; when several providers exist, at least one provider of least path cost is requested whenever a subscriber exists. This holds after any history of subscribing, unsubscribing, registering, unregistering and of clients or whole branches disconnecting.",
  ["histories", "fault_sequences", "schedules"],
  "every history of (un)subscribe, (un)register, attach and detach operations on acyclic networks, observed at quiescence",
  "Tests toggle one subscriber on one switch; they never disconnect a subscriber, move demand across several switches or change providers while subscribed.",
  [NET, "streamtasks/client/topic.py", "streamtasks/client/__init__.py", "streamtasks/utils.py"],
  [("Switch.on_in_topics_changed / request_in_topics_change", NET), ("Switch.remove_link", NET), ("OutTopic requested state", "streamtasks/client/topic.py")],
  [("Switch.in_topics", "reference count of demand per topic", NET), ("Link.recv_topics", "topics this side requested over the link", NET)],
  ["OutTopic.is_requested"])
P("C03", "Advertised routes converge to the live providers at least cost",
  "Whenever the network is quiescent, what a link has advertised to its peer (topics and addresses with costs) is exactly the set provided somewhere behind that link, each with the least total path cost to a live provider. No history of registering, unregistering, re-registering, attaching, or detaching of clients and switches leaves a missing, stale or mis-priced entry.",
  ["histories", "fault_sequences", "configurations"],
  "every history of registration changes, link additions and link losses on acyclic networks with arbitrary positive link costs and several providers per id",
  "Tests check a couple of add/remove messages with cost-1 links; convergence after churn with several providers and differing costs is never observed.",
  [NET, "streamtasks/net/helpers.py", "streamtasks/net/messages.py"],
  [("PricedIdTracker", "streamtasks/net/helpers.py"), ("Link._process_recv_message cost accumulation", NET), ("Switch.add_link / remove_link / on_out_topics_changed / on_addresses_changed", NET)],
  [("Link.out_topics, Link.addresses", "advertised id -> cost", NET), ("PricedIdTracker", "multiset of costs per id and the current minimum", "streamtasks/net/helpers.py")],
  ["messages received on an attached probe link"])
P("C04", "Addressed messages reach exactly the address owner, in order",
  "On an acyclic network every message addressed to an address owned by one live client is delivered to that client exactly once, unchanged, with its port, and in sending order per sender; no other client receives it. A message to an address nobody owns is dropped without disturbing any other traffic, and after an address moves to another client (at quiescence) messages go only to the new owner.",
  ["histories", "schedules", "configurations"],
  "every topology, link delay and history of address assignment, release, movement, client loss and concurrent senders",
  "Tests send a handful of messages between two clients on one switch; address movement, loss of the owner, re-advertised addresses and multi-hop delayed paths are not exercised.",
  [NET, "streamtasks/net/helpers.py", "streamtasks/client/__init__.py"],
  [("Switch.on_addressed_message", NET), ("Client.set_address / send_to", "streamtasks/client/__init__.py")],
  [("Switch.addresses", "least cost per reachable address", NET)],
  ["client receivers for AddressedMessage"])
P("C05", "A failing or closing link never disturbs traffic on other links",
  "When a link closes or fails at any moment - also while messages to or from it are in flight - every other link of the switch stays connected and all traffic between clients not behind the failed link keeps being delivered exactly once and in order. Nothing that was reachable only through the failed link stays advertised or requested afterwards, and the same clients can attach again and be served.",
  ["fault_sequences", "crash_points", "schedules"],
  "every point at which a link (client, branch or raw socket) is closed or starts failing on send or receive, over random topologies and traffic",
  "No existing test closes a link under traffic; isolation depends on where in an await the close lands.",
  [NET, "streamtasks/connection.py"],
  [("Switch._run_link_receiving / remove_link / send_to", NET), ("Link.close and on_closed", NET), ("RawConnectionLink error mapping", "streamtasks/connection.py")],
  [("LinkManager._link_recv_tasks", "live links and their receive loops", NET)],
  ["client receivers", "probe links"])
P("C06", "Subscribers always learn a topic's current pause state",
  "At quiescence every client subscribed to a topic that has a single provider sees the pause state most recently set by that provider, including clients that subscribed after it was set, on any switch. Pause changes reach a subscriber in the order they were made relative to the data messages of the same topic.",
  ["histories", "schedules", "configurations"],
  "every interleaving of pausing, unpausing, publishing and (re)subscribing on acyclic networks with link delays",
  "Tests pause once before one late subscriber on a single switch.",
  [NET, "streamtasks/client/topic.py"],
  [("Switch.stream_controls replay on subscription", NET), ("OutTopic.set_paused / InTopic.recv_data_control", "streamtasks/client/topic.py")],
  [("Switch.stream_controls", "last control state per topic", NET)],
  ["InTopic.is_paused", "InTopic.recv_data_control"])
P("C07", "Topic-space links translate ids completely and isolate spaces",
  "A client attached through a topic-remapping link observes the network exactly as if its internal topic ids were the mapped external ids: publishing, subscribing, demand, pause state and payloads are translated in both directions, and unmapped ids pass unchanged. Instances of the same client running in different topic spaces of one network never observe each other's data, demand or pauses.",
  ["inputs", "histories", "configurations"],
  "every injective id map, every mix of mapped and unmapped topics, several spaces at once, every message type",
  "One existing test deploys a single task; it does not compare mapped with unmapped behaviour or run several spaces concurrently.",
  [NET, "streamtasks/system/task.py", "streamtasks/services/discovery.py"],
  [("TopicRemappingLink", NET), ("TaskHost.create_link", "streamtasks/system/task.py")],
  [("TopicRemappingLink._topic_id_map", "internal -> external ids", NET)],
  ["client receivers on both sides of the remapping link"])
P("C08", "Messages and payloads survive serialization unchanged",
  "Serializing and deserializing any network message yields an equal message of the same type, with all topics, ports, costs, flags and payload values intact, and a payload built from a value and one built from that value's serialized bytes are interchangeable. Copies of a payload are independent at the level promised (top level for shallow copies, everything for full copies), and an in-place update followed by marking it updated is what gets serialized.",
  ["inputs"],
  "every message type with arbitrary ids, costs and msgpack-representable payloads (nested, binary, large integers, integer keys, unicode, empty)",
  "Existing tests only serialize small dictionaries incidentally; no round-trip is asserted across the message types and payload space.",
  ["streamtasks/net/serialization.py", "streamtasks/net/messages.py"],
  [("serialize_message / deserialize_message", "streamtasks/net/serialization.py"), ("RawData lazy (de)serialization", "streamtasks/net/serialization.py"), ("as_dict / from_dict", "streamtasks/net/messages.py")],
  [("RawData._data/_raw", "cached decoded and encoded forms", "streamtasks/net/serialization.py")],
  ["serialize_message", "RawData.serialize/data/copy/shallow_copy/update"])
P("C09", "Socket connections deliver the sent messages intact and in order",
  "Over a stream or websocket connection the peer receives exactly the sequence of messages sent, byte-identical and in order, for every fragmentation or coalescing of the byte stream, any message size, concurrent senders and cancelled receives. When stray bytes precede a frame the next valid frame is still delivered; when the peer disappears, at most a suffix of the messages is lost, no partial message is delivered and the link reports itself closed.",
  ["inputs", "schedules", "crash_points", "fault_sequences"],
  "every chunking of the stream, every cut point, message sizes from empty to far above the buffer limits, concurrent senders, receive cancellation at any await",
  "Existing tests send a few small messages over a local socket, which is never fragmented, cut or cancelled mid-frame.",
  ["streamtasks/connection.py", NET],
  [("RawStreamConnection framing with sync word and length", "streamtasks/connection.py"), ("RawConnection send/recv locks", "streamtasks/connection.py"), ("RawConnectionLink", "streamtasks/connection.py")],
  [("StreamReader buffer", "bytes received but not yet framed", "streamtasks/connection.py")],
  ["RawConnectionLink.recv", "Link.closed"])
P("C10", "Only clients with the right auth and version are admitted, every time",
  "A server admits a connection if and only if the client's protocol version matches and its auth value equals the server's configured auth (a server without one admits the clients that send none), independently of how many connections came before or are concurrent. A refused or malformed handshake gives the client an error, leaves nothing attached to the server's network, and does not affect the server's ability to admit later valid clients.",
  ["inputs", "histories", "schedules"],
  "every sequence and overlap of valid, wrong-auth, missing-auth, wrong-version, malformed and abruptly closed handshakes on one server, over each transport",
  "The tests connect once per server, so any state a handshake leaves behind is invisible.",
  ["streamtasks/connection.py"],
  [("RawConnection.init_server / init_client", "streamtasks/connection.py"), ("StreamServerBase.on_connection", "streamtasks/connection.py"), ("extract_connection_data_from_url", "streamtasks/connection.py")],
  [("ServerBase.handshake_data", "configured auth and metadata", "streamtasks/connection.py")],
  ["connect()", "ServerBase.connection_count"])
P("C11", "Managed connections come back by themselves and close cleanly",
  "An auto-reconnecting connection that is lost, refused or not yet available is retried until it is established again, its connected state always reflects the real state of the link, and traffic flows again after each re-establishment. A server's connection count equals the number of live connections at quiescence, and stopping a server or reconnector ends it and detaches its links.",
  ["fault_sequences", "histories"],
  "every sequence of peer restarts, refusals, missing endpoints, remote and local closes, over each transport, with bounded progress after each fault",
  "Tests cover a successful connect and one close; they never restart the peer or start before it exists.",
  ["streamtasks/connection.py", NET],
  [("AutoReconnector.run", "streamtasks/connection.py"), ("ServerBase.on_connected/on_disconnected", "streamtasks/connection.py"), ("Link.on_closed", NET)],
  [("AutoReconnector._async_connected", "connected flag", "streamtasks/connection.py"), ("ServerBase._connection_count", "live connections", "streamtasks/connection.py")],
  ["AutoReconnector.connected", "ServerBase.connection_count", "messages across the connection"])
# ---------------------------------------------------------------- client protocols
P("C12", "Every fetch gets its own answer; the server survives every request",
  "Each request made through the fetch protocol completes with exactly one result: the value its own request's handler responded with, or an error carrying the handler's error content, or a general error if the handler raised, or a bad-request error on validation failure, or nothing (None) if the handler returned without responding; concurrent requests are never mixed up, whatever their bodies. Failing handlers, malformed requests, duplicate or late responses and signal handlers that raise never stop the server from serving later requests or change the outcome of others.",
  ["inputs", "schedules", "histories"],
  "every mix of concurrent requests, handler behaviours (respond, error, raise, return, respond twice), request bodies and malformed or foreign messages on the same ports",
  "One test does a single request/response; concurrency, errors and malformed traffic are unexplored.",
  ["streamtasks/client/fetch.py", "streamtasks/client/signal.py", "streamtasks/client/__init__.py"],
  [("FetchServer.run / on_message", "streamtasks/client/fetch.py"), ("Client.fetch with per-request return port", "streamtasks/client/__init__.py"), ("SignalServer.run", "streamtasks/client/signal.py")],
  [("FetchRequest.response_sent", "one-response flag", "streamtasks/client/fetch.py")],
  ["Client.fetch results", "handler invocations"])
P("C13", "Receivers may start and stop in any order without losing messages",
  "However receivers and topics on one client are started, stopped, nested, shared and restarted concurrently, every receiver that is active receives each matching message exactly once and in order, an inactive one receives nothing, and the client stays subscribed to a topic exactly while at least one holder is registered for it. Pausing and resuming the client (stop and start) delays but never loses, duplicates or reorders messages.",
  ["schedules", "histories"],
  "every interleaving of start/stop, register/unregister, client stop/start and message arrival, including starts during an in-progress stop",
  "Tests start each receiver once and stop it at the end.",
  ["streamtasks/client/__init__.py", "streamtasks/client/receiver.py", "streamtasks/client/topic.py"],
  [("Client.enable_receiver / disable_receiver / _task_receive", "streamtasks/client/__init__.py"), ("Receiver.start_recv/stop_recv counting", "streamtasks/client/receiver.py"), ("IdTracker", "streamtasks/utils.py")],
  [("Client._receivers, _receive_task", "active receivers and the receive loop", "streamtasks/client/__init__.py")],
  ["Receiver.get", "subscription messages on the client's link"])
P("C14", "Discovery hands out unique ids and never mixes up requesters",
  "Over the life of a discovery service all addresses and topic ids it hands out are pairwise distinct and never collide with the reserved ones, each request gets exactly the number asked for, and concurrent requesters never receive each other's ids. Invalid requests (negative or non-numeric counts, malformed bodies) are refused without affecting ids given out before or later.",
  ["histories", "schedules", "inputs"],
  "every interleaving of address requests (with and without an own address), topic requests, topic-space registrations and malformed requests from many clients",
  "Tests request a few ids sequentially from one client.",
  ["streamtasks/services/discovery.py", "streamtasks/client/discovery.py", "streamtasks/client/__init__.py"],
  [("DiscoveryWorker.generate_topic_ids / generate_addresses", "streamtasks/services/discovery.py"), ("request_addresses via broadcast topic and request id", "streamtasks/client/discovery.py")],
  [("DiscoveryWorker counters", "next free ids", "streamtasks/services/discovery.py")],
  ["returned id sets"])
P("C15", "Names, topic spaces and broadcast namespaces resolve to their registration",
  "Resolving a name yields the address of its latest registration, or none when it is unregistered, and a waiter for a name is woken by its registration and gets that address. A topic space maps each of its topics to its own fresh id until the space is deleted, lookups of unknown or deleted spaces are reported as not found, and distinct broadcast namespaces never receive each other's messages while every receiver of a namespace gets each broadcast once, in order.",
  ["histories", "schedules"],
  "every interleaving of register, unregister, resolve, wait, topic-space register/get/translate/delete and broadcasts over several namespaces and receivers",
  "Tests register one name and one topic space and never unregister, re-register or race them.",
  ["streamtasks/client/discovery.py", "streamtasks/services/discovery.py", "streamtasks/client/broadcast.py"],
  [("DiscoveryWorker name and topic-space maps", "streamtasks/services/discovery.py"), ("address_name_context / wait_for_address_name", "streamtasks/client/discovery.py"), ("BroadcastingServer / BroadcastReceiver", "streamtasks/client/broadcast.py")],
  [("_address_map, _topic_spaces", "registrations", "streamtasks/services/discovery.py")],
  ["resolve_address_name", "get_topic_space", "BroadcastReceiver.get"])
P("C16", "Synchronized topics are merged in timestamp and priority order",
  "Messages received through topics sharing a sequential synchronizer are handed out in non-decreasing timestamp order across all active (unpaused, started) topics, each at most once; a message is dropped only if it is older than the newest one already accepted on its own topic, or than the point the other topics had reached when its own topic was resumed, and none is withheld once every active topic has reached its timestamp. With priorities, among messages with equal timestamps those of a higher-priority topic are handed out before those of a lower-priority one that arrived, and pausing a topic stops it from holding back the others.",
  ["inputs", "schedules", "histories"],
  "every interleaving of arrivals, consumer delays, pauses and resumes over several topics with arbitrary, equal, repeated and out-of-order timestamps and priorities",
  "The existing tests use two topics, fixed timestamps and no equal-timestamp priority conflict.",
  ["streamtasks/client/topic.py", "streamtasks/message/utils.py"],
  [("SequentialInTopicSynchronizer", "streamtasks/client/topic.py"), ("PrioritizedSequentialInTopicSynchronizer", "streamtasks/client/topic.py"), ("_SynchronizedInTopicReceiver.get", "streamtasks/client/topic.py")],
  [("_topic_timestamps", "newest accepted timestamp per active topic", "streamtasks/client/topic.py"), ("_done_topics", "topics whose consumer asked for more", "streamtasks/client/topic.py")],
  ["SynchronizedInTopic.recv_data order"])
# ---------------------------------------------------------------- system
P("C17", "A task's reported status only moves forward and ends exactly once",
  "A scheduled task moves scheduled -> running -> one of ended, stopped or failed (or directly to failed if it cannot start), and observers see these statuses in that order with exactly one terminal status: ended if it returned, stopped if cancelled, failed with its error text if it raised. Cancelling stops the task and waiting for the cancellation returns after it stopped; starting a task that was already started is refused, unknown tasks are reported as not found, and other tasks are unaffected.",
  ["histories", "schedules", "fault_sequences"],
  "every interleaving of schedule, start, cancel, host unregistration and host shutdown with tasks that return, raise, hang, fail in setup or construction, or finish immediately",
  "Tests run a single long-lived demo task through start and cancel.",
  ["streamtasks/system/task.py"],
  [("TaskHost.run_task / run_api", "streamtasks/system/task.py"), ("TaskManager.run_fetch_api / run_signal_api", "streamtasks/system/task.py"), ("TaskManagerClient", "streamtasks/system/task.py")],
  [("TaskManager.tasks", "live task instances and their status", "streamtasks/system/task.py"), ("TaskHost.tasks", "running task objects", "streamtasks/system/task.py")],
  ["TaskManagerClient results", "task status broadcasts"])
P("C18", "ASGI over the network behaves like calling the app directly",
  "For every ASGI application and client, running the app behind the network proxy delivers the same scope values and the same request, response and websocket events, in the same order and byte-identical, as calling the application directly, for any number of concurrent connections. When either side finishes, disconnects or raises, the connection ends on both sides and other connections and later ones are unaffected.",
  ["inputs", "schedules", "fault_sequences"],
  "every sequence of events (bodies, chunk sizes, headers, websocket text and binary frames), interleaving of concurrent connections, disconnects and app exceptions",
  "Tests make a few plain requests; concurrency, streaming, binary values and failures are not covered.",
  ["streamtasks/asgi.py"],
  [("ASGIProxyApp", "streamtasks/asgi.py"), ("ASGIAppRunner", "streamtasks/asgi.py"), ("ValueTransformer annotate/deannotate", "streamtasks/asgi.py")],
  [("per-connection ports and event queues", "one pair per connection", "streamtasks/asgi.py")],
  ["events seen by the app and by the caller"])
P("C19", "HTTP routing picks the first matching handler and answers exactly once",
  "A request is handled by the first registered route whose path pattern matches the entire path and whose method matches, with parameters equal to the matched text (a parameter spans slashes only if declared so); middlewares that pass a request on reach the next matching handler (a route's own handler passing it on means nothing answers it), and parameters never leak into other handlers or requests. Every request gets exactly one response start: the handler's, a 404 when nothing matches, or the status mapped to the error (400, 404, 500) when the handler fails before responding, and building a path from a pattern then matching it gives parameters that build the same path (the same ones wherever only one reading exists).",
  ["inputs", "programs", "schedules"],
  "every route table, nesting, pattern, path, method, handler behaviour (respond, pass on, raise before or after responding) and concurrent requests",
  "Tests check a few hand-written patterns and one router; the pattern/path space and error timing are open.",
  ["streamtasks/asgiserver.py", "streamtasks/asgi.py"],
  [("PathPattern.match/construct", "streamtasks/asgiserver.py"), ("ASGINext / ASGIHandlerStack / ASGIRouter routes", "streamtasks/asgiserver.py"), ("ASGIServer error handling, asgi_default_http_error_handler", "streamtasks/asgiserver.py")],
  [("scope state (params, next handler)", "per-request routing state", "streamtasks/asgiserver.py")],
  ["ASGI send events", "ctx.params"])
P("C20", "File and body responses are byte-exact and confined to their root",
  "A static file response carries exactly the file's bytes with a content-length equal to the bytes sent, for every file size and buffer size, and one final body event; request and response bodies and websocket messages of any size and chunking, and data URIs, are read and written byte-exactly. No request path makes the static file handler return content of a file outside its root directory; unknown, escaping and index-less directory paths get a 404.",
  ["inputs"],
  "every request path (dot segments, absolute, encoded, symlinked), file size including empty and exact multiples of the buffer size, and body chunking",
  "Tests serve one small file; traversal variants and buffer boundaries are not covered.",
  ["streamtasks/asgiserver.py"],
  [("static_files_handler / static_file_handler", "streamtasks/asgiserver.py"), ("HTTPContext.respond_file / respond_buffer", "streamtasks/asgiserver.py"), ("HTTPBodyReader / HTTPBodyWriter, decode_data_uri", "streamtasks/asgiserver.py")],
  [], ["ASGI send events"])
P("C21", "Stored entries survive a crash at any point of saving",
  "After saving returns, loading the database - also in a new process - gives exactly the saved entries, and if the process dies at any point while saving, the next load succeeds and gives either the previous or the new complete content. Reading entries never exposes internal state: changing a returned entry does not change the database.",
  ["crash_points", "inputs", "histories"],
  "every crash point of every save (before, between and after each file operation, and with a partially written buffer) over arbitrary entry lists",
  "Tests never interrupt a save; a torn write is only visible when the process dies inside it.",
  ["streamtasks/pydanticdb.py", "streamtasks/system/task_web.py", "streamtasks/system/named_topic_manager.py", "streamtasks/system/secret_manager.py", "streamtasks/system/connection_manager.py"],
  [("PydanticDB.save / load", "streamtasks/pydanticdb.py")],
  [("the JSON file on disk", "the persistent entry list", "streamtasks/pydanticdb.py")],
  ["a fresh PydanticDB on the same file"])
P("C22", "The store keeps ids unique and running deployments immutable",
  "In the deployment store no two deployments, tasks or dashboards ever share an id, creating and updating keep exactly the latest version of each entry, and while a deployment is running neither it nor any of its tasks can be created, changed, moved in or out, or deleted; refused operations change nothing in memory or on disk. A deployment's reported status is offline, scheduled or running according to its lifecycle, and its tasks carry their task instances exactly while it is scheduled or running.",
  ["histories", "inputs"],
  "every sequence of create, update, delete, schedule, start and stop operations over several deployments, tasks and dashboards, including restarts from disk",
  "Tests perform one happy path; refused operations and moves between deployments are not tried.",
  ["streamtasks/system/task_web.py", "streamtasks/pydanticdb.py"],
  [("TaskWebBackendStore", "streamtasks/system/task_web.py"), ("TaskWebBackend deployment endpoints", "streamtasks/system/task_web.py")],
  [("running_deployments", "deployments currently scheduled or running", "streamtasks/system/task_web.py")],
  ["store query results", "files on disk", "HTTP API answers"])
P("C23", "Named topics and secrets are stored, resolved and removed consistently",
  "The named-topic and secret services behave as key-value maps shared by all clients and by their HTTP APIs: a read returns the last value put under that key, a removed or never stored key is reported as not found, and listing shows each name once. A named topic resolves to the same topic id for every client, distinct names to distinct ids, and both services can run side by side and keep their content across restarts.",
  ["histories", "schedules", "inputs"],
  "every interleaving of put, get, delete, list and resolve from several clients and over HTTP, with restarts from disk",
  "There is no test of either service.",
  ["streamtasks/system/named_topic_manager.py", "streamtasks/system/secret_manager.py", "streamtasks/services/constants.py", "streamtasks/pydanticdb.py"],
  [("NamedTopicManager", "streamtasks/system/named_topic_manager.py"), ("SecretManager / SecretManagerClient", "streamtasks/system/secret_manager.py")],
  [("NamedTopicManager.topic_map", "name -> topic id", "streamtasks/system/named_topic_manager.py")],
  ["fetch results", "HTTP responses", "files on disk"])
# ---------------------------------------------------------------- utilities
P("C24", "Every consumer gets each produced message once, up to end of stream",
  "Each registered consumer receives every message its producer emits while the consumer is registered (that it accepts), exactly once and in order, and sees end of stream only after all of them; this holds when the producer runs in a thread, when the stream ends while messages are queued and for any number of consumers and concurrent gets. The producer runs while at least one consumer needs data, is never run twice at once, stops when nobody needs it and is stopped by closing it.",
  ["schedules", "histories"],
  "every interleaving of put, get, cancel, close, end of stream and consumer registration, with asyncio and threaded producers",
  "The tests for it cover single consumers with a fixed schedule; the end-of-stream race is what makes the container tests flaky.",
  ["streamtasks/utils.py", "streamtasks/media/container.py"],
  [("AsyncProducer / AsyncMPProducer", "streamtasks/utils.py"), ("AsyncConsumer.get/put/close", "streamtasks/utils.py")],
  [("AsyncConsumer._queue/_closed", "undelivered messages and end flag", "streamtasks/utils.py")],
  ["AsyncConsumer.get results", "producer run count"])
P("C25", "The raw-data buffer behaves like a list of payloads",
  "For every sequence of operations (append, pop from either end or any index, index get, set and delete, iteration, length, clear) the on-disk buffer gives the same results and errors as a list of payloads, with every payload byte-identical, and independent buffers never influence each other.",
  ["histories", "inputs"],
  "every operation sequence with arbitrary payloads and several buffers alive at once",
  "There is no test of it.",
  ["streamtasks/rawdatabuffer.py", "streamtasks/net/serialization.py"],
  [("RawDataBuffer index map over dbm keys", "streamtasks/rawdatabuffer.py")],
  [("_index_map/_key_counter", "order of keys", "streamtasks/rawdatabuffer.py")],
  ["buffer operations"])
P("C26", "Background tasks shut down strictly by priority; waits never miss events",
  "Shutting down a group of background tasks cancels them in ascending priority order and does not begin a higher priority before all lower-priority tasks have finished or their time-out has passed, and ends with no task left. Waiters on an observable flag, trigger or id are woken by the first change after they began waiting and never miss it, and reference-counted ids are present exactly while added more often than removed. A group that was shut down starts nothing more; tasks that ended are let go of.",
  ["schedules", "histories"],
  "every set of tasks with priorities, clean-up durations and exceptions; every interleaving of waits and changes",
  "Tests of these helpers are absent or single-shot.",
  ["streamtasks/utils.py", "streamtasks/system/builder.py"],
  [("AsyncTaskManager.cancel_all", "streamtasks/utils.py"), ("AsyncTrigger/AsyncBool/AsyncObservable", "streamtasks/utils.py"), ("IdTracker/AwaitableIdTracker/IdGenerator", "streamtasks/utils.py")],
  [("AsyncTaskManager._tasks", "live tasks with priority", "streamtasks/utils.py")],
  ["cancellation order", "wake-ups"])
P("C27", "JSON conversion is total and faithful",
  "Converting any value a message may carry for display always yields a structure the standard JSON encoder accepts in strict mode (no NaN or infinity) and never raises. Numbers, strings, booleans, nulls, lists (also empty ones and lists of pairs) and string-keyed mappings keep their value and shape, binary data becomes its hex text, and anything else becomes some text.",
  ["inputs"],
  "every nesting of scalars, containers, binary data, non-finite numbers, dates, objects and msgpack extension types",
  "There is no test of it.",
  ["streamtasks/utils.py", "streamtasks/system/task_web.py"],
  [("make_json_serializable", "streamtasks/utils.py")],
  [], ["return value", "topic-viewer websocket messages"])
# ---------------------------------------------------------------- tasks
P("C28", "Calculator formulas mean what standard arithmetic and logic say",
  "For every formula the calculator accepts, the number it emits equals the value of the formula under standard precedence, associativity and its documented functions and logical operators, computed from the latest value of each input, and each input message yields at most one output with that message's timestamp. A formula that cannot be evaluated for some inputs (division by zero, domain error) does not stop the task from answering later inputs.",
  ["inputs", "programs", "histories"],
  "every formula of the grammar up to the generated depth, every assignment of values including zero, negative, fractional and very large ones",
  "Tests evaluate a fixed list of formulas; operators and nestings not in the list are unchecked.",
  ["streamtasks/system/tasks/calculator.py"],
  [("calculator grammar and transformer", "streamtasks/system/tasks/calculator.py"), ("CalculatorTask input handling", "streamtasks/system/tasks/calculator.py")],
  [("latest value per input variable", "formula environment", "streamtasks/system/tasks/calculator.py")],
  ["task output topic"])
P("C29", "Logic tasks follow their truth tables for every message history",
  "The gate forwards exactly the messages allowed by its control input, pause states and fail mode at that time, unchanged and in order; the SR latch, switch, string matcher and message detector emit exactly the values their documentation defines for the history of inputs; all stamp outputs with the timestamp of the causing message. The media switch forwards only the packets of the input that its controls select, unchanged and in order, and begins (and continues, after leaving packets out) each input with a key frame. With synchronization on, the result depends only on message timestamps (control before data on ties), not on arrival interleaving.",
  ["histories", "schedules", "inputs", "configurations"],
  "every history of data, control, pause and invalid messages, every configuration, every arrival interleaving",
  "Only the gate has a test, with a limited set of events and unsynchronized inputs.",
  ["streamtasks/system/tasks/gate.py", "streamtasks/system/tasks/srlatch.py", "streamtasks/system/tasks/switch.py", "streamtasks/system/tasks/stringmatcher.py", "streamtasks/system/tasks/messagedetector.py", "streamtasks/system/tasks/media/mediaswitch.py"],
  [("GateState.get_open", "streamtasks/system/tasks/gate.py"), ("SRLatchTask.send", "streamtasks/system/tasks/srlatch.py"), ("SwitchTask._get_selected_index", "streamtasks/system/tasks/switch.py"), ("StringMatcherTask", "streamtasks/system/tasks/stringmatcher.py")],
  [("task state objects", "control values and pause flags", "streamtasks/system/tasks/gate.py")],
  ["task output topics"])
P("C30", "Text tasks transform every valid message and survive invalid ones",
  "The string concatenator, text formatter, number-to-text and time-to-text tasks emit, for every history of inputs, exactly the texts their documentation defines, in order and with the timestamp of the causing message. Messages of the wrong shape, or values that cannot be converted, produce no output and never end the task or alter later outputs.",
  ["histories", "inputs", "schedules"],
  "every history of valid, malformed and extreme messages, every configuration and arrival interleaving",
  "These tasks have no tests.",
  ["streamtasks/system/tasks/stringconcatenator.py", "streamtasks/system/tasks/textformatter.py", "streamtasks/system/tasks/numbertotext.py", "streamtasks/system/tasks/timetotext.py"],
  [("task receive loops", "streamtasks/system/tasks/stringconcatenator.py"), ("TextFormatterTask.send_value", "streamtasks/system/tasks/textformatter.py")],
  [], ["task output topics"])
P("C31", "Timing tasks keep every message, in order, at the right time",
  "The time buffer releases every message it received once, unchanged, in order and not before its configured delay; the replay buffer replays exactly the recorded messages in order with their original spacing and stops when told; the repeater emits the latest valid message at its rate; the timestamp updater changes only the timestamp; the synchronizer and named-topic tasks forward every message unchanged. A named output that takes over a topic announces whether it is paused. None of them loses, duplicates or alters data or ends because of a malformed message, and none modifies a message other subscribers share.",
  ["histories", "schedules", "inputs", "configurations"],
  "every history of timed, malformed and pause messages under virtual time, every configuration, with a second subscriber on the inputs",
  "These tasks have no tests.",
  ["streamtasks/system/tasks/timebuffer.py", "streamtasks/system/tasks/replaybuffer.py", "streamtasks/system/tasks/repeater.py", "streamtasks/system/tasks/timestampupdater.py", "streamtasks/system/tasks/synchronizer.py", "streamtasks/system/tasks/pulsegenerator.py", "streamtasks/system/tasks/namedinput.py", "streamtasks/system/tasks/namedoutput.py", "streamtasks/rawdatabuffer.py"],
  [("TimeBufferTask senders", "streamtasks/system/tasks/timebuffer.py"), ("ReplayBufferTask.play", "streamtasks/system/tasks/replaybuffer.py"), ("RepeaterTask._run_sender", "streamtasks/system/tasks/repeater.py"), ("set_timestamp_on_message / shallow_copy", "streamtasks/message/utils.py")],
  [], ["task output topics", "a second subscriber of the input topics"])
P("C32", "Audio is chunked, sequenced, mixed, scaled and measured sample by sample",
  "Raw audio buffers of every sample format and packed 8-bit image buffers convert to arrays and frames and back without changing a value. Chunkers give out every sample once and in order, each chunk as soon as it is full and stamped with the time of its first sample, without drift. The audio sequencer plays every sample once, in order and within two samples of its time, puts silence into gaps and leaves out only what overlaps earlier audio or comes too late. The mixer emits, as soon as every unpaused track has audio for it, the exact sum of its tracks (while the sum fits the format), for every chunking and arrival order; paused tracks delay nobody and after resuming play only what comes later. The volume scaler emits one message per message with each sample scaled and limited to the format's range, the volume meter one volume per full window. None of these tasks ends or stalls because of a malformed or wrong-sized message.",
  ["inputs", "histories", "configurations"],
  "every partition of the sample stream into buffers, chunk size, padding, rate, sample format, channel count, gap or overlap of timestamps, arrival order, pause history and malformed message",
  "There are no tests for the chunkers, sequencer, mixer, scaler, meter or buffer conversions beyond one codec round trip.",
  ["streamtasks/media/util.py", "streamtasks/media/audio.py", "streamtasks/media/video.py", "streamtasks/system/tasks/media/audiomixer.py", "streamtasks/system/tasks/media/audiovolumescaler.py", "streamtasks/system/tasks/media/audiovolumemeter.py"],
  [("AudioChunker / PaddedAudioChunker / AudioSmoother / AudioSequencer", "streamtasks/media/util.py"), ("audio_buffer_to_ndarray", "streamtasks/media/audio.py"), ("AudioMixerTask.send_next", "streamtasks/system/tasks/media/audiomixer.py")],
  [("AudioSequencer._sample_buffer", "audio waiting to be played", "streamtasks/media/util.py")], ["yielded chunks", "popped samples", "task output topics"])
P("C33", "Images are blended and placed exactly and within their buffers",
  "For every list of image buffers and both alpha layouts, blending reads and writes only inside its buffers and yields, pixel by pixel and channel by channel, the source-over composition of the images in order over black with full output alpha, using integer division by 255; of buffers of different or not pixel-aligned sizes it composes the whole pixels they have in common. The video mixer composes every round of its tracks' frames once, in track order over the configured background colour and stamped with the round's earliest time, leaving out paused tracks; the video layout places each image at the configured offset and size, cut at the edges, on a transparent image. Malformed and wrong-sized messages end neither task.",
  ["inputs", "histories", "configurations"],
  "every number of images, buffer length (including unequal, empty and not a multiple of the pixel size), content and alpha position; every layout geometry, pixel format, arrival order and pause history",
  "No test calls them; out-of-bounds accesses are invisible without instrumentation.",
  ["streamtasks/media/video_perf_all.cpp", "streamtasks/system/tasks/media/videomixer.py", "streamtasks/system/tasks/media/videolayout.py"],
  [("merge_images", "streamtasks/media/video_perf_all.cpp"), ("VideoMixerTask.submit_job / run_sync", "streamtasks/system/tasks/media/videomixer.py"), ("VideoLayoutTask.run_sync", "streamtasks/system/tasks/media/videolayout.py")],
  [("VideoTrackContext.last_message", "latest frame of a track", "streamtasks/system/tasks/media/videomixer.py")], ["returned bytes", "sanitizer reports", "task output topics"])
P("C34", "Encoding, reformatting and muxing keep every frame, in order, on time",
  "Packets keep their data, kind and times (a time of zero and times not divisible by the time base included) across messages and time bases. Video reformatting and transcoding emit frame counts equal to the duration times the target rate (cumulatively, never drifting by a frame), in order, at strictly increasing times that follow the input, in the requested size and format; resampling conserves duration and content; encoding then decoding gives back every frame or sample in order with its time. Muxing to and demuxing from a container gives every packet of every stream once, in order, up to the end of the file. The decoder, encoder, reformatter, resampler, activity meter, input and output container tasks do the same with stream messages, pass on pauses, are not ended by malformed messages or undecodable packets, and can be stopped at any moment, also while a thread is encoding, decoding or writing, leaving a readable file and a live process. A source or destination may end in a secret, which is resolved first; if it is not there the task fails, and while it is being resolved the task can be stopped.",
  ["inputs", "schedules", "configurations", "crash_points"],
  "every pair of frame rates, sizes, formats and codecs available here, lossless codecs for content, random stream lengths, every moment at which work can be stopped",
  "Tests use one codec configuration and a fixed length; the container tests are excluded because they are flaky; nothing stops a task while it works.",
  ["streamtasks/media/codec.py", "streamtasks/media/video.py", "streamtasks/media/audio.py", "streamtasks/media/container.py", "streamtasks/media/packet.py", "streamtasks/system/tasks/media/videodecoder.py", "streamtasks/system/tasks/media/videoencoder.py", "streamtasks/system/tasks/media/videoreformatter.py", "streamtasks/system/tasks/media/videoactivitymeter.py", "streamtasks/system/tasks/media/audiodecoder.py", "streamtasks/system/tasks/media/audioencoder.py", "streamtasks/system/tasks/media/audioresampler.py", "streamtasks/system/tasks/media/inputcontainer.py", "streamtasks/system/tasks/media/outputcontainer.py"],
  [("VideoReformatter", "streamtasks/media/video.py"), ("Encoder / Decoder / AVTranscoder", "streamtasks/media/codec.py"), ("AVInputStream / AVOutputStream", "streamtasks/media/container.py"), ("InputContainerTask._run_stream", "streamtasks/system/tasks/media/inputcontainer.py"), ("OutputContainerSynchronizer", "streamtasks/system/tasks/media/outputcontainer.py")],
  [("rel_frame_counter", "fractional output frame debt", "streamtasks/media/video.py"), ("AVOutputStream._dts_counter", "next decode time of a stream", "streamtasks/media/container.py")],
  ["decoded frames", "packets", "task output topics", "written files"])
P("C35", "Function tasks call the function once per complete input, one at a time",
  "A function task calls its function once for every valid input message received after all inputs have a value, with the latest value of each input, that message's timestamp and the configured config and state objects, never concurrently with itself, and emits each returned value of the declared type on its output with that timestamp (values of a wrong type are left out, the others are not). State persists across calls of one task and is not shared between tasks, malformed messages are ignored, and synchronous, asynchronous and threaded functions behave alike; a synchronized task takes the messages of all inputs in the order of their times. What the task says about itself (inputs, outputs, metadata, default config, editor fields) follows from the function's signature; every documented signature is accepted, whether its config is a dataclass or a model and whether it has outputs or not, and functions that cannot be run are refused when they are defined.",
  ["histories", "programs", "schedules"],
  "every supported signature (inputs, outputs, timestamp, config, state, async, threaded), message history and arrival interleaving, several tasks at once, alone or in a system with a task manager",
  "There is no test of function tasks; special arguments are only shown in the documentation.",
  ["streamtasks/system/fntask.py"],
  [("FnTaskConfig.from_function / execute", "streamtasks/system/fntask.py"), ("_FnTask._run_input with lock", "streamtasks/system/fntask.py"), ("FnTaskContext.run", "streamtasks/system/fntask.py")],
  [("_FnTask.param_values/state", "latest inputs and task state", "streamtasks/system/fntask.py")],
  ["recorded function calls", "task output topics", "task host metadata"])
P("C36", "Managed connection lists persist, and credentials never leave the store",
  "The connection manager's lists of connections and servers contain exactly the added and not removed urls, each at most once, survive restarts, acknowledged ones also a kill of the process; invalid urls are refused. Each listed entry has one running worker that stops when it is removed or the manager stops: its connected flag, running flag and number of connections say what is really there, announcements lead a client that lists again after each of them to the current state, and data passes over what is connected. Urls shown to clients never contain the password or auth value, and parsing a connection url gives the transport, endpoint, cost and handshake data the url states.",
  ["histories", "inputs", "crash_points"],
  "every sequence of add, remove, list and restart over urls of every scheme with and without credentials, costs and query parameters",
  "There is no test of the connection manager; url parsing is covered for a few urls.",
  ["streamtasks/system/connection_manager.py", "streamtasks/connection.py", "streamtasks/pydanticdb.py"],
  [("ConnectionManager add/remove handlers", "streamtasks/system/connection_manager.py"), ("extract_connection_data_from_url", "streamtasks/connection.py")],
  [("stored url lists", "desired connections", "streamtasks/system/connection_manager.py")],
  ["HTTP API answers", "running workers"])
P("C37", "The web API relays the live state of topics, deployments, task hosts and paths",
  "A browser that opens a topic view (by topic, or by a deployment's topic number) receives every message published and every pause change from then on, each once, in order, as JSON, and the topic's publisher sees demand exactly while a view is open. A browser that lists the task hosts, or the tasks of a deployment, after its updates stream has been announced as ready, and then applies the updates, always arrives at the true state, whatever ended or registered meanwhile; a deployment never shows an ended task as running. Pages, posts and websockets under a task host, a task or a registered path are answered by what is registered now, not by what was registered before; unknown ones are refused; every request gets an answer.",
  ["histories", "schedules"],
  "every order of opening and leaving views, publishing, pausing, hosts coming, going and returning changed, deployments starting and tasks ending at any moment, over networks with any delays",
  "The tests of the web backend call a few endpoints once; none opens a websocket or registers a host twice.",
  ["streamtasks/system/task_web.py", "streamtasks/client/broadcast.py", "streamtasks/system/task.py", "streamtasks/asgi.py"],
  [("ws_topic_handler", "streamtasks/system/task_web.py"), ("deployment_task_instance_updates / run_deployment_task_listener", "streamtasks/system/task_web.py"), ("get_task_host_asgi_handler / get_task_asgi_handler", "streamtasks/system/task_web.py"), ("BroadcastingServer / BroadcastReceiver", "streamtasks/client/broadcast.py")],
  [("TaskWebBackend.path_registrations", "registered paths", "streamtasks/system/task_web.py"), ("RunningDeployment.task_instances", "last known state of each task", "streamtasks/system/task_web.py"), ("BroadcastingServer.namespaces", "topic of each kind of update", "streamtasks/client/broadcast.py")],
  ["HTTP answers", "websocket messages", "publisher demand"])

P("C38", "User interface tasks show what they receive and send what is set in them",
  "A value posted to a slider, switch, radio button group or text input is sent exactly once on the output, and again at every configured interval until the next value; after any burst of posts the last message sent, the value asked for and what every open page shows are the same value that was posted; rejected posts change nothing. A text, status, bar or frequency display shows on every open page, whenever it was opened, what its input history amounts to. Every page of a video viewer is sent the packets since it was opened, unaltered and in order; a web viewer shows the configured address whatever characters it contains. Malformed messages neither change what is shown nor end the task.",
  ["histories", "schedules", "inputs", "configurations"],
  "every history of posted and received values, malformed ones included, every moment pages are opened and closed, every configuration, over networks with any delays",
  "No test runs a user interface task.",
  ["streamtasks/system/tasks/ui/controlbase.py", "streamtasks/system/tasks/ui/sliderui.py", "streamtasks/system/tasks/ui/radiobuttonsui.py", "streamtasks/system/tasks/ui/textdisplay.py", "streamtasks/system/tasks/ui/audiofrequencydisplay.py", "streamtasks/system/tasks/ui/videoviewer.py", "streamtasks/system/tasks/ui/webviewer.py"],
  [("UIBaseTask._run_web_server", "streamtasks/system/tasks/ui/controlbase.py"), ("UIControlBaseTask.run_other", "streamtasks/system/tasks/ui/controlbase.py"), ("TextDisplayTask.run_other", "streamtasks/system/tasks/ui/textdisplay.py"), ("VideoViewerTask.run", "streamtasks/system/tasks/ui/videoviewer.py")],
  [("UIBaseTask._value", "the value shown and sent", "streamtasks/system/tasks/ui/controlbase.py")],
  ["HTTP answers", "websocket messages", "task output topics"])

P("C39", "Whatever the editor of a task host lets a user configure, the host runs",
  "Every task host announces an editor that fits what the host is configured with: every field edits an existing setting whose default the field itself allows, inputs and outputs carry the metadata of the settings they mirror, selecting an item sets exactly settings that exist. A task started over the task manager with any configuration made with this editor reports running, reads exactly the configured input topics and provides exactly the configured output topics, goes on until it is stopped whatever kinds of messages arrive on its inputs, and, stopped, reports that and gives all its topics back; afterwards the host can start another.",
  ["inputs", "configurations", "histories"],
  "every task host of the system (devices, models and their libraries replaced by stand-ins), every configuration its editor can produce, every kind of message, over networks with any delays",
  "Tests start a few tasks with one configuration each and never read the announced editors.",
  ["streamtasks/system/configurators.py", "streamtasks/system/helpers.py", "streamtasks/system/task.py", "streamtasks/system/tasks", "streamtasks/system/tasks/media/utils.py"],
  [("static_configurator", "streamtasks/system/configurators.py"), ("multitrackio_configurator", "streamtasks/system/configurators.py"), ("MediaEditorFields", "streamtasks/system/tasks/media/utils.py"), ("TaskHost.run_task", "streamtasks/system/task.py")],
  [("TaskHost.metadata", "the announced editor", "streamtasks/system/task.py")],
  ["task host metadata", "task status reports", "topic registrations on the wire"])
P("C40", "Nodes started as processes work as one system",
  "Started from the command line, one node with the core and others connected to each other by any supported kind of url, every node serves the same user interface and the same view of task hosts, deployments, named topics and paths. A deployment whose tasks are spread over the nodes runs when scheduled and started over any node, and what is set on one node is shown on the others. A node the user stops ends soon with exit status 0, closes its ports and takes its task hosts with it; a node that was killed can be started again and is used again; when a node that connects others goes and comes back, those reconnect and go on. Deployments, tasks, named topics and servers that were entered are there again after the whole system was stopped or killed and started again.",
  ["histories", "crash points", "configurations"],
  "every tree of nodes over tcp, websockets, unix and node sockets with and without credentials and costs, every spread of tasks, every order of stopping, killing and starting nodes",
  "No test starts the program; the system's builder and command line are not tested at all.",
  ["streamtasks/bin.py", "streamtasks/system/builder.py", "streamtasks/system/helpers.py", "streamtasks/system/task.py", "streamtasks/system/task_web.py", "streamtasks/system/connection_manager.py", "streamtasks/connection.py", "streamtasks/asgi.py", "streamtasks/env.py"],
  [("main", "streamtasks/bin.py"), ("SystemBuilder.start_system", "streamtasks/system/builder.py"), ("SystemBuilder.wait_done", "streamtasks/system/builder.py"), ("AsyncTaskManager.cancel_all", "streamtasks/utils.py"), ("TaskHost.unregister", "streamtasks/system/task.py"), ("HTTPServerOverASGI.run", "streamtasks/asgi.py")],
  [("SystemBuilder.tasks", "the workers of a node, ended in order of priority", "streamtasks/system/builder.py"), ("TaskManager.task_hosts", "the hosts of the whole system", "streamtasks/system/task.py")],
  ["HTTP and websocket answers of every node's web port", "exit statuses", "open ports"])
P("C41", "Screens, cameras, sound devices and models are used as configured",
  "A screen capture sends pictures of exactly the configured size and pixel format showing the part of the display that was configured, wherever it starts; a camera's pictures are the frames the camera gave, in order; a recording is the sound the device gave, every sample once, in the configured format; playing plays every sample that was received, once and in order. The device lists a host offers are the devices there are. Models are given exactly the audio or text received and what they return is sent with the right times: enhanced audio takes the place of its original, recognized text belongs to its audio, sentences of a text are spoken one after another, a chat answers every message knowing the conversation, rendered text shows the latest text with the configured font, size and place. Messages that are malformed, and audio of the wrong length, end none of these tasks; a device that fails ends the task with its error, and however a task ends, the device it used is released.",
  ["inputs", "configurations", "schedules", "fault_sequences"],
  "every device geometry, format, rate and buffer size, every content and timing of audio, text and pauses, malformed messages, devices that fail at any moment, stops at any moment; over stand-ins for the devices and models",
  "These tasks need hardware or models that are not there when tests run, so they have no tests.",
  ["streamtasks/system/tasks/media/screencapture.py", "streamtasks/system/tasks/media/videoinput.py", "streamtasks/system/tasks/media/audioinput.py", "streamtasks/system/tasks/media/audiooutput.py", "streamtasks/system/tasks/media/textrenderer.py", "streamtasks/system/tasks/inference"],
  [("ScreenCaptureTask", "streamtasks/system/tasks/media/screencapture.py"), ("AudioInputTask / AudioOutputTask callbacks", "streamtasks/system/tasks/media"), ("model workers in threads", "streamtasks/system/tasks/inference")],
  [("audio buffers between device thread and task", "samples received and not yet played or sent", "streamtasks/system/tasks/media")],
  ["task output topics", "calls made on the stand-in devices and models"])
with open(OUT, "w") as fd:
  for r in ROWS: fd.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(ROWS), "properties")
