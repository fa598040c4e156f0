#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements are edited in one place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe, hook=False, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=mechanism, where=files[0])], observe_at=[observe],
                     hook_needed=("message tap between the nodes of an in-process cluster" if hook else None),
                     state=[dict(name=n, meaning=m, where=files[0]) for n, m in state])))

C = "coerce/src/"
p("A01", "Each accepted message is handled exactly once, in order, one at a time",
  "Every message an actor reference accepts while the actor is running and not asked to stop is handled exactly once by that actor, provided no handler panics; messages are handled one at a time, and messages sent one after another are handled in the order in which they were sent. A sender that waits for a result receives the result of its own message and of no other.",
  ["schedules", "histories", "inputs"], "all interleavings of sends (waiting and fire-and-forget), closures executed on the actor, and handler completions, from any number of senders",
  "tests send a few messages from one task and await each one; no test interleaves senders with a handler that is still running",
  [C+"actor/refs/mod.rs", C+"actor/message/mod.rs", C+"actor/lifecycle.rs"],
  "unbounded mailbox drained by a single loop; a result channel per message", "results returned to senders; order and overlap of handler executions recorded by the actor itself",
  state=[("mailbox", "messages accepted and not yet handled"), ("busy", "the message being handled")])
p("A02", "Start and stop hooks bracket message handling, and stop waits for the end",
  "An actor's start hook completes before its first message is handled, its stop hook runs exactly once after its last message, and nothing is handled afterwards. As long as no hook or handler panics, messages accepted before a stop request are handled before the actor stops; messages behind it are never handled and their waiting senders get an error; a stop call that succeeds returns only after the stop hook has finished. Every request and stop call comes back, whenever the actor stopped.",
  ["schedules", "histories"], "all interleavings of creation, sends, stop requests from outside and from inside a handler, stop requests during the start hook, and repeated stops",
  "tests stop an idle actor once; stops racing queued messages, stops issued by a handler or by the start hook, and double stops are not reached",
  [C+"actor/lifecycle.rs", C+"actor/refs/mod.rs", C+"actor/context.rs", C+"actor/mod.rs"],
  "status machine Starting/Started/Stopping/Stopped in the actor loop; stop is an ordinary message", "hook and handler log of the actor; results of send, notify and stop; result of the creation call",
  state=[("status", "lifecycle phase of the actor")])
p("A03", "A tracked actor can be found by its id exactly while it is running",
  "Looking up an id in an actor system returns the running tracked actor created under that id, of the requested type, from the moment its creation returned until its stop completed, as long as the id is not reused before then; after that, for an anonymous actor or for the wrong type, nothing is returned. Shutting the system down stops every tracked actor and returns only when their stop hooks have run, and it does return, also when actors look others up or create them in the meantime.",
  ["histories", "schedules"], "all histories of creating (tracked, anonymous, failing in the start hook), stopping, re-creating under the same id, looking up and shutting down",
  "tests look one actor up before and after one stop; re-creation under an id, failed starts and shutdown are not covered",
  [C+"actor/system/mod.rs", C+"actor/scheduler/mod.rs", C+"actor/lifecycle.rs"],
  "scheduler actor keeps an id-to-reference map updated on creation and on stop", "results of lookups and of messages sent to the reference found",
  state=[("tracked", "id to running actor")])
p("A04", "Children stop with their parent, and each stop is reported to it exactly once",
  "A supervised child id is unique among the live children of a parent; when an actor stops, all its descendants stop too, each running its stop hook exactly once, and a parent hears of a stopped child only after that child's own children have stopped. A running parent is told of each child it spawned that stopped exactly once and no longer lists it.",
  ["histories", "schedules"], "all trees of supervised actors (plain, deferred and attached children) and all orders of spawning and stopping their members",
  "one test stops a two-level tree from the top; stops of inner nodes, duplicate ids, deferred spawns and respawns are not reached",
  [C+"actor/supervised.rs", C+"actor/context.rs", C+"actor/lifecycle.rs", C+"actor/mod.rs"],
  "a context's drop stops the children, then notifies the parent", "stop hook log, child-stopped hook log, list and count of children",
  state=[("children", "live children of each actor")])
p("A05", "A watcher gets exactly one termination notice per watched actor",
  "An actor that watches another running actor receives exactly one termination notice for it, after that actor's stop hook has run and however the actor was asked to stop; it receives none while the actor runs and none if it stopped watching before. Watching twice does not duplicate the notice, and other watchers are unaffected.",
  ["histories", "schedules"], "all histories of watch, unwatch, stop of the watched actor, stop of a watcher, over several actors",
  "one test watches one actor and stops it; unwatch, double watch, several watchers and watcher termination are not covered",
  [C+"actor/watch/mod.rs", C+"actor/watch/watchers.rs", C+"actor/lifecycle.rs"],
  "per-actor watcher table notified when the loop ends", "termination notices received by the watchers",
  state=[("watchers", "who watches whom")])
p("A06", "Timers and delayed messages fire on schedule and never after cancellation",
  "A timer delivers one tick per elapsed period while its actor keeps up, the first one at once or after one period depending on how it was started, and none once it has been stopped or its actor has stopped. A delayed message is delivered exactly once, after its delay and not before, unless it was cancelled first, in which case it is never delivered.",
  ["histories", "schedules", "configurations"], "all interleavings of starting, stopping and cancelling timers and delayed messages with the passage of time",
  "one test counts the ticks of one timer against the wall clock; stops between ticks, cancellation races and delayed messages are not covered",
  [C+"actor/scheduler/timer.rs", C+"actor/refs/mod.rs"],
  "a task per timer with a stop channel; a task per delayed message with a cancellation token", "ticks and messages received by the actor, against virtual time",
  state=[("due", "next tick or delivery time of each timer")])
p("A07", "A worker pool hands each request to exactly one worker, in rotation",
  "Every request sent to a worker pool is handled exactly once by exactly one of its workers and its sender gets that worker's result. Requests go to the workers in rotation, so any two workers differ by at most one in the number of requests they were given, and a busy worker delays only the requests given to it.",
  ["schedules", "histories", "configurations"], "all pool sizes and all interleavings of requests and worker completions",
  "one test sends requests to an idle pool and looks at the state afterwards; distribution and a blocked worker are not observed",
  [C+"actor/worker.rs"], "queue of worker references rotated at each dispatch", "which worker handled which request, results at the senders",
  state=[("next", "worker to be used next")])
p("B01", "A restarted persistent actor recovers exactly its acknowledged history",
  "After any sequence of persisted events, event batches, snapshots, trims of old events, stops and crashes, a new incarnation of a persistent actor recovers the latest snapshot followed by exactly the events acknowledged after it (and at most the one write in flight when it crashed), each once and in the order they were persisted. Nothing acknowledged is lost, repeated or reordered, and actors with different keys never see each other's events.",
  ["histories", "crash_points", "fault_sequences"], "all histories of persist, batch, snapshot, trim, restart and storage failure, with a restart possible after every storage operation",
  "tests recover once after a handful of events with the in-memory journal; events after a snapshot, several restarts and trims are never combined",
  [C+"persistent/journal/mod.rs", C+"persistent/actor.rs", C+"persistent/recovery.rs", C+"persistent/batch.rs"],
  "sequence counter shared by events and snapshots; recovery reads the snapshot, then the events after it", "snapshot and events handed to the actor's recovery handlers",
  state=[("journal", "entries in storage with their sequence numbers"), ("last sequence", "counter of the running incarnation")])
p("B02", "Journal sequence numbers strictly increase and never repeat",
  "Every event and snapshot an actor writes carries a sequence number greater than that of everything it wrote before, within one run, inside a batch and across restarts and failed writes, and the actor reports the number of its last write. A snapshot's number is greater than those of the events it replaces and less than those of the events that follow, and trimming asks for the removal of nothing above the latest snapshot.",
  ["histories", "crash_points", "fault_sequences"], "all histories of persist, batch, snapshot, trim, failed write and restart",
  "no test looks at the numbers across a snapshot, a failed write or a restart",
  [C+"persistent/journal/mod.rs", C+"persistent/recovery.rs", C+"persistent/context.rs"],
  "last sequence id advanced after each successful write", "numbers seen by the storage provider and reported by the actor",
  state=[("last sequence", "number of the last entry written or recovered")])
p("B03", "A failed persist follows its policy and is never acknowledged",
  "When storage rejects a write, the actor applies its configured policy and nothing else: return the error, retry at most the configured number of times or until success, stop the actor, or panic; when the retries are used up the error is returned and the actor stops. A persist call reports success only if the write was stored, stores it at most once, and the actor's later writes are unaffected by earlier failures.",
  ["fault_sequences", "configurations"], "all policies, retry limits and patterns of failing and succeeding writes, for events, batches and snapshots",
  "tests cover two policies with one fault pattern each and only for single events",
  [C+"persistent/failure.rs", C+"persistent/actor.rs"], "retry loop around each write with a policy switch", "results of persist calls, number of attempts seen by storage, final actor status")
p("B04", "A failed recovery follows its policy; no actor runs on partial state",
  "When reading the journal fails or the bytes of an entry cannot be decoded, the actor retries as its recovery policy says, stops, or panics; it handles messages only after a complete recovery, and creation fails otherwise. The post-recovery hook runs exactly when recovery completed, and the failure hook runs once per failed attempt.",
  ["fault_sequences", "configurations"], "all recovery policies and all patterns of failing reads and undecodable entries",
  "tests cover one policy each with a storage that always fails or fails a fixed number of times",
  [C+"persistent/recovery.rs", C+"persistent/failure.rs", C+"persistent/actor.rs"], "recovery loop with policy switch; start aborted through the lifecycle status", "result of the creation call, hooks run, events replayed, number of reads attempted")
p("B05", "Journal storage returns exactly what was written",
  "For every history of operations on a journal, the in-memory and the Redis storage return the last snapshot written, the entries after a given snapshot, a single entry by its number and the entries of a range (both ends included), exactly as written and in sequence order, per key. Deleting up to a snapshot or deleting everything removes only entries of that key within the request and keeps the rest readable.",
  ["histories", "inputs"], "all histories of writes, batch writes, snapshot writes, reads, range reads and deletions over several keys",
  "tests check each operation once on a fixed journal; range reads on the in-memory storage are not tested",
  [C+"persistent/journal/provider.rs", "providers/persistence/coerce-redis/src/journal.rs", "providers/persistence/coerce-redis/src/lib.rs", C+"persistent/journal/storage.rs"],
  "vector per key with index arithmetic (in-memory), sorted set and key per journal (Redis)", "values returned by every storage operation",
  state=[("store", "entries and snapshots per key")])
p("C01", "A shard is allocated to at most one host, and only to a ready one",
  "At every moment a shard is allocated to at most one node, the coordinator's view by shard agrees with its view by node, and every new allocation goes to a ready node with the fewest shards. Asking again for an allocated shard returns the same node until it is rebalanced, and a shard allocated before a coordinator restart is allocated again after it.",
  ["histories", "fault_sequences"], "all histories of allocation requests, nodes joining, leaving and returning, failed journal writes and coordinator restarts",
  "one test allocates a single shard on a single node",
  [C+"sharding/coordinator/allocation.rs", C+"sharding/coordinator/mod.rs", C+"sharding/coordinator/discovery.rs", C+"sharding/coordinator/stats.rs"],
  "two maps updated together by one persistent singleton actor", "allocation replies and sharding statistics",
  hook=True, state=[("shards", "shard to node"), ("hosts", "node to status and shards")])
p("C02", "Shards of a lost node move to the remaining ones and joins even out the load",
  "When a node is lost every shard it held is allocated to a remaining ready node, and none stays on it. When a node joins or returns, shards move until no node exceeds the even share by more than what cannot be divided, and shards of nodes within their share are not moved.",
  ["histories", "configurations"], "all distributions of shards over nodes and all sequences of joins, losses and returns",
  "one test terminates one node of two",
  [C+"sharding/coordinator/balancing.rs", C+"sharding/coordinator/discovery.rs"],
  "take the shards of the lost node and re-allocate; move the surplus of overloaded nodes after a delay", "sharding statistics after each event; requests to entities", hook=True)
p("C03", "A shard starts on its new node only after the old one has stopped it",
  "When a shard is moved between live nodes, the entity instances of the old node have stopped before the shard runs on the new node, so at no moment do two nodes run the same entity. The move completes once the old node has stopped the shard, whatever state the shard was in when the request arrived. (Allocation and stop messages of one shard reach a host in the order the coordinator sent them; a node declared lost has stopped.)",
  ["schedules", "histories"], "all delays of the messages between the coordinator and the shard hosts and all orders across shards and hosts, with the shard starting, running, stopping or absent at the old node",
  "rebalancing between live nodes is not tested at all",
  [C+"sharding/coordinator/balancing.rs", C+"sharding/host/mod.rs", C+"remote/system/rpc.rs"],
  "stop request with a reply correlated by id, then re-allocation", "start and stop log of entity instances per node; statistics", hook=True)
p("C04", "Every request to a sharded entity gets exactly one answer from that entity",
  "A request to a sharded entity sent from any node is delivered to the instance of that entity on the node its shard is allocated to, handled exactly once, and the sender gets that entity's result, also when it was sent before the shard was allocated or while it was starting. A request that reaches a node which does not run the shard, or whose shard is stopping while it moves, is answered with an error; no request between live nodes is left without an answer and none is handled twice. The same entity always maps to the same shard on every node, and shards of other entities do not affect it.",
  ["schedules", "histories"], "all interleavings of requests from several nodes with allocation, shard start, moves of shards and the messages between nodes",
  "tests await one request after another on a settled cluster",
  [C+"sharding/host/request.rs", C+"sharding/host/mod.rs", C+"sharding/shard/mod.rs", C+"sharding/mod.rs"],
  "requests buffered until the shard is allocated and ready, then forwarded; reply correlated by id", "results at the senders, handler log of entities per node", hook=True)
p("C05", "An entity starts once, on demand, and comes back with its shard",
  "An entity is started by the first request that carries its recipe, with that recipe, and never a second time while its shard runs; requests arriving while it starts are all delivered to it once it has started. A request without a recipe for an unknown entity fails as not found, a message type the entity does not support fails as not supported, and after the shard restarts or moves every started entity runs again with its recipe.",
  ["histories", "schedules", "crash_points"], "all histories of requests with and without recipe to several entities of a shard, slow and failing entity starts, and shard restarts",
  "one test starts one entity; slow starts, missing recipes, failing starts and recovery are not covered",
  [C+"sharding/shard/mod.rs", C+"sharding/shard/recovery.rs", C+"sharding/shard/message.rs"],
  "entity table with a state machine per entity, journal of started entities", "start log of entities, results at the senders", hook=True)
p("D01", "At most one instance of a cluster singleton runs at any time",
  "In a cluster whose members know each other, at most one instance of a singleton is between the start of its start hook and the end of its stop hook at any moment, whatever the order in which leader changes, joins, departures and lease messages are seen by the members (messages from one member to another arriving in the order sent).",
  ["schedules", "histories"], "all interleavings of membership and leader events and of lease messages between up to four nodes, with slow singleton starts and stops",
  "one test starts two nodes and sends one message; no leader change or departure is tested",
  [C+"singleton/manager/mod.rs", C+"singleton/manager/lease.rs", C+"singleton/manager/start.rs"],
  "lease requested from and acknowledged by every other manager before starting", "start and stop hooks of the instances on each node", hook=True,
  state=[("state", "phase of the manager on each node"), ("net", "messages in flight")])
p("D02", "The singleton runs on the leader once its members agreed, and follows it",
  "Once a leader is known to all members and their messages are delivered, an instance runs on the leader's node; when leadership moves to another member, the old instance stops and an instance starts on the new leader's node; when the leader's node leaves, an instance starts on the next leader's node.",
  ["histories", "schedules"], "all sequences of agreed leader changes, joins and departures and all delivery orders of the lease messages",
  "the one test never changes the leader",
  [C+"singleton/manager/mod.rs", C+"singleton/manager/lease.rs", C+"singleton/manager/start.rs"],
  "lease hand-over between managers", "which node runs an instance once the cluster is quiet", hook=True)
p("D03", "Messages to the singleton are held while none runs and delivered once",
  "A message sent through a singleton handle on any node, waiting or fire-and-forget, is never handled twice; while the node knows of no running instance it is held and handed to the next one announced, and while an instance runs it is handled by it and a waiting sender gets that instance's result. Only a message that reaches an instance already stopping or gone may fail, with an error to a waiting sender. Sending never stops the handle from working.",
  ["schedules", "histories"], "all interleavings of sends from every node with start, stop and move of the instance",
  "one test sends one waiting message on each node of a settled cluster",
  [C+"singleton/proxy/mod.rs", C+"singleton/proxy/send.rs", C+"singleton/mod.rs"],
  "proxy actor per node with a buffer flushed when an instance is announced", "messages handled by the instances, results at the senders", hook=True)
p("E01", "The leader is the oldest healthy member, and every change of it is announced",
  "After each heartbeat the leader a node reports is the longest-running member it considers healthy, ties broken by node id, so nodes with the same view elect the same leader. A change of leader is announced exactly once with the new leader, the joined announcement is made exactly once, with the leader and the member list, and only when the configured minimum number of healthy members, itself included, is present.",
  ["histories", "configurations", "fault_sequences"], "all histories of members joining, pings succeeding, timing out and failing, members terminating, and all minimum sizes",
  "one test observes the leader of a two-node cluster for a fixed time",
  [C+"remote/heartbeat/mod.rs", C+"remote/cluster/node.rs", C+"remote/system/cluster.rs"],
  "periodic evaluation of the last ping of each node; comparison with the last leader", "reported leader, cluster events received by a subscriber", hook=False,
  state=[("status", "health of each node"), ("leader", "current leader")])
p("E02", "A node's reported health follows its pings",
  "A member whose last ping was answered recently is reported healthy, one whose answers are late or missing beyond the first limit is reported unhealthy, and one silent beyond the second limit, disconnected or announced as shut down is reported terminated. A node always reports itself healthy and keeps every member it knows in its list.",
  ["histories", "fault_sequences", "configurations"], "all sequences of ping outcomes and elapsed times for each member, and all limits",
  "one test waits for one heartbeat of healthy nodes",
  [C+"remote/heartbeat/mod.rs", C+"remote/cluster/node.rs", C+"remote/actor/registry.rs"],
  "status recomputed from the last ping at each tick", "status of each member in the node list",
  state=[("pings", "last ping outcome per node")])
p("E03", "Joining one member makes every member know every other",
  "When nodes join through any seed address of the cluster, every member ends up knowing every other member under its own id and address, can message it, and has announced it exactly once. A node that shuts down completes its shutdown and is reported terminated by the others, and neither that nor the loss of a node makes them forget anyone else.",
  ["histories", "schedules", "configurations"], "all join orders and seed choices of up to five nodes, several joining at once, with shutdowns and crashes in between",
  "tests form one fixed topology",
  [C+"remote/cluster/discovery/mod.rs", C+"remote/net/client/connect.rs", C+"remote/net/server/session/mod.rs", C+"remote/cluster/builder/worker.rs"],
  "identify and handshake messages exchanging known nodes", "node lists and cluster events of every member")
p("E04", "Only peers with a valid token are served, and bad peers harm nobody",
  "A connection is served only after it presented a token valid under the node's secret and not expired; any other first message, garbage or silence leads to no service for that connection. Such connections never prevent other peers from connecting and being served, nor the node from shutting down.",
  ["inputs", "schedules", "configurations"], "all tokens, first messages and orders of good and bad connections",
  "tests check the token function and one rejected join",
  [C+"remote/net/server/session/mod.rs", C+"remote/net/server/session/store.rs", C+"remote/net/security/auth/jwt.rs", C+"remote/net/message.rs"],
  "token checked in the session's start hook before the receive loop is started", "replies on raw connections to the node")
p("F01", "Each remote request gets exactly its own reply",
  "A request to an actor on another node is handled exactly once there and the sender receives the result of its own request, or an error of the same kind the remote side produced (unknown actor, unsupported message, message or result that cannot be encoded or decoded), and never another request's result. Once every request has been answered no node keeps any request as in flight.",
  ["schedules", "histories", "inputs"], "all interleavings of concurrent requests, in both directions, with results completing in any order and every kind of failure",
  "tests await single requests; concurrent ones and most error kinds are not covered",
  [C+"remote/actor_ref.rs", C+"remote/system/rpc.rs", C+"remote/handler.rs", C+"remote/net/message.rs", C+"remote/net/server/session/mod.rs", C+"remote/net/client/receive.rs"],
  "table of pending requests keyed by a fresh id; replies carry the id", "results at the senders, handler log of remote actors, number of requests in flight",
  state=[("requests", "pending requests per node")])
p("F02", "An actor is located on the node that runs it, and an id is deployed once",
  "While the members of a cluster stay the same, an actor created as tracked on any of them can be located from every member and the reference found reaches it; an id nobody registered is not located. Deploying an actor on a chosen node, the own one included, creates it there with the given recipe and id and returns a reference that reaches it; deploying an id that can already be located, or one that the target cannot create, fails with an error and creates nothing.",
  ["histories", "configurations"], "all placements of actors over up to three nodes and all orders of creation, deployment and lookup from every node",
  "tests locate or deploy one actor",
  [C+"remote/actor/registry.rs", C+"remote/system/actor.rs", C+"remote/cluster/node.rs", C+"remote/net/server/session/mod.rs"],
  "directory entry on the node chosen by consistent hashing of the id", "lookup results and replies of the actors found")
p("F03", "Each published message reaches every current subscriber of its topic once",
  "A message published to a topic is delivered exactly once to every actor subscribed to that topic and key at that time, in publication order for subscribers on the publishing node, and to nobody else; a cluster-wide publication reaches the subscribers on every member and a local one only those on the publishing node. After an actor unsubscribed or stopped nothing more is delivered to it and others are unaffected.",
  ["histories", "schedules", "inputs"], "all histories of subscribe, unsubscribe, publish (local and cluster-wide) over several topics, keys, subscribers and nodes, with slow subscribers",
  "tests publish a few messages to one subscriber",
  [C+"remote/stream/mediator/mod.rs", C+"remote/stream/pubsub.rs", C+"remote/stream/mod.rs"],
  "mediator actor with one broadcast channel per topic key and a forwarding task per subscription", "messages received by each subscriber",
  state=[("topics", "subscribers per topic and key")])

assert len({x["id"] for x in P}) == len(P)
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
