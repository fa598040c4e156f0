#!/usr/bin/env python3
"""Writes DESIGN.md: the text below, plus tables taken from checks.py, known_findings.json and seeded/*/meta.json."""
import json, os, sys, glob
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path.insert(0, V)
import checks
props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))}

HEAD = """# Design

## Technique and language

Everything is decided by explicit **TLA+** specifications checked with TLC. TLA+ was chosen over Quint because TLC does all
four things needed here with one semantics: exhaustive search of the bounded state space, export of one behaviour per abstract
transition (an action constraint that prints the history), seeded simulation of long behaviours, and validation of recorded
executions against a trace specification. Apalache / `quint verify` add nothing for these finite, data-light models, and
`quint run` only samples.

Each property's check (`run.py PID`) has stages of four kinds (`checks.py`):

* **mc** - TLC explores the specification exhaustively within the stated constants and checks the property's invariants and
  action properties. This shows that the *specified design* has the property for every schedule, history and crash point in the bounds.
* **cover** - TLC explores the state graph again (one representative per state, or per `View`) and prints, for every transition,
  a shortest history ending in it. Prefixes of other histories are dropped, the rest are replayed against the real code built from
  /repo (harness crate, path dependency). After *every* step what the code shows (results, logs of the actors, node lists, frames on
  the wire ...) is compared with what the specification says (`Obs`). So every transition of the bounded specification is executed
  on the real code at least once, and a deviation at any step is a violation with the history as its replay file.
* **sim** - TLC `-simulate` prints long random behaviours with larger constants (seeded by VERIF_SEED), replayed the same way.
* **trace** - the real code runs with real concurrency; its events are recorded and TLC checks that the recording is a behaviour of
  a trace specification.

The specification is the oracle: nothing in the harness decides what is right; it only performs the steps, projects what it
sees into the vocabulary of `Obs` and compares. Expected values can leave a choice open (`"a|b"`, `"any"`) where the code is free.

How steps are made deterministic: actors under test block on gates (in start hooks, handlers, stop hooks, storage calls, entity
starts), so an interleaving of the specification is a sequence of gate openings; local systems run on a current-thread tokio
runtime with paused time, "settled" being: no task can run. The cluster-level checks of sharding and singletons run several real
nodes in one process on that runtime, with the frames between nodes taken over by the one hook in /repo (`cfg(coerce_verif)`, in
`notify_node`): the specification chooses when each message between nodes is delivered. Checks of the transport itself (F*, E03,
E04) use real TCP on loopback addresses of their own and wait until the expected observation appears (a wrong one that goes away
in time is accepted, one that stays is not), and then once more to see that it stays.

`run.py` rebuilds the harness from /repo's working tree first (`build.sh`), writes `evidence/PID.json`, prints VIOLATION lines
with replay files (`run.py PID --replay FILE` repeats one), and exits 2 on tool failures (never 1). Guards against vacuity: every
cover/sim stage has a minimum number of behaviours, and a replay that ends early is an error.

## Why this reaches what the tests cannot

The repository's tests run one schedule of one small scenario each. Here all interleavings of the specified steps within the
bounds are enumerated, incl. crashes, failing storage, lost nodes and stops at every point, and each is executed on the code.

"""

HOW = {
"A01": "Actor.tla: mailbox, handler in progress, result channels, six kinds of send. Gated handlers; ActorTrace.tla validates recordings of four concurrent senders on a multi-threaded runtime.",
"A02": "Actor.tla with stop, self-stop, stop in the start hook, deferred creation. StopTrace.tla validates recordings of actors stopped under concurrent senders (10 000 executions quick; every 50th, and any that did not come to an end, is checked in full).",
"A03": "Registry.tla: tracked, deferred, anonymous and failing creations, re-creation, lookups by type, shutdown, with actors busy (and using the directory) when it comes.",
"A04": "Tree.tla: trees of children spawned in every mode; stop of any member; gates in start and stop hooks.",
"A05": "Watch.tla: watchers, unwatch, double watch, four ways of stopping, watchers that die.",
"A06": "Timers.tla: virtual time; start (immediate or not), stop, actor stop, delayed and cancelled messages.",
"A07": "Worker.tla and WorkerTrace.tla: pools of 1 to 8 workers with gated workers.",
"B01": "Persist.tla: events, batches, snapshots, crash at every point of a write (before/after it reached storage), failing writes, all policies; after each restart the recovered state is compared. Storage is an instrumented in-memory provider.",
"B02": "Persist.tla; the observation is the journal itself (sequence numbers of what was handed to storage).",
"B03": "Persist.tla with several consecutive faults and all failure policies; what the caller gets, attempts made, the actor's fate.",
"B04": "Recovery.tla: failing reads of snapshot or messages, unreadable entries, all policies and attempts.",
"B05": "Journal.tla replayed into the in-memory provider and into the Redis provider against a stand-in Redis server started by the check on a loopback port.",
"C01": "Coordinator.tla (allocation table, ready/lost hosts, durable journal); CoordinatorTrace.tla validates what the real coordinator actor did for every short and many random histories, restarts included (its choice of host is free in the specification, its obligations are not).",
"C02": "The same, with the balance rule as an invariant.",
"C03": "Sharding.tla: coordinator, hosts and shards over 2-3 nodes with the messages between nodes and the start/stop of shards and entities gated; moves, crashes.",
"C04": "Sharding.tla; the observation is the result of every request, from every node and from a node outside the group of hosts.",
"C05": "Shard.tla: one shard and its entities: start on demand, entity failures, passivation, crash and return from the shard's journal.",
"D01": "Singleton.tla: managers and proxies on 2-4 nodes, leader changes, crashes, late nodes; every order of the messages between two managers' pairs; start and stop of the instance gated.",
"D02": "The same; in quiet states the instance runs on the leader.",
"D03": "The same with requests through the proxies.",
"E01": "Heartbeat.tla: node list, last pings, time since, leader, announcements; driven through the real heartbeat actor on virtual time.",
"E02": "The same, health per member after every tick, for every kind of ping outcome.",
"E03": "Join.tla: real nodes, each on a runtime of its own, joining through any seed, several at once, shutting down or crashing. What every member knows, announced and can ask is observed.",
"E04": "Auth.tla: raw connections: every kind of token and first frame, pipelined frames, half frames, silence; then real peers join and the node shuts down.",
"F01": "Rpc.tla: concurrent requests in both directions with every failure kind and gated handlers; RpcTrace.tla validates bursts.",
"F02": "Locate.tla: creation, deployment (any target, every kind of recipe), stop, lookup from every member.",
"F03": "PubSub.tla on one node (virtual time) and on 2-3 real nodes.",
"F04": "Client.tla: a real node's client against scripted peers on raw sockets; the peer accepts, identifies, reads, drops the connection and comes back in any order while the node writes.",
}

TAIL = """
## Limits and assumptions

Bounded: the tables above say how many nodes, messages, ids and faults are explored; nothing is claimed beyond them except by the
simulations. What the specifications deliberately leave open, or assume:

* Tokio's scheduler: replays use one thread and gates, so data races inside a step are only met by the trace stages.
* A handler or hook that panics is outside A01/A02. An id that is reused while its previous holder is still stopping is outside A03
  (the scheduler deregisters by id only).
* A06: dropping a timer handle does not stop the timer; only stop/cancel does.
* F03: a subscriber more than 1024 messages behind loses its subscription (the bounded channel of the implementation); publication order
  across nodes is not promised since sessions handle each frame in a task of its own. Likewise requests from one node to another (F01) are not ordered.
* F01: a request to a node this node has no client for is not answered (the write is dropped with a warning).
* F02: members stay the same; directory entries are not moved when the ring changes. After a stop the entry may be stale until the id is
  created again. Two simultaneous deployments of one id are not excluded.
* E03: a node that rejoins at the address of a lost one may not be announced again when the first handshake fails.
* D*: messages between two managers are delivered in order, managers exist before the node is announced up, a member is known before its
  messages arrive, a node is removed only after it stopped. An instance that stops by itself is not restarted by the implementation.
* C*: allocation and stop messages of one shard from the coordinator to one host are delivered in order; journal writes of the coordinator
  succeed; a coordinator that fails over re-allocates without the stop handshake; a live node that is declared lost is outside.
* B*: the default persist policy retries for ever; an unknown payload type in a journal is skipped; the providers under test are the
  in-memory one and Redis. Per-actor providers given to `with_persistence` are never consulted by the implementation and are not covered.

## False alarms met on the way, and what was done

* E03/E04: two nodes of different behaviours were given the same loopback address after 250 nodes and formed one cluster: the address
  function of the harness was corrected.
* A03: a stop requested behind the one shutdown had already queued fails although the actor stops: the specification now allows both results.
* C02: "even" was first stated per move; it is now stated as what the code promises (no host keeps more than the rounded-down even share
  over the ready hosts when it gives shards up).
* D*: several orders first enumerated cannot happen (a message overtaking another between the same two managers); they were removed from the
  specification and are listed as assumptions above.
"""

def cell(x):
    if isinstance(x, (set, frozenset)): return "{" + ",".join(sorted(map(str, x))) + "}"
    return str(x)
def stage(s):
    c = ", ".join("%s=%s" % (k, cell(v)) for k, v in s.get("consts", {}).items())
    if s["type"] == "mc": return "mc %s (%s): %s" % (s["module"], c, ", ".join(s["inv"] + s.get("props", [])))
    if s["type"] == "trace": return "trace %s, %s executions (`%s %s`)%s" % (s["module"], s["runs"], s["bin"], s["sub"], ": " + ", ".join(s["inv"]) if s.get("inv") else "")
    k = "cover" if s["kind"] == "cover" else "sim %s x %s" % (s["num"], s["depth"])
    cap = ", at most %s behaviours" % s["cap"] if s.get("cap") else ""
    return "%s %s (%s) -> `%s%s`%s" % (k, s["module"], c, s["bin"], " " + s["sub"] if s.get("sub") else "", cap)

out = [HEAD, "## Properties\n\n"]
cost = {}
for f in glob.glob(os.path.join(V, "evidence", "*.json")):
    pass
TIMES = json.load(open(os.path.join(V, "tools", "times.json"))) if os.path.exists(os.path.join(V, "tools", "times.json")) else {}
for pid, p in sorted(props.items()):
    out.append("### %s %s\n\n" % (pid, p["title"]))
    if pid not in checks.CHECKS: out.append("Not claimed, see MANIFEST.json.\n\n"); continue
    out.append(HOW.get(pid, "") + "\n\n")
    for t in ("quick", "thorough"):
        out.append("%s%s:\n" % (t, " (about %s s here)" % TIMES[pid][t] if t in TIMES.get(pid, {}) else ""))
        for s in checks.get(pid, t)["stages"]: out.append("* " + stage(s) + "\n")
        out.append("\n")
out.append("No property was left to another technique; `not_applicable` is empty.\n" if set(props) <= set(checks.CHECKS) else "")
out.append("\n## Defects found in the code\n\nAll were shown on the real code by these checks, and repaired in /repo (one `fix:` commit each); `known_findings.json` lists them and suppresses nothing.\n\n")
for k in json.load(open(os.path.join(V, "known_findings.json"))): out.append("* %s\n" % k["text"])
out.append("\n## Planted changes (`seeded/`)\n\nEach compiles, passes the 61 tests, and is caught by the quick check of the property named:\n\n| change | caught by | needs | breaks |\n|---|---|---|---|\n")
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    out.append("| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(m)), d.get("caught_by", d["property"]), d["needs"], d["what_it_breaks"]))
out.append(TAIL)
open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))
