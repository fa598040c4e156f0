"""Which specification, constants and replay decide each property."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
CHECKS = {}
NOTES = {}

def check(pid):
    def d(f):
        CHECKS[pid] = f
        return f
    return d

def get(pid, tier):
    if pid not in CHECKS: raise SystemExit("unknown property " + pid)
    return CHECKS[pid](tier == "thorough")

def known_match(pid, data):
    """A listed (not fixed) finding matches by property and by the exact description of what fails."""
    path = os.path.join(V, "known_findings.json")
    if not os.path.exists(path): return None
    for k in json.load(open(path)):
        if k["property"] != pid or k["status"] != "known": continue
        m = k["match"]
        if all(data.get(f) == v for f, v in m.items()): return k
    return None

def mc(module, consts, inv=(), **kw): return dict(type="mc", module=module, consts=consts, inv=list(inv), **kw)
def cover(module, consts, bin, **kw): return dict(type="gen", kind="cover", module=module, consts=consts, bin=bin, **kw)
def sim(module, consts, bin, num, depth, **kw): return dict(type="gen", kind="sim", module=module, consts=consts, bin=bin, num=num, depth=depth, **kw)
def trace(module, bin, sub, runs, **kw): return dict(type="trace", module=module, bin=bin, sub=sub, runs=runs, **kw)

# ------------------------------------------------------------------ actors
A1 = {"send", "notify", "fast", "exec", "nexec", "deliver"}
A2 = {"send", "notify", "fast", "exec", "stop", "nstop", "selfstop", "status"}
INV1 = ["OnceEach", "InOrder", "OneAtATime", "ResultOk", "NoLoss"]
INV2 = INV1 + ["Bracket", "StopWaits", "NoHang", "CreateErr"]

@check("A01")
def a01(deep):
    c = dict(Kinds=A1, Modes={"await", "deferred"}, StartStops={False})
    return dict(stages=[
        mc("Actor", dict(c, MaxMsgs=5 if deep else 4), INV1),
        cover("Actor", dict(c, MaxMsgs=4 if deep else 3), "actor", min=300),
        sim("Actor", dict(c, MaxMsgs=40), "actor", 4000 if deep else 600, 60, min=100),
        trace("ActorTrace", "actor", "trace", 200 if deep else 40),
    ])

@check("A02")
def a02(deep):
    c = dict(Kinds=A2, Modes={"await", "deferred"}, StartStops={True, False})
    return dict(stages=[
        mc("Actor", dict(c, MaxMsgs=5 if deep else 4), INV2),
        cover("Actor", dict(c, MaxMsgs=4 if deep else 3), "actor", min=3000),
        sim("Actor", dict(c, MaxMsgs=12), "actor", 20000 if deep else 3000, 26, min=300),
        trace("StopTrace", "actor", "stops", 60000 if deep else 10000),
    ])

# ------------------------------------------------------------------ persistence
ALLPOL = {"return", "stop", "panic", "until", "max"}
def persist_consts(**kw):
    c = dict(Keys={"k"}, Policies={"return"}, MaxFaults=1, MaxBatch=2, MaxWrites=4, MaxStarts=3, MaxAttempts=2, WithCrash=True)
    c.update(kw)
    return c

@check("B01")
def b01(deep):
    return dict(stages=[
        mc("Persist", persist_consts(Keys={"k", "k2"}, MaxWrites=6 if deep else 4, MaxStarts=2, MaxFaults=0), ["Inv"]),
        mc("Persist", persist_consts(Policies=ALLPOL, MaxWrites=7 if deep else 6, MaxFaults=1), ["Inv"]),
        cover("Persist", persist_consts(MaxWrites=6 if deep else 4), "persist", sub="recover", min=500),
        cover("Persist", persist_consts(Keys={"k", "k2"}, MaxWrites=3, MaxStarts=2, MaxFaults=0, MaxBatch=1), "persist", sub="recover"),
        sim("Persist", persist_consts(Keys={"k", "k2"}, Policies=ALLPOL, MaxWrites=60, MaxStarts=12, MaxBatch=4), "persist", 6000 if deep else 1200, 40, sub="recover", min=200),
    ])

@check("B02")
def b02(deep):
    return dict(stages=[
        mc("Persist", persist_consts(Policies=ALLPOL, MaxWrites=7 if deep else 6, MaxFaults=1), ["Inv"]),
        cover("Persist", persist_consts(MaxWrites=6 if deep else 4), "persist", sub="seq", min=500),
        sim("Persist", persist_consts(Keys={"k", "k2"}, Policies=ALLPOL, MaxWrites=60, MaxStarts=12, MaxBatch=4), "persist", 6000 if deep else 1200, 40, sub="seq", min=200),
    ])

@check("B03")
def b03(deep):
    return dict(stages=[
        mc("Persist", persist_consts(Policies=ALLPOL, MaxWrites=6 if deep else 5, MaxFaults=3, MaxAttempts=3), ["Inv"]),
        cover("Persist", persist_consts(Policies=ALLPOL, MaxFaults=3, MaxAttempts=3, MaxWrites=4 if deep else 3, WithCrash=False), "persist", sub="policy", min=500),
        cover("Persist", persist_consts(Policies={"max"}, MaxFaults=2, MaxAttempts=1, MaxWrites=3, WithCrash=False), "persist", sub="policy"),
        cover("Persist", persist_consts(Policies={"max", "until"}, MaxFaults=6, MaxAttempts=5, MaxWrites=2, WithCrash=False), "persist", sub="policy"),
        sim("Persist", persist_consts(Keys={"k", "k2"}, Policies=ALLPOL, MaxFaults=4, MaxAttempts=3, MaxWrites=60, MaxStarts=20, WithCrash=False), "persist", 4000 if deep else 800, 30, sub="policy", min=200),
    ])

@check("B04")
def b04(deep):
    c = dict(Policies={"stop", "panic", "until", "max"}, MaxEntries=4, MaxFaults=2, MaxStarts=3, MaxAttempts=3, Bads={True, False})
    return dict(stages=[
        mc("Recovery", dict(c, MaxEntries=5 if deep else 4), ["NoPartial", "Complete", "UpOk"]),
        cover("Recovery", dict(c, MaxEntries=4 if deep else 3, MaxStarts=2), "persist", sub="recovery", min=500),
        cover("Recovery", dict(c, MaxEntries=1, MaxStarts=1, MaxAttempts=1), "persist", sub="recovery"),
        sim("Recovery", dict(c, MaxEntries=8, MaxStarts=8), "persist", 3000 if deep else 500, 24, sub="recovery", min=100),
    ])

@check("B05")
def b05(deep):
    c = dict(Keys={"k", "k1"}, MaxSeq=4, MaxBatch=2, Gaps={0, 1})
    big = dict(Keys={"k", "k1", "K"}, MaxSeq=9, MaxBatch=3, Gaps={0, 1, 2})
    st = [mc("Journal", dict(c, MaxSeq=6 if deep else 5), ["Inv"], props=["Isolated"]),
          cover("Journal", dict(c, MaxSeq=5 if deep else 4), "journal", sub="memory", min=300),
          cover("Journal", dict(c, Keys={"k"}, MaxSeq=7 if deep else 6), "journal", sub="memory", min=300),
          sim("Journal", big, "journal", 2000 if deep else 300, 25, sub="memory"),
          cover("Journal", dict(c, MaxSeq=4 if deep else 3), "journal", sub="redis", redis=True),
          cover("Journal", dict(c, Keys={"k"}, MaxSeq=5), "journal", sub="redis", redis=True, min=100),
          sim("Journal", big, "journal", 200 if deep else 40, 25, sub="redis", redis=True)]
    return dict(stages=st, redis=True)

# ------------------------------------------------------------------ actor systems
@check("A03")
def a03(deep):
    ks = {"tracked", "deferred", "anon", "fail"}
    inv = ["Unique", "Found", "NotFound", "DownMeans"]
    return dict(stages=[
        mc("Registry", dict(Ids={"a", "b"}, MaxActors=4 if deep else 3, Kinds=ks, Works={"look"} if deep else {}), inv),
        cover("Registry", dict(Ids={"a", "b"}, MaxActors=3 if deep else 2, Kinds=ks, Works={}), "core", sub="registry", min=500),
        cover("Registry", dict(Ids={"a"}, MaxActors=3, Kinds=ks, Works={}), "core", sub="registry", min=200),
        cover("Registry", dict(Ids={"a", "b"}, MaxActors=2, Kinds={"tracked", "closer"}, Works={"look", "make"}), "core", sub="registry", min=200),
        sim("Registry", dict(Ids={"a", "b", "c"}, MaxActors=12, Kinds=ks | {"closer"}, Works={"look", "make"}), "core", 4000 if deep else 800, 40, sub="registry", min=100),
    ])

@check("A04")
def a04(deep):
    ms = {"await", "deferred", "fail", "attach"}
    inv = ["UniqueLive", "KidsFirst", "ToldGone", "ToldOnce", "Listed"]
    return dict(stages=[
        mc("Tree", dict(Names={"a", "b"}, MaxActors=4, Modes=ms), inv, view="View"),
        mc("Tree", dict(Names={"a", "b"}, MaxActors=6 if deep else 5, Modes={"await"}), inv, view="View"),
        cover("Tree", dict(Names={"a", "b"}, MaxActors=4 if deep else 3, Modes=ms), "core", sub="tree", min=300),
        cover("Tree", dict(Names={"a"}, MaxActors=5 if deep else 4, Modes=ms), "core", sub="tree", min=300),
        sim("Tree", dict(Names={"a", "b", "c"}, MaxActors=9, Modes=ms), "core", 8000 if deep else 1500, 30, sub="tree", min=100),
    ])

@check("A05")
def a05(deep):
    ws = {"stop", "nstop", "self", "parent"}
    al = {"work", "unwatch"}
    props = ["Delivered", "NotOthers"]
    return dict(stages=[
        mc("Watch", dict(Actors={"x", "y"}, MaxOps=9 if deep else 8, Acts=al, Ways={"stop"}), ["OnceOnly", "NotEarly"], props=props),
        mc("Watch", dict(Actors={"x", "y", "z"}, MaxOps=6 if deep else 5, Acts=al, Ways={"stop"}), ["OnceOnly", "NotEarly"], props=props),
        cover("Watch", dict(Actors={"x", "y"}, MaxOps=7 if deep else 6, Acts=al, Ways=ws), "core", sub="watch", min=300),
        cover("Watch", dict(Actors={"x", "y", "z"}, MaxOps=6 if deep else 5, Acts=al, Ways={"stop"}), "core", sub="watch", min=300),
        cover("Watch", dict(Actors={"x", "y", "z"}, MaxOps=14, Acts={}, Ways={"stop"}), "core", sub="watch", min=300),
        cover("Watch", dict(Actors={"x", "y", "z"}, MaxOps=7, Acts={"unwatch"}, Ways={"stop"}), "core", sub="watch", min=300, cap=None if deep else 8000),
        sim("Watch", dict(Actors={"x", "y", "z", "w", "v", "u"}, MaxOps=60, Acts={"unwatch"}, Ways={"stop"}), "core", 3000 if deep else 200, 36, sub="watch", min=100),
        sim("Watch", dict(Actors={"x", "y", "z", "w"}, MaxOps=40, Acts=al, Ways=ws), "core", 8000 if deep else 1500, 36, sub="watch", min=100),
    ])

@check("A06")
def a06(deep):
    props = ["NotEarly", "NoneAfter"]
    return dict(stages=[
        mc("Timers", dict(Periods={1, 2}, Delays={0, 2}, MaxTimers=3 if deep else 2, MaxTime=6, Steps={1}), ["OnceOnly", "Punctual"], props=props),
        cover("Timers", dict(Periods={1, 2}, Delays={1, 3}, MaxTimers=2, MaxTime=7 if deep else 5, Steps={1, 2}), "core", sub="timers", min=300),
        sim("Timers", dict(Periods={1, 2, 3, 5}, Delays={1, 2, 4, 7}, MaxTimers=8, MaxTime=200, Steps={1, 2, 3, 7}), "core", 5000 if deep else 1000, 40, sub="timers", min=100),
    ])

@check("A07")
def a07(deep):
    return dict(stages=[
        mc("Worker", dict(Sizes={1, 2, 3}, MaxReqs=6 if deep else 5), ["OnceEach", "Own", "Even", "OnlyOwnQueue"]),
        cover("Worker", dict(Sizes={1, 2, 3, 4}, MaxReqs=7 if deep else 6), "core", sub="worker", min=100),
        sim("Worker", dict(Sizes={1, 2, 3, 5, 8}, MaxReqs=40), "core", 2000 if deep else 300, 60, sub="worker"),
        trace("WorkerTrace", "core", "workertrace", 200 if deep else 40),
    ])

# ------------------------------------------------------------------ cluster membership
PINGS = {"fresh", "late", "old", "slow", "timeout", "disc", "err"}
HACTS = {"rereg", "early", "term", "wait"}
HPROPS1 = ["LeaderRule", "LeaderHealthy", "Announced", "Upped"]

@check("E01")
def e01(deep):
    p = {"fresh", "late", "timeout", "disc"}
    return dict(stages=[
        mc("Heartbeat", dict(N=3, Ranks={0, 1, 2}, Mins={0, 2, 3}, Singles={True, False}, Pings={"fresh", "late"} , Acts={"term"}, MaxOps=7 if deep else 6), ["Agree", "SelfHealthy"], props=HPROPS1 + ["NoneForgotten"], view="View"),
        cover("Heartbeat", dict(N=3, Ranks={0, 1}, Mins={0, 2}, Singles={True, False}, Pings={"fresh", "late"}, Acts={}, MaxOps=8 if deep else 7), "heartbeat", min=300, cap=None if deep else 12000),
        cover("Heartbeat", dict(N=2, Ranks={0, 1, 2}, Mins={0, 1, 2, 3}, Singles={True, False}, Pings=p, Acts={"term", "wait"}, MaxOps=9 if deep else 7), "heartbeat", min=300, cap=None if deep else 12000),
        sim("Heartbeat", dict(N=5, Ranks={0, 1, 2, 3}, Mins={0, 1, 2, 3, 4, 5, 7}, Singles={True, False}, Pings=p, Acts={"term", "wait"}, MaxOps=60), "heartbeat", 3000 if deep else 500, 40, min=100),
    ])

@check("E02")
def e02(deep):
    return dict(stages=[
        mc("Heartbeat", dict(N=2, Ranks={1}, Mins={0}, Singles={False}, Pings=PINGS, Acts=HACTS, MaxOps=10 if deep else 8), ["Agree", "SelfHealthy"], props=HPROPS1 + ["NoneForgotten"], view="View"),
        cover("Heartbeat", dict(N=2, Ranks={1}, Mins={0}, Singles={False}, Pings=PINGS, Acts={"rereg", "early", "term"}, MaxOps=20), "heartbeat", min=300),
        cover("Heartbeat", dict(N=3, Ranks={1}, Mins={0}, Singles={False}, Pings={"fresh", "timeout", "err", "slow"}, Acts={"term"}, MaxOps=9 if deep else 7), "heartbeat", min=300, cap=None if deep else 12000),
        sim("Heartbeat", dict(N=5, Ranks={0, 1}, Mins={0}, Singles={False}, Pings=PINGS, Acts=HACTS, MaxOps=60), "heartbeat", 3000 if deep else 500, 40, min=100),
    ])

# ------------------------------------------------------------------ remoting
@check("F03")
def f03(deep):
    t = {"one/", "one/k", "two/"}
    acts = {"unsub", "stop", "block", "burst"}
    inv = ["OnceEach"]
    return dict(stages=[
        mc("PubSub", dict(N=2, K=2, Topics=t, Reaches={"local", "cluster"}, Acts={"unsub", "stop", "block"}, MaxPubs=2, MaxOps=7 if deep else 6), inv, props=["Delivered"]),
        cover("PubSub", dict(N=1, K=2, Topics=t, Reaches={"local", "cluster"}, Acts=acts, MaxPubs=6, MaxOps=9 if deep else 7), "pubsub", sub="local", min=300, cap=None if deep else 20000),
        sim("PubSub", dict(N=1, K=5, Topics=t | {"two/k", "one/k2"}, Reaches={"local", "cluster"}, Acts=acts, MaxPubs=60, MaxOps=80), "pubsub", 2000 if deep else 200, 50, sub="local"),
        cover("PubSub", dict(N=2, K=2, Topics={"one/", "two/"}, Reaches={"local", "cluster"}, Acts={"unsub", "stop"}, MaxPubs=3, MaxOps=6), "pubsub", sub="net", min=300, cap=None if deep else 2500),
        sim("PubSub", dict(N=3, K=4, Topics=t, Reaches={"local", "cluster"}, Acts=acts, MaxPubs=30, MaxOps=60), "pubsub", 500 if deep else 60, 40, sub="net", env={"VH_NODES": "3"}),
    ])

@check("F01")
def f01(deep):
    allk = {"hold", "fast", "note", "badres", "badreply", "unwrap", "badmsg", "local", "remote", "missing", "wrong", "notemissing"}
    inv = ["OnceEach", "Own", "NoHang"]
    return dict(stages=[
        mc("Rpc", dict(N=2, K=2, Kinds={"hold", "fast", "badres", "missing"}, MaxReqs=4 if deep else 3, WithStop=True), inv, props=["Final"]),
        cover("Rpc", dict(N=2, K=1, Kinds=allk, MaxReqs=3 if deep else 2, WithStop=True), "rpc", min=300, cap=None if deep else 1500),
        cover("Rpc", dict(N=2, K=2, Kinds={"hold", "fast"}, MaxReqs=4 if deep else 3, WithStop=False), "rpc", min=300, cap=None if deep else 1500),
        sim("Rpc", dict(N=3, K=4, Kinds=allk, MaxReqs=20, WithStop=True), "rpc", 500 if deep else 80, 30, env={"VH_NODES": "3"}),
        trace("RpcTrace", "rpc", "burst", 300 if deep else 60),
    ])

@check("F02")
def f02(deep):
    rec = {"one", "two", "refused", "unreadable", "unwritable", "untyped"}
    acts = {"anon", "auto", "stop"}
    return dict(stages=[
        mc("Locate", dict(N=3, I=2, Acts=acts, Recipes={"one", "refused"}, MaxOps=5 if deep else 4), ["Agreed", "Single"], props=["Once", "Refused"]),
        cover("Locate", dict(N=2, I=1, Acts=acts, Recipes=rec, MaxOps=5), "locate", view="View", min=100, cap=None if deep else 2000),
        cover("Locate", dict(N=3, I=2, Acts={"stop"}, Recipes={"one"}, MaxOps=5), "locate", view="View", min=100, cap=6000 if deep else 1200, env={"VH_NODES": "3"}),
        sim("Locate", dict(N=3, I=2, Acts=acts, Recipes={"one", "refused", "unreadable"}, MaxOps=60), "locate", 300 if deep else 40, 24, env={"VH_NODES": "3"}),
    ])

@check("E03")
def e03(deep):
    acts = {"shutdown", "crash"}
    return dict(stages=[
        mc("Join", dict(N=5 if deep else 4, Acts=acts, MaxTogether=3, MaxGone=2, MaxOps=6), ["Everyone", "OnceEach"], props=["NoneForgotten"]),
        cover("Join", dict(N=3, Acts=acts, MaxTogether=2, MaxGone=1, MaxOps=4), "join", min=20),
        sim("Join", dict(N=5, Acts=acts, MaxTogether=4, MaxGone=2, MaxOps=7), "join", 800 if deep else 80, 8),
    ])

@check("E04")
def e04(deep):
    toks = {"good", "badsig", "other", "expired", "notoken", "unsigned", "altered"}
    junk = {"empty", "unknown", "badbody", "badmsg", "ping", "msg", "create", "intruder", "huge"}
    uses = {"ping", "msg", "note", "create", "find", "hello", "unknown", "badbody", "badmsg", "huge", "half"}
    modes = {"none", "jwt", "forever"}
    inv, props = ["Unserved", "Open"], ["NoEffect", "Final"]
    return dict(stages=[
        mc("Auth", dict(K=2, Modes=modes, Firsts={"good", "expired", "other", "msg", "huge"}, Tails={"", "msg"}, Uses={"msg", "create", "huge", "half"}, MaxPeers=1, MaxOps=7 if deep else 6), inv, props=props),
        cover("Auth", dict(K=1, Modes=modes, Firsts=toks | junk, Tails={"", "msg", "create"}, Uses=uses, MaxPeers=1, MaxOps=5), "auth", view="View", min=200, cap=None if deep else 2000),
        cover("Auth", dict(K=2, Modes={"jwt"}, Firsts={"good", "badsig", "expired", "notoken", "badbody", "msg", "huge"}, Tails={"", "msg"}, Uses={"ping", "msg", "badmsg", "huge", "half"}, MaxPeers=1, MaxOps=8), "auth", view="View", min=200, cap=None if deep else 2000),
        sim("Auth", dict(K=8, Modes=modes, Firsts=toks | junk, Tails={"", "msg", "create"}, Uses=uses, MaxPeers=2, MaxOps=60), "auth", 800 if deep else 150, 40),
    ])

# ------------------------------------------------------------------ singleton
def sg(**k): return dict(dict(N=3, Late=0, MaxLead=2, MaxMsgs=0, MaxCrash=0, Kinds={"ask"}, MaxOps=1000), **k)
SG1, SG2, SG3 = ["OneInstance"], ["OneInstance", "OnLeader"], ["Once", "Answered", "Held"]

@check("D01")
def d01(deep):
    return dict(stages=[
        mc("Singleton", sg(MaxLead=4 if deep else 2), SG1, view="View"),
        mc("Singleton", sg(Late=1, MaxLead=2 if deep else 1, MaxCrash=1), SG1, view="View"),
        cover("Singleton", sg(N=2, MaxLead=4 if deep else 3), "singleton", min=300),
        cover("Singleton", sg(MaxLead=2 if deep else 1), "singleton", min=300, cap=None if deep else 6000),
        sim("Singleton", sg(N=4, MaxLead=12, MaxCrash=1, Late=1, MaxOps=200), "singleton", 3000 if deep else 400, 60, min=100),
    ])

@check("D02")
def d02(deep):
    return dict(stages=[
        mc("Singleton", sg(MaxLead=3 if deep else 2, MaxCrash=1), SG2, view="View"),
        mc("Singleton", sg(Late=1, MaxLead=2, MaxCrash=0), SG2, view="View"),
        cover("Singleton", sg(N=2, Late=1, MaxLead=3 if deep else 2, MaxCrash=1), "singleton", min=300),
        cover("Singleton", sg(MaxLead=1, MaxCrash=1), "singleton", min=300, cap=None if deep else 6000),
        sim("Singleton", sg(N=4, Late=1, MaxLead=10, MaxCrash=2, MaxOps=200), "singleton", 3000 if deep else 400, 60, min=100),
    ])

@check("D03")
def d03(deep):
    return dict(stages=[
        mc("Singleton", sg(N=2, Late=1, MaxLead=3 if deep else 2, MaxMsgs=3 if deep else 2, MaxCrash=1, Kinds={"ask", "note"}), SG3, props=["HeldNotFailed"], view="View"),
        mc("Singleton", sg(N=3, MaxLead=2, MaxMsgs=1, Kinds={"ask"}, MaxCrash=1 if deep else 0), SG3, props=["HeldNotFailed"], view="View"),
        cover("Singleton", sg(N=2, MaxLead=2, MaxMsgs=2 if deep else 1, Kinds={"ask", "note"}), "singleton", min=300, cap=None if deep else 8000),
        sim("Singleton", sg(N=3, MaxLead=10, MaxCrash=1, MaxMsgs=12, Kinds={"ask", "note"}, MaxOps=200), "singleton", 4000 if deep else 600, 60, min=100),
        sim("Singleton", sg(N=2, MaxLead=8, MaxCrash=0, MaxMsgs=20, Kinds={"ask", "note"}, MaxOps=200), "singleton", 4000 if deep else 600, 60, min=100),
    ])

# ------------------------------------------------------------------ sharding
ALLG = {"shard", "up", "down"}
def shd(**k): return dict(dict(N=2, S=1, Gates=ALLG, Senders={1, 2, 3}, MaxMsgs=1, MaxMoves=1, MaxCrash=0, MaxOps=1000, Stable=False), **k)
def shq(**k): return shd(**dict(dict(Stable=True), **k))
SH3, SH4 = ["OneHost", "OneShard", "Moved"], ["Once", "NoneDropped", "NoHang"]

CO1, CO2 = ["OnReady", "Exclusive", "Durable"], ["NotOnLost", "Balanced"]
@check("C01")
def c01(deep):
    return dict(stages=[
        mc("Coordinator", dict(N=3, S=4 if deep else 3), CO1, props=["Stays"]),
        mc("Coordinator", dict(N=4, S=3 if deep else 2), CO1, props=["Stays"]),
        trace("CoordinatorTrace", "coordinator", "every", 4 if deep else 3, consts=dict(N=4, S=6), inv=CO1),
        trace("CoordinatorTrace", "coordinator", "random", 6000 if deep else 2000, consts=dict(N=4, S=6), inv=CO1),
    ])

@check("C02")
def c02(deep):
    return dict(stages=[
        mc("Coordinator", dict(N=3, S=4), CO2, props=["Stays"]),
        mc("Coordinator", dict(N=4, S=3 if deep else 2), CO2, props=["Stays"]),
        trace("CoordinatorTrace", "coordinator", "balance", 6000 if deep else 2500, consts=dict(N=4, S=6), inv=CO2),
    ])

@check("C03")
def c03(deep):
    return dict(stages=[
        mc("Sharding", shd(MaxMsgs=3 if deep else 2, MaxMoves=2), SH3, view="View"),
        mc("Sharding", shd(N=3, MaxMoves=3 if deep else 2, MaxCrash=1), SH3, view="View"),
        cover("Sharding", shq(MaxMoves=3 if deep else 2, Senders={1, 2}), "sharding", min=300, cap=None if deep else 3000),
        cover("Sharding", shq(S=2, Gates={"down"}, MaxMsgs=2, MaxMoves=2, Senders={2}), "sharding", min=300, cap=None if deep else 4000),
        cover("Sharding", shq(N=3, MaxMoves=1, MaxCrash=1, Senders={2}), "sharding", min=300, cap=None if deep else 3000),
        sim("Sharding", shq(N=3, S=2, MaxMsgs=6, MaxMoves=8, MaxCrash=1, MaxOps=200), "sharding", 2000 if deep else 300, 60, min=100),
    ])

@check("C04")
def c04(deep):
    return dict(stages=[
        mc("Sharding", shd(MaxMsgs=3 if deep else 2, MaxMoves=1), SH4, view="View"),
        mc("Sharding", shd(N=3, S=1, MaxMsgs=2, MaxMoves=1 if deep else 0, Gates={"shard", "up"}), SH4, view="View"),
        cover("Sharding", shq(MaxMsgs=2, MaxMoves=1 if deep else 0), "sharding", min=300, cap=None if deep else 5000),
        cover("Sharding", shq(MaxMsgs=2, MaxMoves=1, Gates={"up", "down"}, Senders={2}), "sharding", min=300, cap=None if deep else 3000),
        sim("Sharding", shq(N=3, S=2, MaxMsgs=20, MaxMoves=4, MaxOps=300), "sharding", 2000 if deep else 250, 90, min=100),
    ])

SH5 = ["FromJournal", "Answered", "NoneWaits"]
def she(**k): return dict(dict(K=2, MaxMsgs=2, MaxMoves=1, MaxCrash=1, MaxQuit=1, Froms={"here", "far"}, MaxOps=1000), **k)
@check("C05")
def c05(deep):
    return dict(stages=[
        mc("Shard", she(MaxMsgs=4 if deep else 3), SH5, props=["OneStart", "Returns"], view="View"),
        mc("Shard", she(K=3, MaxMsgs=3, Froms={"here"}), SH5, props=["OneStart", "Returns"], view="View"),
        cover("Shard", she(K=1, MaxMsgs=3, MaxMoves=2), "shard", min=300, cap=None if deep else 3000),
        cover("Shard", she(), "shard", min=300, cap=None if deep else 3000),
        sim("Shard", she(K=3, MaxMsgs=25, MaxMoves=5, MaxCrash=3, MaxQuit=4, MaxOps=200), "shard", 3000 if deep else 400, 50, min=100),
    ])
