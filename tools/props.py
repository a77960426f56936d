#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, note, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None), note=note))
CL, SV, CU, PX, RG, CC, RT = "client/server.go", "server/server.go", "cluster/cluster.go", "proxy/replica_pool.go", "client/ring.go", "client/client.go", "cmd/router/main.go"

prop("C01", "An item read back is the item stored",
 "Whatever value (any bytes, empty or large), 4-byte flags and legal key a caller stores with Set, Add or Replace over the text, meta or binary protocol, a later Get or GetMulti of that key over the same connection returns exactly that value, those flags and that key, with a CAS token. After every such exchange the connection is in step: no reply bytes are left unread and the next operation gets its own answer.",
 ["inputs", "histories"], "every value shape x flags x expiration x store mode x protocol; every value length around the buffer sizes; every key length and byte; every ordered pair and triple of shapes on one connection",
 "The tests store two or three short ASCII values per protocol and mostly without reading them back over the same connection.",
 [CL, CC], [("Set/Add/Replace encoders", CL), ("Get/GetMulti reply parsers", CL), ("binary header encode/decode", CL)],
 "Every shape of the bounded space is stored and read by the real client against a reference server that is itself compared with the real memcached binary; no sampling. Bounded: value lengths and alphabets as listed in the evidence.",
 ["item returned to the caller", "contents of the reference server", "unread bytes on the connection"])
prop("C02", "Conditional stores and CAS decide exactly as memcached does",
 "Over any history of reads, stores, deletes and changes by other clients, Add succeeds exactly when the key is absent, Replace exactly when it is present, and a Set that carries the CAS token of an earlier read succeeds exactly when the item has not changed since; otherwise they change nothing and report ItemExists or ItemNotFound. Tokens over the whole 64-bit range work, and operations that fail leave the item and the connection as they were.",
 ["histories", "inputs"], "all operation sequences up to the stated depth over 9- and 16-letter alphabets, per protocol; CAS tokens at the 31/32/62/63/64-bit borders",
 "The tests run a handful of fixed two-step sequences; the property is about every history, including interference by a second client.",
 [CL], [("CAS fields of the requests", CL), ("status mapping of the replies", CL)],
 "All sequences up to the depth are executed on the real client against the reference server and compared step by step with a versioned-map model.",
 ["error returned", "server contents after every step"])
prop("C03", "Success is reported only for an acknowledged success",
 "An operation returns no error only if the server answered that very request with its success reply; every error, refusal or unknown reply (ERROR, CLIENT_ERROR, SERVER_ERROR, NOT_STORED, any non-zero binary status, an unexpected line) is returned as an error of the documented class, never as success and never as another operation's result. After a well-formed error reply the connection goes on working.",
 ["inputs", "fault_sequences"], "every operation x protocol x every well-formed reply of the protocol, success or error, in place of the expected one, followed by further operations",
 "The tests never make the server refuse a request, so no error reply is ever parsed.",
 [CL], [("reply dispatch per operation", CL), ("binaryStatus", CL)],
 "The reply space (all reply lines and status codes, in every operation) is enumerated completely against the real client.",
 ["error returned", "result of the following operations"])
prop("C04", "Counters are exact and never corrupt the item",
 "Increment and Decrement return the value the server then holds, computed by memcached's 64-bit rules (Decrement stops at zero), for every representable start value and delta; a missing key or a non-numeric value is an error and changes nothing, except that the binary protocol creates a missing counter with value 1 and the given expiration. Flags and expiration of the item survive.",
 ["inputs", "histories"], "18 start values x 10 deltas x both operations in sequences of 3, and all sequences to depth 3-4 mixed with stores, deletes and expiry",
 "Tests increment one counter by one.",
 [CL], [("incrOrDecr", CL)],
 "Exhaustive over the listed values and depths on the real client; results that do not fit the API's int64 are excluded.",
 ["returned number", "server contents"])
prop("C05", "GetMulti returns exactly the present items",
 "GetMulti over any list of keys, of any length and in any order, with missing, repeated or no keys, returns exactly one correct item per requested key that is present (value, flags, key, CAS token), nothing else, and no error merely because keys are missing. It never waits for a server that waits for it, however much of requests and replies the network holds back. The connection is in step afterwards.",
 ["inputs"], "all key lists up to length 4-5 over present, missing, expired and large items, per protocol (for pools see C12 and C13)",
 "Tests ask for two present keys.",
 [CL, CC, CU], [("GetMulti and its terminators", CL)],
 "All key lists within the bound are executed on the real client.", ["items returned", "unread bytes"])
prop("C06", "A broken or stalled connection never yields a wrong answer",
 "When the connection is closed, reset, stalls or slows down at any byte of any exchange, the operation returns within the configured Timeout, counted from its own start (a reply that is complete before that is used, whatever operations and pauses went before) and reports success only if the server had acknowledged it; the item on the server is then either as before or as after the operation. Later operations on that connection either fail or return their own correct result, never the late reply of an earlier request, and after a successful Reconnect (even one that follows failed Reconnects) everything works again. A Reconnect to a host that does not answer gives up within the Timeout, too.",
 ["fault_sequences", "crash_points"], "every operation x protocol x fault kind x every byte of request and reply as the fault point, then follow-up operations, late delivery, failed and successful Reconnects",
 "No test breaks a connection inside an exchange; there are hundreds of cut points per operation.",
 [CL], [("deadlines", CL), ("stream poisoning", CL), ("Reconnect", CL)],
 "Every cut point of every exchange is executed on the real client under virtual time.", ["error and duration of the call", "server contents", "later results"])
prop("C07", "How the network cuts the byte stream changes nothing",
 "For every way the bytes of a reply (on the client) or of a request pipeline (on the server) are split into segments, the results returned, the requests handed to the handler and the replies written are the same as if everything had arrived at once.",
 ["inputs", "schedules"], "every one- and two-point split (and byte-by-byte delivery) of every reply of every operation, and of request pipelines on the server",
 "On a loopback socket small messages always arrive whole.",
 [CL, SV], [("buffered readers, io.ReadFull", CL), ("request readers", SV)],
 "All splits up to two cut points plus bytewise delivery are executed on the real code.", ["results", "handler calls", "reply bytes"])
prop("C08", "Goroutines sharing one connection see a linearizable store",
 "When several goroutines use the same client connection (or pool) at once, every operation gets the reply to its own request, and the results are those of some sequential order of the operations that respects their real-time order; no call blocks forever, items returned to different callers share no memory, and no two goroutines access anything without synchronisation (no data race).",
 ["schedules"], "all interleavings with at most 2 (thorough 3) preemptions of 2-3 goroutines running every pair of operations, per protocol",
 "The tests use each connection from one goroutine.",
 [CL, CC], [("connection mutex", CL), ("pooled request headers", CL)],
 "All schedules within the preemption bound are executed on the real code; each is checked for linearizability by brute force, and once more in a build in which the race detector judges every execution.", ["results of each goroutine", "server contents"])
prop("C09", "Close and Reconnect are safe at any moment",
 "Close may be called at any point of other operations, Reconnects and heartbeats and in any order: nothing panics, deadlocks or leaks a connection or goroutine, calls in progress return, and operations after Close fail. Close is final: no Reconnect, explicit or automatic, leaves an open connection behind, and Reconnect replaces the connection exactly once per call. None of these calls races with another.",
 ["schedules", "histories"], "all interleavings within the bound of Close, Reconnect, operations and heartbeat ticks on one connection, and all call sequences to depth 4",
 "No test calls Close concurrently with anything or twice.",
 [CL], [("closeMu, closeCh", CL)],
 "All schedules within the bound on the real code, with leak accounting of virtual connections and goroutines.", ["panics", "open connections", "live goroutines"])
prop("C10", "Heartbeat detects failures and auto-reconnect recovers",
 "With heartbeat enabled the client notices a lost connection within two intervals (plus the Timeout): with auto-reconnect it goes on trying at every interval until the server is back and then works again without any call by the user, through any number of outages; without auto-reconnect it closes the connection. The heartbeat never disturbs the results of operations running at the same time and stops for good on Close.",
 ["fault_sequences", "schedules"], "every sequence of outages and refused dials up to the bound, at every tick phase and every byte of the heartbeat exchange, interleaved with operations",
 "No test enables the heartbeat with a failing server.",
 [CL], [("heartbeat", CL), ("EnableAutoReconnect", CL)],
 "All outage patterns within the bound are executed on the real code under virtual time.", ["dials", "results", "goroutines"])
prop("C11", "Keys are placed by the documented consistent hash ring",
 "A key belongs to the server owning the ring point at or before the CRC-32 (IEEE) of the key, each server having 200 points: the first four bytes, big endian, of SHA-1 of name/0 to name/199; keys before the first point belong to the first. Placement is the same for every order in which the servers are given, in every process and for every pool, and removing or adding a server moves only the keys that server owned or now owns.",
 ["inputs", "configurations"], "keys constructed at, just before and just after every ring point of every server set up to the bound, all server orders, all add/remove steps",
 "The test picks a few keys on one ring; a wrong arc border moves one key in millions.",
 [RG], [("NewRing", RG), ("Pick", RG)],
 "Every arc border of every enumerated ring is probed with constructed keys, against an independent oracle.", ["server that received the request"],
 [("ring points", "200 per server", RG)])
prop("C12", "A SinglePool routes each operation to its key's owner",
 "Every SinglePool operation on a key is executed exactly once, on exactly the server that owns the key, with unchanged arguments and result; GetMulti merges the answers of all owners and fails if one fails; Flush and Version reach every server unless one fails, whose error is then returned, and Close closes every server even when closing one fails. Goroutines may share a pool: with keys of its own each sees what it would see alone.",
 ["inputs", "configurations", "fault_sequences"], "every operation x key owner x server count x protocol mix; all key sets for GetMulti; every failing server; every map iteration order",
 "The pool tests use two servers and a key or two.",
 [CC, RG], [("SinglePool methods", CC)],
 "All combinations within the bound on the real pool over reference servers, map iteration order enumerated.", ["requests each server received", "result"])
prop("C13", "Primary and secondary hold the same items after every write",
 "After every successful write through a ReplicaPool (Set, CAS Set, Add, Replace, Delete, Increment, Decrement), the owning primary and the owning secondary hold the same value, flags and expiry for that key, no other server was changed, and reads are answered by the primary only. A write the primary refuses (exists, not found, CAS mismatch, not a number) changes neither. The same holds when goroutines write different keys at once.",
 ["histories", "configurations"], "all operation sequences to the stated depth over two keys with expirations, CAS tokens and diverged secondaries, for 1-3 primaries x 1-3 secondaries",
 "The tests do one write of each kind on one pair.",
 [CU], [("replica writes", CU)],
 "All sequences within the bound on the real pool; both stores are compared after every step.", ["contents of every server"])
prop("C14", "A replica failure is reported and never damages the primary's answer",
 "If the primary fails, the write is reported as failed and is not applied to the secondary unless the primary applied it; if the secondary fails, the call reports an error while the primary keeps the write. Reads need only the primary: a dead secondary never fails a read, and a dead server fails only the keys it owns. Once the failed server is reachable again and reconnected, the next successful write brings both copies together.",
 ["fault_sequences", "configurations"], "every write x every byte of the exchange with primary or secondary as the point of failure, followed by reads, Reconnect and rewrites",
 "No test fails a server.",
 [CU], [("error propagation", CU)],
 "All fault points of all writes on the real pool.", ["result", "contents of both servers"])
prop("C15", "The server hands the handler exactly the requests that were sent",
 "Every well-formed text, meta or binary request the server supports reaches the handler exactly once and in order, with exactly the opcode, key(s), value bytes, flags, expiration, CAS token, delta and options that the client sent, whatever the value contains and whatever requests precede or follow on the connection.",
 ["inputs", "histories"], "every supported request form x value shapes x field borders, and all pipelines of 2-4 requests",
 "Tests parse one example per command.",
 [SV], [("text, meta and binary request parsers", SV)],
 "All request forms and pipelines of the bounded space are run through the real server.", ["handler calls"])
prop("C16", "Every request gets exactly one correct reply, in order",
 "For each request the server writes exactly one reply, in request order and in the protocol of the request, carrying the handler's answer (items, flags, CAS, numbers, status, opaque, opcode) or an error if the handler failed or does not support it; quiet requests are answered only where the protocol says so. The reply framing is valid, so a client can always find the next reply. However long a client pauses between or within its requests or before it reads its replies, and however many requests it sends, they are answered all the same.",
 ["inputs", "histories"], "every request form x every handler answer and error, and all pipelines of 2-3 requests",
 "Tests check one reply per command, mostly by prefix.",
 [SV], [("reply writers", SV)],
 "All combinations on the real server, replies parsed by an independent parser.", ["bytes written by the server"])
prop("C17", "Malformed input never harms the server or other requests",
 "No byte sequence a client sends makes the server panic, hang, spin, allocate memory out of proportion, or hand the handler a request that was not sent; valid requests before the malformed one are answered correctly, and the connection is then either answered with an error and usable or closed, while other connections and new ones work on.",
 ["inputs"], "every single-byte substitution, deletion, truncation and length-field border of every request form, and all short byte strings over a grammar alphabet",
 "No test sends malformed input.",
 [SV], [("request parsers", SV)],
 "The mutation space is enumerated completely on the real server.", ["panics", "handler calls", "replies"])
prop("C18", "Connections to the server are independent",
 "Any number of connections served at once do not affect each other: each gets the replies to its own requests in order, whatever the interleaving, and a connection that is slow, silent, malformed, fails or closes at any point neither delays nor corrupts nor ends the service of the others; nor does a temporary failure to accept one more.",
 ["schedules", "fault_sequences"], "all interleavings within the bound of 2-3 connections sending pipelines in pieces, with failures at each point",
 "Tests use one connection at a time.",
 [SV], [("Serve, per-connection loop", SV)],
 "All schedules within the bound on the real server.", ["replies per connection", "handler calls"])
prop("C19", "The replica proxy is a transparent memcached",
 "Through server and ReplicaProxy a memcached client (text, meta or binary) sees the same items, flags, CAS results, expirations and errors for gets, multi-key gets and sets as it would talking to the owning primary directly, and every acknowledged set is on both primary and secondary with its value, flags and expiration. Requests the proxy does not support are refused, with an error or by closing the connection, and change nothing (among them the text command cas, which the server does not have).",
 ["histories", "inputs"], "all operation sequences to the stated depth from this library's three clients and raw requests, through server, proxy, replica pool and reference servers",
 "There is no test of the proxy at all.",
 [PX, SV, CU], [("ServeRequest", PX)],
 "All sequences within the bound through the whole real stack.", ["results at the client", "contents of both servers"])
prop("C20", "The proxy never acknowledges what a backend did not do",
 "When a backend connection fails, stalls with a timeout, or answers with an error at any point, the client of the proxy gets an error or a closed connection for that request, never a success, a miss or another item; the proxy neither crashes nor hangs, and requests for keys on healthy backends keep working.",
 ["fault_sequences"], "every request x backend x fault kind x every byte of the backend exchange, followed by requests on other keys and connections",
 "There is no test of the proxy at all.",
 [PX, SV, CU, CL], [("error mapping", PX)],
 "All fault points through the whole real stack.", ["replies", "contents of both servers"])
prop("C21", "The router serves exactly the cluster its configuration names",
 "Started with a configuration file naming any number of servers, the router connects to every listed primary and secondary at its host and port and serves port 8090, placing keys on the primary and secondary rings by the configured names whatever the listing order; it does not start serving when the file is unreadable or malformed, lists no primary or no secondary, or a server is unreachable.",
 ["configurations", "fault_sequences"], "all configurations up to 2-3 primaries and secondaries, all listing orders, every unreachable server, malformed files",
 "The router has no test.",
 [RT], [("main, connectServers", RT)],
 "All configurations within the bound are run through the real main function on a virtual network.", ["dials", "listener", "contents of the servers"])
prop("C22", "No key can change what a request means",
 "For every byte string given as a key, each client operation either performs exactly that operation on exactly that key or is refused with an error without sending anything that affects the server: a key can never be split, truncated, or smuggle in another command, and after a refusal the connection works on.",
 ["inputs"], "every single byte at every position of short keys, every length from 0 to beyond the limit, and command-shaped keys x every operation x protocol",
 "Tests use plain keys only.",
 [CL], [("key check before a request is written", CL)],
 "All keys of the bounded space on the real client; the reference server reports every malformed or foreign command.", ["requests the server saw", "server contents", "errors"])
prop("C23", "Items and arguments are never aliased or modified",
 "Operations never modify the item, value, flags or key slices the caller passes in (not even for the duration of a call, so several goroutines may pass the same item), nor read or write beyond them; items returned belong to the caller: later operations on the connection do not change them, and changing them changes nothing else. The server likewise hands each request's data to the handler as memory no later request overwrites.",
 ["histories", "inputs"], "every store operation x slice capacity shape x protocol, followed by every sequence of 2-3 further operations; handler-retained requests over all pipelines",
 "Tests never look at an argument or an earlier result again.",
 [CL, SV, CC], [("buffer handling", CL)],
 "All sequences within the bound on the real code; retained memory is compared after every step.", ["memory retained by caller or handler"])
prop("C24", "Expirations arrive unchanged",
 "The expiration given to Set, Add, Replace and Touch (none, relative up to 30 days, or an absolute Unix time) is the one the server applies, at any later moment items are returned exactly until they expire, Touch changes only the expiration, and over the meta protocol the expiration returned with an item, when stored again, keeps its lifetime.",
 ["inputs", "histories"], "every expiration border x store mode x waiting time x protocol, and all sequences of stores, touches, reads and waits to depth 4-5",
 "Tests do not let time pass and never read an expiration back.",
 [CL], [("exptime fields", CL), ("meta TTL parsing", CL)],
 "All sequences within the bound under virtual time on the real client.", ["absolute expiry at the server", "items returned"])
prop("C25", "No reply can harm the client",
 "Whatever bytes a server sends as a reply (malformed lines, impossible or huge lengths, foreign replies, truncated or over-long ones), no client operation panics, blocks beyond the configured Timeout or allocates memory out of proportion to the bytes received, neither at once nor in later operations on that connection, and after a Reconnect to a healthy server every operation is right again.",
 ["inputs", "fault_sequences"], "every operation x protocol x every reply in which one byte is replaced, removed or repeated, every prefix, every combination of border values of the header fields, and hand-written lines; followed by silence or the end of the connection",
 "No test lets a server send anything but correct replies.",
 [CL], [("reply parsers", CL), ("readBody/readValue", CL), ("Reconnect", CL)],
 "All replies of the bounded space are executed on the real client under virtual time.", ["panics", "duration of the call", "bytes allocated", "results after Reconnect"])

BUILT = open(os.path.join(HERE, "tools", "built.txt")).read().split()
TECH = {
 "C08": "stateless model checking of the real code: preemption-bounded schedule enumeration with a brute-force linearizability check",
 "C09": "stateless model checking of the real code: preemption-bounded schedule enumeration",
 "C18": "stateless model checking of the real code: delay-bounded schedule enumeration",
}
DEF = "explicit-state bounded exploration of the real code under a controlled scheduler, network and clock, against a reference model replayed against memcached"
def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            q = {k: v for k, v in p.items() if k != "note"}
            f.write(json.dumps(q, ensure_ascii=False) + "\n")
    m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[],
        notes="No hooks are committed in /repo: every check instruments a copy of /repo's working tree at build time (tools/vgen) and builds it with go build -overlay. replay.sh FILE re-runs the execution a VIOLATION line names.")
    for p in P:
        if p["id"] in BUILT:
            m["checks"].append(dict(property=p["id"], quick_cmd="bash check.sh %s quick" % p["id"], thorough_cmd="bash check.sh %s thorough" % p["id"],
                evidence_file="evidence/%s.json" % p["id"], technique=TECH.get(p["id"], DEF), level="model_checking",
                level_note=p["note"] + " Trusts: the instrumenter (tools/vgen), the virtual network and clock, and the reference server (compared with the real memcached binary on every run when that binary is installed)."))
        else:
            m["not_applicable"].append(dict(property=p["id"], reason="the family applies; this check is not built yet"))
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
main()
