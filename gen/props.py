# One entry per property; see gen.py. "na" marks a property no check claims, with the reason.
QUS = "internal/willow/brokers/queues"
QCS = "internal/willow/brokers/queue_channels"
MQC = "internal/willow/brokers/queue_channels/memory"
NOTES = ("Every check is the same static analyzer (analyzer/, Go, built from vendored-in-cache golang.org/x/tools) run on /repo's current source; "
         "no code of /repo is executed. A violation names the function, the path through it and the rule.")

TECH_FLOW = "interprocedural path-sensitive dataflow over SSA with an event monitor (typestate)"
NOTE_FLOW = ("Every path of the named operations is covered: branch facts, callbacks and injected failures of the limiter and the trees included; loops by fixpoint. "
             "Trusted: go/ssa, the documented meaning of the tree containers (which have their own properties), and that the limiter client reports failure exactly when the counter did not change.")

PROPS = []
def P(id, title, statement, over, text, tests, files, mech, technique=TECH_FLOW, note=NOTE_FLOW, state=None, na=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                  "why_tests_cant": tests, "anchors": a, "technique": technique, "note": note, "na": na})

P("W01", "Every message is waiting or processing, and the limiter's counters agree",
  "In a queue channel every stored message is either waiting or being processed, never both and never neither. "
  "Every operation changes the queue's enqueued counter by exactly the change in stored messages and its running counter by exactly the change in messages being processed, also when it fails half-way. "
  "The channel has one pending hand-out for every waiting message.",
  ["histories", "fault_sequences"], "any sequence of enqueue, dequeue, acknowledge, heartbeat loss and failed hand-out, with the limiter failing at any call",
  "The tests drive single operations with a limiter fake that succeeds or fails as a whole; the balance must hold for every combination of list length, updateable flag, retry position and failing limiter call.",
  [MQC + "/memory_queue_channel.go", MQC + "/item.go"],
  [("enqueue / dequeue / acknowledge / heartbeat timeout", MQC + "/memory_queue_channel.go"), ("limiter counter updates", MQC + "/memory_queue_channel.go")],
  state=[("stored messages", "tree of items by id", "memoryQueueChannel"), ("waiting ids", "ordered list of waiting message ids", "memoryQueueChannel")])
P("W02", "Messages are handed out first in, first out, and retried at the place they name",
  "A new message joins at the tail of its channel and messages are handed out from the head. "
  "A message whose processing failed returns to the front or the back as its retry position says, and one whose hand-out failed returns to the front. "
  "What is handed out or put back is always the message the operation is about.",
  ["histories"], "any sequence of operations on a channel",
  "Tests sample channels of one or two messages; order has to hold for every length and every mix of retry positions.",
  [MQC + "/memory_queue_channel.go"], [("waiting list", MQC + "/memory_queue_channel.go")])
P("W03", "An enqueue stores a new message or fully replaces an updateable last one",
  "An accepted enqueue either stores one new message, or replaces the content and every setting of the channel's last waiting message, which it may do only if that message is updateable. "
  "No other stored message is altered by an enqueue. A refused enqueue changes nothing.",
  ["histories", "inputs"], "any channel content and any request",
  "Tests compare one or two settings after one update; all settings must follow for every request.",
  [MQC + "/memory_queue_channel.go", MQC + "/item.go"], [("update in place", MQC + "/memory_queue_channel.go")])
P("W04", "A failed message is retried until its limit and not lost before",
  "Each failed processing of a message (a negative acknowledgement or a lost heartbeat) uses up exactly one retry; a hand-out that never reached the consumer uses none. "
  "Within the limit the message is put back to wait, or gives way to a newer waiting message only because one of the two is updateable. Past the limit it is removed.",
  ["histories", "fault_sequences"], "any sequence of failures, heartbeat losses and limiter errors",
  "Tests cover one retry of one message; the accounting must hold for every count, limit and list content.",
  [MQC + "/memory_queue_channel.go", MQC + "/item.go"], [("retry on negative acknowledgement and on heartbeat timeout", MQC + "/memory_queue_channel.go")])
P("W05", "A message offered to a consumer is delivered once or goes back",
  "Taking a message either yields it, counted as processing and with a way to report delivery or non-delivery, or yields nothing and leaves the channel unchanged. "
  "Each report releases the channel for its next hand-out exactly once. A delivered message is kept alive by heartbeats from then on, and an undelivered one waits again.",
  ["schedules", "fault_sequences"], "any interleaving of consumers with the limiter refusing or failing at any point",
  "Tests use one consumer that takes the message at once.",
  [MQC + "/memory_queue_channel.go"], [("hand-out callback and its two outcome callbacks", MQC + "/memory_queue_channel.go"), ("executor", MQC + "/memory_queue_channel.go")])
P("W09", "Acknowledgements and heartbeats answer for what they did",
  "An acknowledgement succeeds exactly when it ended the processing of a message, and a successful positive one removes that message. "
  "A heartbeat succeeds exactly when the message is still being processed. An acknowledgement for a message that is not being processed changes nothing.",
  ["schedules", "histories"], "any interleaving of acknowledgements, heartbeats and heartbeat loss",
  "The race between an acknowledgement and the loss of heartbeats is hit by no test.",
  [MQC + "/memory_queue_channel.go", MQC + "/item.go", "internal/heartbeater/heartbeater.go"], [("acknowledge and heartbeat", MQC + "/memory_queue_channel.go")])

P("W06", "Heartbeats keep a message in processing, and their loss is noticed once",
  "A message in processing times out exactly when no heartbeat was taken for its timeout since it was delivered or last heartbeated; the timeout is acted on exactly once, after those waiting on the process are released, and never after the process was stopped or the server stops. "
  "Stopping, starting and heartbeating answer true exactly when they took effect and never block for ever, whether the process has not started, runs or has ended. "
  "A message has at most one such process, made with its own timeout.",
  ["schedules", "histories"], "any interleaving of start, stop, heartbeat, timer and server stop",
  "The tests start, heartbeat and stop one process in order; the hang found here needs a heartbeat between hand-out and the recording of its delivery.",
  ["internal/heartbeater/heartbeater.go", MQC + "/memory_queue_channel_item.go"],
  [("the process' select loop", "internal/heartbeater/heartbeater.go"), ("start, stop and heartbeat of a message", MQC + "/memory_queue_channel_item.go")])
P("W07", "Deleting a queue or channel takes everything of it, and crashes nothing",
  "Deleting a queue removes its channels first and then its limit, and the queue only disappears when both succeeded. "
  "Deleting a channel or a queue takes all of its messages, ends their heartbeats and resets both limiter counters to zero, while an emptied channel is only removed on its own when it is empty. "
  "Operations running at the same time neither crash the server nor block for ever.",
  ["schedules", "histories"], "any interleaving of deletions with enqueues, hand-outs, acknowledgements and heartbeat timeouts",
  "No test deletes a queue or channel while another operation on it is under way.",
  [MQC + "/memory_queue_channel.go", QCS + "/queue_channels_client_local.go", QUS + "/queues_client_local.go"],
  [("channel deletion", MQC + "/memory_queue_channel.go"), ("removal of emptied channels", QCS + "/queue_channels_client_local.go"), ("queue deletion", QUS + "/queues_client_local.go")])
P("W08", "A waiting client is offered every channel its query matches",
  "A client waiting to dequeue is registered before existing channels are looked at, so it is offered each channel of its queue that matches its query, existing or created while it waits. "
  "It is returned exactly the offered message with its two callbacks, and an offer without a message continues the wait. "
  "On every way the wait ends the client, and only it, is deregistered, and it ends with the request or the server's shutdown.",
  ["schedules"], "any interleaving of waiting clients, new channels and messages, disconnects and shutdown",
  "Tests use one client and a channel that already holds a message.",
  [QCS + "/queue_channels_client_local.go"], [("waiting for a message", QCS + "/queue_channels_client_local.go"), ("announcing a new channel", QCS + "/queue_channels_client_local.go")])
P("W10", "A channel held back by a limit resumes exactly when no limit is reached",
  "A channel whose hand-out was refused by the limiter offers messages again exactly when none of the limits that apply to its running messages is reached, and keeps waiting while the limiter cannot be asked. "
  "Waiting never keeps the channel from being deleted or the server from stopping; an executor that ends closes its offers and waits for the heartbeats of its messages. "
  "A failing limiter never stops the server.",
  ["fault_sequences", "histories"], "any limits, overrides and counts, with the limiter failing at any call",
  "The tests' limiter fake neither fails nor holds a limit while the executor runs, and the wait between two attempts is five seconds.",
  [MQC + "/memory_queue_channel.go"], [("executor", MQC + "/memory_queue_channel.go"), ("limiter calls of every operation", MQC + "/memory_queue_channel.go")],
  note="Worlds of up to two rules with up to two overrides and concrete limits and counters are followed through one refused hand-out and what comes after; the limiter fails at every call in turn. "
       "Trusted: go/ssa, and the limiter's own answers (properties of the limiter). Eight places where a failing limiter does stop the server are known findings.")
P("W11", "An operation acts once on the queue, channel and message it names",
  "An operation on a queue's channels or messages is done exactly once for the named queue, channel and message, as requested and while the queue cannot be deleted, and answers with its outcome. "
  "Naming an unknown queue, channel or message is answered 404 (a listing: empty) and does nothing; a message is handed out with its own id, data, settings and its channel's key values. "
  "An enqueue makes and runs a new channel if there is none, and keeps it only if the message was enqueued.",
  ["inputs", "histories"], "any request against any set of queues and channels",
  "The queue layer has no tests, and the channel layer's tests sample a few of the outcomes.",
  [QUS + "/queues_client_local.go", QCS + "/queue_channels_client_local.go", MQC + "/memory_queue_channel.go"],
  [("queue operations", QUS + "/queues_client_local.go"), ("channel operations", QCS + "/queue_channels_client_local.go")])
P("W12", "A queue and its limit live and change together",
  "A queue is created once under its name, with an override of willow's rule that holds its limit, and is stored exactly if that worked; an existing one is answered 409. List and get show the stored queues with their own names and limits. "
  "An update changes exactly the queue's own override and only then the reported limit; deletion deletes exactly that override. "
  "Failures of the limiter are reported, change nothing and stop nothing.",
  ["fault_sequences", "histories"], "any sequence of create, list, get, update and delete, with the limiter failing at any call",
  "There are no tests for the queue layer.",
  [QUS + "/queues_client_local.go", QUS + "/memory/memory_queue.go"], [("queue life cycle", QUS + "/queues_client_local.go"), ("queue limit", QUS + "/memory/memory_queue.go")])

LCK = "internal/locker/lock_manager"
NOTE_LOCK = ("The lock's process is checked as a request/response automaton over its states free, held and expired: every transition, every answer and every exit, loops by fixpoint. "
             "Trusted: go/ssa, Go's channel and timer semantics, the documented meaning of the tree containers, that requests are validated (a claim's session is never empty).")
LF = [LCK + "/exclusive_lock.go", LCK + "/exclusive_locker.go"]
P("L01", "A lock has at most one holder",
  "At any time at most one session holds the lock for a set of key values. "
  "A lock is granted to a further client only after its holder released it or let it expire, and a free lock is offered to the clients waiting for it.",
  ["schedules"], "any interleaving of clients obtaining, heartbeating, releasing and abandoning one lock, with its expiry and a shutdown",
  "Tests order their clients with sleeps; exclusion must hold for every interleaving.",
  LF, [("lock process offering claims", LCK + "/exclusive_lock.go"), ("obtaining a lock", LCK + "/exclusive_locker.go")],
  TECH_FLOW, NOTE_LOCK, state=[("lock state", "free, held by a session, or expired and being cleaned up", "exclusiveLock")])
P("L02", "Only the holder's session keeps or releases a lock",
  "A heartbeat or release that names the current holder's session is accepted; the heartbeat restarts the full timeout and the release frees the lock. "
  "One that names any other session, an unknown lock or a lock nobody holds is refused and changes nothing. Every grant has a new session, which is the one told to the client.",
  ["schedules", "inputs"], "any claim, right or stale, arriving at any moment",
  "Tests send one wrong session to a held lock; stale claims can arrive in every state.",
  LF, [("session comparison in the lock process", LCK + "/exclusive_lock.go"), ("heartbeat and release by lock id", LCK + "/exclusive_locker.go")], TECH_FLOW, NOTE_LOCK)
P("L03", "A lock that is not heartbeated expires after its timeout",
  "A granted lock runs for the timeout its client asked for, counted anew from each accepted heartbeat. "
  "When that time passes the holder loses the lock, which is then cleaned up exactly once and passed on or removed.",
  ["schedules"], "any timing of heartbeats, waiting clients and shutdown",
  "Tests wait for one expiry with one timeout.",
  LF, [("expiry timer", LCK + "/exclusive_lock.go"), ("clean-up callback", LCK + "/exclusive_locker.go")], TECH_FLOW, NOTE_LOCK)
P("L04", "A lock exists exactly as long as someone holds or awaits it",
  "Every client asking for a lock is counted in once and counted out once: when it releases, loses or stops waiting for the lock. "
  "The lock is removed exactly when the last client is counted out, never while one holds or awaits it and never left behind.",
  ["schedules", "histories"], "any interleaving of clients coming and going, including disconnects while waiting and the server shutting down",
  "Tests cover two clients; the count must balance on every path.",
  LF, [("waiting counter", LCK + "/exclusive_lock.go"), ("removal on last client", LCK + "/exclusive_locker.go")], TECH_FLOW, NOTE_LOCK)
P("L05", "Every request about a lock gets one answer, whatever state the lock is in",
  "Heartbeats, releases, disconnects and expiries are each answered exactly once and promptly, whether the lock is free, held or expired. "
  "A shutdown ends the lock and releases everyone who waits for it or asks it something.",
  ["schedules"], "any arrival order of requests, including requests for a lock that is between holders",
  "A request that arrives between two holders is hit by no test, and a stuck one blocks every other client of that lock.",
  LF, [("request loop of the lock process", LCK + "/exclusive_lock.go")], TECH_FLOW, NOTE_LOCK)

LIM = "internal/limiter"
NOTE_LIM = ("Every path of the operation is covered for every limit, amount and stored total, with storage, locker and rule lookup failing at any point. "
            "Lists are explored up to two rules with two overrides each, two keys and two stored counters (small scope); counts within those are symbolic. "
            "Trusted: go/ssa, the documented meaning of the tree containers and queries (which have their own properties), that the locker client hands out working locks.")
TECH_LIM = "interprocedural path-sensitive dataflow over SSA with symbolic branch facts; loops unrolled to small scope"
P("L06", "Clients keep what they hold alive, and learn when it is lost",
  "A client heartbeats a held lock or item at least three times per timeout. If no heartbeat is taken for the timeout, also when the service never answers, or the service refuses one, the holder is told by its Done channel, once, and heartbeats stop; a failed heartbeat alone loses nothing and is told to the optional callback. "
  "Releasing or acknowledging stops heartbeats first and names what the service granted; a lock is released at most once and is no longer remembered by then. "
  "Obtaining a lock yields the one granted or already held, or an error, or neither only when the caller canceled.",
  ["schedules", "fault_sequences"], "any sequence of heartbeat answers, failures and silence, with release or acknowledgement at any point",
  "The clients' tests are disabled or need running services; silence of the service and races of release and heartbeat are exercised by none.",
  ["pkg/clients/locker_client/lock.go", "pkg/clients/locker_client/locker_client.go", "pkg/clients/willow_client/item.go"],
  [("lock heartbeats and release", "pkg/clients/locker_client/lock.go"), ("obtaining a lock", "pkg/clients/locker_client/locker_client.go"), ("item heartbeats and acknowledgement", "pkg/clients/willow_client/item.go")],
  TECH_FLOW, "Every path of the heartbeat goroutine, of giving up and of obtaining is covered; time is reduced to fractions of the timeout, so the bound on noticing a loss is up to scheduling. Trusted: go/ssa, the meaning of tickers, once and the tree of held locks.")
P("M01", "No increment takes a counter over a limit that applies to it",
  "An increment is accepted only if for every rule that matches its key values, or the rule's matching overrides in place of it, the counters of that group plus the increment stay within the limit. "
  "A limit of -1 allows everything and a limit of 0 nothing. An accepted increment adds exactly its amount to exactly the counter it names, once; a refused or failed one changes nothing and is answered as an error.",
  ["inputs", "histories", "fault_sequences"], "any rules, overrides, stored counters and increment, with any lookup or lock failing",
  "Tests sample one or two rules with increments of one; the bound must hold for every combination of limits, overrides, totals and amounts.",
  [LIM + "/counters/counter_client_local.go", LIM + "/api/v1/handlers/counters_handler.go"],
  [("increment and limit check", LIM + "/counters/counter_client_local.go")], TECH_LIM, NOTE_LIM)
P("M02", "Limits are checked and counted under the locks of all key values",
  "An increment that has a limit to respect checks and changes the counters only while it holds a lock for each of its key values, taken one at a time in key order so that increments cannot deadlock. "
  "If any of those locks is refused, lost or the request is canceled before the check, nothing is counted and an error is returned. All locks obtained are released exactly once on every outcome, and no two requests share the client that holds them.",
  ["schedules", "fault_sequences"], "any interleaving of increments and any failing, lost or canceled lock",
  "Tests use a fake locker that hands out every lock; a partial or lost set of locks and the order between two clients are not exercised.",
  [LIM + "/counters/counter_client_local.go"], [("locks per key value", LIM + "/counters/counter_client_local.go")], TECH_LIM, NOTE_LIM)
P("M03", "Counters change and are reported exactly as asked",
  "A decrement adds its (non-positive) amount to exactly the named counter, which is removed if and only if nothing is left; a set replaces exactly the named counter or removes it if nothing is to be counted. "
  "Success is reported exactly when the change happened. A stored counter keeps its own copy of its count, and a query reports every matching counter once with its key values and current count.",
  ["inputs", "fault_sequences"], "any counters and any request, with the storage failing at any call",
  "Tests compare a few hand-picked values.",
  [LIM + "/counters/counter_client_local.go", LIM + "/counters/memory/counter.go"],
  [("decrement, set and query", LIM + "/counters/counter_client_local.go"), ("stored counter", LIM + "/counters/memory/counter.go")], TECH_LIM, NOTE_LIM)
P("M04", "Rules and overrides are acted on by name, once, and answered truthfully",
  "An operation on a named rule or override acts on exactly that one, once, and returns its outcome; it answers 404 for an unknown name, 409 for a duplicate or a rule being deleted, and never reports success without acting. "
  "An override has all keys of its rule. A rule is deleted only after all of its overrides are gone and its own deletion agreed; otherwise it stays and an error is returned. "
  "Queries report every matching rule or override once, with its own id, key values and limit.",
  ["inputs", "fault_sequences", "histories"], "any rules, overrides and requests, with the storage or the deletion failing at any call",
  "The rules client has no effective tests; others sample one rule.",
  [LIM + "/rules/rules_client_local.go", LIM + "/overrides/overrides_client_local.go", LIM + "/rules/memory/rule.go", LIM + "/overrides/memory/memory_override.go"],
  [("rules by name", LIM + "/rules/rules_client_local.go"), ("overrides by name", LIM + "/overrides/overrides_client_local.go")], TECH_LIM, NOTE_LIM)
P("M05", "The limits that apply to a counter are found completely",
  "The limits of a set of key values are all rules whose keys the set contains, each together with those of its own overrides that match the set. "
  "The search may stop early only after a limit of 0 that refuses the increment anyway. If any part of the lookup fails, the lookup fails rather than returning fewer limits.",
  ["inputs", "fault_sequences"], "any rules, overrides and key values, with the storage failing at any call",
  "Tests sample a few combinations; a limit that is skipped shows only for the combination that needs it.",
  [LIM + "/rules/rules_client_local.go", LIM + "/overrides/overrides_client_local.go"],
  [("rules of a counter", LIM + "/rules/rules_client_local.go"), ("overrides of a rule", LIM + "/overrides/overrides_client_local.go")], TECH_LIM, NOTE_LIM)

NOTE_API = ("Every path of every registered handler is covered, through the middleware it is registered with, for a body that decodes or not, is valid or not, an operation that fails or succeeds, and a response that can or cannot be written. "
            "Trusted: go/ssa, net/http, encoding/json and the router library; the operations behind the handlers have their own properties.")
HF = ["internal/willow/api/v1/handlers", "internal/limiter/api/v1/handlers", "internal/locker/api/v1/handlers", "pkg/models/api/server.go", "internal/middleware"]
P("A01", "Requests are answered once and truthfully",
  "Every request to an API endpoint is answered exactly once. One whose body does not decode or validate is refused with a client error and has no effect; otherwise exactly one operation runs. "
  "An operation's failure is answered with its own status and message, and a success status is sent only after the operation succeeded, with its result as the body when it has one.",
  ["inputs", "fault_sequences"], "any request to any endpoint, with any operation failing in any way",
  "No test that runs here drives the handlers, and every handler must hold for every failure.",
  HF, [("request handlers", "internal/*/api/v1/handlers"), ("encoding a response", "pkg/models/api/server.go"), ("route registration", "internal/*/api/v1/router")], TECH_FLOW, NOTE_API)
P("A02", "Operations act on what the request names",
  "The operation behind an endpoint acts on the object named in the request's path and on the decoded body, and on nothing else. "
  "It runs under the request's own context, so that it ends when the client goes away.",
  ["inputs"], "any request to any endpoint",
  "A handler that takes the wrong path parameter or loses the request's context passes every test of the layers below it.",
  HF, [("request handlers", "internal/*/api/v1/handlers"), ("route registration", "internal/*/api/v1/router")], TECH_FLOW, NOTE_API)
P("A03", "A grant that was not delivered is taken back",
  "When a lock was granted, or a message taken for a consumer, but the response could not be sent, the lock is released by its own session or the message is reported undelivered. "
  "When the response was sent, the message is reported delivered, and the lock stays held.",
  ["fault_sequences"], "any failure to validate, encode or write the response",
  "No test makes the response writer fail.",
  HF, [("obtaining a lock", "internal/locker/api/v1/handlers/locker_handler.go"), ("dequeueing a message", "internal/willow/api/v1/handlers/item_handler.go")], TECH_FLOW, NOTE_API)
P("A04", "Clients and services speak the same protocol",
  "Every request a client sends, heartbeats included, uses a method and path its service provides, with a content type, the path's parameters in their order and the body the service decodes. "
  "A client call succeeds exactly when the service answered with the endpoint's success status and the answer could be read, and returns that answer. "
  "A request that fails, or an answer that is missing or unexpected, is reported as an error and never crashes the client.",
  ["inputs", "fault_sequences"], "any client call with any answer or none",
  "The client tests need certificates that have expired; services and clients are otherwise tested apart, so both can be wrong together.",
  ["pkg/clients/willow_client", "pkg/clients/locker_client", "pkg/clients/limiter_client", "internal/*/api/v1/router"],
  [("requests and answers", "pkg/clients"), ("routes", "internal/*/api/v1/router")], TECH_FLOW, NOTE_API)

P("A05", "No request body makes a service panic",
  "Whatever a request's body leaves out, sets to null or nests, the service answers it: a part of the body is used only where validation has established that it is there. "
  "A duration taken from a body is stored, handed on or given to a timer only when it is known to be positive, because a timer that is given another one panics. "
  "A query with a null among its parts is refused.",
  ["inputs"], "any request body of any registered route",
  "Model tests validate a few bodies; a missing check shows only when the handler or the service uses exactly the part that was left out, often on another goroutine where a panic ends the process.",
  ["pkg/models/api/*/v1", "internal/*/api/v1/handlers"],
  [("validation", "pkg/models/api/*/v1"), ("use", "internal/*/api/v1/handlers"), ("timers", "internal/heartbeater")], TECH_FLOW, NOTE_API)

BT = "internal/datastructures/btree"
TECH_TREE = "abstract interpretation of the tree's methods over symbolic node shapes with an order domain for keys, plus lock typestate"
NOTE_TREE = ("Each recursive node method is interpreted from source on every node shape of node size 2 (thorough: also 3; the services only build trees of size 2) with symbolic keys, types and entries, every branch and callback answer included; "
             "calls on children use the contract the method itself is checked against, so depth is not bounded. "
             "Trusted: go/ssa, sync, and that the keys' comparison is a total order grouped by type with Any last.")
BTF = [BT + "/threadsafe_b_tree.go", BT + "/threadsafe_create.go", BT + "/threadsafe_find.go", BT + "/threadsafe_delete.go", BT + "/threadsafe_destroy.go"]
P("D01", "The trees cannot be left locked",
  "Whatever an operation on a tree meets, and wherever its caller stops it, it releases every lock it took and no other. "
  "Locks are taken from the root down and from left to right and never twice by the same operation, so operations cannot block each other for good. "
  "A node is changed only while it is locked for writing, and by an operation that has not yet let its ancestors go if they have to change too.",
  ["schedules", "inputs"], "any tree, any operation, any stop by the caller and any interleaving",
  "A lock that is left behind shows only in the next operation that needs it, and only for the combination of tree shape, key and stop that leaves it.",
  BTF, [("hand over hand locking", BT), ("release of ancestors' locks", BT + "/threadsafe_delete.go")], TECH_TREE, NOTE_TREE)
P("D02", "A search of a tree offers exactly the entries it should",
  "A search offers every entry whose key compares with the given key as the operation says and whose type is within the type restrictions, once, and no other entry. "
  "The equal, less-than and less-than-or-equal searches also offer the entry for Any when the restrictions allow Any. "
  "Once the caller has asked to stop, nothing more is offered.",
  ["inputs"], "any tree, key and type restrictions",
  "Tests search with restrictions that include the key's own type and with trees of a few types.",
  [BT + "/threadsafe_find.go"], [("searches", BT + "/threadsafe_find.go")], TECH_TREE, NOTE_TREE)
P("D03", "Trees change exactly as their callers agree to",
  "A create adds the entry exactly when its callback returns one, and calls that callback only when the key is absent; an existing key is reported or handed to the caller instead. "
  "A delete removes exactly the entry of its key, and only when the caller's condition, if there is one, agrees; destroying a tree does so for every entry until the caller refuses one. "
  "All other entries stay, in order, through every split, rotation and merge, and a tree reports that it is empty exactly when it holds nothing.",
  ["inputs", "histories"], "any tree, key and answer of a callback",
  "Declined creates and refused deletes are tested on trees of at most one entry.",
  [BT + "/threadsafe_create.go", BT + "/threadsafe_delete.go"], [("create and split", BT + "/threadsafe_create.go"), ("delete, swap, rotate and merge", BT + "/threadsafe_delete.go")], TECH_TREE, NOTE_TREE)
P("D04", "A key or tree that is being destroyed accepts nothing else",
  "An operation reaches a tree only after it was registered, found the tree not being destroyed and, if it names a key, found that key not being destroyed; otherwise it reports so and changes nothing. "
  "Destroying a tree shuts out new operations, waits for those under way, and opens the tree again; destroying a key records the key exactly until it is gone. "
  "An operation with an invalid key, invalid restrictions or a missing callback is refused without effect.",
  ["schedules", "inputs"], "any interleaving of operations with the destruction of a tree or of any of its keys",
  "The window between a check and a destruction is hit by no test.",
  BTF, [("destroy guards", BT + "/threadsafe_b_tree.go"), ("destroying", BT + "/threadsafe_destroy.go")], TECH_TREE, NOTE_TREE)

BA = "internal/datastructures/btree_associated"
TECH_ASSOC = "path-sensitive abstract interpretation of the index operations (SSA, inlined callbacks) over chosen contents of each index entry, with lock, registration and in-use typestate"
NOTE_ASSOC = ("One and two key values, and index entries that list none, the item in question, others, or both, at every length that matters; "
  "what an entry lists is chosen anew each time it is locked, so any interleaving with other operations is covered. More than two key values are taken to behave like two.")
P("D05", "Items are created and found by exactly their key values",
  "Creating an item in an indexed tree asks the caller for it only while every index entry of its key values is locked for writing and no item with exactly these key values exists, and stores what the caller made, with those key values, under the id that is returned. "
  "A create-or-find that meets an existing item hands exactly that item over and returns its id, and neither operation reports success without having done one of the two. "
  "When an index entry is released it lists the new item if and only if that was stored, and everything it listed before.",
  ["schedules", "inputs"], "any key values, any content of the index and any interleaving of operations",
  "Tests create items one after another, or at random in parallel; a declined create next to a concurrent one is not tested.",
  [BA + "/threadsafe_create.go"], [("create, create or find", BA + "/threadsafe_create.go")], TECH_ASSOC, NOTE_ASSOC)
P("D06", "Deleting removes exactly the item that was named",
  "Deleting or destroying by key values or by id removes the item so named and no other, and only after its caller's condition, if there is one, agreed for that very item. "
  "An index entry that is released lists what it listed before, less the removed item, and an item that was removed is no longer listed by any index entry when the operation ends. "
  "Success is reported only if the item was removed, kept at the caller's wish, or not there; an item that is being destroyed by someone else is reported as such.",
  ["schedules", "inputs"], "any key values or id, any content of the index and any interleaving of operations",
  "The races of deletes by id with creates of the same key values, and of deletes with destroys, are hit by no test.",
  [BA + "/threadsafe_delete.go", BA + "/threadsafe_destroy.go"], [("delete", BA + "/threadsafe_delete.go"), ("destroy", BA + "/threadsafe_destroy.go")], TECH_ASSOC, NOTE_ASSOC)
P("D08", "Operations on the index of key values cannot block or break each other",
  "Every operation of an indexed tree that creates, deletes or destroys gives back each lock, registration and in-use count it took, whichever way it ends, and none can stop the process. "
  "Index entries are locked in the order of their keys, after the trees that lead to them and before the tree of items, and are read or changed only while locked. "
  "An index entry is taken out of the index only while it is locked, empty and in use by no create, and a key only when no entry is left under it.",
  ["schedules", "inputs"], "any interleaving of operations on one tree, including its destruction",
  "A lock that is left behind, or taken in another order, shows only when a particular pair of operations meets at a particular point.",
  [BA + "/threadsafe_create.go", BA + "/threadsafe_delete.go", BA + "/threadsafe_destroy.go"], [("locks of index entries", BA), ("destroy guard", "pkg/async")], TECH_ASSOC, NOTE_ASSOC)
O2M = "internal/datastructures/btree_one_to_many"
P("D09", "Relations are kept apart and their items handed over as they are",
  "An operation on a one-to-many tree works on the items of the relation it names and on no others, and does there what it says, for the key values, id, query or match given. "
  "An item that is handed to a caller has the value, relation, id and key values it was created with from the moment it can be found, and goes away only as the caller's answer says; a relation goes only when all its items did. "
  "Success means the operation was carried out, a relation or item that is being destroyed is reported as such, incomplete or invalid requests are refused, and nothing stops the process.",
  ["schedules", "inputs"], "any relation, key values, id or query and any interleaving of operations on the tree",
  "Tests look at items only after their creation returned, and destroy relations nobody else uses.",
  [O2M + "/threadsafe_create.go", O2M + "/one_to_many_item.go", O2M + "/threadsafe_destroy.go"],
  [("operations of the one-to-many tree", O2M), ("items handed to callbacks", O2M + "/one_to_many_item.go")],
  "interprocedural path-sensitive dataflow over SSA: each operation against the contracts of the two trees it is made of",
  "Every path of the six operations is covered, with every outcome the two underlying trees document (their own properties: D01-D08, D10); an item is inspected through its interface at every hand-over, with the state it has when it becomes visible. Destroying a relation is followed for up to two items.")

QA = "pkg/models/api/common/v1/query_associated_action"
P("D07", "A query selects exactly the items it describes",
  "A query hands over an item exactly if the query describes it: a selection describes the items that have one of its ids (when it has any), as many key values as its limits allow and every key comparison true; And narrows to what all parts describe, Or adds what any part describes, and an empty query describes everything. "
  "An item is handed over once and none after the caller stopped; items that go away meanwhile are skipped, index entries are read only while locked, and a valid query cannot stop the process. "
  "Matching a query against key values directly gives the same verdict.",
  ["inputs", "schedules"], "any valid query over any content of the index, with items created and deleted meanwhile",
  "Queries nest, and each of six comparisons meets typed and untyped values; tests sample some combinations and none for matching key values directly.",
  [BA + "/threadsafe_query.go", QA + "/selection.go", QA + "/associated_action_query.go"],
  [("query of the index", BA + "/threadsafe_query.go"), ("matching of key values", QA)],
  TECH_ASSOC, "Worlds of at most three items over two queried keys and a third, every comparison, limits 0-3, id lists, And and Or nested up to two deep; values are only compared through an order with typed and untyped operands. " + NOTE_ASSOC)
P("D10", "A match finds exactly the items whose key values are all among those given",
  "Matching hands over an item exactly if every one of its key values is matched by the given ones, type restrictions included, and their number is within the limits. "
  "An item is handed over once and none after the caller stopped. Items that are deleted or being destroyed are skipped, index entries are read only while locked, and valid limits cannot stop the process.",
  ["inputs", "schedules"], "any key values and limits over any content of the index, with items created and deleted meanwhile",
  "The rules and overrides that apply to a counter are found this way; tests match small fixed trees.",
  [BA + "/threadsafe_match.go"], [("match of the index", BA + "/threadsafe_match.go")],
  TECH_ASSOC, "Worlds of at most three items over three keys, every subset and every pair of limits. " + NOTE_ASSOC)

NOTE_SHARED = ("Every function, method and closure of the module is analysed; a lock is held only if it is held on every path to the instruction, through every caller. "
  "Objects of one type are not told apart in the order of locks; state behind no lock (atomics, channels, state of one goroutine) is left to the other properties. "
  "The trees' nodes are locked hand over hand and decided by D01, D05, D06 and D08.")
P("S01", "Shared state is read and written under its lock",
  "State that several requests or goroutines share and that has a lock is read only while that lock is held, and written or replaced only while it is held for writing. "
  "Nobody keeps a pointer into such state that outlives the lock. "
  "Objects that are still being made, and not yet known to anyone else, are exempt.",
  ["schedules"], "any interleaving of requests and background goroutines",
  "A data race needs two accesses to meet; the race detector sees only those that a test happens to run at once, and the services' tests run one request at a time.",
  ["internal/locker/lock_manager/exclusive_locker.go", "internal/willow", "internal/heartbeater", "pkg/clients"],
  [("locks and what they guard", "internal"), ("clients' locks", "pkg/clients")],
  "interprocedural must-hold lockset dataflow over SSA", NOTE_SHARED)
P("S02", "Locks are released and taken in one order",
  "Every lock that an operation takes is released on each way out of it, a return, an error or a panic that is recovered, and none is released that is not held. "
  "No operation waits for a lock that it already holds. "
  "Locks that are held together are taken in one order everywhere, so that operations cannot block each other for good.",
  ["schedules"], "any interleaving of requests and background goroutines",
  "A lock that is left behind or taken in another order blocks only the operations that meet it afterwards, in the one interleaving that needs it.",
  ["internal/willow", "internal/locker", "internal/limiter", "pkg/clients", "pkg/async"],
  [("locks", "internal"), ("clients' locks", "pkg/clients")],
  "interprocedural lockset dataflow and lock-order graph over SSA", NOTE_SHARED)
P("R01", "A context carries what is taken from it",
  "What a request's context is asked for (its logger, its id) was put into it on every way from the route or the start of a goroutine to the place that asks, so that no request is ended by a missing value. "
  "Each route's middleware puts the values in before the handler runs.",
  ["inputs", "schedules"], "any route, any way from a request to any function that takes a value from its context",
  "The tests put the values into the contexts they use themselves; the routes' middleware runs only in the integration tests.",
  ["internal/middleware", "internal/*/api/v1/router"],
  [("middleware", "internal/middleware"), ("routes", "internal")],
  "backward provenance of contexts over the call graph (SSA)",
  "Every use of a context value, traced back through parameters, fields, closures, goroutines and callbacks to the context's origin; origins are routes with their middleware, the background context and callers outside the module.")
DT = "pkg/models/datatypes"
P("D11", "Values keep their order, type and content",
  "Any two valid values are ordered: by type first, then by their data. Exactly one of less, equal and greater holds, and reversing the operands reverses it. Where types are matched strictly, Any is beyond all others; otherwise it is neither before nor after anything. "
  "A value is valid exactly if its type is known and allowed and its data is of that type and, for a float, a number. "
  "A valid value that is encoded and decoded again is the same, with its type and every digit; what cannot be of the type it names is refused. "
  "Type restrictions are valid exactly if both ends are known types in order.",
  ["inputs"], "any pair of values of the fifteen types, any data, any JSON number or text",
  "Key values decide which lock, queue, rule, override and counter a request means, in every tree and on the wire; tests compare a few small numbers of each type.",
  [DT + "/encapsulated_value.go", DT + "/datatypes.go"],
  [("comparison, validation and encoding of values", DT)],
  "path-sensitive dataflow over SSA: each comparison, validation and (un)marshaling per type and per pair of types, with the data symbolic",
  "One case for every type and every ordered pair of types, the data of each symbolic and related as less, equal or greater (for floats, not a number as well). strconv, encoding/json, fmt and reflect are modelled by their documented widths and kinds; that a parser that is given the width of the type loses no digit is their contract.")
P("C01", "Services serve as configured, stop cleanly and fail loudly",
  "A service listens with TLS and the configured certificate and CA unless it is configured insecure, with its routes in place; failing to listen or to use the certificates is reported at once. "
  "When its context ends, and not before, it is shut down once, so that requests under way finish, and the outcome is awaited and returned. "
  "A client presents the configured certificate, trusts the configured CA, verifies the server, and is refused when its configuration is incomplete or unusable. "
  "A service's program runs everything it makes that has to be run, ends when told to, and reports failures.",
  ["inputs", "schedules", "crash points"], "any configuration, any failure of listening, shutting down or loading certificates, at any time relative to the end of the context",
  "No test starts a server with certificates that fail, or fails its shutdown; the programs' main functions run only in the integration tests.",
  ["internal/locker/api", "internal/limiter/api", "internal/willow/api", "pkg/clients/http_client.go", "cmd"],
  [("servers", "internal"), ("HTTP client", "pkg/clients/http_client.go"), ("programs", "cmd")],
  "interprocedural path-sensitive dataflow over SSA: server, client and program life cycles as event protocols over every failure",
  "Three servers, each insecure and secure, stopped, failed, and failed while stopping; every failure of a step at start; every combination of the client's configuration; three programs. net/http, crypto/tls and crypto/x509 are modelled by their documented contracts.")
CF = "internal/config"
P("C02", "Settings come from where the usage says and are refused when unusable",
  "Each setting of a service is the one given by its flag, unless the environment variable that the flag's usage names is set, which then decides this setting and no other; another service's variables have no effect. "
  "A log level or storage that does not exist, a certificate given to an insecure server, a missing certificate or key of a secure one, and a default timeout that is malformed or not positive are refused wherever they come from, and usable settings are accepted.",
  ["inputs"], "any combination of flags and environment variables of the three services",
  "Tests set one variable at a time, by the name that the code reads, and never a flag and its variable together.",
  [CF + "/willow_config.go", CF + "/limiter_config.go", CF + "/locker_config.go"],
  [("settings of the services", CF)],
  "path-sensitive dataflow over SSA with constant propagation from flags and environment variables to the settings",
  "Each flag and each documented variable of three services, alone and against each other, and each unusable setting from both sources. A flag holds its default until the command line is parsed and what was given afterwards, as package flag documents; text that is not constant is kept symbolic.")
