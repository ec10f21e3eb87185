#!/usr/bin/env python3
"""Source of properties.jsonl (kept as Python so that the statements are easy to edit)."""
import json, sys
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state: anchors["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": anchors})

SP, KD, AR, MB = "src/actor/spawn.rs", "src/actor/kind.rs", "src/actor/actor_ref.rs", "src/mailbox.rs"
ASK, TELL, MSG, RPL, ERR = "src/request/ask.rs", "src/request/tell.rs", "src/message.rs", "src/reply.rs", "src/error.rs"

prop("P01", "Messages are handled one at a time, in the order they were sent",
 "An actor handles at most one message at any moment, with exclusive access to its state from the start of a handler to its end. If one send to an actor completed before another send to it began (in particular two sends by the same sender), the first message is handled before the second, whether they were sent as tell or ask and whether the mailbox is bounded or unbounded.",
 ["schedules", "programs"], "all interleavings of 1-3 senders (tell/ask/try/blocking variants) with the actor, bounded (capacity 1-2) and unbounded mailboxes, before, during and after start-up",
 "An ordering slip shows only under specific interleavings of senders, a full mailbox and the actor loop; tests run one or two of them.",
 [MB, SP, KD, TELL, ASK], [("mailbox queue", MB), ("receive loop", SP + " recv_mailbox_loop"), ("message dispatch", KD + " handle_message")], "handler start/end events against send call/return events")

prop("P02", "Every accepted message is handled exactly once while the actor keeps running",
 "If sending a message succeeds and the actor is neither stopped nor killed nor shut down by a failure before reaching it, the message is handled exactly once; no message is ever handled twice. A message whose send returned an error is never handled (except that an ask which timed out or lost its actor while waiting for the reply may have been handled).",
 ["schedules", "programs"], "all interleavings of concurrent senders using every send variant, small mailboxes, start-up, handler failures the actor survives, link notifications arriving in between",
 "Loss or duplication needs a race between senders, the buffering done during start-up and recovery from a failure; sampled tests rarely line these up.",
 [MB, SP, KD, TELL, ASK], [("start-up buffer", KD + " startup_buffer"), ("mailbox queue", MB)], "multiset of handled messages against results returned to senders")

prop("P03", "An ask always resolves, with its own reply or a truthful error",
 "Every ask resolves exactly once and never hangs, whatever happens to the actor (it replies, fails, panics, is killed, stops, never starts). If it resolves with a value, it is the value the handler returned for that very message; if the actor cannot reply, the asker gets an error that says so instead of waiting forever.",
 ["schedules", "programs"], "all interleavings of asks with handler outcomes and with every way of stopping the actor, including a stop racing with the enqueue",
 "The hang needs a send that lands in the instant the mailbox is torn down; cross-talk needs concurrent asks; neither is reachable by chance in a test run.",
 [ASK, MSG, RPL, SP], [("reply channel", ASK), ("mailbox teardown", SP)], "result returned to each asker; tasks still blocked at quiescence")

prop("P04", "A failed send reports the right reason and hands the message back",
 "Sending to an actor that is not running fails with 'actor not running', and a non-waiting send to a full mailbox fails with 'mailbox full'; these errors carry back the very message that was sent. This holds for tell, ask, enqueue and forward in their waiting, non-waiting and blocking variants, through actor references and recipients, and no variant panics instead. An error keeps its kind and the message or handler error it carries when it is mapped, boxed, downcast, flattened or cloned.",
 ["programs", "schedules"], "every send variant x mailbox state (free, full, closed, actor dead before / dying during the send) x reference type; every error value through all sequences of five operations on it",
 "There are dozens of variant/state combinations and the error conversion differs per variant; tests exercise a handful.",
 [ASK, TELL, ERR, MB, AR], [("error conversions", ERR), ("send variants", ASK + ", " + TELL)], "error value and message returned by the send call")

prop("P05", "Timeouts bound the wait and never leave a half-sent message",
 "A send with a mailbox timeout that expires fails with a timeout error that hands the message back, and that message is never handled. An ask whose reply timeout expires fails with a timeout error; a late reply is discarded without disturbing the actor or any other request, and a request that completes before its deadline never reports a timeout.",
 ["schedules", "fault_sequences"], "all interleavings of the deadline with mailbox space appearing, the handler finishing and the actor stopping, over virtual time; deadlines from 100 ns to the longest duration there is",
 "The interesting case is the deadline falling exactly between two steps of the exchange; wall-clock tests cannot place it there.",
 [ASK, TELL], [("mailbox and reply timeouts", ASK), ("mailbox timeout", TELL)], "request result and handled messages under virtual time")

prop("P06", "Start-up completes before any message, and early messages keep their order",
 "The start-up hook runs exactly once and finishes before any message handler runs, no matter how early messages are sent. Messages that arrive before start-up has finished are handled after it in arrival order and none is lost; messages the actor sends to itself during start-up are handled before messages from anyone else.",
 ["schedules", "programs"], "all interleavings of external senders with a start-up hook that yields and sends to itself, via spawn, spawn_link, in-thread spawn and prepared actors run directly, bounded and unbounded mailboxes",
 "The ordering depends on when external sends land relative to the end of start-up; tests with a fixed schedule see one case.",
 [SP, KD, AR, "src/actor.rs"], [("start-up signal", SP + " signal_startup_finished"), ("start-up buffer", KD + " handle_startup_finished"), ("self-send detection", AR + " is_current")], "start-up and handler events")

prop("P07", "Waiting for start-up always resolves with the start-up result",
 "Waiting for an actor to start resolves for every waiter once the start-up hook has finished, in every history: a mailbox already full, a start-up error, or a stop, kill or failure right after start-up. It never resolves before the start-up hook finished, and the result form reports exactly the error the hook returned.",
 ["schedules", "programs"], "all interleavings of waiters with start-up outcomes, full mailboxes and immediate stops or kills",
 "The waiter hangs only if the start-up signal is lost or overtaken, which needs a particular mailbox state at a particular moment.",
 [SP, AR], [("start-up semaphore", SP), ("waiters", AR + " wait_for_startup")], "waiter resolution; tasks still blocked at quiescence")

prop("P08", "A graceful stop handles what was queued before it and nothing after it",
 "Every message whose send completed before a graceful stop was requested is handled before the actor stops, and no message whose send began after the stop request completed is ever handled. The stop hook then runs exactly once with the normal reason, also when the stop was requested before start-up finished or while an earlier message failed and the actor chose to continue.",
 ["schedules", "programs"], "all interleavings of senders, stop requests (one or several) and start-up, bounded and unbounded mailboxes",
 "The stop signal shares the queue with messages and has a special path during start-up; tests check one fixed order.",
 [SP, KD, MB, AR], [("stop signal", SP + " recv_mailbox_loop"), ("stop during start-up", KD + " handle_stop")], "handled messages and stop hook events")

prop("P09", "A kill ends the actor promptly and still runs its stop hook once",
 "After a kill the actor begins no further message once its current handler reaches a suspension point, and an idle or suspended actor stops without waiting for its queue. The stop hook runs exactly once with the killed reason, links and waiters are notified, and pending asks fail instead of hanging; killing repeatedly or killing a dead actor has no further effect.",
 ["schedules", "programs"], "all interleavings of kill with message handling, start-up, graceful stop and other kills",
 "A kill acts at arbitrary suspension points; only enumeration places it at each of them.",
 [SP, AR], [("abort handle", AR + " kill"), ("abortable loop", SP)], "handler and stop hook events after the kill")

prop("P10", "An actor lives exactly as long as it is referenced, and drains before it stops",
 "An actor is kept running by strong references and by queued messages, and is not kept running by weak references, links or its own hooks. When the last strong reference is dropped, everything already queued is handled, then the actor stops with the normal reason; upgrading a weak reference succeeds while a strong reference exists and fails once the actor has stopped for lack of references.",
 ["schedules", "programs"], "all interleavings of dropping and cloning strong references, upgrading weak ones, sending and handling",
 "The last drop races with upgrades and queued work; tests drop in one fixed order.",
 [SP, AR, MB], [("sender counting", MB), ("weak references", AR + " WeakActorRef"), ("downgrade after start-up", SP)], "stop hook event, upgrade results")

prop("P11", "Waiting for shutdown resolves after the stop hook, for every way to stop",
 "Waiting for an actor to shut down resolves for every waiter, whatever ended the actor (stop, kill, last reference dropped, failed start-up, failure, death of a linked actor) and whether the wait began before or after. It never resolves before the stop hook has finished; the result form reports exactly the error the stop hook returned, and from then on the actor reports that it is not alive and rejects messages.",
 ["schedules", "programs"], "all interleavings of waiters with every stop cause and stop-hook outcome",
 "Each stop cause takes a different path through teardown; the waiter may observe any intermediate state of it.",
 [SP, AR], [("mailbox closure", AR + " wait_for_shutdown"), ("shutdown result", SP)], "waiter resolution against stop hook events; tasks blocked at quiescence")

prop("P12", "A failing handler is contained and the failure hook decides what happens",
 "A panic in a handler, or an error returned from a handler for a tell, never crashes the program or another actor: the failure hook is called exactly once per failure with that panic or error, and its decision (continue, or stop with a given reason) is obeyed; a failure of the failure hook itself stops the actor with that failure. An error returned for an ask goes to the asker only and does not call the failure hook; after continuing, the actor handles the rest of its queue, messages buffered during start-up included, with its state intact.",
 ["schedules", "programs"], "all short message sequences over {ok, error, panic before/after suspension} x {tell, ask} x failure-hook decision, sent before, during and after start-up",
 "The combinations of failure kind, request kind, position and hook decision multiply; tests check single failures in isolation.",
 [KD, MSG, SP, "src/actor.rs"], [("panic catching", KD + " handle_message"), ("failure hook", KD + " on_shutdown"), ("error routing", MSG + " handle_dyn")], "failure hook calls, handler events, ask results")

prop("P13", "Linked actors are told of a death exactly once, with its identity and reason",
 "When an actor stops for any reason (normal, killed, failed in a handler, failed at start-up, linked death), every actor linked to it at that moment and still running is notified exactly once, with the dead actor's identity and its stop reason. Linking is symmetric and idempotent, spawning linked leaves no window in which a death goes unnoticed, and after unlinking (from either side) neither is notified of the other.",
 ["schedules", "programs"], "all interleavings of link, unlink, spawn-linked and death over 2-3 actors and every stop cause",
 "Notification is a hand-off between two actors' teardown and mailboxes; a missed or duplicated one needs an exact interleaving.",
 [SP, AR, KD, MB], [("links table", AR + " link/unlink"), ("death notification", SP), ("notification handling", KD + " handle_link_died")], "link-death hook calls per actor")

prop("P14", "By default abnormal deaths propagate along links and normal ones do not",
 "An actor that does not override the link-death hook stops when a linked actor dies abnormally, with a reason that names the dead actor and its reason, and keeps running when the linked actor stopped normally. Through chains and cycles of links every reachable default actor goes down exactly once.",
 ["programs", "schedules"], "all link graphs over 3 actors x first death cause x schedule of notifications",
 "Propagation through cycles has many notification orders; tests check one pair.",
 ["src/actor.rs", SP, KD], [("default link-death hook", "src/actor.rs on_link_died"), ("default failure hook", "src/actor.rs on_panic")], "stop reasons of all actors")

prop("P15", "Linking, unlinking and dying never deadlock or disturb one another",
 "Any concurrent combination of linking, unlinking (waiting or blocking, in either direction), stopping and dying among actors completes: no caller and no actor is blocked forever by it. Afterwards the links on both sides agree.",
 ["schedules"], "all interleavings of 2-3 concurrent link-table operations over 2-3 actors, including opposite directions, actors dying together and full mailboxes",
 "A lock-order deadlock needs two operations to interleave at one exact point.",
 [AR, SP, KD], [("link locks", AR + " link/unlink/blocking_*"), ("teardown locking", SP)], "tasks blocked at quiescence; later notifications")

prop("P16", "The stop reason and final state are reported consistently to every observer",
 "An actor's stop hook, its linked actors and whoever awaits its task all see the same stop reason, and it is the true cause: normal for a graceful stop or last reference dropped, killed for a kill, the failure for a failure, the linked death for a propagated death. The awaited result returns the actor with the state its last handler left, also when it was run in the caller's task or in a thread of its own.",
 ["schedules", "programs"], "all stop causes, pairs of competing stop causes, all run modes, failure values of every type read by every means, all interleavings",
 "Competing causes (kill while stopping, failure while killed) race; tests trigger one at a time.",
 [SP, KD], [("lifecycle", SP + " run_actor_lifecycle")], "reason seen by stop hook, link-death hook and join handle")

prop("P17", "Identity is unique and the current-actor test is exact",
 "No two actors in a process ever share an identity, however concurrently they are created, and an identity never changes over the life of its actor. A reference reports that it is the current actor exactly when asked from inside that actor's own hooks and handlers, in every way of running the actor.",
 ["schedules", "programs"], "concurrent creation from several tasks and threads; queries from every hook and handler, from outside, from nested actors, in every run mode",
 "Uniqueness is a statement about all concurrent creations; the current-actor test depends on the way the actor is run.",
 ["src/actor/id.rs", AR, SP], [("identity counter", "src/actor/id.rs generate"), ("current actor", AR + " is_current")], "identities handed out; answers inside hooks")

prop("P18", "A delegated or forwarded reply reaches the original asker exactly once",
 "When a handler delegates its reply or forwards the message to another actor (over any number of hops, waiting or not), the original asker receives exactly the final handler's value or error, once, and intermediate actors stay free to handle other messages. If the delegate is dropped unanswered or the forward target is not running, the asker gets an error rather than hanging, and no actor on the path panics because of it.",
 ["programs", "schedules"], "all chains of 0-3 hops x outcome of the final handler x liveness of each hop x schedules",
 "Types change at each hop and the error path differs from the value path; tests cover one hop that succeeds.",
 [MSG, RPL, ASK, ERR], [("reply delegation", MSG + " reply_sender/spawn/forward"), ("forwarded reply type", RPL)], "result at the original asker; failure hook calls on the path")

prop("P19", "An attached stream delivers start, every item in order, then finish",
 "Attaching a stream to an actor delivers exactly one start message, then every item of the stream once and in order, then exactly one finish message after the last item, interleaved correctly with other senders and back-pressured by a full mailbox. If the actor stops first, the attachment ends without hanging or panicking, and hands the stream back or reports that the actor is not running.",
 ["schedules", "programs"], "all interleavings of streams of 0-3 items (ready or late) with the actor, other senders and its stop",
 "The stop races with stream items at a random-choice point; tests see only uninterrupted streams.",
 [AR, "src/message.rs"], [("stream attachment", AR + " attach_stream")], "handler events; result of the attachment task")

prop("P20", "Recipients and weak references behave exactly like the reference they came from",
 "A type-erased recipient, a weak reference and a weak recipient denote the same actor as the reference they were made from: same identity, same liveness, same counts, same results of tell in every variant, of stopping, killing and waiting. Converting between strong and weak forms and back never panics, and the weak forms do not keep the actor running.",
 ["programs", "schedules"], "all sequences of up to 4 operations over strong, weak and recipient handles of one actor against a reference model, before and after the actor stops",
 "Each handle type forwards a dozen operations separately; tests touch few of them.",
 [AR, TELL], [("recipient forwarding", AR + " MessageHandler"), ("weak handles", AR + " WeakActorRef/WeakRecipient")], "results of operations on each handle")

prop("P21", "The local registry behaves as a typed map from names to actors",
 "After any sequence of registrations, removals, lookups and clears, looking up a name returns the actor most recently registered under it, nothing if there is none, and a type error if it is of another actor type. Size, emptiness, name listing and the results of insert and remove agree with a map, and concurrent use from several tasks is equivalent to some one-at-a-time order.",
 ["histories", "programs"], "all operation sequences up to a depth over 2 names, 2 actor types, compared step by step with a map model; every pair of 18 unusual names",
 "Tests check a register/lookup pair; the property is about every history.",
 ["src/registry.rs", AR], [("registry", "src/registry.rs")], "return value of every registry operation")

prop("P22", "Lifecycle errors reach the error hook exactly once",
 "Every error returned by a start-up hook or a stop hook, and every panic of one, is reported to the installed global error hook exactly once with that error; successful hooks report nothing. Failing start-up stops the actor without handling any message, after running the stop hook once with that failure as the reason.",
 ["programs", "schedules"], "all combinations of start-up outcome x stop-hook outcome x stop cause x queued messages",
 "The combinations of outcomes across the two hooks are many, each on its own path.",
 [SP, ERR], [("error hook", ERR + " invoke_actor_error_hook"), ("start-up failure path", SP)], "error hook calls; handler and stop hook events")

prop("P23", "Overridden message and mailbox hooks are honoured exactly once per message",
 "An actor that overrides the message hook has it called exactly once for every message taken from its mailbox, and the message is handled only if that hook handles it; a failure of the hook is treated like a failure of the handler. An actor that overrides how it fetches its next signal processes exactly the signals its override returns, in that order, and stops normally when the override returns none.",
 ["schedules", "programs"], "all interleavings of two senders with an actor whose message hook passes, delays, swallows, fails or panics and whose fetch hook passes, batches or ends early, bounded and unbounded mailboxes",
 "No test overrides these hooks; a missed or doubled call shows only with an override that records them.",
 [KD, SP, "src/actor.rs"], [("message dispatch", KD + " handle_message"), ("fetching signals", KD + " next"), ("default hooks", "src/actor.rs")], "calls of the hooks against handler events, replies and the stop reason")

prop("P24", "A mailbox is a first-in-first-out queue whichever way it is read",
 "Whatever is put into a mailbox is received exactly once and in order, by every way of receiving there is: waiting, polled, tried, many at once, blocking, or given up and taken up again. A full mailbox makes senders wait, a closed one refuses and hands back what is sent while what it holds can still be received, and its lengths, counts of senders and closed state always agree with a queue's.",
 ["histories", "schedules"], "all sequences of four (deep: five) operations on both ends of bounded and unbounded mailboxes against a queue model; all interleavings of two senders with a reader of each kind that reads to the end or closes half-way",
 "Actors that fetch their own signals rely on all of these, and the tests use one of them.",
 [MB], [("both ends", MB)], "signals received and refused, lengths, counts")

prop("P30", "A pool hands each dispatched message to exactly one live worker",
 "Each message dispatched to a pool is given to one worker and handled at most once, and exactly once unless that worker stops first; an ask gets that worker's own reply or error, or learns that the worker stopped, and never panics. Workers that have stopped are passed over: while a worker is running and the others' deaths have been noticed a dispatch never fails, and dead workers are never the reason the pool itself fails. A dispatch that finds no worker running returns its message as 'actor not running'. A broadcast reaches every running worker exactly once and returns one result per worker.",
 ["schedules", "programs"], "all interleavings of 2-4 dispatches/broadcasts (ask and tell; returning, suspending, failing and panicking handlers) over pools of 1-3 workers with workers being killed, stopped or failing",
 "Dispatch to a worker that is just dying needs an exact interleaving of four actors.",
 ["actors/src/pool.rs", ASK], [("dispatch", "actors/src/pool.rs Dispatch"), ("broadcast", "actors/src/pool.rs Broadcast")], "messages handled per worker; replies")

prop("P31", "A pool balances load and keeps its size by replacing dead workers",
 "Each dispatched message goes to a running worker with the fewest messages outstanding (given to it and not completed), so never to a busy worker while another is idle, whether askers wait or give up. When a worker stops for any reason (including before the pool has started, or as a replacement that fails to start) it is replaced exactly once by a new one from the factory, so the pool keeps its configured size and keeps serving.",
 ["schedules", "programs"], "all sequences of dispatches, broadcasts and completions up to a depth over pools of 2-3 workers; all interleavings and sequences of worker deaths of every kind over pools of 1-2 workers, synchronous and asynchronous factories",
 "Load and replacement depend on what is in flight when a message or a death notice arrives.",
 ["actors/src/pool.rs"], [("least-loaded choice", "actors/src/pool.rs next_worker"), ("replacement", "actors/src/pool.rs on_link_died")], "worker chosen per message; factory calls")

prop("P32", "Publish/subscribe delivers each message once to exactly the matching subscribers",
 "A published message is delivered exactly once to every live subscriber whose filter accepts it at the time of publishing and to nobody else, waiting for room where a mailbox is full, and each subscriber sees messages in publishing order. Subscribing again replaces the subscriber's filter. A subscriber that has stopped is dropped when a message it would have received is published, and its death never affects delivery to the others or stops the pubsub.",
 ["programs", "schedules"], "all sequences of subscribe / publish / subscriber-death up to a depth over 2 subscribers and filters; all interleavings of publications with a subscriber's death, a full mailbox, a late subscriber",
 "Histories of subscriptions, filters and deaths multiply; tests check one.",
 ["actors/src/pubsub.rs"], [("publish", "actors/src/pubsub.rs Publish")], "messages received per subscriber")

prop("P33", "A topic broker routes by pattern to current subscribers only",
 "A message published to a topic is delivered exactly once per matching subscription that exists at that time and to no one else, in publishing order per subscriber unless the strategy spawns deliveries. Patterns match as globs in which * and ? stay within one /-separated level and ** spans levels. Unsubscribing from one pattern or from all, and the death of a subscriber, remove exactly the subscriptions concerned and nothing else, under every delivery strategy: waiting delivery loses nothing to a full mailbox, best-effort skips only the full recipient, timed delivery gives up only after its timeout.",
 ["programs", "schedules"], "all sequences of subscribe / unsubscribe / publish / subscriber-death up to a depth over 2 subscribers and overlapping patterns, every delivery strategy, against a reference model",
 "Overlapping patterns and removals interact across histories; tests check single steps.",
 ["actors/src/broker.rs"], [("routing", "actors/src/broker.rs Publish"), ("unsubscribe", "actors/src/broker.rs unsubscribe")], "messages received per subscriber")

prop("P34", "A message bus routes by type to current registrations only",
 "A message published on a bus is delivered exactly once per registration for its type that exists at that time and to no one else, in publishing order per actor unless the strategy spawns deliveries. Unregistering or the death of an actor removes exactly its registrations for that type, and each delivery strategy keeps its promise when a recipient's mailbox is full: waiting delivery loses nothing, best-effort skips only the full recipient, timed delivery gives up only after its timeout.",
 ["programs", "schedules"], "all sequences of register / unregister / publish / actor-death up to a depth over 2 actors and 2 types, every delivery strategy, mailboxes full or free, against a reference model",
 "Histories, strategies and mailbox states multiply; tests check a single publish.",
 ["actors/src/message_bus.rs"], [("routing", "actors/src/message_bus.rs Publish"), ("unregister", "actors/src/message_bus.rs unsubscribe")], "messages received per actor")

prop("P40", "Generated message types preserve the annotated methods' behaviour",
 "For every method the #[messages] macro accepts (receiver &self or &mut self, sync or async, no or several arguments of owned types under any name, any visibility, any reply type, attributes and derives before or after #[message], type parameters of the actor or the method anywhere in the arguments or the reply, generic, const-generic, concrete or qualified actor types), the generated message (method name in CamelCase, one field per argument) compiles, and sending it calls that method once with exactly those arguments in order; its return value is the reply to an ask, and a told message whose method returns an error stops the actor. Requested derives are there. A derived Actor is named after its type or as asked, and a derived Reply arrives as it was returned and is never an error.",
 ["programs"], "all combinations of method shapes from a grammar, compiled and executed",
 "The grammar of accepted methods is combinatorial; doc tests show two.",
 ["macros/src/messages.rs", "macros/src/derive_actor.rs", "macros/src/derive_reply.rs"], [("message macro", "macros/src/messages.rs")], "method calls observed when the generated messages are sent")

prop("P50", "Remote messaging gives the same outcomes as local messaging",
 "An ask or tell to a remote actor reaches exactly the actor, message type and payload it was addressed to, is handled once, and its outcome (reply, handler error, not running, mailbox full, timeout, unknown actor or message) comes back as the corresponding remote outcome. Messages or replies that cannot be decoded produce an error at the caller, never a panic or a hang on either side.",
 ["programs", "fault_sequences"], "all remote request variants x actor state x handler outcome x payload validity, and every wire message the protocol can carry encoded and decoded",
 "The remote path re-implements every variant over serialization; tests need a network and cover none of the failures.",
 ["src/remote/_internal.rs", "src/remote/swarm.rs", ASK, TELL, ERR], [("remote dispatch", "src/remote/_internal.rs"), ("wire protocol", "src/remote/swarm.rs")], "outcome at the remote caller against the local outcome")

prop("P51", "Identities and registrations survive serialization and reject malformed input",
 "Encoding and decoding an actor identity or a registry entry gives back an equal value, in every encoding offered, and two different values never encode the same. Decoding any malformed or truncated input returns an error and never panics.",
 ["inputs"], "all identities over boundary sequence numbers and peers; all truncations and single-byte corruptions of valid encodings; all short byte strings",
 "Round-trip and totality are statements about all inputs.",
 ["src/actor/id.rs", "src/remote/swarm.rs"], [("identity encoding", "src/actor/id.rs"), ("registration encoding", "src/remote/swarm.rs ActorRegistration")], "decoded value or error")

prop("P52", "Every swarm command is answered exactly once, whatever the network does",
 "Each registration, lookup, unregistration, remote message or remote link request resolves exactly once with the outcome belonging to it, for every order and combination of completions, failures, timeouts and disconnections of the operations in flight. Events that belong to no pending request are ignored, and nothing a peer sends can stop the node from serving further commands.",
 ["fault_sequences", "schedules"], "all event orders up to a depth for 1-3 concurrent commands over a stubbed network that answers, fails or disconnects at every point",
 "Completion order and failures come from the network; tests cannot enumerate them.",
 ["src/remote/swarm.rs"], [("command and event handling", "src/remote/swarm.rs ActorSwarmHandler")], "replies received by callers")

prop("P53", "Remote links report a remote death or disconnection exactly once",
 "An actor linked to a remote actor is notified exactly once when that actor stops (with its identity and reason) or when the connection to its peer is lost entirely, and is not notified if they were unlinked first, if another connection to that peer remains, or on behalf of other peers. Actors that have stopped no longer answer remote messages.",
 ["schedules", "fault_sequences"], "all orders of link, unlink, remote death and connection loss over 2 peers and 1-2 connections each",
 "The cases are distinguished by the order of network events, which tests cannot control.",
 ["src/remote/swarm.rs", "src/remote/_internal.rs", SP], [("remote death signal", "src/remote/_internal.rs signal_link_died"), ("disconnection", "src/remote/swarm.rs ConnectionClosed")], "link-death hook calls")

prop("P54", "Local actors do not notice that their node takes part in a swarm",
 "Every guarantee between actors of one node (delivery and order of messages, replies, timeouts, start-up, stopping, failures, links, identities, references) holds unchanged when the library is built for remote actors, whether the node has not been brought up, has been, or is brought up while the actors run: no local message, link or stop goes missing, is delayed or is reported differently because of it.",
 ["schedules", "programs"], "the scenarios of the local properties, each on a node that is not up, is up, or comes up at any moment; deviations up to 1 (thorough 3)",
 "The library's own tests and those of its users exercise local actors without a swarm, and bringing the node up is one moment among very many.",
 [SP, AR, "src/actor/id.rs", "src/actor/kind.rs", "src/remote/_internal.rs"], [("what the remote feature adds to an actor's life", SP), ("identities with and without a node", "src/actor/id.rs")], "as for the local properties: what each caller got and what each hook saw")

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
open("/verif/properties.jsonl" if len(sys.argv) < 2 else sys.argv[1], "w").write("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P))
