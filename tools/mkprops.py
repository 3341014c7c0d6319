import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))
HK="cfg(xtra_sim): xtra's std paths resolve to the simulator's std facade, so locks and atomics become scheduling points"
C="xtra/src/chan.rs"
p("C01","A message is handled at most once, by one actor",
 "A message sent to an address is handled by at most one of the actors on that address and at most once; a broadcast message is handled at most once by each actor mailbox. This holds however senders, competing actors, cancelled receives and cancelled sends interleave.",
 ["schedules","fault_sequences","histories"],"all interleavings of any number of senders and actors sharing one address, with receive and send futures dropped at any point",
 "tests run a handful of fixed single-schedule scenarios; duplication needs a hand-over to race with a cancellation or a second receiver",
 [C,"xtra/src/chan/waiting_receiver.rs","xtra/src/chan/waiting_sender.rs","xtra/src/recv_future.rs"],
 [("queue pop and direct hand-over under the channel lock",C+": try_recv, try_fulfill_receiver"),("oneshot hand-over slot","chan/waiting_receiver.rs"),("Delivered state of a waiting send","chan/waiting_sender.rs: take_message")],
 ["handler start events per message"],[dict(name="unicast queue / waiting receivers",meaning="where an accepted message lives",where=C+": Inner")],HK)
p("C02","An accepted message is never silently lost",
 "Once a mailbox has accepted a message (its detached send or broadcast completed successfully), the message is handled as long as an actor keeps taking messages from that address: it is never dropped or left behind while such an actor idles. It may go unhandled only when every mailbox of the address is gone, when it was already taken by an actor that then failed or was aborted before the handler started, or (broadcasts) when the particular actor stopped.",
 ["schedules","fault_sequences","histories"],"all interleavings of senders, actors, stops, aborts and dropped receive futures; all capacities and priorities",
 "loss shows up only when acceptance races with an idle actor going to sleep, a cancelled receive or a stopping actor; the tests sample none of those windows",
 [C,"xtra/src/recv_future.rs","xtra/src/chan/waiting_receiver.rs"],
 [("push and waiting-receiver wake-up in one critical section",C+": try_send_to_one, try_send_to_all"),("requeue on cancelled receive","recv_future.rs: Waiting::drop")],
 ["payload destruction without a handler start while an actor is idle"],None,HK)
p("C03","The outcome reported to a sender is the truth",
 "Awaiting a send yields the value the handler returned for exactly that message, and only after the handler finished; a disconnected error means that the message was not and never will be handled; an interrupted error means that the handler for it did not and will not run to completion.",
 ["schedules","fault_sequences","histories"],"all interleavings of a send with handling, stopping, aborting, panicking and mailbox disposal, for returning, detached and type-erased sends",
 "tests check one return value at a time on an undisturbed schedule; a wrong outcome needs the send to race with stop or disposal",
 ["xtra/src/send_future.rs","xtra/src/envelope.rs",C],
 [("oneshot result sender owned by the envelope","envelope.rs: ReturningEnvelope::handle"),("two-stage send future","send_future.rs: SendFuture::poll")],["results of send futures against handler events"],None,HK)
p("C04","Every send and broadcast completes once actors can run",
 "Every send, broadcast, sink operation and detached result that is being awaited completes: while some actor keeps taking messages, a send waiting for room is eventually admitted and its handler's result delivered, for every capacity including zero; and if all mailboxes of the address go away, everything pending on it resolves with an error. No wake-up is ever lost, and no operation hangs.",
 ["schedules","fault_sequences","configurations"],"all interleavings, every capacity (0,1,2,... unbounded), priorities, task migration of pending futures and spurious polls, judged once faults stop and the system is quiescent",
 "a lost wake-up or a forgotten waiter only shows in specific windows between checking, queueing and sleeping; tests never reach them and would only see a timeout",
 [C,"xtra/src/send_future.rs","xtra/src/chan/waiting_sender.rs","xtra/src/chan/waiting_receiver.rs"],
 [("admission of a waiting send whenever a slot is freed",C+": pop_unicast, pop_broadcast"),("closing of waiting sends on disconnect",C+": shutdown_waiting_senders"),("waker storage","chan/waiting_sender.rs: poll")],["pending futures at quiescence"],None,HK)
p("C05","Dropping a receive future loses no message",
 "A future obtained from a mailbox to receive the next message can be dropped at any moment, before or after it has been polled, before or after a message was assigned to it, without any message (sent or broadcast) being lost or handled twice; only the order of messages may change. A receive future that was assigned a message completes on its next poll, and one counts as finished (so that a select over several futures leaves it alone) exactly once it has yielded a message.",
 ["schedules","fault_sequences"],"all points at which a receive future may be dropped relative to concurrent sends, broadcasts, other receivers and disconnection",
 "the drop has to land between the hand-over and the next poll, or inside the hand-over itself; tests cover the first case once and the second never",
 ["xtra/src/recv_future.rs","xtra/src/chan/waiting_receiver.rs",C],
 [("drop guard that puts the message back","recv_future.rs: Waiting::drop"),("re-queueing",C+": requeue_message")],["custom event loops with cancelled receives"],None,HK)
p("C06","Default-priority messages are handled in send order",
 "Messages sent to an address with the default priority are handled in the order in which they were sent: when one actor serves the address and no receive is cancelled (dropping a receive future, or ending a select or join, cancels one), a send that had reached the mailbox (queued or waiting for room) before another send began is handled first, whatever the backlog and whether or not either had to wait for room.",
 ["schedules","histories","configurations"],"all send patterns, backlogs, capacities and interleavings with a single actor and uncancelled receives and sends",
 "tests queue at most a few messages; order depends on the shape of the backlog and on which sends had to wait",
 [C,"xtra/src/chan/priority.rs","xtra/src/address.rs"],
 [("priority queue with ordering among equals",C+": unicast_queue"),("choice of the next waiting send",C+": find_remove_highest_priority")],["handler start order"],None,HK)
p("C07","Higher-priority messages are handled first",
 "When an actor picks its next message, it takes a message of the highest priority among everything accepted for it: queued messages shared by the actors of the address and its own queued broadcasts; a stop-all request outranks every message. The only exception is that an idle actor may first handle the one message it is woken for, so at most one lower-priority message is handled while a higher-priority one is waiting.",
 ["schedules","histories","inputs"],"all priorities over the full integer range, all mixes of sends and broadcasts, backlogs and interleavings",
 "tests compare two or three messages of fixed priorities in a fixed queue state",
 [C,"xtra/src/chan/priority.rs"],
 [("comparison of the heads of both queues",C+": try_recv"),("ordering of Priority","chan/priority.rs")],["handler start order against accepted set"],None,HK)
p("C08","A bounded mailbox bounds what it accepts, and only then waits",
 "A mailbox of capacity n never holds more than n accepted unhandled messages sent to it (beyond those already given to receivers that are waiting or re-queued by a cancelled receive), and no actor lags more than n broadcasts behind (one if n is zero); further sends wait. Conversely a send or broadcast never waits while there is room, and an unbounded mailbox never makes a sender wait.",
 ["schedules","configurations","histories"],"all capacities, message mixes and interleavings of senders, actors and cancellations",
 "tests check capacities 1 and 2 sequentially; over-admission needs concurrent sends or admissions racing with pops",
 [C,"xtra/src/mailbox.rs"],
 [("capacity checks under the lock",C+": is_unicast_full, is_broadcast_full"),("separate accounting of unicast and broadcast",C+": broadcast_tail")],["accepted-but-unhandled count at every event"],None,HK)
p("C09","Freed room goes to the right waiting sender, and only to live ones",
 "When room is freed in a full mailbox, a waiting send is admitted at once if there is one: the one with the highest priority, and among those of equal priority the one that has waited longest; the same holds for waiting broadcasts. A waiting send that is dropped before it is admitted is never handled and does not use up the freed room.",
 ["schedules","histories","fault_sequences"],"all sets of waiting sends and broadcasts with arbitrary priorities, cancelled in any order, at all capacities",
 "tests have at most three waiters of distinct priorities and cancel none of them",
 [C,"xtra/src/chan/waiting_sender.rs"],
 [("selection among waiting sends",C+": find_remove_highest_priority"),("liveness test of a waiting send","chan/waiting_sender.rs: is_active")],["order of send completion and of handling"],None,HK)
p("C10","A broadcast reaches every existing actor exactly once",
 "A broadcast is handled exactly once by every actor mailbox that existed when the broadcast was accepted and keeps taking messages, and by no mailbox created afterwards, whether the actors are idle, busy, or have a backlog. An actor cloning its mailbox never takes broadcasts away from another.",
 ["schedules","histories","fault_sequences"],"all interleavings of broadcasts with mailbox creation, disposal, stops, cancelled receives and other messages, any number of actors",
 "tests use two actors and two broadcasts sequentially",
 [C,"xtra/src/mailbox.rs"],
 [("fan-out under the channel lock",C+": send_broadcast"),("per-mailbox queue","mailbox.rs: Clone")],["handler starts per broadcast and mailbox"],None,HK)
p("C11","Broadcast back-pressure follows the slowest live actor",
 "In a mailbox of capacity n a broadcast waits exactly while some live mailbox still has n broadcasts (or stop requests) to take (one for capacity zero); when the slowest one takes a broadcast, or is stopped or dropped, waiting broadcasts are admitted up to the freed room. An actor mailbox that no longer exists never holds broadcasts back.",
 ["schedules","histories","configurations","fault_sequences"],"all capacities, numbers of actors, lag patterns, mailbox disposals and waiting broadcasts",
 "tests never drop the lagging actor and have at most two actors",
 [C],
 [("length of the longest live queue",C+": longest_broadcast_queue"),("admission on pop and on disposal",C+": pop_broadcast")],["pending broadcasts at quiescence"],None,HK)
p("C12","An actor's life: started, one message at a time, then stopped",
 "A running actor is started exactly once before any message, handles messages strictly one at a time, and when its loop ends its stopped callback runs exactly once after the last handler, and the value of the run is what stopped returned. If starting fails, it handles no message, is not stopped, and the run returns the failure value.",
 ["schedules","fault_sequences","histories"],"all interleavings of senders and several actors, with started/stopped callbacks and handlers suspended at any point",
 "tests check the order of callbacks on one undisturbed schedule",
 ["xtra/src/lib.rs","xtra/src/dispatch_future.rs","xtra/src/envelope.rs"],
 [("run loop","lib.rs: run"),("dispatch by exclusive reference","dispatch_future.rs")],["lifecycle events per actor"],None,HK)
p("C13","stop_self stops exactly that actor, after the current message",
 "After a handler has asked its own actor to stop, that actor finishes the current handler (whose result is still delivered) and then stops without handling any further message; messages it leaves behind and all other actors on the address are unaffected. The actor also stops if the request was made while handler code was processing messages through select or join (unless that handler is itself cancelled or panics).",
 ["schedules","fault_sequences","histories"],"all positions of the request within handlers, backlogs, numbers of actors and interleavings",
 "tests stop a single idle-queue actor; what happens to the backlog, to siblings and to nested processing is not sampled",
 ["xtra/src/context.rs","xtra/src/envelope.rs","xtra/src/lib.rs"],
 [("running flag","context.rs: stop_self"),("ControlFlow::Break from the envelope","envelope.rs: handle")],["handler starts after the request"],None,HK)
p("C14","stop_all stops every actor of the address as its next action",
 "After a call to stop all actors has returned, each actor whose mailbox existed at the call handles at most the message it had already taken and then stops as its next action, ahead of every queued message of any priority, without waiting for room, whether idle or busy, and whether or not any strong address is left (a request taken by select or join inside a handler that is then cancelled or panics is lost with it). Mailboxes created afterwards are unaffected.",
 ["schedules","fault_sequences","histories"],"all interleavings of stop_all with busy, idle, lagging and newly created actors, full mailboxes and concurrent sends",
 "tests stop one actor with an empty mailbox",
 ["xtra/src/context.rs",C,"xtra/src/chan/priority.rs"],
 [("shutdown broadcast with top priority",C+": shutdown_all_receivers"),("Priority::Shutdown","chan/priority.rs")],["handler starts after stop_all"],None,HK)
p("C15","Strong addresses keep actors running, weak ones do not",
 "As long as a strong address (of any kind, including strong message channels and upgraded or dynamic ones) exists and nothing asked the actors to stop, no actor of the address stops; weak ones never keep an actor running. A weak address upgrades exactly while a strong one exists, and once the last strong address is gone it can never be upgraded again.",
 ["schedules","histories"],"all interleavings of cloning, converting, upgrading and dropping addresses of every kind across threads",
 "upgrades racing with the last drop, and counts after conversion, are not reached by sequential tests",
 ["xtra/src/chan/ptr.rs",C,"xtra/src/address.rs","xtra/src/message_channel.rs"],
 [("sender count","chan.rs: on_sender_created/on_sender_dropped"),("compare-and-swap upgrade","chan/ptr.rs: TxStrong::try_new")],["actor ends against the number of strong addresses"],None,HK)
p("C16","After the last strong address is gone, the backlog is handled, then actors stop",
 "When the last strong address is dropped, the actors first handle everything accepted before, including sends and broadcasts that were still waiting for room, and then every actor stops; an idle actor stops right away. No actor is left running or asleep.",
 ["schedules","histories","configurations"],"all interleavings of the last drop with idle, busy and starting actors, backlogs, waiting sends and weak-address sends, at all capacities",
 "tests drop the address with an idle or not-yet-started actor and an empty or short queue",
 [C,"xtra/src/chan/ptr.rs","xtra/src/recv_future.rs"],
 [("wake-up of waiting receivers",C+": shutdown_waiting_receivers"),("check for senders when both queues are empty",C+": try_recv")],["handled set and actor ends at quiescence"],None,HK)
p("C17","Disconnection is reported consistently and is permanent",
 "An address reports being connected exactly while a mailbox and a strong address exist; once disconnected it stays so. A send or broadcast begun after disconnection fails immediately with a disconnected error, and a join handle completes once the last mailbox is gone (immediately if already disconnected) and not before the address is disconnected.",
 ["schedules","histories"],"all interleavings of sends, joins and queries with the last drop of mailboxes and addresses",
 "join and send racing with the last drop are never sampled",
 [C,"xtra/src/address.rs"],
 [("receiver and sender counts",C+": is_connected"),("listener registered before the check",C+": disconnect_listener")],["results of is_connected, send and join against mailbox and address lifetimes"],None,HK)
p("C18","A dead mailbox releases everything, and destructors may use the API",
 "When the last mailbox of an address is gone, every message still queued or waiting in it is destroyed exactly once and every resource they hold is released, so nothing outlives the last handle. Message destructors may hold the last strong address or call into the address (query, send, drop) without ever deadlocking or panicking.",
 ["schedules","fault_sequences","histories"],"all interleavings of disposal with sends, broadcasts and cancelled operations; messages owning addresses to the same or other actors",
 "no test queues a message owning an address, and leaks or self-deadlocks need disposal to find a backlog",
 [C,"xtra/src/chan/waiting_sender.rs","xtra/src/chan/ptr.rs"],
 [("clearing of the queues on the last receiver drop",C+": shutdown_waiting_senders"),("closing of waiting sends","chan/waiting_sender.rs: Handle::drop")],["payload destructor events, lock owner at each blocking point"],None,HK)
p("C19","A handler that panics or is cancelled harms only its own message",
 "If a handler panics, is aborted with its actor, or its dispatch is dropped by a custom event loop, only the sender of that message is affected: it gets an interrupted error; other messages, other actors and the address keep working, and a custom loop can go on with the same actor. Nothing is poisoned and no other operation hangs or fails.",
 ["schedules","fault_sequences","crash_points"],"panics and cancellations at every suspension point of handlers and callbacks, any number of actors and pending operations",
 "one test times a handler out; panics and aborts at other points are not sampled",
 ["xtra/src/dispatch_future.rs","xtra/src/envelope.rs",C],
 [("result sender dropped with the handler","envelope.rs: handle"),("poison-tolerant locking",C+": on_receiver_dropped path")],["results and liveness after injected failures"],None,HK)
p("C20","A scoped task ends with its output or with its actor",
 "A task scoped to an address completes with the output of the inner future if that completes first, and completes with nothing once the address is disconnected because its last mailbox is gone; it never keeps polling the inner future after that, never reports an output the inner future did not produce, and never gives up while the address is connected. It never hangs.",
 ["schedules","histories","fault_sequences"],"all interleavings of inner progress with actor stop, abort and last drops, for all address kinds",
 "the test checks one cancellation and one completion; the race between them is not sampled",
 ["xtra/src/scoped_task.rs","xtra/src/address.rs",C],
 [("join handle polled before the inner future","scoped_task.rs: poll")],["poll and result events of the inner future"],None,HK)
p("C21","select and join drive the future and the mailbox together",
 "While select or join runs, the actor keeps handling its messages one at a time and the given future keeps being polled whenever it is woken (after at most one more message, so that no stream of messages holds it back); join returns the future's output always, select returns the output if the future completed or hands the future back, still usable, if the actor was stopped first. No message received meanwhile is lost, and messages stop being handled once the actor is told to stop.",
 ["schedules","histories","fault_sequences"],"all interleavings of future completion, incoming messages, stops and cancellations, nested to any depth",
 "tests complete with at most one message in flight",
 ["xtra/src/lib.rs","xtra/src/recv_future.rs"],
 [("select loop with final poll of the receive future","lib.rs: select"),("join on top of select","lib.rs: join")],["nested handler events, outputs"],None,HK)
p("C22","Message channels and sinks behave like the address they wrap",
 "Sending through a message channel or a sink has exactly the effect of sending through the address it was made from: same delivery, ordering, priority, back-pressure, results and errors; its clones, conversions, strength and queries match those of the address, and a sink delivers its items in order.",
 ["schedules","histories","configurations"],"all interleavings of operations through channels, sinks and addresses of all strengths on one mailbox",
 "tests use a channel on an idle unbounded actor; mixed use under back-pressure and disconnection is not sampled",
 ["xtra/src/message_channel.rs","xtra/src/address.rs","xtra/src/send_future.rs"],
 [("type-erased sending","send_future.rs: sending_erased"),("delegation to the address","message_channel.rs"),("unfold sink","address.rs: into_sink")],["same model as addresses"],None,HK)
p("C23","len, is_empty and capacity report the mailbox's actual state",
 "At rest, the reported length is the number of accepted messages sent to the mailbox and not yet taken plus the number of broadcasts the most lagging live actor has still to take; it is zero once all mailboxes are gone, waiting sends are not counted, is_empty agrees with it, and capacity is what the mailbox was created with. During concurrent activity the length never exceeds what could have been accepted.",
 ["schedules","histories","configurations"],"all operation histories over sends, broadcasts, cancellations, stops and disposals",
 "tests read the length in two states only",
 [C,"xtra/src/address.rs","xtra/src/message_channel.rs"],
 [("queue length plus broadcast tail",C+": len")],["queries at quiescent points against the model"],None,HK)
p("C24","Instrumentation is transparent and attributes handlers to senders",
 "With the instrumentation feature on, delivery, results, ordering and stops are the same as without it; every handler runs inside a span that descends from the span in which its message was sent, and which is the one its dispatch future reports, whatever the executor interleaves; the span that covers the waiting of a message (sent to one actor) ends when its handling begins, and no span stays entered after a poll or open after its message is gone.",
 ["schedules","histories","fault_sequences"],"all interleavings of senders in different spans, handlers suspended and resumed, cancelled or panicking",
 "tests send one message from one span on one schedule",
 ["xtra/src/instrumentation/tracing.rs","xtra/src/envelope.rs","xtra/src/dispatch_future.rs"],
 [("request span captured at send","envelope.rs: start_span"),("executing span entered around each poll","dispatch_future.rs: poll")],["recording subscriber"],None,HK)
p("C25","Address equality, ordering and hashing agree",
 "Two addresses or message channels are equal exactly if they belong to the same mailbox and have the same strength; equal ones hash equally, and ordering is a total order consistent with equality in which a strong address is greater than a weak one of the same mailbox. This holds at every moment, however the handles came about (clone, conversion, upgrade, downgrade, from a mailbox), whether connected or not, and while other threads use the mailbox: the answers never change while the handles live.",
 ["histories","schedules"],"all histories of creating, converting, upgrading and dropping handles of several mailboxes, with concurrent activity, for all kinds of addresses and channels",
 "tests compare a few fresh pairs; handles serve as keys of maps, so no later state of the mailbox may change how they compare",
 ["xtra/src/address.rs","xtra/src/message_channel.rs","xtra/src/chan/ptr.rs"],[("PartialEq, Ord and Hash implementations","address.rs, message_channel.rs"),("strength of a reference counter","chan/ptr.rs: RefCounter::is_strong")],
 ["equality, order and hash of the handles at each step of a history"],None,HK)
p("C26","The Actor derive generates the documented implementation",
 "Deriving Actor on a struct or enum (generic or not) yields an implementation whose stop value is the unit and whose lifecycle callbacks do nothing, keeping all generic parameters and bounds.",
 ["programs"],"all supported type definitions","tests compile a few definitions",["macros/src/lib.rs"],[("derive macro","macros/src/lib.rs")])
p("C27","The spawn helpers run the actor on the named executor",
 "Each spawn helper gives the executor it is named after exactly what the caller could have spawned there by hand: a task of its own which runs the given actor on the given mailbox to its end (started, messages, stopped, also when the start fails), is not cancelled when the helper returns, holds no address and no other mailbox, and so keeps neither the actor nor the mailbox alive. The helper returns the address of that mailbox at once.",
 ["schedules","fault_sequences"],"all actors and mailboxes (also with several actors on one mailbox, queued messages, and other threads using it), on each supported executor, which may run the task before the helper returns",
 "the helpers have one example each, run to the first reply; what they keep alive or cancel only shows once addresses go away",["xtra/src/spawn.rs"],[("thin wrappers over the executors' spawn functions","spawn.rs")],
 ["executor in which the callbacks of the actor run","history of the same program with the task spawned by hand"],None,HK)
P.append(json.loads('{"id": "C28", "title": "Concurrent operations on a mailbox take effect one at a time", "statement": "When operations on one mailbox overlap on several threads (sending, broadcasting, polling or dropping a waiting send, receiving, polling or dropping a receive future, dispatching, cloning, downgrading, upgrading or dropping addresses, cloning or dropping mailboxes, joining, asking for the length or the connection), their results, the tasks they wake and everything that can be observed of the mailbox afterwards are those of the same steps executed one at a time in some order that keeps each thread\'s own order; a step is one call or one poll, whose queueing up and second look count as two.", "quantifier": {"over": ["schedules", "histories"], "text": "all states of the mailbox reachable by sequential operations, all pairs and triples of concurrent operations on it, all their interleavings"}, "why_tests_cant": "tests meet a handful of interleavings, chosen by the machine; whether two operations can interleave into a state no sequential execution reaches depends on preemption between particular instructions", "anchors": {"files": ["xtra/src/chan.rs", "xtra/src/chan/ptr.rs", "xtra/src/chan/waiting_sender.rs", "xtra/src/chan/waiting_receiver.rs", "xtra/src/recv_future.rs", "xtra/src/send_future.rs"], "state": [{"name": "Chan::chan", "meaning": "queues and waiting lists under one lock", "where": "xtra/src/chan.rs"}, {"name": "Chan::sender_count, Chan::receiver_count", "meaning": "counts outside the lock deciding shutdown and disconnection", "where": "xtra/src/chan.rs, xtra/src/chan/ptr.rs"}, {"name": "Chan::on_shutdown", "meaning": "listeners of join handles", "where": "xtra/src/chan.rs"}, {"name": "WaitingSender, WaitingReceiver", "meaning": "hand-over slots shared by a pending future and the channel", "where": "xtra/src/chan/waiting_sender.rs, xtra/src/chan/waiting_receiver.rs"}], "mechanism": [{"name": "one lock around the queues and the waiting lists, with counts and listeners outside of it", "where": "chan.rs"}, {"name": "hand-over between a completing operation and a cancelled one", "where": "chan/waiting_receiver.rs, chan/waiting_sender.rs"}], "observe_at": ["return values of every public operation", "which pending futures become ready", "the mailbox drained and released at the end"], "hook_needed": "cfg(xtra_sim): xtra\'s std paths resolve to the simulator\'s std facade, so locks and atomics become scheduling points"}}'))
P.append({"id": "C29", "title": "A mailbox holds on to nothing that is over",
"statement": "What an actor's mailbox, addresses and futures keep allocated is bounded by what is alive: the messages queued or being handled, the sends, broadcasts, receives and joins still pending, the addresses and mailboxes that exist. However many operations are begun and over (completed, cancelled or dropped, at whatever point) while the mailbox stays as it is (idle or full, with receivers or senders waiting, with or without actors or strong addresses), what is held does not grow with their number; and nothing is held once every handle and operation is gone.",
"quantifier": {"over": ["histories", "inputs", "schedules"], "text": "all operations and combinations of operations which leave a mailbox as it was, in every state of the mailbox, cancelled at every point, repeated without end, by one thread or several"},
"why_tests_cant": "tests are short: they repeat nothing and count no memory; a handle that is left behind does no harm until there are thousands, and the states in which it is left behind (an idle mailbox, a full one whose senders give up) are those in which nothing else would sweep it away",
"anchors": {"files": ["xtra/src/chan.rs", "xtra/src/chan/waiting_receiver.rs", "xtra/src/chan/waiting_sender.rs", "xtra/src/chan/broadcast_mailbox.rs", "xtra/src/recv_future.rs", "xtra/src/send_future.rs"],
"state": [{"name": "Inner::waiting_receivers_handles", "meaning": "handles of pending receives", "where": "xtra/src/chan.rs"}, {"name": "Inner::waiting_send_to_one, Inner::waiting_send_to_all", "meaning": "handles of waiting sends and broadcasts", "where": "xtra/src/chan.rs"}, {"name": "Inner::broadcast_queues", "meaning": "queues of the mailboxes", "where": "xtra/src/chan.rs"}, {"name": "Chan::on_shutdown", "meaning": "listeners of join handles", "where": "xtra/src/chan.rs"}],
"mechanism": [{"name": "removal of what a cancelled operation left in the channel", "where": "xtra/src/chan.rs cancel_waiting_receiver, push_waiting_sender, find_remove_highest_priority, remove_broadcast_queue"}],
"observe_at": ["allocations alive and bytes allocated, counted by the process's allocator, after ever more repetitions", "the same once every handle is gone"], "hook_needed": "none beyond cfg(xtra_sim)"}})
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
