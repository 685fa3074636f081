#!/usr/bin/env python3
"""Writes properties.jsonl (run after editing the list below)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
X = 'xtra/src/'
p('C01', 'Every accepted unicast message is handled exactly once',
  'A message whose send was accepted is handled exactly once, by exactly one of the actors sharing the address, as long as one of them keeps receiving. A message is never handled twice, and a message that was never sent is never handled. It is only left unhandled when its send was refused, when the last mailbox goes away first, or when the handling of it is abandoned.',
  ['histories', 'schedules', 'inputs'], 'every history of sends, receives, cancellations, mailbox clones and drops, every priority and capacity, every interleaving of senders, receivers and event loops',
  'The tests send a handful of messages in one order on a real executor; losing or doubling a message needs a particular queue content, cancellation point or interleaving.',
  [X+'chan.rs', X+'chan/waiting_receiver.rs', X+'chan/waiting_sender.rs', X+'recv_future.rs'],
  [('queue or direct hand-over to a waiting receiver, under one lock', X+'chan.rs try_send_to_one, try_recv'), ('waiting senders let in when room appears', X+'chan.rs pop_unicast')],
  ['handler invocations per message'])
p('C02', 'A broadcast is handled exactly once by every actor that had a mailbox',
  'A broadcast that was accepted is handled exactly once on each mailbox that existed when it entered the mailboxes, whatever the other mailboxes do, and by nobody else. It is never dropped for one mailbox because of another one, including when mailboxes are cloned or dropped around it.',
  ['histories', 'schedules', 'inputs'], 'every history of broadcasts, unicasts, receives on two mailboxes, clones and drops; every priority; every interleaving of a broadcaster with two event loops or a mailbox clone',
  'Existing tests broadcast to a fixed group of actors and look at the end state only.',
  [X+'chan.rs', X+'mailbox.rs', X+'recv_future.rs'], [('a queue per mailbox, filled under the channel lock', X+'chan.rs send_broadcast'), ('own queue popped on receive', X+'chan.rs pop_broadcast')], ['handler invocations per actor'])
p('C03', 'Messages of equal priority are handled in the order they were sent',
  'Of two messages of equal priority (in particular the default one) sent into the same mailbox, where the first send completed before the second began, the first is handed out first. This also holds for senders that had to wait for room: among equals, the one that has waited longest is let in first. It also holds among the broadcasts of equal priority on each mailbox; between a broadcast and a unicast message of equal priority no order is promised.',
  ['histories', 'inputs', 'schedules'], 'every history of up to N sends and receives, any priorities including equal ones, unbounded and bounded mailboxes',
  'Ordering violations depend on the shape of a heap: which priorities were queued before, how many, and what was popped in between. Tests only cover two or three fixed patterns.',
  [X+'chan.rs', X+'chan/priority.rs'], [('heap ordered by priority, then by age', X+'chan/priority.rs Ord for ByPriority'), ('oldest of the most urgent waiting senders', X+'chan.rs find_remove_highest_priority')], ['order of handler invocations'])
p('C04', 'The most urgent available message is handled next',
  'Whenever an actor takes a message from its mailbox, no message it could have taken instead (queued unicast or broadcast on its own mailbox) has a higher priority; a request to stop all actors is more urgent than any message. A receive that was already woken takes what it was woken for. When room appears in a full mailbox, the most urgent waiting sender is let in first.',
  ['histories', 'inputs'], 'all 32-bit priorities, every history of up to N sends, broadcasts and receives, capacities none, 1 and 2',
  'Priorities are 32-bit values compared across two queues and a waiting list; tests use a few fixed numbers.',
  [X+'chan.rs', X+'chan/priority.rs', X+'send_future.rs'], [('comparison of the heads of both queues', X+'chan.rs try_recv'), ('priority order', X+'chan/priority.rs'), ('highest waiting sender', X+'chan.rs find_remove_highest_priority')], ['order of handler invocations', 'order in which waiting sends complete'])
p('C05', 'A bounded mailbox admits exactly its capacity',
  'In a mailbox with capacity n, a send completes at once if and only if fewer than n messages of its kind are queued (or an actor is waiting for one), and otherwise waits until room appears; unicast and broadcast messages are counted separately, and broadcasts by the slowest mailbox. Whenever room appears, exactly as many waiting senders are let in as there is room. An unbounded mailbox never makes a sender wait.',
  ['histories', 'inputs', 'configurations'], 'capacities none, 1 and 2; every history of sends, broadcasts, receives, cancellations and mailbox drops up to the bound',
  'Back-pressure depends on the combination of queue contents, waiting senders and receivers; tests fill a mailbox once.',
  [X+'chan.rs', X+'chan/waiting_sender.rs'], [('fullness test per kind', X+'chan.rs is_unicast_full, is_broadcast_full'), ('length of the slowest broadcast mailbox', X+'chan.rs longest_broadcast_queue'), ('admission when room appears', X+'chan.rs pop_unicast, pop_broadcast')], ['whether a send is pending', 'wake-up of senders'])
p('C06', 'Nobody waits forever: no wake-up is lost',
  'A send, receive, response or event loop that can make progress is woken: once every task has been run as often as it was woken, no sender waits while there is room, no receiver waits while a message for it is queued, and no event loop is asleep with work to do. No combination of concurrent operations deadlocks or blocks for ever.',
  ['schedules', 'histories'], 'every interleaving of two to four tasks up to the preemption bound, and every sequential history up to the bound',
  'A lost wake-up needs one specific interleaving; on a real executor it shows as a rare hang.',
  [X+'chan.rs', X+'chan/waiting_receiver.rs', X+'chan/waiting_sender.rs', X+'recv_future.rs', X+'send_future.rs'], [('registration under the lock', X+'chan.rs try_recv, try_send_to_one'), ('waking of all waiting receivers on broadcast', X+'chan.rs send_broadcast'), ('shutdown of waiting parties', X+'chan.rs shutdown_waiting_receivers, shutdown_waiting_senders')], ['completion of every task at quiescence'])
p('C07', 'When the last mailbox is gone every sender learns of it',
  'Once no mailbox (including receives and handlers in progress) is left, every send, past or future, completes: unhandled messages are dropped, waiting senders and later sends get Disconnected, those awaiting a response get Interrupted, and the addresses report being disconnected. This holds for a send racing with the drop of the last mailbox, and no message is left queued. Before that point, no sender is refused.',
  ['schedules', 'histories'], 'every interleaving of a sender with the drop of the last mailbox; every history of sends, receives and mailbox drops',
  'The window between looking whether anybody is connected and queueing the message is a few instructions wide.',
  [X+'chan.rs', X+'chan/ptr.rs', X+'chan/waiting_sender.rs', X+'send_future.rs'], [('receiver count', X+'chan.rs on_receiver_dropped'), ('queues cleared, waiting senders closed', X+'chan.rs shutdown_waiting_senders'), ('connectivity tested with the lock held', X+'chan.rs try_send_to_one, try_send_to_all')], ['result of sends and responses', 'is_connected'])
p('C08', 'Actors live exactly as long as strong addresses exist',
  'As long as at least one strong address (or strong message channel or sink) exists the actors keep running; when the last one is dropped, each actor handles what is still queued and then stops. Weak addresses never keep an actor alive, can be upgraded exactly as long as a strong one exists, and an upgrade never brings a stopped actor back.',
  ['schedules', 'histories'], 'every history of clones, conversions, upgrades and drops of strong, weak and either addresses; every interleaving of the last drop with an upgrade, another drop and the event loop',
  'Reference counts go wrong through one missing or extra step in one conversion, or through a race of the last drop with an upgrade.',
  [X+'chan/ptr.rs', X+'chan.rs', X+'address.rs'], [('sender count', X+'chan.rs on_sender_created, on_sender_dropped'), ('upgrade only from a non-zero count', X+'chan/ptr.rs TxStrong::try_new'), ('shutdown of waiting receivers', X+'chan.rs shutdown_waiting_receivers')], ['end of the event loop', 'try_upgrade'])
p('C09', 'stop_all stops every actor on the address, overtaking queued messages',
  'After an actor asked for all actors to stop, each actor on the address (itself included) finishes the message it is handling and then stops without handling any other message, whatever is queued, at whatever priority, and however full or lagging the mailboxes are. Idle actors are woken for it. Afterwards the address is disconnected.',
  ['histories', 'schedules', 'inputs'], 'every history of messages, broadcasts and polls of two event loops around the request; every interleaving of two event loops and a sender',
  'The tests stop a group of idle actors; the interesting cases have full mailboxes, busy actors and competing messages.',
  [X+'context.rs', X+'chan.rs', X+'envelope.rs', X+'lib.rs'], [('shutdown broadcast above every priority, ignoring capacity', X+'chan.rs shutdown_all_receivers'), ('priority Shutdown', X+'chan/priority.rs')], ['messages handled after the request', 'end of event loops'])
p('C10', 'Event loop: started first, one message at a time, stopped exactly once',
  'The event loop calls started exactly once and before any message; if it fails, its value is the result, no message is handled and stopped is not called. Otherwise messages are handled one after the other until the actor stops itself, all are stopped or the last strong address is gone; the message at hand is always completed, nothing is handled after it, stopped is called exactly once and its value is the result of the event loop.',
  ['histories', 'schedules', 'inputs'], 'every history of messages that stop one or all actors, polls of the loops in any order, loops dropped half-way; start-up failing or suspended',
  'Tests cover single stop requests with an otherwise empty mailbox.',
  [X+'lib.rs', X+'context.rs', X+'dispatch_future.rs', X+'envelope.rs'], [('event loop', X+'lib.rs run, yield_once'), ('running flag', X+'context.rs stop_self'), ('control flow of a handler', X+'envelope.rs handle')], ['calls of started, handlers and stopped', 'result of the event loop'])
p('C11', 'A sender receives exactly its own response',
  'A send that is awaited yields the value its handler returned for that very message, once the handler is complete and not before; detaching separates the two steps without changing either. If the message is destroyed without its handler completing, the sender gets Interrupted. A response nobody waits for any more does not disturb the actor.',
  ['histories', 'inputs', 'schedules'], 'arbitrary payloads; response awaited, detached, polled early, late or dropped; message handled, refused, dropped, or handling abandoned',
  'A mixed-up or lost response needs several requests in flight, or a response dropped at a particular moment.',
  [X+'envelope.rs', X+'send_future.rs'], [('one-shot channel per message', X+'envelope.rs ReturningEnvelope'), ('two-phase future', X+'send_future.rs')], ['output of send futures and receivers'])
p('C12', 'join and scoped tasks end exactly when the actor is gone',
  'Waiting for an actor to stop completes, for every waiter, once its last mailbox is gone, also if that happens while the wait is being set up, and not while the address is connected. A task scoped to an actor yields its own result if it completes first, and nothing once the actor is gone; in either case it does not hang.',
  ['schedules', 'histories'], 'every interleaving of one or two waiters (or a scoped task) with the drop of the last mailbox or the end of the event loop; every history of sends and drops',
  'The race between registering and the last drop is a few instructions wide.',
  [X+'address.rs', X+'scoped_task.rs', X+'chan.rs'], [('listener created before the test', X+'chan.rs disconnect_listener'), ('notification on last receiver drop', X+'chan.rs shutdown_waiting_senders')], ['completion of join and scoped'])
p('C13', 'Equality, order and hash of addresses are consistent',
  'Equality of addresses means same actor and same strength, whatever mixture of strong, weak and either-type addresses is compared; order is total and antisymmetric and agrees with equality; equal addresses have equal hashes, and same_actor ignores strength. The same holds for message channels.',
  ['inputs', 'programs'], 'every pair of addresses or channels over two actors and three reference-count types, and every pair of memory positions of the two actors',
  'Which of two actors compares as smaller depends on memory addresses, so a test sees only one order.',
  [X+'address.rs', X+'message_channel.rs', X+'chan/ptr.rs'], [('comparison by channel pointer, then strength', X+'address.rs'), ('hash of the same two', X+'address.rs, '+X+'message_channel.rs')], ['results of ==, cmp, hash, same_actor'])
p('C14', 'Reported counts, connectedness and conversions are true',
  'is_connected holds exactly while at least one strong address and at least one mailbox exist; the counts shown in the Debug output are those of the strong addresses and of the mailboxes (with receives and handlers in progress). Cloning, downgrading, converting to either and upgrading change them exactly as documented: weak ones never count, everything else by one.',
  ['histories', 'schedules'], 'every history of address and mailbox operations up to the bound',
  'A conversion that counts wrongly is invisible until, much later, an actor dies early or never.',
  [X+'chan/ptr.rs', X+'address.rs', X+'message_channel.rs', X+'mailbox.rs'], [('counting policies', X+'chan/ptr.rs RefCounter'), ('is_connected', X+'chan.rs')], ['is_connected', 'Debug output', 'try_upgrade'])
p('C15', 'len, is_empty and capacity tell the truth',
  'The reported length is at every moment the number of queued unicast messages plus the number of broadcasts the slowest mailbox has yet to take (a pending request to stop all included); is_empty means length zero; the capacity is the one the mailbox was created with. Messages being waited with, handed over or handled do not count.',
  ['histories', 'inputs'], 'every history of sends, broadcasts, receives, cancellations and mailbox clones and drops up to the bound',
  'The length is kept partly by counting, so one missed update shows only after a particular sequence.',
  [X+'chan.rs', X+'address.rs'], [('broadcast tail', X+'chan.rs send_broadcast, pop_broadcast'), ('len', X+'chan.rs')], ['len, is_empty, capacity'])
p('C16', 'A cancelled send leaves no trace',
  'If a send that is waiting for room is dropped, its message is destroyed and never handled, it takes up no room, does not keep other senders waiting and does not affect the order of the others. If the drop races with the mailbox making room, the message is either handled once or never.',
  ['histories', 'schedules'], 'every history with cancellations at any point; every interleaving of a cancellation with an actor making room',
  'Needs a full mailbox, a cancelled sender at a particular place of the waiting list and a later receive.',
  [X+'chan/waiting_sender.rs', X+'chan.rs', X+'send_future.rs'], [('weak handle to the waiting sender', X+'chan/waiting_sender.rs'), ('inactive handles skipped', X+'chan.rs find_remove_highest_priority, try_take_waiting_unicast_message')], ['handler invocations', 'destruction of the message'])
p('C17', 'A cancelled receive loses nothing',
  'If a receive is dropped at any moment, a message that was already handed to it goes to another waiting receive or back into the mailbox and is handled exactly once; broadcasts stay in the mailbox. This also holds when the drop races with a send.',
  ['schedules', 'histories'], 'every history with receives dropped at any point; every interleaving of a dropped receive with senders and another receiver',
  'The loss needs a message to arrive between two instructions of the drop.',
  [X+'recv_future.rs', X+'chan/waiting_receiver.rs', X+'chan.rs'], [('drop of a waiting receive', X+'recv_future.rs Drop for Waiting'), ('cancellation under the lock, message queued again', X+'chan.rs cancel_receiver')], ['handler invocations', 'wake-up of other receivers'])
p('C18', 'select, join and yield_once keep handling messages and never lose one',
  'While select or join runs, messages are handled as in the event loop and the future is polled whenever it is woken; select returns the future\'s value when it completes and hands the future back as soon as the actor was told to stop, and join always returns the value, handling no message after a stop. yield_once handles exactly one message and reports whether to go on. No message is lost or handled twice by any of them.',
  ['histories', 'schedules', 'inputs'], 'every history of messages (ordinary, suspended, stopping), completions of the future and polls up to the bound',
  'The behaviour depends on which of two things becomes ready first and on what was received when the other one won.',
  [X+'lib.rs', X+'recv_future.rs'], [('select loop with one final receive', X+'lib.rs select'), ('join on top of select', X+'lib.rs join')], ['result of select, join, yield_once', 'handler invocations'])
p('C19', 'User code run by the library may use the library',
  'A message, response or future that is destroyed inside the library may, in its destructor (or, for a broadcast message, while it is cloned), drop addresses (the last one included) and mailboxes, send messages and query addresses of the same actor: nothing deadlocks, panics or is lost. Messages are never destroyed while the channel is locked.',
  ['histories', 'inputs'], 'every place where a message is destroyed (queued, waiting, broadcast, handed over, refused, abandoned) combined with every kind of use of the address in its destructor',
  'Tests use messages without destructors.',
  [X+'chan.rs', X+'chan/waiting_sender.rs', X+'recv_future.rs'], [('queues emptied under the lock, destroyed after it', X+'chan.rs shutdown_waiting_senders'), ('refused message returned past the lock', X+'chan.rs try_send_to_one')], ['termination'])
p('C20', 'Sinks deliver every item once, in order, with back-pressure',
  'Every item accepted by a sink made from an address or message channel is sent exactly once, in order and with the default priority; the sink is ready for the next item only after the previous one was handled to completion, and reports the error when the actor is gone. The sink keeps the actor alive exactly if it was made from something strong.',
  ['histories', 'inputs'], 'every history of readiness polls, items, flushes and actor steps up to the bound, strong and weak, bounded and unbounded',
  'Only a single forward is tested.',
  [X+'address.rs', X+'message_channel.rs'], [('unfold over send', X+'address.rs into_sink, '+X+'message_channel.rs into_sink')], ['poll_ready, poll_flush', 'handler invocations'])
p('C21', 'A panicking handler harms nobody else',
  'If a handler (or the started or stopped method of an actor) panics, its event loop ends, its sender gets Interrupted and its mailbox is gone; everything else goes on: other actors on the address keep handling all other messages, no lock stays poisoned or held, counts stay right and later sends behave as if that actor had stopped.',
  ['histories', 'fault_sequences'], 'every history of messages, among them panicking ones (unicast and broadcast), over one and two event loops and any priorities',
  'Needs a panic with other messages queued, waiting and being received at the same time.',
  [X+'dispatch_future.rs', X+'chan.rs', X+'envelope.rs', X+'recv_future.rs'], [('user code runs outside the lock; drops clean up', X+'dispatch_future.rs')], ['responses', 'handler invocations of others', 'counts'])
p('C22', 'Abandoning a handler or a received message is contained',
  'If the handling of a message is dropped half-way, or a received message is dropped without being dispatched, exactly that message is destroyed (once), its sender gets Interrupted, and mailbox, counts and all other messages are as if it had been handled.',
  ['histories', 'crash_points'], 'a handler abandoned at every suspension point, before its first poll, or the message never dispatched, within every short history of sends and receives',
  'Timeouts on handlers are rare; tests cover one.',
  [X+'dispatch_future.rs', X+'recv_future.rs', X+'envelope.rs'], [('ownership of message, mailbox and response by the future', X+'dispatch_future.rs')], ['responses', 'destruction of the message', 'later receives'])
p('C23', 'Everything is destroyed exactly once and nothing leaks',
  'Every message value ever created (clones for broadcasts included) is destroyed exactly once, at the latest when the last address, mailbox and future are gone; at that point all memory of the actor system is released. No history accesses freed memory.',
  ['histories', 'schedules'], 'every explored history and interleaving; memory accounting over histories of sends, broadcasts, cancellations, joins and drops',
  'Leaks and double drops on rare paths do not fail a test.',
  [X+'chan.rs', X+'chan/ptr.rs', X+'chan/waiting_receiver.rs', X+'chan/waiting_sender.rs', X+'envelope.rs'], [('weak links from channel to waiting parties and mailboxes', X+'chan.rs, '+X+'chan/waiting_sender.rs')], ['destructor counts', 'live heap allocations'])
p('C24', 'Instrumentation is complete and does not change behaviour',
  'With instrumentation enabled, each message has one request span (child of the span it was sent in), a waiting span that ends before its handler starts, and a handler span inside the request span that is entered while and only while its handler runs; all are closed once message and response are gone. Delivery is the same as without.',
  ['histories', 'inputs'], 'every short history of sends, broadcasts, receives and cancellations with a recording subscriber',
  'Tests look at the log lines of single messages.',
  [X+'instrumentation/tracing.rs', X+'envelope.rs', X+'dispatch_future.rs', X+'chan.rs'], [('spans', X+'instrumentation/tracing.rs'), ('start of the request span', X+'chan.rs try_send_to_one, try_send_to_all')], ['span events'])
p('C25', 'A message channel behaves like the address it was made from',
  'Sending through a message channel (strong, weak or either; cloned, downgraded or converted) has the same effect as sending through the corresponding address: same delivery, response, priority, back-pressure, errors and join. Its length, capacity, connectedness, counts, equality and hash agree with the address at all times, and it keeps the actor alive exactly if it is strong.',
  ['histories', 'inputs', 'programs'], 'every history of channel operations up to the bound, over all reference-count types, with address observations alongside',
  'The channel repeats every operation of an address behind a trait object; tests cover a few of them.',
  [X+'message_channel.rs', X+'send_future.rs'], [('delegation to the address', X+'message_channel.rs MessageChannelTrait'), ('type-erased send', X+'send_future.rs sending_erased')], ['everything observable of the channel'])
p('C26', 'The Actor derive macro expands to the documented implementation',
  'Deriving Actor for a type definition of any kind (unit, tuple or named struct, enum) with any lifetime, type and const parameters, bounds, defaults, where clause, attributes and visibility expands to one implementation of xtra::Actor for that very type with all its parameters, under exactly the bounds the definition has plus Send and \'static for every type parameter; its Stop is (), stopped does nothing and started succeeds.',
  ['programs', 'inputs'], 'all type definitions the macro accepts (within the bounded grammar of the check)', 'The tests expand three or four type definitions and only see whether they compile; a lost bound, parameter or where clause shows for particular combinations only.', ['macros/src/lib.rs'], [('derive', 'macros/src/lib.rs')])
p('C27', 'Spawning on a runtime runs the actor to completion',
  'spawn_tokio, spawn_async_std, spawn_smol and spawn_wasm_bindgen hand the event loop of the actor to that runtime and return the address they were given. Whenever the runtime gets round to polling it, the actor starts, handles every message sent before and after, and stops when it is told to or when the last strong address is dropped; nothing that happens in or after the call (the return from spawn, the dropping of task handles, the order of polls) ends it before or keeps it alive beyond that.',
  ['schedules', 'configurations', 'histories'], 'all histories of messages, stops, address drops and polls of the spawned tasks in any order, on each of the four runtimes', 'Tests spawn on one or two runtimes, in one order of events.', [X+'spawn.rs', X+'lib.rs'], [('spawn functions', X+'spawn.rs'), ('event loop', X+'lib.rs')])
p('C28', 'Futures are spent once: late priorities and polls after the end do no harm',
  'A send or broadcast that was never polled does nothing. Its priority (through an address or a channel, awaited or detached) can be set any number of times until the future is first polled, the last one counts; set later, it panics as documented, the future counts as dropped, and a message already queued keeps its priority. A future that has completed (send, broadcast, detached send, receive, dispatch) never yields a second success: polled again it panics or reports an error, and neither takes, sends nor handles a message by it. A receive future says it is terminated exactly when it has completed. The mailbox works on unaffected.',
  ['histories', 'inputs'], 'all histories of polls, priorities, receives, repeated polls and drops up to the bound, all priorities', 'Tests await futures once, in the documented order.', [X+'send_future.rs', X+'recv_future.rs', X+'dispatch_future.rs'],
  [('state machines', X+'send_future.rs Sending'), ('receive states', X+'recv_future.rs Receiving'), ('dispatch states', X+'dispatch_future.rs State')], ['panics', 'is_terminated', 'handled messages', 'length'])
p('C29', 'Abandoned and completed operations leave nothing behind',
  'Whatever a send, broadcast, receive, join, scoped or selected future, sink item, event loop or clone of an address, channel or mailbox needs while it is under way does not stay behind once it has completed or was dropped, waiting for some later event that may never come: repeating such operations any number of times, alone, nested or overlapping, while the mailbox is empty or full and others wait, does not make the memory held for the mailbox grow; afterwards it works as before.',
  ['histories', 'sizes'], 'any two operations begun and given up in turn, nested or overlapping, over and over, on an empty or full mailbox, with or without others waiting', 'Tests do an operation once or twice; what piles up shows after hours of timeouts on an idle or stuck actor.',
  [X+'chan.rs', X+'chan/waiting_receiver.rs', X+'chan/waiting_sender.rs', X+'recv_future.rs', X+'send_future.rs', X+'chan/ptr.rs'], [('queues of waiting parties', X+'chan.rs waiting_send_to_one, waiting_send_to_all, waiting_receivers_handles'), ('cancellation', X+'chan.rs cancel_receiver, push_waiting'), ('list of broadcast queues', X+'chan.rs broadcast_queues')], ['live heap allocations', 'sends and receives afterwards'])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for q in P:
        assert len(q['title']) <= 80, q['title']
        f.write(json.dumps(q) + '\n')
print(len(P), 'properties')
